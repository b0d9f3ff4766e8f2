import re
F='src/identifier.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b,n) if n else s.replace(a,b)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
CAP='''fn capitalize(word: &str) -> String {
    let mut chars = word.chars();

    match chars.next() {
        None => String::new(),
        Some(first) => first.to_uppercase().collect::<String>() + &chars.as_str().to_lowercase(),
    }
}

'''
def i1(s):
    i,j=cut(s,'        let words = split_words(&self.original);','    // This function returns a `PascalCase`')
    s=s[:i]+'''        let words = split_words(&self.original);
        let mut result = String::new();

        for (i, word) in words.iter().enumerate() {
            if i == 0 {
                result.push_str(&word.to_lowercase());
            } else {
                result.push_str(&capitalize(word));
            }
        }

        result
    }

'''+s[j:]
    return s.replace('// This function splits a name',CAP+'// This function splits a name',1)
mk('i-camel-loop',i1)
def i1b(s):
    i,j=cut(s,'        split_words(&self.original)\n            .iter()\n            .map(|word| {','    // This function concatenates')
    s=s[:i]+'''        split_words(&self.original).iter().map(|word| capitalize(word)).collect()
    }

'''+s[j:]
    return s.replace('// This function splits a name',CAP+'// This function splits a name',1)
mk('i-pascal-fn',i1b)
def i1c(s):
    i,j=cut(s,'        let words = split_words(&self.original);','    // This function returns a `PascalCase`')
    s=s[:i]+'''        let words = split_words(&self.original);

        match words.split_first() {
            None => String::new(),
            Some((first, rest)) => {
                let mut result = first.to_lowercase();

                for word in rest {
                    result.push_str(&capitalize(word));
                }

                result
            }
        }
    }

'''+s[j:]
    return s.replace('// This function splits a name',CAP+'// This function splits a name',1)
mk('i-camel-first',i1c)
def i2(s):
    i,j=cut(s,'    let mut snaked','}\n',) if 0 else (s.index('    let mut snaked'),len(s))
    return s[:i]+'''    let mut words = vec![];
    let mut word = String::new();

    for c in name.chars() {
        if c == '_' || c == '-' {
            if !word.is_empty() {
                words.push(word);
                word = String::new();
            }

            continue;
        }

        if c.is_uppercase() && !word.is_empty() {
            words.push(word);
            word = String::new();
        }

        word.push(c);
    }

    if !word.is_empty() {
        words.push(word);
    }

    words
}
'''
mk('i-split-loop',i2)
def i3(s):
    i=s.index('    snaked\n        .split'); 
    return s[:i]+'''    snaked
        .split(['_', '-'])
        .filter(|word| !word.is_empty())
        .map(ToOwned::to_owned)
        .collect()
}
'''
mk('i-split-chars',i3)
def i3b(s):
    i=s.index('    snaked\n        .split'); 
    return s[:i]+'''    let mut words = vec![];

    for word in snaked.split(|c: char| c == '_' || c == '-') {
        if !word.is_empty() {
            words.push(word.to_owned());
        }
    }

    words
}
'''
mk('i-split-for',i3b)
def i4(s):
    i,j=cut(s,'    fn from(string: &str)','impl CodeStr')
    return s[:i]+'''    fn from(string: &str) -> Self {
        let mut snake_case = String::new();

        for word in split_words(string) {
            if !snake_case.is_empty() {
                snake_case.push('_');
            }

            snake_case.push_str(&word.to_lowercase());
        }

        Identifier {
            original: string.to_owned(),
            snake_case,
        }
    }
}

'''+s[j:]
mk('i-from-loop',i4)
def i4b(s):
    i,j=cut(s,'    fn from(string: &str)','impl CodeStr')
    return s[:i]+'''    fn from(string: &str) -> Self {
        let words: Vec<String> = split_words(string)
            .into_iter()
            .map(|word| word.to_lowercase())
            .collect();

        Self {
            snake_case: words.join("_"),
            original: string.into(),
        }
    }
}

'''+s[j:]
mk('i-from-words',i4b)
mk('i-join-from',lambda s: sub(s,'AsRef::<str>::as_ref(&format!("{}_{}", self.original, other.original)).into()','Identifier::from(format!("{}_{}", self.original, other.original).as_str())'))
mk('i-join-concat',lambda s: sub(s,'AsRef::<str>::as_ref(&format!("{}_{}", self.original, other.original)).into()','Identifier::from([self.original(), other.original()].join("_").as_str())'))
mk('i-join-push',lambda s: sub(s,'AsRef::<str>::as_ref(&format!("{}_{}", self.original, other.original)).into()','''let mut name = self.original.clone();
        name.push('_');
        name.push_str(&other.original);
        Identifier::from(name.as_str())'''))
mk('i-eq-cmp',lambda s: sub(s,'self.snake_case == other.snake_case','self.cmp(other) == Ordering::Equal'))
mk('i-eq-str',lambda s: sub(s,'self.snake_case == other.snake_case','self.snake_case.as_str().eq(other.snake_case.as_str())'))
