import re
F='src/tokenizer.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b) if n==0 else s.replace(a,b,n)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
KW=['As','Asymmetric','Bool','Bytes','Choice','Deleted','F64','Import','Optional','S64','String','Struct','U64','Unit']
def kwcut(s):
    return cut(s,'                if &schema_contents[i..end] == AS_KEYWORD {','                } else {\n                    let start = if c == RAW')
def t1(s):
    i,j=kwcut(s)
    return s[:i]+'''                if let Some(variant) = keyword(&schema_contents[i..end]) {
                    tokens.push(Token {
                        source_range: SourceRange { start: i, end },
                        variant,
                    });
'''+s[j:]+'''
fn keyword(word: &str) -> Option<Variant> {
    match word {
'''+''.join('        %s_KEYWORD => Some(Variant::%s),\n'%(k.upper(),k) for k in KW)+'''        _ => None,
    }
}
'''
mk('t-keyword-fn',t1)
def t1b(s):
    s=t1(s); i=s.index('fn keyword(word')
    return s[:i]+'''fn keyword(word: &str) -> Option<Variant> {
    [
'''+''.join('        (%s_KEYWORD, Variant::%s),\n'%(k.upper(),k) for k in KW)+'''    ]
    .into_iter()
    .find(|(keyword, _)| *keyword == word)
    .map(|(_, variant)| variant)
}
'''
mk('t-keyword-table',t1b)
def syms(s): return cut(s,"            ':' => {\n","\n            // If the first code point is alphabetic")
SY=[(':','Colon'),('.','Dot'),('=','Equals'),('{','LeftCurly'),('[','LeftSquare'),('}','RightCurly'),(']','RightSquare')]
def t3(s):
    i,j=syms(s)
    return s[:i]+''.join("            '%s' => tokens.push(symbol(i, Variant::%s)),\n"%x for x in SY)+s[j:]+'''
fn symbol(start: usize, variant: Variant) -> Token {
    Token {
        source_range: SourceRange {
            start,
            end: start + 1,
        },
        variant,
    }
}
'''
mk('t-symbol-fn',t3)
def t3b(s):
    i,j=syms(s)
    return s[:i]+"            ':' | '.' | '=' | '{' | '[' | '}' | ']' => {\n                let variant = match c {\n"+''.join("                    '%s' => Variant::%s,\n"%x for x in SY[:-1])+'''                    _ => Variant::RightSquare,
                };
                tokens.push(Token {
                    source_range: SourceRange {
                        start: i,
                        end: i + c.len_utf8(),
                    },
                    variant,
                });
            }
'''+s[j:]
mk('t-symbol-merged',t3b)
LP='''                let mut end = schema_contents.len();

                while let Some((j, d)) = iter.peek() {
                    if %s {
                        iter.next();
                    } else {
                        end = *j;
                        break;
                    }
                }
'''
C1="d.is_alphanumeric() || *d == '_'"; C2='d.is_ascii_digit()'
def t4(s):
    s=sub(s,LP%C1,"                let end = scan(&mut iter, schema_contents, |d| d.is_alphanumeric() || d == '_');\n")
    s=sub(s,LP%C2,"                let end = scan(&mut iter, schema_contents, |d| d.is_ascii_digit());\n")
    return s+'''
fn scan<F: Fn(char) -> bool>(
    iter: &mut std::iter::Peekable<std::str::CharIndices>,
    contents: &str,
    accept: F,
) -> usize {
    while let Some((j, d)) = iter.peek() {
        if !accept(*d) {
            return *j;
        }

        iter.next();
    }

    contents.len()
}
'''
mk('t-scan-fn',t4)
def t4b(s):
    s=sub(s,LP%C2,'''                while iter.next_if(|(_, d)| d.is_ascii_digit()).is_some() {}
                let end = iter.peek().map_or(schema_contents.len(), |(j, _)| *j);
''')
    return sub(s,LP%C1,'''                while iter
                    .next_if(|(_, d)| d.is_alphanumeric() || *d == '_')
                    .is_some()
                {}
                let end = iter.peek().map_or(schema_contents.len(), |(j, _)| *j);
''')
mk('t-next-if2',t4b)
def t4c(s):
    return sub(s,LP%C1,'''                let end = schema_contents[i + c.len_utf8()..]
                    .find(|d: char| !d.is_alphanumeric() && d != '_')
                    .map_or(schema_contents.len(), |offset| i + c.len_utf8() + offset);

                while iter.peek().map_or(false, |(j, _)| *j < end) {
                    iter.next();
                }
''')
mk('t-find-end',t4c)
def t4d(s): # end tracked forward
    return sub(s,LP%C2,'''                let mut end = i + 1;

                while let Some((j, d)) = iter.peek() {
                    if !d.is_ascii_digit() {
                        break;
                    }

                    end = j + 1;
                    iter.next();
                }
''')
mk('t-digit-forward',t4d)
def t4e(s):
    return sub(s,LP%C1,'''                let mut end = i + c.len_utf8();

                while let Some(&(j, d)) = iter.peek() {
                    if !(d.is_alphanumeric() || d == '_') {
                        break;
                    }

                    end = j + d.len_utf8();
                    iter.next();
                }
''')
mk('t-ident-forward',t4e)
def t5(s):
    i,j=cut(s,'                    if start == end {\n                        errors.push','                    tokens.push(Token {\n                        source_range: SourceRange { start: i, end },\n                        variant: Variant::Identifier')
    b=s[i:j]
    return s[:i]+'''                    check_identifier(schema_path, schema_contents, i, start, end, &mut errors);

'''+s[j:]+'''
fn check_identifier(
    schema_path: &Path,
    schema_contents: &str,
    i: usize,
    start: usize,
    end: usize,
    errors: &mut Vec<Error>,
) {
'''+b.rstrip()+'\n}\n'
mk('t-identifier-fn',t5)
def t5b(s):
    i,j=cut(s,'                    if start == end {\n                        errors.push','                    tokens.push(Token {\n                        source_range: SourceRange { start: i, end },\n                        variant: Variant::Identifier')
    return s[:i]+'''                    let name = &schema_contents[start..end];
                    let mut complain = |message: &str| {
                        errors.push(throw::<Error>(
                            message,
                            Some(schema_path),
                            Some(&listing(schema_contents, SourceRange { start: i, end })),
                            None,
                        ));
                    };

                    match name.chars().next() {
                        None => complain("Identifiers cannot be empty."),
                        Some('_') => complain("Identifiers cannot begin with `_`."),
                        Some(first) if first.is_numeric() => {
                            complain("Identifiers cannot begin with a digit.");
                        }
                        Some(_) => {}
                    }

'''+s[j:]
mk('t-identifier-match',t5b)
def t6(s):
    i,j=cut(s,'                let mut end = i;\n\n                for (j, d) in &mut iter','                if end == i {')
    s=s[:i]+"                let end = iter.by_ref().find(|(_, d)| *d == '\\'').map_or(i, |(j, _)| j);\n\n"+s[j:]
    return s
mk('t-path-find',t6)
def t6b(s):
    i,j=cut(s,'                let mut end = i;\n\n                for (j, d) in &mut iter','            // Read comments.')
    b=s[i:j]
    k=b.index('                    errors.push('); l=b.index('                } else {\n                    tokens.push')
    e=b[k:l]; t=b[l+len('                } else {\n'):]
    t=t[:t.rindex('                }\n            }')]
    return s[:i]+'''                let mut closing = None;

                for (j, d) in iter.by_ref() {
                    if d == '\\'' {
                        closing = Some(j);
                        break;
                    }
                }

                if let Some(end) = closing {
'''+t+'                } else {\n'+e+'                }\n            }\n\n'+s[j:]
mk('t-path-closing',t6b)
def t7(s):
    i,j=cut(s,'                let mut paragraphs = vec![];\n','                tokens.push(Token {\n                    source_range: SourceRange {\n                        start: i,\n                        end: line_end')
    b=s[i:j]
    return s[:i]+'                let paragraphs = join_paragraphs(lines);\n\n'+s[j:]+'''
fn join_paragraphs(lines: Vec<String>) -> Vec<String> {
'''+b+'''                paragraphs
}
'''
mk('t-paragraphs-fn',t7)
def t8(s):
    i,j=cut(s,'                let mut paragraphs = vec![];\n','                tokens.push(Token {\n                    source_range: SourceRange {\n                        start: i,\n                        end: line_end')
    return s[:i]+'''                let paragraphs = lines
                    .split(|line| line.is_empty())
                    .filter(|paragraph| !paragraph.is_empty())
                    .map(|paragraph| paragraph.join(" "))
                    .collect::<Vec<_>>();

'''+s[j:]
mk('t-paragraphs-split',t8)
def t8b(s):
    i,j=cut(s,'                for line in lines {\n','                tokens.push(Token {\n                    source_range: SourceRange {\n                        start: i,\n                        end: line_end')
    return s[:i]+'''                for line in &lines {
                    if line.is_empty() {
                        if !paragraph.is_empty() {
                            paragraphs.push(std::mem::take(&mut paragraph));
                        }

                        continue;
                    }

                    if !paragraph.is_empty() {
                        paragraph.push(' ');
                    }

                    paragraph.push_str(line);
                }

                if !paragraph.is_empty() {
                    paragraphs.push(paragraph);
                }

'''+s[j:]
mk('t-paragraphs-take',t8b)
def t9(s):
    i,j=cut(s,'                    for (j, d) in &mut iter {\n                        if d == \'\\n\' {','                    lines.push(')
    return s[:i]+'''                    while let Some((j, d)) = iter.next() {
                        if d == '\\n' {
                            line_end = j;
                            break;
                        }
                    }

'''+s[j:]
mk('t-comment-while',t9)
def t9b(s):
    i,j=cut(s,"                let mut line_end = schema_contents.len();\n                let mut lines","                let mut paragraphs = vec![];")
    return s[:i]+'''                let mut lines = vec![];

                let line_end = loop {
                    let line_end = iter
                        .by_ref()
                        .find(|(_, d)| *d == '\\n')
                        .map_or(schema_contents.len(), |(j, _)| j);

                    lines.push(schema_contents[line_start..line_end].trim().to_owned());

                    while let Some((_, d)) = iter.peek() {
                        if !d.is_whitespace() || *d == '\\n' {
                            break;
                        }

                        iter.next();
                    }

                    match iter.peek() {
                        Some((j, '#')) => line_start = j + 1,
                        _ => break line_end,
                    }
                };

'''+s[j:]
mk('t-comment-break',t9b)
def t10(s):
    i,j=cut(s,'                let mut cursor = GraphemeCursor','                // Now that we\'ve computed')
    s=s[:i]+'                let end = grapheme_end(schema_contents, i);\n\n'+s[j:]
    return s+'''
fn grapheme_end(contents: &str, start: usize) -> usize {
    let mut cursor = GraphemeCursor::new(start, contents.len(), true);

    cursor.next_boundary(contents, 0).unwrap().unwrap()
}
'''
mk('t-grapheme-fn',t10)
def t11(s):
    i,j=cut(s,'    // If there are any errors at this point','\n}\n')
    return s[:i]+'''    if errors.is_empty() {
        Ok(tokens)
    } else {
        Err(errors)
    }'''+s[j:]
mk('t-final',t11)
def t12(s):
    h,t=s.split('// Tokenize the contents of a schema file.\n')
    t=re.sub(r'Token \{\n\s*source_range: SourceRange \{ start: i, end \},\n\s*variant: (Variant::\w+(?:\([^\n]*\))?),\n\s*\}',r'token(i, end, \1)',t)
    return h+'// Tokenize the contents of a schema file.\n'+t+'''
fn token(start: usize, end: usize, variant: Variant) -> Token {
    Token {
        source_range: SourceRange { start, end },
        variant,
    }
}
'''
mk('t-token-fn',t12)
def t13(s):
    i,j=cut(s,'                match schema_contents[i..end].parse::<usize>() {','            // If the first code point is a single quote')
    b=s[i:j]
    k=b.index('                        errors.push('); l=b.index('                    }\n                }\n            }')
    return s[:i]+'''                if let Ok(integer) = schema_contents[i..end].parse::<usize>() {
                    tokens.push(Token {
                        source_range: SourceRange { start: i, end },
                        variant: Variant::Integer(integer),
                    });
                } else {
'''+b[k:l]+'                }\n            }\n\n'+s[j:]
mk('t-integer-iflet',t13)
def t13b(s):
    i,j=cut(s,'                match schema_contents[i..end].parse::<usize>() {','            // If the first code point is a single quote')
    b=s[i:j]
    k=b.index('throw::<Error>('); l=b.index(');\n                    }\n                }\n            }')
    s=s[:i]+'''                match parse_integer(schema_path, schema_contents, SourceRange { start: i, end }) {
                    Ok(token) => tokens.push(token),
                    Err(error) => errors.push(error),
                }
            }

'''+s[j:]
    return s+'''
fn parse_integer(schema_path: &Path, schema_contents: &str, source_range: SourceRange) -> Result<Token, Error> {
    let digits = &schema_contents[source_range.start..source_range.end];

    digits
        .parse::<usize>()
        .map(|integer| Token {
            source_range,
            variant: Variant::Integer(integer),
        })
        .map_err(|_| {
            '''+b[k:l].replace('&schema_contents[i..end]','digits').replace('SourceRange { start: i, end }','source_range')+'''
        })
}
'''
mk('t-integer-fn',t13b)
def t14(s): # start order
    i,j=cut(s,'                    let start = if c == RAW_IDENTIFIER_SIGIL','                    if start == end')
    return s[:i]+'''                    let word = &schema_contents[i..end];
                    let start = end - word.strip_prefix(RAW_IDENTIFIER_SIGIL).unwrap_or(word).len();

'''+s[j:]
mk('t-raw-strip',t14)
def t15(s):
    return sub(s,'''                let mut end = schema_contents.len();

                while let Some((j, d)) = iter.peek() {
                    if d.is_ascii''','''                let mut end = schema_contents.len();

                while let Some(&(j, ref d)) = iter.peek() {
                    if d.is_ascii''').replace('end = *j;\n                        break;\n                    }\n                }\n\n                // Try','end = j;\n                        break;\n                    }\n                }\n\n                // Try')
mk('t-peek-copy',t15)
