import re
F='src/schema.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b,n) if n else s.replace(a,b)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
def s1(s):
    i,j=cut(s,'    let mut common_components','    // Construct and return')
    return s[:i]+'''    let common_components = namespace1
        .components
        .iter()
        .zip(namespace2.components.iter())
        .take_while(|(component1, component2)| component1 == component2)
        .count();

'''+s[j:]
mk('s-rel-zip',s1)
def s1b(s):
    i,j=cut(s,'    let mut common_components','    // Construct and return')
    return s[:i]+'''    let mut common_components: usize = 0;
    while common_components < namespace1.components.len()
        && common_components < namespace2.components.len()
        && namespace1.components[common_components] == namespace2.components[common_components]
    {
        common_components += 1;
    }

'''+s[j:]
mk('s-rel-index',s1b)
def s1c(s):
    i,j=cut(s,'    let mut common_components','    // Construct and return')
    return s[:i]+'''    let mut common_components: usize = 0;

    for (component1, component2) in namespace1.components.iter().zip(&namespace2.components) {
        if component1 != component2 {
            break;
        }

        common_components += 1;
    }

'''+s[j:]
mk('s-rel-for',s1c)
mk('s-escape',lambda s: sub(s,'''    if is_keyword(&name) {
        format!("{RAW_IDENTIFIER_SIGIL}{name}")
    } else {
        name
    }''','''    if !is_keyword(&name) {
        return name;
    }

    let mut escaped = String::from(RAW_IDENTIFIER_SIGIL);
    escaped.push_str(&name);
    escaped'''))
def s3(s):
    i,j=cut(s,'        // Only break lines at spaces','        for line in textwrap')
    return s[:i]+'''        for line in textwrap::fill(paragraph, comment_options(indentation)).lines() {
            writeln!(f, "{indentation}# {line}")?;
        }
'''+s[s.index('    }\n\n    Ok(())',j):].replace('impl Schema {','''fn comment_options(indentation: &str) -> textwrap::Options<'static, textwrap::wrap_algorithms::OptimalFit, AsciiSpace, NoHyphenation> {
    textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
        .break_words(false)
        .word_separator(AsciiSpace)
        .word_splitter(NoHyphenation)
}

impl Schema {''',1)
mk('s-options',s3)
def s3b(s):
    return sub(s,'''    for (i, paragraph) in paragraphs.iter().enumerate() {
        if i != 0 {
            writeln!(f, "{indentation}#")?;
        }
''','''    let mut first = true;

    for paragraph in paragraphs {
        if first {
            first = false;
        } else {
            writeln!(f, "{indentation}#")?;
        }
''')
mk('s-comment-first',s3b)
def s3c(s):
    return sub(s,'''        for line in textwrap::fill(paragraph, options).lines() {
            writeln!(f, "{indentation}# {line}")?;''','''        for line in textwrap::fill(paragraph, options).split('\\n') {
            f.write_str(indentation)?;
            f.write_str("# ")?;
            writeln!(f, "{line}")?;''')
mk('s-comment-pieces',s3c)
def s4(s):
    return sub(s,'''        let mut skip_blank_line = self.imports.is_empty();

        for declaration in &self.declarations {
            if skip_blank_line {
                skip_blank_line = false;
            } else {
                writeln!(f)?;
            }
''','''        for (i, declaration) in self.declarations.iter().enumerate() {
            if i > 0 || !self.imports.is_empty() {
                writeln!(f)?;
            }
''')
mk('s-decl-enumerate',s4)
def s4b(s):
    i,j=cut(s,'        let mut skip_blank_line','        Ok(())')
    return s[:i]+'''        if let Some((first, rest)) = self.declarations.split_first() {
            if !self.imports.is_empty() {
                writeln!(f)?;
            }

            first.write(f)?;

            for declaration in rest {
                writeln!(f)?;
                declaration.write(f)?;
            }
        }

'''+s[j:]
mk('s-decl-first',s4b)
def s5(s):
    i,j=cut(s,'        if self\n            .path\n            .file_stem()','impl Declaration')
    return s[:i]+'''        let default_name: Option<Identifier> = self
            .path
            .file_stem()
            .map(|file_stem| file_stem.to_string_lossy().as_ref().into());

        write!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())?;

        if default_name.as_ref() != Some(name) {
            write!(f, " {} {}", AS_KEYWORD, escape_keyword(name.snake_case()))?;
        }

        writeln!(f)
    }
}

'''+s[j:]
mk('s-import-two',s5)
def s5b(s):
    i,j=cut(s,'        if self\n            .path\n            .file_stem()','impl Declaration')
    return s[:i]+'''        let alias = match self.path.file_stem() {
            Some(stem) => Identifier::from(stem.to_string_lossy().as_ref()) != *name,
            None => true,
        };

        if alias {
            writeln!(
                f,
                "{} '{}' {} {}",
                IMPORT_KEYWORD,
                self.path.display(),
                AS_KEYWORD,
                escape_keyword(name.snake_case()),
            )
        } else {
            writeln!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())
        }
    }
}

'''+s[j:]
mk('s-import-alias',s5b)
def s6(s):
    return sub(s,'''        let mut previous_field_has_comment = false;

        for (i, field) in self.fields.iter().enumerate() {
            if (previous_field_has_comment || !field.comment.is_empty()) && i != 0 {
                writeln!(f)?;
            }

            previous_field_has_comment = !field.comment.is_empty();

            field.write(f)?;
        }
''','''        let mut previous: Option<&Field> = None;

        for field in &self.fields {
            if let Some(previous) = previous {
                if !previous.comment.is_empty() || !field.comment.is_empty() {
                    writeln!(f)?;
                }
            }

            field.write(f)?;
            previous = Some(field);
        }
''')
mk('s-field-previous',s6)
def s6b(s):
    return sub(s,'''        let mut previous_field_has_comment = false;

        for (i, field) in self.fields.iter().enumerate() {
            if (previous_field_has_comment || !field.comment.is_empty()) && i != 0 {
                writeln!(f)?;
            }

            previous_field_has_comment = !field.comment.is_empty();

            field.write(f)?;
        }
''','''        for (i, field) in self.fields.iter().enumerate() {
            if i > 0 && !(self.fields[i - 1].comment.is_empty() && field.comment.is_empty()) {
                writeln!(f)?;
            }

            field.write(f)?;
        }
''')
mk('s-field-index',s6b)
def s7(s):
    i,j=cut(s,'        if !self.fields.is_empty() && !self.deleted.is_empty() {','        writeln!(f, "}}")')
    return s[:i]+'''        if !self.deleted.is_empty() {
            if !self.fields.is_empty() {
                writeln!(f)?;
            }

            let indices = self
                .deleted
                .iter()
                .map(ToString::to_string)
                .collect::<Vec<_>>()
                .join(" ");

            writeln!(f, "    {DELETED_KEYWORD} {indices}")?;
        }

'''+s[j:]
mk('s-deleted-join',s7)
def s7b(s):
    i,j=cut(s,'        if !self.fields.is_empty() && !self.deleted.is_empty() {','        writeln!(f, "}}")')
    b=s[i:j].replace('self.deleted','deleted').replace('self.fields.is_empty()','fields.is_empty()').replace('\n    ','\n')
    s=s[:i]+'        write_deleted(&self.fields, &self.deleted, f)?;\n\n'+s[j:]
    b=b.replace('&deleted','deleted')
    return s.replace('impl DeclarationVariant','fn write_deleted<W: Write>(fields: &[Field], deleted: &BTreeSet<usize>, f: &mut W) -> fmt::Result {\n'+b.rstrip()+'\n\n    Ok(())\n}\n\nimpl DeclarationVariant',1)
mk('s-deleted-fn',s7b)
def s8(s):
    i,j=cut(s,'        match self.rule {','        write!(f, "{}", escape_keyword(self.name')
    return s[:i]+'''        let rule = match self.rule {
            Rule::Asymmetric => Some(ASYMMETRIC_KEYWORD),
            Rule::Optional => Some(OPTIONAL_KEYWORD),
            Rule::Required => None,
        };

        write!(f, "    ")?;

        if let Some(rule) = rule {
            write!(f, "{rule} ")?;
        }

'''+s[j:]
mk('s-rule-option',s8)
def s8b(s):
    return sub(s,'''        if let TypeVariant::Unit = self.r#type.variant {
        } else {
            write!(f, ": ")?;
            self.r#type.write(f)?;
        }''','''        if !matches!(self.r#type.variant, TypeVariant::Unit) {
            write!(f, ": {}", self.r#type)?;
        }''')
mk('s-unit-matches',s8b)
def s9(s):
    i,j=cut(s,'            Self::Array(inner_type) => {','        Ok(())\n    }\n}\n\nimpl Namespace')
    return s[:i]+'''            Self::Array(inner_type) => write!(f, "[{inner_type}]"),
            Self::Custom(Some(import), name) => write!(
                f,
                "{}.{}",
                escape_keyword(import.snake_case()),
                escape_keyword(name.pascal_case()),
            ),
            Self::Custom(None, name) => f.write_str(&escape_keyword(name.pascal_case())),
            Self::Bool => f.write_str(BOOL_KEYWORD),
            Self::Bytes => f.write_str(BYTES_KEYWORD),
            Self::F64 => f.write_str(F64_KEYWORD),
            Self::S64 => f.write_str(S64_KEYWORD),
            Self::String => f.write_str(STRING_KEYWORD),
            Self::U64 => f.write_str(U64_KEYWORD),
            Self::Unit => f.write_str(UNIT_KEYWORD),
        }
'''+s[j+len('        Ok(())\n'):]
mk('s-type-match',s9)
