import re
F='src/parser.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b) if n==0 else s.replace(a,b,n)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
SIG='''
    source_path: &Path,
    source_contents: &str,
    tokens: &[token::Token],
    position: &mut usize,
    errors: &mut Vec<Error>,
'''
ARGS='source_path, source_contents, tokens, position, errors'
def p1(s):
    i,j=cut(s,'    // Parse the imports.\n','    // Parse the declarations.\n')
    b=s[i:j]
    s=s[:i]+'    // Parse the imports.\n    let imports = parse_imports(%s);\n\n'%ARGS+s[j:]
    s=sub(s,'    let mut imports = BTreeMap::new();\n','')
    return s+'''
fn parse_imports(%s) -> BTreeMap<Identifier, schema::Import> {
    let mut imports = BTreeMap::new();
%s
    imports
}
'''%(SIG,b)
mk('p-imports-fn',p1)
COMM='''if *position == tokens.len() {
%s    vec![]
%s} else if let token::Variant::Comment(paragraphs) = &tokens[*position].variant {
%s    *position += 1;

%s    paragraphs.clone()
%s} else {
%s    vec![]
%s};
'''
def p2(s):
    s=sub(s,'let declaration_comment = '+COMM%((8*' ',)*7),'let declaration_comment = parse_comment(tokens, position);\n')
    s=sub(s,'let comment = '+COMM%((4*' ',)*7),'let comment = parse_comment(tokens, position);\n')
    return s+'''
fn parse_comment(tokens: &[token::Token], position: &mut usize) -> Vec<String> {
    match tokens.get(*position).map(|token| &token.variant) {
        Some(token::Variant::Comment(paragraphs)) => {
            *position += 1;
            paragraphs.clone()
        }
        _ => vec![],
    }
}
'''
def p2b(s):
    s=p2(s); i=s.index('fn parse_comment(')
    return s[:i]+'''fn parse_comment(tokens: &[token::Token], position: &mut usize) -> Vec<String> {
    if let Some(token) = tokens.get(*position) {
        if let token::Variant::Comment(paragraphs) = &token.variant {
            *position += 1;
            return paragraphs.clone();
        }
    }

    Vec::new()
}
'''
import subprocess
mk('p-comment-helper',p2); mk('p-comment-helper2',p2b)
def p3(s):
    i,j=cut(s,'        // Parse the fields.\n','        // Parse the set of deleted fields.\n')
    b=s[i:j]
    s=s[:i]+'        // Parse the fields.\n        let fields = parse_fields(%s);\n\n'%ARGS+s[j:]
    return s+'''
fn parse_fields(%s) -> Vec<schema::Field> {
%s
    fields
}
'''%(SIG,b)
mk('p-fields-fn',p3)
def p4(s):
    i,j=cut(s,'        // Parse the set of deleted fields.\n','        // Consume the `}`.\n')
    b=s[i:j]
    s=s[:i]+'        // Parse the set of deleted fields.\n        let deleted = parse_deleted(%s);\n\n'%ARGS+s[j:]
    return s+'''
fn parse_deleted(%s) -> BTreeSet<usize> {
%s
    deleted
}
'''%(SIG,b.replace('        };\n\n','        }\n\n'))
mk('p-deleted-fn',p4)
def p4b(s):
    i,j=cut(s,'            while *position != tokens.len() {\n                if let index_token','        // Consume the `}`.\n')
    return s[:i]+'''            while let Some(token) = tokens.get(*position) {
                let token::Variant::Integer(index) = token.variant else {
                    break;
                };

                if deleted.contains(&index) {
                    errors.push(throw::<Error>(
                        &format!(
                            "Index {} is already marked as deleted.",
                            token.variant.to_string().code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, token.source_range)),
                        None,
                    ));
                }

                deleted.insert(index);
                *position += 1;
            }
        };

'''+s[j:]
mk('p-deleted-while-let',p4b)
def p5(s):
    i,j=cut(s,'    let rule = if *position == tokens.len() {','    // Parse the name.\n')
    return s[:i]+'''    let rule = match tokens.get(*position).map(|token| &token.variant) {
        Some(token::Variant::Asymmetric) => schema::Rule::Asymmetric,
        Some(token::Variant::Optional) => schema::Rule::Optional,
        _ => schema::Rule::Required,
    };
    if !matches!(rule, schema::Rule::Required) {
        *position += 1;
    }

'''+s[j:]
mk('p-rule-match',p5)
def p6(s):
    i,j=cut(s,'                while *position < tokens.len() {\n                    if let token::Variant::RightCurly','                break;\n            }\n        }\n\n        // Parse the set')
    return s[:i]+'''                skip_to_right_curly(tokens, position);

'''+s[j:]+'''
fn skip_to_right_curly(tokens: &[token::Token], position: &mut usize) {
    while *position < tokens.len()
        && !matches!(tokens[*position].variant, token::Variant::RightCurly)
    {
        *position += 1;
    }
}
'''
mk('p-skip-fn',p6)
def p6b(s):
    i,j=cut(s,'                while *position < tokens.len() {\n                    if let token::Variant::RightCurly','                break;\n            }\n        }\n\n        // Parse the set')
    return s[:i]+'''                *position = tokens[*position..]
                    .iter()
                    .position(|token| matches!(token.variant, token::Variant::RightCurly))
                    .map_or(tokens.len(), |offset| *position + offset);

'''+s[j:]
mk('p-skip-position',p6b)
def p7(s):
    i=s.index('    } else if let token::Variant::Bool = tokens[*position].variant {'); j=s.index('    } else {\n        let (import_name, r#type_name)')
    return s[:i]+'''    } else if let Some(variant) = primitive_type(&tokens[*position].variant) {
        *position += 1;

        Some(schema::Type {
            source_range: span_tokens(tokens, start, *position),
            variant,
        })
'''+s[j:]+'''
fn primitive_type(variant: &token::Variant) -> Option<schema::TypeVariant> {
    match variant {
        token::Variant::Bool => Some(schema::TypeVariant::Bool),
        token::Variant::Bytes => Some(schema::TypeVariant::Bytes),
        token::Variant::F64 => Some(schema::TypeVariant::F64),
        token::Variant::S64 => Some(schema::TypeVariant::S64),
        token::Variant::String => Some(schema::TypeVariant::String),
        token::Variant::U64 => Some(schema::TypeVariant::U64),
        token::Variant::Unit => Some(schema::TypeVariant::Unit),
        _ => None,
    }
}
'''
mk('p-type-prim',p7)
CON='''consume_token_1!(
                    source_path,
                    source_contents,
                    tokens,
                    &mut *position,
                    errors,
                    Identifier,
                    "%s",
                    None,
                )'''
def p8(s):
    i,j=cut(s,'        let (import_name, r#type_name) =','        Some(schema::Type {\n            source_range: span_tokens(tokens, start, *position),\n            variant: schema::TypeVariant::Custom')
    return s[:i]+'''        let qualified = *position < tokens.len() - 2
            && matches!(tokens[*position + 1].variant, token::Variant::Dot);

        let import_name = if qualified {
            let import = %s;

            *position += 1;

            Some(import)
        } else {
            None
        };

        let r#type_name = %s;

'''%(CON%'the name of an import',CON%'a type')+s[j:]
mk('p-type-qualified',p8)
def p8b(s):
    i,j=cut(s,'        let (import_name, r#type_name) =','        Some(schema::Type {\n            source_range: span_tokens(tokens, start, *position),\n            variant: schema::TypeVariant::Custom')
    b=s[i:j]
    return s[:i]+'''        let (import_name, r#type_name) = parse_custom_type(source_path, source_contents, tokens, position, errors)?;

'''+s[j:]+'''
fn parse_custom_type(%s) -> Option<(Option<Identifier>, Identifier)> {
%s
    Some((import_name, r#type_name))
}
'''%(SIG,b)
mk('p-type-custom-fn',p8b)
def p9(s):
    s=sub(s,'''    let explicit_import_name = if *position == tokens.len() {
        false
    } else {
        matches!(tokens[*position].variant, token::Variant::As)
    };
''','''    let explicit_import_name = matches!(peek(tokens, *position), Some(token::Variant::As));
''')
    s=sub(s,'''    let explicit_type = if *position == tokens.len() {
        false
    } else {
        matches!(tokens[*position].variant, token::Variant::Colon)
    };
''','''    let explicit_type = matches!(peek(tokens, *position), Some(token::Variant::Colon));
''')
    return s+'''
fn peek(tokens: &[token::Token], position: usize) -> Option<&token::Variant> {
    tokens.get(position).map(|token| &token.variant)
}
'''
mk('p-peek',p9)
def p10(s):
    i,j=cut(s,'    if *position < tokens.len() {\n        if let token::Variant::Comment(paragraphs)','    // Parse the imports.\n')
    s=s[:i]+'''    let comment = parse_header(tokens, position);

'''+s[j:]
    s=sub(s,'    let mut comment = vec![];\n','')
    return s+'''
fn parse_header(tokens: &[token::Token], position: &mut usize) -> Vec<String> {
    let Some(first) = tokens.get(*position) else {
        return vec![];
    };
    let token::Variant::Comment(paragraphs) = &first.variant else {
        return vec![];
    };

    // A comment directly above a declaration belongs to that declaration.
    let attached = match tokens.get(*position + 1) {
        Some(second) => match second.variant {
            token::Variant::Struct | token::Variant::Choice => {
                first.source_range.end + 1 >= second.source_range.start
            }
            _ => false,
        },
        None => false,
    };

    if attached {
        vec![]
    } else {
        *position += 1;
        paragraphs.clone()
    }
}
'''
mk('p-header-fn',p10)
def p11(s):
    i,j=cut(s,'        let keyword =\n','        *position += 1;\n\n        // Parse the name.')
    s=s[:i]+'''        let (keyword, description) = match tokens.get(*position).map(|token| &token.variant) {
            Some(token::Variant::Struct) => (schema::DeclarationVariant::Struct, "a name for the struct"),
            Some(token::Variant::Choice) => (schema::DeclarationVariant::Choice, "a name for the choice"),
            _ => {
                errors.push(unexpected_token(
                    source_path,
                    source_contents,
                    tokens,
                    *position,
                    "a declaration",
                ));

                return schema::Schema {
                    comment,
                    imports,
                    declarations,
                };
            }
        };
'''+s[j:]
    i,j=cut(s,'            &format!(\n                "a name for the {}",','            schema::Schema {\n                comment')
    s=s[:i]+'            description,\n'+s[j:]
    i,j=cut(s,'            variant: match keyword {','            name,\n            fields,')
    return s[:i]+'            variant: keyword,\n'+s[j:]
mk('p-keyword-variant',p11)
def p12(s):
    i,j=cut(s,'    if position == tokens.len() {\n        tokens\n','}\n\n// This function computes the source range for a span of tokens.')
    return s[:i]+'''    match tokens.get(position) {
        Some(token) => token.source_range,
        None => {
            let end = tokens.last().map_or(0, |token| token.source_range.end);

            SourceRange { start: end, end }
        }
    }
'''+s[j:]
mk('p-range-get',p12)
def p13(s):
    i,j=cut(s,'                    if imports.insert(name.clone(), import.clone()).is_some() {','                }\n            }\n            _ => {\n                break;')
    b=s[i:j]
    b=b.replace('imports.insert(name.clone(), import.clone()).is_some()','imports.contains_key(&name)')
    b+='\n                    imports.insert(name, import);\n'
    return s[:i]+b+s[j:]
mk('p-import-contains',p13)
def p14(s):
    i,j=cut(s,'    while *position < tokens.len() {\n        match tokens[*position].variant {\n            token::Variant::Import','    // Parse the declarations.\n')
    b=s[i:j]
    k=b.index('                // This is guaranteed'); l=b.index('            }\n            _ =>')
    return s[:i]+'    while *position < tokens.len() && matches!(tokens[*position].variant, token::Variant::Import) {\n'+b[k:l]+'    }\n\n'+s[j:]
mk('p-imports-while',p14)
def p16(s):
    i,j=cut(s,'    // If there are no errors, return the schema. Otherwise','// Parse a schema.\n')
    return s[:i]+'''    if !errors.is_empty() {
        return Err(errors);
    }

    Ok(schema)
}

'''+s[j:]
mk('p-final-return',p16)
def p16b(s):
    i,j=cut(s,'    // Check if the parse was successful but we','// Parse a schema.\n')
    b=s[i:j]
    k=b.index('        errors.push('); l=b.index('    }\n\n    // If there are no errors')
    e=b[k:l].replace('errors.push(','vec![',1)
    e=e.rstrip()[:-2]+']'
    return s[:i]+'''    if !errors.is_empty() {
        return Err(errors);
    }

    if position == tokens.len() {
        Ok(schema)
    } else {
        Err('''+e.strip()+''')
    }
}

'''+s[j:]
mk('p-final-err',p16b)
def p18(s):
    i,j=cut(s,'    // Determine if the type was given explicitly.\n','        // Make sure we have a token to parse next.\n        if *position')
    return s[:i]+'''    // Parse the type, if applicable.
    let r#type = if let Some(token::Variant::Colon) = tokens.get(*position).map(|token| &token.variant) {
        *position += 1;

'''+s[j:]
mk('p-type-colon',p18)
def p19(s):
    # macros as functions
    s=p9(s)
    return s
def p20(s): # field errors: nested match on parse_field
    return sub(s,'''            match tokens[*position].variant {
                token::Variant::Deleted | token::Variant::RightCurly => break,
                _ => {}
            }
''','''            if matches!(
                tokens[*position].variant,
                token::Variant::Deleted | token::Variant::RightCurly
            ) {
                break;
            }
''')
mk('p-fields-matches',p20)
def p21(s): # import name helper
    i,j=cut(s,'    } else if let Some(file_stem) = path.file_stem() {','    // Construct and return the import.')
    return s[:i]+'''    } else {
        path.file_stem().map_or_else(
            || {
                errors.push(throw::<Error>(
                    "Unable to infer a name for this import.",
                    Some(source_path),
                    Some(&listing(
                        source_contents,
                        span_tokens(tokens, start, *position),
                    )),
                    None,
                ));

                REPLACEMENT_CHARACTER.to_string().as_str().into()
            },
            |file_stem| file_stem.to_string_lossy().as_ref().into(),
        )
    };

'''+s[j:]
mk('p-import-map-or',p21)
def p22(s): # typed consume function
    i,j=cut(s,'        // Make sure we have a token to parse.\n        if *position == tokens.len() {\n            $errors.push(unexpected_token(\n                source_path,\n                source_contents,\n                tokens,\n                *position,\n                &format!','    }};\n}\n\n// This macro consumes a single token (with one argument).')
    return s[:i]+'''        // Check if the token matches what we expect.
        if *position < tokens.len()
            && matches!(tokens[*position].variant, token::Variant::$variant)
        {
            *position += 1;
        } else {
            $errors.push(unexpected_token(
                source_path,
                source_contents,
                tokens,
                *position,
                &format!("{}", token::Variant::$variant.to_string().code_str()),
            ));

            return $error_value;
        }
'''+s[j:]
mk('p-consume-0',p22)
def p23(s):
    i,j=cut(s,'        // Make sure we have a token to parse.\n        if *position == tokens.len() {\n            $errors.push(unexpected_token(\n                source_path,\n                source_contents,\n                tokens,\n                *position,\n                expectation','    }};\n}\n\n// This is the top-level')
    return s[:i]+'''        // Check if the token matches what we expect.
        match tokens.get(*position).map(|token| &token.variant) {
            Some(token::Variant::$variant(argument)) => {
                *position += 1;

                argument.clone()
            }
            _ => {
                $errors.push(unexpected_token(
                    source_path,
                    source_contents,
                    tokens,
                    *position,
                    expectation,
                ));

                return $error_value;
            }
        }
'''+s[j:]
mk('p-consume-1',p23)
def p24(s): # array type helper
    i,j=cut(s,'        if let Some(inner_type) = parse_type(source_path, source_contents, tokens, position, errors)','    } else if let token::Variant::Bool')
    return s[:i]+'''        let inner_type = parse_type(source_path, source_contents, tokens, position, errors)?;

        // Consume the right square bracket.
        consume_token_0!(
            source_path,
            source_contents,
            tokens,
            &mut *position,
            errors,
            RightSquare,
            None,
        );

        Some(schema::Type {
            source_range: span_tokens(tokens, start, *position),
            variant: schema::TypeVariant::Array(Box::new(inner_type)),
        })
'''+s[j:]
mk('p-array-question',p24)
def p25(s): # parse_declaration helper, returning Option
    i,j=cut(s,'        let start = *position;\n\n        // Parse the comment, if it exists.\n        let declaration_comment','    // Construct and return the schema.\n    schema::Schema {')
    b=s[i:j]
    SCH='''schema::Schema {
%scomment,
%simports,
%sdeclarations,
%s}'''
    s=s[:i]+'''        match parse_declaration(source_path, source_contents, tokens, position, errors) {
            Some(declaration) => declarations.push(declaration),
            None => break,
        }
    }

'''+s[j:]
    for n in (8,12,16,20):
        b=b.replace(SCH%(' '*(n+4),' '*(n+4),' '*(n+4),' '*n),'None')
    b=b.rstrip(); assert b.endswith('}'),b[-50:]; b=b[:-1].rstrip()
    b=b.replace('declarations.push(schema::Declaration {','Some(schema::Declaration {')
    assert b.endswith('});'),b[-50:]; b=b[:-1]
    return s+'''
#[allow(clippy::too_many_lines)]
fn parse_declaration(%s) -> Option<schema::Declaration> {
%s
}
'''%(SIG,b)
mk('p-declaration-fn',p25)
def p26(s): # span_tokens rewritten
    i,j=cut(s,'    if start == tokens.len() {\n        token_source_range(tokens, start)\n','}\n\n// This function constructs a generic error')
    return s[:i]+'''    let first = token_source_range(tokens, start);

    if start == tokens.len() {
        return first;
    }

    SourceRange {
        start: first.start,
        end: if start == end {
            first.start
        } else {
            tokens[end - 1].source_range.end
        },
    }
'''+s[j:]
mk('p-span',p26)
