import re
VA = F = 'src/validator.rs'
src=open('/repo/'+VA).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b) if n==0 else s.replace(a,b,n)
# V1 report helper
def v1(s):
    s=re.sub(r'errors\.push\(throw::<Error>\(\n(\s*)(&(?:format!\(.*?\n\1\)|if let.*?\n\1\})),\n\s*Some\(source_path\),\n\s*Some\(&listing\(source_contents, ([^)]*)\)\),\n\s*None,\n\s*\)\);', lambda m:'report(errors_, source_path, source_contents, %s, %s);'%(m.group(3),m.group(2)), s, flags=re.S)
    a,b=s.split('// This function validates an individual type.')
    a=a.replace('errors_','&mut errors'); b=b.replace('errors_','errors')
    s=a+'''// Record an error about part of a source file.
fn report(errors: &mut Vec<Error>, source_path: &Path, source_contents: &str, range: crate::error::SourceRange, message: &str) {
    errors.push(throw::<Error>(message, Some(source_path), Some(&listing(source_contents, range)), None));
}

// This function validates an individual type.'''+b
    assert s.count('report(')==9
    return s
mk('val-report',v1)
def body(s,start,end):
    i=s.index(start); j=s.index(end,i); return i,j
def v2(s):
    i,j=body(s,'            // Validate the fields in the declaration.\n','        }\n    }\n\n    // Check for cycles')
    b=s[i:j]
    s=s[:i]+'            validate_declaration(&all_types, &mut errors, namespace, schema, source_path, source_contents, declaration);\n'+s[j:]
    b=b.replace('&all_types','all_types').replace('&mut errors','errors')
    return s+'''
#[allow(clippy::too_many_arguments)]
fn validate_declaration(all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>, errors: &mut Vec<Error>, namespace: &schema::Namespace, schema: &schema::Schema, source_path: &Path, source_contents: &str, declaration: &schema::Declaration) {
'''+b+'}\n'
mk('val-declaration-fn',v2)
def v3(s):
    i,j=body(s,'            let type_namespace = if let Some(import) = import {','            // Check that the type exists in that file.')
    return s[:i]+'''            let type_namespace = match import {
                None => namespace.clone(),
                Some(alias) => {
                    let Some(import) = schema.imports.get(alias) else {
                        errors.push(throw::<Error>(
                            &format!("There is no import named {} in this file.", alias.code_str()),
                            Some(source_path),
                            Some(&listing(source_contents, r#type.source_range)),
                            None,
                        ));
                        return;
                    };
                    import.namespace.as_ref().unwrap().clone()
                }
            };

'''+s[j:]
mk('val-let-else',v3)
def v4(s):
    i,j=body(s,'    let mut all_types = HashMap::new();','    // Validate each file.')
    return s[:i]+'''    let all_types = schemas
        .iter()
        .flat_map(|(namespace, (schema, _, _))| {
            schema.declarations.iter().map(move |declaration| {
                ((namespace.clone(), declaration.name.clone()), (schema, declaration))
            })
        })
        .collect::<HashMap<_, _>>();

'''+s[j:]
mk('val-types-collect',v4)
def v5(s):
    s=v2(s)
    s=sub(s,'            validate_declaration(&all_types, &mut errors, namespace, schema, source_path, source_contents, declaration);','            errors.extend(validate_declaration(&all_types, namespace, schema, source_path, source_contents, declaration));')
    s=sub(s,', errors: &mut Vec<Error>, namespace: &schema::Namespace, schema: &schema::Schema, source_path: &Path, source_contents: &str, declaration: &schema::Declaration) {',', namespace: &schema::Namespace, schema: &schema::Schema, source_path: &Path, source_contents: &str, declaration: &schema::Declaration) -> Vec<Error> {\n    let mut errors = vec![];')
    i=s.index('fn validate_declaration')
    t=s[i:].replace('                    errors,\n','                    &mut errors,\n')
    t=t.rstrip()[:-1]+'    errors\n}\n'
    return s[:i]+t
mk('val-declaration-errors',v5)
def v6(s):
    i=s.index('fn check_type_for_cycles')
    a,b=s[:i],s[i:]
    k,l=body(b,'        schema::TypeVariant::Array(inner_type) => {','        schema::TypeVariant::Bool')
    b=b[:k]+'        schema::TypeVariant::Array(_) => unreachable!(),\n'+b[l:]
    b=sub(b,'    match &r#type.variant {','''    let mut innermost = r#type;
    while let schema::TypeVariant::Array(inner_type) = &innermost.variant {
        innermost = inner_type;
    }

    match &innermost.variant {''')
    return a+b
mk('cyc-innermost',v6)
def v6b(s):
    i=s.index('fn check_type_for_cycles'); i=s.index('    match &r#type.variant {',i)
    return s[:i]+'''    let innermost = innermost(r#type);

    if let schema::TypeVariant::Custom(import, name) = &innermost.variant {
        let type_namespace = match import {
            Some(import) => schema.imports[import].namespace.clone().unwrap(),
            None => namespace.clone(),
        };

        check_declaration_for_cycles(
            all_types,
            types_checked,
            types_visited_set,
            types_visited_vec,
            errors,
            &type_namespace,
            name,
        );
    }
}

fn innermost(r#type: &schema::Type) -> &schema::Type {
    if let schema::TypeVariant::Array(inner) = &r#type.variant {
        innermost(inner)
    } else {
        r#type
    }
}
'''
mk('cyc-innermost-fn',v6b)
def v10(s):
    s=sub(s,'    if errors.is_empty() {\n        let mut types_checked','    if !errors.is_empty() {\n        return Err(errors);\n    }\n\n    {\n        let mut types_checked')
    return s
mk('val-early',v10)
def v11(s):
    s=sub(s,'            for index in 0..(field_indices.len()','            let used = declaration.fields.iter().map(|field| field.index).collect::<HashSet<_>>();\n            for index in 0..(used.len()')
    return sub(s,'!field_indices.contains(&index)','!used.contains(&index)')
mk('val-used-collect',v11)
def v13(s):
    s=sub(s,'''                validate_type(
                    &all_types,
                    &mut errors,
                    namespace,
                    schema,
                    source_path,
                    source_contents,
                    &field.r#type,
                );''','''                Context { all_types: &all_types, namespace, schema, source_path, source_contents }.validate_type(&mut errors, &field.r#type);''')
    i=s.index('// This function validates an individual type.'); j=s.index('// This function checks that declarations have no cycles.')
    f=s[i:j]
    f=f[f.index('    match &r#type'):]
    f=f.replace('''            validate_type(
                all_types,
                errors,
                namespace,
                schema,
                source_path,
                source_contents,
                inner_type,
            );''','            self.validate_type(errors, inner_type);').replace('schema.imports','self.schema.imports').replace('namespace.clone()\n','self.namespace.clone()\n').replace('all_types.contains','self.all_types.contains').replace('Some(source_path)','Some(self.source_path)').replace('listing(source_contents','listing(self.source_contents')
    return s[:i]+'''struct Context<'a> {
    all_types: &'a HashMap<(schema::Namespace, Identifier), (&'a schema::Schema, &'a schema::Declaration)>,
    namespace: &'a schema::Namespace,
    schema: &'a schema::Schema,
    source_path: &'a Path,
    source_contents: &'a str,
}

impl Context<'_> {
fn validate_type(&self, errors: &mut Vec<Error>, r#type: &schema::Type) {
'''+f.rstrip()+'\n}\n\n'+s[j:]
mk('val-context',v13)
def v14(s):
    i,j=body(s,'            let type_namespace = if let Some(import) = import {','            // Check that the type exists in that file.')
    s=s[:i]+'''            let Some(type_namespace) = resolve(namespace, schema, import.as_ref()) else {
                errors.push(throw::<Error>(
                    &format!("There is no import named {} in this file.", import.as_ref().unwrap().code_str()),
                    Some(source_path),
                    Some(&listing(source_contents, r#type.source_range)),
                    None,
                ));

                return;
            };

'''+s[j:]
    i,j=body(s,'            let type_namespace = import.as_ref().map_or_else(','            check_declaration_for_cycles(')
    s=s[:i]+'            let type_namespace = resolve(namespace, schema, import.as_ref()).unwrap();\n\n'+s[j:]
    return s+'''
fn resolve(namespace: &schema::Namespace, schema: &schema::Schema, import: Option<&Identifier>) -> Option<schema::Namespace> {
    match import {
        None => Some(namespace.clone()),
        Some(alias) => schema.imports.get(alias).and_then(|import| import.namespace.clone()),
    }
}
'''
mk('val-resolve',v14)
def v15(s):  # checks as separate passes
    i,j=body(s,'                // Check that the index of the field isn\'t marked as deleted.','                // Validate the type.')
    b=s[i:j]
    s=s[:i]+s[j:]
    return sub(s,'            // Check that all index gaps','            for field in &declaration.fields {\n'+b+'            }\n\n            // Check that all index gaps')
mk('val-passes',v15)
def v16(s):
    s=sub(s,'''    // Return a success or report any errors.
    if errors.is_empty() {
        Ok(())
    } else {
        Err(errors)
    }''','''    match errors.len() {
        0 => Ok(()),
        _ => Err(errors),
    }''')
    return s
mk('val-len-match',v16)
def v17(s):
    return sub(s,'''                if declaration.deleted.contains(&field.index) {''','''                if declaration.deleted.iter().any(|deleted| *deleted == field.index) {''')
mk('val-deleted-any',v17)
def v18(s):
    s=sub(s,'''            for index in 0..(field_indices.len() + declaration.deleted.len()) {
                if !field_indices.contains(&index) && !declaration.deleted.contains(&index) {''','''            let count = field_indices.len() + declaration.deleted.len();
            let mut index = 0;
            while index < count {
                let accounted = field_indices.contains(&index) || declaration.deleted.contains(&index);
                if !accounted {''')
    i=s.index('Field index gap'); j=s.index('                }\n            }\n',i)
    return s[:j]+'                }\n                index += 1;\n            }\n'+s[j+len('                }\n            }\n'):]
mk('val-gap-while',v18)
def v19(s): # cycle guard struct merges sets
    s=sub(s,'''    types_visited_vec.push(qualified_type.clone());
    if !types_visited_set.insert(qualified_type.clone()) {''','''    let first_visit = types_visited_set.insert(qualified_type.clone());
    types_visited_vec.push(qualified_type.clone());
    if !first_visit {''')
    s=sub(s,'''    let (schema, declaration) = all_types.get(&qualified_type).unwrap();''','''    let (schema, declaration) = all_types[&qualified_type];''')
    return s
mk('cyc-first-visit',v19)
def v20(s):
    i=s.index('    // Un-visit this type.\n    types_visited_set.remove'); 
    s=s[:i]+'''    leave(types_checked, types_visited_set, types_visited_vec, qualified_type);
}

fn leave(
    types_checked: &mut HashSet<(schema::Namespace, Identifier)>,
    types_visited_set: &mut HashSet<(schema::Namespace, Identifier)>,
    types_visited_vec: &mut Vec<(schema::Namespace, Identifier)>,
    qualified_type: (schema::Namespace, Identifier),
) {
'''+s[i:]
    return s
mk('cyc-leave',v20)
def v21(s): # cycle through closure/iterator
    s=sub(s,'''        for (namespace, (schema, _, _)) in schemas {
            for declaration in &schema.declarations {
                check_declaration_for_cycles(''','''        for (namespace, declaration) in schemas.iter().flat_map(|(namespace, (schema, _, _))| {
            schema.declarations.iter().map(move |declaration| (namespace, declaration))
        }) {
                check_declaration_for_cycles(''')
    s=sub(s,'''                    &declaration.name,
                );
            }
        }''','''                    &declaration.name,
                );
        }''')
    return s
mk('cyc-flat-map',v21)
def v22(s):
    s=sub(s,'''    for (namespace, (schema, source_path, source_contents)) in schemas {
        // Validate the declarations in the file.
        let mut declaration_names = HashSet::new();

        for declaration in &schema.declarations {
''','''    let mut all_names = HashSet::new();
    for (namespace, schema, source_path, source_contents, declaration) in
        schemas.iter().flat_map(|(namespace, (schema, source_path, source_contents))| {
            schema.declarations.iter().map(move |declaration| (namespace, schema, source_path, source_contents, declaration))
        })
    {
        {
''')
    return sub(s,'if !declaration_names.insert(declaration.name.clone())','if !all_names.insert((namespace.clone(), declaration.name.clone()))')
mk('val-flat',v22)
