CASES = []


def mutant(name, fires, *edits, **kw):
    CASES.append(dict(name=name, fires=fires.split(), edits=edits, **kw))


def same(name, *edits, **kw):
    CASES.append(dict(name='same:' + name, edits=edits, **kw))


M = 'src/main.rs'
mutant('gen-before-validate', ['C01'][0], (M, '''    // Validate the schemas.
    eprintln!("Validating schemas\\u{2026}");
    validate(&schemas).map_err(|errors| merge_errors(&errors))?;
''', '''    // Validate the schemas.
    eprintln!("Validating schemas\\u{2026}");
    if schemas.len() > 1 {
        validate(&schemas).map_err(|errors| merge_errors(&errors))?;
    }
'''))
mutant('list-before-validate', 'C01', (M, '''    // Validate the schemas.
    eprintln!("Validating schemas\\u{2026}");
''', '''    if list_schemas { for n in schemas.keys() { println!("{n}"); } }
    eprintln!("Validating schemas\\u{2026}");
'''))
mutant('check-writes', 'C02', (M, 'if updated && !check {', 'if updated && (!check || schemas.len() == 1) {'))
mutant('check-last-only', 'C02', (M, '''        if updated {
            any_schema_updated = true;
        }''', '''        any_schema_updated = updated;'''))
mutant('format-skip-first', 'C02', (M, 'in schemas.values() {\n        // Compute the full path', 'in schemas.values().skip(1) {\n        // Compute the full path'))
mutant('format-wrong-path', 'C02', (M, 'write(&full_source_path, new_source_contents)', 'write(source_path, new_source_contents)'))
mutant('format-trim', 'C02', (M, 'let updated = *source_contents != new_source_contents;', 'let updated = source_contents.trim() != new_source_contents.trim();'))
same('format-flag-or', (M, '''        if updated {
            any_schema_updated = true;
        }''', '''        any_schema_updated |= updated;'''))
same('format-counter', (M, '''        if updated {
            any_schema_updated = true;
        }''', '''        any_schema_updated = any_schema_updated || updated;'''))
same('format-match', (M, '''        if updated && !check {
            write(&full_source_path, new_source_contents).map_err(|error| {
                throw(
                    "Unable to write file.",
                    Some(source_path),
                    None,
                    Some(error),
                )
            })?;
        }''', '''        if check || !updated {
            continue;
        }
        match write(&full_source_path, new_source_contents) {
            Ok(()) => {}
            Err(error) => {
                return Err(throw(
                    "Unable to write file.",
                    Some(source_path),
                    None,
                    Some(error),
                ));
            }
        }'''))
same('generate-helper', (M, '''        // Generate the code and write it to the file.
        eprintln!("Writing {}\\u{2026}", rust.to_string_lossy().code_str());
        write(rust, generate_rust::generate(VERSION, &schemas)).map_err(|error| {
            throw(
                &format!("Unable to write {}.", rust.to_string_lossy().code_str()),
                None,
                None,
                Some(error),
            )
        })?;''', '''        write_out(rust, generate_rust::generate(VERSION, &schemas))?;'''), (M, '''// Format a schema and its transitive''', '''fn write_out(path: &Path, contents: String) -> Result<(), Error> {
    eprintln!("Writing {}\\u{2026}", path.to_string_lossy().code_str());
    if let Err(error) = write(path, contents) {
        return Err(throw(
            &format!("Unable to write {}.", path.to_string_lossy().code_str()),
            None,
            None,
            Some(error),
        ));
    }
    Ok(())
}

// Format a schema and its transitive'''))
mutant('ts-needs-no-rust', 'C05', (M, 'if let Some(typescript) = typescript {', 'if let (Some(typescript), None) = (typescript, rust) {'))
mutant('list-once', 'C05', (M, 'println!("{}", directory.join(source_path).to_string_lossy());\n        }', 'println!("{}", directory.join(source_path).to_string_lossy());\n            if schemas.len() > 9 { break; }\n        }'))
mutant('list-skip', 'C05', (M, 'for (_, source_path, _) in schemas.values() {', 'for (_, source_path, _) in schemas.values() {\n            if source_path.as_os_str().len() > 200 { continue; }'))
mutant('no-mkdir', 'C05', (M, 'if let Some(parent) = typescript.parent() {', 'if let Some(parent) = typescript.parent().and_then(Path::parent) {'))
mutant('wrong-path', 'C05', (M, 'write(typescript, generate_typescript', 'write(rust.unwrap_or(typescript), generate_typescript'))
same('list-for-each', (M, '''        for (_, source_path, _) in schemas.values() {
            println!("{}", directory.join(source_path).to_string_lossy());
        }''', '''        schemas.values().for_each(|(_, source_path, _)| {
            println!("{}", directory.join(source_path).to_string_lossy());
        });'''))
same('list-helper', (M, '''        for (_, source_path, _) in schemas.values() {
            println!("{}", directory.join(source_path).to_string_lossy());
        }''', '''        for schema in schemas.values() {
            let full = directory.join(&schema.1);
            println!("{}", full.to_string_lossy());
        }'''))
same('ts-first', (M, '    // Generate Rust code, if applicable.\n    if let Some(rust) = rust {', '    // Generate Rust code, if applicable.\n    let code = rust.map(|_| generate_rust::generate(VERSION, &schemas));\n    if let (Some(rust), Some(code)) = (rust, code) {'), (M, 'write(rust, generate_rust::generate(VERSION, &schemas))', 'write(rust, code)'))
mutant('merge-first', 'C04', ('src/error_merger.rs', '            .iter()\n            .fold', '            .iter()\n            .take(20)\n            .fold'))
mutant('throw-no-reason', 'C04', ('src/error.rs', 'reason: reason.map_or(None, |reason| Some(Rc::new(reason))),', 'reason: reason.filter(|_| source_path.is_none()).map_or(None, |reason| Some(Rc::new(reason))),'))
mutant('drop-io-error', 'C04', (M, '''            create_dir_all(parent).map_err(|error| {
                throw(
                    &format!("Unable to create {}.", parent.to_string_lossy().code_str()),
                    None,
                    None,
                    Some(error),
                )
            })?;
        }

        // Generate the code and write it to the file.
        eprintln!(
''', '''            create_dir_all(parent).ok();
        }

        // Generate the code and write it to the file.
        eprintln!(
'''))
mutant('exit-zero', 'C04', (M, 'exit(1);', 'exit(if cfg!(windows) { 1 } else { 0 });'))
same('merge-loop', ('src/error_merger.rs', '''        message: errors
            .iter()
            .fold(String::new(), |acc, error| {
                format!(
                    "{}\\n{}{}",
                    acc,
                    // Only render an empty line between errors here if the previous line doesn't
                    // already visually look like an empty line. See [ref:overline_u203e].
                    if acc
                        .split('\\n')
                        .last()
                        .unwrap() // Safe since `split` always results in at least one item
                        .chars()
                        .all(|c| c == ' ' || c == '\\u{203e}')
                    {
                        ""
                    } else {
                        "\\n"
                    },
                    error,
                )
            })
            .trim()
            .to_owned(),
        reason: None,
''', '''        message: {
            let mut out = String::new();
            for error in errors {
                let blank = out.split('\\n').last().unwrap().chars().all(|c| c == ' ' || c == '\\u{203e}');
                out.push('\\n');
                if !blank {
                    out.push('\\n');
                }
                out.push_str(&error.to_string());
            }
            out.trim().to_owned()
        },
        reason: None,
'''))
L = 'src/schema_loader.rs'
mutant('visited-by-namespace', 'C07', (L, 'visited_paths.contains(&based_import_path)', 'visited_paths.contains(Path::new(&import_namespace.to_string()))'), (L, 'visited_paths.insert(based_import_path.clone());', 'visited_paths.insert(PathBuf::from(import_namespace.to_string()));'))
mutant('conflict-silent', 'C07', (L, '''            schemas.insert(namespace.clone(), (schema, path.clone(), contents))
        {''', '''            schemas.insert(namespace.clone(), (schema, path.clone(), contents)).filter(|entry| entry.2.len() > 3)
        {'''))
mutant('root-unvisited', 'C07', (L, '    visited_paths.insert(based_schema_path.to_owned());\n', '    visited_paths.insert(canonical_base_path.clone());\n'))
mutant('import-relative-to-root', 'C06', (L, 'base_path.join(parent_path.join(&import.path))', 'base_path.join(&import.path)'))
mutant('import-first-only', 'C06', (L, 'for import in schema.imports.values_mut() {', 'for import in schema.imports.values_mut().take(64) {'))
mutant('import-ns-only-new', 'C06', (L, '            import.namespace = Some(import_namespace.clone());\n', ''), (L, '                schemas_to_load.push((\n', '                import.namespace = Some(import_namespace.clone());\n                schemas_to_load.push((\n'))
mutant('break-on-dup', 'C06', (L, '                    Some((path.clone(), origin_listing)),\n                ));\n            }', '                    Some((path.clone(), origin_listing)),\n                ));\n            } else if based_import_path == path { break; }'))
mutant('wrong-parent', 'C06', (L, 'canonical_import_path.strip_prefix(&canonical_base_path)', 'canonical_import_path.strip_prefix(canonical_base_path.parent().unwrap_or(&canonical_base_path))'))
mutant('store-old-contents', 'C06', (L, '(schema, path.clone(), contents))', '(schema, path.clone(), contents.trim_end().to_owned()))'))
mutant('cap', 'C06', (L, 'while let Some((namespace, path, origin)) = schemas_to_load.pop() {', 'while let Some((namespace, path, origin)) = schemas_to_load.pop() {\n        if schemas.len() > 1000 { break; }'))
same('loader-insert-bool', (L, '''            if !visited_paths.contains(&based_import_path) {
                visited_paths.insert(based_import_path.clone());
''', '''            if visited_paths.insert(based_import_path.clone()) {
'''))
same('loader-no-ns-in-queue', (L, '''        schema_namespace,
        based_schema_path.to_owned(),
''', '''        based_schema_path.to_owned(),
'''), (L, '''                    import_namespace,
                    based_import_path,
''', '''                    based_import_path,
'''), (L, '    let schema_namespace = path_to_namespace(based_schema_path);\n', ''), (L, 'while let Some((namespace, path, origin))', 'while let Some((path, origin))'), (L, '        // Store the schema.\n', '        // Store the schema.\n        let namespace = path_to_namespace(&path);\n'))
same('loader-import-helper', (L, '''            // Canonicalize the import path.
            let canonical_import_path = match non_canonical_import_path.canonicalize() {
                Ok(canonical_import_path) => canonical_import_path,
                Err(error) => {
                    errors.push(throw(
                        &format!(
                            "Unable to load {}.",
                            non_canonical_import_path.to_string_lossy().code_str(),
                        ),
                        Some(&path),
                        Some(&origin_listing),
                        Some(error),
                    ));

                    continue;
                }
            };
''', '''            let canonical_import_path = match resolve(&non_canonical_import_path, &path, &origin_listing) {
                Ok(canonical_import_path) => canonical_import_path,
                Err(error) => {
                    errors.push(error);
                    continue;
                }
            };
'''), (L, '// Load a schema and its transitive dependencies. The', '''fn resolve(target: &Path, path: &Path, origin_listing: &str) -> Result<PathBuf, Error> {
    target.canonicalize().map_err(|error| {
        throw(
            &format!("Unable to load {}.", target.to_string_lossy().code_str()),
            Some(path),
            Some(origin_listing),
            Some(error),
        )
    })
}

// Load a schema and its transitive dependencies. The'''))
same('loader-loop-unrolled', (L, 'while let Some((namespace, path, origin)) = schemas_to_load.pop() {', 'loop {\n        let Some((namespace, path, origin)) = schemas_to_load.pop() else {\n            break;\n        };'))
same('loader-load-helper', (L, '''        // Tokenize the contents.
        let tokens = match tokenize(&path, &contents) {
            Ok(tokens) => tokens,
            Err(error) => {
                errors.extend_from_slice(&error);

                continue;
            }
        };

        // Parse the tokens.
        let mut schema = match parse(&path, &contents, &tokens) {
            Ok(schema) => schema,
            Err(error) => {
                errors.extend_from_slice(&error);

                continue;
            }
        };
''', '''        let mut schema = match tokenize(&path, &contents).and_then(|tokens| parse(&path, &contents, &tokens)) {
            Ok(schema) => schema,
            Err(parse_errors) => {
                errors.extend(parse_errors);
                continue;
            }
        };
'''))

# validator
VA = 'src/validator.rs'
mutant('val-decl-set-global', 'C11', (VA, '''        let mut declaration_names = HashSet::new();

        for declaration''', '''        for declaration'''), (VA, '''    // Validate each file.
''', '''    let mut declaration_names = HashSet::new();
'''))
mutant('val-limit-off', 'C08 C11', (VA, 'field.index > MAX_FIELD_INDEX', 'field.index >= MAX_FIELD_INDEX'))
mutant('val-limit-const', 'C08', (VA, '(1 << 62) - 1;', '(1 << 63) - 1;'))
mutant('val-limit-const2', 'C08 C11', (VA, '(1 << 62) - 1;', '(1 << 61) - 1;'))
mutant('val-field-set-file', 'C11', (VA, '''            let mut field_names = HashSet::new();
''', ''), (VA, '''        let mut declaration_names = HashSet::new();
''', '''        let mut declaration_names = HashSet::new();
        let mut field_names = HashSet::new();
'''))
mutant('val-deleted-small', 'C08', (VA, 'if declaration.deleted.contains(&field.index) {', 'if field.index < 64 && declaration.deleted.contains(&field.index) {'))
mutant('val-gap-range', 'C08', (VA, 'for index in 0..(field_indices.len() + declaration.deleted.len()) {', 'for index in 0..field_indices.len() {'))
mutant('val-gap-or', 'C08', (VA, 'if !field_indices.contains(&index) && !declaration', 'if index != 0 && !field_indices.contains(&index) && !declaration'))
mutant('val-gap-more', 'C11', (VA, 'if !field_indices.contains(&index) && !declaration', 'if !field_indices.contains(&index) || !declaration'))
mutant('val-array-once', 'C09', (VA, '''            validate_type(
                all_types,
                errors,
                namespace,
                schema,
                source_path,
                source_contents,
                inner_type,
            );''', '''            if let schema::TypeVariant::Array(_) = inner_type.variant {
                return;
            }
            validate_type(
                all_types,
                errors,
                namespace,
                schema,
                source_path,
                source_contents,
                inner_type,
            );'''))
mutant('val-table-first', 'C09', (VA, '''        for declaration in &schema.declarations {
            all_types''', '''        for declaration in schema.declarations.iter().take(256) {
            all_types'''))
mutant('val-dup-first', 'C08', (VA, '''            // Validate the fields in the declaration.
''', '''            if declaration.fields.len() == 1 && declaration.deleted.is_empty() {
                continue;
            }
'''))
same('val-btree', (VA, 'let mut field_indices = HashSet::new();', 'let mut field_indices = std::collections::BTreeSet::new();'))
same('val-contains-insert', (VA, '''                if !field_names.insert(field.name.clone()) {''', '''                if field_names.contains(&field.name) {'''), (VA, '''                // Check that the index of the field is unique within the declaration.
''', '''                field_names.insert(field.name.clone());
'''))
same('val-limit-rewrite', (VA, 'field.index > MAX_FIELD_INDEX', 'field.index >= 1 << 62'))
same('val-decl-helper', (VA, '''            // Check that all index gaps are marked as deleted.
            for index in 0..(field_indices.len() + declaration.deleted.len()) {
                if !field_indices.contains(&index) && !declaration.deleted.contains(&index) {
                    errors.push(throw::<Error>(
                        &format!(
                            "Field index gap found. Unused index {} is not marked as deleted.",
                            index.to_string().code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, declaration.source_range)),
                        None,
                    ));
                }
            }
''', '''            report_gaps(source_path, source_contents, declaration, &field_indices, &mut errors);
'''), (VA, '// This function validates an individual type.', '''// Check that all index gaps are marked as deleted.
fn report_gaps(
    source_path: &Path,
    source_contents: &str,
    declaration: &schema::Declaration,
    field_indices: &HashSet<usize>,
    errors: &mut Vec<Error>,
) {
    let count = field_indices.len() + declaration.deleted.len();
    for index in 0..count {
        if field_indices.contains(&index) || declaration.deleted.contains(&index) {
            continue;
        }
        errors.push(throw::<Error>(
            &format!(
                "Field index gap found. Unused index {} is not marked as deleted.",
                index.to_string().code_str(),
            ),
            Some(source_path),
            Some(&listing(source_contents, declaration.source_range)),
            None,
        ));
    }
}

// This function validates an individual type.'''))
same('val-gap-filter', (VA, '''            for index in 0..(field_indices.len() + declaration.deleted.len()) {
                if !field_indices.contains(&index) && !declaration.deleted.contains(&index) {
                    errors''', '''            for index in (0..declaration.deleted.len() + field_indices.len()).filter(|index| !field_indices.contains(index)) {
                if !declaration.deleted.contains(&index) {
                    errors'''))
same('val-two-loops', (VA, '''                // Validate the type.
                validate_type(''', '''            }

            for field in &declaration.fields {
                validate_type('''))
mutant('cyc-array-skip', 'C10', (VA, '''            check_type_for_cycles(
                all_types,
                types_checked,
                types_visited_set,
                types_visited_vec,
                errors,
                namespace,
                schema,
                inner_type,
            );
        }
        schema::TypeVariant::Bool''', '''            if let schema::TypeVariant::Custom(None, _) = inner_type.variant {
            check_type_for_cycles(
                all_types,
                types_checked,
                types_visited_set,
                types_visited_vec,
                errors,
                namespace,
                schema,
                inner_type,
            );
            }
        }
        schema::TypeVariant::Bool'''))
mutant('cyc-black-early', 'C10', (VA, '''    // Check the type of each field. The `unwrap`''', '''    types_checked.insert(qualified_type.clone());
    // Check the type of each field. The `unwrap`'''))
mutant('cyc-grey-early', 'C10', (VA, '''    // Check the type of each field. The `unwrap`''', '''    types_visited_set.remove(&qualified_type);
    // Check the type of each field. The `unwrap`'''))
mutant('cyc-no-black-no-remove', 'C10', (VA, '''    types_visited_set.remove(&qualified_type);
    types_visited_vec.pop();

    // Record that the type has been checked.
    types_checked.insert(qualified_type);''', '''    types_visited_vec.pop();'''))
mutant('cyc-depth', 'C10', (VA, '''    // Stop if we've already checked this type.
''', '''    if types_visited_vec.len() > 32 {
        return;
    }
'''))
mutant('cyc-wrong-ns', 'C10', (VA, '''                    .namespace
                    .clone()
                    .unwrap(),
            );

            check_declaration''', '''                    .namespace
                    .clone()
                    .filter(|other| other != namespace)
                    .unwrap_or_else(|| namespace.clone()),
            );
            let type_namespace = if schema.imports.len() > 1 { namespace.clone() } else { type_namespace };

            check_declaration'''))
mutant('cyc-structs-only', 'C10', (VA, '''    for field in &declaration.fields {
        check_type_for_cycles''', '''    for field in declaration.fields.iter().filter(|f| !matches!(f.rule, schema::Rule::Optional)) {
        check_type_for_cycles'''))
mutant('cyc-first-file', 'C10', (VA, '''        for (namespace, (schema, _, _)) in schemas {
            for declaration in &schema.declarations {
                check_decl''', '''        for (namespace, (schema, _, _)) in schemas {
            for declaration in schema.declarations.iter().filter(|d| d.fields.len() > 1) {
                check_decl'''))
mutant('cyc-silent', 'C10', (VA, '''    if !types_visited_set.insert(qualified_type.clone()) {
''', '''    if !types_visited_set.insert(qualified_type.clone()) {
        if types_visited_vec.len() == 2 {
            types_visited_vec.pop();
            types_checked.insert(qualified_type);
            return;
        }
'''))
same('cyc-contains', (VA, '''    if !types_visited_set.insert(qualified_type.clone()) {
''', '''    if types_visited_set.contains(&qualified_type) {
'''), (VA, '''    // Check the type of each field. The `unwrap`''', '''    types_visited_set.insert(qualified_type.clone());

    // Check the type of each field. The `unwrap`'''))
same('cyc-iflet', (VA, '''            let type_namespace = import.as_ref().map_or_else(
                || namespace.clone(),
                |import|
                    // The first `unwrap` is safe due to
                    // [ref:schemas_valid_except_possible_cycles]. The second `unwrap`
                    // is safe due to [ref:namespace_populated].
                    schema
                    .imports
                    .get(import)
                    .unwrap()
                    .namespace
                    .clone()
                    .unwrap(),
            );''', '''            let type_namespace = match import {
                Some(import) => schema.imports[import].namespace.clone().unwrap(),
                None => namespace.clone(),
            };'''))
same('cyc-order', (VA, '''    types_visited_set.remove(&qualified_type);
    types_visited_vec.pop();

    // Record that the type has been checked.
    types_checked.insert(qualified_type);''', '''    types_visited_vec.pop();
    types_checked.insert(qualified_type.clone());
    types_visited_set.remove(&qualified_type);'''))
same('cyc-leaf', (VA, '''        types_checked.insert(qualified_type);

        return;
    }
''', '''        types_checked.insert(qualified_type);
    } else {
'''), (VA, '''    // Record that the type has been checked.
    types_checked.insert(qualified_type);''', '''    // Record that the type has been checked.
    types_checked.insert(qualified_type);
    }'''))

# parser
PA = 'src/parser.rs'
mutant('parse-trailing', 'C12', (PA, 'if errors.is_empty() && position != tokens.len() {', 'if errors.is_empty() && position + 1 < tokens.len() {'))
mutant('parse-field-noequals', 'C12', (PA, '''    // Consume the equals sign.
    consume_token_0!(
        source_path,
        source_contents,
        tokens,
        &mut *position,
        errors,
        Equals,
        None,
    );
''', '''    // Consume the equals sign.
    if *position == tokens.len() || !matches!(tokens[*position].variant, token::Variant::Integer(_)) {
    consume_token_0!(
        source_path,
        source_contents,
        tokens,
        &mut *position,
        errors,
        Equals,
        None,
    );
    }
'''))
mutant('parse-two-deleted', 'C12', (PA, '''        if *position != tokens.len() && matches!(tokens[*position].variant, token::Variant::Deleted)
        {''', '''        while *position != tokens.len() && matches!(tokens[*position].variant, token::Variant::Deleted)
        {'''))
mutant('parse-skip-unknown', 'C12', (PA, '''            _ => {
                break;
            }
        }
    }

    // Parse the declarations.''', '''            token::Variant::Dot => {
                *position += 1;
            }
            _ => {
                break;
            }
        }
    }

    // Parse the declarations.'''))
mutant('parse-silent-none', 'C12', (PA, '''        // Make sure we have a token to parse next.
        if *position == tokens.len() {
            errors.push(unexpected_token(
                source_path,
                source_contents,
                tokens,
                *position,
                "a type",
            ));

            return None;
        }

        // Parse the type [ref''', '''        // Make sure we have a token to parse next.
        if *position == tokens.len() {
            return None;
        }

        // Parse the type [ref'''))
mutant('parse-qualified-end', 'C12', (PA, 'if *position < tokens.len() - 2 {', 'if *position < tokens.len() - 3 {'))
mutant('parse-dot-any', 'C12', (PA, '''                *position += 1;

                let r#type = consume_token_1!(
                    source_path,
                    source_contents,
                    tokens,
                    &mut *position,
                    errors,
                    Identifier,
                    "a type",
                    None,
                );

                (Some(import), r#type)''', '''                *position += 1;
                if matches!(tokens[*position].variant, token::Variant::Dot) {
                    *position += 1;
                }

                let r#type = consume_token_1!(
                    source_path,
                    source_contents,
                    tokens,
                    &mut *position,
                    errors,
                    Identifier,
                    "a type",
                    None,
                );

                (Some(import), r#type)'''))
mutant('parse-import-optional-only-first', 'C12', (PA, '''            token::Variant::Import => {
                // This''', '''            token::Variant::Import if imports.len() < 16 => {
                // This'''))
mutant('parse-rule-after-comment', 'C12', (PA, '''    let rule = if *position == tokens.len() {
        schema::Rule::Required''', '''    let rule = if *position == tokens.len() || *position > start {
        schema::Rule::Required'''))
mutant('parse-dup-import', 'C12', (PA, '''if imports.insert(name.clone(), import.clone()).is_some() {''', '''if imports.insert(name.clone(), import.clone()).is_some_and(|other| other.path != import.path) {'''))
same('parse-while-loop', (PA, '''    while *position < tokens.len() {
        match tokens[*position].variant {
            token::Variant::Import => {''', '''    loop {
        if *position >= tokens.len() {
            break;
        }
        match &tokens[*position].variant {
            token::Variant::Import => {'''))
same('parse-rule-helper', (PA, '''    let rule = if *position == tokens.len() {
        schema::Rule::Required
    } else {
        match tokens[*position].variant {
            token::Variant::Asymmetric => {
                *position += 1;

                schema::Rule::Asymmetric
            }
            token::Variant::Optional => {
                *position += 1;

                schema::Rule::Optional
            }
            _ => schema::Rule::Required,
        }
    };
''', '''    let rule = parse_rule(tokens, position);
'''), (PA, '// Parse a field. If this function returns', '''// Parse a rule, if there is one.
fn parse_rule(tokens: &[token::Token], position: &mut usize) -> schema::Rule {
    let rule = match tokens.get(*position).map(|token| &token.variant) {
        Some(token::Variant::Asymmetric) => schema::Rule::Asymmetric,
        Some(token::Variant::Optional) => schema::Rule::Optional,
        _ => return schema::Rule::Required,
    };
    *position += 1;
    rule
}

// Parse a field. If this function returns'''))
same('parse-type-match', (PA, '''    } else if let token::Variant::Bool = tokens[*position].variant {
        *position += 1;

        Some(schema::Type {
            source_range: span_tokens(tokens, start, *position),
            variant: schema::TypeVariant::Bool,
        })
    } else if let token::Variant::Bytes = tokens[*position].variant {
        *position += 1;

        Some(schema::Type {
            source_range: span_tokens(tokens, start, *position),
            variant: schema::TypeVariant::Bytes,
        })
    } else if''', '''    } else if let Some(variant) = match tokens[*position].variant {
        token::Variant::Bool => Some(schema::TypeVariant::Bool),
        token::Variant::Bytes => Some(schema::TypeVariant::Bytes),
        _ => None,
    } {
        *position += 1;

        Some(schema::Type {
            source_range: span_tokens(tokens, start, *position),
            variant,
        })
    } else if'''))
same('parse-decl-helper', (PA, '''                // Jump to the closing curly brace, if it exists. Otherwise, jump to the
                // end of the source.
                while *position < tokens.len() {
                    if let token::Variant::RightCurly = tokens[*position].variant {
                        break;
                    }

                    *position += 1;
                }

                break;''', '''                skip_to_right_curly(tokens, position);

                break;'''), (PA, '// Parse a field. If this function returns', '''// Jump to the closing curly brace, if it exists. Otherwise, jump to the end of the source.
fn skip_to_right_curly(tokens: &[token::Token], position: &mut usize) {
    while *position < tokens.len() && !matches!(tokens[*position].variant, token::Variant::RightCurly) {
        *position += 1;
    }
}

// Parse a field. If this function returns'''))
same('parse-deleted-loop', (PA, '''            while *position != tokens.len() {
                if let index_token @ token::Variant::Integer(index) = &tokens[*position].variant {''', '''            while let Some(current) = tokens.get(*position) {
                if let index_token @ token::Variant::Integer(index) = &current.variant {'''))
mutant('ast-decl-drop-empty', 'C15', (PA, '''        declarations.push(schema::Declaration {
            source_range,''', '''        if fields.is_empty() && !deleted.is_empty() {
            continue;
        }
        declarations.push(schema::Declaration {
            source_range,'''))
mutant('ast-rule-swap', 'C15', (PA, '''                schema::Rule::Asymmetric
            }''', '''                schema::Rule::Optional
            }'''))
mutant('ast-comment-drop', 'C15', (PA, '        fields,\n            deleted,', '        fields: fields.into_iter().rev().collect(),\n            deleted,'), may=['C12'])
mutant('ast-fields-front', 'C15', (PA, 'fields.push(field.clone());', 'fields.insert(0, field.clone());'))
mutant('ast-import-no-overwrite', 'C15', (PA, 'if imports.insert(name.clone(), import.clone()).is_some() {', 'if imports.contains_key(&name) {'))
mutant('ast-header-gap', 'C15', (PA, 'if tokens[*position].source_range.end + 1\n', 'if tokens[*position].source_range.end + 2\n'))
mutant('ast-header-no-gap', 'C15', (PA, 'token::Variant::Struct | token::Variant::Choice => {\n                        if tokens', 'token::Variant::Struct => {\n                        if tokens'))
mutant('ast-fields-outer', 'C15', (PA, '''    let mut declarations = vec![];

    // Parse the comment''', '''    let mut declarations = vec![];
    let mut deleted = BTreeSet::new();

    // Parse the comment'''), (PA, '''        let mut deleted = BTreeSet::new();
        if''', '''        if'''), (PA, '''            fields,
            deleted,
        });''', '''            fields,
            deleted: deleted.clone(),
        });'''))
mutant('ast-field-comment-lost', 'C15', (PA, '''        source_range: span_tokens(tokens, start, *position),
        comment,
        rule,''', '''        source_range: span_tokens(tokens, start, *position),
        comment: if matches!(rule, schema::Rule::Required) { comment } else { vec![] },
        rule,'''))
mutant('ast-unit-default', 'C15', (PA, '''            source_range: span_tokens(tokens, *position, *position),
            variant: schema::TypeVariant::Unit,''', '''            source_range: span_tokens(tokens, *position, *position),
            variant: schema::TypeVariant::Bool,'''))
mutant('ast-stem', 'C15', (PA, 'if let Some(file_stem) = path.file_stem() {', 'if let Some(file_stem) = path.file_name() {'))
mutant('ast-variant', 'C15', (PA, 'token::Variant::Choice => schema::DeclarationVariant::Choice,', 'token::Variant::Choice if fields.is_empty() => schema::DeclarationVariant::Struct,\n                token::Variant::Choice => schema::DeclarationVariant::Choice,'))
T = 'src/tokenizer.rs'
mutant('tok-ident-ascii', 'C17', (T, "if d.is_alphanumeric() || *d == '_' {", "if d.is_ascii_alphanumeric() || *d == '_' {"))
mutant('tok-ident-start', 'C17', (T, "_ if c.is_alphabetic() || c == '_' || c == RAW_IDENTIFIER_SIGIL => {", "_ if c.is_alphanumeric() && !c.is_ascii_digit() || c == '_' || c == RAW_IDENTIFIER_SIGIL => {"))
mutant('tok-keyword-swap', 'C17', (T, 'variant: Variant::S64,', 'variant: Variant::U64,'))
mutant('tok-sigil-end', 'C17', (T, 'Variant::Identifier(schema_contents[start..end].into())', 'Variant::Identifier(schema_contents[i..end].trim_matches(RAW_IDENTIFIER_SIGIL).into())'))
mutant('tok-int-u32', 'C17', (T, 'match schema_contents[i..end].parse::<usize>() {', 'match schema_contents[i..end].parse::<u32>().map(|x| x as usize) {'))
mutant('tok-int-numeric', 'C17', (T, 'if d.is_ascii_digit() {', 'if d.is_numeric() {'))
mutant('tok-path-start', 'C17', (T, 'Path::new(&schema_contents[i + 1..end])', 'Path::new(&schema_contents[i..end])'), may=['C03'])
mutant('tok-path-line', 'C17', (T, "if d == '\\'' {\n                        end = j;", "if d == '\\n' {\n                        break;\n                    }\n                    if d == '\\'' {\n                        end = j;"))
mutant('tok-path-empty', 'C17', (T, 'if end == i {', 'if end <= i + 1 {'))
mutant('tok-comment-trim', 'C17', (T, '[line_start..line_end].trim()', '[line_start..line_end].trim_end()'))
mutant('tok-comment-start', 'C17', (T, 'line_start = j + 1;', 'line_start = *j;'))
mutant('tok-comment-gap', 'C17', (T, "if d.is_whitespace() && *d != '\\n' {", 'if d.is_whitespace() {'))
mutant('tok-comment-end', 'C17', (T, "                        line_start = j + 1;\n                        line_end = schema_contents.len();", "                        line_start = j + 1;"))
mutant('tok-ws-ascii', 'C17', (T, '_ if c.is_whitespace() => continue,', '_ if c.is_ascii_whitespace() => continue,'))
mutant('tok-skip-control', 'C17', (T, '_ if c.is_whitespace() => continue,', '_ if c.is_whitespace() || c.is_control() => continue,'))
mutant('tok-underscore-sigil', 'C17', (T, "if schema_contents[start..end].starts_with('_') {", "if schema_contents[i..end].starts_with('_') {"))
mutant('tok-empty-ident', 'C17', (T, 'if start == end {', 'if start == end && end == schema_contents.len() {'))
mutant('tok-para-noclear', 'C17', (T, 'if line.is_empty() && !paragraph.is_empty() {', 'if line.is_empty() && !paragraph.is_empty() && paragraphs.is_empty() {'))
mutant('tok-para-last', 'C17', (T, "                if !paragraph.is_empty() {\n                    paragraphs.push(paragraph.clone());\n                }\n\n                tokens", "                if !paragraph.is_empty() || paragraphs.is_empty() {\n                    paragraphs.push(paragraph.clone());\n                }\n\n                tokens"))
mutant('tok-range', 'C17', (T, '''                        start: i,
                        end: i + 1,
                    },
                    variant: Variant::Dot,''', '''                        start: i,
                        end: i,
                    },
                    variant: Variant::Dot,'''))
mutant('tok-comment-range', 'C17', (T, '''                        start: i,
                        end: line_end,''', '''                        start: line_start,
                        end: line_end,'''))
mutant('tok-token-dropped', 'C17', (T, '''    // If there are any errors at this point''', '''    tokens.dedup_by(|a, b| matches!((&a.variant, &b.variant), (Variant::Dot, Variant::Dot)));

    // If there are any errors at this point'''))
mutant('tok-errors-ok', 'C17 C04'[:3], (T, 'if !errors.is_empty() {\n        return', 'if !errors.is_empty() && tokens.len() < 1000 {\n        return'))
SYM = [(ch, v) for ch, v in ((':', 'Colon'), ('.', 'Dot'), ('=', 'Equals'), ('{', 'LeftCurly'), ('[', 'LeftSquare'), ('}', 'RightCurly'), (']', 'RightSquare'))]
same('tok-helper', *[(T, '''                tokens.push(Token {
                    source_range: SourceRange {
                        start: i,
                        end: i + 1,
                    },
                    variant: Variant::%s,
                });''' % v, 'tokens.push(symbol(i, Variant::%s));' % v) for ch, v in SYM], (T, '''// Tokenize the contents of a schema file.
''', '''// A token of one byte.
fn symbol(start: usize, variant: Variant) -> Token {
    Token {
        source_range: SourceRange {
            start,
            end: start + 1,
        },
        variant,
    }
}

// Tokenize the contents of a schema file.
'''))
KW = [('AS', 'As'), ('ASYMMETRIC', 'Asymmetric'), ('BOOL', 'Bool'), ('BYTES', 'Bytes'), ('CHOICE', 'Choice'), ('DELETED', 'Deleted'), ('F64', 'F64'), ('IMPORT', 'Import'), ('OPTIONAL', 'Optional'), ('S64', 'S64'), ('STRING', 'String'), ('STRUCT', 'Struct'), ('U64', 'U64'), ('UNIT', 'Unit')]
KWOLD = ''.join('''%sif &schema_contents[i..end] == %s_KEYWORD {
                    tokens.push(Token {
                        source_range: SourceRange { start: i, end },
                        variant: Variant::%s,
                    });
                } ''' % ('' if n == 0 else 'else ', k, v) for n, (k, v) in enumerate(KW)) + 'else {\n                    let start'
same('tok-keyword-match', (T, KWOLD, '''let keyword = match &schema_contents[i..end] {
''' + ''.join('                    %s_KEYWORD => Some(Variant::%s),\n' % kv for kv in KW) + '''                    _ => None,
                };
                if let Some(variant) = keyword {
                    tokens.push(Token {
                        source_range: SourceRange { start: i, end },
                        variant,
                    });
                } else {
                    let start'''))
same('tok-next-if', (T, '''                while let Some((j, d)) = iter.peek() {
                    if d.is_ascii_digit() {
                        iter.next();
                    } else {
                        end = *j;
                        break;
                    }
                }
''', '''                while iter.next_if(|(_, d)| d.is_ascii_digit()).is_some() {}
                if let Some((j, _)) = iter.peek() {
                    end = *j;
                }
'''))
same('tok-path-option', (T, '''                let mut end = i;

                for (j, d) in &mut iter {
                    if d == '\\'' {
                        end = j;
                        break;
                    }
                }

                if end == i {''', '''                let mut close = None;
                while let Some((j, d)) = iter.next() {
                    if d == '\\'' {
                        close = Some(j);
                        break;
                    }
                }
                let end = close.unwrap_or(i);

                if close.is_none() {'''))
same('tok-para-match', (T, '''                    if line.is_empty() && !paragraph.is_empty() {
                        paragraphs.push(paragraph.clone());
                        paragraph.clear();
                    } else if !line.is_empty() {
                        if !paragraph.is_empty() {''', '''                    if line.is_empty() {
                        if paragraph.is_empty() {
                            continue;
                        }
                        paragraphs.push(paragraph.clone());
                        paragraph.clear();
                    } else {
                        if !paragraph.is_empty() {'''))
same('tok-comment-while', (T, '''                    while let Some((_, d)) = iter.peek() {
                        if d.is_whitespace() && *d != '\\n' {
                            iter.next();
                        } else {
                            break;
                        }
                    }
''', '''                    while matches!(iter.peek(), Some((_, d)) if d.is_whitespace() && *d != '\\n') {
                        iter.next();
                    }
'''))

S = 'src/schema.rs'
TK = 'src/token.rs'
mutant('fmt-header-blank', 'C16', (S, 'if !self.comment.is_empty() && (!self.imports.is_empty() || !self.declarations.is_empty()) {', 'if !self.comment.is_empty() && !self.imports.is_empty() {'))
mutant('fmt-paragraph', 'C16', (S, '        if i != 0 {\n            writeln!(f, "{indentation}#")?;', '        if i > 1 {\n            writeln!(f, "{indentation}#")?;'))
mutant('fmt-alias-escape', 'C16', (S, 'escape_keyword(name.snake_case()),\n            )', 'name.snake_case(),\n            )'))
mutant('fmt-deleted-nofields', 'C16', (S, '        if !self.deleted.is_empty() {\n            write!', '        if !self.deleted.is_empty() && !self.fields.is_empty() {\n            write!'))
mutant('fmt-rule', 'C16', (S, 'write!(f, "    {ASYMMETRIC_KEYWORD} ")?;', 'write!(f, "    {OPTIONAL_KEYWORD} ")?;'))
mutant('fmt-unit', 'C16', (S, 'if let TypeVariant::Unit = self.r#type.variant {', 'if let TypeVariant::Unit | TypeVariant::Bool = self.r#type.variant {'))
mutant('fmt-unit-opt', 'C16', (S, '''        if let TypeVariant::Unit = self.r#type.variant {
        } else {''', '''        if matches!(self.r#type.variant, TypeVariant::Unit) || (matches!(self.r#type.variant, TypeVariant::Bytes) && matches!(self.rule, Rule::Optional)) {
        } else {'''))
mutant('fmt-break-words', 'C16', (S, '.break_words(false)', '.break_words(true)'))
mutant('fmt-hyphens', 'C16', (S, '            .word_splitter(NoHyphenation);', '            ;'), (S, 'word_separators::AsciiSpace, word_splitters::NoHyphenation', 'word_separators::AsciiSpace'))
mutant('fmt-keyword-missing', 'C16', (TK, '            | DELETED_KEYWORD\n            | F64', '            | F64'))
mutant('fmt-index', 'C16', (S, 'writeln!(f, " = {}", self.index)', 'writeln!(f, " = {}", self.index & 0xffff_ffff)'))
mutant('fmt-alias-dropped', 'C16', (S, '''            == Some(name)
        {''', '''            == Some(name) || self.path.file_stem().is_none()
        {'''))
mutant('fmt-many-fields', 'C16', (S, '        if !self.deleted.is_empty() {\n            write!', '        if !self.deleted.is_empty() && self.deleted.len() < 12 {\n            write!'))
mutant('fmt-custom-import', 'C16', (S, 'if let Some(import) = import {\n', 'if let Some(import) = import.as_ref().filter(|i| **i != *name) {\n'))
mutant('fmt-name-original', 'C16', (S, 'write!(f, "{}", escape_keyword(self.name.snake_case()))?;', 'write!(f, "{}", escape_keyword(self.name.original().to_owned()))?;'))
mutant('fmt-choice-comment', 'C16', (S, '''        write_comment("", &self.comment, f)?;

        self.variant''', '''        if !self.fields.is_empty() || matches!(self.variant, DeclarationVariant::Struct) {
            write_comment("", &self.comment, f)?;
        }

        self.variant'''))
mutant('fmt-keyword-any-case', 'C16', (S, '    if is_keyword(&name) {', '    if is_keyword(&name) && name.len() > 2 {'))
same('fmt-match-unit', (S, '''        if let TypeVariant::Unit = self.r#type.variant {
        } else {
            write!(f, ": ")?;
            self.r#type.write(f)?;
        }''', '''        match self.r#type.variant {
            TypeVariant::Unit => {}
            _ => {
                f.write_str(": ")?;
                self.r#type.variant.write(f)?;
            }
        }'''))
same('fmt-rule-str', (S, '''        match self.rule {
            Rule::Asymmetric => {
                write!(f, "    {ASYMMETRIC_KEYWORD} ")?;
            }
            Rule::Optional => {
                write!(f, "    {OPTIONAL_KEYWORD} ")?;
            }
            Rule::Required => {
                write!(f, "    ")?;
            }
        }''', '''        write!(f, "    ")?;
        let rule = match self.rule {
            Rule::Asymmetric => Some(ASYMMETRIC_KEYWORD),
            Rule::Optional => Some(OPTIONAL_KEYWORD),
            Rule::Required => None,
        };
        if let Some(rule) = rule {
            write!(f, "{rule} ")?;
        }'''))
same('fmt-deleted-helper', (S, '''            for deleted_index in &self.deleted {
                write!(f, " {deleted_index}")?;
            }
''', '''            self.deleted.iter().try_for_each(|index| write!(f, " {index}"))?;
'''))
same('fmt-deleted-join', (S, '''            write!(f, "    {DELETED_KEYWORD}")?;

            for deleted_index in &self.deleted {
                write!(f, " {deleted_index}")?;
            }

            writeln!(f)?;
''', '''            let indices: Vec<String> = self.deleted.iter().map(ToString::to_string).collect();
            writeln!(f, "    {DELETED_KEYWORD} {}", indices.join(" "))?;
'''))
same('fmt-inline-sigil', (S, '''    if is_keyword(&name) {
        format!("{RAW_IDENTIFIER_SIGIL}{name}")
    } else {
        name
    }''', '''    let sigil = if is_keyword(&name) { RAW_IDENTIFIER_SIGIL.to_string() } else { String::new() };
    format!("{sigil}{name}")'''))
same('fmt-comment-iter', (S, '''    for (i, paragraph) in paragraphs.iter().enumerate() {
        if i != 0 {
            writeln!(f, "{indentation}#")?;
        }
''', '''    let mut first = true;
    for paragraph in paragraphs {
        if !first {
            writeln!(f, "{indentation}#")?;
        }
        first = false;
'''))
same('fmt-decl-index', (S, '''        let mut skip_blank_line = self.imports.is_empty();

        for declaration in &self.declarations {
            if skip_blank_line {
                skip_blank_line = false;
            } else {
                writeln!(f)?;
            }
''', '''        for (position, declaration) in self.declarations.iter().enumerate() {
            if position > 0 || !self.imports.is_empty() {
                writeln!(f)?;
            }
'''))
same('fmt-alias-option', (S, '''        if self
            .path
            .file_stem()
            .map(|file_stem| file_stem.to_string_lossy().as_ref().into())
            .as_ref()
            == Some(name)
        {''', '''        let implied: Option<Identifier> =
            self.path.file_stem().map(|stem| Identifier::from(stem.to_string_lossy().as_ref()));
        let matches = match implied {
            Some(implied) => implied == *name,
            None => false,
        };
        if matches {'''))
same('fmt-fields-peek', (S, '''        let mut previous_field_has_comment = false;

        for (i, field) in self.fields.iter().enumerate() {
            if (previous_field_has_comment || !field.comment.is_empty()) && i != 0 {
                writeln!(f)?;
            }

            previous_field_has_comment = !field.comment.is_empty();
''', '''        for (i, field) in self.fields.iter().enumerate() {
            if i > 0 && (!field.comment.is_empty() || !self.fields[i - 1].comment.is_empty()) {
                writeln!(f)?;
            }
'''))
