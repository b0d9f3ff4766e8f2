import re
F='src/schema_loader.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b,n) if n else s.replace(a,b)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
def l1(s):
    i,j=cut(s,'            // Canonicalize the import path.','            // Populate the namespace of the import')
    s=s[:i]+'''            let based_import_path = match based_path(&canonical_base_path, &non_canonical_import_path, &path, &origin_listing) {
                Ok(based_import_path) => based_import_path,
                Err(error) => {
                    errors.push(error);
                    continue;
                }
            };

'''+s[j:]
    return s+'''
fn based_path(canonical_base_path: &Path, import_path: &Path, path: &Path, origin_listing: &str) -> Result<PathBuf, Error> {
    let canonical_import_path = import_path.canonicalize().map_err(|error| {
        throw(
            &format!("Unable to load {}.", import_path.to_string_lossy().code_str()),
            Some(path),
            Some(origin_listing),
            Some(error),
        )
    })?;

    canonical_import_path
        .strip_prefix(canonical_base_path)
        .map(ToOwned::to_owned)
        .map_err(|_| {
            throw::<Error>(
                &format!(
                    "{} is not a descendant of {}, which is the base directory for this run.",
                    canonical_import_path.to_string_lossy().code_str(),
                    canonical_base_path.to_string_lossy().code_str(),
                ),
                Some(path),
                Some(origin_listing),
                None,
            )
        })
}
'''
mk('ld-based-path',l1)
def l2(s):
    i,j=cut(s,'        // Read the file.','        // Compute the base directory for this schema')
    s=s[:i]+'''        let (mut schema, contents) = match load_schema(base_path, &path, origin.as_ref()) {
            Ok(loaded) => loaded,
            Err(mut file_errors) => {
                errors.append(&mut file_errors);
                continue;
            }
        };

'''+s[j:]
    return s+'''
fn load_schema(base_path: &Path, path: &Path, origin: Option<&(PathBuf, String)>) -> Result<(schema::Schema, String), Vec<Error>> {
    let contents = read_to_string(base_path.join(path)).map_err(|error| {
        let message = format!("Unable to load {}.", path.to_string_lossy().code_str());
        vec![match origin {
            Some((origin_path, origin_listing)) => throw(&message, Some(origin_path), Some(origin_listing), Some(error)),
            None => throw(&message, None, None, Some(error)),
        }]
    })?;
    let tokens = tokenize(path, &contents)?;
    let schema = parse(path, &contents, &tokens)?;
    Ok((schema, contents))
}
'''
mk('ld-load-schema',l2)
def l3(s):
    i,j=cut(s,'        // Add the dependencies to the frontier.','        // Store the schema.')
    b=s[i:j]
    s=s[:i]+'        visit_imports(&mut schema, base_path, &canonical_base_path, &path, &contents, &mut visited_paths, &mut schemas_to_load, &mut errors);\n\n'+s[j:]
    i,j=cut(s,'        // Compute the base directory for this schema','        visit_imports(')
    b=s[i:j]+b
    s=s[:i]+s[j:]
    return s+'''
#[allow(clippy::too_many_arguments)]
fn visit_imports(
    schema: &mut schema::Schema,
    base_path: &Path,
    canonical_base_path: &Path,
    path: &Path,
    contents: &str,
    visited_paths: &mut HashSet<PathBuf>,
    schemas_to_load: &mut Vec<(schema::Namespace, PathBuf, Option<(PathBuf, String)>)>,
    errors: &mut Vec<Error>,
) {
'''+b.replace('&canonical_base_path','canonical_base_path').replace('&contents','contents').replace('Some(&path)','Some(path)').replace('path.clone(), origin','path.to_owned(), origin')+'}\n'
mk('ld-visit-imports',l3)
def l6(s):
    s=sub(s,'let mut schemas_to_load = vec![(','let mut schemas_to_load = std::collections::VecDeque::new();\n    schemas_to_load.push_back((')
    s=sub(s,'None as Option<(PathBuf, String)>,\n    )];','None as Option<(PathBuf, String)>,\n    ));')
    s=sub(s,'schemas_to_load.pop()','schemas_to_load.pop_front()')
    return sub(s,'schemas_to_load.push((','schemas_to_load.push_back((')
mk('ld-queue',l6)
def l8(s):
    s=sub(s,'''            if !visited_paths.contains(&based_import_path) {
                visited_paths.insert(based_import_path.clone());
                schemas_to_load.push((''','''            {
                schemas_to_load.push((''')
    s=sub(s,'''    let mut visited_paths = HashSet::new();
    visited_paths.insert(based_schema_path.to_owned());
''','''    let mut visited_paths = HashSet::new();
''')
    return sub(s,'''        // Read the file.
''','''        if !visited_paths.insert(path.clone()) {
            continue;
        }

        // Read the file.
''')
mk('ld-visit-at-pop',l8)
def l10(s):
    i,j=cut(s,'        // Store the schema.\n','    // Return a success')
    b=s[i:j]
    return s[:i]+'''        // Store the schema.
        match schemas.entry(namespace) {
            std::collections::btree_map::Entry::Vacant(entry) => {
                entry.insert((schema, path, contents));
            }
            std::collections::btree_map::Entry::Occupied(entry) => {
                errors.push(throw::<Error>(
                    &format!(
                        "This file conflicts with {}, since both correspond to the same namespace {}.",
                        entry.get().1.to_string_lossy().code_str(),
                        entry.key().to_string().code_str(),
                    ),
                    Some(&path),
                    None,
                    None,
                ));
            }
        }
    }

'''+s[j:]
mk('ld-entry',l10)
def l11(s):
    s=sub(s,'''        let contents = match read_to_string(base_path.join(&path)) {
            Ok(contents) => contents,
            Err(error) => {
                let message = format!("Unable to load {}.", path.to_string_lossy().code_str());

                if let Some((origin_path, origin_listing)) = origin {
                    errors.push(throw(
                        &message,
                        Some(&origin_path),
                        Some(&origin_listing),
                        Some(error),
                    ));
                } else {
                    errors.push(throw(&message, None, None, Some(error)));
                }

                continue;
            }
        };''','''        let full_path = base_path.join(&path);
        let contents = match read_to_string(full_path) {
            Ok(contents) => contents,
            Err(error) => {
                errors.push(throw(
                    &format!("Unable to load {}.", path.to_string_lossy().code_str()),
                    origin.as_ref().map(|(origin_path, _)| origin_path.as_path()),
                    origin.as_ref().map(|(_, origin_listing)| origin_listing.as_str()),
                    Some(error),
                ));

                continue;
            }
        };''')
    return s
mk('ld-origin-map',l11)
def l12(s):
    s=sub(s,'''        let tokens = match tokenize(&path, &contents) {
            Ok(tokens) => tokens,
            Err(error) => {
                errors.extend_from_slice(&error);

                continue;
            }
        };

        // Parse the tokens.
        let mut schema = match parse(&path, &contents, &tokens) {
            Ok(schema) => schema,
            Err(error) => {
                errors.extend_from_slice(&error);

                continue;
            }
        };''','''        let parsed = tokenize(&path, &contents).and_then(|tokens| parse(&path, &contents, &tokens));
        let mut schema = match parsed {
            Ok(schema) => schema,
            Err(error) => {
                errors.extend(error);

                continue;
            }
        };''')
    return s
mk('ld-and-then',l12)
def l13(s): # namespace of import by component map helper
    s=sub(s,'''    schema::Namespace {
        components: path
            .components()
            .map(|component| {
                if let Component::Normal(component) = component {
                    component.to_string_lossy().to_string().as_str().into()
                } else {
                    panic!()
                }
            })
            .collect(),
    }''','''    let mut components = vec![];
    for component in path.components() {
        match component {
            Component::Normal(component) => {
                components.push(component.to_string_lossy().as_ref().into());
            }
            _ => panic!(),
        }
    }

    schema::Namespace { components }''')
    return s
mk('ld-namespace-loop',l13)
def l13b(s):
    return sub(s,'''    let mut path = path.to_owned();
    path.set_extension("");

    schema::Namespace {
        components: path
''','''    schema::Namespace {
        components: path
            .with_extension("")
''')
mk('ld-with-extension',l13b)
def l14(s):
    s=sub(s,'''    // Return a success or report any errors.
    if errors.is_empty() {
        Ok(schemas)
    } else {
        Err(errors)
    }''','''    if !errors.is_empty() {
        return Err(errors);
    }

    Ok(schemas)''')
    s=sub(s,'''        errors.push(throw::<Error>(
            &format!(
                "{} is not a file.",
                schema_path.to_string_lossy().code_str(),
            ),
            None,
            None,
            None,
        ));

        return Err(errors);
    };

    // Canonicalize''','''        return Err(vec![throw::<Error>(
            &format!(
                "{} is not a file.",
                schema_path.to_string_lossy().code_str(),
            ),
            None,
            None,
            None,
        )]);
    };

    // Canonicalize''')
    return s
mk('ld-return-err',l14)
def l15(s):
    i,j=cut(s,'    // Canonicalize the path to the base directory.','    // Relative to the base directory, the path')
    return s[:i]+'''    let canonical_schema_path = match schema_path.canonicalize() {
        Ok(path) => path,
        Err(error) => {
            errors.push(throw(&format!("{} is not a file.", schema_path.to_string_lossy().code_str()), None, None, Some(error)));
            return Err(errors);
        }
    };
    let Some(canonical_base_path) = canonical_schema_path.parent() else {
        errors.push(throw(
            &format!("{} is not a file.", schema_path.to_string_lossy().code_str()),
            None,
            None,
            Some(io::Error::from(ErrorKind::Other)),
        ));
        return Err(errors);
    };

'''+s[j:].replace('strip_prefix(&canonical_base_path)','strip_prefix(canonical_base_path)')
mk('ld-canonical-base',l15)
def l16(s): # struct item for frontier
    s=sub(s,'''    let mut schemas_to_load = vec![(
        schema_namespace,
        based_schema_path.to_owned(),
        None as Option<(PathBuf, String)>,
    )];''','''    let mut schemas_to_load = vec![Pending {
        namespace: schema_namespace,
        path: based_schema_path.to_owned(),
        origin: None,
    }];''')
    s=sub(s,'while let Some((namespace, path, origin)) = schemas_to_load.pop()','while let Some(Pending { namespace, path, origin }) = schemas_to_load.pop()')
    s=sub(s,'''                schemas_to_load.push((
                    import_namespace,
                    based_import_path,
                    Some((path.clone(), origin_listing)),
                ));''','''                schemas_to_load.push(Pending {
                    namespace: import_namespace,
                    path: based_import_path,
                    origin: Some((path.clone(), origin_listing)),
                });''')
    return s+'''
struct Pending {
    namespace: schema::Namespace,
    path: PathBuf,
    origin: Option<(PathBuf, String)>,
}
'''
mk('ld-pending',l16)
def l17(s): # method-based Loader
    s=l3(s)
    s=s.replace('visit_imports(&mut schema, base_path, &canonical_base_path, &path, &contents, &mut visited_paths, &mut schemas_to_load, &mut errors);','''let mut frontier = Frontier { visited_paths, schemas_to_load };
        frontier.visit_imports(&mut schema, base_path, &canonical_base_path, &path, &contents, &mut errors);
        Frontier { visited_paths, schemas_to_load } = frontier;''')
    s=s.replace('''#[allow(clippy::too_many_arguments)]
fn visit_imports(
    schema''','''struct Frontier {
    visited_paths: HashSet<PathBuf>,
    schemas_to_load: Vec<(schema::Namespace, PathBuf, Option<(PathBuf, String)>)>,
}

impl Frontier {
#[allow(clippy::too_many_arguments)]
fn visit_imports(
    &mut self,
    schema''').replace('''    visited_paths: &mut HashSet<PathBuf>,
    schemas_to_load: &mut Vec<(schema::Namespace, PathBuf, Option<(PathBuf, String)>)>,
    errors''','    errors')
    i=s.index('fn visit_imports(\n    &mut self')
    b=s[i:].replace('visited_paths.','self.visited_paths.').replace('schemas_to_load.push','self.schemas_to_load.push')
    return s[:i]+b+'}\n'
mk('ld-frontier',l17)
def l18(s): # Frontier struct all through
    s=l17(s)
    s=s.replace('''let mut frontier = Frontier { visited_paths, schemas_to_load };
''','').replace('        Frontier { visited_paths, schemas_to_load } = frontier;\n','')
    s=s.replace('''    visited_paths.insert(based_schema_path.to_owned());
''','''    visited_paths.insert(based_schema_path.to_owned());
    let mut frontier = Frontier { visited_paths, schemas_to_load };
''').replace('= schemas_to_load.pop()','= frontier.schemas_to_load.pop()').replace('let mut schemas_to_load','let schemas_to_load')
    return s
mk('ld-frontier2',l18)
