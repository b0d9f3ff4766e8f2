import re
F='src/main.rs'
src=open('/repo/'+F).read()
out={}
def mk(name,f):
    s=f(src); assert s!=src,name; out[name]=s
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b,n) if n else s.replace(a,b)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
# 1 emit helper with fn pointer
def m1(s):
    i,_=cut(s,'    // Generate Rust code, if applicable.','x'); j=s.index('    eprintln!("Done.");',i)
    return s[:i]+'''    if let Some(rust) = rust {
        eprintln!("Generating Rust\\u{2026}");
        write_generated_code(rust, || generate_rust::generate(VERSION, &schemas))?;
    }

    if let Some(typescript) = typescript {
        eprintln!("Generating TypeScript\\u{2026}");
        write_generated_code(typescript, || generate_typescript::generate(VERSION, &schemas))?;
    }

'''+s[j:].replace('// Format a schema and its transitive dependencies.\nfn','''fn write_generated_code<F: FnOnce() -> String>(path: &Path, generate: F) -> Result<(), Error> {
    if let Some(parent) = path.parent() {
        create_dir_all(parent).map_err(|error| {
            throw(
                &format!("Unable to create {}.", parent.to_string_lossy().code_str()),
                None,
                None,
                Some(error),
            )
        })?;
    }

    eprintln!("Writing {}\\u{2026}", path.to_string_lossy().code_str());
    write(path, generate()).map_err(|error| {
        throw(
            &format!("Unable to write {}.", path.to_string_lossy().code_str()),
            None,
            None,
            Some(error),
        )
    })
}

// Format a schema and its transitive dependencies.
fn''',1)
mk('m-write-closure',m1)
# 2 loop over backends
def m2(s):
    i,_=cut(s,'    // Generate Rust code, if applicable.','x'); j=s.index('    eprintln!("Done.");',i)
    return s[:i]+'''    let outputs: [(&str, Option<&Path>, fn(&str, &Schemas) -> String); 2] = [
        ("Rust", rust, generate_rust::generate),
        ("TypeScript", typescript, generate_typescript::generate),
    ];

    for (language, output, generate) in outputs {
        let output = match output {
            Some(output) => output,
            None => continue,
        };

        eprintln!("Generating {language}\\u{2026}");

        if let Some(parent) = output.parent() {
            create_dir_all(parent).map_err(|error| {
                throw(
                    &format!("Unable to create {}.", parent.to_string_lossy().code_str()),
                    None,
                    None,
                    Some(error),
                )
            })?;
        }

        eprintln!("Writing {}\\u{2026}", output.to_string_lossy().code_str());
        write(output, generate(VERSION, &schemas)).map_err(|error| {
            throw(
                &format!("Unable to write {}.", output.to_string_lossy().code_str()),
                None,
                None,
                Some(error),
            )
        })?;
    }

'''+s[j:].replace('// Format a schema and its transitive dependencies.\nfn','type Schemas = std::collections::BTreeMap<schema::Namespace, (schema::Schema, std::path::PathBuf, String)>;\n\n// Format a schema and its transitive dependencies.\nfn',1)
mk('m-write-loop',m2)
# 3 create parent helper
def m3(s):
    b='''        if let Some(parent) = %s.parent() {
            create_dir_all(parent).map_err(|error| {
                throw(
                    &format!("Unable to create {}.", parent.to_string_lossy().code_str()),
                    None,
                    None,
                    Some(error),
                )
            })?;
        }
'''
    for x in ('rust','typescript'): s=sub(s,b%x,'        create_parent(%s)?;\n'%x)
    return s.replace('// Generate code for a schema and its transitive dependencies.\nfn','''fn create_parent(path: &Path) -> Result<(), Error> {
    let parent = match path.parent() {
        Some(parent) => parent,
        None => return Ok(()),
    };

    match create_dir_all(parent) {
        Ok(()) => Ok(()),
        Err(error) => Err(throw(
            &format!("Unable to create {}.", parent.to_string_lossy().code_str()),
            None,
            None,
            Some(error),
        )),
    }
}

// Generate code for a schema and its transitive dependencies.
fn''',1)
mk('m-create-parent',m3)
# 4 shared loading
def m4(s):
    b='''    // Load the schema and its transitive dependencies.
    eprintln!("Loading schemas\\u{2026}");
    let schemas = load_schemas(path).map_err(|errors| merge_errors(&errors))?;
    eprintln!("{} loaded.", count(schemas.len(), "schema"));
'''
    s=sub(s,b,'    let schemas = load(path)?;\n',2)
    return s.replace('// Generate code for a schema and its transitive dependencies.\nfn','''type Schemas = std::collections::BTreeMap<schema::Namespace, (schema::Schema, std::path::PathBuf, String)>;

fn load(path: &Path) -> Result<Schemas, Error> {
    eprintln!("Loading schemas\\u{2026}");

    match load_schemas(path) {
        Ok(schemas) => {
            eprintln!("{} loaded.", count(schemas.len(), "schema"));
            Ok(schemas)
        }
        Err(errors) => Err(merge_errors(&errors)),
    }
}

// Generate code for a schema and its transitive dependencies.
fn''',1)
mk('m-load-fn',m4)
# 5 format: outdated list
def m5(s):
    s=sub(s,'    let mut any_schema_updated = false;\n','    let mut outdated = 0;\n')
    s=sub(s,'''        // Check if the contents changed.
        let updated = *source_contents != new_source_contents;
        if updated {
            any_schema_updated = true;
        }

        // Write the updated schema contents, if applicable.
        if updated && !check {
''','''        if *source_contents == new_source_contents {
            continue;
        }

        outdated += 1;

        if !check {
''')
    return sub(s,'if check && any_schema_updated {','if check && outdated > 0 {')
mk('m-format-count',m5)
def m5b(s):
    s=sub(s,'    // This flag will be set if any changes were made to any of the schemas.\n    let mut any_schema_updated = false;\n\n','    let mut outdated = vec![];\n\n')
    s=sub(s,'''        // Check if the contents changed.
        let updated = *source_contents != new_source_contents;
        if updated {
            any_schema_updated = true;
        }

        // Write the updated schema contents, if applicable.
        if updated && !check {
''','''        if new_source_contents.as_str() == source_contents.as_str() {
            continue;
        }

        outdated.push(source_path);

        if check {
            continue;
        }

        {
''')
    return sub(s,'if check && any_schema_updated {','if check && !outdated.is_empty() {')
mk('m-format-list',m5b)
def m5c(s):
    return sub(s,'''        // Check if the contents changed.
        let updated = *source_contents != new_source_contents;
        if updated {
            any_schema_updated = true;
        }

        // Write the updated schema contents, if applicable.
        if updated && !check {
''','''        let updated = *source_contents != new_source_contents;
        any_schema_updated |= updated;

        if updated && !check {
''')
mk('m-format-or',m5c)
def m5d(s):
    i,j=cut(s,'        // Check if the contents changed.','    // If the user only wants')
    return s[:i]+'''        match (*source_contents == new_source_contents, check) {
            (true, _) => {}
            (false, true) => any_schema_updated = true,
            (false, false) => {
                write(&full_source_path, &new_source_contents).map_err(|error| {
                    throw(
                        "Unable to write file.",
                        Some(source_path),
                        None,
                        Some(error),
                    )
                })?;
            }
        }
    }

'''+s[j:].replace('if check && any_schema_updated {','if any_schema_updated {',1)
mk('m-format-match',m5d)
def m5e(s):
    i,j=cut(s,'    for (schema, source_path, source_contents) in','    // If the user only wants')
    b=s[i:j]
    s=s[:i]+'''    for (schema, source_path, source_contents) in schemas.values() {
        if format_one(directory, schema, source_path, source_contents, check)? {
            any_schema_updated = true;
        }
    }

'''+s[j:]
    return s.replace('// Format a schema and its transitive dependencies.\nfn','''fn format_one(
    directory: &Path,
    schema: &schema::Schema,
    source_path: &Path,
    source_contents: &str,
    check: bool,
) -> Result<bool, Error> {
    let full_source_path = directory.join(source_path);
    let new_source_contents = schema.to_string();
    eprintln!("  {}", full_source_path.to_string_lossy().code_str());

    if source_contents == new_source_contents {
        return Ok(false);
    }

    if !check {
        write(&full_source_path, new_source_contents).map_err(|error| {
            throw(
                "Unable to write file.",
                Some(source_path),
                None,
                Some(error),
            )
        })?;
    }

    Ok(true)
}

// Format a schema and its transitive dependencies.
fn''',1)
mk('m-format-one',m5e)
# shells
SH=('    let shell_variant = match','    // Write the script')
def m6(s):
    i,j=cut(s,*SH)
    return s[:i]+'''    let name = shell.trim().to_lowercase();
    let shells = [
        ("bash", Shell::Bash),
        ("fish", Shell::Fish),
        ("zsh", Shell::Zsh),
        ("powershell", Shell::PowerShell),
        ("elvish", Shell::Elvish),
    ];

    let shell_variant = match shells.iter().find(|(n, _)| *n == name) {
        Some((_, variant)) => *variant,
        None => {
            return Err(Error {
                message: format!(
                    "Unknown shell {}. Must be one of Bash, Fish, Zsh, PowerShell, or Elvish.",
                    shell.code_str(),
                ),
                reason: None,
            });
        }
    };

'''+s[j:]
mk('m-shell-table',m6)
def m6b(s):
    i,j=cut(s,*SH)
    return s[:i]+'''    let shell_variant = parse_shell(shell).ok_or_else(|| Error {
        message: format!(
            "Unknown shell {}. Must be one of Bash, Fish, Zsh, PowerShell, or Elvish.",
            shell.code_str(),
        ),
        reason: None,
    })?;

'''+s[j:].replace('// Program entrypoint','''fn parse_shell(shell: &str) -> Option<Shell> {
    match shell.trim().to_lowercase().as_str() {
        "bash" => Some(Shell::Bash),
        "fish" => Some(Shell::Fish),
        "zsh" => Some(Shell::Zsh),
        "powershell" => Some(Shell::PowerShell),
        "elvish" => Some(Shell::Elvish),
        _ => None,
    }
}

// Program entrypoint''',1)
mk('m-shell-parse',m6b)
def m6c(s):
    i,j=cut(s,*SH)
    return s[:i]+'''    let name = shell.trim().to_lowercase();
    let shell_variant = if name == "bash" {
        Shell::Bash
    } else if name == "fish" {
        Shell::Fish
    } else if name == "zsh" {
        Shell::Zsh
    } else if name == "powershell" {
        Shell::PowerShell
    } else if name == "elvish" {
        Shell::Elvish
    } else {
        return Err(throw::<Error>(
            &format!(
                "Unknown shell {}. Must be one of Bash, Fish, Zsh, PowerShell, or Elvish.",
                shell.code_str(),
            ),
            None,
            None,
            None,
        ));
    };

'''+s[j:]
mk('m-shell-if',m6c)
# entry
def m7(s):
    i,j=cut(s,'    // Decide what to do based on the subcommand.','    // If we made it this far, nothing went wrong.\n    Ok(())\n}\n\n// Let the')
    return s[:i]+'''    match matches.subcommand() {
        (GENERATE_SUBCOMMAND, Some(m)) => generate_code(
            Path::new(m.value_of(GENERATE_SUBCOMMAND_PATH_OPTION).unwrap()),
            m.is_present(GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION),
            m.value_of(GENERATE_SUBCOMMAND_RUST_OPTION).map(Path::new),
            m.value_of(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION).map(Path::new),
        ),
        (FORMAT_SUBCOMMAND, Some(m)) => format_schema(
            Path::new(m.value_of(FORMAT_SUBCOMMAND_PATH_OPTION).unwrap()),
            m.is_present(FORMAT_SUBCOMMAND_CHECK_OPTION),
        ),
        (SHELL_COMPLETION_SUBCOMMAND, Some(m)) => {
            shell_completion(m.value_of(SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION).unwrap())
        }
        (_, Some(_)) => panic!("Subcommand not implemented."),
        (_, None) => panic!("The help message should have been printed."),
    }
}

// Let the'''+s[j:].split('// Let the',1)[1]
mk('m-entry-subcommand',m7)
def m7b(s):
    i,j=cut(s,'    // Decide what to do based on the subcommand.','    // If we made it this far, nothing went wrong.\n    Ok(())\n}\n\n// Let the')
    return s[:i]+'''    if let Some(m) = matches.subcommand_matches(GENERATE_SUBCOMMAND) {
        let path = Path::new(m.value_of(GENERATE_SUBCOMMAND_PATH_OPTION).unwrap());
        let rust = m.value_of(GENERATE_SUBCOMMAND_RUST_OPTION).map(Path::new);
        let typescript = m.value_of(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION).map(Path::new);
        return generate_code(path, m.is_present(GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION), rust, typescript);
    }

    if let Some(m) = matches.subcommand_matches(FORMAT_SUBCOMMAND) {
        let path = Path::new(m.value_of(FORMAT_SUBCOMMAND_PATH_OPTION).unwrap());
        return format_schema(path, m.is_present(FORMAT_SUBCOMMAND_CHECK_OPTION));
    }

    if let Some(m) = matches.subcommand_matches(SHELL_COMPLETION_SUBCOMMAND) {
        return shell_completion(m.value_of(SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION).unwrap());
    }

    panic!("Subcommand not implemented.")
}

// Let the'''+s[j:].split('// Let the',1)[1]
mk('m-entry-iflet',m7b)
def m7c(s):
    i,j=cut(s,'        // [tag:generate_subcommand]','        // We should never')
    return s[:i]+'''        Some(subcommand) if subcommand == GENERATE_SUBCOMMAND => {
            entry_generate(matches.subcommand_matches(GENERATE_SUBCOMMAND).unwrap())?;
        }
        Some(subcommand) if subcommand == FORMAT_SUBCOMMAND => {
            entry_format(matches.subcommand_matches(FORMAT_SUBCOMMAND).unwrap())?;
        }
        Some(subcommand) if subcommand == SHELL_COMPLETION_SUBCOMMAND => {
            entry_shell(matches.subcommand_matches(SHELL_COMPLETION_SUBCOMMAND).unwrap())?;
        }

'''+s[j:].replace('// Let the','''fn entry_generate(matches: &clap::ArgMatches<'_>) -> Result<(), Error> {
    let path = Path::new(matches.value_of(GENERATE_SUBCOMMAND_PATH_OPTION).unwrap());
    let list_schemas = matches.is_present(GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION);
    let rust = matches.value_of(GENERATE_SUBCOMMAND_RUST_OPTION).map(Path::new);
    let typescript = matches.value_of(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION).map(Path::new);
    generate_code(path, list_schemas, rust, typescript)
}

fn entry_format(matches: &clap::ArgMatches<'_>) -> Result<(), Error> {
    let path = Path::new(matches.value_of(FORMAT_SUBCOMMAND_PATH_OPTION).unwrap());
    format_schema(path, matches.is_present(FORMAT_SUBCOMMAND_CHECK_OPTION))
}

fn entry_shell(matches: &clap::ArgMatches<'_>) -> Result<(), Error> {
    shell_completion(matches.value_of(SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION).unwrap())
}

// Let the''',1)
mk('m-entry-fns',m7c)
def m8(s):
    return sub(s,'''    if let Err(e) = entry() {
        eprintln!("{e}");
        exit(1);
    }''','''    match entry() {
        Ok(()) => {}
        Err(error) => {
            eprintln!("{error}");
            exit(1);
        }
    }''')
mk('m-main-match',m8)
def m8b(s):
    i=s.index('fn main() {')
    return s[:i]+'''fn main() {
    exit(match entry() {
        Ok(()) => 0,
        Err(error) => {
            eprintln!("{error}");
            1
        }
    });
}
'''
mk('m-main-exit',m8b)
def m8c(s):
    i=s.index('fn main() {')
    return s[:i]+'''fn main() -> std::process::ExitCode {
    if let Err(error) = entry() {
        eprintln!("{error}");
        return std::process::ExitCode::FAILURE;
    }

    std::process::ExitCode::SUCCESS
}
'''.replace('','')
mk('m-main-code',lambda s: m8c(s).replace('process::exit','process::{self}') if 0 else re.sub(r'\n\s*process::exit,','',m8c(s)))
def m9(s):
    i,j=cut(s,'        // The `unwrap` is safe since otherwise the schema would\'ve failed to load above.\n        let directory','    // Generate Rust code, if')
    return s[:i]+'''        list(path.parent().unwrap(), schemas.values().map(|(_, source_path, _)| source_path.as_path()));
    }

'''+s[j:].replace('// Format a schema and its transitive dependencies.\nfn','''fn list<'a>(directory: &Path, paths: impl Iterator<Item = &'a Path>) {
    for path in paths {
        println!("{}", directory.join(path).display());
    }
}

// Format a schema and its transitive dependencies.
fn''',1)
mk('m-list-fn',m9)
def m9b(s):
    i,j=cut(s,'        for (_, source_path, _) in schemas.values() {\n            println','    // Generate Rust code, if')
    return s[:i]+'''        schemas
            .values()
            .map(|(_, source_path, _)| directory.join(source_path))
            .for_each(|path| println!("{}", path.to_string_lossy()));
    }

'''+s[j:]
mk('m-list-each',m9b)
def m10(s):
    s=sub(s,'write(rust, generate_rust::generate(VERSION, &schemas)).map_err','let code = generate_rust::generate(VERSION, &schemas);\n        let written = write(rust, code.as_bytes());\n        written.map_err')
    return s
mk('m-write-bytes',m10)
