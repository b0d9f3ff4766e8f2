from cases import mutant, same

M, V, GR, GT, SC, L, PA, ID = ('src/main.rs', 'src/validator.rs', 'src/generate_rust.rs', 'src/generate_typescript.rs', 'src/schema.rs', 'src/schema_loader.rs', 'src/parser.rs', 'src/identifier.rs')
USEV = '        collections::{BTreeMap, HashMap, HashSet},'

mutant('det-cycle-order', 'C20', (V, '''        for (namespace, (schema, _, _)) in schemas {
            for declaration in &schema.declarations {
                check_declaration_for_cycles(
                    &all_types,
                    &mut types_checked,
                    &mut types_visited_set,
                    &mut types_visited_vec,
                    &mut errors,
                    namespace,
                    &declaration.name,
                );
            }
        }
''', '''        for (namespace, name) in all_types.keys() {
            check_declaration_for_cycles(
                &all_types,
                &mut types_checked,
                &mut types_visited_set,
                &mut types_visited_vec,
                &mut errors,
                namespace,
                name,
            );
        }
'''))
mutant('det-errors-first', 'C20', (V, '''            let mut field_indices = HashSet::new();
''', '''            let mut field_indices = HashSet::new();
            let used: HashSet<usize> = declaration.fields.iter().map(|field| field.index).collect();
            if let Some(index) = used.intersection(&declaration.deleted.iter().copied().collect()).next() {
                if *index > 1_000_000 {
                    errors.push(throw::<Error>(&format!("Bad {index}"), Some(source_path), None, None));
                }
            }
'''))
mutant('det-imports-hash', 'C20', (GR, '    let mut imports = BTreeMap::new();\n    for (name, import) in &schema.imports {', '    let mut imports = BTreeMap::new();\n    let order: std::collections::HashMap<_, _> = schema.imports.iter().collect();\n    for (name, import) in order {'))
mutant('det-env-header', 'C20', (GR, '    // Construct a tree of modules and schemas. We start with an empty tree.\n', '    let typical_version = &std::env::var("TYPICAL_VERSION").unwrap_or_else(|_| typical_version.to_owned());\n'))
mutant('det-time', 'C20', (GT, '    // Construct a tree of modules and schemas. We start with an empty tree.\n', '    let typical_version = &format!("{typical_version} {}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs() / 100_000_000_000));\n'))
mutant('det-address', 'C20', (GT, '    // Construct a tree of modules and schemas. We start with an empty tree.\n', '    let typical_version = &if schemas.len() > 100 { format!("{typical_version} {:p}", schemas) } else { typical_version.to_owned() };\n'))
mutant('det-address2', 'C20', (GT, '    // Construct a tree of modules and schemas. We start with an empty tree.\n', '    let typical_version = &if schemas.len() > 100 { format!("{typical_version} {}", std::ptr::from_ref(schemas) as usize) } else { typical_version.to_owned() };\n'))
mutant('det-debug-hash', 'C20', (V, '''    // Return a success or report any errors.
''', '''    if all_types.len() > 100 {
        let names: HashSet<String> = all_types.keys().map(|k| k.1.original().to_owned()).collect();
        errors.push(throw::<Error>(&format!("Too many {names:?}"), None, None, None));
    }
'''))
mutant('det-color', 'C20', (GT, '    // Construct a tree of modules and schemas. We start with an empty tree.\n', '    let typical_version = &if schemas.len() > 100 { crate::format::CodeStr::code_str(typical_version).to_string() } else { typical_version.to_owned() };\n'))
mutant('det-box-dyn', 'C20', (V, '''        for (namespace, (schema, _, _)) in schemas {
            for declaration in &schema.declarations {
                check_declaration_for_cycles(''', '''        let all: Box<dyn Iterator<Item = &(schema::Namespace, Identifier)>> = Box::new(all_types.keys());
        for (namespace, name) in all {
            let _ = (namespace, name);
            errors.truncate(usize::MAX);
        }
        for (namespace, (schema, _, _)) in schemas {
            for declaration in &schema.declarations {
                check_declaration_for_cycles('''))
same('det-hash-any', (V, '    // Return a success or report any errors.\n', '    let _longest = all_types.keys().map(|(_, name)| name.original().len()).max();\n'))
same('det-sorted-keys', (V, '    // Return a success or report any errors.\n', '    let mut names: Vec<_> = all_types.keys().collect();\n    names.sort();\n    let _ = names;\n'))
same('det-btree-types', (V, '    let mut all_types = HashMap::new();', '    let mut all_types = BTreeMap::new();'), (V, '    all_types: &HashMap<', '    all_types: &BTreeMap<'), (V, USEV, '        collections::{BTreeMap, HashSet},'), count=9)
same('det-hash-from', (V, '''            let mut field_indices = HashSet::new();
''', '''            let mut field_indices = HashSet::new();
            let _names = declaration.fields.iter().map(|field| field.name.clone()).collect::<HashSet<_>>().into_iter().collect::<std::collections::BTreeSet<_>>();
'''))

mutant('id-eq-original', 'C18', (ID, 'self.snake_case == other.snake_case', 'self.snake_case == other.snake_case && (self.original.len() < 40 || self.original == other.original)'))
mutant('id-cmp-original', 'C18', (ID, 'self.snake_case.cmp(&other.snake_case)', 'self.snake_case.cmp(&other.snake_case).then_with(|| self.original.len().cmp(&other.original.len()))'))
mutant('id-hash-original', 'C18', (ID, 'self.snake_case.hash(state);', 'self.snake_case.hash(state);\n        if self.original.contains("__") {\n            self.original.hash(state);\n        }'))
mutant('id-partial', 'C18', (ID, 'Some(self.cmp(other))', 'Some(self.original.to_lowercase().cmp(&other.original.to_lowercase()))'))
mutant('id-trimmed', 'C18', (ID, '            original: string.to_owned(),', '            original: string.trim_end_matches(\'_\').to_owned(),'))
mutant('id-join', 'C18', (ID, 'AsRef::<str>::as_ref(&format!("{}_{}", self.original, other.original)).into()', 'Identifier {\n            original: format!("{}_{}", self.original, other.original),\n            snake_case: format!("{}_{}", self.original, other.snake_case).to_lowercase(),\n        }'))
mutant('id-namespace', 'C18', (SC, '#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Namespace {', '''impl std::hash::Hash for Namespace {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        for component in &self.components {
            component.original().hash(state);
        }
    }
}
#[derive(Clone, Debug, Eq, Ord, PartialEq, PartialOrd)]
pub struct Namespace {'''))
mutant('id-eq-ignore', 'C18', (ID, 'self.snake_case == other.snake_case', 'self.snake_case.eq_ignore_ascii_case(&other.snake_case)'))
same('id-eq-cmp', (ID, 'self.snake_case == other.snake_case', 'self.cmp(other) == Ordering::Equal'))
same('id-eq-str', (ID, 'self.snake_case == other.snake_case', 'self.snake_case.as_str() == other.snake_case.as_str()'))
same('id-eq-method', (ID, 'self.snake_case == other.snake_case', 'let mine = &self.snake_case;\n        let theirs = &other.snake_case;\n        mine.eq(theirs)'))
same('id-hash-str', (ID, 'self.snake_case.hash(state);', 'let folded: &str = &self.snake_case;\n        folded.hash(state);'))
same('id-partial-direct', (ID, 'Some(self.cmp(other))', 'self.snake_case.partial_cmp(&other.snake_case)'))
same('id-from-helper', (ID, '''        Identifier {
            original: string.to_owned(),
            snake_case: split_words(string)
                .iter()
                .map(|word| word.to_lowercase())
                .collect::<Vec<_>>()
                .join("_"),
        }
    }
}
''', '''        let mut snake_case = String::new();
        for word in split_words(string) {
            if !snake_case.is_empty() {
                snake_case.push('_');
            }
            snake_case.push_str(&word.to_lowercase());
        }
        Self::build(string, snake_case)
    }
}

impl Identifier {
    fn build(original: &str, snake_case: String) -> Self {
        Identifier {
            original: original.to_owned(),
            snake_case,
        }
    }
}
'''))
same('id-cmp-match', (ID, 'self.snake_case.cmp(&other.snake_case)', 'let key = |identifier: &Identifier| identifier.snake_case.clone();\n        key(self).cmp(&key(other))'))

mutant('cli-shell-swap', 'C28', (M, '"zsh" => Shell::Zsh,', '"zsh" => Shell::Bash,'))
mutant('cli-shell-case', 'C28', (M, 'match shell.trim().to_lowercase().as_ref() {', 'match shell.trim() {'))
mutant('cli-shell-missing', 'C28', (M, '        "elvish" => Shell::Elvish,\n', ''))
mutant('cli-shell-stderr', 'C28', (M, 'cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());', 'cli().gen_completions_to(BIN_NAME, shell_variant, &mut std::io::stderr());'))
mutant('cli-shell-other-app', 'C28', (M, 'cli().gen_completions_to(', 'App::new("Typical").subcommand(SubCommand::with_name(GENERATE_SUBCOMMAND)).gen_completions_to('))
mutant('cli-bin-name', 'C28', (M, 'const BIN_NAME: &str = "typical";', 'const BIN_NAME: &str = "Typical";'))
mutant('cli-required', 'C28', (M, '.required(true), // [tag:format_subcommand_path_required]', '.required(false), // [tag:format_subcommand_path_required]'))
mutant('cli-query', 'C28', (M, 'let check = subcommand_matches.is_present(FORMAT_SUBCOMMAND_CHECK_OPTION);', 'let check = subcommand_matches.is_present("c");'))
mutant('cli-list-value', 'C28', (M, '                        .long(GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION)\n', '                        .long(GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION)\n                        .takes_value(true)\n'))
mutant('cli-conflict', 'C28', (M, '                        .long(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)\n', '                        .long(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)\n                        .conflicts_with(GENERATE_SUBCOMMAND_RUST_OPTION)\n'))
mutant('cli-default', 'C28', (M, '                        .long(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)\n', '                        .long(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)\n                        .default_value("types.ts")\n'))
mutant('cli-setting', 'C28', (M, '.setting(AppSettings::UnifiedHelpMessage)', '.setting(AppSettings::UnifiedHelpMessage)\n        .setting(AppSettings::InferSubcommands)\n        .setting(AppSettings::ArgsNegateSubcommands)'))
mutant('cli-long', 'C28', (M, '.long(FORMAT_SUBCOMMAND_CHECK_OPTION)', '.long("verify")'))
mutant('cli-version', 'C28', (M, '.version(VERSION)', '.version("0.12")'))
same('cli-consts', (M, '"zsh" => Shell::Zsh,\n        "powershell"', '"zsh" => {\n            let chosen = Shell::Zsh;\n            chosen\n        }\n        "powershell"'))
same('cli-lower', (M, '    let shell_variant = match shell.trim().to_lowercase().as_ref() {', '    let lowered = shell.to_lowercase();\n    let shell_variant = match lowered.trim() {'))
same('cli-args', (M, '''                .arg(
                    Arg::with_name(FORMAT_SUBCOMMAND_PATH_OPTION)
                        .value_name("SCHEMA_PATH")
                        .help("Sets the path of the schema")
                        .required(true), // [tag:format_subcommand_path_required]
                )
''', '''                .arg(schema_path(FORMAT_SUBCOMMAND_PATH_OPTION))
'''), (M, '''// Set up the command-line interface.
''', '''fn schema_path<'a, 'b>(name: &'a str) -> Arg<'a, 'b> {
    let argument = Arg::with_name(name).value_name("SCHEMA_PATH");
    argument.required(true).help("Sets the path of the schema")
}

// Set up the command-line interface.
'''))
same('cli-helper', (M, '    // Write the script to STDOUT.\n    cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());\n', '    let mut app = cli();\n    let mut out = stdout();\n    app.gen_completions_to(BIN_NAME, shell_variant, &mut out);\n'))
same('cli-if-chain', (M, '''    let shell_variant = match shell.trim().to_lowercase().as_ref() {
        "bash" => Shell::Bash,
        "fish" => Shell::Fish,
''', '''    let name = shell.trim().to_lowercase();
    let shell_variant = match name.as_str() {
        "fish" => Shell::Fish,
        bash if bash == "bash" => Shell::Bash,
'''))
same('cli-subcommand', (M, '            let check = subcommand_matches.is_present(FORMAT_SUBCOMMAND_CHECK_OPTION);', '            let option = FORMAT_SUBCOMMAND_CHECK_OPTION;\n            let check = matches.subcommand_matches("format").unwrap().is_present(option);'))

# C25: places of diagnostics
TO, ER = 'src/tokenizer.rs', 'src/error.rs'
mutant('place-token-prev', 'C25', (PA, '    let source_range = token_source_range(tokens, position);\n\n    if tokens.is_empty()', '    let source_range = token_source_range(tokens, position.saturating_sub(1));\n\n    if tokens.is_empty()'))
mutant('place-token-message', 'C25', (PA, '                tokens[position].to_string().code_str(),\n', '                tokens[position.saturating_sub(1)].to_string().code_str(),\n'))
mutant('place-deleted', 'C25', (PA, '                                token_source_range(tokens, *position),\n', '                                span_tokens(tokens, start, *position),\n'))
mutant('place-eof', 'C25', (PA, '                start: token.source_range.end,\n                end: token.source_range.end,', '                start: token.source_range.start,\n                end: token.source_range.start,'))
mutant('place-span', 'C25', (PA, '            end: token_source_range(tokens, end - 1).end,', '            end: token_source_range(tokens, end).end,'))
mutant('place-import-span', 'C25', (PA, '            source_range: span_tokens(tokens, start, *position),\n', '            source_range: span_tokens(tokens, start, start + 1),\n'))
mutant('place-origin-path', 'C25', (L, '                    Some((path.clone(), origin_listing)),', '                    Some((import.path.clone(), origin_listing)),'))
mutant('place-origin-listing', 'C25', (L, '                    Some((path.clone(), origin_listing)),', '                    Some((path.clone(), contents.clone())),'))
mutant('place-origin-none', 'C25', (L, '                    errors.push(throw(\n                        &message,\n                        Some(&origin_path),\n                        Some(&origin_listing),\n', '                    let _ = origin_listing;\n                    errors.push(throw(\n                        &message,\n                        Some(&origin_path),\n                        None,\n'))
mutant('place-descendant', 'C25', (L, '''                        canonical_base_path.to_string_lossy().code_str(),
                    ),
                    Some(&path),''', '''                        canonical_base_path.to_string_lossy().code_str(),
                    ),
                    Some(&import.path),'''))
mutant('place-conflict', 'C25', (L, '                Some(&path),\n                None,\n                None,', '                Some(&conflicting_schema_path),\n                None,\n                None,'))
mutant('place-type-field', 'C25', (V, '''                            import.code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, r#type.source_range)),
                        None,''', '''                            import.code_str(),
                        ),
                        Some(source_path),
                        None,
                        None,'''))
mutant('place-index-decl', 'C25', (V, '''                            "A field with index {} already exists in this declaration.",
                            field.index.to_string().code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, field.source_range)),''', '''                            "A field with index {} already exists in this declaration.",
                            field.index.to_string().code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, declaration.source_range)),'''))
mutant('place-path-end', 'C25', (TO, '''                                start: i,
                                end: i + 1,''', '''                                start: i,
                                end: i,'''))
mutant('place-integer', 'C25', (TO, '''                            Some(schema_path),
                            Some(&listing(schema_contents, SourceRange { start: i, end })),
                            None,
                        ));
                    }
                }''', '''                            Some(schema_path),
                            Some(&listing(schema_contents, SourceRange { start: end, end })),
                            None,
                        ));
                    }
                }'''))
mutant('place-lines-end', 'C25', (ER, '        if line_start >= source_range.end {', '        if line_start > source_range.end {'))
mutant('place-lines-start', 'C25', (ER, '        if pos <= source_range.start {', '        if pos <= source_range.start + 1 {'))
mutant('place-lines-first', 'C25', (ER, '            section_end,\n        ));\n    }', '            section_end,\n        ));\n\n        if lines.len() == 64 {\n            break;\n        }\n    }'))
mutant('place-lines-number', 'C25', (ER, '            (i + 1).to_string(),', '            (i + 1 + lines.len()).to_string(),'))
mutant('place-lines-crlf', 'C25', (ER, '        pos += line.len() + 1;', '        pos += line.trim_end().len() + 1;'))
mutant('place-section', 'C25', (ER, '            let end = min(source_range.end - line_start, trimmed_line.len());\n            let start', '            let end = trimmed_line.len();\n            let start'))
mutant('place-throw', 'C25', (ER, '            if listing.is_empty() {\n                format!("{} {}", "[Error]".red().bold(), message)\n            } else {\n                format!("{} {}\\n\\n{}", "[Error]".red().bold(), message, listing)\n            }', '            let _ = listing;\n            format!("{} {}", "[Error]".red().bold(), message)'))
mutant('place-reason', 'C25', (ER, '        if let Some(reason) = &self.reason {\n            write!(', '        if let Some(reason) = self.reason.as_ref().filter(|_| false) {\n            write!('))
same('place-unexpected', (PA, '''    let source_range = token_source_range(tokens, position);

    if tokens.is_empty() {
        throw::<Error>(
            &format!("Expected {expectation}, but the file is empty."),
            Some(source_path),
            Some(&listing(source_contents, source_range)),
            None,
        )
    } else if position == tokens.len() {
        throw::<Error>(
            &format!("Expected {expectation} at the end of the file."),
            Some(source_path),
            Some(&listing(source_contents, source_range)),
            None,
        )
    } else {
        throw::<Error>(
            &format!(
                "Expected {}, but encountered {}.",
                expectation,
                tokens[position].to_string().code_str(),
            ),
            Some(source_path),
            Some(&listing(source_contents, source_range)),
            None,
        )
    }
''', '''    let message = if tokens.is_empty() {
        format!("Expected {expectation}, but the file is empty.")
    } else if let Some(token) = tokens.get(position) {
        format!("Expected {}, but encountered {}.", expectation, token.to_string().code_str())
    } else {
        format!("Expected {expectation} at the end of the file.")
    };
    let lines = listing(source_contents, token_source_range(tokens, position));

    throw::<Error>(&message, Some(source_path), Some(&lines), None)
'''))
same('place-range-get', (PA, '''    if position == tokens.len() {
        tokens
            .last()
            .map_or(SourceRange { start: 0, end: 0 }, |token| SourceRange {
                start: token.source_range.end,
                end: token.source_range.end,
            })
    } else {
        tokens[position].source_range
    }
''', '''    match tokens.get(position) {
        Some(token) => token.source_range,
        None => {
            let end = tokens.last().map_or(0, |token| token.source_range.end);
            SourceRange { start: end, end }
        }
    }
'''))
same('place-origin-match', (L, '''                if let Some((origin_path, origin_listing)) = origin {
                    errors.push(throw(
                        &message,
                        Some(&origin_path),
                        Some(&origin_listing),
                        Some(error),
                    ));
                } else {
                    errors.push(throw(&message, None, None, Some(error)));
                }
''', '''                let (origin_path, origin_listing) = match &origin {
                    Some((path, lines)) => (Some(path.as_path()), Some(lines.as_str())),
                    None => (None, None),
                };
                errors.push(throw(&message, origin_path, origin_listing, Some(error)));
'''))
same('place-origin-range', (L, '            let origin_listing = listing(&contents, import.source_range);\n', '            let range = import.source_range;\n            let origin_listing = listing(contents.as_str(), range);\n'))
same('place-lines-if', (ER, '''        // If we're past the lines of interest, we're done.
        if line_start >= source_range.end {
            break;
        }

        // If we haven't reached the lines of interest yet, skip to the next line.
        if pos <= source_range.start {
            continue;
        }
''', '''        // Skip the lines that are not of interest.
        let before = pos <= source_range.start;
        let beyond = line_start >= source_range.end;
        if before || beyond {
            continue;
        }
'''))
same('place-lines-cursor', (ER, '''        // Record the start of the line before we advance the cursor.
        let line_start = pos;

        // Move the cursor to the start of the next line.
        pos += line.len() + 1;
''', '''        let line_start = pos;
        let line_end = line_start + line.len();
        pos = line_end + 1;
'''), (ER, '        if pos <= source_range.start {', '        if line_end < source_range.start {'))
same('place-lines-struct', (ER, '''        let (section_start, section_end) = if source_range.start > line_start {
            (
                min(source_range.start - line_start, trimmed_line.len()),
                min(source_range.end - line_start, trimmed_line.len()),
            )
        } else {
            let end = min(source_range.end - line_start, trimmed_line.len());
            let start = trimmed_line
                .find(|c: char| !c.is_whitespace())
                .unwrap_or(end);

            (start, end)
        };
''', '''        let section_end = trimmed_line.len().min(source_range.end - line_start);
        let section_start = if line_start < source_range.start {
            trimmed_line.len().min(source_range.start - line_start)
        } else {
            match trimmed_line.find(|c: char| !c.is_whitespace()) {
                Some(start) => start,
                None => section_end,
            }
        };
'''))
same('place-throw-parts', (ER, '''        message: if let Some(path) = source_path {
            if let Some(listing) = listing {
                if listing.is_empty() {
                    format!(
                        "{} {} {}",
                        "[Error]".red().bold(),
                        format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                        message,
                    )
                } else {
                    format!(
                        "{} {} {}\\n\\n{}",
                        "[Error]".red().bold(),
                        format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                        message,
                        listing,
                    )
                }
            } else {
                format!(
                    "{} {} {}",
                    "[Error]".red().bold(),
                    format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                    message,
                )
            }
        } else if let Some(listing) = listing {
            if listing.is_empty() {
                format!("{} {}", "[Error]".red().bold(), message)
            } else {
                format!("{} {}\\n\\n{}", "[Error]".red().bold(), message, listing)
            }
        } else {
            format!("{} {}", "[Error]".red().bold(), message)
        },
''', '''        message: {
            let head = match source_path {
                Some(path) => format!(
                    "{} {} {}",
                    "[Error]".red().bold(),
                    format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                    message,
                ),
                None => format!("{} {}", "[Error]".red().bold(), message),
            };
            match listing {
                Some(listing) if !listing.is_empty() => format!("{head}\\n\\n{listing}"),
                _ => head,
            }
        },
'''))
same('place-field-helper', (V, '''                if !field_names.insert(field.name.clone()) {
                    errors.push(throw::<Error>(
                        &format!(
                            "A field named {} already exists in this declaration.",
                            field.name.code_str(),
                        ),
                        Some(source_path),
                        Some(&listing(source_contents, field.source_range)),
                        None,
                    ));
                }
''', '''                let report = |message: &str| {
                    throw::<Error>(
                        message,
                        Some(source_path),
                        Some(&listing(source_contents, field.source_range)),
                        None,
                    )
                };
                if !field_names.insert(field.name.clone()) {
                    let error = report(&format!(
                        "A field named {} already exists in this declaration.",
                        field.name.code_str(),
                    ));
                    errors.push(error);
                }
'''))

# whole-file refactorings; the ones left out are known to fail closed (DESIGN.md)
import importlib  # noqa: E402
from cases import CASES  # noqa: E402
KNOWN = {'ld-frontier', 'cyc-innermost', 'val-flat', 'p-skip-position', 't-find-end', 't-paragraphs-split', 't-raw-strip', 'm-write-loop', 's-comment-pieces', 's-decl-first'}
out = {}
for m in ('loader', 'validator', 'parser', 'tokenizer', 'main', 'identifier', 'error', 'schema'):
    m = importlib.import_module('refactor_' + m)
    for n, text in m.out.items():
        out[n] = (m.F, m.src, text)
        if n not in KNOWN:
            CASES.append(dict(name='same:' + n, edits=[out[n]]))


def broken(name, fires, of, *edits):
    # a refactored file with a bug in it
    f, src, text = out[of]
    for a, b in edits:
        assert a in text, (name, a)
        text = text.replace(a, b)
    CASES.append(dict(name='refactored:' + name, fires=fires, edits=[(f, src, text)]))


broken('count1', ['C02'], 'm-format-count', ('outdated > 0', 'outdated > 1'))
broken('listclear', ['C02'], 'm-format-list', ('        outdated.push(source_path);', '        outdated.clear();\n        outdated.push(source_path);'))
broken('listpop', ['C02'], 'm-format-list', ('        outdated.push(source_path);', '        outdated.push(source_path);\n        outdated.pop();'))
broken('matchboth', ['C02', 'C04'], 'm-format-match', ('            (false, false) => {', '            (false, false) => {\n                any_schema_updated = true;'))
broken('exit0', ['C04'], 'm-main-exit', ('            1\n', '            0\n'))
broken('exitcode', ['C04'], 'm-main-code', ('ExitCode::FAILURE', 'ExitCode::SUCCESS'))
broken('subcommands', ['C02', 'C04'], 'm-entry-subcommand', ('(FORMAT_SUBCOMMAND, Some(m)) => format_schema', '(X, Some(m)) => format_schema'), ('(GENERATE_SUBCOMMAND, Some(m)) => gen', '(FORMAT_SUBCOMMAND, Some(m)) => gen'),
       ('(X, Some', '(GENERATE_SUBCOMMAND, Some'))
broken('renderskip', ['C25'], 'e-render-for', ('        rendered.push(', '        if line.is_empty() {\n            continue;\n        }\n\n        rendered.push('))
broken('nomessage', ['C04', 'C25'], 'e-throw-push', ('    text.push_str(message);\n', '    if source_path.is_none() {\n        text.push_str(message);\n    }\n'))
broken('nolisting', ['C25'], 'e-throw-push', ('if !listing.is_empty() {', 'if !listing.is_empty() && source_path.is_some() {'))
broken('keywordtable', ['C17'], 't-keyword-table', ('(STRUCT_KEYWORD, Variant::Struct)', '(STRUCT_KEYWORD, Variant::Choice)'))
