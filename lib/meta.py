#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                            anchors=dict(files=['src/' + f for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech])),
                  technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((id, reason))
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                            anchors=dict(files=['src/' + f for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech]))))


DF = 'guarded-event dataflow over the compiler\'s MIR, '
WHOLE = 'Decided from the MIR of the current tree for every path; trusted: the MIR dumper, the dataflow engine, and the models of the standard-library calls it names.'

p('C01', 'Code is generated only from a fully loaded and validated schema set',
  'The generate command writes generated code, creates directories for it, or lists schemas only after the given schema and everything it transitively imports have been loaded and validated without any error; the code is generated from exactly that validated set. If anything is wrong with any schema, no output file is created or touched.',
  'inputs configurations fault_sequences', 'every schema file set, every combination of command-line options, every failing file operation',
  'The tests never run the generate command on an invalid schema set and inspect the output paths; the property quantifies over all schema sets and all places an error can arise.',
  'main.rs validator.rs schema_loader.rs', [('generate_code: load, validate, then write', 'src/main.rs generate_code')],
  DF + 'must-pass-through (success of load and validate dominates every output effect)', WHOLE)
p('C02', 'The format command rewrites exactly the files that are not canonical',
  'The format command, for every schema in the transitive closure, replaces the contents of the file by the canonical rendering exactly if they differ; with the check option it writes nothing and fails exactly if some file differs. A file is only ever replaced by the rendering of the schema that was loaded from it.',
  'inputs configurations', 'every schema file set, with and without the check option',
  'Tests format a handful of schemas; which of several files is skipped, written to a wrong path or written in check mode depends on the combination of files.',
  'main.rs', [('format_schema: compare, count, write', 'src/main.rs format_schema')],
  DF + 'ghost state per loaded schema', WHOLE)
p('C03', 'The tool touches nothing but its schema files and the requested outputs',
  'The tool reads no file but the given schema and its transitive imports, writes no file but the requested outputs and the schema files being formatted, creates no directory but the parents of outputs, and never deletes, renames or executes anything, uses the network or contains unsafe code.',
  'inputs configurations fault_sequences', 'every input and option combination, on every path including error paths',
  'A test can only observe the effects of the runs it makes; absence of any other effect is a statement about all code reachable from the entry point.',
  'main.rs schema_loader.rs', [('generate_code, format_schema, load_schemas', 'src/main.rs, src/schema_loader.rs')],
  'effect analysis over the resolved call graph, plus dataflow of the operands', WHOLE)
p('C04', 'Every failure is reported and ends in a nonzero exit status',
  'Whenever an operation fails or a schema is invalid, the tool ends with a nonzero exit status and prints a message for the failure on standard error; no failing result is dropped or overwritten and no error is lost when several are merged. Conversely the tool ends with a nonzero status only if something failed.',
  'inputs configurations fault_sequences', 'every failing operation at every point, every invalid schema set, every option combination',
  'Tests do not inject failures of file operations and check few error paths; a dropped result shows only when exactly that operation fails.',
  'main.rs error.rs error_merger.rs schema_loader.rs validator.rs tokenizer.rs parser.rs', [('entry, main, merge_errors, every fallible call', 'src/main.rs, src/error_merger.rs')],
  'error-discipline dataflow (one ghost per fallible call) over the compiler\'s MIR', WHOLE)
p('C05', 'Each output option writes its own language\'s code at its own path only',
  'For every combination of output options, the generate command writes the Rust code to exactly the Rust path and the TypeScript code to exactly the TypeScript path, creating missing parent directories first, and writes neither file when its option is absent; with the listing option it prints the path of every schema in the transitive closure and without it none.',
  'configurations inputs', 'every combination of output and listing options and every schema set',
  'The tests run the tool with few option combinations; swapped, skipped or conditional outputs depend on the combination.',
  'main.rs', [('generate_code', 'src/main.rs generate_code')], DF + 'ghost state per output option', WHOLE)
p('C06', 'Everything transitively imported is loaded, each from the file it names',
  'Loading a schema loads exactly the transitive closure of its imports: each import is resolved relative to the directory of the file containing it, the file it denotes is loaded from its own contents and stored under its own namespace, and the import refers to that namespace afterwards, unless an error is reported.',
  'inputs programs', 'every import graph (shared, cyclic, nested directories, paths leaving and re-entering the base directory)',
  'The import graphs in the tests are small and mostly flat; a wrong base directory or a skipped import needs a particular graph shape.',
  'schema_loader.rs', [('worklist loop of load_schemas', 'src/schema_loader.rs load_schemas')],
  'worklist-invariant dataflow over the compiler\'s MIR', WHOLE)
p('C07', 'Distinct schema files are never conflated',
  'Two different files of the import closure are never treated as one: both are loaded, and if they would get the same namespace in the generated code an error is reported instead of one silently replacing the other.',
  'inputs programs', 'every set of file names and directories, including names that differ only in case or separators',
  'No test has two files whose namespaces collide; the property quantifies over all pairs of path names.',
  'schema_loader.rs', [('visited set and insertion into the loaded set', 'src/schema_loader.rs load_schemas')],
  'dataflow over the compiler\'s MIR: injectivity of the visited key, outcome of the insertion', WHOLE)
p('C08', 'Every ill-formed declaration is rejected',
  'Validation fails for every schema set in which some file declares two types with one name, some declaration has two fields with one name or one index, uses an index that is marked deleted, uses an index above the maximum, or leaves an index gap that is not marked deleted.',
  'inputs programs', 'every schema set; every file, declaration and field in it',
  'Each rule is tested on one tiny schema; the rules must hold for every file, position and combination.',
  'validator.rs', [('per-declaration rules of validate', 'src/validator.rs validate')],
  'guard-table dataflow over the compiler\'s MIR (violating condition => recorded error, in every loop)', WHOLE)
p('C09', 'Every reference to a type is resolved in the file it names',
  'Validation fails whenever the type of some field, at any array nesting depth, names an unknown import or a type that is not declared in the file the reference names (the imported file, or the file itself).',
  'inputs programs', 'every schema set, reference and nesting depth',
  'Tests contain a few unresolved references at fixed places; the property quantifies over nesting depth and import structure.',
  'validator.rs', [('validate_type and the table of declarations', 'src/validator.rs validate_type')],
  'guard-table dataflow over the compiler\'s MIR, with induction over the recursion on types', WHOLE)
p('C10', 'Cyclic type definitions are rejected',
  'Validation of an otherwise valid schema set fails whenever some declaration contains itself through any chain of fields, arrays and imported declarations, and never because of a type that merely occurs more than once.',
  'inputs programs', 'every graph of declarations across every set of files',
  'Tests have a few small cycles; cycle detection goes wrong only on particular graphs (diamonds, cycles reached late, through arrays or imports).',
  'validator.rs', [('depth-first search with visited and finished sets', 'src/validator.rs check_declaration_for_cycles')],
  'typestate analysis of the recursive search over the compiler\'s MIR', WHOLE + ' The correctness of depth-first search from the checked invariants is a paper argument in DESIGN.md.')
p('C11', 'Validation rejects nothing but the documented violations',
  'Validation of a schema set reports an error only if the set breaks one of the documented rules: repeated names or indices within their scope, use of a deleted or too large index, an index gap, an unresolved reference, or a cycle.',
  'inputs programs', 'every schema set',
  'Positive tests accept a few schemas; a rule that is slightly too strict rejects only particular schemas.',
  'validator.rs', [('conditions of all recorded errors', 'src/validator.rs')],
  'guard-table dataflow over the compiler\'s MIR (recorded error => violating condition)', WHOLE)

p('C12', 'The parser accepts exactly the documented grammar',
  'A sequence of tokens is parsed without an error exactly if it is derivable from the documented grammar of schema files (comments, imports, declarations, fields with optional rule and type, deleted indices), with no import name and no deleted index repeated within its scope. Everything else is reported.',
  'inputs programs', 'every sequence of tokens of every length',
  'The tests parse a few short token sequences; acceptance is a statement about all of them.',
  'parser.rs', [('parse, parse_schema, parse_import, parse_field, parse_type', 'src/parser.rs')],
  'extraction of a token automaton from the dataflow facts of the parser\'s MIR, compared for language equality with a reference grammar', WHOLE)
p('C15', 'The parsed schema says exactly what its tokens say',
  'For every accepted sequence of tokens the schema contains each import, declaration, field, type, index, rule, deleted index and comment of the file, in order, with the names, numbers and paths of its own tokens, and nothing else. The first comment belongs to the file unless a declaration follows it with no blank line between, in which case it belongs to that declaration; an import without a name is named after its file.',
  'inputs programs', 'every accepted sequence of tokens',
  'The tests compare the schemas of a few token sequences; a dropped, swapped or misattributed component shows only for particular sequences.',
  'parser.rs', [('construction of the schema in parse_schema, parse_import, parse_field, parse_type', 'src/parser.rs')],
  'value-provenance dataflow over the compiler\'s MIR (each stored component against the token it comes from)', WHOLE + ' Source ranges are not part of this property.')

p('C17', 'The tokens of a file are exactly its text',
  'Every code point of a schema file belongs to exactly one token, is white space, or is reported: symbols, keywords, identifiers (Unicode letters, digits and underscores, optionally after the sigil), 64-bit integers, quoted paths and comments become tokens of the right kind that hold and cover exactly their own stretch of the text, as long as possible. Tokens are returned exactly if nothing is reported; reported are unexpected symbols, unterminated paths, too large integers, and identifiers that are empty or begin with an underscore or digit. The paragraphs of a comment are its trimmed lines joined by spaces, separated at empty lines.',
  'inputs', 'every text',
  'The tests tokenize a few dozen short texts; the rules must hold for every code point in every context.',
  'tokenizer.rs token.rs', [('tokenize', 'src/tokenizer.rs tokenize')],
  'extraction of a character transducer from the dataflow facts of the compiler\'s MIR, compared in lockstep with the documented lexical rules', WHOLE + ' Trusted: the Unicode predicates of the standard library; they are related to each other only as their documentation says.')
p('C16', 'Formatting keeps the meaning of a schema',
  'The canonical text of every valid schema parses back to the same schema: the same comments (words and paragraphs), imports, declarations in order, fields with their rule, name, type and index, and deleted indices, with names in the canonical letter case and with the sigil exactly where a name would otherwise read as a keyword. The text depends on nothing but the schema.',
  'inputs', 'every schema, whatever its comments, imports, names, types, rules and indices, in any combination',
  'The tests format a few fixed schemas; which comment, blank line, keyword or deleted clause is lost depends on the combination of neighbouring items.',
  'schema.rs token.rs', [('Display for Schema and its parts', 'src/schema.rs'), ('keyword table', 'src/token.rs')],
  'extraction of the table of writes (loop heads, conditions, text pieces) of the printer from the dataflow facts, composed with the documented grammar for every class of schema the conditions tell apart', WHOLE + ' Trusted: text wrapping breaks lines only at spaces when configured so; case conversion of names is taken as given; runs of several spaces in a comment count as one.')

GT = 'The tests generate code for one example schema and compare it with a file; '
GM = 'tables of the generator\'s writes (loop heads, conditions, text pieces) extracted from the dataflow facts of the compiler\'s MIR; the text they give for classes of schemas, '
GN = WHOLE + ' Inputs: every type to nesting depth 3 under every rule in both kinds of declaration, all sequences of rules of up to 3 fields, module trees to depth 4, reserved words; a condition of the generator that none of them meets is reported. Trusted: the reference text of the generated code (rules/ref_rust.py, ref_ts.py) and the fixed helper functions at its top.'
GA = 'generate_rust.rs generate_typescript.rs'
p('C19', 'Every name of a schema becomes a legal name in the generated code',
  'Whatever a module, import, declaration or field is called, reserved words of Rust and TypeScript included, the generated code for it differs from the code for any other name only by a consistent renaming into legal, distinct names. No generated namespace or module hides a global or a library module that the generated code uses, and in TypeScript a field goes by the same name in types, code and strings.',
  'inputs programs', 'every name, in every place a name can be, in both languages',
  GT + 'only names that are reserved words, or resemble what the generated code itself uses, break it.', GA,
  [('write_identifier, write_variable, keyword tables', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'aligned token by token with the text for an ordinary name', GN)
p('C21', 'Generated code declares every part of every schema exactly once',
  'The generated Rust and TypeScript contain, for every loaded schema, the nested modules of its path and in them for every declaration its written, read and size types and its functions, each exactly once and nothing else. What precedes them is the same whatever the schemas are.',
  'inputs programs', 'every set of schemas, whatever its modules, declarations and fields',
  GT + 'a module, declaration or field dropped or repeated only in other trees of modules or numbers of declarations goes unnoticed.', GA,
  [('generate, insert_schema, write_module, write_schema', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'parsed into items and compared with the items the schemas stand for', GN)
p('C22', 'Field rules decide what generated types demand of writers and promise readers',
  'In the generated types an optional field may be absent when writing and reading, an asymmetric one only when reading and a required one never; an optional choice carries a fallback on both sides, an asymmetric one only when writing, a required one none. Field types correspond to the schema types at every nesting depth, and written messages convert to read ones field by field.',
  'inputs programs', 'every type at every depth under every rule in every declaration, in both languages',
  GT + 'the combination of type, nesting, rule and kind of declaration matters.', GA,
  [('write_struct, write_choice, write_type, write_into_invocation', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'compared with the reference types', GN)
p('C23', 'Generated code writes the documented encoding and accounts for its exact size',
  'For every declaration the generated code writes its present fields in order, each as a header with the declared index, the size of the payload and whether it is an integer, then the payload by its type, then for optional and asymmetric choices the fallback. The size calculation counts exactly these bytes, with nested sizes kept for the elements that need them.',
  'inputs programs', 'every type at every depth under every rule in every declaration, in both languages',
  GT + 'nested arrays, imported types and particular combinations of rules need not occur in it.', GA,
  [('write_atlas_calculation, write_serialization_invocation', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'compared with the reference code that sizes and writes', GN)
p('C24', 'References in generated code lead to the declarations the schema refers to',
  'Every reference of a field to a declaration of its own or an imported schema becomes, from wherever in the tree of modules it is made, a path that the scoping rules of the target language resolve to the code generated for that declaration.',
  'inputs programs', 'every tree of modules and every pair of places in it, in both languages',
  GT + 'modules at other relative positions, or that share names, are not in it.', GA + ' schema.rs',
  [('write_type, write_custom_type, write_supers', 'src/generate_rust.rs src/generate_typescript.rs'), ('relativize_namespace', 'src/schema.rs')], GM + 'with its paths resolved over the generated modules', GN)
p('C25', 'Diagnostics name the file at fault and show the lines at fault',
  'Every error found in the text of a schema names the file it was found in and shows the lines of what it is about: the offending symbol or token, the end of the file if the tokens have run out, or the declaration, field, type or import named in its message. A file that cannot be read is reported at the import that asked for it. A listing consists of exactly the lines that meet the range it is given, whole and with their numbers, and reaches the user with the message, the path and the underlying reason.',
  'inputs', 'every schema text with an error, and every place in it',
  'Tests compare a few messages as substrings; whether the right line is shown depends on which error occurs where in which file, after which lines.',
  'tokenizer.rs parser.rs schema_loader.rs validator.rs error.rs', [('errors of the tokenizer', 'src/tokenizer.rs'), ('unexpected_token, span_tokens', 'src/parser.rs'), ('errors of the loader', 'src/schema_loader.rs'), ('errors of the validator', 'src/validator.rs'), ('throw, listing', 'src/error.rs')],
  DF + 'provenance of the path, text and range of every error, with linear arithmetic over the listing loop',
  WHOLE + ' The colouring of text is trusted to keep it.')
p('C26', 'Generated code reads fields by index and honours rules and fallbacks',
  'The generated code that reads a declaration dispatches on the declared indices, decodes each payload by its type at every nesting depth, skips fields it does not know, and reports an error exactly when a required field is missing. For choices it reads the fallback only of optional ones and skips alternatives it does not know.',
  'inputs programs', 'every type at every depth under every rule in every declaration, in both languages',
  GT + 'nested arrays, imported types and particular combinations of rules need not occur in it.', GA,
  [('write_deserialize_function, write_deserialization_invocation', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'compared with the reference code that reads', GN)
p('C27', 'Rust and TypeScript code for a schema agree on the wire',
  'For every schema the code generated for Rust and for TypeScript writes and reads the same fields under the same indices in the same order, inlines the same integers, nests sizes and fallbacks alike and demands the same fields.',
  'inputs programs', 'every schema',
  'The tests compare each language with its own example file; that the two agree is tested for no other schema.', GA,
  [('write_struct, write_choice and what they call', 'src/generate_rust.rs src/generate_typescript.rs')], GM + 'compared between the languages and with one reference encoding', GN)

p('C18', 'Two spellings of one name are one identifier everywhere',
  'Identifiers are compared, ordered and hashed by one and the same folded form and never by the spelling, so that equality, order and hashing of identifiers, and of everything made of identifiers that is used as a key, agree for every pair. An identifier is made from one text, keeps that text unchanged, and its snake-case form is the form it is compared by.',
  'inputs', 'every pair of identifiers and every collection keyed by identifiers or namespaces',
  'Tests compare a few pairs; when equality, order and hash disagree, maps and sets lose or duplicate entries only for particular spellings.',
  'identifier.rs schema.rs', [('PartialEq, Ord, Hash of Identifier; derived ones of Namespace', 'src/identifier.rs, src/schema.rs')],
  'dependence analysis of the comparison implementations over the compiler\'s MIR, and a who-makes-and-changes query', WHOLE)
p('C20', 'The same schemas and arguments always give the same output',
  'Everything the tool prints and writes is determined by its arguments, the contents of the files it reads and its version: nothing depends on the time, the environment, the order of a hash table, addresses, randomness or threads. Generated code and formatted schemas do not depend on the terminal either and are computed from the loaded schemas without further input or output.',
  'inputs schedules configurations', 'every schema set and command line, however often and wherever the tool runs',
  'A test sees one run; whether two runs can differ for some input is a statement about pairs of runs, and hash tables are seeded anew in each.',
  'main.rs validator.rs schema_loader.rs parser.rs generate_rust.rs generate_typescript.rs schema.rs', [('everything that calls, casts or iterates', 'src')],
  'effect and hash-order query over every call, cast and type of the compiler\'s MIR', 'Trusted: the MIR dumper; that functions of the standard library and the listed crates outside the deny list are deterministic.')
p('C28', 'The command line is the documented one and wired to what it stands for',
  'The tool accepts exactly the documented commands, options and arguments: generate and format with a schema path, the options for the two languages, listing and checking, and shell-completion with a shell. Everything it asks about the arguments concerns a declared argument of that command and fits its kind; for each of the five documented shells, in any case, shell-completion prints on standard output the script of that shell for this command line and nothing else.',
  'configurations inputs', 'every command line',
  'No test runs the argument parser; a misspelt or mistyped option only shows when that option is used.',
  'main.rs', [('cli, entry, shell_completion', 'src/main.rs')], DF + 'evaluation of the builder calls and a declared-before-asked rule', WHOLE + ' The argument parser itself (clap) is trusted.')

p('C29', 'Parsing any token list ends, inside the list, without a crash',
  'For every list of tokens, also those no valid schema has, the parser reads only tokens that are in the list, computes no position below zero and reaches no panic, so that a malformed schema ends in reported errors. Every loop and every recursive call of the parser has moved the position forward since the last turn and never moves it behind the end of the list, so parsing always ends.',
  'inputs', 'every list of tokens, at every point where it may end or stop being grammatical',
  'Tests parse a few malformed schemas; an index behind the end or a loop that stops moving shows only when the tokens end, or an error occurs, at one particular place.',
  'parser.rs', [('parse_schema, parse_import, parse_field, parse_type: position and its advance tags', 'src/parser.rs')],
  'inductive interval analysis of positions over the compiler\'s MIR (index bounds, loop and recursion progress)', 'Trusted: the MIR dumper, the dataflow engine, and the models of the standard-library calls it names; additions of positions do not overflow; the stack is deep enough for the nesting of the input; rendering an error message is left out.')

RT = 'quantifies over the values produced by running generated code (bytes and decoded messages); the generator\'s source only prints that code as text, and no static argument in reach relates the printed encoder and decoder. Clauses whose truth is visible in the generators are claimed separately.'
na('N01', 'Encoding then decoding a message gives it back', 'For every valid schema and every message of a type in it, decoding the encoding of the message yields the same message, in Rust and in TypeScript and across the two.',
   'inputs programs', 'every schema and every message', 'The integration tests round-trip a fixed set of messages of one schema.', 'generate_rust.rs generate_typescript.rs',
   [('emitted serialize/deserialize code', 'src/generate_rust.rs, src/generate_typescript.rs')], RT)
na('N02', 'Old and new versions of a schema interoperate under the documented changes', 'Decoding with one version of a schema a message encoded with another version reachable by the documented safe changes succeeds and preserves the common fields.',
   'inputs programs histories', 'every pair of versions and every message', 'The tests contain one fixed before/after schema.', 'generate_rust.rs generate_typescript.rs',
   [('rules of fields per direction', 'src/generate_rust.rs, src/generate_typescript.rs')], RT)
na('N03', 'Generated decoders reject malformed bytes without crashing', 'Generated decoders terminate with a result or an error on every byte string, without panicking, looping or allocating memory out of proportion to the input.',
   'inputs programs', 'every schema and every byte string', 'Tests decode a few malformed inputs.', 'generate_rust.rs generate_typescript.rs',
   [('emitted deserialize code', 'src/generate_rust.rs, src/generate_typescript.rs')], RT)


def main():
    P.sort(key=lambda x: x['prop']['id'])
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x['prop'], ensure_ascii=False) + '\n')
    checks = []
    for x in P:
        if 'technique' not in x:
            continue
        i = x['prop']['id']
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique='static analysis: ' + x['technique'], level='other', level_note=x['note']))
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 lib/build.py', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in sorted(NA)]), f, indent=1)
        f.write('\n')


main()
