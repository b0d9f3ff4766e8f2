"""Cases of the generators: refactorings that must stay quiet, mutants that must be reported."""
from cases import mutant, same

GR = 'src/generate_rust.rs'
GT = 'src/generate_typescript.rs'
S = 'src/schema.rs'

OPTS = '''        match field.rule {
            schema::Rule::Asymmetric => match direction {
                Direction::Atlas | Direction::Out => {}
                Direction::In => {
                    write!(buffer, "Option<")?;
                }
            },
            schema::Rule::Optional => {
                write!(buffer, "Option<")?;
            }
            schema::Rule::Required => {}
        }
'''
OPTE = OPTS.replace('Option<', '>')
STRUCT_FN = '''// Write a struct, including a trailing line break.
fn write_struct<T: Write>('''

# a helper deciding whether a field is optional, used at both places
same('gen-option-helper', (GR, OPTS, '''        let optional = is_optional(&field.rule, direction);
        if optional {
            write!(buffer, "Option<")?;
        }
'''), (GR, OPTE, '''        if optional {
            write!(buffer, ">")?;
        }
'''), (GR, STRUCT_FN, '''// Whether a field may be absent.
fn is_optional(rule: &schema::Rule, direction: Direction) -> bool {
    matches!(
        (rule, direction),
        (schema::Rule::Optional, _) | (schema::Rule::Asymmetric, Direction::In)
    )
}

''' + STRUCT_FN))
# the whole type with its wrapper in a helper
same('gen-option-wrap', (GR, OPTS + '''        write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
''' + OPTE, '''        let (open, close) = match field.rule {
            schema::Rule::Asymmetric if direction == In => ("Option<", ">"),
            schema::Rule::Optional => ("Option<", ">"),
            _ => ("", ""),
        };
        write!(buffer, "{open}")?;
        write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
        write!(buffer, "{close}")?;
'''))
same('gen-fields-while', (GR, '''    for field in fields {
        write_indentation(buffer, indentation + 1)?;
        write!(buffer, "pub ")?;
''', '''    let mut fields_iter = fields.iter();
    while let Some(field) = fields_iter.next() {
        write_indentation(buffer, indentation + 1)?;
        write!(buffer, "pub ")?;
'''))
same('gen-fields-foreach', (GR, '''                for field in &declaration.fields {
                    write_indentation(buffer, indentation + 3)?;
                    write_identifier(buffer, &field.name, Snake, None)?;
                    write!(buffer, ": ")?;
                    write_variable(buffer, &field.name)?;
                    writeln!(buffer, ",")?;
                }
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "}}")?;
''', '''                declaration.fields.iter().try_for_each(|field| {
                    write_indentation(buffer, indentation + 3)?;
                    write_identifier(buffer, &field.name, Snake, None)?;
                    write!(buffer, ": ")?;
                    write_variable(buffer, &field.name)?;
                    writeln!(buffer, ",")
                })?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "}}")?;
'''))
same('gen-derive-const', (GR, '''const TRAITS_TO_DERIVE: &[&str] = &["Clone", "Debug"];
''', '''const TRAITS_TO_DERIVE: &str = "Clone, Debug";
'''), (GR, '''    writeln!(buffer, "#[derive({})]", TRAITS_TO_DERIVE.join(", "))?;
    write_indentation(buffer, indentation)?;
    write!(buffer, "pub struct ")?;
''', '''    writeln!(buffer, "#[derive({TRAITS_TO_DERIVE})]")?;
    write_indentation(buffer, indentation)?;
    write!(buffer, "pub struct ")?;
'''), (GR, '''    writeln!(buffer, "#[derive({})]", TRAITS_TO_DERIVE.join(", "))?;
    write_indentation(buffer, indentation)?;
    write!(buffer, "pub enum ")?;
''', '''    writeln!(buffer, "#[derive({TRAITS_TO_DERIVE})]")?;
    write_indentation(buffer, indentation)?;
    write!(buffer, "pub enum ")?;
'''))
same('gen-struct-iflet', (GR, '''    match direction {
        Direction::Atlas => {
            write_indentation(buffer, indentation + 1)?;
            writeln!(buffer, "pub _size: usize,")?;
        }
        Direction::In | Direction::Out => {}
    }
''', '''    if direction == Direction::Atlas {
        write_indentation(buffer, indentation + 1)?;
        writeln!(buffer, "pub _size: usize,")?;
    }
'''))
same('gen-choice-parts', (GR, '''        let size = match direction {
            Direction::Atlas => true,
            Direction::In | Direction::Out => false,
        };

        let payload = match direction {
            Direction::Atlas => true,
            Direction::In | Direction::Out => {
                !matches!(field.r#type.variant, schema::TypeVariant::Unit)
            }
        };

        let fallback = match field.rule {
            schema::Rule::Asymmetric => match direction {
                Direction::Atlas | Direction::Out => true,
                Direction::In => false,
            },
            schema::Rule::Optional => true,
            schema::Rule::Required => false,
        };
''', '''        let size = matches!(direction, Direction::Atlas);
        let payload = size || !matches!(field.r#type.variant, schema::TypeVariant::Unit);
        let fallback = match (&field.rule, direction) {
            (schema::Rule::Asymmetric, Direction::In) | (schema::Rule::Required, _) => false,
            (schema::Rule::Asymmetric | schema::Rule::Optional, _) => true,
        };
'''))
same('gen-choice-strings', (GR, '''        if size || payload || fallback {
            write!(buffer, "(")?;
        }

        if size {
            write!(buffer, "usize")?;

            if payload || fallback {
                write!(buffer, ", ")?;
            }
        }

        if payload {
            write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;

            if fallback {
                write!(buffer, ", ")?;
            }
        }
''', '''        let parenthesized = size || payload || fallback;
        if parenthesized {
            write!(buffer, "(")?;
        }

        if size {
            write!(buffer, "usize{}", if payload || fallback { ", " } else { "" })?;
        }

        if payload {
            write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;

            if fallback {
                write!(buffer, ", ")?;
            }
        }
'''), (GR, '''        if size || payload || fallback {
            write!(buffer, ")")?;
        }
''', '''        if parenthesized {
            write!(buffer, ")")?;
        }
'''))
same('gen-decl-enumerate', (GR, '''    let mut iter = schema.declarations.iter().peekable();
    while let Some(declaration) = iter.next() {
        match &declaration.variant {
''', '''    for (i, declaration) in schema.declarations.iter().enumerate() {
        if i != 0 {
            writeln!(buffer)?;
        }

        match &declaration.variant {
'''), (GR, '''
        if iter.peek().is_some() {
            writeln!(buffer)?;
        }
''', ''))
same('gen-decl-enumerate-len', (GR, '''    let mut iter = schema.declarations.iter().peekable();
    while let Some(declaration) = iter.next() {
        match &declaration.variant {
''', '''    for (i, declaration) in schema.declarations.iter().enumerate() {
        match &declaration.variant {
'''), (GR, '''
        if iter.peek().is_some() {
            writeln!(buffer)?;
        }
''', '''
        if i + 1 < schema.declarations.len() {
            writeln!(buffer)?;
        }
'''))
same('gen-first-enumerate', (GR, '''                let mut first = true;
                for field in &declaration.fields {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if first {
                        first = false;
                    } else {
                        write!(buffer, "+ ")?;
                    }
''', '''                for (i, field) in declaration.fields.iter().enumerate() {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if i > 0 {
                        write!(buffer, "+ ")?;
                    }
'''), (GR, '''                    first = true;
''', '''                    let mut first = true;
'''))
REQ = '''                if declaration.fields.iter().any(|field| match field.rule {
                    schema::Rule::Asymmetric | schema::Rule::Optional => false,
                    schema::Rule::Required => true,
                }) {
                    write_indentation(buffer, indentation + 2)?;
                    write!(buffer, "if ")?;
                    first = true;
                    for field in &declaration.fields {
                        match field.rule {
                            schema::Rule::Asymmetric | schema::Rule::Optional => {}
                            schema::Rule::Required => {
                                if first {
                                    first = false;
                                } else {
                                    writeln!(buffer)?;
                                    write_indentation(buffer, indentation + 3)?;
                                    write!(buffer, "|| ")?;
                                }
                                write_variable(buffer, &field.name)?;
                                write!(buffer, ".is_none()")?;
                            }
                        }
                    }
'''
same('gen-required-collect', (GR, REQ, '''                let required = declaration
                    .fields
                    .iter()
                    .filter(|field| matches!(field.rule, schema::Rule::Required))
                    .collect::<Vec<_>>();
                if !required.is_empty() {
                    write_indentation(buffer, indentation + 2)?;
                    write!(buffer, "if ")?;
                    for (i, field) in required.iter().enumerate() {
                        if i > 0 {
                            writeln!(buffer)?;
                            write_indentation(buffer, indentation + 3)?;
                            write!(buffer, "|| ")?;
                        }
                        write_variable(buffer, &field.name)?;
                        write!(buffer, ".is_none()")?;
                    }
'''))
same('gen-required-eq', (GR, REQ, REQ.replace('''.any(|field| match field.rule {
                    schema::Rule::Asymmetric | schema::Rule::Optional => false,
                    schema::Rule::Required => true,
                }) {''', '''.any(|field| matches!(field.rule, schema::Rule::Required)) {''').replace('''                        match field.rule {
                            schema::Rule::Asymmetric | schema::Rule::Optional => {}
                            schema::Rule::Required => {
''', '''                        if matches!(field.rule, schema::Rule::Required) {
                            {
''')))
same('gen-merge-writes', (GR, '''                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "&self,")?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "writer: &mut T,")?;
                write_indentation(buffer, indentation + 2)?;
                write!(buffer, "atlas: &")?;
''', '''                for parameter in ["&self", "writer: &mut T"] {
                    write_indentation(buffer, indentation + 2)?;
                    writeln!(buffer, "{parameter},")?;
                }
                write_indentation(buffer, indentation + 2)?;
                write!(buffer, "atlas: &")?;
'''))
same('gen-indent-repeat', (GR, '''    for _ in 0..indentation {
        write!(buffer, "{INDENTATION}")?;
    }

    Ok(())
''', '''    write!(buffer, "{}", INDENTATION.repeat(indentation))
'''))
same('gen-supers-repeat', (GR, '''    for _ in 0..count {
        write!(buffer, "super::")?;
    }

    Ok(())
''', '''    buffer.write_str(&"super::".repeat(count))
'''))
same('gen-supers-while', (GR, '''    for _ in 0..count {
        write!(buffer, "super::")?;
    }
''', '''    let mut remaining = count;
    while remaining > 0 {
        write!(buffer, "super::")?;
        remaining -= 1;
    }
'''))
same('gen-keyword-contains', (GR, '''    if RUST_KEYWORDS
        .iter()
        .any(|keyword| converted_identifier == *keyword)
    {
''', '''    if RUST_KEYWORDS.contains(&converted_identifier.as_str()) {
'''))
same('gen-keyword-binary', (GR, '''    if RUST_KEYWORDS
        .iter()
        .any(|keyword| converted_identifier == *keyword)
    {
''', '''    if RUST_KEYWORDS.binary_search(&converted_identifier.as_str()).is_ok() {
'''))
same('gen-keyword-match', (GR, '''        if let "Self" | "crate" | "self" | "super" = converted_identifier.as_str() {
            write!(buffer, "{converted_identifier}_")?;

            return Ok(());
        }

        write!(buffer, "r#")?;
    }

    write!(buffer, "{converted_identifier}")?;

    Ok(())
''', '''        match converted_identifier.as_str() {
            "Self" | "crate" | "self" | "super" => write!(buffer, "{converted_identifier}_"),
            _ => write!(buffer, "r#{converted_identifier}"),
        }
    } else {
        write!(buffer, "{converted_identifier}")
    }
'''))
same('gen-suffix-match', (GR, '''    let identifier_with_suffix = suffix.map_or_else(
        || identifier.clone(),
        |suffix| {
            identifier.join(
                &match suffix {
                    Direction::Atlas => "Atlas",
                    Direction::In => "In",
                    Direction::Out => "Out",
                }
                .into(),
            )
        },
    );
''', '''    let identifier_with_suffix = match suffix {
        None => identifier.clone(),
        Some(Direction::Atlas) => identifier.join(&"Atlas".into()),
        Some(Direction::In) => identifier.join(&"In".into()),
        Some(Direction::Out) => identifier.join(&"Out".into()),
    };
'''))
same('gen-suffix-helper', (GR, '''                &match suffix {
                    Direction::Atlas => "Atlas",
                    Direction::In => "In",
                    Direction::Out => "Out",
                }
                .into(),
''', '''                &direction_suffix(suffix).into(),
'''), (GR, '''// Write the given level of indentation.
''', '''// The suffix for a direction.
fn direction_suffix(direction: Direction) -> &'static str {
    match direction {
        Direction::Atlas => "Atlas",
        Direction::In => "In",
        Direction::Out => "Out",
    }
}

// Write the given level of indentation.
'''))
INTO = '''    if let schema::TypeVariant::Array(inner_type) = type_variant {
        let mut layer = inner_type;
        while let schema::TypeVariant::Array(inner_type) = &layer.variant {
            layer = inner_type;
        }
        if let schema::TypeVariant::Custom(_, _) = &layer.variant {
            write!(buffer, ".into_iter().map(|x| ")?;
            layer = inner_type;
            while let schema::TypeVariant::Array(inner_type) = &layer.variant {
                layer = inner_type;
                write!(buffer, "x.into_iter().map(|x| ")?;
            }
            write!(buffer, "x.into()")?;
            layer = inner_type;
            while let schema::TypeVariant::Array(inner_type) = &layer.variant {
                layer = inner_type;
                write!(buffer, ").collect::<Vec<_>>()")?;
            }
            write!(buffer, ").collect::<Vec<_>>()")
        } else {
            write!(buffer, ".into()")
        }
    } else {
        write!(buffer, ".into()")
    }
'''
same('gen-into-depth', (GR, INTO, '''    let mut depth = 0_usize;
    let mut layer = type_variant;
    while let schema::TypeVariant::Array(inner_type) = layer {
        layer = &inner_type.variant;
        depth += 1;
    }
    if depth == 0 || !matches!(layer, schema::TypeVariant::Custom(_, _)) {
        return write!(buffer, ".into()");
    }
    write!(buffer, ".into_iter().map(|x| ")?;
    for _ in 1..depth {
        write!(buffer, "x.into_iter().map(|x| ")?;
    }
    write!(buffer, "x.into()")?;
    for _ in 0..depth {
        write!(buffer, ").collect::<Vec<_>>()")?;
    }
    Ok(())
'''))
same('gen-into-recursive', (GR, INTO, '''    fn innermost(type_variant: &schema::TypeVariant) -> &schema::TypeVariant {
        if let schema::TypeVariant::Array(inner_type) = type_variant {
            innermost(&inner_type.variant)
        } else {
            type_variant
        }
    }

    match (type_variant, innermost(type_variant)) {
        (schema::TypeVariant::Array(inner_type), schema::TypeVariant::Custom(_, _)) => {
            write!(buffer, ".into_iter().map(|x| x")?;
            write_into_invocation(buffer, &inner_type.variant)?;
            write!(buffer, ").collect::<Vec<_>>()")
        }
        _ => write!(buffer, ".into()"),
    }
'''))
same('gen-type-prim', (GR, '''        schema::TypeVariant::U64 => match direction {
            Direction::Atlas => {
                write!(buffer, "usize")?;
            }
            Direction::In | Direction::Out => {
                write!(buffer, "u64")?;
            }
        },
        schema::TypeVariant::Unit => match direction {
            Direction::Atlas => {
                write!(buffer, "usize")?;
            }
            Direction::In | Direction::Out => {
                write!(buffer, "()")?;
            }
        },
''', '''        schema::TypeVariant::U64 => {
            write!(buffer, "{}", if direction == Atlas { "usize" } else { "u64" })?;
        }
        schema::TypeVariant::Unit => {
            write_leaf(buffer, "()", direction)?;
        }
'''), (GR, '''// Write a type.
fn write_type''', '''fn write_leaf<T: Write>(
    buffer: &mut T,
    name: &str,
    direction: Direction,
) -> Result<(), fmt::Error> {
    match direction {
        Direction::Atlas => write!(buffer, "usize"),
        Direction::In | Direction::Out => write!(buffer, "{name}"),
    }
}

// Write a type.
fn write_type'''))
same('gen-type-atlas-first', (GR, '''    match type_variant {
        schema::TypeVariant::Array(inner_type) => match direction {
            Direction::Atlas => match &inner_type.variant {
                schema::TypeVariant::Array(_)
                | schema::TypeVariant::Bytes
                | schema::TypeVariant::Custom(_, _)
                | schema::TypeVariant::String => {
                    write!(buffer, "(usize, Vec<")?;
''', '''    if direction == Direction::Atlas
        && matches!(
            type_variant,
            schema::TypeVariant::Bool
                | schema::TypeVariant::F64
                | schema::TypeVariant::S64
                | schema::TypeVariant::U64
                | schema::TypeVariant::Unit
        )
    {
        return write!(buffer, "usize");
    }

    match type_variant {
        schema::TypeVariant::Array(inner_type) => match direction {
            Direction::Atlas => match &inner_type.variant {
                schema::TypeVariant::Array(_)
                | schema::TypeVariant::Bytes
                | schema::TypeVariant::Custom(_, _)
                | schema::TypeVariant::String => {
                    write!(buffer, "(usize, Vec<")?;
'''))
same('gen-type-path', (GR, '''            let type_namespace = schema::Namespace {
                components: import.as_ref().map_or_else(
                    || namespace.components.clone(),
                    |import| imports[import].components.clone(),
                ),
            };

            let (relative_type_namespace, ancestors) =
                relativize_namespace(&type_namespace, namespace);
''', '''            let type_namespace = match import {
                Some(import) => &imports[import],
                None => namespace,
            };

            let (relative_type_namespace, ancestors) =
                relativize_namespace(type_namespace, namespace);
'''))
same('gen-type-path-same', (GR, '''            let type_namespace = schema::Namespace {
                components: import.as_ref().map_or_else(
                    || namespace.components.clone(),
                    |import| imports[import].components.clone(),
                ),
            };

            let (relative_type_namespace, ancestors) =
                relativize_namespace(&type_namespace, namespace);

            write_supers(buffer, ancestors)?;

            for component in relative_type_namespace.components {
                write_identifier(buffer, &component, Snake, None)?;
                write!(buffer, "::")?;
            }
''', '''            if let Some(import) = import {
                let (relative_type_namespace, ancestors) =
                    relativize_namespace(&imports[import], namespace);

                write_supers(buffer, ancestors)?;

                for component in &relative_type_namespace.components {
                    write_identifier(buffer, component, Snake, None)?;
                    write!(buffer, "::")?;
                }
            }
'''))
same('gen-imports-collect', (GR, '''    let mut imports = BTreeMap::new();
    for (name, import) in &schema.imports {
        // The `unwrap` is safe due to [ref:namespace_populated].
        imports.insert(name.clone(), import.namespace.clone().unwrap());
    }
''', '''    let imports = schema
        .imports
        .iter()
        // The `unwrap` is safe due to [ref:namespace_populated].
        .map(|(name, import)| (name.clone(), import.namespace.clone().unwrap()))
        .collect::<BTreeMap<_, _>>();
'''))
REL = '''    let mut common_components: usize = 0;
    while let Some(component1) = namespace1.components.get(common_components) {
        if let Some(component2) = namespace2.components.get(common_components) {
            if component1 == component2 {
                common_components += 1;
            } else {
                break;
            }
        } else {
            break;
        }
    }
'''
same('gen-rel-zip', (S, REL, '''    let common_components = namespace1
        .components
        .iter()
        .zip(namespace2.components.iter())
        .take_while(|(component1, component2)| component1 == component2)
        .count();
'''))
same('gen-rel-for', (S, REL, '''    let mut common_components: usize = 0;
    for (component1, component2) in namespace1.components.iter().zip(&namespace2.components) {
        if component1 != component2 {
            break;
        }
        common_components += 1;
    }
'''))
same('gen-rel-index', (S, REL, '''    let limit = namespace1.components.len().min(namespace2.components.len());
    let mut common_components: usize = 0;
    while common_components < limit
        && namespace1.components[common_components] == namespace2.components[common_components]
    {
        common_components += 1;
    }
'''))
INS = '''        if let Some(child) = module.children.get_mut(head) {
            insert_schema(
                child,
                &schema::Namespace {
                    components: iter.cloned().collect(),
                },
                schema,
            );
        } else {
            let mut child = Module {
                children: BTreeMap::new(),
                schema: schema::Schema {
                    comment: vec![],
                    imports: BTreeMap::new(),
                    declarations: vec![],
                },
            };

            insert_schema(
                &mut child,
                &schema::Namespace {
                    components: iter.cloned().collect(),
                },
                schema,
            );

            module.children.insert(head.clone(), child);
        }
'''
same('gen-insert-entry', (GR, INS, '''        let child = module.children.entry(head.clone()).or_insert_with(|| Module {
            children: BTreeMap::new(),
            schema: schema::Schema {
                comment: vec![],
                imports: BTreeMap::new(),
                declarations: vec![],
            },
        });

        insert_schema(
            child,
            &schema::Namespace {
                components: iter.cloned().collect(),
            },
            schema,
        );
'''))
same('gen-insert-split', (GR, '''    let mut iter = namespace.components.iter();

    if let Some(head) = iter.next() {
''' + INS, '''    if let Some((head, rest)) = namespace.components.split_first() {
        let rest = schema::Namespace {
            components: rest.to_vec(),
        };

        if let Some(child) = module.children.get_mut(head) {
            insert_schema(child, &rest, schema);
        } else {
            let mut child = Module {
                children: BTreeMap::new(),
                schema: schema::Schema {
                    comment: vec![],
                    imports: BTreeMap::new(),
                    declarations: vec![],
                },
            };

            insert_schema(&mut child, &rest, schema);

            module.children.insert(head.clone(), child);
        }
'''))
same('gen-insert-empty', (GR, INS, INS.replace('''Module {
                children: BTreeMap::new(),
                schema: schema::Schema {
                    comment: vec![],
                    imports: BTreeMap::new(),
                    declarations: vec![],
                },
            };''', '''empty_module();''')), (GR, '''    let mut tree = Module {
        children: BTreeMap::new(),
        schema: schema::Schema {
            comment: vec![],
            imports: BTreeMap::new(),
            declarations: vec![],
        },
    };
''', '''    let mut tree = empty_module();
'''), (GR, '''// Insert a schema into a module.
''', '''// A module with nothing in it.
fn empty_module() -> Module {
    Module {
        children: BTreeMap::new(),
        schema: schema::Schema {
            comment: vec![],
            imports: BTreeMap::new(),
            declarations: vec![],
        },
    }
}

// Insert a schema into a module.
'''))
same('gen-children-peek', (GR, '''    for (i, (child_name, child)) in children.iter().enumerate() {
        write_module(buffer, indentation, namespace, child_name, child)?;

        if i < children.len() - 1 || !schema_empty {
            writeln!(buffer)?;
        }
    }
''', '''    let mut iter = children.iter().peekable();
    while let Some((child_name, child)) = iter.next() {
        write_module(buffer, indentation, namespace, child_name, child)?;

        if iter.peek().is_some() || !schema_empty {
            writeln!(buffer)?;
        }
    }
'''))
same('gen-children-plus', (GR, '''        if i < children.len() - 1 || !schema_empty {
            writeln!(buffer)?;
        }
''', '''        let last = i + 1 == children.len();
        if !(last && schema_empty) {
            writeln!(buffer)?;
        }
'''))
same('gen-namespace-build', (GR, '''    let mut new_namespace = namespace.clone();
    new_namespace.components.push(name.clone());
''', '''    let mut components = namespace.components.clone();
    components.push(name.clone());
    let new_namespace = schema::Namespace { components };
'''))
same('gen-lookup-nested', (GR, '''    match type_variant {
        schema::TypeVariant::Array(inner_type) => match &inner_type.variant {
            schema::TypeVariant::Array(_)
            | schema::TypeVariant::Bytes
            | schema::TypeVariant::Custom(_, _)
            | schema::TypeVariant::String => write!(buffer, "payload_atlas.0"),
            schema::TypeVariant::Bool
            | schema::TypeVariant::F64
            | schema::TypeVariant::S64
            | schema::TypeVariant::U64
            | schema::TypeVariant::Unit => write!(buffer, "*payload_atlas"),
        },
        schema::TypeVariant::Bool
        | schema::TypeVariant::Bytes
        | schema::TypeVariant::F64
        | schema::TypeVariant::S64
        | schema::TypeVariant::String
        | schema::TypeVariant::U64
        | schema::TypeVariant::Unit => write!(buffer, "*payload_atlas"),
        schema::TypeVariant::Custom(_, _) => write!(buffer, "payload_atlas.size()"),
    }
''', '''    let text = match type_variant {
        schema::TypeVariant::Custom(_, _) => "payload_atlas.size()",
        schema::TypeVariant::Array(inner_type)
            if matches!(
                inner_type.variant,
                schema::TypeVariant::Array(_)
                    | schema::TypeVariant::Bytes
                    | schema::TypeVariant::Custom(_, _)
                    | schema::TypeVariant::String
            ) =>
        {
            "payload_atlas.0"
        }
        _ => "*payload_atlas",
    };

    write!(buffer, "{text}")
'''))
same('gen-brace-helper', (GR, '''                write_indentation(buffer, indentation)?;
                writeln!(buffer, "}}")?;

                writeln!(buffer)?;
''', '''                write_closing_brace(buffer, indentation)?;

                writeln!(buffer)?;
'''), (GR, '''// Write the given level of indentation.
''', '''fn write_closing_brace<T: Write>(buffer: &mut T, indentation: usize) -> Result<(), fmt::Error> {
    write_indentation(buffer, indentation)?;
    writeln!(buffer, "}}")
}

// Write the given level of indentation.
'''), count=10)
same('gen-line-helper', (GR, '''                write_indentation(buffer, indentation)?;
                writeln!(buffer, "for payload in payload {{")?;
''', '''                write_line(buffer, indentation, "for payload in payload {")?;
'''), (GR, '''            writeln!(buffer, "let varint = u64::from(*payload);")?;
''', '''            let statement = format!("let varint = {};", "u64::from(*payload)");
            writeln!(buffer, "{statement}")?;
'''), (GR, '''// Write the given level of indentation.
''', '''fn write_line<T: Write>(
    buffer: &mut T,
    indentation: usize,
    line: &str,
) -> Result<(), fmt::Error> {
    write_indentation(buffer, indentation)?;
    writeln!(buffer, "{line}")
}

// Write the given level of indentation.
'''))
same('gen-field-helper', (GR, '''                for field in &declaration.fields {
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "{} => {{", field.index)?;
                    write_deserialization_invocation(
                        buffer,
                        indentation + 5,
                        indentation,
                        &imports,
                        namespace,
                        &field.r#type.variant,
                        true,
                    )?;
                    write_indentation(buffer, indentation + 5)?;
                    write_variable(buffer, &field.name)?;
                    writeln!(buffer, ".get_or_insert(payload);")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "}}")?;
                }
''', '''                for field in &declaration.fields {
                    write_field_arm(buffer, indentation, &imports, namespace, field)?;
                }
'''), (GR, '''// Write the given level of indentation.
''', '''fn write_field_arm<T: Write>(
    buffer: &mut T,
    indentation: usize,
    imports: &BTreeMap<Identifier, schema::Namespace>,
    namespace: &schema::Namespace,
    field: &schema::Field,
) -> Result<(), fmt::Error> {
    write_indentation(buffer, indentation + 4)?;
    writeln!(buffer, "{} => {{", field.index)?;
    write_deserialization_invocation(
        buffer,
        indentation + 5,
        indentation,
        imports,
        namespace,
        &field.r#type.variant,
        true,
    )?;
    write_indentation(buffer, indentation + 5)?;
    write_variable(buffer, &field.name)?;
    writeln!(buffer, ".get_or_insert(payload);")?;
    write_indentation(buffer, indentation + 4)?;
    writeln!(buffer, "}}")
}

// Write the given level of indentation.
'''))
same('gen-impl-helper', (GR, '''                write_indentation(buffer, indentation)?;
                write!(buffer, "impl ")?;
                write_supers(buffer, indentation)?;
                write!(buffer, "Serialize for ")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(Out))?;
                writeln!(buffer, " {{")?;
                write_size_function(buffer, indentation + 1)?;
                writeln!(buffer)?;
                write_serialize_function(buffer, indentation + 1)?;
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "}}")?;
''', '''                write_serialize_impl(buffer, indentation, &declaration.name)?;
'''), (GR, '''// Write the given level of indentation.
''', '''fn write_serialize_impl<T: Write>(
    buffer: &mut T,
    indentation: usize,
    name: &Identifier,
) -> Result<(), fmt::Error> {
    write_indentation(buffer, indentation)?;
    write!(buffer, "impl ")?;
    write_supers(buffer, indentation)?;
    write!(buffer, "Serialize for ")?;
    write_identifier(buffer, name, Pascal, Some(Out))?;
    writeln!(buffer, " {{")?;
    write_size_function(buffer, indentation + 1)?;
    writeln!(buffer)?;
    write_serialize_function(buffer, indentation + 1)?;
    write_indentation(buffer, indentation)?;
    writeln!(buffer, "}}")
}

// Write the given level of indentation.
'''), count=2)
same('gen-directions-loop', (GR, '''                write_struct(
                    buffer,
                    indentation,
                    &imports,
                    namespace,
                    &declaration.name,
                    &declaration.fields,
                    Atlas,
                )?;

                writeln!(buffer)?;

                write_struct(
                    buffer,
                    indentation,
                    &imports,
                    namespace,
                    &declaration.name,
                    &declaration.fields,
                    Out,
                )?;

                writeln!(buffer)?;

                write_struct(
                    buffer,
                    indentation,
                    &imports,
                    namespace,
                    &declaration.name,
                    &declaration.fields,
                    In,
                )?;

                writeln!(buffer)?;
''', '''                for direction in [Atlas, Out, In] {
                    write_struct(
                        buffer,
                        indentation,
                        &imports,
                        namespace,
                        &declaration.name,
                        &declaration.fields,
                        direction,
                    )?;

                    writeln!(buffer)?;
                }
'''))
same('gen-generate-empty', (GR, '''    let mut buffer = String::new();

    if !tree.children.is_empty() || !tree.schema.declarations.is_empty() {
''', '''    let mut buffer = String::new();

    let empty = tree.children.is_empty() && tree.schema.declarations.is_empty();
    if !empty {
'''))
same('gen-generate-early', (GR, '''    let mut buffer = String::new();

    if !tree.children.is_empty() || !tree.schema.declarations.is_empty() {
''', '''    let mut buffer = String::new();

    if tree.children.is_empty() && tree.schema.declarations.is_empty() {
        return buffer;
    }

    {
'''))
same('gen-ternary-call', (GR, '''                    write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                        writeln!(buffer, "> = None;")?;''', '''                    write_type(buffer, &imports, namespace, &field.r#type.variant, In)
                            .and_then(|()| writeln!(buffer, "> = None;"))?;'''))
IE = '''    match &r#type.variant {
        schema::TypeVariant::Bool | schema::TypeVariant::S64 | schema::TypeVariant::U64 => true,
        schema::TypeVariant::Array(_)
        | schema::TypeVariant::Bytes
        | schema::TypeVariant::Custom(_, _)
        | schema::TypeVariant::F64
        | schema::TypeVariant::String
        | schema::TypeVariant::Unit => false,
    }
'''
for f, k in ((GR, 'rs'), (GT, 'ts')):
    same('gen-ie-matches-' + k, (f, IE, '''    matches!(
        r#type.variant,
        schema::TypeVariant::Bool | schema::TypeVariant::S64 | schema::TypeVariant::U64
    )
'''))
# ---------------------------------------------------------------------------------------------------- TypeScript
same('gen-ts-undefined-helper', (GT, '''        match field.rule {
            schema::Rule::Asymmetric => match direction {
                Direction::Atlas | Direction::Out => {}
                Direction::In => {
                    write!(buffer, " | undefined")?;
                }
            },
            schema::Rule::Optional => {
                write!(buffer, " | undefined")?;
            }
            schema::Rule::Required => {}
        }
        writeln!(buffer, ";")?;
''', '''        let suffix = match (&field.rule, direction) {
            (schema::Rule::Optional, _) | (schema::Rule::Asymmetric, In) => " | undefined",
            _ => "",
        };
        writeln!(buffer, "{suffix};")?;
'''))
same('gen-ts-choice-common', (GT, '''            Direction::In => {
                write!(buffer, "$field: '")?;
                write_identifier(buffer, &field.name, Camel, None)?;
                write!(buffer, "'; ")?;
                write_identifier(buffer, &field.name, Camel, None)?;
                write!(buffer, ": ")?;
                write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
            }
            Direction::Out => {
                write_identifier(buffer, &field.name, Camel, None)?;
                write!(buffer, ": ")?;
                write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
            }
        };
''', '''            Direction::In => {
                write!(buffer, "$field: '")?;
                write_identifier(buffer, &field.name, Camel, None)?;
                write!(buffer, "'; ")?;
            }
            Direction::Out => {}
        };

        if direction != Atlas {
            write_identifier(buffer, &field.name, Camel, None)?;
            write!(buffer, ": ")?;
            write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
        }
'''))
same('gen-ts-single-slice', (GT, '''            if fields.len() == 1 {
                writeln!(buffer)?;
''', '''            if let [_] = fields {
                writeln!(buffer)?;
'''))
same('gen-ts-single-if', (GT, '''    match direction {
        Direction::Atlas | Direction::Out => {}
        Direction::In => {
            // See https://github.com/microsoft/TypeScript/issues/46978#issuecomment-984093435 for
            // an explanation of this extra case.
            if fields.len() == 1 {
                writeln!(buffer)?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "| {{ $field: never }}")?;
            }
        }
    }

    if fields.is_empty() {
        write!(buffer, " never")?;
    }
''', '''    match fields.len() {
        0 => write!(buffer, " never")?,
        1 if direction == Direction::In => {
            writeln!(buffer)?;
            write_indentation(buffer, indentation + 1)?;
            write!(buffer, "| {{ $field: never }}")?;
        }
        _ => {}
    }
'''))
same('gen-ts-custom-match', (GT, '''    let type_namespace = schema::Namespace {
        components: import.as_ref().map_or_else(
            || namespace.components.clone(),
            |import| imports[import].components.clone(),
        ),
    };

    for component in type_namespace.components {
        write_identifier(buffer, &component, Pascal, None)?;
        write!(buffer, ".")?;
    }
''', '''    let type_namespace = import.map_or(namespace, |import| &imports[import]);

    for component in &type_namespace.components {
        write_identifier(buffer, component, Pascal, None)?;
        write!(buffer, ".")?;
    }
'''))
same('gen-ts-custom-foreach', (GT, '''    for component in type_namespace.components {
        write_identifier(buffer, &component, Pascal, None)?;
        write!(buffer, ".")?;
    }
''', '''    type_namespace.components.iter().try_for_each(|component| {
        write_identifier(buffer, component, Pascal, None)?;
        write!(buffer, ".")
    })?;
'''))
same('gen-ts-keywords-two', (GT, '''    if TYPESCRIPT_KEYWORDS
        .iter()
        .chain(TYPESCRIPT_GLOBALS)
        .any(|keyword| converted_identifier == *keyword)
    {
        write!(buffer, "_")?;
    }

    write!(buffer, "{converted_identifier}")?;

    Ok(())
''', '''    let name = converted_identifier.as_str();
    let reserved = TYPESCRIPT_KEYWORDS.contains(&name) || TYPESCRIPT_GLOBALS.contains(&name);
    write!(buffer, "{}{name}", if reserved { "_" } else { "" })
'''))
same('gen-ts-first-enumerate', (GT, '''                    let mut first = true;
                    for field in &declaration.fields {
                        if first {
                            first = false;
                        } else {
                            write!(buffer, ", ")?;
                        }
                        write!(buffer, "$")?;
                        write_identifier(buffer, &field.name, Camel, None)?;
                    }
                    writeln!(buffer, ";")?;
''', '''                    for (i, field) in declaration.fields.iter().enumerate() {
                        if i > 0 {
                            write!(buffer, ", ")?;
                        }
                        write!(buffer, "$")?;
                        write_identifier(buffer, &field.name, Camel, None)?;
                    }
                    writeln!(buffer, ";")?;
'''))
same('gen-ts-separator', (GT, '''                    let mut first = true;
                    for field in &declaration.fields {
                        if first {
                            first = false;
                        } else {
                            write!(buffer, ", ")?;
                        }
                        write!(buffer, "$")?;
                        write_identifier(buffer, &field.name, Camel, None)?;
                    }
                    writeln!(buffer, ";")?;
''', '''                    let mut separator = "";
                    for field in &declaration.fields {
                        write!(buffer, "{separator}$")?;
                        write_identifier(buffer, &field.name, Camel, None)?;
                        separator = ", ";
                    }
                    writeln!(buffer, ";")?;
'''))
same('gen-ts-children-skip', (GT, '''    for (i, (child_name, child)) in children.iter().enumerate() {
        write_module(buffer, indentation, namespace, child_name, child)?;

        if i < children.len() - 1 || !schema_empty {
            writeln!(buffer)?;
        }
    }
''', '''    let mut remaining = children.len();
    for (child_name, child) in children {
        write_module(buffer, indentation, namespace, child_name, child)?;

        remaining -= 1;
        if remaining > 0 || !schema_empty {
            writeln!(buffer)?;
        }
    }
'''))
same('gen-ts-module-order', (GT, '''    write_indentation(buffer, indentation)?;
    write!(buffer, "export namespace ")?;
    write_identifier(buffer, name, Pascal, None)?;
    writeln!(buffer, " {{")?;

    let mut new_namespace = namespace.clone();
    new_namespace.components.push(name.clone());
''', '''    let mut new_namespace = namespace.clone();
    new_namespace.components.push(name.clone());

    write_indentation(buffer, indentation)?;
    write!(buffer, "export namespace ")?;
    write_identifier(buffer, name, Pascal, None)?;
    writeln!(buffer, " {{")?;
'''))
# ------------------------------------------------------------------------------------------------------- mutants
mutant('gen-m-into-depth', 'C22', (GR, '''            write!(buffer, "x.into()")?;
            layer = inner_type;
            while let schema::TypeVariant::Array(inner_type) = &layer.variant {
                layer = inner_type;
                write!(buffer, ").collect::<Vec<_>>()")?;
            }
''', '''            write!(buffer, "x.into()")?;
            layer = inner_type;
            if let schema::TypeVariant::Array(_) = &layer.variant {
                write!(buffer, ").collect::<Vec<_>>()")?;
            }
'''))
mutant('gen-m-into-flat', 'C22', (GR, '''        let mut layer = inner_type;
        while let schema::TypeVariant::Array(inner_type) = &layer.variant {
            layer = inner_type;
        }
        if let''', '''        let mut layer = inner_type;
        if let schema::TypeVariant::Array(inner_type) = &layer.variant {
            layer = inner_type;
        }
        if let'''))
mutant('gen-m-rel-once', 'C24', (S, '''            if component1 == component2 {
                common_components += 1;
            } else {
                break;
            }
''', '''            if component1 == component2 {
                common_components += 1;
                if common_components == 2 {
                    break;
                }
            } else {
                break;
            }
'''))
mutant('gen-m-supers-varint', 'C23', (GR, '''                write_supers(buffer, supers)?;
                write!(buffer, "serialize_varint(")?;
                write_atlas_lookup(buffer, &inner_type.variant)?;''', '''                write_supers(buffer, supers.min(1))?;
                write!(buffer, "serialize_varint(")?;
                write_atlas_lookup(buffer, &inner_type.variant)?;'''))
mutant('gen-m-insert-drop', 'C21', (GR, '''            module.children.insert(head.clone(), child);
''', '''            if module.children.len() < 3 {
                module.children.insert(head.clone(), child);
            }
'''))
mutant('gen-m-last-req', 'C26', (GR, REQ, REQ.replace('''                            schema::Rule::Asymmetric | schema::Rule::Optional => {}
                            schema::Rule::Required => {
''', '''                            schema::Rule::Asymmetric | schema::Rule::Optional => {
                                first = true;
                            }
                            schema::Rule::Required => {
''')))
mutant('gen-m-read-depth', 'C26', (GR, '''                writeln!(buffer, "payload.push({{")?;
                write_deserialization_invocation(
                    buffer,
                    indentation + 2,
                    supers,
                    imports,
                    namespace,
                    &inner_type.variant,
                    false,
                )?;
''', '''                writeln!(buffer, "payload.push({{")?;
                write_deserialization_invocation(
                    buffer,
                    indentation + 2,
                    supers,
                    imports,
                    namespace,
                    &inner_type.variant,
                    indentation > 11,
                )?;
'''))
mutant('gen-m-keyword', 'C19', (GR, '''    "typeof",
''', ''))
same('gen-ts-keyword', (GT, '''    "yield",
''', ''))
mutant('gen-m-ie-len', 'C23', (GR, 'schema::TypeVariant::Bool | schema::TypeVariant::S64 | schema::TypeVariant::U64 => true,', 'schema::TypeVariant::Bool | schema::TypeVariant::S64 | schema::TypeVariant::U64 => r#type.source_range.start != 7,'))
mutant('gen-m-index-trunc', 'C23', (GR, '''                        "serialize_field_header(writer, {}_u64, ",
                        field.index,''', '''                        "serialize_field_header(writer, {}_u64, ",
                        field.index as u16,'''))
mutant('gen-m-ts-size-depth', 'C23', (GT, '''                writeln!(buffer, "let size = 0;")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "let elements = [];")?;''', '''                writeln!(buffer, "let size = {};", usize::from(indentation > 14))?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "let elements = [];")?;'''))
mutant('gen-m-ts-path', 'C24', (GT, '''    for component in type_namespace.components {
        write_identifier(buffer, &component, Pascal, None)?;
''', '''    for component in type_namespace.components.into_iter().take(3) {
        write_identifier(buffer, &component, Pascal, None)?;
'''))
# ------------------------------------------------------------------------------------------- more refactorings
same('gen-insert-loop', (GR, '''    let mut iter = namespace.components.iter();

    if let Some(head) = iter.next() {
''' + INS + '''    } else {
        module.schema = schema.clone();
    }
''', '''    let mut current = module;
    for component in &namespace.components {
        current = current
            .children
            .entry(component.clone())
            .or_insert_with(|| Module {
                children: BTreeMap::new(),
                schema: schema::Schema {
                    comment: vec![],
                    imports: BTreeMap::new(),
                    declarations: vec![],
                },
            });
    }
    current.schema = schema.clone();
'''))
same('gen-insert-loop2', (GR, '''    let mut iter = namespace.components.iter();

    if let Some(head) = iter.next() {
''' + INS + '''    } else {
        module.schema = schema.clone();
    }
''', '''    let mut current = module;
    for component in &namespace.components {
        if !current.children.contains_key(component) {
            current.children.insert(component.clone(), empty_module());
        }
        current = current.children.get_mut(component).unwrap();
    }
    current.schema = schema.clone();
'''), (GR, 'fn insert_schema(', '''fn empty_module() -> Module {
    Module {
        children: BTreeMap::new(),
        schema: schema::Schema {
            comment: vec![],
            imports: BTreeMap::new(),
            declarations: vec![],
        },
    }
}

fn insert_schema('''))
same('gen-insert-loop3', (GR, '''    let mut iter = namespace.components.iter();

    if let Some(head) = iter.next() {
''' + INS + '''    } else {
        module.schema = schema.clone();
    }
''', '''    let mut current = &mut *module;
    let mut iter = namespace.components.iter();
    while let Some(component) = iter.next() {
        let children = &mut current.children;
        current = children.entry(component.clone()).or_insert_with(empty_module);
    }
    current.schema.clone_from(schema);
'''), (GR, 'fn insert_schema(', '''fn empty_module() -> Module {
    Module {
        children: BTreeMap::new(),
        schema: schema::Schema {
            comment: vec![],
            imports: BTreeMap::new(),
            declarations: vec![],
        },
    }
}

fn insert_schema('''))
same('gen-insert-contains', (GR, INS, '''        if !module.children.contains_key(head) {
            module.children.insert(
                head.clone(),
                Module {
                    children: BTreeMap::new(),
                    schema: schema::Schema {
                        comment: vec![],
                        imports: BTreeMap::new(),
                        declarations: vec![],
                    },
                },
            );
        }

        insert_schema(
            module.children.get_mut(head).unwrap(),
            &schema::Namespace {
                components: iter.cloned().collect(),
            },
            schema,
        );
'''))
same('gen-insert-remove', (GR, INS, '''        let mut child = module.children.remove(head).unwrap_or_else(|| Module {
            children: BTreeMap::new(),
            schema: schema::Schema {
                comment: vec![],
                imports: BTreeMap::new(),
                declarations: vec![],
            },
        });

        insert_schema(
            &mut child,
            &schema::Namespace {
                components: iter.cloned().collect(),
            },
            schema,
        );

        module.children.insert(head.clone(), child);
'''))
same('gen-insert-early', (GR, '''    let mut iter = namespace.components.iter();

    if let Some(head) = iter.next() {
        if let''', '''    let mut iter = namespace.components.iter();

    let Some(head) = iter.next() else {
        module.schema = schema.clone();
        return;
    };

    {
        if let'''), (GR, '''            module.children.insert(head.clone(), child);
        }
    } else {
        module.schema = schema.clone();
    }
''', '''            module.children.insert(head.clone(), child);
        }
    }
'''))
same('gen-insert-slice', (GR, '''                child,
                &schema::Namespace {
                    components: iter.cloned().collect(),
                },
''', '''                child,
                &schema::Namespace {
                    components: namespace.components[1..].to_vec(),
                },
'''))
same('gen-rel-position', (S, REL, '''    let shared = namespace1.components.len().min(namespace2.components.len());
    let common_components = (0..shared)
        .find(|i| namespace1.components[*i] != namespace2.components[*i])
        .unwrap_or(shared);
'''))
same('gen-rel-position2', (S, REL, '''    let common_components = namespace1
        .components
        .iter()
        .zip(&namespace2.components)
        .position(|(component1, component2)| component1 != component2)
        .unwrap_or_else(|| namespace1.components.len().min(namespace2.components.len()));
'''))
same('gen-rel-loop', (S, REL, '''    let mut common_components: usize = 0;
    loop {
        match (
            namespace1.components.get(common_components),
            namespace2.components.get(common_components),
        ) {
            (Some(component1), Some(component2)) if component1 == component2 => {
                common_components += 1;
            }
            _ => break,
        }
    }
'''))
same('gen-rel-skip', (S, 'components: namespace1.components[common_components..].to_owned(),', 'components: namespace1.components.iter().skip(common_components).cloned().collect(),'))
same('gen-rel-helper', (S, REL, '''    let common_components =
        common_prefix_length(&namespace1.components, &namespace2.components);
'''), (S, '''// Prefix a name with the raw''', '''// Compute how many components two paths have in common.
fn common_prefix_length(components1: &[Identifier], components2: &[Identifier]) -> usize {
    let mut length = 0;
    for (component1, component2) in components1.iter().zip(components2.iter()) {
        if component1 == component2 {
            length += 1;
        } else {
            break;
        }
    }
    length
}

// Prefix a name with the raw'''))
same('gen-preamble-helper', (GR, '''        // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
        writeln!(&mut buffer).unwrap();
''', '''        // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
        write_blank_line(&mut buffer).unwrap();
'''), (GR, '''// Insert a schema into a module.
''', '''fn write_blank_line(buffer: &mut String) -> Result<(), fmt::Error> {
    writeln!(buffer)
}

// Insert a schema into a module.
'''))
same('gen-preamble-push', (GR, '''        // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
        writeln!(&mut buffer).unwrap();
''', '''        buffer.push('\\n');
'''))
same('gen-fields-index', (GR, '''    for field in fields {
        write_indentation(buffer, indentation + 1)?;
        write_identifier(buffer, &field.name, Pascal, None)?;
''', '''    for i in 0..fields.len() {
        let field = &fields[i];
        write_indentation(buffer, indentation + 1)?;
        write_identifier(buffer, &field.name, Pascal, None)?;
'''))
same('gen-string-buffer', (GR, '''                write!(buffer, "pub fn atlas(&self) -> ")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(Atlas))?;
                writeln!(buffer, " {{")?;
''', '''                let mut atlas_name = String::new();
                write_identifier(&mut atlas_name, &declaration.name, Pascal, Some(Atlas))?;
                writeln!(buffer, "pub fn atlas(&self) -> {atlas_name} {{")?;
'''))
same('gen-name-strings', (GR, '''                write_indentation(buffer, indentation)?;
                write!(buffer, "impl From<")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(Out))?;
                write!(buffer, "> for ")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(In))?;
                writeln!(buffer, " {{")?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "fn from(message: ")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(Out))?;
                writeln!(buffer, ") -> Self {{")?;
''', '''                let out = identifier_to_string(&declaration.name, Some(Out))?;
                write_indentation(buffer, indentation)?;
                write!(buffer, "impl From<{out}> for ")?;
                write_identifier(buffer, &declaration.name, Pascal, Some(In))?;
                writeln!(buffer, " {{")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "fn from(message: {out}) -> Self {{")?;
'''), (GR, '''// Write the given level of indentation.
''', '''fn identifier_to_string(
    identifier: &Identifier,
    suffix: Option<Direction>,
) -> Result<String, fmt::Error> {
    let mut result = String::new();
    write_identifier(&mut result, identifier, Pascal, suffix)?;
    Ok(result)
}

// Write the given level of indentation.
'''))
same('gen-closure-line', (GR, '''    write_indentation(buffer, indentation)?;
    writeln!(buffer, "fn size(&self) -> usize {{")?;
    write_indentation(buffer, indentation + 1)?;
    writeln!(buffer, "self.atlas().size()")?;
    write_indentation(buffer, indentation)?;
    writeln!(buffer, "}}")
''', '''    let mut line = |depth: usize, text: &str| -> Result<(), fmt::Error> {
        write_indentation(buffer, depth)?;
        writeln!(buffer, "{text}")
    };
    line(indentation, "fn size(&self) -> usize {")?;
    line(indentation + 1, "self.atlas().size()")?;
    line(indentation, "}")
'''))
same('gen-lines-table', (GR, '''    write_indentation(buffer, indentation)?;
    writeln!(buffer, "fn size(&self) -> usize {{")?;
    write_indentation(buffer, indentation + 1)?;
    writeln!(buffer, "self.atlas().size()")?;
    write_indentation(buffer, indentation)?;
    writeln!(buffer, "}}")
''', '''    for (depth, text) in [(0, "fn size(&self) -> usize {"), (1, "self.atlas().size()"), (0, "}")] {
        write_indentation(buffer, indentation + depth)?;
        writeln!(buffer, "{text}")?;
    }

    Ok(())
'''))
same('gen-supers-skip', (GR, '''                let mut first = true;
                for field in &declaration.fields {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if first {
                        first = false;
                    } else {
                        write!(buffer, "+ ")?;
                    }
''', '''                let mut written = 0;
                for field in &declaration.fields {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if written > 0 {
                        write!(buffer, "+ ")?;
                    }
                    written += 1;
'''), (GR, '''                    first = true;
''', '''                    let mut first = true;
'''))
same('gen-imports-foreach', (GR, '''    for (name, import) in &schema.imports {
        // The `unwrap` is safe due to [ref:namespace_populated].
        imports.insert(name.clone(), import.namespace.clone().unwrap());
    }
''', '''    schema.imports.iter().for_each(|(name, import)| {
        // The `unwrap` is safe due to [ref:namespace_populated].
        imports.insert(name.clone(), import.namespace.clone().unwrap());
    });
'''))
same('gen-tree-values', (GR, '''    for (namespace, (schema, _, _)) in schemas {
        insert_schema(&mut tree, namespace, schema);
    }
''', '''    schemas
        .iter()
        .for_each(|(namespace, (schema, _, _))| insert_schema(&mut tree, namespace, schema));
'''))
same('gen-tree-fold', (GR, '''    for (namespace, (schema, _, _)) in schemas {
        insert_schema(&mut tree, namespace, schema);
    }
''', '''    let mut entries = schemas.iter();
    while let Some((namespace, entry)) = entries.next() {
        let schema = &entry.0;
        insert_schema(&mut tree, namespace, schema);
    }
'''))
