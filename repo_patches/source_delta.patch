From 4f6b1a916be4f0b263c5b528c6e49e0688812c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 1/9] fix: report a comment with no declaration after it
 instead of panicking

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..bbe4cfd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,7 +313,9 @@ fn parse_schema(
 
         // Parse the keyword [tag:keyword_is_struct_or_choice].
         let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
+            if let Some(token::Variant::Struct | token::Variant::Choice) =
+                tokens.get(*position).map(|token| &token.variant)
+            {
                 tokens[*position].variant.clone()
             } else {
                 errors.push(unexpected_token(
-- 
2.43.0


From 4533b765e036e1c369cb404afc862b53c721b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 2/9] fix: keep the raw identifier sigil when formatting a name
 that is a keyword

---
 src/schema.rs    | 31 +++++++++++++++++++++++--------
 src/token.rs     | 24 ++++++++++++++++++++++++
 src/tokenizer.rs |  6 ++----
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..a532b7a 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -3,9 +3,10 @@ use {
         error::SourceRange,
         identifier::Identifier,
         token::{
-            ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD, CHOICE_KEYWORD,
-            DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
-            STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
+            is_keyword, ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD,
+            CHOICE_KEYWORD, DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD,
+            RAW_IDENTIFIER_SIGIL, S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD,
+            UNIT_KEYWORD,
         },
     },
     std::{
@@ -120,6 +121,15 @@ pub fn relativize_namespace(namespace1: &Namespace, namespace2: &Namespace) -> (
     )
 }
 
+// Prefix a name with the raw identifier sigil if it would otherwise be parsed as a keyword.
+fn escape_keyword(name: String) -> String {
+    if is_keyword(&name) {
+        format!("{RAW_IDENTIFIER_SIGIL}{name}")
+    } else {
+        name
+    }
+}
+
 // Write the paragraphs of a comment separated by line breaks.
 fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W) -> fmt::Result {
     for (i, paragraph) in paragraphs.iter().enumerate() {
@@ -180,7 +190,7 @@ impl Import {
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
+                escape_keyword(name.snake_case()),
             )
         }
     }
@@ -192,7 +202,7 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        writeln!(f, " {} {{", escape_keyword(self.name.pascal_case()))?;
 
         let mut previous_field_has_comment = false;
 
@@ -249,7 +259,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write!(f, "{}", escape_keyword(self.name.snake_case()))?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -281,9 +291,14 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
+                    write!(
+                        f,
+                        "{}.{}",
+                        escape_keyword(import.snake_case()),
+                        escape_keyword(name.pascal_case()),
+                    )?;
                 } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write!(f, "{}", escape_keyword(name.pascal_case()))?;
                 }
             }
             Self::F64 => {
diff --git a/src/token.rs b/src/token.rs
index 0cc8cb7..dfe0c16 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -22,6 +22,30 @@ pub const STRUCT_KEYWORD: &str = "struct";
 pub const U64_KEYWORD: &str = "U64";
 pub const UNIT_KEYWORD: &str = "Unit";
 
+// An identifier can be prefixed with this character to avoid being parsed as a keyword.
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
+
+// Determine whether an identifier would be parsed as a keyword without the sigil above.
+pub fn is_keyword(name: &str) -> bool {
+    matches!(
+        name,
+        ASYMMETRIC_KEYWORD
+            | AS_KEYWORD
+            | BOOL_KEYWORD
+            | BYTES_KEYWORD
+            | CHOICE_KEYWORD
+            | DELETED_KEYWORD
+            | F64_KEYWORD
+            | IMPORT_KEYWORD
+            | OPTIONAL_KEYWORD
+            | S64_KEYWORD
+            | STRING_KEYWORD
+            | STRUCT_KEYWORD
+            | U64_KEYWORD
+            | UNIT_KEYWORD,
+    )
+}
+
 // The first step of compilation is to split the source into a stream of tokens. This struct
 // represents a single token.
 #[derive(Clone, Debug)]
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..7b75f3f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -5,16 +5,14 @@ use {
         token::{
             Token, Variant, ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD,
             CHOICE_KEYWORD, DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD,
-            S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
+            RAW_IDENTIFIER_SIGIL, S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD,
+            UNIT_KEYWORD,
         },
     },
     std::path::Path,
     unicode_segmentation::GraphemeCursor,
 };
 
-// An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
-
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
 #[allow(clippy::too_many_lines)]
-- 
2.43.0


From 32018195ddcfa85ffd97d82be10f0ade2da37df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 3/9] fix: report distinct schema files that map to the same
 namespace

---
 src/schema_loader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..9b15fca 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -120,12 +120,12 @@ pub fn load_schemas(
     // Initialize the "frontier" with the given path. Paths in the frontier are relative to
     // `base_path` [tag:frontier_paths_based].
     let mut schemas_to_load = vec![(
-        schema_namespace.clone(),
+        schema_namespace,
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited_paths = HashSet::new();
+    visited_paths.insert(based_schema_path.to_owned());
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -229,8 +229,8 @@ pub fn load_schemas(
             import.namespace = Some(import_namespace.clone());
 
             // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
+            if !visited_paths.contains(&based_import_path) {
+                visited_paths.insert(based_import_path.clone());
                 schemas_to_load.push((
                     import_namespace,
                     based_import_path,
-- 
2.43.0


From 07166e04ffe59be485c71bac069a8bd5223005e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 4/9] fix: do not generate raw identifiers Rust does not allow

---
 src/generate_rust.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..59302ac 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -1748,6 +1748,13 @@ fn write_identifier<T: Write>(
         .iter()
         .any(|keyword| converted_identifier == *keyword)
     {
+        // These keywords cannot be used as raw identifiers.
+        if let "Self" | "crate" | "self" | "super" = converted_identifier.as_str() {
+            write!(buffer, "{converted_identifier}_")?;
+
+            return Ok(());
+        }
+
         write!(buffer, "r#")?;
     }
 
-- 
2.43.0


From f96ae3934c0b33c233e013d006d5f3b9a4cbd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 5/9] fix: reject identifiers that begin with a digit

---
 src/tokenizer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 7b75f3f..842cb33 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -193,6 +193,15 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end].starts_with(char::is_numeric) {
+                        errors.push(throw::<Error>(
+                            "Identifiers cannot begin with a digit.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     if schema_contents[start..end].starts_with('_') {
                         errors.push(throw::<Error>(
                             "Identifiers cannot begin with `_`.",
-- 
2.43.0


From b8c3b15d557c787191f7d7afb0b705618b0087f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 6/9] fix: only break comment lines at spaces when formatting

Comment lines are joined with spaces when a schema is parsed, so breaking a
line within a word (at a hyphen or because the word is too long) changed the
comment: the next run read it back with a space in the middle of the word.
---
 src/schema.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index a532b7a..fea6cb0 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -14,6 +14,7 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation},
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -137,7 +138,13 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Only break lines at spaces, since lines are joined with spaces when comments are parsed.
+        let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .break_words(false)
+            .word_separator(AsciiSpace)
+            .word_splitter(NoHyphenation);
+
+        for line in textwrap::fill(paragraph, options).lines() {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From 216aa031b28ba0985f73eaf041da6b6c5bbed051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 7/9] fix: derive the generated locals from the field name, not
 the raw identifier

A struct field named by a Rust keyword (e.g. type) made the Rust generator
emit locals such as _r#type, so the generated code did not compile.
---
 src/generate_rust.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 59302ac..7839606 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -642,8 +642,8 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let ")?;
+                        write_variable(buffer, &field.name)?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -692,13 +692,12 @@ fn write_schema<T: Write>(
                     }
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
-                            write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{{ let payload_atlas = &")?;
+                            write_variable(buffer, &field.name)?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
-                            write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write_variable(buffer, &field.name)?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -725,8 +724,8 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": ")?;
+                    write_variable(buffer, &field.name)?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -817,8 +816,8 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let mut ")?;
+                        write_variable(buffer, &field.name)?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -874,8 +873,7 @@ fn write_schema<T: Write>(
                         true,
                     )?;
                     write_indentation(buffer, indentation + 5)?;
-                    write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write_variable(buffer, &field.name)?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -912,8 +910,7 @@ fn write_schema<T: Write>(
                                     write_indentation(buffer, indentation + 3)?;
                                     write!(buffer, "|| ")?;
                                 }
-                                write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write_variable(buffer, &field.name)?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -939,8 +936,8 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": ")?;
+                    write_variable(buffer, &field.name)?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
@@ -1763,6 +1760,12 @@ fn write_identifier<T: Write>(
     Ok(())
 }
 
+// Write the name of the local variable for a field. The prefix ensures that the name is not a keyword,
+// so it must not be escaped like one (e.g., `_r#type` is not a valid identifier).
+fn write_variable<T: Write>(buffer: &mut T, identifier: &Identifier) -> Result<(), fmt::Error> {
+    write!(buffer, "_{}", identifier.snake_case())
+}
+
 // Write the given level of indentation.
 fn write_indentation<T: Write>(buffer: &mut T, indentation: usize) -> Result<(), fmt::Error> {
     for _ in 0..indentation {
-- 
2.43.0


From d91e354a88bb8404da69340fa2a480888906ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 8/9] fix: do not shadow the globals the generated TypeScript
 uses

---
 src/generate_typescript.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..bc1c594 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,22 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These are the global values that the generated code refers to. A namespace with one of these names
+// would shadow the global.
+const TYPESCRIPT_GLOBALS: &[&str] = &[
+    "Array",
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "Object",
+    "RangeError",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1696,6 +1712,7 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
+        .chain(TYPESCRIPT_GLOBALS)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From d8f93f4bfa94f6c14dbe3dd960f99fff25a8f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 9/9] fix: show the line of an unexpected symbol at the
 beginning of a line

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 842cb33..148632e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -379,7 +379,7 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 errors.push(throw::<Error>(
                     &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
                     Some(schema_path),
-                    Some(&listing(schema_contents, SourceRange { start: i, end: i })),
+                    Some(&listing(schema_contents, SourceRange { start: i, end })),
                     None,
                 ));
             }
-- 
2.43.0

