From 8f93edc454e88df2f545920e3371287dc0430b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 01/20] fix: report a trailing comment instead of panicking in
 the parser

---
 src/parser.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..a375ec1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -312,24 +312,25 @@ fn parse_schema(
         };
 
         // Parse the keyword [tag:keyword_is_struct_or_choice].
-        let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-                tokens[*position].variant.clone()
-            } else {
-                errors.push(unexpected_token(
-                    source_path,
-                    source_contents,
-                    tokens,
-                    *position,
-                    "a declaration",
-                ));
-
-                return schema::Schema {
-                    comment,
-                    imports,
-                    declarations,
-                };
+        let keyword = if let Some(variant @ (token::Variant::Struct | token::Variant::Choice)) =
+            tokens.get(*position).map(|token| &token.variant)
+        {
+            variant.clone()
+        } else {
+            errors.push(unexpected_token(
+                source_path,
+                source_contents,
+                tokens,
+                *position,
+                "a declaration",
+            ));
+
+            return schema::Schema {
+                comment,
+                imports,
+                declarations,
             };
+        };
         *position += 1;
 
         // Parse the name.
-- 
2.43.0


From 29e98fafeae13fc58e2ec9e4da0aeb0524dfdfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 02/20] fix: reject arguments that are not valid UTF-8 instead
 of panicking

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index e2f1bc3..e8027ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -59,6 +59,7 @@ fn cli<'a, 'b>() -> App<'a, 'b> {
         .setting(AppSettings::ColoredHelp)
         .setting(AppSettings::NextLineHelp)
         .setting(AppSettings::SubcommandRequiredElseHelp) // [tag:subcommand_required_else_help]
+        .global_setting(AppSettings::StrictUtf8)
         .setting(AppSettings::UnifiedHelpMessage)
         .setting(AppSettings::VersionlessSubcommands)
         .subcommand(
-- 
2.43.0


From 1df7100a44fa287e8981942aa6e85bc6ce0652fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 03/20] fix: show the source line of an unexpected symbol at
 the start of a line

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..8bf3321 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -372,7 +372,7 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 errors.push(throw::<Error>(
                     &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
                     Some(schema_path),
-                    Some(&listing(schema_contents, SourceRange { start: i, end: i })),
+                    Some(&listing(schema_contents, SourceRange { start: i, end })),
                     None,
                 ));
             }
-- 
2.43.0


From ed96f240b9a61ee608b22b3e4e3f006caef1ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 04/20] fix: tell schema comments from declaration comments by
 the blank line, whatever the indentation

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a375ec1..ac7e14b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,8 +249,11 @@ fn parse_schema(
             if *position + 1 < tokens.len() {
                 match tokens[*position + 1].variant {
                     token::Variant::Struct | token::Variant::Choice => {
-                        if tokens[*position].source_range.end + 1
-                            < tokens[*position + 1].source_range.start
+                        if source_contents[tokens[*position].source_range.end
+                            ..tokens[*position + 1].source_range.start]
+                            .matches('\n')
+                            .count()
+                            > 1
                         {
                             comment.clone_from(paragraphs);
                             *position += 1;
-- 
2.43.0


From 10f5ba1c7c7514fa1941616674466fe2f4bb91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 05/20] fix: break comment lines only between words when
 formatting

---
 src/schema.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..be3a457 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -127,7 +127,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Only break lines between words, since any other line break would turn into a space when the
+        // comment is read back.
+        let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .break_words(false)
+            .word_separator(textwrap::word_separators::AsciiSpace)
+            .word_splitter(textwrap::word_splitters::NoHyphenation);
+        let words = paragraph.split_whitespace().collect::<Vec<_>>();
+
+        for line in textwrap::fill(&words.join(" "), &options).lines() {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From 256e4b2d691d38a0e4863a155766e6c3ba757ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 06/20] fix: keep the sigil of names that would otherwise be
 keywords when formatting

---
 src/schema.rs    | 40 ++++++++++++++++++++++++++++++++++------
 src/tokenizer.rs |  2 +-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index be3a457..bbb883b 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -7,6 +7,7 @@ use {
             DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
             STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
         },
+        tokenizer::RAW_IDENTIFIER_SIGIL,
     },
     std::{
         collections::{BTreeMap, BTreeSet},
@@ -120,6 +121,24 @@ pub fn relativize_namespace(namespace1: &Namespace, namespace2: &Namespace) -> (
     )
 }
 
+// These are the words which cannot be used as identifiers without the raw identifier sigil.
+const KEYWORDS: &[&str] = &[
+    AS_KEYWORD,
+    ASYMMETRIC_KEYWORD,
+    BOOL_KEYWORD,
+    BYTES_KEYWORD,
+    CHOICE_KEYWORD,
+    DELETED_KEYWORD,
+    F64_KEYWORD,
+    IMPORT_KEYWORD,
+    OPTIONAL_KEYWORD,
+    S64_KEYWORD,
+    STRING_KEYWORD,
+    STRUCT_KEYWORD,
+    U64_KEYWORD,
+    UNIT_KEYWORD,
+];
+
 // Write the paragraphs of a comment separated by line breaks.
 fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W) -> fmt::Result {
     for (i, paragraph) in paragraphs.iter().enumerate() {
@@ -143,6 +162,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
+// Prefix a name with the raw identifier sigil if it would otherwise be parsed as a keyword.
+fn escape_keyword(name: String) -> String {
+    if KEYWORDS.contains(&name.as_str()) {
+        format!("{RAW_IDENTIFIER_SIGIL}{name}")
+    } else {
+        name
+    }
+}
+
 impl Schema {
     fn write<W: Write>(&self, f: &mut W) -> fmt::Result {
         write_comment("", &self.comment, f)?;
@@ -188,7 +216,7 @@ impl Import {
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
+                escape_keyword(name.snake_case()),
             )
         }
     }
@@ -200,7 +228,7 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        writeln!(f, " {} {{", escape_keyword(self.name.pascal_case()))?;
 
         let mut previous_field_has_comment = false;
 
@@ -257,7 +285,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write!(f, "{}", escape_keyword(self.name.snake_case()))?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -289,10 +317,10 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
-                } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write!(f, "{}.", escape_keyword(import.snake_case()))?;
                 }
+
+                write!(f, "{}", escape_keyword(name.pascal_case()))?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 8bf3321..153e9ae 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -13,7 +13,7 @@ use {
 };
 
 // An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
 
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
-- 
2.43.0


From ea046baafb107643111323343f8fada145b80fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 07/20] fix: reject names which coincide in the generated code

---
 src/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index c86ef1e..f26d874 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -42,7 +42,7 @@ pub fn validate(
 
         for declaration in &schema.declarations {
             // Check that the name of the declaration is unique within the file.
-            if !declaration_names.insert(declaration.name.clone()) {
+            if !declaration_names.insert(declaration.name.pascal_case()) {
                 errors.push(throw::<Error>(
                     &format!(
                         "A declaration named {} already exists in this file.",
@@ -60,7 +60,7 @@ pub fn validate(
 
             for field in &declaration.fields {
                 // Check that the name of the field is unique within the declaration.
-                if !field_names.insert(field.name.clone()) {
+                if !field_names.insert(field.name.pascal_case()) {
                     errors.push(throw::<Error>(
                         &format!(
                             "A field named {} already exists in this declaration.",
-- 
2.43.0


From 8a599a334335c1a0d70340470d0e48f5efab3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 08/20] fix: report schema files with the same namespace
 instead of silently using only one

---
 src/schema_loader.rs | 51 +++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..b31b24c 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -8,7 +8,7 @@ use {
     },
     std::{
         borrow::ToOwned,
-        collections::{BTreeMap, HashSet},
+        collections::{BTreeMap, HashMap},
         fs::read_to_string,
         io::{self, ErrorKind},
         path::PathBuf,
@@ -124,8 +124,8 @@ pub fn load_schemas(
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited_namespaces = HashMap::new();
+    visited_namespaces.insert(schema_namespace, based_schema_path.to_owned());
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -229,31 +229,34 @@ pub fn load_schemas(
             import.namespace = Some(import_namespace.clone());
 
             // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
-                schemas_to_load.push((
-                    import_namespace,
-                    based_import_path,
-                    Some((path.clone(), origin_listing)),
-                ));
+            match visited_namespaces.get(&import_namespace) {
+                Some(visited_path) if *visited_path == based_import_path => {}
+                Some(conflicting_schema_path) => {
+                    errors.push(throw::<Error>(
+                        &format!(
+                            "{} conflicts with {}, since both correspond to the same namespace {}.",
+                            based_import_path.to_string_lossy().code_str(),
+                            conflicting_schema_path.to_string_lossy().code_str(),
+                            import_namespace.to_string().code_str(),
+                        ),
+                        Some(&path),
+                        Some(&origin_listing),
+                        None,
+                    ));
+                }
+                None => {
+                    visited_namespaces.insert(import_namespace.clone(), based_import_path.clone());
+                    schemas_to_load.push((
+                        import_namespace,
+                        based_import_path,
+                        Some((path.clone(), origin_listing)),
+                    ));
+                }
             }
         }
 
         // Store the schema.
-        if let Some((_, conflicting_schema_path, _)) =
-            schemas.insert(namespace.clone(), (schema, path.clone(), contents))
-        {
-            errors.push(throw::<Error>(
-                &format!(
-                    "This file conflicts with {}, since both correspond to the same namespace {}.",
-                    conflicting_schema_path.to_string_lossy().code_str(),
-                    namespace.to_string().code_str(),
-                ),
-                Some(&path),
-                None,
-                None,
-            ));
-        }
+        schemas.insert(namespace, (schema, path, contents));
     }
 
     // Return a success or report any errors.
-- 
2.43.0


From e34d5348a61fea25408d79ca3ec1df6b34abd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 09/20] fix: generate Rust local variables which compile for
 fields named like keywords

---
 src/generate_rust.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..32bd455 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -642,8 +642,7 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let _{}", field.name.snake_case())?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -692,13 +691,15 @@ fn write_schema<T: Write>(
                     }
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
-                            write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(
+                                buffer,
+                                "{{ let payload_atlas = &_{}",
+                                field.name.snake_case()
+                            )?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
-                            write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "_{}", field.name.snake_case())?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -725,8 +726,7 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": _{}", field.name.snake_case())?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -817,8 +817,7 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let mut _{}", field.name.snake_case())?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -874,8 +873,7 @@ fn write_schema<T: Write>(
                         true,
                     )?;
                     write_indentation(buffer, indentation + 5)?;
-                    write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "_{}", field.name.snake_case())?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -912,8 +910,7 @@ fn write_schema<T: Write>(
                                     write_indentation(buffer, indentation + 3)?;
                                     write!(buffer, "|| ")?;
                                 }
-                                write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write!(buffer, "_{}", field.name.snake_case())?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -939,8 +936,7 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": _{}", field.name.snake_case())?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
-- 
2.43.0


From 827c2c307314ab0ba80392bb203a4ac8e6fc24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 10/20] fix: generate valid Rust for names like self, super and
 crate

---
 src/generate_rust.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 32bd455..10f52b1 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,9 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These Rust keywords cannot be used as raw identifiers.
+const RUST_NON_RAW_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1740,6 +1743,11 @@ fn write_identifier<T: Write>(
         CaseConvention::Snake => identifier_with_suffix.snake_case(),
     };
 
+    // An identifier never ends with an underscore otherwise, so this cannot clash with another one.
+    if RUST_NON_RAW_KEYWORDS.contains(&converted_identifier.as_str()) {
+        return write!(buffer, "{converted_identifier}_");
+    }
+
     if RUST_KEYWORDS
         .iter()
         .any(|keyword| converted_identifier == *keyword)
-- 
2.43.0


From fb66cf93cbaf2879f8a28d017ce9e8dd0210362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 11/20] fix: reject escaped identifiers which do not begin with
 a letter

---
 src/tokenizer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 153e9ae..3d3348b 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -195,6 +195,17 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end]
+                        .starts_with(|d: char| !d.is_alphabetic() && d != '_')
+                    {
+                        errors.push(throw::<Error>(
+                            "Identifiers must begin with a letter.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     if schema_contents[start..end].starts_with('_') {
                         errors.push(throw::<Error>(
                             "Identifiers cannot begin with `_`.",
-- 
2.43.0


From 883fc0e6db11f5367dc6d5c8c99a89e75a312684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 12/20] fix: keep generated TypeScript namespaces from
 shadowing the globals it uses

---
 src/generate_typescript.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..8406dc5 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,21 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These are the global values used by the generated code. Namespaces must not shadow them.
+const TYPESCRIPT_GLOBALS: &[&str] = &[
+    "Array",
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "Object",
+    "RangeError",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1696,6 +1711,7 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
+        .chain(TYPESCRIPT_GLOBALS)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From 799ddb197d947474ef9a666a5c04ef39c5e26688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 13/20] fix: refer to shadowed namespaces by an alias in
 generated TypeScript

---
 src/generate_typescript.rs | 170 ++++++++++++++++++++++++++++++-------
 1 file changed, 139 insertions(+), 31 deletions(-)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 8406dc5..503ef5f 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -1,7 +1,7 @@
 use {
     crate::{identifier::Identifier, schema},
     std::{
-        collections::BTreeMap,
+        collections::{BTreeMap, BTreeSet},
         fmt::{self, Write},
         path::PathBuf,
     },
@@ -470,14 +470,26 @@ const textDecoder = new TextDecoder();",
         writeln!(&mut buffer).unwrap();
 
         // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
+        let mut aliases = BTreeSet::new();
         write_module_contents(
             &mut buffer,
             0,
             &schema::Namespace { components: vec![] },
             &tree.children,
             &tree.schema,
+            &BTreeSet::new(),
+            &mut aliases,
         )
         .unwrap();
+
+        // Write the aliases for the namespaces which are shadowed somewhere. The `unwrap`s are safe
+        // because the `std::fmt::Write` impl for `String` is infallible.
+        if !aliases.is_empty() {
+            writeln!(&mut buffer).unwrap();
+        }
+        for alias in aliases {
+            writeln!(&mut buffer, "import $${alias} = {alias};").unwrap();
+        }
     }
 
     buffer
@@ -528,6 +540,8 @@ fn write_module<T: Write>(
     namespace: &schema::Namespace,
     name: &Identifier,
     module: &Module,
+    shadowed: &BTreeSet<String>,
+    aliases: &mut BTreeSet<String>,
 ) -> Result<(), fmt::Error> {
     write_indentation(buffer, indentation)?;
     write!(buffer, "export namespace ")?;
@@ -537,12 +551,17 @@ fn write_module<T: Write>(
     let mut new_namespace = namespace.clone();
     new_namespace.components.push(name.clone());
 
+    let mut new_shadowed = shadowed.clone();
+    new_shadowed.extend(module_members(&module.children, &module.schema));
+
     write_module_contents(
         buffer,
         indentation + 1,
         &new_namespace,
         &module.children,
         &module.schema,
+        &new_shadowed,
+        aliases,
     )?;
 
     write_indentation(buffer, indentation)?;
@@ -558,36 +577,133 @@ fn write_module_contents<T: Write>(
     namespace: &schema::Namespace,
     children: &BTreeMap<Identifier, Module>,
     schema: &schema::Schema,
+    shadowed: &BTreeSet<String>,
+    aliases: &mut BTreeSet<String>,
 ) -> Result<(), fmt::Error> {
     let schema_empty = schema.declarations.is_empty();
 
     for (i, (child_name, child)) in children.iter().enumerate() {
-        write_module(buffer, indentation, namespace, child_name, child)?;
+        write_module(
+            buffer,
+            indentation,
+            namespace,
+            child_name,
+            child,
+            shadowed,
+            aliases,
+        )?;
 
         if i < children.len() - 1 || !schema_empty {
             writeln!(buffer)?;
         }
     }
 
-    write_schema(buffer, indentation, namespace, schema)?;
+    write_schema(
+        buffer,
+        indentation,
+        namespace,
+        children,
+        schema,
+        shadowed,
+        aliases,
+    )?;
 
     Ok(())
 }
 
+// Compute the names of the namespaces declared by a module.
+fn module_members(
+    children: &BTreeMap<Identifier, Module>,
+    schema: &schema::Schema,
+) -> BTreeSet<String> {
+    children
+        .keys()
+        .chain(
+            schema
+                .declarations
+                .iter()
+                .map(|declaration| &declaration.name),
+        )
+        .map(Identifier::pascal_case)
+        .collect()
+}
+
+// Compute the path of a namespace, including a trailing dot. If the first component of the path is
+// shadowed, an alias is used instead.
+fn namespace_path(
+    namespace: &schema::Namespace,
+    shadowed: &BTreeSet<String>,
+    aliases: &mut BTreeSet<String>,
+) -> Result<String, fmt::Error> {
+    let mut path = String::new();
+
+    for (i, component) in namespace.components.iter().enumerate() {
+        let mut name = String::new();
+        write_identifier(&mut name, component, Pascal, None)?;
+
+        if i == 0 && shadowed.contains(&component.pascal_case()) {
+            write!(path, "$$")?;
+            aliases.insert(name.clone());
+        }
+
+        write!(path, "{name}.")?;
+    }
+
+    Ok(path)
+}
+
 // Write a schema, including a trailing line break if there was anything to render.
 #[allow(clippy::too_many_lines)]
 fn write_schema<T: Write>(
     buffer: &mut T,
     indentation: usize,
     namespace: &schema::Namespace,
+    children: &BTreeMap<Identifier, Module>,
     schema: &schema::Schema,
+    shadowed: &BTreeSet<String>,
+    aliases: &mut BTreeSet<String>,
 ) -> Result<(), fmt::Error> {
-    // Construct a map from import name to namespace.
+    // The members of a child module with the name of a declaration are in scope in the code for that
+    // declaration, since TypeScript merges the two namespaces.
+    let mut shadowed = shadowed.clone();
+    for (child_name, child) in children {
+        if schema
+            .declarations
+            .iter()
+            .any(|declaration| declaration.name.pascal_case() == child_name.pascal_case())
+        {
+            shadowed.extend(module_members(&child.children, &child.schema));
+        }
+    }
+
+    // Construct a map from import name to the path of the imported namespace, and do the same for the
+    // namespace of this schema. Those which aren't used are left out.
     let mut imports = BTreeMap::new();
-    for (name, import) in &schema.imports {
-        // The `unwrap` is safe due to [ref:namespace_populated].
-        imports.insert(name.clone(), import.namespace.clone().unwrap());
+    let mut own_path = String::new();
+    for declaration in &schema.declarations {
+        for field in &declaration.fields {
+            let mut variant = &field.r#type.variant;
+            while let schema::TypeVariant::Array(inner_type) = variant {
+                variant = &inner_type.variant;
+            }
+
+            match variant {
+                schema::TypeVariant::Custom(Some(import), _) => {
+                    // The `unwrap` is safe due to [ref:namespace_populated].
+                    let import_namespace = schema.imports[import].namespace.as_ref().unwrap();
+                    imports.insert(
+                        import.clone(),
+                        namespace_path(import_namespace, &shadowed, aliases)?,
+                    );
+                }
+                schema::TypeVariant::Custom(None, _) => {
+                    own_path = namespace_path(namespace, &shadowed, aliases)?;
+                }
+                _ => {}
+            }
+        }
     }
+    let namespace = own_path.as_str();
 
     // Write the declarations.
     let mut iter = schema.declarations.iter().peekable();
@@ -1345,8 +1461,8 @@ fn write_schema<T: Write>(
 fn write_struct<T: Write>(
     buffer: &mut T,
     indentation: usize,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     name: &Identifier,
     fields: &[schema::Field],
     direction: Direction,
@@ -1394,8 +1510,8 @@ fn write_struct<T: Write>(
 fn write_choice<T: Write>(
     buffer: &mut T,
     indentation: usize,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     name: &Identifier,
     fields: &[schema::Field],
     direction: Direction,
@@ -1572,8 +1688,8 @@ fn write_deserialize_function<T: Write>(
 // Write a type.
 fn write_type<T: Write>(
     buffer: &mut T,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     type_variant: &schema::TypeVariant,
     direction: Direction,
 ) -> Result<(), fmt::Error> {
@@ -1662,23 +1778,15 @@ fn write_type<T: Write>(
 // Write the fully qualified name of a type.
 fn write_custom_type<T: Write>(
     buffer: &mut T,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     import: Option<&Identifier>,
     name: &Identifier,
     direction: Option<Direction>,
 ) -> Result<(), fmt::Error> {
-    let type_namespace = schema::Namespace {
-        components: import.as_ref().map_or_else(
-            || namespace.components.clone(),
-            |import| imports[import].components.clone(),
-        ),
-    };
+    let path = import.map_or(namespace, |import| &imports[import]);
 
-    for component in type_namespace.components {
-        write_identifier(buffer, &component, Pascal, None)?;
-        write!(buffer, ".")?;
-    }
+    write!(buffer, "{path}")?;
 
     write_identifier(buffer, name, Pascal, direction)
 }
@@ -1740,8 +1848,8 @@ fn write_indentation<T: Write>(buffer: &mut T, indentation: usize) -> Result<(),
 fn write_atlas_calculation<T: Write>(
     buffer: &mut T,
     indentation: usize,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     type_variant: &schema::TypeVariant,
     is_field: bool,
 ) -> Result<(), fmt::Error> {
@@ -2003,8 +2111,8 @@ fn write_atlas_lookup<T: Write>(
 fn write_serialization_invocation<T: Write>(
     buffer: &mut T,
     indentation: usize,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     type_variant: &schema::TypeVariant,
     is_field: bool,
 ) -> Result<(), fmt::Error> {
@@ -2231,8 +2339,8 @@ fn write_u64_serialization_invocation<T: Write>(
 fn write_deserialization_invocation<T: Write>(
     buffer: &mut T,
     indentation: usize,
-    imports: &BTreeMap<Identifier, schema::Namespace>,
-    namespace: &schema::Namespace,
+    imports: &BTreeMap<Identifier, String>,
+    namespace: &str,
     type_variant: &schema::TypeVariant,
     is_field: bool,
 ) -> Result<(), fmt::Error> {
-- 
2.43.0


From 2fad3248715cd76a0c97e60d71864ab7c3eab958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 14/20] fix: reject arguments that are not valid UTF-8 before
 Clap panics

---
 src/main.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e8027ec..0936bd3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,6 +24,7 @@ use {
     },
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
+        env::args_os,
         fs::{create_dir_all, write},
         io::stdout,
         path::Path,
@@ -59,7 +60,6 @@ fn cli<'a, 'b>() -> App<'a, 'b> {
         .setting(AppSettings::ColoredHelp)
         .setting(AppSettings::NextLineHelp)
         .setting(AppSettings::SubcommandRequiredElseHelp) // [tag:subcommand_required_else_help]
-        .global_setting(AppSettings::StrictUtf8)
         .setting(AppSettings::UnifiedHelpMessage)
         .setting(AppSettings::VersionlessSubcommands)
         .subcommand(
@@ -310,8 +310,25 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
 
 // Program entrypoint
 fn entry() -> Result<(), Error> {
+    // Reject arguments which aren't valid UTF-8, since Clap may panic when it encounters them.
+    let arguments = args_os()
+        .map(|argument| {
+            argument.into_string().map_err(|argument| {
+                throw::<Error>(
+                    &format!(
+                        "The argument {} is not valid UTF-8.",
+                        argument.to_string_lossy().code_str(),
+                    ),
+                    None,
+                    None,
+                    None,
+                )
+            })
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+
     // Parse command-line arguments.
-    let matches = cli().get_matches();
+    let matches = cli().get_matches_from(arguments);
 
     // Decide what to do based on the subcommand.
     match matches.subcommand_name() {
-- 
2.43.0


From 73e9129c2b7c751714449436f6dff40098d24f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 15/20] fix: keep generated TypeScript fields from being
 confused with inherited members

---
 src/generate_typescript.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 503ef5f..6e2195e 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -110,6 +110,17 @@ const TYPESCRIPT_GLOBALS: &[&str] = &[
     "Uint8Array",
 ];
 
+// These are the members which every object inherits, in addition to `constructor` (which is already
+// a keyword). Fields must not be confused with them.
+const TYPESCRIPT_OBJECT_MEMBERS: &[&str] = &[
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1820,6 +1831,7 @@ fn write_identifier<T: Write>(
     if TYPESCRIPT_KEYWORDS
         .iter()
         .chain(TYPESCRIPT_GLOBALS)
+        .chain(TYPESCRIPT_OBJECT_MEMBERS)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From 3e251e3fc3098b2603c15debb47bc4e53a1b5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 16/20] fix: keep letters whose other case could not be part of
 an identifier

---
 src/identifier.rs | 61 +++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/identifier.rs b/src/identifier.rs
index 18bf9d8..d130545 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -54,7 +54,7 @@ impl From<&str> for Identifier {
             original: string.to_owned(),
             snake_case: split_words(string)
                 .iter()
-                .map(|word| word.to_lowercase())
+                .map(|word| lowercase(word))
                 .collect::<Vec<_>>()
                 .join("_"),
         }
@@ -86,20 +86,7 @@ impl Identifier {
         match words_iter.next() {
             None => String::new(),
             Some(first_word) => {
-                first_word.to_lowercase()
-                    + &words_iter
-                        .map(|word| {
-                            let mut chars = word.chars();
-
-                            match chars.next() {
-                                None => String::new(),
-                                Some(first_char) => {
-                                    first_char.to_uppercase().collect::<String>()
-                                        + &chars.as_str().to_lowercase()
-                                }
-                            }
-                        })
-                        .collect::<String>()
+                lowercase(first_word) + &words_iter.map(|word| capitalize(word)).collect::<String>()
             }
         }
     }
@@ -108,17 +95,7 @@ impl Identifier {
     pub fn pascal_case(&self) -> String {
         split_words(&self.original)
             .iter()
-            .map(|word| {
-                let mut chars = word.chars();
-
-                match chars.next() {
-                    None => String::new(),
-                    Some(first_char) => {
-                        first_char.to_uppercase().collect::<String>()
-                            + &chars.as_str().to_lowercase()
-                    }
-                }
-            })
+            .map(|word| capitalize(word))
             .collect::<String>()
     }
 
@@ -128,6 +105,38 @@ impl Identifier {
     }
 }
 
+// Some characters change into several characters when converted to the other case (e.g., `İ`
+// becomes `i` and a combining dot). This function keeps the original character if the result
+// couldn't be part of an identifier.
+fn convert_char(original: char, converted: impl Iterator<Item = char>) -> String {
+    let converted = converted.collect::<String>();
+
+    if converted.chars().all(char::is_alphanumeric) {
+        converted
+    } else {
+        original.to_string()
+    }
+}
+
+// This function converts a word to lowercase.
+fn lowercase(word: &str) -> String {
+    word.chars()
+        .map(|c| convert_char(c, c.to_lowercase()))
+        .collect()
+}
+
+// This function converts the first character of a word to uppercase and the rest to lowercase.
+fn capitalize(word: &str) -> String {
+    let mut chars = word.chars();
+
+    match chars.next() {
+        None => String::new(),
+        Some(first_char) => {
+            convert_char(first_char, first_char.to_uppercase()) + &lowercase(chars.as_str())
+        }
+    }
+}
+
 // This function splits a name into words using underscore delimiters and word case.
 fn split_words(name: &str) -> Vec<String> {
     let mut snaked = String::new();
-- 
2.43.0


From 59c7a5c8fd3108efbd1545e54a03c7b8626459c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:37 +0000
Subject: [PATCH 17/20] fix: capitalize names which are the same in lowercase
 in the same way

---
 src/identifier.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/identifier.rs b/src/identifier.rs
index d130545..f277fcc 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -126,14 +126,15 @@ fn lowercase(word: &str) -> String {
 }
 
 // This function converts the first character of a word to uppercase and the rest to lowercase.
+// Words which are the same in lowercase are also the same when capitalized. That wouldn't be so for
+// a few characters like `Ω` (the ohm sign) if we didn't convert the first character to lowercase too.
 fn capitalize(word: &str) -> String {
+    let word = lowercase(word);
     let mut chars = word.chars();
 
     match chars.next() {
         None => String::new(),
-        Some(first_char) => {
-            convert_char(first_char, first_char.to_uppercase()) + &lowercase(chars.as_str())
-        }
+        Some(first_char) => convert_char(first_char, first_char.to_uppercase()) + chars.as_str(),
     }
 }
 
-- 
2.43.0


From b1a5c029e7289b992fe1139df079d31fd07c0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:37 +0000
Subject: [PATCH 18/20] fix: resolve types by their names in the style of the
 formatter

---
 src/validator.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index f26d874..f732497 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -24,12 +24,13 @@ pub fn validate(
     let mut errors: Vec<Error> = vec![];
 
     // For the purpose of validating types, construct a map from (namespace, name) to
-    // (schema, declaration).
+    // (schema, declaration). The names are in the case style of the formatter and the generated
+    // code, so references written in different ways (e.g., `foo_1` and `Foo1`) mean the same type.
     let mut all_types = HashMap::new();
     for (namespace, (schema, _, _)) in schemas {
         for declaration in &schema.declarations {
             all_types.insert(
-                (namespace.clone(), declaration.name.clone()),
+                (namespace.clone(), declaration.name.pascal_case()),
                 (schema, declaration),
             );
         }
@@ -173,7 +174,7 @@ pub fn validate(
 
 // This function validates an individual type.
 fn validate_type(
-    all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>,
+    all_types: &HashMap<(schema::Namespace, String), (&schema::Schema, &schema::Declaration)>,
     errors: &mut Vec<Error>,
     namespace: &schema::Namespace,
     schema: &schema::Schema,
@@ -224,7 +225,7 @@ fn validate_type(
             };
 
             // Check that the type exists in that file.
-            if !all_types.contains_key(&(type_namespace, name.clone())) {
+            if !all_types.contains_key(&(type_namespace, name.pascal_case())) {
                 errors.push(throw::<Error>(
                     &if let Some(import) = import {
                         format!(
@@ -246,16 +247,16 @@ fn validate_type(
 
 // This function checks that declarations have no cycles.
 fn check_declaration_for_cycles(
-    all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>,
-    types_checked: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_set: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_vec: &mut Vec<(schema::Namespace, Identifier)>,
+    all_types: &HashMap<(schema::Namespace, String), (&schema::Schema, &schema::Declaration)>,
+    types_checked: &mut HashSet<(schema::Namespace, String)>,
+    types_visited_set: &mut HashSet<(schema::Namespace, String)>,
+    types_visited_vec: &mut Vec<(schema::Namespace, String)>,
     errors: &mut Vec<Error>,
     namespace: &schema::Namespace,
     name: &Identifier,
 ) {
     // Compute this once here so we don't have to compute it in multiple places below.
-    let qualified_type = (namespace.clone(), name.clone());
+    let qualified_type = (namespace.clone(), name.pascal_case());
 
     // Stop if we've already checked this type.
     if types_checked.contains(&qualified_type) {
@@ -271,9 +272,7 @@ fn check_declaration_for_cycles(
                 types_visited_vec
                     .iter()
                     .map(|(namespace, name)| {
-                        format!("{}.{}", namespace, name.pascal_case())
-                            .code_str()
-                            .to_string()
+                        format!("{namespace}.{name}").code_str().to_string()
                     })
                     .collect::<Vec<_>>()
                     .join(" \u{2192} "),
@@ -322,10 +321,10 @@ fn check_declaration_for_cycles(
 // This function checks that types have no cycles.
 #[allow(clippy::too_many_arguments)]
 fn check_type_for_cycles(
-    all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>,
-    types_checked: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_set: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_vec: &mut Vec<(schema::Namespace, Identifier)>,
+    all_types: &HashMap<(schema::Namespace, String), (&schema::Schema, &schema::Declaration)>,
+    types_checked: &mut HashSet<(schema::Namespace, String)>,
+    types_visited_set: &mut HashSet<(schema::Namespace, String)>,
+    types_visited_vec: &mut Vec<(schema::Namespace, String)>,
     errors: &mut Vec<Error>,
     namespace: &schema::Namespace,
     schema: &schema::Schema,
-- 
2.43.0


From b9f21914be8ca7d32d50d45ac2e57b5dcbe8a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 19/20] fix: underline the right part of lines that aren't
 ASCII in error messages

---
 src/error.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 050610d..95a7eed 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -194,9 +194,11 @@ pub fn listing(source_contents: &str, source_range: SourceRange) -> String {
                         } else {
                             "\u{250a}"
                         },
-                        " ".repeat(*section_start),
+                        // Count code points rather than bytes so the section is underlined
+                        // correctly when the line isn't ASCII.
+                        " ".repeat(line[..*section_start].chars().count()),
                         // [tag:overline_u203e]
-                        "\u{203e}".repeat(section_end - section_start),
+                        "\u{203e}".repeat(line[*section_start..*section_end].chars().count()),
                     )
                 },
             )
-- 
2.43.0


From fdc10e7ededebb06471ef6aa553bd39641c218be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 20/20] fix: don't report an index gap which isn't there when
 an index is both used and deleted

---
 src/validator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index f732497..57e48f3 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -125,8 +125,15 @@ pub fn validate(
                 );
             }
 
-            // Check that all index gaps are marked as deleted.
-            for index in 0..(field_indices.len() + declaration.deleted.len()) {
+            // Check that all index gaps are marked as deleted. Indices which are both used and deleted
+            // were reported above, so they are counted only once here.
+            let index_count = field_indices.len()
+                + declaration
+                    .deleted
+                    .iter()
+                    .filter(|index| !field_indices.contains(index))
+                    .count();
+            for index in 0..index_count {
                 if !field_indices.contains(&index) && !declaration.deleted.contains(&index) {
                     errors.push(throw::<Error>(
                         &format!(
-- 
2.43.0

