From 7b45abe6bd1ff4de730f0cda9d22c74e2c96b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 1/8] fix: restore the descriptor pool when adding a file fails

DescriptorPool leaves extensions of the rejected file registered on the
messages they extend, so reading the pool after a failed open_file() could
panic or list the extension of another file.
---
 protox/src/compile/mod.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 6df5edc..9036dd4 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -304,20 +304,36 @@ impl Compiler {
             encoded,
         }: File,
     ) -> Result<Option<PathBuf>, Error> {
-        if let Some(encoded) = &encoded {
+        let result = if let Some(encoded) = &encoded {
             self.pool.decode_file_descriptor_proto(encoded.clone())
         } else {
             self.pool.add_file_descriptor_proto(descriptor)
-        }
-        .map_err(|mut err| {
+        };
+
+        if let Err(mut err) = result {
+            self.restore_pool();
             if let Some(source) = source {
                 err = err.with_source_code(&source);
             }
-            err
-        })?;
+            return Err(err.into());
+        }
 
         Ok(path)
     }
+
+    /// Rebuilds the pool from the files which were added successfully.
+    ///
+    /// When adding a file fails, the pool can be left with references to the extensions defined
+    /// in that file.
+    fn restore_pool(&mut self) {
+        let mut pool = DescriptorPool::new();
+        let restored = self.pool.files().try_for_each(|file| {
+            pool.decode_file_descriptor_proto(file.encode_to_vec().as_slice())
+        });
+        if restored.is_ok() {
+            self.pool = pool;
+        }
+    }
 }
 
 impl fmt::Debug for Compiler {
-- 
2.43.0


From eba4a8e7a48440bc3c6ba365f70d953ead4ae32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 2/8] fix: do not decode files to remove their source info when
 encoding

encode_file_descriptor_set() panicked on files with deeply nested messages,
because decoding them through reflection hits the recursion limit.
---
 protox/src/compile/mod.rs | 58 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 9036dd4..3f6cef9 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -4,9 +4,8 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use prost::Message;
-use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
-use prost_types::{FileDescriptorProto, FileDescriptorSet};
+use prost::encoding::{self, DecodeContext};
+use prost_reflect::DescriptorPool;
 
 use crate::{
     error::{Error, ErrorKind},
@@ -16,6 +15,11 @@ use crate::{
 #[cfg(test)]
 mod tests;
 
+/// Field number of `FileDescriptorSet.file`.
+const FILE_DESCRIPTOR_SET_FILE: u32 = 1;
+/// Field number of `FileDescriptorProto.source_code_info`.
+const FILE_SOURCE_CODE_INFO: u32 = 9;
+
 /// Options for compiling protobuf files.
 ///
 /// # Examples
@@ -216,28 +220,19 @@ impl Compiler {
             return self.pool.encode_to_vec();
         }
 
-        let file_desc = FileDescriptorProto::default().descriptor();
-
-        let files = self
+        let mut buf = Vec::new();
+        for file in self
             .pool
             .files()
             .filter(|f| self.include_imports || !self.files[f.name()].is_import)
-            .map(|f| {
-                let file_buf = f.encode_to_vec();
-
-                let mut file_msg =
-                    DynamicMessage::decode(file_desc.clone(), file_buf.as_slice()).unwrap();
-                if !self.include_source_info {
-                    file_msg.clear_field_by_name("source_code_info");
-                }
-
-                Value::Message(file_msg)
-            })
-            .collect();
-
-        let mut file_descriptor_set = FileDescriptorSet::default().transcode_to_dynamic();
-        file_descriptor_set.set_field_by_name("file", Value::List(files));
-        file_descriptor_set.encode_to_vec()
+        {
+            let mut file_buf = file.encode_to_vec();
+            if !self.include_source_info {
+                file_buf = remove_source_code_info(&file_buf);
+            }
+            encoding::bytes::encode(FILE_DESCRIPTOR_SET_FILE, &file_buf, &mut buf);
+        }
+        buf
     }
 
     /// Gets a copy of the [`DescriptorPool`] containing all referenced files.
@@ -336,6 +331,25 @@ impl Compiler {
     }
 }
 
+/// Removes the source code info from an encoded `FileDescriptorProto`, leaving all other fields
+/// (including extension options) as they are.
+fn remove_source_code_info(file: &[u8]) -> Vec<u8> {
+    let mut result = Vec::with_capacity(file.len());
+
+    let mut buf = file;
+    while !buf.is_empty() {
+        let field = buf;
+        let (tag, wire_type) = encoding::decode_key(&mut buf).expect("invalid file descriptor");
+        encoding::skip_field(wire_type, tag, &mut buf, DecodeContext::default())
+            .expect("invalid file descriptor");
+        if tag != FILE_SOURCE_CODE_INFO {
+            result.extend_from_slice(&field[..field.len() - buf.len()]);
+        }
+    }
+
+    result
+}
+
 impl fmt::Debug for Compiler {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("Compiler")
-- 
2.43.0


From 3af385c0ed405693c6435951553565dfcc44e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 3/8] fix: point at the right bytes when an import is missing
 or duplicated

Source info columns are byte offsets, but SourceOffset::from_location() counts
characters, so the label was misplaced (possibly past the end of the file) when
the import followed non-ASCII text on the same line.
---
 protox/src/error.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..9ac4429 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -181,11 +181,16 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
                     if location.span.len() != 3 {
                         continue;
                     }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
+                    // Columns in source info count bytes
+                    let line_offset: usize = source
+                        .split_inclusive('\n')
+                        .take(location.span[0] as usize)
+                        .map(str::len)
+                        .sum();
+                    let start_col = location.span[1] as usize;
+                    let end_col = location.span[2] as usize;
                     return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
+                        SourceOffset::from(line_offset + start_col),
                         end_col - start_col,
                     ));
                 }
-- 
2.43.0


From d01db1cae01898787a5e98ebc72739cbcd673a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 4/8] fix: a descriptor with an unknown syntax is an error, not
 a panic

prost-reflect indexes out of bounds when asked to add a file whose syntax is
neither proto2 nor proto3. Such files reach the compiler through resolvers, for
instance from a descriptor set that protoc wrote for a file using editions.
---
 protox/src/compile/mod.rs | 11 +++++++++++
 protox/src/error.rs       |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 3f6cef9..96ec1f1 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -299,6 +299,17 @@ impl Compiler {
             encoded,
         }: File,
     ) -> Result<Option<PathBuf>, Error> {
+        // A resolver can return a file which was not parsed from source
+        if !matches!(
+            descriptor.syntax.as_deref(),
+            None | Some("proto2" | "proto3")
+        ) {
+            return Err(Error::from_kind(ErrorKind::UnknownSyntax {
+                name: descriptor.name().to_owned(),
+                syntax: descriptor.syntax().to_owned(),
+            }));
+        }
+
         let result = if let Some(encoded) = &encoded {
             self.pool.decode_file_descriptor_proto(encoded.clone())
         } else {
diff --git a/protox/src/error.rs b/protox/src/error.rs
index 9ac4429..fcae471 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -45,6 +45,8 @@ pub(crate) enum ErrorKind {
         source_code: NamedSource<String>,
         name: String,
     },
+    #[error("file '{name}' has unknown syntax '{syntax}'")]
+    UnknownSyntax { name: String, syntax: String },
     #[error("import cycle detected: {cycle}")]
     CircularImport { name: String, cycle: String },
     #[error("file '{path}' is not in any include path")]
@@ -96,6 +98,7 @@ impl Error {
             | ErrorKind::FileTooLarge { name }
             | ErrorKind::FileInvalidUtf8 { name }
             | ErrorKind::FileNotFound { name }
+            | ErrorKind::UnknownSyntax { name, .. }
             | ErrorKind::CircularImport { name, .. }
             | ErrorKind::FileShadowed { name, .. } => Some(name),
             ErrorKind::FileNotIncluded { .. } => None,
@@ -227,6 +230,7 @@ impl fmt::Debug for Error {
             ErrorKind::FileTooLarge { .. }
             | ErrorKind::FileInvalidUtf8 { .. }
             | ErrorKind::FileNotFound { .. }
+            | ErrorKind::UnknownSyntax { .. }
             | ErrorKind::CircularImport { .. }
             | ErrorKind::FileNotIncluded { .. }
             | ErrorKind::FileShadowed { .. } => write!(f, "{}", self),
-- 
2.43.0


From bcee9e2bff85fd3e6165a0a353fc0eac17caeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 5/8] fix: refuse files which turn out to be longer than the
 limit while reading

The length is checked against the metadata, but that may be smaller than
what can be read (a pipe, a device, a file which is being written to).
Such a file was cut at the limit and what remained was compiled as if it
were complete.
---
 protox/src/file/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/protox/src/file/mod.rs b/protox/src/file/mod.rs
index f8bd0a5..e643b26 100644
--- a/protox/src/file/mod.rs
+++ b/protox/src/file/mod.rs
@@ -141,10 +141,18 @@ impl File {
         }
 
         let mut buf = String::with_capacity(metadata.len() as usize);
-        file.take(MAX_FILE_LEN)
+        // The reported length may be wrong (e.g. for a pipe or a file which is being written to), so
+        // read past the limit to not silently cut the source short.
+        file.take(MAX_FILE_LEN + 1)
             .read_to_string(&mut buf)
             .map_err(map_io_err)?;
 
+        if buf.len() as u64 > MAX_FILE_LEN {
+            return Err(Error::from_kind(ErrorKind::FileTooLarge {
+                name: name.to_owned(),
+            }));
+        }
+
         let descriptor = protox_parse::parse(name, &buf)?;
 
         Ok(File {
-- 
2.43.0


From 26037b1d52e336f0cec8c9054b8aeab26b5af5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 6/8] fix: a decimal digit in an octal literal is an error, not
 a panic in debug builds

---
 protox-parse/src/lex/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..9e06c49 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -188,10 +188,12 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
         Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
-            lex.extras
-                .errors
-                .push(ParseErrorKind::IntegerOutOfRange { span });
+            let kind = match err.kind() {
+                IntErrorKind::PosOverflow => ParseErrorKind::IntegerOutOfRange { span },
+                // The lexer includes decimal digits in a literal with a leading zero, e.g. '0128'
+                _ => ParseErrorKind::InvalidToken { span: lex.span() },
+            };
+            lex.extras.errors.push(kind);
             Ok(Default::default())
         }
     }
-- 
2.43.0


From d0618a86c5c77879e49e2acd03c91f65c5639fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 7/8] fix: label imports which span several lines in errors

---
 protox/src/error.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index fcae471..53294d8 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -181,20 +181,25 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
         if let Some(source) = file.source() {
             for location in &sci.location {
                 if location.path == [3, import_idx as i32] {
-                    if location.span.len() != 3 {
-                        continue;
-                    }
+                    let (start, end) = match *location.span {
+                        [line, start, end] => ((line, start), (line, end)),
+                        [start_line, start, end_line, end] => {
+                            ((start_line, start), (end_line, end))
+                        }
+                        _ => continue,
+                    };
                     // Columns in source info count bytes
-                    let line_offset: usize = source
-                        .split_inclusive('\n')
-                        .take(location.span[0] as usize)
-                        .map(str::len)
-                        .sum();
-                    let start_col = location.span[1] as usize;
-                    let end_col = location.span[2] as usize;
+                    let offset = |(line, col): (i32, i32)| {
+                        source
+                            .split_inclusive('\n')
+                            .take(line as usize)
+                            .map(str::len)
+                            .sum::<usize>()
+                            + col as usize
+                    };
                     return Some(SourceSpan::new(
-                        SourceOffset::from(line_offset + start_col),
-                        end_col - start_col,
+                        SourceOffset::from(offset(start)),
+                        offset(end) - offset(start),
                     ));
                 }
             }
-- 
2.43.0


From 5bfe031f955ccc7bc0547dbdebbc86e22c9ca153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:49 +0000
Subject: [PATCH 8/8] fix: name the import path, not a group, in the error for
 an invalid import

---
 protox-parse/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..100135a 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -76,7 +76,7 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
-    #[error("invalid group name")]
+    #[error("invalid import path")]
     #[diagnostic(help(
         "imports may not contain backslashes, repeated forward slashes, '.' or '..' components"
     ))]
-- 
2.43.0

