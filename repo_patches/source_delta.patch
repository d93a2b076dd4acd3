From 0be569be220bad87bc1da503f39678cc653822e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 01/21] fix: skip nested blocks as a whole in the branch of a
 conditional that is not taken

---
 stuart-core/src/functions/mod.rs              |  9 ++++++++
 stuart-core/src/functions/parsers/if.rs       |  5 +++++
 .../src/functions/parsers/ifdefined.rs        |  7 ++++++-
 stuart-core/src/process/mod.rs                | 21 +++++++++++++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..5791b2b 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -180,3 +180,12 @@ macro_rules! quiet_assert {
 pub fn is_ident(s: &str) -> bool {
     crate::FUNCTION_PARSERS.iter().any(|f| f.name() == s)
 }
+
+/// Returns true if the function of the given name opens a block, which is closed by `end`.
+#[inline]
+pub(crate) fn is_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..826cc15 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -84,6 +84,11 @@ macro_rules! if_parsers {
                                 if function_name == Some("else".to_string()) {
                                     condition = !condition;
                                 }
+                            } else if function_name.map(|n| $crate::functions::is_block(&n)).unwrap_or(false) {
+                                // The `else` and `end` of a nested block are not those of this one.
+                                scope
+                                    .skip_block()
+                                    .ok_or_else(|| self_token.traceback($crate::process::ProcessError::UnexpectedEndOfFile))?;
                             }
                         }
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..5723d81 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{is_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -69,6 +69,11 @@ impl Function for IfDefinedFunction {
                 if function_name == Some("else".to_string()) {
                     defined = !defined;
                 }
+            } else if function_name.map(|n| is_block(&n)).unwrap_or(false) {
+                // The `else` and `end` of a nested block are not those of this one.
+                scope
+                    .skip_block()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
             }
         }
 
diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..6d1828e 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -10,6 +10,7 @@ use self::iter::TokenIter;
 use self::stack::StackFrame;
 
 use crate::fs::{Node, ParsedContents};
+use crate::functions::is_block;
 use crate::parse::{LocatableToken, ParsedMarkdown, Token};
 use crate::{Environment, Error, Stuart};
 
@@ -360,6 +361,26 @@ impl<'a> Scope<'a> {
         variable
     }
 
+    /// Skips the rest of the innermost block in the template, including everything nested in it,
+    ///   without executing any of it.
+    ///
+    /// Returns `None` if the tokens run out before the `end` of the block.
+    pub(crate) fn skip_block(&mut self) -> Option<()> {
+        let mut depth: usize = 1;
+
+        while depth > 0 {
+            if let Some(function) = self.tokens.next()?.as_function() {
+                if function.name() == "end" {
+                    depth -= 1;
+                } else if is_block(function.name()) {
+                    depth += 1;
+                }
+            }
+        }
+
+        Some(())
+    }
+
     /// Adds to the output of the current stack frame.
     pub fn output(&mut self, output: impl AsRef<[u8]>) -> Result<(), ProcessError> {
         self.stack
-- 
2.43.0


From 997e0429c1a2fa5d2c9209a49bd7f0049dcbc1d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 02/21] fix: do not render the body of a for loop when no
 element is selected

---
 stuart-core/src/functions/parsers/for.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..e8ee0b3 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -228,7 +228,10 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut rendered = false;
+
         for variable in variable_iter {
+            rendered = true;
             scope.tokens.rewind_to(waypoint);
 
             let frame = {
@@ -249,6 +252,13 @@ impl Function for ForFunction {
             }
         }
 
+        // If nothing was selected, the body of the loop must not be rendered at all.
+        if !rendered {
+            scope
+                .skip_block()
+                .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 809278b9f6f0ffae3fcccd62691177f41950f77d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 03/21] fix: reject a lone quotation mark as an argument
 instead of panicking

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..79615bc 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() >= 2 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From e5906bdf06f96180087183a1cc9b86e2cc77bb6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 04/21] fix: make ifle compare with less than or equal

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 5791b2b..0d3c42a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From 5e028bdeeb4d57a97153e27790610bb6b6176a5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 05/21] fix: mark an excerpt as cut only when some of the
 string was left unread

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..c0d77b7 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if chars.next().is_some() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 10349b0e58d61de29009fe929f866b51aa874100 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 06/21] fix: do not panic when a markdown file loops over
 markdown files before they are rendered

---
 stuart-core/src/parse/markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..afcf02d 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -106,7 +106,12 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+
+        // There is no HTML yet while the markdown files are still being preprocessed.
+        if let Some(html) = &self.html {
+            v["content"] = Value::String(html.clone());
+        }
+
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 91b1496655777639ca4955b416f10c1b02d30e19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 07/21] fix: report the name of a JavaScript function instead
 of panicking

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From 5fa7713dac393c8b3714cef760b878014ff62e3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 08/21] fix: do not underflow when displaying an error without
 a line

---
 stuart/src/error.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..19a661f 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,13 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        // Errors which are about a whole file have no line, and are given line zero.
+        let line = read_to_string(&self.path).ok().and_then(|s| {
+            (self.line as usize)
+                .checked_sub(1)
+                .and_then(|i| s.lines().nth(i))
+                .map(|s| s.to_string())
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From 5157651cef42cd7c311519784c4876707217e35c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 09/21] fix: a root template which leaves a block open is
 rejected

---
 stuart-core/src/process/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index 6d1828e..fafc0e6 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -136,8 +136,19 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        // Check that the root template closed all its blocks too
+        let frame = stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -207,10 +218,21 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        // Check that the root template closed all its blocks too
+        let frame = stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From be8927b825869e203777e88301cdcf8b63d1f6ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 10/21] fix: saving two files to the same place is a conflict

---
 stuart-core/src/fs/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..2eb2c59 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -351,6 +351,7 @@ impl Node {
                 name,
                 contents,
                 parsed_contents,
+                source,
                 ..
             } => {
                 if name != "root.html"
@@ -371,10 +372,9 @@ impl Node {
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(dir.join("index.html"), contents, source)?;
                     } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(path.join(name), contents, source)?;
                     }
                 }
             }
@@ -423,6 +423,15 @@ impl Node {
     }
 }
 
+/// Writes a file which no other node has been written to yet.
+fn write_new(target: PathBuf, contents: &[u8], source: &Path) -> Result<(), Error> {
+    if target.exists() {
+        return Err(Error::Fs(FsError::Conflict(target, source.to_path_buf())));
+    }
+
+    write(target, contents).map_err(|_| Error::Fs(FsError::Write))
+}
+
 impl Debug for Node {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From ff824ceef4652ba5a1c0ff4d775e6b8e6487e564 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 11/21] fix: $env.STUART_ENV is the environment of the build
 even if the variable is already set

---
 stuart-core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..38934fb 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -137,7 +137,7 @@ impl Stuart {
 
         let vars = {
             let mut env = std::env::vars().collect::<Vec<_>>();
-            env.push(("STUART_ENV".into(), stuart_env));
+            env.insert(0, ("STUART_ENV".into(), stuart_env));
             env
         };
 
-- 
2.43.0


From 0c6656da25acf4706ee9f1a8a160f60e8255d7b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 12/21] fix: an environment variable that is not valid Unicode
 does not stop the build with a panic

---
 stuart-core/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 38934fb..723f2a9 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,14 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            let mut env = std::env::vars_os()
+                .map(|(k, v)| {
+                    (
+                        k.to_string_lossy().into_owned(),
+                        v.to_string_lossy().into_owned(),
+                    )
+                })
+                .collect::<Vec<_>>();
             env.insert(0, ("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From 0463481219dc0ba151d450a50d8130304a8a23ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 13/21] fix: a plugin source without a package name is an error
 and the next source is tried

---
 stuart/src/plugins/source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..d8484bc 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,16 +54,19 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    let name = get_project_name(&manifest)
+        .ok_or_else(|| ScriptError::CouldNotExecute("<build script>".to_string()))?;
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From d3758621aa5e7f09a6ee1c2f195b280b3bfe1369 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 14/21] fix: a JavaScript plugin whose functions have no number
 is an error and the next source is tried

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..b07af93 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -109,7 +109,7 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .get(scope, key.into())
                 .ok_or("missing plugin functions")?
                 .uint32_value(scope)
-                .unwrap();
+                .ok_or("missing plugin functions")?;
 
             let mut functions_vec = Vec::with_capacity(length as usize);
 
-- 
2.43.0


From 3f1cc058fa280085533ec7f8b4c3bef0556e3963 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 15/21] fix: a file whose extension is not valid Unicode is
 served instead of ending the request with a panic

---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..5078485 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -182,7 +182,7 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                         return if let Some(extension) = path.extension() {
                             Response::new(StatusCode::OK, buf).with_header(
                                 HeaderType::ContentType,
-                                MimeType::from_extension(extension.to_str().unwrap()).to_string(),
+                                MimeType::from_extension(&extension.to_string_lossy()).to_string(),
                             )
                         } else {
                             Response::new(StatusCode::OK, buf)
-- 
2.43.0


From 787c89ffa59f364446ec2f477e2fa45e37a29a4c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 16/21] fix: an error report does not overflow when the column
 does not fit a signed integer

---
 stuart/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index 19a661f..590e227 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -137,7 +137,7 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             writeln!(
                 buf,
                 "{}^^^ error occurred here",
-                " ".repeat((self.column as i32 - 2).clamp(0, i32::MAX) as usize)
+                " ".repeat((self.column as usize).saturating_sub(2))
             )
             .unwrap();
             buf.set_color(ColorSpec::new().set_fg(Some(Color::Cyan)).set_intense(true))
-- 
2.43.0


From 26b26c957897373c9ad7137c98dca9441039e37d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 17/21] fix: an object member named __proto__ reaches a
 JavaScript plugin like any other

---
 stuart/src/plugins/js/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..46cfd2b 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -28,7 +28,7 @@ pub fn json_to_js<'a>(
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From 633b6ef8903d90bed0cb45b8dd7511d376c6e2ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 18/21] fix: a value with no JSON equivalent inside what a
 JavaScript plugin stores does not end the program

---
 stuart/src/plugins/js/json.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 46cfd2b..35add3a 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -39,7 +39,8 @@ pub fn json_to_js<'a>(
 
 /// Converts a JavaScript object to a JSON value.
 ///
-/// Returns `None` if `value` is `undefined`.
+/// Returns `None` if `value` is `undefined`. As with `JSON.stringify`, array elements which have no JSON
+/// equivalent become `null`, and such members of objects are left out.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
@@ -74,27 +75,26 @@ pub fn js_to_json<'a>(
             .unwrap();
         let mut array = Vec::with_capacity(length as usize);
         for i in 0..length {
-            let v8_value = v8_array.get_index(scope, i).unwrap();
+            let v8_value = v8_array.get_index(scope, i)?;
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
     }
 
     if value.is_object() {
         let v8_object = value.to_object(scope).unwrap();
-        let keys = v8_object
-            .get_own_property_names(scope, v8::GetPropertyNamesArgs::default())
-            .unwrap();
+        let keys = v8_object.get_own_property_names(scope, v8::GetPropertyNamesArgs::default())?;
         let length = keys.length();
         let mut object = Vec::with_capacity(length as usize);
 
         for i in 0..length {
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
-            let v8_value = v8_object.get(scope, v8_key).unwrap();
-            let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            let v8_value = v8_object.get(scope, v8_key)?;
+            if let Some(value) = js_to_json(v8_value, scope) {
+                object.push((key, value));
+            }
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From ae2591819194c1c8f37b16b3a90cf57185d9e615 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 19/21] fix: a new site whose name or author contains quotes or
 backslashes gets a valid manifest

---
 stuart/src/new.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..826bba5 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,15 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml::Value::from(name))
+        .as_bytes()
+        .to_vec();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = format!("{} <{}>", name, email);
+        write!(&mut manifest, "\nauthor = {}", toml::Value::from(author)).unwrap();
     }
 
     manifest.push(b'\n');
-- 
2.43.0


From 8e7801e92908d74986d163d25e531d745ab2252c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 20/21] fix: the repository of a new site is made in its
 directory when the name is an absolute path

---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 826bba5..d6f699b 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -42,7 +42,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(&path).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From d785c97a9cc100147b5fb3dbf87bce3425de66fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 21/21] fix: a JavaScript object within itself has no JSON
 equivalent there, instead of overflowing the stack

---
 stuart/src/plugins/js/json.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 35add3a..ddc69ac 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -40,10 +40,19 @@ pub fn json_to_js<'a>(
 /// Converts a JavaScript object to a JSON value.
 ///
 /// Returns `None` if `value` is `undefined`. As with `JSON.stringify`, array elements which have no JSON
-/// equivalent become `null`, and such members of objects are left out.
+/// equivalent become `null`, and such members of objects are left out. An object within itself has none.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
+) -> Option<Value> {
+    js_to_json_within(value, scope, &[])
+}
+
+/// Converts a JavaScript object, found within the given objects, to a JSON value.
+fn js_to_json_within<'a>(
+    value: v8::Local<'a, v8::Value>,
+    scope: &mut v8::HandleScope<'a>,
+    parents: &[v8::Local<'a, v8::Object>],
 ) -> Option<Value> {
     if value.is_undefined() {
         return None;
@@ -67,6 +76,11 @@ pub fn js_to_json<'a>(
 
     if value.is_array() {
         let v8_array = value.to_object(scope).unwrap();
+        if parents.contains(&v8_array) {
+            return None;
+        }
+        let mut parents = parents.to_vec();
+        parents.push(v8_array);
         let k_length = v8::String::new(scope, "length").unwrap();
         let length = v8_array
             .get(scope, k_length.into())
@@ -76,7 +90,7 @@ pub fn js_to_json<'a>(
         let mut array = Vec::with_capacity(length as usize);
         for i in 0..length {
             let v8_value = v8_array.get_index(scope, i)?;
-            let value = js_to_json(v8_value, scope);
+            let value = js_to_json_within(v8_value, scope, &parents);
             array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
@@ -84,6 +98,11 @@ pub fn js_to_json<'a>(
 
     if value.is_object() {
         let v8_object = value.to_object(scope).unwrap();
+        if parents.contains(&v8_object) {
+            return None;
+        }
+        let mut parents = parents.to_vec();
+        parents.push(v8_object);
         let keys = v8_object.get_own_property_names(scope, v8::GetPropertyNamesArgs::default())?;
         let length = keys.length();
         let mut object = Vec::with_capacity(length as usize);
@@ -92,7 +111,7 @@ pub fn js_to_json<'a>(
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
             let v8_value = v8_object.get(scope, v8_key)?;
-            if let Some(value) = js_to_json(v8_value, scope) {
+            if let Some(value) = js_to_json_within(v8_value, scope, &parents) {
                 object.push((key, value));
             }
         }
-- 
2.43.0

