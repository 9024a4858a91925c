From 0d71361edb141aa4abc0152dc0abb11c39c22641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 01/36] fix: a token after a template part is not first on its
 line

Re-reading the `}` that continues a template restores the line flag of that
`}`, and reading the template part left it set, so the token following the
template was reported as first on its line without a line break before it.
---
 lexer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..8ec8d44 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -398,6 +398,8 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
+        self.first_on_line = false;
+
         let span = Span::new(span_start, self.reader.position());
         Ok(Token {
             span,
-- 
2.43.0


From de7a44c2ceed6fd85502df65e36071f3d71b6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 02/36] fix: restore the lexer state when a re-read fails

An error while reading with a temporary state returned before the previous
state was put back, leaving the lexer in the temporary state.
---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 8ec8d44..b2c0c20 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -562,10 +562,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From dba1bf0a22365e63c8d5c728f18db33537d99af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 03/36] fix: only `<!--` starts an HTML comment

Any `<!` was taken as the start of a comment, so `a <!b` dropped the rest of
the line.
---
 lexer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index b2c0c20..084828f 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.reader.peek().ok() == Some(&'!') && self.at_html_comment() => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
@@ -287,6 +287,13 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 
+    /// `true` if the source continues with `<!--` at the current position.
+    fn at_html_comment(&self) -> bool {
+        self.data
+            .get(self.reader.position()..)
+            .map_or(false, |rest| rest.starts_with("<!--"))
+    }
+
     fn skip_single_line_comment(&mut self) {
         self.reader.consume().unwrap();
         self.reader.consume().unwrap();
-- 
2.43.0


From aaa4b91a1a94bcf059e11827d447964359cef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 04/36] fix: report a module specifier that is not a string
 literal

`import a from 5` panicked instead of returning a syntax error.
---
 parser/src/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..0c02053 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -201,6 +201,10 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
+        if !self.current_matches_string_literal() {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         let module_name = self
             .parse_literal()?
             .unwrap_literal()
-- 
2.43.0


From 66eb7e150867db333bde1865b9cbc004e9dc0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 05/36] fix: a line break after async ends the statement before
 a function declaration

---
 parser/src/stmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..21564ca 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From 7270ffb9ce9be12a2e3c620f4118dfcbf021ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 06/36] fix: point at the offending token when an exported
 declaration is missing

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 0c02053..e95eb71 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -98,7 +98,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From 6544335451776c043c48ca543d4a7846f2e58c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 07/36] fix: require a semicolon or a line end after simple
 statements

---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 21564ca..ecd630f 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -190,7 +190,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -202,7 +202,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -222,7 +222,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -251,7 +251,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -266,7 +266,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..4fc3182 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -21,7 +21,7 @@ where
         } else {
             self.parse_variable_declarations()?
         };
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From c17b06dd0a93486f09b646b0169254ce325551c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 08/36] fix: traverse the alternate of a conditional and the
 namespace of an import

---
 ast/src/traverse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From 58a991737ee8625645711631ad0ddb0a83b49dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/36] fix: traverse the pattern bound by a for-in or for-of
 declaration

---
 ast/src/traverse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..0364702 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
-- 
2.43.0


From 6ee0095fd7f99a58d70771fa26b482a2492afdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 10/36] fix: an arrow function body stays in strict mode

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..9a35590 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -128,9 +128,10 @@ impl Context {
     modifier!(with_super_call_allowed: super_call_allowed);
     modifier!(with_static_method_allowed: static_method_allowed);
 
-    /// Resets all production parameters.
+    /// Resets all production parameters, strictness is inherited.
     fn reset_parameters(&self) -> Self {
         Context {
+            is_strict: self.is_strict,
             in_method: self.in_method,
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
-- 
2.43.0


From 00eff3241d0cfd1b5afabdc294c10a30e2d292f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 11/36] fix: a method with a computed name is a method

---
 parser/src/literal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..26a6c8f 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -238,8 +238,13 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
-                .map(PropertyDefinition::Method)
+            self.with_context(
+                self.context
+                    .with_in_method(true)
+                    .with_super_call_allowed(false),
+            )
+            .parse_method(span_start, false, name, MethodKind::Method)
+            .map(PropertyDefinition::Method)
         }
     }
 
-- 
2.43.0


From 58a62c16bd1f2611e732a58bcd14ab7769a0c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 12/36] fix: only the exported default declaration may be
 unnamed

---
 parser/src/class.rs    | 4 +++-
 parser/src/function.rs | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..d809e01 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -17,7 +17,9 @@ where
         self.consume_assert(&keyword!("class"))?;
 
         let identifier = self.parse_optional_class_identifier()?;
-        let (super_class, body) = self.parse_class_tail()?;
+        let (super_class, body) = self
+            .with_context(self.context.with_default(false))
+            .parse_class_tail()?;
 
         let span = self.span_from(span_start);
         Ok(DeclClass {
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..081e089 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -169,7 +169,8 @@ where
                 .with_yield(generator)
                 .with_await(false)
                 .with_in_method(false)
-                .with_super_call_allowed(false),
+                .with_super_call_allowed(false)
+                .with_default(false),
         )
         .parse_function_decl_content(span_start, ident)
     }
@@ -190,7 +191,8 @@ where
                 .with_yield(generator)
                 .with_await(true)
                 .with_in_method(false)
-                .with_super_call_allowed(false),
+                .with_super_call_allowed(false)
+                .with_default(false),
         )
         .parse_function_decl_content(span_start, ident)
     }
-- 
2.43.0


From de465c9eec527d41baea975774cfbbd85847c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 13/36] fix: a line break after async ends a default export

---
 parser/src/module.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index e95eb71..5a80c8c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
-- 
2.43.0


From f8ec16ee22d809c840f60f95912824f991bc7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 14/36] fix: a method may be named async

---
 parser/src/method.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..1b8dc51 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.followed_by_new_line() && !self.peek_matches(&punct!("(")) =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 164812bbdaff5fc2616190ead59e1174c34208f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 15/36] fix: get, set, async and static are shorthand
 properties

---
 parser/src/literal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 26a6c8f..cbf02c5 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -265,6 +265,14 @@ where
     }
 
     pub fn is_object_method_definition(&self) -> bool {
+        // A shorthand property, it may be one of the keywords that start a method.
+        if self.peek_matches(&punct!(","))
+            || self.peek_matches(&punct!("}"))
+            || self.peek_matches(&punct!("="))
+        {
+            return false;
+        }
+
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
             token_matches!(ok: keyword!("static")) => true,
-- 
2.43.0


From 9e148b96941bab39d659561eaa2715f4e1c73ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 16/36] fix: numeric separators only between digits

---
 lexer/src/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..17d0eb1 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -141,6 +141,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.ends_with('_') {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 6c500860b0af702acb5ed3628c9f3699abe8eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 17/36] fix: a line terminator ends a regular expression
 literal

---
 lexer/src/regexp.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..1cb7cba 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -18,7 +18,7 @@ impl Lexer<'_> {
             result.push(c);
 
             match c {
-                '\n' => {
+                c if c.is_ecma_line_terminator() => {
                     let span_end = self.reader.position();
                     return Err(Error::syntax_error(
                         "Unterminated regular expression literal".to_owned(),
@@ -29,7 +29,7 @@ impl Lexer<'_> {
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
                     result.push(self.reader.consume()?)
                 }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,15 +40,24 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
+                c if c.is_ecma_line_terminator() => {
+                    let span_end = self.reader.position();
+                    return Err(Error::syntax_error(
+                        "Unterminated regular expression literal".to_owned(),
+                        (span_start, span_end - 1),
+                    ));
+                }
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
+                    result.push(self.reader.consume()?)
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 8a534646ba358ba654293dd56ed91a231c1e9fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 18/36] fix: the in operator is allowed in let and const
 declarations

---
 parser/src/variable.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 4fc3182..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From cd8e7e50b5c9cc623891c86368483b760e9d1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 19/36] fix: the in operator is allowed in the object of a with
 statement

---
 parser/src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index ecd630f..d37eddd 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -302,7 +302,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
-- 
2.43.0


From e5f0bf24fc7ff94e4a48fb83eb8d40586450078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 20/36] fix: a statement may start with import() or import.meta

---
 parser/src/stmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index d37eddd..202b7b2 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -78,7 +78,9 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
-- 
2.43.0


From 994a82d6424d4d2d453de295c8cde0eeb763d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 21/36] fix: the in operator is allowed between brackets in the
 head of a for statement

---
 parser/src/assignment_pattern.rs |  5 ++++-
 parser/src/expr.rs               |  8 ++++++--
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  6 ++----
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..3d44b13 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -188,7 +188,10 @@ where
         let ident = self.parse_identifier()?;
         let initializer = self
             .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+            .then_try(|| {
+                self.with_context(self.context.with_in(true))
+                    .parse_initializer()
+            })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..a2e4c32 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -289,7 +289,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -565,7 +567,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 9a35590..6fa7e05 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -424,7 +424,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index cbf02c5..0e5b612 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..635704f 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -137,9 +137,7 @@ where
                 Ok(MemberProperty::Ident(identifier))
             }
             token_matches!(ok: punct!("[")) => {
-                let member = self
-                    .with_context(self.context.with_in(true))
-                    .parse_computed_property()?;
+                let member = self.parse_computed_property()?;
                 Ok(MemberProperty::Expr(member.into()))
             }
             _ => unreachable!(),
@@ -148,7 +146,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
-- 
2.43.0


From 10d75065ad7f5d77f3277a08a9f27239b1e40834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 22/36] fix: a call or member access may follow super() and
 import()

---
 parser/src/expr.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index a2e4c32..8779359 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -459,18 +459,14 @@ where
         let span_start = self.position();
         let expr = match self.current() {
             token_matches!(ok: keyword!("super")) if self.peek_matches(&punct!("(")) => {
-                self.parse_super_call_expr()
+                self.parse_super_call_expr()?
             }
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
-                self.parse_import_call_expr()
+                self.parse_import_call_expr()?
             }
-            _ => {
-                let span_start = self.position();
-                let expr = self.parse_new_or_member_expr()?;
-                let call_expr = self.parse_recursive_call_expression(span_start, expr)?;
-                Ok(call_expr)
-            }
-        }?;
+            _ => self.parse_new_or_member_expr()?,
+        };
+        let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
             // The NewExpression production handles nested news and is not included in the
-- 
2.43.0


From a2677c211c0f3b961c18d159d75229290a5cecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 23/36] fix: a template with substitutions may be tagged by a
 call expression

---
 parser/src/expr.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 8779359..3aa5c8f 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -495,9 +495,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From d23374cf0a2cba94a2e229d03f6ad21989f3c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 24/36] fix: a reserved word may name a property behind an
 optional chain

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 635704f..3257e00 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From 0f8c33154d23a42b970698b9ebb0448422f5bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 25/36] fix: a yield without argument may be followed by a
 comma or a colon

---
 parser/src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 3aa5c8f..cb6f69c 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -821,5 +821,7 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
     }
 }
-- 
2.43.0


From 0ac6b655108865c033c10eb110b48f84bf5fa202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 26/36] fix: no line break between async and the parameter of
 an arrow function

---
 parser/src/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index cb6f69c..f0a047f 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -191,7 +191,9 @@ where
         match self.peek() {
             token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
             token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
+            _ if self.peek_is_identifier() && !self.followed_by_new_line() => {
+                self.parse_async_arrow_function_expr()
+            }
             _ => self.parse_conditional_expr(),
         }
     }
-- 
2.43.0


From f2936ebf8dd0e2fe6f8ac48bc7fc333d77906a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 27/36] fix: an optional chain may start at a new expression
 with arguments only

---
 parser/src/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index f0a047f..1cb8db4 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -471,9 +471,9 @@ where
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
-            // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            // A `new` without arguments is only derived by the NewExpression production, which is
+            // not included in the OptionalExpression production as a base for the chain.
+            if matches!(&expr, Expr::New(new) if new.arguments_span.is_none()) {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 10103c52480e9992b6bdbc0e44b028f80c9606aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 28/36] fix: an error is reported on the line it starts on

---
 parser/src/error/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..3bfee29 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -84,7 +84,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     fn get_line_boundaries(&self, span: &Span) -> Span {
-- 
2.43.0


From 2c3c9e0e4d1b453972185b3c826be6bfa4267dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 29/36] fix: async may be an identifier reference

---
 parser/src/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1cb8db4..7f9f647 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -762,7 +762,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
-- 
2.43.0


From fc4720e614fde6a9aee87025a7937445ec077392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 30/36] fix: module code is strict

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 6fa7e05..6961397 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -195,7 +195,8 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let strict_mode = parser.source_type == SourceType::Module
+            || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-- 
2.43.0


From 9c44757d5120b958c0c974ba15f76f2464f16472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 31/36] fix: a reserved word cannot be imported without an
 alias

---
 parser/src/module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 5a80c8c..6bcd221 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -246,10 +246,17 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
+        let is_identifier = self.is_identifier();
         let name = self.parse_identifier_name()?;
         let alias = self
             .maybe_consume(&keyword!("as"))?
             .then_try(|| self.parse_identifier())?;
+
+        // Without an alias, the name is also the name of the local binding.
+        if alias.is_none() && !is_identifier {
+            return Err(Error::forbidden_identifier(name.name, name.span));
+        }
+
         let span = self.span_from(span_start);
         Ok(NamedImport { span, name, alias })
     }
-- 
2.43.0


From e6b5671ba0d59b07b327e57ef57df2e3e40d0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 32/36] fix: async may be the target of an assignment

---
 parser/src/expr.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 7f9f647..dc8da7d 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,7 +59,9 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
+            token_matches!(ok: keyword!("async")) if self.is_assignment_expr_async() => {
+                self.parse_assignment_expr_async()
+            }
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
@@ -191,13 +193,18 @@ where
         match self.peek() {
             token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
             token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() && !self.followed_by_new_line() => {
-                self.parse_async_arrow_function_expr()
-            }
-            _ => self.parse_conditional_expr(),
+            _ => self.parse_async_arrow_function_expr(),
         }
     }
 
+    /// Returns `true` if the current `async` may start a call or an arrow function, it is an
+    /// ordinary identifier, or the start of an async function, otherwise.
+    fn is_assignment_expr_async(&self) -> bool {
+        self.peek_matches(&punct!("=>"))
+            || self.peek_matches(&punct!("("))
+            || (self.peek_is_identifier() && !self.followed_by_new_line())
+    }
+
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
-- 
2.43.0


From 6fd13f20663d2d2396e270c4f9525102c0fc02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 33/36] fix: a default exported class without a name may extend

---
 parser/src/class.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index d809e01..6086f8f 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -33,7 +33,9 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        if self.context.is_default
+            && (self.current_matches(&punct!("{")) || self.current_matches(&keyword!("extends")))
+        {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
-- 
2.43.0


From fd3edb35b9a5f7bc0355b702965aead4899accfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 34/36] fix: elements of an array assignment pattern are
 separated by commas

---
 parser/src/assignment_pattern.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 3d44b13..7e055a7 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,10 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    if !self.current_matches(&punct!(",")) && !self.current_matches(&punct!("]")) {
+                        return Err(Error::unexpected_token(self.consume()?));
+                    }
                 }
             }
         }
-- 
2.43.0


From 99db56a27dbf764cfa5e138d775995a606d3ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 35/36] fix: drop an import that a2677c2 left unused

---
 parser/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index dc8da7d..82d2b70 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
-- 
2.43.0


From 3412353384b0f8d3730869c0764a0019b9dcfba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 36/36] fix: no line break is allowed between async and the
 parameters of an arrow function

---
 parser/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 82d2b70..ba08f72 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -201,8 +201,8 @@ where
     /// ordinary identifier, or the start of an async function, otherwise.
     fn is_assignment_expr_async(&self) -> bool {
         self.peek_matches(&punct!("=>"))
-            || self.peek_matches(&punct!("("))
-            || (self.peek_is_identifier() && !self.followed_by_new_line())
+            || ((self.peek_matches(&punct!("(")) || self.peek_is_identifier())
+                && !self.followed_by_new_line())
     }
 
     /// Parses the part of `AssignmentExpression` that is an assignment.
-- 
2.43.0

