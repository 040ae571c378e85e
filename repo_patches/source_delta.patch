From 01fec7b3ed6b425035200c399500c7b9ebea8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 1/8] fix: printing an infinite LitFloat (e.g. parsed from
 1e999) panicked

---
 parsel/src/ast.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..e68d3cf 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2550,7 +2550,18 @@ impl LitUint {
 
 impl LitFloat {
     pub fn token(&self) -> Literal {
-        let mut lit = Literal::f64_unsuffixed(self.value.into_inner());
+        let value = self.value.into_inner();
+
+        // `Literal::f64_unsuffixed()` panics on infinities, but they are valid
+        // values of this type: a literal that is too big for an `f64` parses as
+        // one. Thus, they are printed as such a literal, too.
+        let mut lit = if value.is_finite() {
+            Literal::f64_unsuffixed(value)
+        } else {
+            let repr = if value < 0.0 { "-1e999" } else { "1e999" };
+            Literal::from_str(repr).expect("unparseable float literal")
+        };
+
         lit.set_span(self.span);
         lit
     }
-- 
2.43.0


From e0880c1abcd74d7b93bc1c253d0fc12df2a01aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 2/8] fix: Lit parsed from -0 did not compare equal to itself
 after printing and re-parsing

---
 parsel/src/ast.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index e68d3cf..2dcc991 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -3183,7 +3183,13 @@ impl TryFrom<syn::Lit> for Lit {
             syn::Lit::Byte(lit) => Ok(Lit::Byte(lit.into())),
             syn::Lit::Int(lit) => {
                 if lit.base10_digits().trim().starts_with('-') {
-                    LitInt::try_from(lit).map(Lit::Int)
+                    let lit = LitInt::try_from(lit)?;
+
+                    // Negative zero prints as `0`, which is not negative.
+                    Ok(match u64::try_from(lit.value()) {
+                        Ok(value) => Lit::Uint(LitUint::new(value, lit.span())),
+                        Err(_) => Lit::Int(lit),
+                    })
                 } else {
                     LitUint::try_from(lit).map(Lit::Uint)
                 }
-- 
2.43.0


From 8625c8d77459d3de272c1a70f9a1b47296710052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 3/8] fix: derive(ToTokens) did not compile for an enum with a
 field called tokens

---
 parsel_derive/src/to_tokens.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..5fc8968 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -107,15 +107,21 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
                         .collect()
                 }
             };
+            // Do not bind named fields to their own name, because a field
+            // called `tokens` would shadow the argument of `to_tokens()`.
+            let bound_names: Vec<_> = field_names
+                .iter()
+                .map(|name| format_ident!("parsel_field_{}", name))
+                .collect();
             let bindings = match &variant.fields {
                 Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
+                Fields::Named(_) => quote!({ #(#field_names: #bound_names,)* }),
+                Fields::Unnamed(_) => quote!{ (#(#bound_names),*) },
             };
 
             Ok(quote!{
                 #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#field_names, &mut *tokens);)*
+                    #(::parsel::ToTokens::to_tokens(#bound_names, &mut *tokens);)*
                 }
             })
         })
-- 
2.43.0


From 3ac496f46ed8259312fec91596b5c96dca5bdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 4/8] fix: derive(ToTokens) did not compile for an enum without
 variants

---
 parsel_derive/src/to_tokens.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 5fc8968..8359154 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -73,8 +73,10 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let body = expand_variants(ty_name, data)?;
 
+    // A reference is never considered uninhabited, so an `enum`
+    // without variants needs to be matched on by place.
     Ok(quote!{
-        match self {
+        match *self {
             #body
         }
     })
@@ -115,8 +117,8 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
                 .collect();
             let bindings = match &variant.fields {
                 Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names: #bound_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#bound_names),*) },
+                Fields::Named(_) => quote!({ #(#field_names: ref #bound_names,)* }),
+                Fields::Unnamed(_) => quote!{ (#(ref #bound_names),*) },
             };
 
             Ok(quote!{
-- 
2.43.0


From 87ba2a58efe4a8f43ea8eeec095f2d7d9d183bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 5/8] fix: qualify Err in the generated parser of enums

With a tuple or unit struct called Err in scope (for instance the node type of
an error production), the code generated by derive(Parse) for an enum
constructed that struct instead of a Result and did not compile.
---
 parsel_derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index fea02b3..e2691db 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -105,7 +105,7 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
         #parsers
 
-        Err(
+        ::parsel::Result::Err(
             error.unwrap_or_else(|| {
                 input.error("parsing an empty choice (enum) always fails")
             })
-- 
2.43.0


From 18f40fb9fc1f9a678bd9675e9c5d1ff4f850da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 6/8] fix: printing a keyword declared as a raw identifier
 panicked

---
 parsel/src/ast.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 2dcc991..28b970b 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,14 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                match $string.strip_prefix("r#") {
+                    ::core::option::Option::Some(name) => {
+                        ::parsel::ast::Ident::new_raw(name, self.span)
+                    }
+                    ::core::option::Option::None => {
+                        ::parsel::ast::Ident::new($string, self.span)
+                    }
+                }
             }
         }
 
-- 
2.43.0


From dfe057781d6f122b111ec879caf1929c6a75d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 7/8] fix: formatting with a formatter after a failed write
 kept the indentation of the failure

---
 parsel/src/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index d104f1b..3538746 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -446,11 +446,13 @@ where
                     // NOTE: this _also_ applies when _not_ pretty-printing.
                     if !inner_stream.is_empty() {
                         self.indent_level += 1;
-                        self.write_newline(Spacing::Joint)?;
-
-                        self.write(inner_stream)?;
+                        let result = self.write_newline(Spacing::Joint)
+                            .and_then(|_| self.write(inner_stream));
 
+                        // Leave the group even if writing has failed, so that
+                        // a subsequent `write()` starts at the right level.
                         self.indent_level -= 1;
+                        result?;
                         self.write_newline_and_indent(Spacing::Joint)?;
                     }
 
-- 
2.43.0


From 205b2bc684d1d0ffd8092349a51fd67b61fd8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 8/8] fix: invisible groups were indented in the middle of a
 line

---
 parsel/src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index 3538746..d014bbb 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -402,6 +402,11 @@ where
     /// Format a `TokenStream` respecting the specified indentation.
     pub fn write(&mut self, stream: TokenStream) -> fmt::Result {
         self.write_indent()?;
+        self.write_tokens(stream)
+    }
+
+    /// Write a sequence of tokens to a place that is already indented.
+    fn write_tokens(&mut self, stream: TokenStream) -> fmt::Result {
         let mut spacing = Spacing::Joint;
         let mut iter = stream.into_iter().peekable();
 
@@ -431,7 +436,7 @@ where
                     let inner_stream = group.stream();
                     let (open, close) = match group.delimiter() {
                         Delimiter::None => {
-                            self.write(inner_stream)?;
+                            self.write_tokens(inner_stream)?;
                             continue;
                         }
                         Delimiter::Parenthesis => ('(', ')'),
-- 
2.43.0

