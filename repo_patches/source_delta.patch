From 2e21351e8411218666217bb01cb7fdba9cff6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 1/9] fix: include first sets of nullable non-terminals in
 first sets

A production starting with a nullable non-terminal begins with whatever that
non-terminal begins with, too. Only the symbols after it were considered.
---
 src/first.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..1fb018f 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -76,14 +76,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
                             let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
+                            let empty = *empty;
                             // TODO: clone below to avoid borrowck issues
                             for terminal in terminals.clone() {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 492a692c9e9d0d3bccd909c361069cc966f2d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 2/9] fix: iterate the first table again when a non-terminal
 becomes nullable

The fixpoint loop stopped early when the only change in an iteration was a
non-terminal found to be empty.
---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 1fb018f..1a838dd 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -95,7 +95,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From c84c8d7fb13296c35410a3d3ffef9ebe68fe8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 3/9] fix: reject accept/reduce conflicts

add_reduce panics when it finds an accept action, but add_accept replaced a
reduce action silently, which is the order build_lr1_table uses.
---
 src/lr_common.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..9c6b6cf 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,21 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(old_action) = old_action {
+            if old_action != LRAction::Accept {
+                panic!(
+                    "({}, EOF): Overriding {:?} action with Accept",
+                    state.0, old_action
+                );
+            }
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From c9e0b2372000583ce5c1abe879c14edb05ddc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 4/9] fix: reject non-terminals defined multiple times

The productions of all definitions were added to the last one, whatever their
visibility and type, leaving the others empty.
---
 src/lower.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..df8136d 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -40,7 +40,10 @@ pub fn lower(
             let nt1_name = nt.name.to_string() + "1";
             let nt1_idx = grammar.add_non_terminal(nt1_name, nt.type_decl.clone(), false);
             // Original name mapped to the new name with "1" suffix
-            nt_indices.insert(nt.name.to_string(), nt1_idx);
+            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);
+            if old.is_some() {
+                panic!("Non-terminal {} defined multiple times", nt.name);
+            }
 
             // Create the entry point
             let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);
@@ -70,7 +73,10 @@ pub fn lower(
         } else {
             let nt_name = nt.name.to_string();
             let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
-            nt_indices.insert(nt_name, nt_idx);
+            let old = nt_indices.insert(nt_name, nt_idx);
+            if old.is_some() {
+                panic!("Non-terminal {} defined multiple times", nt.name);
+            }
         }
     }
 
-- 
2.43.0


From 34b34984627a28d4673e5c5644d0f1da50eada93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 5/9] fix: generate one-element tuple patterns in token_value

`(x,)` was generated as `(x)`, which is not a tuple pattern, and not the pattern
generated for the same token in token_terminal_idx.
---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..8a4e2e0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -436,7 +436,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From f488068b1863d5ee2fa6e994ef76961e5cd139cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 6/9] fix: reject symbols named multiple times

The outer name of `<x:<y:X>>` was dropped silently.
---
 src/lower.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lower.rs b/src/lower.rs
index df8136d..125d0f0 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -135,8 +135,11 @@ fn add_symbol(
         ast::Symbol::Repeat(_) => {
             todo!("Repeat symbol not supported yet");
         }
-        ast::Symbol::NamedSymbol(binder, sym) => {
-            add_symbol(nt_indices, t_indices, symbols, Some(binder), *sym)
+        ast::Symbol::NamedSymbol(name, sym) => {
+            if binder.is_some() {
+                panic!("Symbol named multiple times: {}", name.name);
+            }
+            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)
         }
     }
 }
-- 
2.43.0


From 57f423e618edade8d73b240aee1148a729624841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 7/9] fix: do not skip non-string literals between symbols

Parsing a LitStr consumes a literal of another type before it fails, so the
literal was dropped from the production without an error.
---
 src/ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 58e7768..95dbd4b 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -397,9 +397,9 @@ impl Parse for Symbol {
 }
 
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
-    // TODO: No peek for LitStr?
-    if let Ok(str) = input.parse::<syn::LitStr>() {
-        return Ok(Symbol::Terminal(str));
+    // Note: parsing a `LitStr` consumes literals of other types before failing, so peek first
+    if input.peek(syn::LitStr) {
+        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0


From c5c448e973ad8de8ec0ca626fff54f8e6b6cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 8/9] fix: a public non-terminal with a raw identifier as its
 name (pub r#type: T = ..) made the macro panic

---
 src/lr_codegen.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a1bb892..cb956fa 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -10,7 +10,7 @@ use crate::lr1::{build_lr1_table, generate_lr1_automaton};
 use crate::lr_common::{LRAction, StateIdx};
 
 use proc_macro2::{Span, TokenStream};
-use quote::quote;
+use quote::{format_ident, quote};
 
 pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> TokenStream {
     let n_terminals = grammar.n_terminals();
@@ -81,8 +81,7 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         .map(|(non_terminal_idx, parser_state)| {
             let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
             let non_terminal = grammar.get_non_terminal(non_terminal_idx);
-            let non_terminal_name_id =
-                syn::Ident::new(&non_terminal.non_terminal, Span::call_site());
+            let non_terminal_name_id = format_ident!("{}", non_terminal.non_terminal);
             let non_terminal_return_type = &non_terminal.return_ty;
             let action_idx = usize::from(
                 grammar
-- 
2.43.0


From 6fe6f7a699a9b6a13279b59fe2af08130771dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:06 +0000
Subject: [PATCH 9/9] fix: a token enum with a raw identifier as its name (enum
 r#type { .. }) made the macro panic

---
 src/codegen.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 8a4e2e0..db36333 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -4,7 +4,7 @@ use crate::grammar::{BoundSymbol, Grammar, NonTerminal, Production, Symbol, Term
 use crate::lr_common::{LRTable, StateIdx};
 
 use proc_macro2::{Span, TokenStream};
-use quote::quote;
+use quote::{format_ident, quote};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct SemanticActionIdx(u16);
@@ -146,9 +146,10 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
         conversions,
     } = tokens;
 
-    let fn_name = syn::Ident::new(
-        &(type_name.to_string().to_lowercase() + "_terminal_idx"),
-        type_name.span(),
+    let fn_name = format_ident!(
+        "{}_terminal_idx",
+        type_name.to_string().to_lowercase(),
+        span = type_name.span()
     );
     let arg_name = syn::Ident::new("token", type_name.span());
 
-- 
2.43.0

