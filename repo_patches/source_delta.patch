From ddbc38a2f42b3f0948cfb85768adb9678b7bcb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 01/61] fix: count bytes, not chars, for the length of a block
 comment token

---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 768f7cbe56d6416fe3f808023b7dd2eaf8e4fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 02/61] fix: a '-' can start the operand of return, break and
 '..'

---
 crates/syntax/src/parse/grammar/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..5296ef0 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -372,7 +372,7 @@ pub(crate) struct Restrictions {
 }
 
 pub(crate) const EXPR_FIRST: TokenSet =
-    atom::ATOM_EXPR_FIRST.union(TokenSet::new(&[T![&], T![*], T![!]]));
+    atom::ATOM_EXPR_FIRST.union(TokenSet::new(&[T![&], T![*], T![!], T![-]]));
 
 pub(crate) const STMT_FIRST: TokenSet = EXPR_FIRST.union(TokenSet::new(&[T![let]]));
 
-- 
2.43.0


From 6fae2126a605357be346ebd717fb2751af8203e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 03/61] fix: no panic on 'module' followed by something that is
 not an address and '::'

---
 crates/syntax/src/parse/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..1584328 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -86,7 +86,7 @@ pub(crate) fn module(p: &mut Parser, m: Marker) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        p.eat(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 
-- 
2.43.0


From ac71039d27538de06d3533bb7394289434b8ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 04/61] fix: the index variable of 'for' is not visible in the
 range it iterates over

---
 crates/lang/src/nameres/name_resolution.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 1915c1b..b712594 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -55,6 +55,16 @@ pub fn get_entries_from_walking_scopes(
             continue;
         }
 
+        // index variable of the `for` loop is not visible in the range it iterates over
+        if let Some(for_expr) = resolve_scope.value.cast::<ast::ForExpr>()
+            && for_expr
+                .for_condition()
+                .and_then(|it| it.expr())
+                .is_some_and(|it| it.syntax().text_range().contains(start_at_offset))
+        {
+            continue;
+        }
+
         let block_entries = resolve_scope
             .syntax_cast::<ast::BlockExpr>()
             .map(|block_expr| get_entries_in_block(db, block_expr, start_at))
-- 
2.43.0


From f6ca81d48bddf2edfc779b91c710dca1ae08c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 05/61] fix: a type parameter shadows an enum or tuple struct
 of the same name

---
 crates/lang/src/nameres/name_resolution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index b712594..4a5f3ed 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -7,7 +7,7 @@
 use crate::hir_db::get_modules_in_file;
 use crate::nameres::address::Address;
 use crate::nameres::blocks::get_entries_in_block;
-use crate::nameres::namespaces::{Ns, NsSet};
+use crate::nameres::namespaces::{ITEM_TYPE_NS, Ns, NsSet};
 use crate::nameres::path_resolution::ResolutionContext;
 use crate::nameres::resolve_scopes;
 use crate::nameres::scope::{NamedItemsInFileExt, ScopeEntry};
@@ -95,7 +95,9 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
 
-            let ns_pair = (entry_ns, scope_entry.name.as_str());
+            // structs, enums and type parameters shadow each other
+            let shadow_ns = if ITEM_TYPE_NS.contains(entry_ns) { Ns::TYPE } else { entry_ns };
+            let ns_pair = (shadow_ns, scope_entry.name.as_str());
             if prev_visited_names.contains(&ns_pair) {
                 continue;
             }
-- 
2.43.0


From e2b27bb6dbcf5f378e0c7546ea72ea52aea07076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 06/61] fix: find and rename enum variants and constants named
 in patterns

---
 crates/ide-db/src/rename.rs  |  4 +++-
 crates/ide-db/src/search.rs  | 10 ++++++++++
 crates/ide/src/references.rs |  3 ++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 6dc0581..59c4ee7 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -97,7 +97,9 @@ fn source_edit_from_name(
     name: &ast::Name,
     new_name: &dyn fmt::Display,
 ) -> bool {
-    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name) {
+    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name)
+        && struct_pat_field.name_ref().is_none()
+    {
         let ident_pat = struct_pat_field.ident_pat().unwrap();
         // Foo { field } -> Foo { new_name: field }
         //      ^ insert `new_name: `
diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 18bec57..9deff50 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -495,6 +495,16 @@ impl<'a> FindUsages<'a> {
                 };
                 sink(ident_pat.file_id, reference)
             }
+            Some(NameClass::ConstReference(Definition::NamedItem(_, named_item)))
+                if self.named_item == named_item =>
+            {
+                let FileRange { file_id, range } = self.sema.file_range(name.syntax());
+                let reference = FileReference {
+                    range,
+                    name: FileReferenceNode::Name(name.clone()),
+                };
+                sink(file_id, reference)
+            }
             _ => false,
         }
     }
diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index 8d098d9..8baf899 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -90,7 +90,8 @@ pub(crate) fn find_def_at_offset(
             }
         }
         ast::NameLike::Name(name) => match NameClass::classify(sema, name)? {
-            NameClass::Definition(Definition::NamedItem(_, named_item)) => Some(named_item),
+            NameClass::Definition(Definition::NamedItem(_, named_item))
+            | NameClass::ConstReference(Definition::NamedItem(_, named_item)) => Some(named_item),
             NameClass::PatFieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),
             _ => None,
         },
-- 
2.43.0


From 45dccbf8b02e97fa7fb32a182f608b0b51e15ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 07/61] fix: renaming a variable bound by a field shorthand
 pattern keeps the field name

---
 crates/ide-db/src/rename.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 59c4ee7..d2d9a19 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -188,8 +188,16 @@ fn source_edit_from_name_ref(
 fn source_edit_from_def(named_element: ast::NamedElement, new_name: &str) -> Result<TextEdit> {
     let mut edit = TextEdit::builder();
 
-    let old_name_range = named_element.name().unwrap().syntax().text_range();
-    edit.replace(old_name_range, new_name.to_string());
+    let old_name = named_element.name().unwrap();
+    let old_name_range = old_name.syntax().text_range();
+    let is_shorthand = matches!(named_element, ast::NamedElement::IdentPat(_))
+        && ast::StructPatField::for_field_name(&old_name).is_some_and(|it| it.name_ref().is_none());
+    if is_shorthand {
+        // Foo { field } -> Foo { field: new_name }
+        edit.replace(old_name_range, format!("{}: {new_name}", old_name.as_string()));
+    } else {
+        edit.replace(old_name_range, new_name.to_string());
+    }
     Ok(edit.finish())
 }
 
-- 
2.43.0


From 14a0816b4860dc3e03cecc3be67cb9b18b26ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 08/61] fix: a named address is recognised when blanks or
 comments follow it

---
 crates/lang/src/nameres/path_kind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/nameres/path_kind.rs b/crates/lang/src/nameres/path_kind.rs
index db02aba..69a706b 100644
--- a/crates/lang/src/nameres/path_kind.rs
+++ b/crates/lang/src/nameres/path_kind.rs
@@ -16,7 +16,7 @@ use std::fmt::Formatter;
 use syntax::SyntaxKind::*;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
-use syntax::{AstNode, SyntaxNode, T, ast};
+use syntax::{AstNode, Direction, SyntaxNode, T, algo, ast};
 
 #[derive(Clone, PartialEq, Eq)]
 pub enum PathKind {
@@ -117,7 +117,7 @@ pub fn path_kind(
     //     ^ qualifier
     let has_trailing_colon_colon = path
         .ident_token()
-        .and_then(|it| it.next_token())
+        .and_then(|it| algo::skip_trivia_token(it.next_token()?, Direction::Next))
         .is_some_and(|token| token.is_kind(T![::]));
 
     let ns = path_namespaces(qualifier.as_ref(), path_parent, is_completion);
-- 
2.43.0


From 078dec989b38877592b5807f0379c1623dc4d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 09/61] fix: no panic when an unindented use statement gets a
 #[test_only] fix

---
 crates/syntax/src/syntax_editor/syntax_editor_ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
index a7db036..30393ba 100644
--- a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
+++ b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
@@ -10,8 +10,7 @@ impl SyntaxEditor {
         self.insert_all(
             Position::after(relative_to.syntax()),
             vec![
-                make.newline().syntax_element(),
-                make.whitespace(&indent_level.to_string()).syntax_element(),
+                make.whitespace(&format!("\n{indent_level}")).syntax_element(),
                 element.syntax_element(),
             ],
         );
-- 
2.43.0


From ff057e63b51a7b13a3290fa0a84c92359d459e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 10/61] fix: use explicit type arguments of the enum in
 literals of its variants

---
 crates/lang/src/types/inference/ast_walker.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index bcd8c7d..d9c7249 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -783,9 +783,16 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         let fields_owner = fields_owner.unwrap();
 
         let struct_or_enum = fields_owner.struct_or_enum();
+        // type arguments of an enum variant are the ones of its enum, i.e. `S<u8>::One { .. }`
+        let generic_path = match fields_owner {
+            ast::FieldsOwner::Variant(_) if path.type_args().is_empty() => {
+                path.qualifier().unwrap_or(path)
+            }
+            _ => path,
+        };
         let explicit_ty_adt = self
             .ctx
-            .instantiate_path_with_ty_vars(path.into(), struct_or_enum.in_file(item_file_id))
+            .instantiate_path_with_ty_vars(generic_path.into(), struct_or_enum.in_file(item_file_id))
             .into_ty_adt()?;
 
         let mut ty_adt = explicit_ty_adt.clone();
-- 
2.43.0


From 100f5c10afdce0869886ef1412709a2d04e96f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 11/61] fix: variables of a lambda body type do not clash with
 the other variables of the function

---
 crates/lang/src/types/inference.rs                        | 4 +++-
 crates/lang/src/types/inference/ast_walker/lambda_expr.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index 342804b..7d92c38 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -36,7 +36,7 @@ use syntax::SyntaxKind::{STRUCT, VARIANT};
 use syntax::ast::node_ext::struct_pat_field::PatFieldKind;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct TyVarIndex(Cell<usize>);
 
 impl TyVarIndex {
@@ -101,6 +101,8 @@ impl<'db> InferenceCtx<'db> {
     pub fn from_parent_ctx(ctx: &'db InferenceCtx) -> InferenceCtx<'db> {
         let mut new_ctx = Self::new(ctx.db, ctx.file_id, ctx.msl);
         new_ctx.pat_types = ctx.pat_types.clone();
+        // continue the numbering, as types with the variables of the new ctx may end up in the parent one
+        new_ctx.ty_var_index = ctx.ty_var_index.clone();
         new_ctx
     }
 
diff --git a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
index 9c0c2cb..33d93ff 100644
--- a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
+++ b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
@@ -33,7 +33,11 @@ impl TypeAstWalker<'_, '_> {
         // // need to infer return type to proceed further
         let lambda_return_ty = if let Some(body_expr) = lambda_expr.body_expr() {
             let mut inner_ctx = InferenceCtx::from_parent_ctx(self.ctx);
-            TypeAstWalker::new(&mut inner_ctx, Ty::Unknown).infer_expr(&body_expr, Expected::NoValue)
+            let body_ty = TypeAstWalker::new(&mut inner_ctx, Ty::Unknown)
+                .infer_expr(&body_expr, Expected::NoValue);
+            // variables of the body must not clash with the ones created later
+            self.ctx.ty_var_index = inner_ctx.ty_var_index;
+            body_ty
         } else {
             Ty::Unit
         };
-- 
2.43.0


From 144ae644b28cb6cb5eae31582deedeb5542463c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 12/61] fix: no type error for an integer literal next to a
 diverging operand

---
 crates/lang/src/types/inference/combine_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index ff5f57f..243c6dd 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -209,8 +209,8 @@ impl InferenceCtx<'_> {
                 self.int_table.unify_var_var(&int_var, &ty_int_var)
             }
             Ty::Integer(_) => self.int_table.unify_var_value(&int_var, ty),
-            Ty::Unknown => {
-                // do nothing, unknown should not influence IntVar
+            Ty::Unknown | Ty::Never => {
+                // do nothing, unknown and never should not influence IntVar
             }
             _ => {
                 return Err(CombineError::type_mismatch(
-- 
2.43.0


From 8e3937231dbc608b3a67746541c2a63c84536a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 13/61] fix: check the type of a vector index against integer,
 not the type of the element

---
 crates/lang/src/types/inference/ast_walker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index d9c7249..732a0ad 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -876,7 +876,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 _ => {
                     self.ctx.coerce_types(
                         arg_expr.node_or_token(),
-                        item_ty.clone(),
+                        arg_ty,
                         if self.ctx.msl { Ty::Num } else { Ty::integer() },
                     );
                     item_ty
-- 
2.43.0


From d6f6689f563cd9b6784478f2820acb097a21a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 14/61] fix: check that the operand of '!' and a match guard
 are bool

---
 crates/lang/src/types/inference/ast_walker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index 732a0ad..b1bb3b3 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -478,7 +478,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
             ast::Expr::BangExpr(bang_expr) => bang_expr
                 .expr()
                 .map(|it| {
-                    self.infer_expr(&it, Expected::ExpectType(Ty::Bool));
+                    self.infer_expr_coerceable_to(&it, Ty::Bool);
                     Ty::Bool
                 })
                 .unwrap_or(Ty::Unknown),
@@ -909,7 +909,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 self.collect_pat_bindings(pat, match_arg_ty.clone(), BindingMode::BindByValue);
             }
             if let Some(match_guard_expr) = arm.match_guard().and_then(|it| it.expr()) {
-                self.infer_expr(&match_guard_expr, Expected::ExpectType(Ty::Bool));
+                self.infer_expr_coerceable_to(&match_guard_expr, Ty::Bool);
             }
             if let Some(arm_expr) = arm.expr() {
                 let arm_ty = self.infer_expr(&arm_expr, Expected::NoValue);
-- 
2.43.0


From 36a5280a5ad960aa96125114a9862006c900855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 15/61] fix: no panic when a type with an already inferred
 variable meets an unknown type

---
 crates/lang/src/types/inference/combine_types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index 243c6dd..e4ff2c4 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -143,6 +143,8 @@ impl InferenceCtx<'_> {
     fn unify_ty_vars_with_unknown(&mut self, tys: Vec<Ty>) {
         let ty_vars = RefCell::new(vec![]);
         for ty in tys {
+            // variables which already have a value keep it
+            let ty = self.resolve_ty_vars_if_possible(ty);
             ty.deep_visit_ty_infers(|ty_infer| {
                 if let TyInfer::Var(ty_var) = ty_infer {
                     ty_vars.borrow_mut().push(ty_var.clone());
-- 
2.43.0


From d7b02ec1f323c79d61cdbde08737b6f6e0ad002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 16/61] fix: exact integer type of bit operations and shifts

---
 crates/lang/src/types/inference/ast_walker.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index b1bb3b3..fb0a683 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1289,13 +1289,25 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         }
     }
 
+    /// Any integer type will do for `expr`, but it needs to stay exact:
+    /// neither type parameters of a generic call nor literals can be inferred to `integer` here.
+    fn infer_integer_operand(&mut self, expr: &ast::Expr) -> Ty {
+        let ty = self.infer_expr(expr, Expected::NoValue);
+        let resolved_ty = self.ctx.resolve_ty_vars_if_possible(ty.clone());
+        if !matches!(resolved_ty, Ty::Infer(TyInfer::IntVar(_))) {
+            self.ctx
+                .coerce_types(expr.node_or_token(), ty.clone(), Ty::integer());
+        }
+        ty
+    }
+
     fn infer_bit_ops_binary_expr(
         &mut self,
         lhs: ast::Expr,
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, lhs_ty.clone());
         }
@@ -1308,7 +1320,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, Ty::Integer(IntegerKind::U8));
         }
-- 
2.43.0


From c16eb8cdb467c102cb4f4e25180032451db3d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 17/61] fix: the receiver of a method call determines its type
 arguments

---
 crates/lang/src/types/inference/ast_walker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index fb0a683..b248e52 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -671,6 +671,11 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         };
         let method_call_ty = self.ctx.resolve_ty_vars_if_possible(method_ty);
 
+        // type arguments come from the receiver first, expected type cannot change them
+        if let Some(self_param_ty) = method_call_ty.param_types.first() {
+            let self_ty = self_ty.clone();
+            self.coerce_arg(CallArg::Self_ { self_ty }, self_param_ty.to_owned());
+        }
         let expected_arg_tys = self.infer_expected_call_arg_tys(&method_call_ty, expected);
         let args = iter::once(CallArg::Self_ { self_ty })
             .chain(
-- 
2.43.0


From 376b303b29c9ef55973ebcb3fd2174b281699aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 18/61] fix: do not panic on a function parameter without a
 name

---
 crates/syntax/src/ast/node_ext/param.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/ast/node_ext/param.rs b/crates/syntax/src/ast/node_ext/param.rs
index ce0c7e1..6bd9510 100644
--- a/crates/syntax/src/ast/node_ext/param.rs
+++ b/crates/syntax/src/ast/node_ext/param.rs
@@ -22,9 +22,11 @@ impl ast::Param {
         if self.wildcard_pat().is_some() {
             return "_".to_string();
         }
-        // todo: ident_pat can be none
-        let ident_pat = self.ident_pat().unwrap();
-        ident_pat.name().unwrap().as_string()
+        // ident_pat can be none in an incomplete code
+        self.ident_pat()
+            .and_then(|it| it.name())
+            .map(|it| it.as_string())
+            .unwrap_or_else(|| "_".to_string())
     }
 
     pub fn is_self(&self) -> bool {
-- 
2.43.0


From 0854a7d784cfc3c1ad4786d53b216b3c58976fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 19/61] fix: do not insert snippet placeholders for a client
 without snippet support

---
 crates/ide-completion/src/item.rs | 14 ++++++++++++++
 crates/ide-completion/src/lib.rs  | 12 ++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/ide-completion/src/item.rs b/crates/ide-completion/src/item.rs
index 66418b7..14afa29 100644
--- a/crates/ide-completion/src/item.rs
+++ b/crates/ide-completion/src/item.rs
@@ -267,6 +267,20 @@ impl CompletionItem {
         }
     }
 
+    /// Plain text version of the item, for the clients which do not support snippets.
+    pub(crate) fn without_snippet(mut self) -> CompletionItem {
+        if self.is_snippet {
+            let mut text_edit = TextEdit::builder();
+            for change in self.text_edit.iter() {
+                let plain_text = change.new_text.replace("$0", "").trim_end().to_string();
+                text_edit.replace(change.range, plain_text);
+            }
+            self.text_edit = text_edit.finish();
+            self.is_snippet = false;
+        }
+        self
+    }
+
     /// What string is used for filtering.
     pub fn lookup(&self) -> &str {
         self.lookup.as_str()
diff --git a/crates/ide-completion/src/lib.rs b/crates/ide-completion/src/lib.rs
index 4c84581..07db715 100644
--- a/crates/ide-completion/src/lib.rs
+++ b/crates/ide-completion/src/lib.rs
@@ -61,8 +61,16 @@ pub fn completions(
         }
     }
 
-    let completions = completions.into_inner();
-    Some(completions.into())
+    let completions: Vec<CompletionItem> = completions.into_inner().into();
+    if config.allow_snippets.is_none() {
+        return Some(
+            completions
+                .into_iter()
+                .map(|it| it.without_snippet())
+                .collect(),
+        );
+    }
+    Some(completions)
 }
 
 /// Resolves additional completion data at the position given.
-- 
2.43.0


From 16cc3288cc110cfa11c0b91466c38aabac72a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 20/61] fix: find references of builtin items in all packages,
 do not panic

---
 crates/ide-db/src/search.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 9deff50..ee0c79f 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -108,7 +108,6 @@ pub fn item_search_scope(db: &RootDatabase, named_item: &InFile<ast::NamedElemen
     let _p = tracing::info_span!("item_search_scope").entered();
 
     let (file_id, _named_item) = named_item.unpack_ref();
-    let package_id = db.file_package_id(file_id);
 
     if let Some(ident_pat) = named_item.cast_into_ref::<ast::IdentPat>() {
         if let Some(search_scope) = ident_pat_search_scope(db, ident_pat) {
@@ -123,7 +122,15 @@ pub fn item_search_scope(db: &RootDatabase, named_item: &InFile<ast::NamedElemen
         }
     }
 
-    SearchScope::from_reverse_dependencies(db, package_id)
+    // builtin items do not belong to any package, and they're accessible everywhere
+    if db
+        .builtins_file_id()
+        .is_some_and(|it| it.data(db) == file_id)
+    {
+        return SearchScope::from_all_packages(db);
+    }
+
+    SearchScope::from_reverse_dependencies(db, db.file_package_id(file_id))
 }
 
 fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -> Option<SearchScope> {
@@ -221,6 +228,16 @@ impl SearchScope {
         SearchScope::new(entries.into_iter().collect())
     }
 
+    /// Build a search scope spanning all the packages.
+    pub fn from_all_packages(db: &RootDatabase) -> SearchScope {
+        let mut entries = vec![];
+        for package_id in db.all_package_ids().data(db) {
+            let file_ids = hir_db::source_file_ids_in_package(db, package_id);
+            entries.extend(file_ids.iter().map(|file_id| (*file_id, None)));
+        }
+        SearchScope::new(entries.into_iter().collect())
+    }
+
     /// Build a search scope spanning the given crate.
     pub fn from_package(db: &RootDatabase, of: PackageId) -> SearchScope {
         SearchScope {
-- 
2.43.0


From 18748ffad7f16b8458e8d05379b13231585bca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 21/61] fix: keep the field when a shorthand pattern variable
 gets an underscore prefix

---
 .../src/handlers/unused_variables.rs          | 21 ++++++++++++++++---
 crates/syntax/src/ast/make.rs                 |  2 +-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index a1b89c6..795c618 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -12,7 +12,7 @@ use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile};
-use syntax::{AstNode, ast};
+use syntax::{AstNode, T, ast};
 
 #[tracing::instrument(level = "debug", skip_all)]
 pub(crate) fn check_unused_ident_pat<'db>(
@@ -102,7 +102,8 @@ fn fixes(
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(ident_pat.as_ref())?;
-    let new_ident_name = format!("_{}", ident_pat.value.name()?.as_string());
+    let ident_name = ident_pat.value.name()?.as_string();
+    let new_ident_name = format!("_{ident_name}");
     assists.add_fix(
         "rename-with-underscore-prefix",
         format!("Rename to {new_ident_name}"),
@@ -110,7 +111,21 @@ fn fixes(
         |editor| {
             let make = SyntaxFactory::new();
             let new_ident_pat = make.ident_pat(&new_ident_name);
-            editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+            let pat_field = ident_pat.value.syntax().parent_of_type::<ast::StructPatField>();
+            if pat_field.is_some_and(|it| it.is_shorthand()) {
+                // `S { val }` -> `S { val: _val }`
+                editor.replace_with_many(
+                    ident_pat.value.syntax(),
+                    vec![
+                        make.name_ref(&ident_name).syntax().clone().into(),
+                        make.token(T![:]).into(),
+                        make.whitespace(" ").into(),
+                        new_ident_pat.syntax().clone().into(),
+                    ],
+                );
+            } else {
+                editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+            }
             editor.add_mappings(make.finish_with_mappings());
         },
     );
diff --git a/crates/syntax/src/ast/make.rs b/crates/syntax/src/ast/make.rs
index 34e36d4..7c4a280 100644
--- a/crates/syntax/src/ast/make.rs
+++ b/crates/syntax/src/ast/make.rs
@@ -61,7 +61,7 @@ pub mod tokens {
     use crate::{AstNode, Parse, SourceFile, SyntaxKind::*, SyntaxToken, ast};
 
     pub(crate) static SOURCE_FILE: LazyLock<Parse> =
-        LazyLock::new(|| SourceFile::parse("module 0x1::m { fun main() { 1; 1 + 1; } }"));
+        LazyLock::new(|| SourceFile::parse("module 0x1::m { fun main(a: u8) { 1; 1 + 1; } }"));
 
     pub fn semicolon() -> SyntaxToken {
         SOURCE_FILE
-- 
2.43.0


From c6401ad4d8b387484f7073383bea0a1a5b71ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 22/61] fix: use the function name for a method call if
 function is imported with an alias

---
 .../src/handlers/can_be_replaced_with_method_call.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index 56099e2..2df49c7 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -79,7 +79,12 @@ pub(crate) fn can_be_replaced_with_method_call(
                 "Can be replaced with method call",
                 call_expr.file_range(),
             )
-            .with_local_fixes(fixes(ctx, call_expr.clone(), call_expr.file_range())),
+            .with_local_fixes(fixes(
+                ctx,
+                call_expr.clone(),
+                fun.value.name()?.as_string(),
+                call_expr.file_range(),
+            )),
         )
     }
 
@@ -90,6 +95,8 @@ pub(crate) fn can_be_replaced_with_method_call(
 fn fixes(
     ctx: &DiagnosticsContext<'_>,
     call_expr: InFile<ast::CallExpr>,
+    // function can be imported with an alias, which cannot be used as a method name
+    method_name: String,
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
@@ -101,7 +108,6 @@ fn fixes(
         receiver_expr = receiver_expr.borrow_expr().unwrap().expr()?;
     }
 
-    let name = call_expr.path()?.reference_name()?;
     let type_arg_list = call_expr.path()?.segment().and_then(|it| it.type_arg_list());
 
     let method_args = call_expr
@@ -137,7 +143,7 @@ fn fixes(
             let method_arg_list = make.arg_list(method_args);
             let method_call_expr = make.method_call_expr(
                 receiver_expr,
-                make.name_ref(&name),
+                make.name_ref(&method_name),
                 type_arg_list,
                 method_arg_list,
             );
-- 
2.43.0


From a22653be1747916dfb1ddbdc5b4f6512a9f7fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 23/61] fix: type arguments follow the method name immediately
 when redundant :: is removed

---
 .../src/handlers/simplify_turbofish.rs        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
index edb07c3..412d69e 100644
--- a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
+++ b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
@@ -1,6 +1,8 @@
 use crate::DiagnosticsContext;
 use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
+use std::iter;
+use syntax::SyntaxKind::COMMENT;
 use syntax::ast;
 use syntax::files::{FileRange, InFile, InFileExt};
 
@@ -35,14 +37,27 @@ fn fixes(
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(type_arg_list.as_ref())?;
+
+    // without `::` type arguments have to follow the name immediately, otherwise `<` is a comparison
+    let coloncolon = type_arg_list.value.coloncolon_token()?;
+    let trivia_before = iter::successors(coloncolon.prev_token(), |it| it.prev_token())
+        .take_while(|it| it.kind().is_trivia());
+    let trivia_after = iter::successors(coloncolon.next_token(), |it| it.next_token())
+        .take_while(|it| it.kind().is_trivia());
+    let trivia = trivia_before.chain(trivia_after).collect::<Vec<_>>();
+    if trivia.iter().any(|it| it.kind() == COMMENT) {
+        return None;
+    }
+
     assists.add_fix(
         "remove-redundant-coloncolon",
         "Remove redundant ::",
         diagnostic_range.range,
         |editor| {
-            if let Some(coloncolon) = type_arg_list.value.coloncolon_token() {
-                editor.delete(coloncolon);
+            for ws in trivia {
+                editor.delete(ws);
             }
+            editor.delete(coloncolon);
         },
     );
     Some(assists)
-- 
2.43.0


From f633c76d11347c3f5efa318c8e19cb7b2c5f9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 24/61] fix: keep package/friend and fun separated when the
 visibility is simplified

---
 .../ide-diagnostics/src/handlers/replace_with_friend.rs  | 9 ++++++++-
 .../ide-diagnostics/src/handlers/replace_with_package.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/replace_with_friend.rs b/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
index fd498ca..6d1ca9b 100644
--- a/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
+++ b/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
@@ -6,6 +6,7 @@ use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
 use syntax::ast;
 use syntax::ast::AstNode;
+use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile, InFileExt};
 
 pub(crate) fn public_friend_can_be_replaced_with_friend(
@@ -51,7 +52,13 @@ fn fixes(
                 editor.delete(l_paren);
             }
             if let Some(r_paren) = vis.r_paren_token() {
-                editor.delete(r_paren);
+                let is_followed_by_trivia = r_paren.next_token().is_some_and(|it| it.kind().is_trivia());
+                if is_followed_by_trivia {
+                    editor.delete(r_paren);
+                } else {
+                    // `public(friend)fun` -> `friend fun`
+                    editor.replace(r_paren, SyntaxFactory::new().whitespace(" "));
+                }
             }
         },
     );
diff --git a/crates/ide-diagnostics/src/handlers/replace_with_package.rs b/crates/ide-diagnostics/src/handlers/replace_with_package.rs
index 7eedb7b..1fb54c2 100644
--- a/crates/ide-diagnostics/src/handlers/replace_with_package.rs
+++ b/crates/ide-diagnostics/src/handlers/replace_with_package.rs
@@ -6,6 +6,7 @@ use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
 use syntax::ast;
 use syntax::ast::AstNode;
+use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile, InFileExt};
 
 pub(crate) fn public_package_can_be_replaced_with_package(
@@ -51,7 +52,13 @@ fn fixes(
                 editor.delete(l_paren);
             }
             if let Some(r_paren) = vis.r_paren_token() {
-                editor.delete(r_paren);
+                let is_followed_by_trivia = r_paren.next_token().is_some_and(|it| it.kind().is_trivia());
+                if is_followed_by_trivia {
+                    editor.delete(r_paren);
+                } else {
+                    // `public(package)fun` -> `package fun`
+                    editor.replace(r_paren, SyntaxFactory::new().whitespace(" "));
+                }
             }
         },
     );
-- 
2.43.0


From 22dcd33001b81da26f324aee4e738301ef79feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 25/61] fix: parenthesize a block receiver when a call is
 replaced with a method call

---
 .../src/handlers/can_be_replaced_with_method_call.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index 2df49c7..1ce9d24 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -133,7 +133,7 @@ fn fixes(
                 // all AtomExpr list, same priority as MvDotExpr
                 VECTOR_LIT_EXPR | STRUCT_LIT | TUPLE_EXPR | PAREN_EXPR | ANNOTATED_EXPR | DOT_EXPR
                 | METHOD_CALL_EXPR | INDEX_EXPR | CALL_EXPR | ASSERT_MACRO_EXPR | PATH_EXPR
-                | LAMBDA_EXPR | LITERAL | BLOCK_EXPR => {
+                | LAMBDA_EXPR | LITERAL => {
                     // do nothing, those operations priorities are correct without parens
                 }
                 _ => {
-- 
2.43.0


From fa38f7b2de58ede7408f9cdc9c739c3e0b95755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 26/61] fix: allow to delete adjacent elements in one edit

---
 crates/syntax/src/syntax_editor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/syntax/src/syntax_editor.rs b/crates/syntax/src/syntax_editor.rs
index d5d3874..caa7952 100644
--- a/crates/syntax/src/syntax_editor.rs
+++ b/crates/syntax/src/syntax_editor.rs
@@ -71,6 +71,14 @@ impl SyntaxEditor {
             !matches!(&element, SyntaxElement::Node(node) if node == &self.root),
             "should not delete root node"
         );
+        // trivia and commas between two deleted elements belong to both of them
+        let is_deleted = self
+            .changes
+            .iter()
+            .any(|it| matches!(it, Change::Replace(deleted, None) if deleted == &element));
+        if is_deleted {
+            return;
+        }
         self.changes.push(Change::Replace(element.syntax_element(), None));
     }
 
-- 
2.43.0


From 29fc4c9a0b845c4e5762fc1f248237787a1a6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 27/61] fix: organize imports changes every use statement once

---
 .../unused_import/organize_imports.rs         | 175 ++++++++++--------
 1 file changed, 100 insertions(+), 75 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
index 15470c0..3ca8c36 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
@@ -2,15 +2,15 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use crate::handlers::reduced_scope_import::find_use_items_with_redundant_main_scope;
-use crate::handlers::unused_import::{
-    UnusedUseKind, UnusedUseStmtKind, find_unused_use_items, unused_use_kind,
-};
+use crate::handlers::unused_import::{UnusedUseKind, find_unused_use_items, unused_use_kind};
 use base_db::SourceDatabase;
 use ide_db::RootDatabase;
 use ide_db::assist_context::LocalAssists;
 use ide_db::assists::{Assist, AssistResolveStrategy};
 use lang::Semantics;
-use lang::loc::SyntaxLocFileExt;
+use lang::loc::{SyntaxLoc, SyntaxLocFileExt};
+use lang::nameres::use_speck_entries::UseItem;
+use stdx::itertools::Itertools;
 use syntax::ast::UseStmtsOwner;
 use syntax::ast::edit::AstNodeEdit;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
@@ -46,96 +46,121 @@ fn organize_imports_in_stmts_owner(
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
     let unused_use_items = find_unused_use_items(db, &use_stmts_owner)?;
+    let test_only_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
     let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
     for use_stmt in use_stmts {
-        let unused_stmt_use_items = unused_use_items
-            .iter()
-            .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
-            .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
-        remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_use_kind, editor);
-    }
-
-    let redundant_main_scope_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
-    let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
-    for use_stmt in use_stmts {
-        let redundant_scope_use_items = redundant_main_scope_use_items
-            .iter()
-            .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
-            .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), redundant_scope_use_items)?;
-        replace_main_scope_with_test_only(db, use_stmt.value, unused_use_kind, editor);
+        let use_kind = |use_items: &Vec<UseItem>| {
+            let stmt_use_items = use_items
+                .iter()
+                .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
+                .collect::<Vec<_>>();
+            unused_use_kind(db, use_stmt.clone(), stmt_use_items)
+        };
+        let unused_use_kind = use_kind(&unused_use_items)?;
+        let test_only_use_kind = use_kind(&test_only_use_items)?;
+        organize_use_stmt(
+            db,
+            use_stmt.value.clone(),
+            unused_use_kind,
+            test_only_use_kind,
+            editor,
+        );
     }
-
     Some(())
 }
 
-fn remove_unused_imports_in_use_stmt(
+// every element of the `use_stmt` can be changed only once in the `editor`
+fn organize_use_stmt(
     db: &dyn SourceDatabase,
     use_stmt: ast::UseStmt,
     unused_use_kind: UnusedUseKind,
+    test_only_use_kind: UnusedUseKind,
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
-    match &unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, .. } => use_stmt.value.delete(editor),
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
-            if use_stmt.use_speck().is_some_and(|it| it.is_root_self()) {
-                // try to simplify use stmt
-                use_stmt.simplify_root_self(editor);
-                return Some(());
+    let UnusedUseKind::UseSpeck { use_speck_locs: unused_locs } = unused_use_kind else {
+        use_stmt.delete(editor);
+        return Some(());
+    };
+
+    let root_use_speck = use_stmt.use_speck()?;
+    let module_path = root_use_speck.path()?;
+
+    let make = SyntaxFactory::new();
+    let group_item_as_root = |use_speck: &ast::UseSpeck| {
+        let item_name_ref = if use_speck.is_group_self() {
+            None
+        } else {
+            Some(use_speck.path_name_ref()?)
+        };
+        Some(make.root_use_speck(module_path.clone(), item_name_ref, use_speck.use_alias()))
+    };
+    let test_only_use_stmt = |use_speck: ast::UseSpeck| {
+        make.use_stmt(vec![make.attr("test_only")], use_speck)
+            .indent_inner(use_stmt.indent_level())
+    };
+
+    let UnusedUseKind::UseSpeck { use_speck_locs: test_only_locs } = test_only_use_kind else {
+        let simplified_use_speck = if root_use_speck.is_root_self() {
+            Some(make.root_use_speck(module_path.qualifier()?, None, root_use_speck.use_alias()))
+        } else {
+            let single_use_speck = use_stmt.group_use_specks().into_iter().exactly_one().ok();
+            single_use_speck.and_then(|it| group_item_as_root(&it))
+        };
+        match simplified_use_speck {
+            Some(use_speck) => {
+                editor.replace(use_stmt.syntax(), test_only_use_stmt(use_speck).syntax());
             }
-            let use_specks = use_speck_locs
-                .iter()
-                .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
-                .map(|it| it.value)
-                .collect();
-            use_stmt.delete_group_use_specks(editor, use_specks);
+            None => use_stmt.add_attribute(editor, "test_only"),
         }
+        return Some(());
+    };
+
+    if root_use_speck.is_root_self() {
+        // try to simplify use stmt
+        use_stmt.simplify_root_self(editor);
+        return Some(());
     }
-    Some(())
-}
 
-fn replace_main_scope_with_test_only(
-    db: &dyn SourceDatabase,
-    use_stmt: ast::UseStmt,
-    unused_use_kind: UnusedUseKind,
-    editor: &mut SyntaxEditor,
-) -> Option<()> {
-    match unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, kind } => {
-            if kind == UnusedUseStmtKind::EmptyGroup {
-                return None;
-            }
-            use_stmt.value.add_attribute(editor, "test_only");
-        }
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
-            let root_use_speck = use_stmt.use_speck()?;
-            let module_path = root_use_speck.path()?;
-            for use_speck_loc in use_speck_locs {
-                if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(db).map(|it| it.value)
-                    && let Some(use_speck_name_ref) = use_speck.path_name_ref()
-                {
-                    let use_speck_alias = use_speck.use_alias().clone();
-                    use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
+    // the rest is for the groups only
+    root_use_speck.use_group()?;
+
+    let to_use_specks = |locs: Vec<SyntaxLoc>| {
+        locs.iter()
+            .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
+            .map(|it| it.value)
+            .collect::<Vec<_>>()
+    };
+    let test_only_use_specks = to_use_specks(test_only_locs);
+    let mut use_specks_to_delete = to_use_specks(unused_locs);
+    use_specks_to_delete.extend(test_only_use_specks.clone());
 
-                    let make = SyntaxFactory::new();
-                    let new_root_use_speck = make.root_use_speck(
-                        module_path.clone(),
-                        Some(use_speck_name_ref.clone()),
-                        use_speck_alias,
-                    );
-                    editor.insert_at_next_line_after(
-                        &use_stmt,
-                        make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
-                            .indent_inner(use_stmt.indent_level())
-                            .syntax()
-                            .syntax_element(),
-                    );
+    let test_only_use_stmts = test_only_use_specks
+        .iter()
+        .filter_map(group_item_as_root)
+        .map(test_only_use_stmt)
+        .collect::<Vec<_>>();
 
-                    editor.add_mappings(make.finish_with_mappings());
-                }
+    let is_anything_left = use_stmt
+        .group_use_specks()
+        .iter()
+        .any(|it| !use_specks_to_delete.contains(it));
+    if is_anything_left {
+        use_stmt.delete_group_use_specks(editor, use_specks_to_delete);
+        for test_only_use_stmt in test_only_use_stmts {
+            editor.insert_at_next_line_after(&use_stmt, test_only_use_stmt.syntax().syntax_element());
+        }
+    } else {
+        let newline = format!("\n{}", use_stmt.indent_level());
+        let mut new_elements = vec![];
+        for (i, test_only_use_stmt) in test_only_use_stmts.iter().enumerate() {
+            if i > 0 {
+                new_elements.push(make.whitespace(&newline).syntax_element());
             }
+            new_elements.push(test_only_use_stmt.syntax().syntax_element());
         }
+        editor.replace_with_many(use_stmt.syntax(), new_elements);
     }
+    editor.add_mappings(make.finish_with_mappings());
+
     Some(())
 }
-- 
2.43.0


From 7ee24f4e28c6e8cf9ae8fd95da1ae0d3bbdb8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 28/61] fix: keep a keyword separated from the index expression
 replacing a dereference

---
 .../src/handlers/can_be_replaced_with_index_expr.rs   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
index a2210c1..0c8e8a0 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
@@ -10,8 +10,10 @@ use lang::loc::SyntaxLocNodeExt;
 use lang::nameres::address;
 use lang::nameres::fq_named_element::ItemFQName;
 use lang::types::abilities::Ability;
+use syntax::SyntaxKind::IDENT;
 use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile, InFileExt};
+use syntax::syntax_editor::Position;
 use syntax::{AstNode, ast};
 
 #[tracing::instrument(level = "debug", skip_all)]
@@ -132,6 +134,15 @@ fn fixes(
                 base_expr = make.paren_expr(base_expr).into();
             }
             let new_index_expr = make.index_expr(base_expr, arg_expr);
+            // `else*vector::borrow(v, i)` -> `else v[i]`
+            let is_preceded_by_word = deref_expr
+                .syntax()
+                .first_token()
+                .and_then(|it| it.prev_token())
+                .is_some_and(|it| it.kind() == IDENT || it.kind().is_keyword());
+            if is_preceded_by_word {
+                editor.insert(Position::before(deref_expr.syntax()), make.whitespace(" "));
+            }
             editor.replace(deref_expr.syntax(), new_index_expr.syntax());
 
             editor.add_mappings(make.finish_with_mappings());
-- 
2.43.0


From b3e57480c8de198028fd21077f42d2ccefc4d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 29/61] fix: prepare_rename returns the name under the cursor,
 not the declaration's range

---
 crates/ide/src/rename.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 3d5aac9..61b3e80 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -22,13 +22,13 @@ pub(crate) fn prepare_rename(db: &RootDatabase, position: FilePosition) -> Renam
     let source_file = sema.parse(position.file_id);
     let syntax = source_file.syntax();
 
-    let named_element = find_definition(&sema, syntax, position)?;
-    let name = named_element
-        .value
-        .name()
+    find_definition(&sema, syntax, position)?;
+    // the range under the cursor, the declaration itself can be in some other file
+    let name_like = sema
+        .find_namelike_at_offset(syntax, position.offset)
         .ok_or_else(|| format_err!("No references found at position"))?;
 
-    Ok(RangeInfo::new(name.syntax().text_range(), ()))
+    Ok(RangeInfo::new(name_like.syntax().text_range(), ()))
 }
 
 pub(crate) fn rename(
-- 
2.43.0


From 299fc0653a9e6ae7ce48211ef6a7d7196c8a4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 30/61] fix: references to a builtin item don't include its
 declaration in the internal builtins file

---
 crates/ide/src/references.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index 8baf899..79e0f82 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -64,7 +64,12 @@ pub(crate) fn find_all_refs<'a>(
         })
         .collect();
 
-    let declaration = NavigationTarget::from_named_item(named_item);
+    // builtins are declared in the internal file that's not available to the clients
+    let declaration = if sema.is_builtins_file(named_item.file_id) {
+        None
+    } else {
+        NavigationTarget::from_named_item(named_item)
+    };
     Some(ReferenceSearchResult { declaration, references })
 }
 
-- 
2.43.0


From 07ed8924ea7c690d19cb8d3a456802fa2ef0afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 31/61] fix: refuse to rename built-in items

---
 crates/ide/src/rename.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 61b3e80..4db1d6e 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -108,5 +108,9 @@ fn find_definition(
         }
     };
 
+    if sema.is_builtins_file(def.file_id) {
+        bail!("Cannot rename built-in item.");
+    }
+
     Ok(def)
 }
-- 
2.43.0


From bc19a7788f26f5d01dc9ef1ab19ebe6396509a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 32/61] fix: server crash when a file is deleted

---
 crates/base-db/src/change.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/base-db/src/change.rs b/crates/base-db/src/change.rs
index 3713b1a..03c40d8 100644
--- a/crates/base-db/src/change.rs
+++ b/crates/base-db/src/change.rs
@@ -80,9 +80,10 @@ impl FileChanges {
 
         let is_replacing_package_roots = self.package_roots.is_some();
         for (file_id, text) in self.files_changed {
+            let is_deleted = text.is_none();
             let text = text.unwrap_or_default();
-            // only use durability if roots are explicitly provided
-            if is_replacing_package_roots {
+            // only use durability if roots are explicitly provided (deleted files are not in any root)
+            if is_replacing_package_roots && !is_deleted {
                 let package_id = db.file_package_id(file_id);
                 let package_root = db.package_root(package_id).data(db);
                 let durability = file_text_durability(&package_root);
-- 
2.43.0


From fd4d5712545f06d93722a11e01495308786b9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 33/61] fix: missing-const-doc-comment on builtin constants

---
 crates/ide-diagnostics/src/handlers/error_const_docs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/error_const_docs.rs b/crates/ide-diagnostics/src/handlers/error_const_docs.rs
index eea88b2..c54493e 100644
--- a/crates/ide-diagnostics/src/handlers/error_const_docs.rs
+++ b/crates/ide-diagnostics/src/handlers/error_const_docs.rs
@@ -46,6 +46,10 @@ fn check_if_resolved_to_documented_error_const(
     let const_item = ctx
         .sema
         .resolve_to_element::<ast::Const>(error_path.in_file(file_id))?;
+    // builtin constants, there is no source file to document them in
+    if ctx.sema.is_builtins_file(const_item.file_id) {
+        return None;
+    }
 
     let const_ident = const_item.clone().and_then(|it| it.name())?;
 
-- 
2.43.0


From efbddb62c12adb33ca9fd8bacb472b12b21f53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 34/61] fix: panic in expression fixes on code with syntax
 errors

---
 .../src/handlers/can_be_replaced_with_compound_expr.rs   | 3 +++
 .../src/handlers/can_be_replaced_with_index_expr.rs      | 3 +++
 .../src/handlers/can_be_replaced_with_method_call.rs     | 3 +++
 crates/ide-diagnostics/src/lib.rs                        | 9 ++++++++-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
index b3d3a05..1627df6 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
@@ -45,6 +45,9 @@ fn fixes(
     let mut assists = ctx.local_assists_for_node(bin_expr.as_ref())?;
 
     let (_, bin_expr) = bin_expr.unpack();
+    if ctx.has_syntax_errors(&bin_expr) {
+        return None;
+    }
     let (lhs_expr, _, rhs_expr) = bin_expr.clone().unpack()?;
 
     let initializer_expr = rhs_expr?.bin_expr()?;
diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
index 0c8e8a0..26caec8 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
@@ -121,6 +121,9 @@ fn fixes(
     };
 
     let mut assists = ctx.local_assists_for_node(deref_expr.as_ref())?;
+    if ctx.has_syntax_errors(&deref_expr.value) {
+        return None;
+    }
     assists.add_fix(
         "replace-with-index-expr",
         "Replace with vector index expr",
diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index 1ce9d24..a9a3639 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -102,6 +102,9 @@ fn fixes(
     let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
 
     let call_expr = call_expr.value;
+    if ctx.has_syntax_errors(&call_expr) {
+        return None;
+    }
 
     let mut receiver_expr = call_expr.arg_exprs().first()?.to_owned()?;
     if receiver_expr.syntax().kind() == BORROW_EXPR {
diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..475cad4 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -22,7 +22,7 @@ use lang::Semantics;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::files::{FileRange, InFile, InFileExt};
 use syntax::syntax_editor::SyntaxEditor;
-use syntax::{AstNode, TextRange, ast, match_ast};
+use syntax::{AstNode, SourceFile, TextRange, ast, match_ast};
 use vfs::FileId;
 
 struct DiagnosticsContext<'a> {
@@ -48,6 +48,13 @@ impl DiagnosticsContext<'_> {
         fixes.add_fix(id, label, target, f);
         fixes.assists().pop()
     }
+
+    /// Fixes build the replacement from the text of the expression, impossible if there are syntax errors in it.
+    pub(crate) fn has_syntax_errors(&self, expr: &impl AstNode) -> bool {
+        let text = expr.syntax().text();
+        let parse = SourceFile::parse(&format!("module 0x1::m {{ fun main() {{ {text} }} }}"));
+        !parse.errors().is_empty()
+    }
 }
 
 /// Request parser level diagnostics for the given [`FileId`].
-- 
2.43.0


From 2baca655abe7f53ed2ecc42279947864d0f52054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 35/61] fix: query cycle on an unqualified module spec

---
 crates/lang/src/node_ext/item.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/lang/src/node_ext/item.rs b/crates/lang/src/node_ext/item.rs
index 4d0107c..e9cb1a7 100644
--- a/crates/lang/src/node_ext/item.rs
+++ b/crates/lang/src/node_ext/item.rs
@@ -17,6 +17,11 @@ pub trait ModuleItemExt {
 impl ModuleItemExt for InFile<ast::ModuleSpec> {
     fn module(&self, db: &dyn SourceDatabase) -> Option<InFile<ast::Module>> {
         let module_path = self.and_then_ref(|it| it.path())?;
+        // only `addr::module`, anything else would be resolved through the imports, which depend on the module specs
+        let address_path = module_path.value.qualifier()?;
+        if address_path.qualifier().is_some() {
+            return None;
+        }
         nameres::resolve_no_inf_cast::<ast::Module>(db, module_path)
     }
 }
-- 
2.43.0


From 872c15f5f2eb1b1c43dd4cb47d611ee7104953ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 36/61] fix: index expr fix loses the only type of a vector
 literal

---
 .../can_be_replaced_with_index_expr.rs         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
index 26caec8..cc3c783 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
@@ -86,6 +86,14 @@ pub(crate) fn can_be_replaced_with_index_expr(
     Some(())
 }
 
+/// `vector[]` without explicit type
+fn has_untyped_vector_lit(expr: &ast::Expr) -> bool {
+    expr.syntax()
+        .descendants()
+        .filter_map(ast::VectorLitExpr::cast)
+        .any(|it| it.type_arg_list().is_none())
+}
+
 fn fixes(
     ctx: &DiagnosticsContext<'_>,
     deref_expr: InFile<ast::DerefExpr>,
@@ -97,12 +105,22 @@ fn fixes(
             let mut args = call_expr.arg_exprs().into_iter();
             let receiver_param_expr = args.next()??;
             let arg_param_expr = args.next()??;
+            // type arguments of the call are lost, and that could be the only place where the type is specified
+            let path = call_expr.path()?;
+            if path.segment().is_some_and(|it| it.type_arg_list().is_some())
+                && has_untyped_vector_lit(&receiver_param_expr)
+            {
+                return None;
+            }
             (receiver_param_expr, arg_param_expr)
         }
         ast::AnyCallExpr::MethodCallExpr(method_call_expr) => {
             let mut args = method_call_expr.arg_exprs().into_iter();
             let receiver_param_expr = method_call_expr.receiver_expr();
             let arg_param_expr = args.next()??;
+            if method_call_expr.type_arg_list().is_some() && has_untyped_vector_lit(&receiver_param_expr) {
+                return None;
+            }
             (receiver_param_expr, arg_param_expr)
         }
         _ => {
-- 
2.43.0


From 979c6d455c9694b3d459ed36a58a899567202d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 37/61] fix: outdated package ids after change of package roots

---
 crates/ide-db/src/root_db.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index b21453b..eeae151 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -83,6 +83,8 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn file_package_id(&self, id: FileId) -> PackageId {
+        // ids are recreated together with the package roots, everything that depends on the old ones is outdated then
+        let _ = self.all_package_ids().data(self);
         self.files.file_package_id(id)
     }
 
-- 
2.43.0


From c6e11a05467d378001b1c803acc4f6cd18309762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 38/61] fix: package maps are changed while snapshots of the
 database still use them

---
 crates/base-db/src/inputs.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 6e6449d..5634420 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -123,6 +123,16 @@ impl Files {
     }
 
     pub fn replace_package_roots(&self, db: &mut dyn SourceDatabase, package_roots: Vec<PackageRoot>) {
+        let all_package_ids = (0..package_roots.len())
+            .map(|idx| PackageId::new(db, idx as u32))
+            .collect::<Vec<_>>();
+        // needs to be first: waits for the snapshots of the database, which share the maps below, to be cancelled
+        self.all_package_ids
+            .unwrap()
+            .set_data(db)
+            .with_durability(Durability::MEDIUM)
+            .to(all_package_ids.clone());
+
         self.file_package_ids.clear();
         self.package_roots.clear();
 
@@ -131,9 +141,7 @@ impl Files {
             db.set_spec_related_files(builtins_file_id.data(db), vec![])
         }
 
-        let mut all_package_ids = vec![];
-        for (idx, package_root) in package_roots.into_iter().enumerate() {
-            let package_id = PackageId::new(db, idx as u32);
+        for (package_id, package_root) in all_package_ids.into_iter().zip(package_roots) {
             for file_id in package_root.file_ids() {
                 self.file_package_ids.insert(file_id, package_id);
                 self.set_spec_related_files(
@@ -149,14 +157,7 @@ impl Files {
                     .durability(package_durability)
                     .new(db),
             );
-            all_package_ids.push(package_id);
         }
-
-        self.all_package_ids
-            .unwrap()
-            .set_data(db)
-            .with_durability(Durability::MEDIUM)
-            .to(all_package_ids);
     }
 
     pub fn file_package_id(&self, file_id: FileId) -> PackageId {
-- 
2.43.0


From 257ad0d17b4eaa203784a9d07c0f76114068bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 39/61] fix: selection range and formatting requests panic
 while the files are being loaded

---
 .../src/handlers/dispatch.rs                  | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/dispatch.rs b/crates/aptos-language-server/src/handlers/dispatch.rs
index 01c4dfa..4025322 100644
--- a/crates/aptos-language-server/src/handlers/dispatch.rs
+++ b/crates/aptos-language-server/src/handlers/dispatch.rs
@@ -72,7 +72,8 @@ impl RequestDispatcher<'_> {
         self
     }
 
-    /// Dispatches the request onto the current thread.
+    /// Dispatches the request onto the current thread. When the VFS is marked not
+    /// ready this will return a default constructed `R::Result`.
     pub(crate) fn on_sync<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -80,8 +81,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request,
         R::Params: DeserializeOwned + panic::UnwindSafe + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         let (req, params, panic_context) = match self.parse::<R>() {
             Some(it) => it,
             None => return self,
@@ -212,6 +222,7 @@ impl RequestDispatcher<'_> {
     /// Formatting requests should never block on waiting a for task thread to open up, editors will wait
     /// on the response and a late formatting update might mess with the document and user.
     /// We can't run this on the main thread though as we invoke rustfmt which may take arbitrary time to complete!
+    /// When the VFS is marked not ready this will return a default constructed `R::Result`.
     pub(crate) fn on_fmt_thread<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -219,8 +230,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request + 'static,
         R::Params: DeserializeOwned + panic::UnwindSafe + Send + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         self.on_with_thread_intent::<true, false, R>(
             ThreadIntent::LatencySensitive,
             f,
-- 
2.43.0


From cd7ffe09be2f1b7a1ef612075d91368ac694ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 40/61] fix: requests about a file newer than the database
 snapshot panic

---
 crates/aptos-language-server/src/global_state.rs | 8 +++++++-
 crates/base-db/src/inputs.rs                     | 4 ++++
 crates/ide-db/src/root_db.rs                     | 5 +++++
 crates/ide/src/lib.rs                            | 4 ++++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 52f735d..9ff2e6c 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -263,7 +263,13 @@ impl GlobalStateSnapshot {
     }
 
     pub(crate) fn url_to_file_id(&self, url: &Uri) -> anyhow::Result<FileId> {
-        url_to_file_id(&self.vfs_read(), url)
+        let file_id = url_to_file_id(&self.vfs_read(), url)?;
+        // vfs is shared with the main loop, the file could be newer than the database snapshot
+        anyhow::ensure!(
+            self.analysis.is_file_loaded(file_id)?,
+            "file is not loaded yet: {url:?}"
+        );
+        Ok(file_id)
     }
 
     pub(crate) fn file_id_to_url(&self, id: FileId) -> Uri {
diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 5634420..a2a51c3 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -167,6 +167,10 @@ impl Files {
         *file_package_id
     }
 
+    pub fn has_package_id(&self, file_id: FileId) -> bool {
+        self.file_package_ids.contains_key(&file_id)
+    }
+
     pub fn set_file_package_id(&self, file_id: FileId, package_id: PackageId) {
         self.file_package_ids.insert(file_id, package_id);
     }
diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index eeae151..1b06a98 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -130,6 +130,11 @@ impl Default for RootDatabase {
 }
 
 impl RootDatabase {
+    /// Whether the file is in one of the package roots.
+    pub fn is_file_loaded(&self, file_id: FileId) -> bool {
+        self.files.has_package_id(file_id)
+    }
+
     pub fn new() -> RootDatabase {
         let mut db = RootDatabase {
             storage: ManuallyDrop::new(salsa::Storage::default()),
diff --git a/crates/ide/src/lib.rs b/crates/ide/src/lib.rs
index a5ffe4b..025a316 100644
--- a/crates/ide/src/lib.rs
+++ b/crates/ide/src/lib.rs
@@ -144,6 +144,10 @@ impl Analysis {
         self.with_db(|db| db.file_package_id(file_id))
     }
 
+    pub fn is_file_loaded(&self, file_id: FileId) -> Cancellable<bool> {
+        self.with_db(|db| db.is_file_loaded(file_id))
+    }
+
     pub fn manifest_file_id(&self, package_id: PackageId) -> Cancellable<Option<FileId>> {
         self.with_db(|db| db.package_root(package_id).data(db).manifest_file_id)
     }
-- 
2.43.0


From d91cb1ea17a2bd3124b82bf32886f0cd681bf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 41/61] fix: packages keep an intermediate state of a manifest

---
 .../aptos-language-server/src/handlers/notification.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/aptos-language-server/src/handlers/notification.rs b/crates/aptos-language-server/src/handlers/notification.rs
index 857af47..df807ed 100644
--- a/crates/aptos-language-server/src/handlers/notification.rs
+++ b/crates/aptos-language-server/src/handlers/notification.rs
@@ -241,6 +241,16 @@ pub(crate) fn handle_did_change_watched_files(
 
     for change in params.changes.iter().unique_by(|&it| &it.uri) {
         if let Ok(path) = from_proto::abs_path(&change.uri) {
+            if reload::is_manifest_file(&path) {
+                // the packages could have been loaded from an intermediate state of the file,
+                // which is not noticed below if the contents are the same as before
+                state.load_aptos_packages_queue.request_op(
+                    format!("manifest file changed {path}"),
+                    LoadPackagesRequest {
+                        force_reload_package_deps: false,
+                    },
+                );
+            }
             state.vfs_loader.handle.invalidate(path);
         }
     }
-- 
2.43.0


From c020875d78621b11904c5175f54c04ec51d99c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 42/61] fix: panic in imports of items at an address named like
 a keyword

---
 crates/syntax/src/ast/syntax_factory/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/ast/syntax_factory/paths.rs b/crates/syntax/src/ast/syntax_factory/paths.rs
index eed2d87..5416bdd 100644
--- a/crates/syntax/src/ast/syntax_factory/paths.rs
+++ b/crates/syntax/src/ast/syntax_factory/paths.rs
@@ -100,14 +100,14 @@ impl SyntaxFactory {
     pub fn path_segment_from_text(&self, name: impl Into<String>) -> ast::PathSegment {
         let name = name.into();
         ast_from_text::<ast::PathSegment>(&format!(
-            "module 0x1::m {{ fun main() {{ let _ = {name}; }}}}"
+            "module 0x1::m {{ const MY_CONST: {name} = 1; }}"
         ))
     }
 
     pub fn path_segment_from_name(&self, name: impl Into<String>) -> ast::PathSegment {
         let name = name.into();
         ast_from_text::<ast::PathSegment>(&format!(
-            "module 0x1::m {{ fun main() {{ let _ = {name}; }}}}"
+            "module 0x1::m {{ const MY_CONST: {name} = 1; }}"
         ))
     }
 
-- 
2.43.0


From 3afb7c92b762ea021b0af4984648fa7e06e90c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 43/61] fix: panic on an msl let statement outside of a block

---
 crates/ide-diagnostics/src/handlers/unused_variables.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index 795c618..2232c99 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -51,8 +51,7 @@ pub(crate) fn check_unused_ident_pat<'db>(
         let outer_block = ident_pat
             .value
             .syntax()
-            .ancestor_strict::<ast::BlockExpr>()
-            .expect("LetStmt is always a child of a block");
+            .ancestor_strict::<ast::BlockExpr>()?;
         if outer_block
             .syntax()
             .descendants_of_type::<ast::IncludeSchema>()
-- 
2.43.0


From e27f8a89730b271399ed0f5ebaca44688ae813f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 44/61] fix: panic on a lambda with a spec block as its body

---
 crates/lang/src/types/inference/ast_walker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index b248e52..ce16254 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -144,7 +144,11 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 // todo: add coerce here
                 self.infer_expr(&body_expr, Expected::from_ty(lambda_ret_ty));
             }
-            if let Some(inline_spec_block) = lambda_expr.spec_block() {
+            let inline_spec_block = lambda_expr
+                .spec_block()
+                // could be the body itself
+                .filter(|it| lambda_expr.body_expr().is_none_or(|body| body.syntax() != it.syntax()));
+            if let Some(inline_spec_block) = inline_spec_block {
                 self.process_spec_block(&inline_spec_block);
             }
         }
-- 
2.43.0


From 3410debebfe7a1bffe6b09484a669e42ba233b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 45/61] fix: panic in expression fixes on unterminated strings

---
 crates/ide-diagnostics/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 475cad4..92c7a0c 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -22,7 +22,7 @@ use lang::Semantics;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::files::{FileRange, InFile, InFileExt};
 use syntax::syntax_editor::SyntaxEditor;
-use syntax::{AstNode, SourceFile, TextRange, ast, match_ast};
+use syntax::{AstNode, SourceFile, SyntaxKind, TextRange, ast, match_ast};
 use vfs::FileId;
 
 struct DiagnosticsContext<'a> {
@@ -53,7 +53,14 @@ impl DiagnosticsContext<'_> {
     pub(crate) fn has_syntax_errors(&self, expr: &impl AstNode) -> bool {
         let text = expr.syntax().text();
         let parse = SourceFile::parse(&format!("module 0x1::m {{ fun main() {{ {text} }} }}"));
-        !parse.errors().is_empty()
+        // string without a closing quote ends at the end of the line
+        let has_unterminated_string = expr
+            .syntax()
+            .descendants_with_tokens()
+            .filter_map(|it| it.into_token())
+            .filter(|it| matches!(it.kind(), SyntaxKind::BYTE_STRING | SyntaxKind::HEX_STRING))
+            .any(|it| it.text().matches('"').count() < 2);
+        !parse.errors().is_empty() || has_unterminated_string
     }
 }
 
-- 
2.43.0


From 3990296c35842af5f5ec0df9b0f52cbd64388072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 46/61] fix: panic on a name of a builtin item declared twice

---
 crates/ide-diagnostics/src/handlers/unresolved_reference.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/unresolved_reference.rs b/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
index 8cdae6e..b9cde0c 100644
--- a/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
+++ b/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
@@ -288,7 +288,10 @@ fn is_entries_from_duplicate_dependencies(
 ) -> bool {
     let package_ids = entries
         .iter()
-        .map(|it| sema.db.file_package_id(it.node_loc.file_id()))
+        .map(|it| it.node_loc.file_id())
+        // file with builtin items is not a part of any package
+        .filter(|file_id| sema.db.is_file_loaded(*file_id))
+        .map(|file_id| sema.db.file_package_id(file_id))
         .collect::<HashSet<_>>();
     package_ids.len() > 1
 }
-- 
2.43.0


From 64a9f893e3ece57ce722b846bfd082ddb68fb7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 47/61] fix: panic in organize imports on an incomplete use
 statement

---
 .../src/handlers/unused_import/organize_imports.rs             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
index 3ca8c36..72083b8 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
@@ -77,6 +77,9 @@ fn organize_use_stmt(
     test_only_use_kind: UnusedUseKind,
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
+    // do not touch incomplete statements
+    use_stmt.semicolon_token()?;
+
     let UnusedUseKind::UseSpeck { use_speck_locs: unused_locs } = unused_use_kind else {
         use_stmt.delete(editor);
         return Some(());
-- 
2.43.0


From 52a7d20ec7245f37c3a42e3497d15a324573c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 48/61] fix: overflow on more patterns than fields after ..  in
 a tuple pattern

---
 crates/lang/src/types/patterns.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 2f79bb7..8f94160 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -275,7 +275,11 @@ impl TypeAstWalker<'_, '_> {
             let pat_ty = if indx < first_rest_indx {
                 get_type(indx as usize)
             } else if indx > last_rest_indx {
-                get_type(tuple_size - (pats_len - (indx as usize)))
+                // there could be more patterns than there are elements in a tuple
+                match tuple_size.checked_sub(pats_len - (indx as usize)) {
+                    Some(tuple_indx) => get_type(tuple_indx),
+                    None => Ty::Unknown,
+                }
             } else {
                 Ty::Unknown
             };
-- 
2.43.0


From 2e439a68fce014077ccb6af98f0f4bbdd0af16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 49/61] fix: panic in imports of items named like a keyword

---
 crates/syntax/src/ast/syntax_factory/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/ast/syntax_factory/paths.rs b/crates/syntax/src/ast/syntax_factory/paths.rs
index 5416bdd..c17a153 100644
--- a/crates/syntax/src/ast/syntax_factory/paths.rs
+++ b/crates/syntax/src/ast/syntax_factory/paths.rs
@@ -82,7 +82,7 @@ impl SyntaxFactory {
 
     pub fn path_segment(&self, name_ref: ast::NameRef) -> ast::PathSegment {
         let ast = ast_from_text::<ast::PathSegment>(&format!(
-            "module 0x1::m {{ fun main() {{ let _ = {name_ref}; }}}}"
+            "module 0x1::m {{ const MY_CONST: {name_ref} = 1; }}"
         ));
 
         if let Some(mut mapping) = self.mappings() {
-- 
2.43.0


From 3929e6a3b7d36aa3e089798fe93b1d53d00cdd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 50/61] fix: panic in unused import fixes on incomplete use
 groups

---
 crates/ide-diagnostics/src/handlers/unused_import.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index e74ef6b..bb1c191 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -180,6 +180,9 @@ fn highlight_unused_use_items(
             );
         }
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
+            if ctx.has_syntax_errors(&use_stmt) {
+                return None;
+            }
             for use_speck_loc in use_speck_locs {
                 let diag_range = use_speck_loc.file_range();
                 if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(ctx.sema.db) {
@@ -233,6 +236,9 @@ fn highlight_unused_scoped_use_items(
             );
         }
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
+            if ctx.has_syntax_errors(&use_stmt) {
+                return None;
+            }
             let root_use_speck = use_stmt.use_speck()?;
             let module_path = root_use_speck.path()?;
             for use_speck_loc in use_speck_locs {
-- 
2.43.0


From 453397f705aed354a25b874cf1b4cf0a493fc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 51/61] fix: panic in imports of items at a decimal address

---
 crates/syntax/src/ast/syntax_factory/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/ast/syntax_factory/paths.rs b/crates/syntax/src/ast/syntax_factory/paths.rs
index c17a153..1171936 100644
--- a/crates/syntax/src/ast/syntax_factory/paths.rs
+++ b/crates/syntax/src/ast/syntax_factory/paths.rs
@@ -52,7 +52,7 @@ impl SyntaxFactory {
         let path_segments = import_path
             .split("::")
             .map(|it| {
-                if it.starts_with("0x") {
+                if it.starts_with(|c: char| c.is_ascii_digit()) {
                     self.path_segment_from_value_address(it)
                 } else {
                     self.path_segment_from_name(it)
-- 
2.43.0


From 8045e28ab8fe5259444a9be253a0cd67ef31db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 52/61] fix: unused import warnings lost in use groups with an
 incomplete alias

---
 .../src/handlers/unused_import.rs             | 69 +++++++++++--------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index bb1c191..8270f69 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -180,9 +180,6 @@ fn highlight_unused_use_items(
             );
         }
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
-            if ctx.has_syntax_errors(&use_stmt) {
-                return None;
-            }
             for use_speck_loc in use_speck_locs {
                 let diag_range = use_speck_loc.file_range();
                 if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(ctx.sema.db) {
@@ -236,11 +233,11 @@ fn highlight_unused_scoped_use_items(
             );
         }
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
-            if ctx.has_syntax_errors(&use_stmt) {
-                return None;
-            }
             let root_use_speck = use_stmt.use_speck()?;
             let module_path = root_use_speck.path()?;
+            let is_group_closed = root_use_speck
+                .use_group()
+                .is_none_or(|it| it.r_curly_token().is_some());
             for use_speck_loc in use_speck_locs {
                 let diag_range = use_speck_loc.file_range();
                 if let Some(use_speck) = use_speck_loc
@@ -255,30 +252,42 @@ fn highlight_unused_scoped_use_items(
                             "Use item is used only in test scope and should be declared as #[test_only]",
                             diag_range,
                         )
-                        .with_local_fix(ctx.local_fix(
-                            use_stmts_owner.as_ref(),
-                            "add-scope-attribute",
-                            "Add #[test_only] attribute",
-                            diag_range.range,
-                            |editor| {
-                                use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
-                                let make = SyntaxFactory::new();
-                                let indent_level = use_stmt.indent_level();
-                                let new_root_use_speck = make.root_use_speck(
-                                    module_path.clone(),
-                                    Some(use_speck_name_ref.clone()),
-                                    use_speck_alias,
-                                );
-                                editor.insert_at_next_line_after(
-                                    &use_stmt,
-                                    make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
-                                        .indent_inner(indent_level)
-                                        .syntax()
-                                        .syntax_element(),
-                                );
-                                editor.add_mappings(make.finish_with_mappings());
-                            },
-                        )),
+                        .with_local_fix(
+                            is_group_closed
+                                .then(|| {
+                                    ctx.local_fix(
+                                        use_stmts_owner.as_ref(),
+                                        "add-scope-attribute",
+                                        "Add #[test_only] attribute",
+                                        diag_range.range,
+                                        |editor| {
+                                            use_stmt.delete_group_use_specks(
+                                                editor,
+                                                vec![use_speck.clone()],
+                                            );
+                                            let make = SyntaxFactory::new();
+                                            let indent_level = use_stmt.indent_level();
+                                            let new_root_use_speck = make.root_use_speck(
+                                                module_path.clone(),
+                                                Some(use_speck_name_ref.clone()),
+                                                use_speck_alias,
+                                            );
+                                            editor.insert_at_next_line_after(
+                                                &use_stmt,
+                                                make.use_stmt(
+                                                    vec![make.attr("test_only")],
+                                                    new_root_use_speck,
+                                                )
+                                                .indent_inner(indent_level)
+                                                .syntax()
+                                                .syntax_element(),
+                                            );
+                                            editor.add_mappings(make.finish_with_mappings());
+                                        },
+                                    )
+                                })
+                                .flatten(),
+                        ),
                     );
                 }
             }
-- 
2.43.0


From 2788eea512f6ae56b3cf9cf618f581cbb2020829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 53/61] fix: panic on hover over a struct outside of modules

---
 crates/lang/src/nameres/fq_named_element.rs      | 2 +-
 crates/lang/src/types/ty.rs                      | 2 +-
 crates/lang/src/types/ty/adt.rs                  | 3 +--
 crates/syntax/src/ast/node_ext/struct_or_enum.rs | 7 +++----
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/lang/src/nameres/fq_named_element.rs b/crates/lang/src/nameres/fq_named_element.rs
index fdbe615..9c920a7 100644
--- a/crates/lang/src/nameres/fq_named_element.rs
+++ b/crates/lang/src/nameres/fq_named_element.rs
@@ -110,7 +110,7 @@ impl<T: AstNode> ItemFQNameOwner for InFile<T> {
                     })
                 },
                 ast::StructOrEnum(it) => {
-                    let module_fq_name = it.module().in_file(it_file_id).fq_name(db)?;
+                    let module_fq_name = it.module()?.in_file(it_file_id).fq_name(db)?;
                     let name = it.name()?;
                     Some(ItemFQName::Item {
                         module_fq_name: Box::new(module_fq_name),
diff --git a/crates/lang/src/types/ty.rs b/crates/lang/src/types/ty.rs
index 8291397..07973fb 100644
--- a/crates/lang/src/types/ty.rs
+++ b/crates/lang/src/types/ty.rs
@@ -112,7 +112,7 @@ impl Ty {
         match ty {
             Ty::Adt(ty_adt) => {
                 let item = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?;
-                Some(item.map(|it| it.module()))
+                item.and_then(|it| it.module())
             }
             Ty::Seq(TySequence::Vector(_)) => {
                 let module = get_modules_as_entries(db, current_package_id, Address::named("std"))
diff --git a/crates/lang/src/types/ty/adt.rs b/crates/lang/src/types/ty/adt.rs
index c3f0ad2..7661924 100644
--- a/crates/lang/src/types/ty/adt.rs
+++ b/crates/lang/src/types/ty/adt.rs
@@ -39,8 +39,7 @@ impl TyAdt {
 
     pub fn adt_item_module(&self, db: &dyn SourceDatabase) -> Option<ast::Module> {
         let adt_item = self.adt_item(db)?;
-        let m = adt_item.value.module();
-        Some(m)
+        adt_item.value.module()
     }
 }
 
diff --git a/crates/syntax/src/ast/node_ext/struct_or_enum.rs b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
index ce05829..e3b79c5 100644
--- a/crates/syntax/src/ast/node_ext/struct_or_enum.rs
+++ b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
@@ -10,10 +10,9 @@ use crate::{AstNode, ast};
 use std::collections::HashSet;
 
 impl ast::StructOrEnum {
-    pub fn module(&self) -> ast::Module {
-        self.syntax()
-            .parent_of_type::<ast::Module>()
-            .expect("required by the parser")
+    /// `None` in incomplete code, like a module inside of a broken one
+    pub fn module(&self) -> Option<ast::Module> {
+        self.syntax().parent_of_type::<ast::Module>()
     }
 
     pub fn fields(&self) -> Vec<(String, ast::AnyField)> {
-- 
2.43.0


From 80aa4bde181bd7bb422b5223f50f0d2106859fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 54/61] fix: insertion after a node is not lost when the end of
 the node is replaced

---
 .../src/handlers/unused_import.rs             | 63 +++++++------------
 crates/syntax/src/syntax_editor/edit_algo.rs  | 27 ++++++--
 2 files changed, 47 insertions(+), 43 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index 8270f69..e74ef6b 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -235,9 +235,6 @@ fn highlight_unused_scoped_use_items(
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
             let root_use_speck = use_stmt.use_speck()?;
             let module_path = root_use_speck.path()?;
-            let is_group_closed = root_use_speck
-                .use_group()
-                .is_none_or(|it| it.r_curly_token().is_some());
             for use_speck_loc in use_speck_locs {
                 let diag_range = use_speck_loc.file_range();
                 if let Some(use_speck) = use_speck_loc
@@ -252,42 +249,30 @@ fn highlight_unused_scoped_use_items(
                             "Use item is used only in test scope and should be declared as #[test_only]",
                             diag_range,
                         )
-                        .with_local_fix(
-                            is_group_closed
-                                .then(|| {
-                                    ctx.local_fix(
-                                        use_stmts_owner.as_ref(),
-                                        "add-scope-attribute",
-                                        "Add #[test_only] attribute",
-                                        diag_range.range,
-                                        |editor| {
-                                            use_stmt.delete_group_use_specks(
-                                                editor,
-                                                vec![use_speck.clone()],
-                                            );
-                                            let make = SyntaxFactory::new();
-                                            let indent_level = use_stmt.indent_level();
-                                            let new_root_use_speck = make.root_use_speck(
-                                                module_path.clone(),
-                                                Some(use_speck_name_ref.clone()),
-                                                use_speck_alias,
-                                            );
-                                            editor.insert_at_next_line_after(
-                                                &use_stmt,
-                                                make.use_stmt(
-                                                    vec![make.attr("test_only")],
-                                                    new_root_use_speck,
-                                                )
-                                                .indent_inner(indent_level)
-                                                .syntax()
-                                                .syntax_element(),
-                                            );
-                                            editor.add_mappings(make.finish_with_mappings());
-                                        },
-                                    )
-                                })
-                                .flatten(),
-                        ),
+                        .with_local_fix(ctx.local_fix(
+                            use_stmts_owner.as_ref(),
+                            "add-scope-attribute",
+                            "Add #[test_only] attribute",
+                            diag_range.range,
+                            |editor| {
+                                use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
+                                let make = SyntaxFactory::new();
+                                let indent_level = use_stmt.indent_level();
+                                let new_root_use_speck = make.root_use_speck(
+                                    module_path.clone(),
+                                    Some(use_speck_name_ref.clone()),
+                                    use_speck_alias,
+                                );
+                                editor.insert_at_next_line_after(
+                                    &use_stmt,
+                                    make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
+                                        .indent_inner(indent_level)
+                                        .syntax()
+                                        .syntax_element(),
+                                );
+                                editor.add_mappings(make.finish_with_mappings());
+                            },
+                        )),
                     );
                 }
             }
diff --git a/crates/syntax/src/syntax_editor/edit_algo.rs b/crates/syntax/src/syntax_editor/edit_algo.rs
index c2a7a7e..ea63a87 100644
--- a/crates/syntax/src/syntax_editor/edit_algo.rs
+++ b/crates/syntax/src/syntax_editor/edit_algo.rs
@@ -111,7 +111,10 @@ pub(super) fn apply_edits(editor: SyntaxEditor) -> SyntaxEdit {
         if let Some(index) = changed_ancestors
             .iter()
             .rev()
-            .position(|ancestor| ancestor.affected_range().contains_range(change.target_range()))
+            .position(|ancestor| {
+                ancestor.affected_range().contains_range(change.target_range())
+                    && !ancestor.is_inside_anchor_of(change)
+            })
         {
             // Pop off any ancestors that aren't applicable
             changed_ancestors.drain((index + 1)..);
@@ -306,7 +309,7 @@ enum ChangedAncestorKind {
     },
     Range {
         _changed_elements: RangeInclusive<SyntaxElement>,
-        _in_parent: SyntaxNode,
+        in_parent: SyntaxNode,
     },
 }
 
@@ -321,18 +324,34 @@ impl ChangedAncestor {
         Self {
             kind: ChangedAncestorKind::Range {
                 _changed_elements: range.clone(),
-                _in_parent: range.start().parent().unwrap(),
+                in_parent: range.start().parent().unwrap(),
             },
             change_index,
         }
     }
 
+    /// Insertion after a node does not depend on the changes inside of this node,
+    /// even if the last of its descendants is the one replaced
+    fn is_inside_anchor_of(&self, change: &Change) -> bool {
+        let (Change::Insert(position, _) | Change::InsertAll(position, _)) = change else {
+            return false;
+        };
+        let PositionRepr::After(SyntaxElement::Node(anchor)) = &position.repr else {
+            return false;
+        };
+        let parent = match &self.kind {
+            ChangedAncestorKind::Single { node } => node.parent(),
+            ChangedAncestorKind::Range { in_parent: parent, .. } => Some(parent.clone()),
+        };
+        parent.is_some_and(|it| it.ancestors().any(|it| it == *anchor))
+    }
+
     fn affected_range(&self) -> TextRange {
         match &self.kind {
             ChangedAncestorKind::Single { node } => node.text_range(),
             ChangedAncestorKind::Range {
                 _changed_elements: changed_nodes,
-                _in_parent: _,
+                in_parent: _,
             } => TextRange::new(
                 changed_nodes.start().text_range().start(),
                 changed_nodes.end().text_range().end(),
-- 
2.43.0


From c6bf4e264c9ea34a48ce631892b93cf137ed5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 55/61] fix: panic in signature help for calls of builtin
 functions

---
 crates/ide/src/signature_help.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/signature_help.rs b/crates/ide/src/signature_help.rs
index 922e07b..a5bb309 100644
--- a/crates/ide/src/signature_help.rs
+++ b/crates/ide/src/signature_help.rs
@@ -184,6 +184,7 @@ fn signature_help_for_call(
     arg_list: InFile<ast::ValueArgList>,
     token: SyntaxToken,
 ) -> Option<SignatureHelp> {
+    let file_id = arg_list.file_id;
     let (any_call_expr, active_parameter) =
         call_expr_for_arg_list(arg_list, token.text_range().start())?;
 
@@ -211,7 +212,7 @@ fn signature_help_for_call(
             "{}",
             callable_param
                 .ty
-                .map(|it| sema.render_ty_for_ui(&it, callable_info.file_id()))
+                .map(|it| sema.render_ty_for_ui(&it, file_id))
                 .unwrap_or_default()
         );
         res.push_param(&p);
-- 
2.43.0


From 836d917c102d6ca5967fdde2649d13efa0901262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 56/61] fix: panic on global<copy>() in specs

---
 .../src/handlers/spec_global_replace_with_index_expr.rs    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
index d369c5f..50e9c70 100644
--- a/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
@@ -85,10 +85,15 @@ fn fixes(
                 .path_type()?
                 .path();
 
+            let addr_expr = call_expr.arg_exprs().single_or_none()??;
+            // `copy` is a type name here, and a keyword in `copy[@0x1]`
+            if resource_path.syntax().text() == "copy" || ctx.has_syntax_errors(&resource_path) {
+                return None;
+            }
+
             let make = SyntaxFactory::new();
 
             let resource_path_expr = make.path_expr(resource_path);
-            let addr_expr = call_expr.arg_exprs().single_or_none()??;
             let resource_index_expr = make.index_expr(resource_path_expr.into(), addr_expr);
             editor.replace(call_expr.syntax(), resource_index_expr.syntax());
 
-- 
2.43.0


From 79b590b7add46c388f31c72c9b43c4a0011f84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 57/61] fix: completion of functions imported with an alias
 inserts the alias

---
 crates/ide-completion/src/render/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ide-completion/src/render/function.rs b/crates/ide-completion/src/render/function.rs
index db68ecc..7d1a48e 100644
--- a/crates/ide-completion/src/render/function.rs
+++ b/crates/ide-completion/src/render/function.rs
@@ -38,7 +38,8 @@ pub(crate) fn render_function(
 
     let (_, fun) = fun.unpack();
 
-    let function_name = fun.name().unwrap().as_string();
+    // the name in the scope, it is not the name of the function if it is imported with an alias
+    let function_name = fun_name.to_string();
     item_builder.lookup_by(function_name.clone());
 
     let params = render_params(ctx, fun.clone(), call_ty.clone()).unwrap_or_default();
-- 
2.43.0


From 8f5df3ecbe1810f7bb0f4dfa29341d3f7a8a23da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 58/61] fix: completion of types does not repeat the type
 arguments

---
 crates/ide-completion/src/completions/reference/paths.rs | 2 +-
 crates/ide-completion/src/render/struct_or_enum.rs       | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/ide-completion/src/completions/reference/paths.rs b/crates/ide-completion/src/completions/reference/paths.rs
index 660b8cf..0e72d3f 100644
--- a/crates/ide-completion/src/completions/reference/paths.rs
+++ b/crates/ide-completion/src/completions/reference/paths.rs
@@ -291,7 +291,7 @@ fn render_scope_entry(
         STRUCT | ENUM => {
             render_struct_or_enum(ctx, name, path_ctx, named_item.cast_into::<ast::StructOrEnum>()?)
         }
-        SCHEMA => render_schema(ctx, name, named_item.cast_into::<ast::Schema>()?),
+        SCHEMA => render_schema(ctx, name, path_ctx, named_item.cast_into::<ast::Schema>()?),
         IDENT_PAT => {
             let ident_pat = named_item.cast_into::<ast::IdentPat>()?;
             render_ident_pat(ctx, &name, ident_pat)
diff --git a/crates/ide-completion/src/render/struct_or_enum.rs b/crates/ide-completion/src/render/struct_or_enum.rs
index c7501bd..1b44e22 100644
--- a/crates/ide-completion/src/render/struct_or_enum.rs
+++ b/crates/ide-completion/src/render/struct_or_enum.rs
@@ -20,7 +20,7 @@ pub(crate) fn render_struct_or_enum(
     let has_type_params = !struct_or_enum.ty_type_params().is_empty();
     let snippet = match path_ctx.path_kind {
         PathKind::Type => {
-            if has_type_params {
+            if has_type_params && !path_ctx.has_type_args {
                 format!("{item_name}<$0>")
             } else {
                 format!("{item_name}$0")
@@ -36,12 +36,13 @@ pub(crate) fn render_struct_or_enum(
 pub(crate) fn render_schema(
     ctx: &CompletionContext<'_>,
     item_name: String,
+    path_ctx: &PathCompletionCtx,
     schema: InFile<ast::Schema>,
 ) -> CompletionItemBuilder {
     let mut item_builder = new_named_item(ctx, &item_name, schema.kind());
 
     let has_type_params = !schema.ty_type_params().is_empty();
-    let snippet = if has_type_params {
+    let snippet = if has_type_params && !path_ctx.has_type_args {
         format!("{item_name}<$0>")
     } else {
         format!("{item_name}$0")
-- 
2.43.0


From 1e6500240570198df569e540c593d3162761d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 59/61] fix: signature help of struct literals knows shorthand
 fields

---
 crates/ide-db/src/active_parameter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/active_parameter.rs b/crates/ide-db/src/active_parameter.rs
index 84931e9..49917a4 100644
--- a/crates/ide-db/src/active_parameter.rs
+++ b/crates/ide-db/src/active_parameter.rs
@@ -118,12 +118,19 @@ pub fn fields_owner_for_struct_lit(
         .map(|list| active_param(list.syntax(), offset))?;
 
     let lit_fields = struct_lit.value.clone().fields();
-    let active_lit_field = lit_fields.get(active_lit_field_idx).and_then(|it| it.name_ref());
+    let active_lit_field = lit_fields.get(active_lit_field_idx);
 
     let fields_owner = sema.resolve_to_element::<ast::FieldsOwner>(struct_lit.map(|it| it.path()))?;
 
-    let active_field_name = match active_lit_field {
+    let active_field_name = active_lit_field.and_then(|lit_field| match lit_field.name_ref() {
         Some(name_ref) => Some(name_ref.as_string()),
+        // could be a shorthand, or a name which is still being typed
+        None => lit_field
+            .field_name()
+            .filter(|name| fields_owner.value.named_field_names().contains(name)),
+    });
+    let active_field_name = match active_field_name {
+        Some(field_name) => Some(field_name),
         None => {
             // compute next field skipping all filled fields
             let all_field_names = fields_owner.value.named_field_names();
-- 
2.43.0


From edbcb6a395a33be6141c31e666aaa27e49fd1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:09 +0000
Subject: [PATCH 60/61] fix: address literals are highlighted the same in a
 range and in the whole file

---
 crates/ide/src/syntax_highlighting.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ide/src/syntax_highlighting.rs b/crates/ide/src/syntax_highlighting.rs
index f115942..8661402 100644
--- a/crates/ide/src/syntax_highlighting.rs
+++ b/crates/ide/src/syntax_highlighting.rs
@@ -48,6 +48,11 @@ pub(crate) fn highlight(
                     NodeOrToken::Node(it) => it,
                     NodeOrToken::Token(it) => it.parent().unwrap_or_else(|| source_file.clone()),
                 };
+                // address literals are highlighted as a whole
+                let covering_node = covering_node
+                    .ancestors()
+                    .find(|it| ast::AddressLit::can_cast(it.kind()))
+                    .unwrap_or(covering_node);
                 (covering_node, range)
             }
             None => (source_file.clone(), source_file.text_range()),
-- 
2.43.0


From f31ea85bcb10db2993520b746804ceac46358d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:09 +0000
Subject: [PATCH 61/61] fix: modules of a package which depends on itself are
 resolvable

---
 crates/lang/src/hir_db.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/lang/src/hir_db.rs b/crates/lang/src/hir_db.rs
index 428daf2..59bd01f 100644
--- a/crates/lang/src/hir_db.rs
+++ b/crates/lang/src/hir_db.rs
@@ -191,11 +191,14 @@ pub fn transitive_dep_package_ids(db: &dyn SourceDatabase, package_id: PackageId
         Some(metadata) => {
             let mut entries = vec![package_id];
             let dep_manifest_ids = metadata.dep_manifest_ids;
-            entries.extend(
-                dep_manifest_ids
-                    .iter()
-                    .map(|file_id| db.file_package_id(*file_id)),
-            );
+            for dep_manifest_id in dep_manifest_ids.iter() {
+                let dep_package_id = db.file_package_id(*dep_manifest_id);
+                // package could be its own dependency (if there's a cycle),
+                // and files of two broken packages could belong to the same package root
+                if !entries.contains(&dep_package_id) {
+                    entries.push(dep_package_id);
+                }
+            }
             entries
         }
     }
-- 
2.43.0

