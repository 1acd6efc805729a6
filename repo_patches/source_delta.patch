From 719de120ecb6342cc570cebf2d705d829b420fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 01/22] fix: generate the success continuation of a choice
 once, outside of its branches

The continuation of a choice was either copied in every branch or extracted
in a closure whose parameters missed or moved variables. Well-formed grammars
such as `("a" / "b") "c" / "d"`, `. (("a" / "b") . > f)`,
`["a"]* ("b" / "c") "d"` or `. . / e > external` generated code that did
not compile, and semantic actions over choices in sequence duplicated the rest
of the rule for every combination of branches.
---
 src/liboak/back/compiler/choice.rs       | 130 +++++++++++++--------
 src/liboak/back/compiler/mod.rs          |   4 +-
 src/liboak/back/compiler/optional.rs     |   2 -
 src/liboak/back/compiler/repeat.rs       |   2 -
 src/liboak/back/compiler/spanned_expr.rs |   3 -
 src/liboak/back/context.rs               | 138 ++++-------------------
 src/liboak/back/continuation.rs          |  10 --
 src/liboak/back/mod.rs                   |  35 +++---
 src/liboak/back/name_factory.rs          |  21 ++--
 9 files changed, 129 insertions(+), 216 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..849d7bd 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -13,82 +13,112 @@
 // limitations under the License.
 
 use back::compiler::*;
+use back::compiler::value::*;
 
 pub struct ChoiceCompiler
 {
   choices: Vec<usize>,
-  compiler: ExprCompilerFn
+  this_idx: usize,
+  compiler_kind: CompilerKind
 }
 
 impl ChoiceCompiler
 {
-  pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn recognizer(choices: Vec<usize>, this_idx: usize) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: recognizer_compiler
+      this_idx: this_idx,
+      compiler_kind: CompilerKind::Recognizer
     }
   }
 
-  pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn parser(choices: Vec<usize>, this_idx: usize) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: parser_compiler
+      this_idx: this_idx,
+      compiler_kind: CompilerKind::Parser
     }
   }
-}
 
-impl CompileExpr for ChoiceCompiler
-{
-  fn compile_expr<'a>(&self,  context: &mut Context<'a>,
-    mut continuation: Continuation) -> syn::Expr
+  fn compile<'a>(&self, context: &mut Context<'a>,
+    continuation: Continuation, mut branches: Vec<syn::Expr>) -> syn::Expr
   {
-    // Since we copy the success continuation for each branch, to avoid code explosion, we can extract it into a closure shared by all branches under criterion maintained by the context.
-    continuation = context.success_as_closure(continuation);
-
     let mark = context.next_mark_name();
-    let branch_failed = context.next_branch_failed_name();
-    context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
-
-    // Each branch of the choice must be compiled in the same variable names environment (they share names of the variables they are building) and with a fresh success continuation size (each branch might create independent success continuation).
-    let scope = context.save_scope();
+    let first = branches.remove(0);
+    continuation
+      .map_success(|success, failure|
+        parse_quote!({
+          let #mark = state.mark();
+          state = #first;
+          #(if state.is_failed() {
+            state = state.restore_from_failure(#mark.clone());
+            state = #branches;
+          })*
+          if state.is_successful() {
+            #success
+          }
+          else {
+            #failure
+          }
+        })
+      )
+      .unwrap_success()
+  }
 
-    let mut choices = self.choices.clone();
-    let last = choices.pop().unwrap();
-    let mut branches: Vec<_> = choices.into_iter()
-      .map(|idx| {
-        context.restore_scope(scope.clone());
-        let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
-        continuation.compile_and_wrap(context, self.compiler, idx, success)
-      })
+  fn compile_recognizer<'a>(&self, context: &mut Context<'a>,
+    continuation: Continuation) -> syn::Expr
+  {
+    let branches = self.choices.iter()
+      .map(|&idx| context.compile_recognizer_expr(idx))
       .collect();
+    self.compile(context, continuation, branches)
+  }
 
-    // The last branch does not need to assign `false` to the variable `branch_failed`.
-    context.restore_scope(scope.clone());
-    context.pop_mut_ref_fv();
-    let (success, failure) = continuation.unwrap();
-    branches.push(context.compile(self.compiler, last, success, failure));
-
-    let mut branches_iter = branches.into_iter();
-    let first = branches_iter.next().unwrap();
+  fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
+    parse_quote!({
+      #result_var = Some(#result_value);
+      state
+    })
+  }
 
-    let choice = branches_iter
-      .rev()
-      .fold(parse_quote!(state), |accu: syn::Expr, branch|
-        parse_quote!({
-          if #branch_failed {
-            let mut state = state.restore_from_failure(#mark.clone());
-            let state = #branch;
-            #accu
-          }
-          else { state }
-        }));
+  // Every branch stores its value in `result`, which is destructured in the variables of the choice before the (unique) success continuation.
+  fn compile_parser<'a>(&self, context: &mut Context<'a>,
+    continuation: Continuation) -> syn::Expr
+  {
+    let result = context.next_choice_result_name();
+    let cardinality = context.expr_cardinality(self.this_idx);
+    let mut vars_names: Vec<_> = (0..cardinality)
+      .map(|_| context.next_free_var())
+      .collect();
+    // Free variables are given in reverse order (see `NonTerminalParserCompiler`).
+    vars_names.reverse();
+    let vars = tuple_pattern(vars_names);
 
+    let branches = self.choices.iter()
+      .map(|&idx| context.value_constructor_in(
+        result.clone(), idx, ChoiceCompiler::value_constructor))
+      .collect();
+    let continuation = continuation.map_success(|success, _|
+      parse_quote!({
+        let #vars = #result.expect("value of the successful branch");
+        #success
+      }));
+    let choice_expr = self.compile(context, continuation, branches);
     parse_quote!({
-      let #mark = state.mark();
-      let mut #branch_failed = true;
-      let state = #first;
-      #choice
+      let mut #result = None;
+      #choice_expr
     })
   }
 }
+
+impl CompileExpr for ChoiceCompiler
+{
+  fn compile_expr<'a>(&self, context: &mut Context<'a>,
+    continuation: Continuation) -> syn::Expr
+  {
+    match self.compiler_kind {
+      CompilerKind::Recognizer => self.compile_recognizer(context, continuation),
+      CompilerKind::Parser => self.compile_parser(context, continuation)
+    }
+  }
+}
diff --git a/src/liboak/back/compiler/mod.rs b/src/liboak/back/compiler/mod.rs
index f81f560..a8a4050 100644
--- a/src/liboak/back/compiler/mod.rs
+++ b/src/liboak/back/compiler/mod.rs
@@ -70,7 +70,7 @@ pub fn parser_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExpr> {
       CharacterClass(classes) => Box::new(CharacterClassCompiler::parser(classes)),
       AnySingleChar => Box::new(AnySingleCharCompiler::parser()),
       Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
-      Choice(choices) => Box::new(ChoiceCompiler::parser(choices)),
+      Choice(choices) => Box::new(ChoiceCompiler::parser(choices, idx)),
       ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::parser(expr_idx)),
       ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 0)),
       OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),
@@ -93,7 +93,7 @@ pub fn recognizer_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExp
     CharacterClass(classes) => Box::new(CharacterClassCompiler::recognizer(classes)),
     AnySingleChar => Box::new(AnySingleCharCompiler::recognizer()),
     Sequence(seq) => Box::new(SequenceCompiler::recognizer(seq)),
-    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
+    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices, idx)),
     ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::recognizer(expr_idx)),
     ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::recognizer(expr_idx, 0)),
     OneOrMore(expr_idx) => Box::new(RepeatCompiler::recognizer(expr_idx, 1)),
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..e97f023 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -71,10 +71,8 @@ impl OptionalCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Option<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       OptionalCompiler::value_constructor
     );
     let optional_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 2a9fda4..42e537e 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -110,10 +110,8 @@ impl RepeatCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Vec<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       RepeatCompiler::value_constructor
     );
     let repeat_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/spanned_expr.rs b/src/liboak/back/compiler/spanned_expr.rs
index 382eacc..5590c20 100644
--- a/src/liboak/back/compiler/spanned_expr.rs
+++ b/src/liboak/back/compiler/spanned_expr.rs
@@ -42,8 +42,6 @@ impl CompileExpr for SpannedExprCompiler
       result_expr = parse_quote!((#result_expr).stream_span());
     }
 
-    context.push_mark(lo_sp.clone());
-
     let spanned_expr = continuation
       .map_success(|success, _| {
         parse_quote!({
@@ -53,7 +51,6 @@ impl CompileExpr for SpannedExprCompiler
       })
       .compile_success(context, parser_compiler, self.expr_idx)
       .unwrap_success();
-    context.pop_mark();
     parse_quote!({
       let #lo_sp = state.mark();
       #spanned_expr
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..cb79fea 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -26,12 +26,8 @@ use syn::parse_quote;
 pub struct Context<'a>
 {
   grammar: &'a TGrammar,
-  closures: Vec<syn::Stmt>,
   name_factory: NameFactory,
-  free_variables: Vec<Ident>,
-  mark_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>,
-  num_combinators_compiled: usize
+  free_variables: Vec<Ident>
 }
 
 impl<'a> Context<'a>
@@ -40,12 +36,8 @@ impl<'a> Context<'a>
   {
     Context {
       grammar: grammar,
-      closures: vec![],
       name_factory: NameFactory::new(),
-      free_variables: vec![],
-      mark_variables: vec![],
-      mut_ref_free_variables: vec![],
-      num_combinators_compiled: 0
+      free_variables: vec![]
     }
   }
 
@@ -73,12 +65,10 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
-    let closures = self.closures;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
       {
-        #(#closures)*
         #body
       }
     )
@@ -109,9 +99,7 @@ impl<'a> Context<'a>
   pub fn compile_success(&mut self, compiler: ExprCompilerFn, idx: usize,
     success: syn::Expr, failure: syn::Expr) -> syn::Expr
   {
-    let expr = self.compile(compiler, idx, success, failure);
-    self.num_combinators_compiled += 1;
-    expr
+    self.compile(compiler, idx, success, failure)
   }
 
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
@@ -125,74 +113,32 @@ impl<'a> Context<'a>
 
   pub fn value_constructor<F>(&mut self,
     expr_idx: usize,
-    value_ty: syn::Type,
     value_constructor: F) -> (syn::Expr, Ident) where
    F: FnOnce(Ident, syn::Expr) -> syn::Expr,
   {
     let result_var = self.next_free_var();
+    let body = self.value_constructor_in(result_var.clone(), expr_idx, value_constructor);
+    (body, result_var)
+  }
+
+  // Compile `expr_idx` in its own scope and, in case of success, give its value to `value_constructor`.
+  pub fn value_constructor_in<F>(&mut self,
+    result_var: Ident,
+    expr_idx: usize,
+    value_constructor: F) -> syn::Expr where
+   F: FnOnce(Ident, syn::Expr) -> syn::Expr,
+  {
     let scope = self.open_scope(expr_idx);
-    self.push_mut_ref_fv(result_var.clone(), value_ty);
     let result_value = tuple_value(self.free_variables());
     let body =
       Continuation::new(
-        value_constructor(result_var.clone(), result_value),
+        value_constructor(result_var, result_value),
         parse_quote!(state.failure())
       )
       .compile_success(self, parser_compiler, expr_idx)
       .unwrap_success();
     self.close_scope(scope);
-    (body, result_var)
-  }
-
-  pub fn do_not_duplicate_success(&self) -> bool {
-    self.num_combinators_compiled > 0
-  }
-
-  pub fn success_as_closure(&mut self, continuation: Continuation) -> Continuation {
-    if self.do_not_duplicate_success() {
-      self.num_combinators_compiled = 0;
-      let closure_name = self.name_factory.next_closure_name();
-      let args = self.closure_args();
-      let params = self.closure_params();
-      continuation.map_success(|success, _| {
-        self.closures.push(parse_quote!(let #closure_name = |#(#params),*| #success;));
-        parse_quote!(#closure_name(#(#args),*))
-      })
-    }
-    else {
-      continuation
-    }
-  }
-
-  fn closure_params(&self) -> Vec<syn::FnArg> {
-    let stream_ty = self.grammar.stream_type();
-    vec![self.state_param(true)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var:_)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var: #stream_ty)))
-      .collect()
-  }
-
-  fn closure_args(&self) -> Vec<syn::Expr> {
-    vec![parse_quote!(state)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var.clone())))
-      .collect()
+    body
   }
 
   pub fn next_mark_name(&mut self) -> Ident {
@@ -203,8 +149,8 @@ impl<'a> Context<'a>
     self.name_factory.next_counter_name()
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.name_factory.next_branch_failed_name()
+  pub fn next_choice_result_name(&mut self) -> Ident {
+    self.name_factory.next_choice_result_name()
   }
 
   pub fn next_free_var(&mut self) -> Ident {
@@ -217,29 +163,10 @@ impl<'a> Context<'a>
     self.free_variables.remove(len_fv-1-card)
   }
 
-  // Push a mark variable (e.g., `mark1 = state.mark()`) in the set of free variables.
-  // This is useful if a value constructor relies on a mark to be built, e.g. with the spanned operators `..` and `...`.
-  pub fn push_mark(&mut self, mark: Ident) {
-    self.mark_variables.push(mark);
-  }
-
-  pub fn pop_mark(&mut self) {
-    self.mark_variables.pop();
-  }
-
   pub fn free_variables(&self) -> Vec<Ident> {
     self.free_variables.clone()
   }
 
-  pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
-    self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
-  }
-
-  pub fn pop_mut_ref_fv(&mut self) {
-    self.mut_ref_free_variables.pop()
-      .expect("There is no mut ref free variables.");
-  }
-
   pub fn expr_cardinality(&self, expr_idx: usize) -> usize {
     self.grammar[expr_idx].type_cardinality()
   }
@@ -249,9 +176,7 @@ impl<'a> Context<'a>
   }
 
   pub fn open_scope(&mut self, expr_idx: usize) -> Scope {
-    let scope = self.save_scope();
-    self.num_combinators_compiled = 0;
-    self.mut_ref_free_variables = vec![];
+    let scope = Scope::new(self.free_variables.clone());
     let cardinality = self.expr_cardinality(expr_idx);
     let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
@@ -261,37 +186,18 @@ impl<'a> Context<'a>
   pub fn close_scope(&mut self, scope: Scope) {
     assert!(self.free_variables.is_empty(),
       "Try to close the scope but all free variables have not been bounded.");
-    self.restore_scope(scope);
-  }
-
-  pub fn save_scope(&self) -> Scope {
-    Scope::new(
-      self.num_combinators_compiled,
-      self.free_variables.clone(),
-      self.mut_ref_free_variables.clone()
-    )
-  }
-
-  pub fn restore_scope(&mut self, scope: Scope) {
-    self.num_combinators_compiled = scope.num_combinators_compiled;
-    self.mut_ref_free_variables = scope.mut_ref_free_variables;
     self.free_variables = scope.free_variables;
   }
 }
 
-#[derive(Clone)]
 pub struct Scope {
-  num_combinators_compiled: usize,
-  free_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>
+  free_variables: Vec<Ident>
 }
 
 impl Scope {
-  fn new(n: usize, fv: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
+  fn new(fv: Vec<Ident>) -> Self {
     Scope {
-      num_combinators_compiled: n,
-      free_variables: fv,
-      mut_ref_free_variables: mfv
+      free_variables: fv
     }
   }
 }
diff --git a/src/liboak/back/continuation.rs b/src/liboak/back/continuation.rs
index 9c5cc52..8e28b37 100644
--- a/src/liboak/back/continuation.rs
+++ b/src/liboak/back/continuation.rs
@@ -40,16 +40,6 @@ impl Continuation
       context.compile_success(compiler, idx, success, failure))
   }
 
-  pub fn compile_and_wrap(&self, context: &mut Context,
-    compiler: ExprCompilerFn, idx: usize, before_success: syn::Stmt) -> syn::Expr
-  {
-    let success = self.success.clone();
-    let s: syn::Expr = parse_quote!({#before_success #success});
-    context.compile_success(compiler, idx,
-      s,
-      self.failure.clone())
-  }
-
   pub fn map_success<F>(mut self, f: F) -> Self where
    F: FnOnce(syn::Expr, syn::Expr) -> syn::Expr
   {
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index 5b7df88..0d08f57 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -74,39 +74,40 @@ A simple compilation would be as follows:
 The problem with this strategy is that the expression `s` is duplicated for each branch of the choice expression.
 Imagine an expression such as `(e1 / e2) (e3 / e4) (e5 / e6) e7`, then you repeat the code for `e7` 8 times (for each branch combination), the code for `(e5 / e6)` 4 times and the one for `(e3 / e4)` 2 times.
 Therefore, it is not very ideal.
-Note that the function `Context::do_not_duplicate_success` allows this behavior if it returns `true`.
 
-The strategy is to encapsulate the success continuation in a closure:
+The strategy is to store the value of the successful branch, and to have a unique success continuation after the branches:
 
 ```
   [e1 / e2](s,f) = {
-    let cont = |mut state: ParseState<Stream<'a>, T>, v1: T1, ..., vN: TN| {
-      s
-    };
     let mark1 = state.mark();
-    state = [e1](cont(v1,...,vN),f);
+    let mut result1 = None;
+    state = [e1](
+      (result1 = Some((u1,...,uN)); state),
+      state.failure());
     if state.is_failed() {
-      state = state.restore_from_failure(mark1);
-      state = [e2](cont(v1,...,vN),f);
-      if state.is_failed() {
-        f
-      }
-      else { state }
+      state = state.restore_from_failure(mark1.clone());
+      state = [e2](
+        (result1 = Some((w1,...,wN)); state),
+        state.failure());
     }
-    else { state }
+    if state.is_successful() {
+      let (v1,...,vN) = result1.expect("...");
+      s
+    }
+    else { f }
   }
 ```
 
-The variables `v1...vN` are those occurring free in the success continuation `s`.
-We must keep the names and types of the variables `v1...vN` somewhere, and this is the purpose of `context.free_variables`.
+The variables `v1...vN` are those of the choice expression, and are given by `context.free_variables`.
+Each branch is compiled in its own scope with its own variables (`u1...uN` and `w1...wN`).
 
 Another subtlety is the usage of context for free variables.
 For instance, a value of type `(T1, Option<(T2, T3)>)` is given by two variables, let's say `(x, y)`.
 However, to build `y` of type `Option<(T2, T3)>`, we need two more names `w, z`, so we can build `Some((w, z))`.
 Thus, the free variables are only interesting for a given scope, and when building the full expression.
 Scopes are managed by the `context.open_scope` and `context.close_scope` functions.
-We open a new scope when crossing a type such as Option or List, but also for semantic actions.
-When building the value `(T2, T3)`, we only care about `w` and `z`, hence if a continuation function should be build for `e`, we only need to pass `w` and `z` to it, and not `x` and `y`.
+We open a new scope when crossing a type such as Option or List, but also for semantic actions and branches of a choice.
+When building the value `(T2, T3)`, we only care about `w` and `z`.
 */
 
 mod context;
diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8f20f33..5e84b3b 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -42,9 +42,8 @@ pub struct NameFactory
 {
   prefix_uid: usize,
   mark_uid: usize,
-  branch_failed_uid: usize,
-  counter_uid: usize,
-  closure_uid: usize
+  choice_result_uid: usize,
+  counter_uid: usize
 }
 
 impl NameFactory
@@ -53,9 +52,8 @@ impl NameFactory
     NameFactory {
       prefix_uid: 1,
       mark_uid: 0,
-      branch_failed_uid: 0,
-      counter_uid: 0,
-      closure_uid: 0
+      choice_result_uid: 0,
+      counter_uid: 0
     }
   }
 
@@ -64,14 +62,9 @@ impl NameFactory
     format_ident!("mark{}", self.mark_uid)
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.branch_failed_uid += 1;
-    format_ident!("branch_failed_{}", self.branch_failed_uid)
-  }
-
-  pub fn next_closure_name(&mut self) -> Ident {
-    self.closure_uid += 1;
-    format_ident!("success_continuation_{}", self.closure_uid)
+  pub fn next_choice_result_name(&mut self) -> Ident {
+    self.choice_result_uid += 1;
+    format_ident!("choice_result{}", self.choice_result_uid)
   }
 
   pub fn next_counter_name(&mut self) -> Ident {
-- 
2.43.0


From 6279099f8517b176d58a5401089edbe6de86b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 02/22] fix: analyse each rule once per root in the
 well-formedness analysis

All the paths from a rule to the rules it uses were enumerated, which never
ends in practice on a chain of 25 rules each using the next one twice.
---
 src/liboak/middle/analysis/well_formedness.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/analysis/well_formedness.rs b/src/liboak/middle/analysis/well_formedness.rs
index b8c99c3..b8b0d50 100644
--- a/src/liboak/middle/analysis/well_formedness.rs
+++ b/src/liboak/middle/analysis/well_formedness.rs
@@ -54,6 +54,8 @@ pub struct WellFormedness<'a>
 {
   grammar: &'a AGrammar,
   recursion_path: Vec<(Ident, bool)>,
+  // Rules already visited from the current root rule, and whether input was consumed between the root and the rule.
+  visited: HashMap<Ident, bool>,
   consumed_input: bool,
   rules_wfa: HashMap<Ident, WFA>,
   reached_fixpoint: bool,
@@ -83,6 +85,7 @@ impl<'a> WellFormedness<'a>
     WellFormedness {
       grammar: grammar,
       recursion_path: vec![],
+      visited: HashMap::new(),
       consumed_input: false,
       rules_wfa: grammar.rules.iter()
         .map(|rule| (rule.ident(), WFA::default()))
@@ -97,6 +100,7 @@ impl<'a> WellFormedness<'a>
     while !self.reached_fixpoint && self.well_formed {
       self.reached_fixpoint = true;
       for rule in self.grammar.rules.iter() {
+        self.visited.clear();
         self.visit_rule(&rule.ident());
         if !self.well_formed { break; }
       }
@@ -109,7 +113,7 @@ impl<'a> WellFormedness<'a>
         self.error_left_recursion(rule);
       }
     }
-    else {
+    else if self.must_visit(rule) {
       self.push_rule_in_path(rule);
       let wfa = self.visit_rule_expr(rule);
       self.pop_rule_in_path();
@@ -118,6 +122,19 @@ impl<'a> WellFormedness<'a>
     self.rules_wfa[&rule]
   }
 
+  // Visiting a rule twice from the same root is only useful if less input is consumed the second time (for detecting left-recursion through the root).
+  // It avoids the enumeration of all the paths (exponential in the number of rules) from the root.
+  fn must_visit(&mut self, rule: &Ident) -> bool {
+    let consumed = self.consumed_input || self.recursion_path.iter().any(|&(_, consumed)| consumed);
+    match self.visited.get(rule) {
+      Some(&already_consumed) if consumed || !already_consumed => false,
+      _ => {
+        self.visited.insert(rule.clone(), consumed);
+        true
+      }
+    }
+  }
+
   fn visit_rule_expr(&mut self, rule: &Ident) -> WFA {
     let expr_idx = self.grammar.expr_index_of_rule(rule);
     self.visit_expr(expr_idx)
-- 
2.43.0


From 50b5841e54f4349de433804879e58c3781ab130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 03/22] fix: do not cut a multi-byte character in a code
 snippet

Displaying an error located less than 10 bytes before a multi-byte character
panicked.
---
 runtime/src/str_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..e6b8287 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -140,7 +140,11 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
+      let mut len = min(total_len - current_offset, len_hint);
+      // Do not cut a character in two.
+      while !self.raw_data.is_char_boundary(current_offset + len) {
+        len += 1;
+      }
       String::from(&self.raw_data[current_offset..][..len])
     }
   }
-- 
2.43.0


From fb66c7c9fa4ed881374a97daff28f297b5741695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 04/22] fix: count both bytes of \r\n line ends in locations

The carriage return was stripped from the line but not counted, such that the
positions following it were shifted by one for each line.
---
 runtime/src/file_map_stream.rs | 2 +-
 runtime/src/str_stream.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5768f8b 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,7 +50,7 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
         // update byte_pos to include this line and the \n at the end
diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index e6b8287..9dce31b 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split_terminator('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From a1e5ef2d229e23b3b6ec78aad791440c5c0f5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 05/22] fix: suggest `e*` in place of `(e+)*`

The suggested `e+` does not accept the empty string.
---
 src/liboak/middle/analysis/useless_chaining.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..f402ad9 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
-- 
2.43.0


From 50ad57ad275aadb03548f29347c6004114f4f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/22] fix: no chaining warning for sequences and
 non-equivalent choices

`!(!e1 e2)`, `(e1+ e2)*`, `&(&e1 e2)` and `!(!e1 / !e2)` were reported as
redundant, with a rewriting that changes the accepted language.
---
 .../middle/analysis/useless_chaining.rs       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index f402ad9..aededf2 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -152,21 +152,24 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
     (PAnd, false)
   }
 
-
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // A sequence (of two or more expressions) is not a predicate nor a repetition, even if it starts with one.
+  // For instance, `!(!e1 e2)` and `(e1+ e2)*` cannot be rewritten.
+  fn visit_sequence(&mut self, _: usize, _children: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
+  // `&e1 / &e2` is equivalent to `&(e1 / e2)`, but this does not hold for the other operators.
+  // For instance, `!(!e1 / !e2)` is `&e1 &e2`, and `(e1+ / e2+)*` tries `e1` only once `e2` fails.
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    let (pred_or_repeat, mut crossed_rule) = self.visit_expr(children[0]);
+    let mut crossed_rule = false;
     for child in children {
-      let (pred_or_repeat2, crossed_rule2) = self.visit_expr(child);
-      if pred_or_repeat != pred_or_repeat2 {
+      let (pred_or_repeat, child_crossed_rule) = self.visit_expr(child);
+      if pred_or_repeat != PAnd {
         return (PNothing, false)
       }
-      crossed_rule |= crossed_rule2;
+      crossed_rule |= child_crossed_rule;
     }
-    (pred_or_repeat, crossed_rule)
+    (PAnd, crossed_rule)
   }
 }
 
-- 
2.43.0


From 30a844ab4c324d5fa748dfeff072e7c8ec7e2460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 07/22] fix: local variables of the generated code do not hide
 user functions

An action named like a generated local variable (`f0`, `b0`, `mark1`...)
was resolved to that variable. They are now hygienic.
---
 src/liboak/back/name_factory.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 5e84b3b..6720e54 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -12,7 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use proc_macro2::Ident;
+use proc_macro2::{Ident, Span};
 use quote::format_ident;
 
 fn modify_path(mut path: syn::Path, prefix: &str) -> syn::Path {
@@ -59,23 +59,23 @@ impl NameFactory
 
   pub fn next_mark_name(&mut self) -> Ident {
     self.mark_uid += 1;
-    format_ident!("mark{}", self.mark_uid)
+    format_ident!("mark{}", self.mark_uid, span = Span::mixed_site())
   }
 
   pub fn next_choice_result_name(&mut self) -> Ident {
     self.choice_result_uid += 1;
-    format_ident!("choice_result{}", self.choice_result_uid)
+    format_ident!("choice_result{}", self.choice_result_uid, span = Span::mixed_site())
   }
 
   pub fn next_counter_name(&mut self) -> Ident {
     self.counter_uid += 1;
-    format_ident!("counter{}", self.counter_uid)
+    format_ident!("counter{}", self.counter_uid, span = Span::mixed_site())
   }
 
   pub fn fresh_vars(&mut self, cardinality: usize) -> Vec<Ident> {
     let prefix = self.next_var_prefix();
     (0..cardinality)
-      .map(|i| format_ident!("{}{}", prefix, i))
+      .map(|i| format_ident!("{}{}", prefix, i, span = Span::mixed_site()))
       .collect()
   }
 
-- 
2.43.0


From 21d0eeb74c278c6db01efc31c216132e19e8eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 08/22] fix: do not type-check the expressions below unit

A type ascription or a choice below an expression of type unit was rejected
("found type X but expected type ()", "Type mismatch between branches")
although no value is delivered there.
---
 src/liboak/middle/typing/depth.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 21dc3a0..4b6d46c 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -202,10 +202,11 @@ impl Visitor<()> for Depth
   }
 
   fn visit_type_ascription(&mut self, this: usize, child: usize, ty: IType) {
-    if let Some(aty) = self.under_ty_ascription.clone() {
-      self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
-    }
+    // Under unit, nothing is delivered: the type of the sub-expressions does not matter.
     if !self.under_unit {
+      if let Some(aty) = self.under_ty_ascription.clone() {
+        self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
+      }
       self.surface_expr(child);
     }
     self.visit_expr_switch_ascription(child, Some(ty));
@@ -213,7 +214,9 @@ impl Visitor<()> for Depth
 
   // We rely on the Rust compiler to spot type mismatch between semantic action's return type and type ascription.
   fn visit_semantic_action(&mut self, _this: usize, child: usize, _boxed: bool, _action: syn::Expr) {
-    self.surface_expr(child);
+    if !self.under_unit {
+      self.surface_expr(child);
+    }
     self.visit_expr_switch_ascription(child, None);
   }
 }
-- 
2.43.0


From c1faa0fc0113675567a31f3683d11af1898b499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 09/22] fix: reduce a recursive type when its cycle is closed

---
 src/liboak/middle/typing/surface.rs        | 14 ++++++++++++--
 src/liboak/middle/typing/type_rewriting.rs |  7 -------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 08c0571..e852032 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -60,12 +60,22 @@ impl Surface
         self.recursion_path.push(rule_name.clone());
         let ty = self.visit_expr(expr_idx);
         self.recursion_path.pop();
-        let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty);
+        let reduced_ty = self.reduce_closed_rec(ty);
         self.type_expr(expr_idx, reduced_ty)
       }
     }
     else {
-      rule_ty
+      self.reduce_closed_rec(rule_ty)
+    }
+  }
+
+  // A recursive type is reduced once all the rules from which its cycles were entered are typed.
+  // It matters to the rules calling a rule of a cycle from outside: they must not be considered as a part of it.
+  fn reduce_closed_rec(&self, ty: IType) -> IType {
+    match ty {
+      Rec(ref r) if r.path_set.iter().all(|p| !self.is_rec(&p.path[0])) =>
+        TypeRewriting::reduce_rec(&self.grammar, ty.clone()),
+      ty => ty
     }
   }
 
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..4b45392 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -25,13 +25,6 @@ pub struct TypeRewriting;
 
 impl TypeRewriting
 {
-  pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
-    match ty {
-      Rec(ref r) if r.entry_point() == *rule => Self::reduce_rec(grammar, ty),
-      ty => ty
-    }
-  }
-
   pub fn reduce_rec(grammar: &IGrammar, ty: IType) -> IType {
     match ty {
       Rec(r) if r.is_polymorphic() => Invisible,
-- 
2.43.0


From 035f689bf11d645a4841ade9c63651f4ad7beb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 10/22] fix: warn about every recursive type that is reduced

---
 src/liboak/middle/typing/depth.rs   |  2 +-
 src/liboak/middle/typing/surface.rs | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 4b6d46c..fc67a4d 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -107,7 +107,7 @@ impl Depth
   }
 
   fn warn_recursive_type(&mut self) {
-    let mut rec_set = RecSet::empty();
+    let mut rec_set = self.surface.reduced_rec.clone();
     for rule in &self.surface.grammar.rules {
       if let Rec(r) = self.type_of(rule.expr_idx) {
         rec_set = rec_set.union(r);
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index e852032..210d3b0 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -25,6 +25,8 @@ pub struct Surface
 {
   pub grammar: IGrammar,
   pub error: bool,
+  /// Recursive types that have been reduced during the inference.
+  pub reduced_rec: RecSet,
   recursion_path: Vec<Ident>
 }
 
@@ -34,6 +36,7 @@ impl Surface
     Surface {
       grammar: grammar,
       error: false,
+      reduced_rec: RecSet::empty(),
       recursion_path: vec![]
     }
   }
@@ -71,10 +74,17 @@ impl Surface
 
   // A recursive type is reduced once all the rules from which its cycles were entered are typed.
   // It matters to the rules calling a rule of a cycle from outside: they must not be considered as a part of it.
-  fn reduce_closed_rec(&self, ty: IType) -> IType {
+  fn reduce_closed_rec(&mut self, ty: IType) -> IType {
     match ty {
-      Rec(ref r) if r.path_set.iter().all(|p| !self.is_rec(&p.path[0])) =>
-        TypeRewriting::reduce_rec(&self.grammar, ty.clone()),
+      Rec(r) => {
+        if r.path_set.iter().all(|p| !self.is_rec(&p.path[0])) {
+          self.reduced_rec = self.reduced_rec.clone().union(r.clone());
+          TypeRewriting::reduce_rec(&self.grammar, Rec(r))
+        }
+        else {
+          Rec(r)
+        }
+      }
       ty => ty
     }
   }
-- 
2.43.0


From 01fb58ad2c92c413ad854913d93cb77aad376451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 11/22] fix: carry the where clause of the stream alias over to
 the generated functions

---
 src/liboak/back/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index cb79fea..794b2a4 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -65,9 +65,11 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
+    let where_clause = &generics.where_clause;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
+        #where_clause
       {
         #body
       }
-- 
2.43.0


From 3523b5575bae264d938146b9cd9e6652cbdab7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 12/22] fix: make all the local variables of the generated code
 hygienic

---
 src/liboak/back/compiler/character_class.rs | 3 +--
 src/liboak/back/compiler/mod.rs             | 1 -
 src/liboak/back/compiler/rtype.rs           | 1 -
 src/liboak/back/compiler/value.rs           | 1 -
 src/liboak/back/context.rs                  | 1 -
 src/liboak/back/continuation.rs             | 1 -
 src/liboak/back/mod.rs                      | 7 +++++++
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/liboak/back/compiler/character_class.rs b/src/liboak/back/compiler/character_class.rs
index eebc3b4..d0d062c 100644
--- a/src/liboak/back/compiler/character_class.rs
+++ b/src/liboak/back/compiler/character_class.rs
@@ -13,12 +13,11 @@
 // limitations under the License.
 
 use back::compiler::*;
-use quote::format_ident;
 
 type VarInPatternFn = for <'a> fn(&mut Context<'a>) -> Ident;
 
 fn bind_x_var<'a>(_context: &mut Context<'a>) -> Ident {
-  format_ident!("x")
+  parse_quote!(x)
 }
 
 fn bind_var<'a>(context: &mut Context<'a>) -> Ident {
diff --git a/src/liboak/back/compiler/mod.rs b/src/liboak/back/compiler/mod.rs
index a8a4050..7a20c8a 100644
--- a/src/liboak/back/compiler/mod.rs
+++ b/src/liboak/back/compiler/mod.rs
@@ -31,7 +31,6 @@ mod semantic_action;
 mod spanned_expr;
 
 pub use quote::quote;
-pub use syn::parse_quote;
 
 pub use back::compiler::grammar::*;
 pub use back::context::*;
diff --git a/src/liboak/back/compiler/rtype.rs b/src/liboak/back/compiler/rtype.rs
index 509575c..313ed89 100644
--- a/src/liboak/back/compiler/rtype.rs
+++ b/src/liboak/back/compiler/rtype.rs
@@ -16,7 +16,6 @@
 
 use middle::typing::ast::*;
 use middle::typing::ast::Type::*;
-use syn::parse_quote;
 
 pub struct TypeCompiler<'a>
 {
diff --git a/src/liboak/back/compiler/value.rs b/src/liboak/back/compiler/value.rs
index cf49532..d6dd821 100644
--- a/src/liboak/back/compiler/value.rs
+++ b/src/liboak/back/compiler/value.rs
@@ -15,7 +15,6 @@
 //! Generates Rust value from Oak expression.
 
 use middle::typing::ast::*;
-use syn::parse_quote;
 
 pub fn tuple_value(vars_names: Vec<Ident>) -> syn::Expr
 {
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 794b2a4..230b4cf 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -21,7 +21,6 @@ use back::compiler::{recognizer_compiler, parser_compiler};
 use back::compiler::value::*;
 
 use quote::quote;
-use syn::parse_quote;
 
 pub struct Context<'a>
 {
diff --git a/src/liboak/back/continuation.rs b/src/liboak/back/continuation.rs
index 8e28b37..d30b7f3 100644
--- a/src/liboak/back/continuation.rs
+++ b/src/liboak/back/continuation.rs
@@ -16,7 +16,6 @@ pub use middle::typing::ast::*;
 use back::compiler::ExprCompilerFn;
 use back::context::Context;
 
-use syn::parse_quote;
 
 pub struct Continuation
 {
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index 0d08f57..961f3e5 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -110,6 +110,13 @@ We open a new scope when crossing a type such as Option or List, but also for se
 When building the value `(T2, T3)`, we only care about `w` and `z`.
 */
 
+/// Same as `syn::parse_quote`, but the local variables of the generated code (such as `state`) are hygienic: they do not hide the functions of the user.
+macro_rules! parse_quote {
+  ($($tokens:tt)*) => {
+    syn::parse_quote_spanned!(proc_macro2::Span::mixed_site()=> $($tokens)*)
+  };
+}
+
 mod context;
 mod continuation;
 mod name_factory;
-- 
2.43.0


From b028d7534816c0fd8feb117e1a3f31db09d1500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 13/22] fix: resolve the type of a recursive reference through
 the recursive paths of its rule

---
 src/liboak/middle/typing/type_rewriting.rs | 30 +++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 4b45392..0d877cc 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -29,14 +29,22 @@ impl TypeRewriting
     match ty {
       Rec(r) if r.is_polymorphic() => Invisible,
       Rec(r) => {
-        for rec_path in &r.path_set {
-          for ident in &rec_path.path {
-            let ty = grammar.type_of(grammar.expr_index_of_rule(ident));
-            match ty {
-              Rec(_) => (),
-              ty => return ty
+        // The rules of these paths might themselves be on other recursive paths, leading to the rule giving the type.
+        let mut rules = vec![];
+        TypeRewriting::extend_with_rules_of(&mut rules, r);
+        let mut i = 0;
+        while i < rules.len() {
+          let ty = grammar.type_of(grammar.expr_index_of_rule(&rules[i]));
+          match ty {
+            Rec(r) => {
+              if !r.is_polymorphic() {
+                TypeRewriting::extend_with_rules_of(&mut rules, r);
+              }
             }
+            Infer => (),
+            ty => return ty
           }
+          i += 1;
         }
         Invisible
       }
@@ -44,6 +52,16 @@ impl TypeRewriting
     }
   }
 
+  fn extend_with_rules_of(rules: &mut Vec<Ident>, rec_set: RecSet) {
+    for rec_path in rec_set.path_set {
+      for rule in rec_path.path {
+        if !rules.contains(&rule) {
+          rules.push(rule);
+        }
+      }
+    }
+  }
+
   pub fn reduce_final(ty: IType) -> Type {
     match ty {
       Invisible => Type::Unit,
-- 
2.43.0


From d5df16a6dbc0396c380d6784c99525d90822e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 14/22] fix: report spans captured in the middle of a sequence
 instead of reading `..` as two any-characters

---
 src/liboak/front/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..6bee8a6 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -323,7 +323,7 @@ impl FGrammar {
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
       // Any character `.`
-      else if ps.peek(Token![.]) {
+      else if ps.peek(Token![.]) && !ps.peek(Token![..]) {
         let _: Token![.] = ps.parse()?;
         Some(self.alloc_expr(span, AnySingleChar))
       }
-- 
2.43.0


From 102e3714a3c359262174f2ab01b2fab58c2ffcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 15/22] fix: check the branches of a choice once the types of
 the recursive ones are known

---
 src/liboak/middle/typing/ast.rs     |  8 ++++++++
 src/liboak/middle/typing/depth.rs   | 16 ++++++++++++++++
 src/liboak/middle/typing/surface.rs |  2 +-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0026c15..0fde69a 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -311,6 +311,14 @@ impl IType
     self == &Invisible || self == &Regular(Unit)
   }
 
+  // Whether a branch of this type can be in a choice of type `choice_ty`.
+  pub fn unify_branch(&self, grammar: &IGrammar, choice_ty: &IType) -> bool {
+    self.contains_external(grammar)
+    || choice_ty.contains_external(grammar)
+    || (self.is_unit_kind() && choice_ty.is_unit_kind())
+    || self.syntactic_eq(grammar, choice_ty)
+  }
+
   pub fn contains_external(&self, grammar: &IGrammar) -> bool {
     match self.clone() {
       Infer | Rec(_) | Invisible => false,
diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index fc67a4d..d0fb022 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -76,6 +76,22 @@ impl Depth
     for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
       expr_info.ty = ty;
     }
+    self.check_recursive_branches();
+  }
+
+  // The type of a recursive branch is not known when its choice is typed.
+  fn check_recursive_branches(&mut self) {
+    for this in 0..self.surface.grammar.exprs_info.len() {
+      if let Expression::Choice(branches) = self.expr_by_index(this) {
+        let ty = self.type_of(this);
+        let tys: Vec<_> = branches.iter().map(|b| self.type_of(*b)).collect();
+        let mismatch = tys.iter().any(|branch_ty|
+          !branch_ty.unify_branch(&self.surface.grammar, &ty));
+        if mismatch && ty != Infer {
+          self.surface.type_mismatch_branches(RecSet::empty(), this, branches, tys);
+        }
+      }
+    }
   }
 
   fn reduce_all_invisible(&mut self) {
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 210d3b0..c4a0397 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -112,7 +112,7 @@ impl Surface
     IType::rec(RecKind::Unit, rec_shorter_path)
   }
 
-  fn type_mismatch_branches(&mut self, rec_set: RecSet, sum_expr: usize, branches: Vec<usize>, tys: Vec<IType>) {
+  pub fn type_mismatch_branches(&mut self, rec_set: RecSet, sum_expr: usize, branches: Vec<usize>, tys: Vec<IType>) {
     self.error = true;
     let mut diagnostic = self.grammar[sum_expr].span().unstable().error(
       format!("Type mismatch between branches of the choice operator."));
-- 
2.43.0


From 49d152381a2a41154104c62963ed0f5ff59f25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 16/22] fix: call a function of the grammar used as action
 whatever the case of its name

---
 src/liboak/back/compiler/semantic_action.rs | 3 ++-
 src/liboak/back/context.rs                  | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index 0b2849e..660db07 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -46,7 +46,8 @@ impl CompileExpr for SemanticActionCompiler
         syn::Expr::Path(ref expr_path) =>
           if let Some(x) = expr_path.path.segments.last() {
             x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() &&
-            context.has_unit_type(self.expr_idx)
+            context.has_unit_type(self.expr_idx) &&
+            !context.is_grammar_function(&expr_path.path)
           }
           else { false }
         _ => false
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 230b4cf..3c4507f 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -176,6 +176,11 @@ impl<'a> Context<'a>
     self.grammar[expr_idx].ty == crate::middle::typing::ast::Type::Unit
   }
 
+  pub fn is_grammar_function(&self, path: &syn::Path) -> bool {
+    path.get_ident()
+      .map_or(false, |ident| self.grammar.rust_functions.contains_key(ident))
+  }
+
   pub fn open_scope(&mut self, expr_idx: usize) -> Scope {
     let scope = Scope::new(self.free_variables.clone());
     let cardinality = self.expr_cardinality(expr_idx);
-- 
2.43.0


From 0add96e90a5d274675640c54a2b6ae6de396d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:51 +0000
Subject: [PATCH 17/22] fix: end a repetition with the first iteration that
 consumes nothing

---
 src/liboak/back/compiler/repeat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 42e537e..72b1ff9 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -39,6 +39,7 @@ impl RepeatCompiler
     }
   }
 
+  // The loop ends with the first iteration that consumes nothing: the rules of other grammars might match without consuming.
   fn compile<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation, body: syn::Expr) -> syn::Expr
   {
@@ -55,6 +56,7 @@ impl RepeatCompiler
               state = #body;
               if state.is_successful() {
                 #counter += 1;
+                if state.mark() == #mark { break; }
                 #mark = state.mark();
               }
               else {
@@ -65,7 +67,7 @@ impl RepeatCompiler
               #failure
             }
             else {
-              let mut state = state.restore_from_failure(#mark);
+              let mut state = state.restore(#mark);
               #success
             }
           }
@@ -78,13 +80,14 @@ impl RepeatCompiler
             loop {
               state = #body;
               if state.is_successful() {
+                if state.mark() == #mark { break; }
                 #mark = state.mark();
               }
               else {
                 break;
               }
             }
-            let mut state = state.restore_from_failure(#mark);
+            let mut state = state.restore(#mark);
             #success
           }
         )
-- 
2.43.0


From 8ed7e359bf5a2c9e60de0ca7bea92a18f49ebc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 18/22] fix: take the type char written by the user for the one
 of a character

---
 src/liboak/front/parser.rs      |  2 +-
 src/liboak/middle/typing/ast.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 6bee8a6..4f0bb35 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -146,7 +146,7 @@ impl FGrammar {
       else {
         let ty: Result<syn::Type> = ps.parse();
         match ty {
-          Ok(ty) => Ok((span, IType::Regular(Type::Rust(ty)))),
+          Ok(ty) => Ok((span, IType::Regular(Type::from_rust(ty)))),
           Err(mut err) => {
             err.combine(Error::new(err.span(),
             "note: you might need to parenthesize the Rust type.\n\
diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0fde69a..6f3b5ef 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -80,7 +80,7 @@ impl IGrammar
                 let ty: syn::Type =
                   if boxed { parse_quote!(Box<#ty>) }
                   else { ty };
-                Regular(Rust(ty))
+                Regular(Type::from_rust(ty))
               }
             }
           } else { External }
@@ -375,6 +375,15 @@ impl Eq for Type {}
 
 impl Type
 {
+  /// A type written by the user; `char` is the one inferred for a single character.
+  pub fn from_rust(ty: syn::Type) -> Type {
+    match ty {
+      syn::Type::Paren(ty) => Type::from_rust(*ty.elem),
+      syn::Type::Path(ref ty) if ty.qself.is_none() && ty.path.is_ident("char") => Atom,
+      ty => Rust(ty)
+    }
+  }
+
   pub fn cardinality(&self) -> usize {
     match *self {
       Unit => 0,
-- 
2.43.0


From 9166201b51cfe15eccbbb2af98d253fdfde4242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:13 +0000
Subject: [PATCH 19/22] fix: visit the rules once when looking for redundant
 chaining

---
 .../middle/analysis/useless_chaining.rs       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index aededf2..6b1c99f 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -37,6 +37,7 @@
 #![macro_use]
 use middle::analysis::ast::*;
 
+use std::collections::HashMap;
 use self::PredicateOrRepeat::*;
 
 #[derive(PartialEq, Eq, Clone, Copy)]
@@ -55,7 +56,8 @@ impl Default for PredicateOrRepeat {
 
 pub struct UselessChaining<'a>
 {
-  grammar: &'a AGrammar
+  grammar: &'a AGrammar,
+  inner: InnerPredicateOrRepeat<'a>
 }
 
 impl <'a> UselessChaining<'a>
@@ -66,7 +68,10 @@ impl <'a> UselessChaining<'a>
   }
 
   fn check_chaining(grammar: &'a AGrammar){
-    let mut analyser = UselessChaining{ grammar };
+    let mut analyser = UselessChaining {
+      grammar,
+      inner: InnerPredicateOrRepeat::new(grammar)
+    };
     for rule in &grammar.rules {
       analyser.visit_expr(rule.expr_idx)
     }
@@ -103,7 +108,7 @@ impl <'a> UselessChaining<'a>
   }
 
   fn check_chain_and_visit(&mut self, outer: PredicateOrRepeat, this: usize, child: usize) {
-    let (inner, crossed_rule) = InnerPredicateOrRepeat::new(self.grammar).visit_expr(child);
+    let (inner, crossed_rule) = self.inner.visit_expr(child);
     if !self.check_chain(this, outer, inner, crossed_rule) {
       self.visit_expr(child)
     }
@@ -111,12 +116,13 @@ impl <'a> UselessChaining<'a>
 }
 
 struct InnerPredicateOrRepeat<'a> {
-  grammar: &'a AGrammar
+  grammar: &'a AGrammar,
+  rules: HashMap<Ident, PredicateOrRepeat> // Rules already visited.
 }
 
 impl<'a> InnerPredicateOrRepeat<'a> {
   fn new(grammar: &'a AGrammar) -> Self {
-    InnerPredicateOrRepeat { grammar }
+    InnerPredicateOrRepeat { grammar, rules: HashMap::new() }
   }
 }
 
@@ -128,8 +134,13 @@ impl<'a> ExprByIndex for InnerPredicateOrRepeat<'a> {
 
 impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   fn visit_non_terminal_symbol(&mut self, _this: usize, rule: &Ident) -> (PredicateOrRepeat, bool) {
+    if let Some(&pred_or_repeat) = self.rules.get(rule) {
+      return (pred_or_repeat, true)
+    }
     let expr_idx = self.grammar.expr_index_of_rule(rule);
-    (self.visit_expr(expr_idx).0, true)
+    let (pred_or_repeat, _) = self.visit_expr(expr_idx);
+    self.rules.insert(rule.clone(), pred_or_repeat);
+    (pred_or_repeat, true)
   }
 
   fn visit_optional(&mut self, _this: usize, _child: usize) -> (PredicateOrRepeat, bool) {
-- 
2.43.0


From 38ce0ae6cbe3c7abb8c85d050a78500cc6b8df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:40 +0000
Subject: [PATCH 20/22] fix: accept grammars whose tokens come from several
 files

---
 src/liboak/front/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 4f0bb35..50a9ce3 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -100,7 +100,7 @@ impl FGrammar {
       } else {
         let lo = self.span_of(choices[0]);
         let hi = self.span_of(choices[choices.len() - 1]);
-        self.alloc_expr(lo.join(hi).unwrap(), Choice(choices))
+        self.alloc_expr(lo.join(hi).unwrap_or(lo), Choice(choices))
       };
     Ok(res)
   }
@@ -206,7 +206,7 @@ impl FGrammar {
       return Ok(seq[0]);
     }
     let hi = self.span_of(seq[seq.len() - 1]);
-    Ok(self.alloc_expr(lo.join(hi).unwrap(), Sequence(seq)))
+    Ok(self.alloc_expr(lo.join(hi).unwrap_or(lo), Sequence(seq)))
   }
 
   fn parse_typed_expr(&mut self, ps: ParseStream, rule_name: &str) -> Result<Option<usize>> {
@@ -244,7 +244,7 @@ impl FGrammar {
   {
     match self.parse_suffixed_expr(ps, rule_name)? {
       Some(expr) => {
-        let span = lo.join(self.span_of(expr)).unwrap();
+        let span = lo.join(self.span_of(expr)).unwrap_or(lo);
         Ok(self.alloc_expr(span, make_prefix(expr)))
       }
       None => {
@@ -264,7 +264,7 @@ impl FGrammar {
       Some(expr) => expr,
       None => return Ok(None),
     };
-    let span = lo.join(ps.span()).unwrap();
+    let span = lo.join(ps.span()).unwrap_or(lo);
     let res =
       if ps.peek(Token![*]) {
         let _: Token![*] = ps.parse()?;
-- 
2.43.0


From 1558fb94b4fb075905c5a0666870cd2308103895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:40 +0000
Subject: [PATCH 21/22] fix: take a type given through a macro variable for the
 type itself

---
 src/liboak/middle/typing/ast.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 6f3b5ef..82cc2b0 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -379,6 +379,7 @@ impl Type
   pub fn from_rust(ty: syn::Type) -> Type {
     match ty {
       syn::Type::Paren(ty) => Type::from_rust(*ty.elem),
+      syn::Type::Group(ty) => Type::from_rust(*ty.elem),
       syn::Type::Path(ref ty) if ty.qself.is_none() && ty.path.is_ident("char") => Atom,
       ty => Rust(ty)
     }
-- 
2.43.0


From 8e93e9835aef0e9fda47f2483bfe1d18d43dba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:45 +0000
Subject: [PATCH 22/22] fix: name the items of the standard library by their
 paths in the generated code

---
 src/liboak/back/compiler/any_single_char.rs | 4 ++--
 src/liboak/back/compiler/character_class.rs | 2 +-
 src/liboak/back/compiler/choice.rs          | 4 ++--
 src/liboak/back/compiler/optional.rs        | 4 ++--
 src/liboak/back/compiler/repeat.rs          | 2 +-
 src/liboak/back/compiler/rtype.rs           | 4 ++--
 src/liboak/back/compiler/semantic_action.rs | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/liboak/back/compiler/any_single_char.rs b/src/liboak/back/compiler/any_single_char.rs
index a9f88dc..e1ddf73 100644
--- a/src/liboak/back/compiler/any_single_char.rs
+++ b/src/liboak/back/compiler/any_single_char.rs
@@ -54,10 +54,10 @@ impl CompileExpr for AnySingleCharCompiler
     continuation
       .map_success(|success, failure| parse_quote!(
         match state.next() {
-          Some(#pattern) => {
+          ::std::option::Option::Some(#pattern) => {
             #success
           }
-          None => {
+          ::std::option::Option::None => {
             state.error("<character>");
             #failure
           }
diff --git a/src/liboak/back/compiler/character_class.rs b/src/liboak/back/compiler/character_class.rs
index d0d062c..907a35e 100644
--- a/src/liboak/back/compiler/character_class.rs
+++ b/src/liboak/back/compiler/character_class.rs
@@ -85,7 +85,7 @@ impl CompileExpr for CharacterClassCompiler
       .map_success(|success, failure| parse_quote!({
         let #mark = state.mark();
         match state.next() {
-          Some(#var) if #condition => {
+          ::std::option::Option::Some(#var) if #condition => {
             #success
           }
           _ => {
diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index 849d7bd..6fff86d 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -76,7 +76,7 @@ impl ChoiceCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      #result_var = Some(#result_value);
+      #result_var = ::std::option::Option::Some(#result_value);
       state
     })
   }
@@ -105,7 +105,7 @@ impl ChoiceCompiler
       }));
     let choice_expr = self.compile(context, continuation, branches);
     parse_quote!({
-      let mut #result = None;
+      let mut #result = ::std::option::Option::None;
       #choice_expr
     })
   }
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index e97f023..df15ea8 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -63,7 +63,7 @@ impl OptionalCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      #result_var = Some(#result_value);
+      #result_var = ::std::option::Option::Some(#result_value);
       state
     })
   }
@@ -77,7 +77,7 @@ impl OptionalCompiler
     );
     let optional_expr = self.compile(context, continuation, body);
     parse_quote!({
-      let mut #result_var = None;
+      let mut #result_var = ::std::option::Option::None;
       #optional_expr
     })
   }
diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 72b1ff9..c56ad85 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -119,7 +119,7 @@ impl RepeatCompiler
     );
     let repeat_expr = self.compile(context, continuation, body);
     parse_quote!({
-      let mut #result_var = vec![];
+      let mut #result_var = ::std::vec::Vec::new();
       #repeat_expr
     })
   }
diff --git a/src/liboak/back/compiler/rtype.rs b/src/liboak/back/compiler/rtype.rs
index 313ed89..7e2ddbe 100644
--- a/src/liboak/back/compiler/rtype.rs
+++ b/src/liboak/back/compiler/rtype.rs
@@ -61,11 +61,11 @@ impl<'a> TypeCompiler<'a>
 
   fn list_type(&self, expr_idx: usize) -> syn::Type {
     let ty = self.compile_type(expr_idx);
-    parse_quote!(Vec<#ty>)
+    parse_quote!(::std::vec::Vec<#ty>)
   }
 
   fn optional_type(&self, expr_idx: usize) -> syn::Type {
     let ty = self.compile_type(expr_idx);
-    parse_quote!(Option<#ty>)
+    parse_quote!(::std::option::Option<#ty>)
   }
 }
diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index 660db07..866deec 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -62,7 +62,7 @@ impl CompileExpr for SemanticActionCompiler
             parse_quote!(#action(#(#args),*))
           };
         let boxed_action_call: syn::Expr =
-          if self.boxed { parse_quote!(Box::new(#action_call)) }
+          if self.boxed { parse_quote!(::std::boxed::Box::new(#action_call)) }
           else { action_call };
         parse_quote!({
           let #result = #boxed_action_call;
-- 
2.43.0

