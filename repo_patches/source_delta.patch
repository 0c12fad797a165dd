From b4c0a294b38f0be043a1626648fa29ef137d6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 01/47] fix: end the terminal reader thread once its consumer
 is gone

The break only left the inner loop, so after dropping Events the thread
went on reading (and discarding) terminal input for ever.
---
 ogma-shell/interface/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/events.rs b/ogma-shell/interface/events.rs
index 29ea9de..ffbab1d 100644
--- a/ogma-shell/interface/events.rs
+++ b/ogma-shell/interface/events.rs
@@ -21,7 +21,7 @@ impl Events {
                 while let Ok(ev) = read() {
                     if let Some(ev) = Event::convert_xt(ev) {
                         if tx.send(ev).is_err() {
-                            break;
+                            return; // nobody is listening anymore, leave the terminal alone
                         }
                     }
                 }
-- 
2.43.0


From 22171987c95925dd9c7253666aab7f5b27523603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 02/47] fix: do not show completions which were dismissed
 before they arrived

Resetting the completions left the changeset as it was, so answers to the
dismissed request which arrived afterwards were shown (and, on selection,
inserted into an input they were not made for).
---
 ogma-shell/interface/completions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ogma-shell/interface/completions.rs b/ogma-shell/interface/completions.rs
index 1d34d4a..8f47e30 100644
--- a/ogma-shell/interface/completions.rs
+++ b/ogma-shell/interface/completions.rs
@@ -77,6 +77,8 @@ impl Completions {
     }
 
     pub fn reset(&mut self) {
+        // answers which are still on their way belong to what is being dismissed
+        self.changeset = self.changeset.wrapping_add(1);
         self.items.clear();
         self.highlighted = None;
     }
-- 
2.43.0


From bc6dea538b50d189ca1656953457c66761496476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:30 +0000
Subject: [PATCH 03/47] fix: do not drop a first row which equals the header
 when de-duplicating

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 6452490..535a716 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -258,7 +258,12 @@ fn dedup_table_intrinsic(mut blk: Block) -> Result<Step> {
         };
         // we need to own the vector for .dedup function
         let mut t = (*table).clone().into_raw();
-        t.dedup_by(|a, b| cols.iter().all(|&c| a[c] == b[c]));
+        // the header is not a row to compare with
+        let mut first = true;
+        t.dedup_by(|a, b| {
+            let after_hdr = std::mem::take(&mut first);
+            !after_hdr && cols.iter().all(|&c| a[c] == b[c])
+        });
 
         cx.done_o(Table::from(InnerTable::from(t)))
     })
-- 
2.43.0


From 343963e2d9c746fcfdb68f45b1cf6f2aa30766f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:30 +0000
Subject: [PATCH 04/47] fix: do not panic when sorting a table without rows by
 an expression

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 535a716..39dec94 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1476,7 +1476,8 @@ where
 {
     let mut err = None;
     // sort values using a comparer
-    values[1..].sort_by(|a, b| {
+    let rows = values.len().min(1)..; // without the header (an empty table does not have one)
+    values[rows].sort_by(|a, b| {
         // lhs is `a`, rhs is `b`
         match binop.eval(a.1.clone(), b.1.clone(), cx) {
             Ok(ord) => ord,
-- 
2.43.0


From 67698d7c0cdffc4b1e6eb5009468f9c48f654369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:30 +0000
Subject: [PATCH 05/47] fix: separate the parts of a group key also if the
 first one is empty

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 39dec94..605b556 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -695,8 +695,9 @@ fn grp_table_intrinsic(mut blk: Block) -> Result<Step> {
             let key = cols
                 .iter()
                 .map(|(c, _)| row(rowidx).nth(*c).expect("index inside table"))
-                .fold(String::new(), |mut k, e| {
-                    if !k.is_empty() {
+                .enumerate()
+                .fold(String::new(), |mut k, (i, e)| {
+                    if i > 0 {
                         k.push('-');
                     }
                     k.push_str(&print::fmt_cell(e, fmtr));
-- 
2.43.0


From 8c12957351333c24f943bb8057a2a21b400aa3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:30 +0000
Subject: [PATCH 06/47] fix: do not panic when adding a wider table which has
 no rows

---
 ogma/src/lang/impls/intrinsics/arithmetic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ogma/src/lang/impls/intrinsics/arithmetic.rs b/ogma/src/lang/impls/intrinsics/arithmetic.rs
index f22c4c2..1284964 100644
--- a/ogma/src/lang/impls/intrinsics/arithmetic.rs
+++ b/ogma/src/lang/impls/intrinsics/arithmetic.rs
@@ -146,6 +146,11 @@ fn add_table_by_row(mut prev: Table, next: Table, intersect: bool) -> Table {
             return next;
         } else {
             table.add_rows(next.rows().skip(1).map(|x| x.cloned()));
+            if nc > table.cols_len() {
+                // there were no rows to add, which would have extended the columns
+                let cols = table.cols_len();
+                table.add_cols(next.cols().skip(cols).map(|x| x.take(1).cloned()));
+            }
             if nc > pc {
                 // name the added cols
                 for col in pc..nc {
-- 
2.43.0


From 82d86a0c7b00c007f3ba09098ebf3143ba325c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 07/47] fix: let the first argument of 'and' and 'or'
 short-circuit as well

---
 ogma/src/lang/impls/intrinsics/logic.rs |  4 ++--
 ogma/src/lang/impls/intrinsics/mod.rs   | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/logic.rs b/ogma/src/lang/impls/intrinsics/logic.rs
index f61f89f..5cf04ac 100644
--- a/ogma/src/lang/impls/intrinsics/logic.rs
+++ b/ogma/src/lang/impls/intrinsics/logic.rs
@@ -22,7 +22,7 @@ fn and_help() -> HelpMessage {
 }
 
 fn and_intrinsic(blk: Block) -> Result<Step> {
-    variadic_intrinsic_in_agnostic::<bool, _>(blk, |prev, next| {
+    variadic_intrinsic_in_agnostic::<bool, _>(blk, true, |prev, next| {
         let x = prev && next;
         (x, !x) // short circuit if x is false
     })
@@ -141,7 +141,7 @@ fn or_help() -> HelpMessage {
 }
 
 fn or_intrinsic(blk: Block) -> Result<Step> {
-    variadic_intrinsic_in_agnostic::<bool, _>(blk, |prev, next| {
+    variadic_intrinsic_in_agnostic::<bool, _>(blk, false, |prev, next| {
         let x = prev || next;
         (x, x) // short-circuit if true!
     })
diff --git a/ogma/src/lang/impls/intrinsics/mod.rs b/ogma/src/lang/impls/intrinsics/mod.rs
index ab0ccd4..8a72bc7 100644
--- a/ogma/src/lang/impls/intrinsics/mod.rs
+++ b/ogma/src/lang/impls/intrinsics/mod.rs
@@ -120,12 +120,13 @@ where
     })
 }
 
-/// Same as [`variadic_intrinsic_in_constrained`] but does not use the input as the first previous value.
+/// Same as [`variadic_intrinsic_in_constrained`] but does not use the input as the first previous value,
+/// it uses `seed` instead, which should be the identity of `aggfn`.
 ///
 /// This makes it input agnostic.
-fn variadic_intrinsic_in_agnostic<T, F>(mut blk: Block, aggfn: F) -> Result<Step>
+fn variadic_intrinsic_in_agnostic<T, F>(mut blk: Block, seed: T, aggfn: F) -> Result<Step>
 where
-    T: AsType + Into<Value> + 'static,
+    T: AsType + Into<Value> + Clone + Send + Sync + 'static,
     T: TryFrom<Value, Error = Error>,
     F: Fn(T, T) -> (T, bool) + Send + Sync + 'static,
 {
@@ -154,11 +155,10 @@ where
     };
 
     blk.eval_o(move |input, cx| {
-        // we know arg.len() > 0
-        let mut prev: T = args[0].resolve(|| input.clone(), &cx)?.try_into()?;
+        let mut prev: T = seed.clone();
 
-        // skip the first one -- already computed
-        for arg in &args[1..] {
+        // aggregating the first arg with the seed lets it exit early as well
+        for arg in &args {
             let next: T = arg.resolve(|| input.clone(), &cx)?.try_into()?;
             let (x, exit) = aggfn(prev, next);
             prev = x;
-- 
2.43.0


From ebacaea6920bfc25a7e24617d188dd879c89554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:09 +0000
Subject: [PATCH 08/47] fix: bind the variable named in 'let', not the argument
 a parameter of that name points to

---
 ogma/src/eng/arg.rs                        | 11 +++++++++++
 ogma/src/lang/impls/intrinsics/pipeline.rs |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ogma/src/eng/arg.rs b/ogma/src/eng/arg.rs
index 89ceee8..43d917d 100644
--- a/ogma/src/eng/arg.rs
+++ b/ogma/src/eng/arg.rs
@@ -492,6 +492,17 @@ impl<'a> Block<'a> {
             Some(in_ty.clone()),
         ))
     }
+
+    /// Get the [`Block`]'s next argument _node_, as it is written.
+    ///
+    /// This differs to `next_arg()?.node()` in that a variable which points to a callsite argument
+    /// is **not** followed. Use it for variables which are being introduced, rather than read.
+    pub fn next_arg_node(&mut self) -> Result<ArgNode> {
+        let btag = self.blk_tag().clone();
+        let node = pop(&mut self.args, self.args_count, &btag)?;
+        self.args_count += 1;
+        Ok(node)
+    }
 }
 
 #[cfg(test)]
diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index ee3baaa..f776cd1 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -408,7 +408,7 @@ fn let_intrinsic(mut blk: Block) -> Result<Step> {
         let mut bindings = Vec::with_capacity(blk.args_len() / 2);
         while blk.args_len() > 1 {
             let e = blk.next_arg()?.supplied(None)?.concrete()?;
-            let argnode = blk.next_arg()?.node();
+            let argnode = blk.next_arg_node()?;
             let v = blk.create_var_ref(argnode, e.out_ty().clone())?;
             bindings.push((v, e));
         }
@@ -431,7 +431,7 @@ fn let_intrinsic(mut blk: Block) -> Result<Step> {
     let ty = blk.in_ty().clone();
 
     let trailing_binding = if blk.args_len() > 0 {
-        let argnode = blk.next_arg()?.node();
+        let argnode = blk.next_arg_node()?;
         let v = blk.create_var_ref(argnode, ty.clone())?;
         Some(v)
     } else {
-- 
2.43.0


From db47dd0c91070723e66de8ec390f4dedfc97862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:14 +0000
Subject: [PATCH 09/47] fix: let the types of an operation be those of the
 definition chosen for its input type

---
 ogma/src/eng/graphs/tygraph.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ogma/src/eng/graphs/tygraph.rs b/ogma/src/eng/graphs/tygraph.rs
index 4d2eda6..9e49be9 100644
--- a/ogma/src/eng/graphs/tygraph.rs
+++ b/ogma/src/eng/graphs/tygraph.rs
@@ -287,14 +287,15 @@ impl TypeGraph {
             .collect::<Vec<_>>();
         let is_only_def = all_defs.len() == 1;
 
-        // can only link op to def if there is no type key
-        if is_keyed_none {
+        // can only link op to def if there is no type key and it is the only def, otherwise the input
+        // may have a type which chooses another def
+        if is_keyed_none && is_only_def {
             // flow the input of the op into the input of this Def
             self.g.add_edge(op, def, Flow::II);
         }
 
-        // can only link def to op if there is no type key or if only def
-        if is_keyed_none || is_only_def {
+        // can only link def to op if it is the only def, another def may be the one which is chosen
+        if is_only_def {
             // flow the output of the Def into the Op
             self.g.add_edge(def, op, Flow::OO);
         }
-- 
2.43.0


From d8c9141cf1c34dc031729d9e274108c8d603b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 10/47] fix: let an argument which a lazy parameter points to
 learn its types from the use of the parameter

---
 ogma/src/eng/arg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ogma/src/eng/arg.rs b/ogma/src/eng/arg.rs
index 43d917d..b9c8ff9 100644
--- a/ogma/src/eng/arg.rs
+++ b/ogma/src/eng/arg.rs
@@ -50,6 +50,10 @@ impl<'a> ArgBuilder<'a> {
             .copied();
 
         if let Some(node) = new_node {
+            // the types are those of the node pointed to, it is this node which gets compiled
+            let tys = &self.compiler.tg[node.idx()];
+            self.in_ty = Kn::from(&tys.input);
+            self.out_ty = Kn::from(&tys.output);
             self.node = node;
             self.follow_local_arg_ptr()
         } else {
-- 
2.43.0


From f52d881eb3c47a5016268db47ee769fb95a3e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 11/47] fix: do not oblige the types of the variables named in
 'let'

---
 ogma/src/eng/blk.rs                        | 15 ++++++++++++++-
 ogma/src/lang/impls/intrinsics/pipeline.rs |  4 +++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ogma/src/eng/blk.rs b/ogma/src/eng/blk.rs
index a2c7c15..ea65a73 100644
--- a/ogma/src/eng/blk.rs
+++ b/ogma/src/eng/blk.rs
@@ -227,11 +227,24 @@ impl<'a> Block<'a> {
     /// This method does not pop any arguments, it merely flags to the compiler to insert type
     /// graph changes.
     pub fn oblige_args_supplied_tys<T: Into<Option<Type>>>(&mut self, ty: T) {
+        self.oblige_some_args_supplied_tys(ty, |_| true)
+    }
+
+    /// Same as [`Block::oblige_args_supplied_tys`], but only for the arguments where `which` returns
+    /// `true`. `which` is given the position amongst the **remaining** arguments.
+    pub fn oblige_some_args_supplied_tys<T, F>(&mut self, ty: T, which: F)
+    where
+        T: Into<Option<Type>>,
+        F: Fn(usize) -> bool,
+    {
         let t = ty.into().unwrap_or_else(|| self.in_ty.clone());
         self.chgs.chgs.extend(
             self.args
                 .iter()
-                .map(|arg| tygraph::Chg::ObligeInput(arg.idx(), t.clone()).into()),
+                .rev() // args is a stack
+                .enumerate()
+                .filter(|(i, _)| which(*i))
+                .map(|(_, arg)| tygraph::Chg::ObligeInput(arg.idx(), t.clone()).into()),
         );
     }
 }
diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index f776cd1..539a10f 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -404,7 +404,9 @@ fn let_intrinsic(mut blk: Block) -> Result<Step> {
         });
 
     fn build_bindings(blk: &mut Block) -> Result<Vec<Binding>> {
-        blk.oblige_args_supplied_tys(None); // we cheat a little bit here, arg nodes do not need to be obliged
+        // only the expressions are supplied the input, every second argument names a variable
+        let named = blk.args_len() / 2 * 2;
+        blk.oblige_some_args_supplied_tys(None, |i| i < named && i % 2 == 0);
         let mut bindings = Vec::with_capacity(blk.args_len() / 2);
         while blk.args_len() > 1 {
             let e = blk.next_arg()?.supplied(None)?.concrete()?;
-- 
2.43.0


From 760c9a4181851568930aae398ba377367245ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:04 +0000
Subject: [PATCH 12/47] fix: heed a cancellation of a batch which is not
 fail-fast

---
 ogma/src/rt/bat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/rt/bat.rs b/ogma/src/rt/bat.rs
index c28e4f3..dd43c17 100644
--- a/ogma/src/rt/bat.rs
+++ b/ogma/src/rt/bat.rs
@@ -226,7 +226,7 @@ pub fn process(
             failure.flip_on();
         }
     };
-    let stop = || ff && (prog.cancelled() || failure.get());
+    let stop = || prog.cancelled() || (ff && failure.get());
 
     // process the defs (in order)
     for (idx, def) in defs {
-- 
2.43.0


From c29199a1b1c1de62feea07b71695a331c98029eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:29 +0000
Subject: [PATCH 13/47] fix: keep the comments of a batch file apart from those
 of its first item by any blank line

---
 ogma/src/lang/syntax/parse/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2fb3df4..24f6942 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -150,7 +150,9 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
         }
     };
 
-    let mut mv_doc = directives.is_empty() && !text.starts_with("\n\n");
+    // a blank line (which may have whitespace) keeps the file's comments apart from the first item's
+    let blank_follows = text.lines().nth(1).map_or(false, |l| l.trim().is_empty());
+    let mut mv_doc = directives.is_empty() && !blank_follows;
 
     let items = split_items(text);
 
-- 
2.43.0


From 6ae834aa0be6df1ce3ca31b274a1fd6d93a02a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:32 +0000
Subject: [PATCH 14/47] fix: take only 'def' and 'def-ty' themselves for a
 definition in a batch file

---
 ogma/src/lang/syntax/parse/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 24f6942..8b69abe 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -182,7 +182,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
             (!doc_.is_empty()).then_some(doc_)
         };
 
-        if code.starts_with("def-ty") {
+        if code.starts_with("def-ty ") {
             let (_, name) = defty_name(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             types.push((
@@ -193,7 +193,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                     line: line_num(code),
                 },
             ));
-        } else if code.starts_with("def") {
+        } else if code.starts_with("def ") {
             let (_, name) = def_op(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             impls.push((
-- 
2.43.0


From 76be50137683eb62bb57bf142e13fa2b5c9959b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:39 +0000
Subject: [PATCH 15/47] fix: do not save to a file outside of the root
 directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 64 +++++++++++++++++-----------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index af83e91..c9112b6 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -34,6 +34,39 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
         .map_err(|_| io::Error::new(io::ErrorKind::Other, "cannot move above root directory"))
 }
 
+/// Same as [`scrub_filepath`], but for a file to write, which need not exist.
+///
+/// Can't use [`scrub_filepath`] as this uses canonicalization for checking.
+fn scrub_new_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
+    use std::path::{Component::*, PathBuf};
+
+    let above = || io::Error::new(io::ErrorKind::Other, "cannot move above root directory");
+
+    // walk the path, it can not go above root on the way
+    let mut p = PathBuf::new();
+    for c in cx.wd.join(path).components() {
+        match c {
+            CurDir => (),
+            Normal(x) => p.push(x),
+            ParentDir if p.pop() => (),
+            ParentDir | RootDir | Prefix(_) => return Err(above()),
+        }
+    }
+    if p.file_name().is_none() {
+        return Err(above());
+    }
+
+    // the portion which already exists can not link to outside of root
+    let p = cx.root.join(p);
+    if let Some(x) = p.ancestors().find(|x| x.symlink_metadata().is_ok()) {
+        if !x.canonicalize()?.starts_with(cx.root.canonicalize()?) {
+            return Err(above());
+        }
+    }
+
+    Ok(p)
+}
+
 // ------ List -----------------------------------------------------------------
 fn ls_table_help() -> HelpMessage {
     HelpMessage {
@@ -301,32 +334,11 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
     let blktag = blk.blk_tag().clone();
     blk.eval(ty, move |val, cx| {
         let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
-        let p = cx.root.join(cx.wd).join(p.as_str());
-        // check path doesn't go beyond root. can't use scrub_filepath as this uses
-        // canonicalization for checking
-        {
-            use std::path::Component::*;
-            let x = p.components().fold(0i32, |x, c| {
-                x + match c {
-                    RootDir => std::i32::MIN,
-                    CurDir => 0,
-                    ParentDir => -1,
-                    _ => 1,
-                }
-            }); // there is always one for the file name
-            if x <= 0 {
-                Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "cannot move above root directory",
-                ))
-            } else {
-                Ok(())
-            }
-        }
-        .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
-        .map(std::io::BufWriter::new)
-        .and_then(|mut file| write_file(&mut file, val.clone()))
-        .map_err(|e| Error::io(&blktag, e))?;
+        scrub_new_filepath(&p, &cx)
+            .and_then(|p| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
+            .map(std::io::BufWriter::new)
+            .and_then(|mut file| write_file(&mut file, val.clone()))
+            .map_err(|e| Error::io(&blktag, e))?;
         cx.done(val)
     })
 }
-- 
2.43.0


From 96a9c0dfdf52c9b104e48655ac366d5ec955cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 16/47] fix: list directories relative to, and only within, the
 root directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index c9112b6..ad7553f 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -132,13 +132,15 @@ fn ls_intrinsic(mut blk: Block) -> Result<Step> {
     };
 
     blk.eval_o(move |_, cx| {
-        if let Some(path) = &path {
-            let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;
-            make_dir_table(cx.wd.join(path.as_str()), &blk_tag)
-        } else {
-            make_dir_table(cx.wd, &blk_tag)
+        let path: Str = match &path {
+            Some(path) => path.resolve(|| Value::Nil, &cx)?.try_into()?,
+            None => Str::new(""),
+        };
+        let dir = cx.root.join(cx.wd).join(path.as_str());
+        if dir.exists() {
+            scrub_filepath(&path, &cx).map_err(|e| Error::io(&blk_tag, e))?;
         }
-        .and_then(|x| cx.done_o(x))
+        make_dir_table(dir, &blk_tag).and_then(|x| cx.done_o(x))
     })
 }
 
-- 
2.43.0


From 8af0f90690bc8a33cb845f31a245d59665a9828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:50 +0000
Subject: [PATCH 17/47] fix: open files relative to the root directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index ad7553f..9e566fd 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -258,7 +258,9 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let table = match FSCACHE.get::<Table>(&path) {
                 Some(table) => table,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path))
+                        .map_err(|e| Error::io(&blktag, e))?
+                        .into();
 
                     let table = Table::from(
                         ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
@@ -276,7 +278,9 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let s = match FSCACHE.get::<Str>(&path) {
                 Some(s) => s,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path))
+                        .map_err(|e| Error::io(&blktag, e))?
+                        .into();
 
                     FSCACHE.insert(&path, s.clone());
                     s
-- 
2.43.0


From 1af4cfeb8942da763c975f533deed1fab3a4a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 18/47] fix: do not take files whose names differ in case for
 the same in the file cache

---
 ogma/src/rt/fscache.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index c6ef4a0..340d997 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -112,7 +112,13 @@ pub fn ensure_init(root: &Path) {
 }
 
 fn path_to_str(path: &Path) -> String {
-    path.display().to_string().to_lowercase()
+    let s = path.display().to_string();
+    // not every file system is case insensitive
+    if cfg!(windows) {
+        s.to_lowercase()
+    } else {
+        s
+    }
 }
 
 fn clean_opened_cache_periodically() {
-- 
2.43.0


From 9e7fc1dbf4fc20c3fa97e814025d4905a8ec2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 19/47] fix: forget cached files below a changed directory, and
 all if changes were missed

---
 ogma/src/rt/fscache.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index 340d997..82772d9 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -82,9 +82,18 @@ impl FsCache {
     {
         let paths: HashSet<String> = paths.map(|p| path_to_str(p.as_ref())).collect();
         if !paths.is_empty() {
-            self.map.lock().retain(|k, _| !paths.contains(&k.0));
+            // a change of a directory (such as a rename) changes what is along the paths below it
+            self.map.lock().retain(|k, _| {
+                !Path::new(&k.0)
+                    .ancestors()
+                    .any(|p| p.to_str().map_or(false, |p| paths.contains(p)))
+            });
         }
     }
+
+    fn remove_all(&self) {
+        self.map.lock().clear();
+    }
 }
 
 /// Ensures the [`FSCACHE`] is initialised.
@@ -152,6 +161,7 @@ fn watch_fs(canon_root: PathBuf) -> Result<(), Box<dyn error::Error>> {
                     set.insert(a);
                     set.insert(b);
                 }
+                Rescan => FSCACHE.remove_all(), // changes may have been missed
                 _ => (),
             }
         }
-- 
2.43.0


From 4a0fd79bd0f105402bc666dcdbfc7f076d4b5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 20/47] fix: do not cache a file which changed while it was
 read

---
 ogma/src/lang/impls/intrinsics/io.rs |  6 ++++--
 ogma/src/rt/fscache.rs               | 28 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index 9e566fd..7125eb1 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -258,6 +258,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let table = match FSCACHE.get::<Table>(&path) {
                 Some(table) => table,
                 None => {
+                    let changes = FSCACHE.changes();
                     let s: Str = read_file(cx.root.join(&path))
                         .map_err(|e| Error::io(&blktag, e))?
                         .into();
@@ -265,7 +266,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
                     let table = Table::from(
                         ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
                     );
-                    FSCACHE.insert(&path, table.clone());
+                    FSCACHE.insert(&path, table.clone(), changes);
                     table
                 }
             };
@@ -278,11 +279,12 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let s = match FSCACHE.get::<Str>(&path) {
                 Some(s) => s,
                 None => {
+                    let changes = FSCACHE.changes();
                     let s: Str = read_file(cx.root.join(&path))
                         .map_err(|e| Error::io(&blktag, e))?
                         .into();
 
-                    FSCACHE.insert(&path, s.clone());
+                    FSCACHE.insert(&path, s.clone(), changes);
                     s
                 }
             };
diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index 82772d9..319a2a9 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -8,6 +8,7 @@ use std::{
     error,
     path::{Path, PathBuf},
     result::Result,
+    sync::atomic::{AtomicUsize, Ordering},
     time::{Duration, Instant},
 };
 
@@ -32,6 +33,7 @@ type Map = HashMap<Key, Value>;
 #[derive(Default)]
 pub struct FsCache {
     map: Mutex<Map>,
+    changes: AtomicUsize,
 }
 
 impl Key {
@@ -61,14 +63,26 @@ impl FsCache {
             .and_then(|x| T::try_from(x).ok())
     }
 
-    /// Insert the value `T` along path.
-    pub fn insert<T>(&self, path: &Path, value: T)
+    /// How many changes of the filesystem have been noticed. Fetch this _before_ reading a file which
+    /// is to be [inserted](FsCache::insert).
+    pub fn changes(&self) -> usize {
+        self.changes.load(Ordering::SeqCst)
+    }
+
+    /// Insert the value `T` along path, which was read after there have been `changes`.
+    ///
+    /// If more changes were noticed in the meantime the value could be outdated already and is not
+    /// cached.
+    pub fn insert<T>(&self, path: &Path, value: T, changes: usize)
     where
         T: AsType,
         T: Into<types::Value>,
     {
         let key = Key::from::<T>(path);
-        self.map.lock().insert(key, (Instant::now(), value.into()));
+        let mut lock = self.map.lock();
+        if self.changes() == changes {
+            lock.insert(key, (Instant::now(), value.into()));
+        }
     }
 
     fn remove_expired(&self, age: Duration) {
@@ -82,8 +96,10 @@ impl FsCache {
     {
         let paths: HashSet<String> = paths.map(|p| path_to_str(p.as_ref())).collect();
         if !paths.is_empty() {
+            let mut lock = self.map.lock();
+            self.changes.fetch_add(1, Ordering::SeqCst);
             // a change of a directory (such as a rename) changes what is along the paths below it
-            self.map.lock().retain(|k, _| {
+            lock.retain(|k, _| {
                 !Path::new(&k.0)
                     .ancestors()
                     .any(|p| p.to_str().map_or(false, |p| paths.contains(p)))
@@ -92,7 +108,9 @@ impl FsCache {
     }
 
     fn remove_all(&self) {
-        self.map.lock().clear();
+        let mut lock = self.map.lock();
+        self.changes.fetch_add(1, Ordering::SeqCst);
+        lock.clear();
     }
 }
 
-- 
2.43.0


From ce181b174b80d0696449d3653d3e14f82dee1fa3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 21/47] fix: answer a command given by a path with an error
 instead of panicking

---
 ogma/src/eng/graphs/astgraph.rs | 5 ++---
 ogma/src/lang/syntax/ast.rs     | 5 +----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ba01ae..67e808f 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -182,9 +182,8 @@ impl AstGraph {
 
                 let op = match op.is_op() {
                     Some(t) => t.clone(),
-                    None => {
-                        todo!("paths are not supported yet")
-                    }
+                    // paths are not supported yet
+                    None => return Err(Error::op_not_found(&op.tag(), None, false, defs.impls())),
                 };
 
                 let op = g.add_node(AstNode::Op { op, blk: blk_tag });
diff --git a/ogma/src/lang/syntax/ast.rs b/ogma/src/lang/syntax/ast.rs
index 574332f..1ac950b 100644
--- a/ogma/src/lang/syntax/ast.rs
+++ b/ogma/src/lang/syntax/ast.rs
@@ -269,10 +269,7 @@ pub struct PrefixBlock {
 
 impl IBlock for PrefixBlock {
     fn op(&self) -> CTag {
-        match self.op.is_op() {
-            Some(x) => Cow::Borrowed(x),
-            None => panic!("partitions are not yet supported"),
-        }
+        self.op.tag()
     }
 
     fn terms(&self) -> Cow<[Term]> {
-- 
2.43.0


From a9bd1885ae324142730bc039436d676ebf22c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 22/47] fix: report recursion of definitions for any input
 instead of expanding it endlessly

---
 ogma/src/eng/graphs/astgraph.rs | 78 ++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 67e808f..375ada8 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -318,15 +318,17 @@ impl AstGraph {
                 Implementation::Definition(def) => {
                     // first, test that this def is not already being used in the call chain,
                     // detecting recursion.
-                    // make an exception for unkeyed impls, since the path taken may be differing
                     let id = ty.map(|ty| format!("{name}:{ty}"));
 
-                    if id
-                        .as_ref()
-                        .map(|id| recursion_detector.detect(self, opnode, id))
-                        .unwrap_or(false)
-                    {
-                        continue;
+                    match &id {
+                        Some(id) if recursion_detector.detect(self, opnode, id) => continue,
+                        // make an exception for unkeyed impls, since the path taken may be
+                        // differing. the path cannot differ if it went through nothing but unkeyed
+                        // impls, these would be expanded without end.
+                        None if recursion_detector.detect_unkeyed(self, opnode, name) => {
+                            return Err(Error::op_not_found(&op, None, true, impls));
+                        }
+                        _ => (),
                     }
 
                     // no recursion detected, this id will need to be added to the detector
@@ -345,8 +347,9 @@ impl AstGraph {
                     // link cmd to expr
                     self.0.add_edge(cmd, expr, Relation::Normal);
                     // add the id into the recursion detector
-                    if let Some(id) = id {
-                        recursion_detector.add_id(cmd, id);
+                    match id {
+                        Some(id) => recursion_detector.add_id(cmd, id),
+                        None => recursion_detector.add_unkeyed(cmd, name.clone()),
                     }
 
                     cmd
@@ -408,8 +411,9 @@ fn map_ty_tag(tag: Option<Tag>, defs: &Definitions) -> Result<Option<Type>> {
 
 #[derive(Default)]
 struct RecursionDetection {
-    def_ids: IndexMap<Str>,
-    parent_ids: Option<Vec<Str>>,
+    /// The id of a definition, and if it is keyed.
+    def_ids: IndexMap<(Str, bool)>,
+    parent_ids: Option<Vec<(Str, bool)>>,
 }
 
 impl RecursionDetection {
@@ -418,46 +422,40 @@ impl RecursionDetection {
     }
 
     pub fn add_id<I: Into<Str>>(&mut self, node: NodeIndex, id: I) {
-        self.def_ids.insert(node.index(), id.into());
+        self.def_ids.insert(node.index(), (id.into(), true));
+    }
+
+    pub fn add_unkeyed<I: Into<Str>>(&mut self, node: NodeIndex, name: I) {
+        self.def_ids.insert(node.index(), (name.into(), false));
     }
 
     /// Why is this mutable? The recursion detector utilises a lazily loaded path system to avoid
     /// having to compute paths when not needed.
     pub fn detect(&mut self, ag: &AstGraph, opnode: OpNode, id: &str) -> bool {
-        if self.parent_ids.is_none() {
-            let x = self.parent_ids(ag, opnode);
-            self.parent_ids = Some(x);
-        }
-
-        self.detect_inner(id)
+        self.load_parent_ids(ag, opnode)
+            .iter()
+            .any(|(i, keyed)| *keyed && i == id)
     }
 
-    fn detect_inner(&self, id: &str) -> bool {
-        // this should have Some, but can return false anyway
-        self.parent_ids
-            .as_ref()
-            .map(|paths| paths.iter().any(|i| i == id))
-            .expect("should have paths")
+    /// Detects an unkeyed definition which is reached again through unkeyed definitions only.
+    pub fn detect_unkeyed(&mut self, ag: &AstGraph, opnode: OpNode, name: &str) -> bool {
+        self.load_parent_ids(ag, opnode)
+            .iter()
+            .take_while(|(_, keyed)| !keyed)
+            .any(|(i, _)| i == name)
     }
 
-    fn parent_ids(&self, ag: &AstGraph, opnode: OpNode) -> Vec<Str> {
-        let mut x = petgraph::algo::all_simple_paths(
-            &ag.0,
-            0.into(), // root node
-            opnode.idx(),
-            1,
-            None,
-        )
-        .flat_map(|path: Vec<_>| {
-            path.into_iter()
-                .filter_map(|n| self.def_ids.get(&n.index()))
+    /// The definitions leading to `opnode`, closest first.
+    fn load_parent_ids(&mut self, ag: &AstGraph, opnode: OpNode) -> &[(Str, bool)] {
+        let def_ids = &self.def_ids;
+
+        self.parent_ids.get_or_insert_with(|| {
+            ag.path_from_root(opnode.idx())
+                .rev()
+                .filter_map(|n| def_ids.get(&n.index()))
                 .cloned()
+                .collect()
         })
-        .collect::<Vec<Str>>();
-
-        x.reverse(); // small optimisation since recursion is generally from closest point
-
-        x
     }
 }
 
-- 
2.43.0


From 7fa6d6611e557b00a7705a50582ad82b910c7762 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 23/47] fix: refuse a type whose constructors are already
 defined or whose name is a tuple's

---
 ogma/src/lang/types.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 2607649..5114f89 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -379,6 +379,10 @@ impl Types {
         impls: &mut Implementations,
     ) -> Result<()> {
         let ty = self.insert_inner(def, loc, help)?;
+        if let Err(e) = assert_distinct_inits(&ty, impls) {
+            self.map.remove(ty.name().str());
+            return Err(e);
+        }
         lang::impls::add_typedef_init_impls(impls, ty);
         Ok(())
     }
@@ -502,6 +506,39 @@ impl TypeDef {
     }
 }
 
+/// Check that the commands which initialise `ty` would not replace one another or other commands,
+/// and that the name is not the one of a tuple type.
+fn assert_distinct_inits(ty: &TypeDef, impls: &Implementations) -> Result<()> {
+    let err = |name: &Tag, desc: String| Error {
+        cat: err::Category::Definitions,
+        desc: format!("can not define type `{}`", ty.name()),
+        traces: vec![err::Trace::from_tag(name, desc)],
+        help_msg: Some("try using a different name".into()),
+        hard: true,
+    };
+
+    if ty.is_tuple() {
+        return Err(err(ty.name(), "names starting with `U_` are tuples".into()));
+    }
+
+    let inits = match ty.structure() {
+        TypeVariant::Sum(vars) => vars
+            .iter()
+            .map(|v| (format!("{}::{}", ty.name(), v.name), &v.name))
+            .collect(),
+        TypeVariant::Product(_) => vec![(ty.name().to_string(), ty.name())],
+    };
+
+    let mut seen = HashSet::default();
+    for (op, name) in inits {
+        if impls.iter_op(&op).any(|im| im.ty.is_none()) || !seen.insert(op.clone()) {
+            return Err(err(name, format!("command `{}` already defined", op)));
+        }
+    }
+
+    Ok(())
+}
+
 fn from_parsed_fields(fields: Vec<ast::Field>, types: &Types) -> Result<Vec<Field>> {
     let mut v = Vec::with_capacity(fields.len());
     for field in fields {
-- 
2.43.0


From 6c5420e0b729d38c41e3845c16ceb1f24215f7a4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 24/47] fix: do not take text in the body of a definition for a
 flag of def

---
 ogma/src/lang/defs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 8d3beec..cdf2283 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -299,13 +299,22 @@ pub fn process_definition<'a>(
     }
 }
 
+/// Flags are only recognised in the leading part of a definition, not in its body.
+fn has_flag(def: &str, flag: &str) -> bool {
+    def.split(|c| matches!(c, '(' | '{' | '|'))
+        .next()
+        .unwrap_or_default()
+        .split_whitespace()
+        .any(|x| x == flag)
+}
+
 fn process_impl<'a>(
     s: &'a str,
     loc: Location,
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    if has_flag(s, "--help") {
         let help = HelpMessage {
             desc: "define a command that encapsulates an expression
 def has specialised syntax which takes variable params: ( )"
@@ -342,10 +351,10 @@ def has specialised syntax which takes variable params: ( )"
             ..HelpMessage::new("def")
         };
         Err(err::help_as_error(&help, None))
-    } else if s.contains(" --list") {
+    } else if has_flag(s, "--list") {
         let post = s.split_once(" | ").map(|x| x.1);
         Ok((Value::Tab(construct_def_table(defs)), post))
-    } else if s.contains(" --clear") {
+    } else if has_flag(s, "--clear") {
         defs.clear(false);
         Ok((Value::Nil, None))
     } else {
-- 
2.43.0


From 22560f57510feb29b1221f1a0cce78f3ff1a26e2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 25/47] fix: answer the flags of def-ty instead of panicking

---
 ogma/src/lang/defs.rs | 99 +++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index cdf2283..f867a71 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -389,47 +389,41 @@ fn process_ty<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
-        todo!("need to create a def-ty help message");
-    //         let help = HelpMessage {
-    //             desc: "define a command that encapsulates an expression
-    // def has specialised syntax which takes variable params: ( )"
-    //                 .into(),
-    //             params: vec![
-    //                 HelpParameter::Required("name".into()),
-    //                 HelpParameter::Custom("([param1] [param2] [..args]) { expr }".into()),
-    //             ],
-    //             flags: vec![
-    //                 ("list", "list the definitions as a table"),
-    //                 (
-    //                     "load",
-    //                     "load persistent definitions from files in daedalus folder",
-    //                 ),
-    //                 ("clear", "clear all user defined definitions"),
-    //             ],
-    //             examples: vec![
-    //                 HelpExample {
-    //                     desc: "define a command that returns the number 5",
-    //                     code: "def num5 () { in 5 }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "list directory items that match a type",
-    //                     code: "def list (ty) { ls | filter = type $ty }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "pass through remaining arguments",
-    //                     code: "def a-name (first ..remaining) { foo $first $remaining }",
-    //                 },
-    //             ],
-    //         };
-    //         Err(help_as_error("def", &help))
-    } else if s.contains(" --list") {
-        todo!("need to create a listing of types")
-    //         Ok(Value::Tab(construct_def_table(defs)))
-    } else if s.contains(" --clear") {
-        todo!("need to handle clearing of types")
-    //         defs.clear(false);
-    //         Ok(Value::Nil)
+    if has_flag(s, "--help") {
+        let help = HelpMessage {
+            desc: "define a type, either with fields or as a choice of variants".into(),
+            params: vec![
+                HelpParameter::Required("Name".into()),
+                HelpParameter::Custom("{ field:Ty [field2:Ty] ... }".into()),
+                HelpParameter::Break,
+                HelpParameter::Required("Name".into()),
+                HelpParameter::Custom(
+                    ":: Variant1 [{ field:Ty ... }] | Variant2 [{ field:Ty ... }] ...".into(),
+                ),
+            ],
+            flags: vec![
+                ("list", "list the types as a table"),
+                ("clear", "clear all user defined definitions"),
+            ],
+            examples: vec![
+                HelpExample {
+                    desc: "define a point",
+                    code: "def-ty Point { x:Num y:Num }",
+                },
+                HelpExample {
+                    desc: "define a choice",
+                    code: "def-ty Weather :: Sunny | Rainy { mm:Num }",
+                },
+            ],
+            ..HelpMessage::new("def-ty")
+        };
+        Err(err::help_as_error(&help, None))
+    } else if has_flag(s, "--list") {
+        let post = s.split_once(" | ").map(|x| x.1);
+        Ok((Value::Tab(construct_type_table(defs)), post))
+    } else if has_flag(s, "--clear") {
+        defs.clear(false);
+        Ok((Value::Nil, None))
     } else {
         defs.types
             .insert(s, loc, help, &mut defs.impls)
@@ -457,6 +451,29 @@ fn assert_all_ops_defined(def: &ast::DefinitionImpl, defs: &Implementations) ->
     Ok(())
 }
 
+/// Construct a table comprising of the various types in `defs`.
+fn construct_type_table(defs: &Definitions) -> Table {
+    use ::table::Entry::*;
+
+    let mut types = defs.types.iter().collect::<Vec<_>>();
+    types.sort_by_key(|(name, _)| *name);
+
+    let mut table = ::table::DataTable::new();
+    table.add_row(["name", "location", "line"].iter().map(|x| Obj(Str::from(*x))));
+    table.add_rows(types.into_iter().map(|(name, ty)| {
+        let (loc, line) = match ty {
+            Type::Def(x) => match &x.loc {
+                Location::File(f, l) => (f.display().to_string(), Num((*l).into())),
+                x => (x.to_string(), Nil),
+            },
+            _ => (Location::Ogma.to_string(), Nil),
+        };
+        vec![Obj(Str::new(name)), Obj(loc.into()), line].into_iter()
+    }));
+
+    table.map_obj(Value::Str).into()
+}
+
 /// Construct a table comprising of the various definitions in `defs`.
 pub fn construct_def_table(defs: &Definitions) -> Table {
     use ::table::Entry::*;
-- 
2.43.0


From 2ac7180cf6bd28b4f11facc21234871cb52d047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 26/47] fix: reject an obliged type flowing into another known
 type instead of panicking

---
 ogma/src/eng/graphs/tygraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma/src/eng/graphs/tygraph.rs b/ogma/src/eng/graphs/tygraph.rs
index 9e49be9..48d2ba3 100644
--- a/ogma/src/eng/graphs/tygraph.rs
+++ b/ogma/src/eng/graphs/tygraph.rs
@@ -774,8 +774,8 @@ impl Knowledge {
             // An any source can flow into an Any or Inferred dest
             (Any, Any | Inferred(_)) => Ok(()),
 
-            // Cannot flow if two known unmatching types
-            (Known(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
+            // Cannot flow into a known type if the types do not match
+            (Known(t1) | Obliged(t1), Known(t2)) if t1 != t2 => Err(ConflictingKnown {
                 src: t1.clone(),
                 dst: t2.clone(),
             }),
-- 
2.43.0


From 3cb3e657a416016c4016316521a92dfd435b4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 27/47] fix: do not overflow on the largest index with nth and
 skip

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 2 +-
 ogma/src/lang/impls/intrinsics/pipeline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 605b556..08e9d88 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1321,7 +1321,7 @@ fn skip_table_intrinsic(mut blk: Block) -> Result<Step> {
             let rows = table
                 .rows()
                 .take(1)
-                .chain(table.rows().skip(count + 1))
+                .chain(table.rows().skip(count.saturating_add(1)))
                 .map(|x| x.cloned());
             let mut t = ::table::Table::new();
             t.add_rows(rows);
diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index 539a10f..8a20111 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -539,7 +539,7 @@ fn nth_table_intrinsic(mut blk: Block) -> Result<Step> {
             .resolve(|| table.clone(), &cx)
             .and_then(|v| cnv_num_to_uint::<usize>(v, &n.tag))?;
         let table = Table::try_from(table)?;
-        if nth + 1 >= table.rows_len() {
+        if nth >= table.rows_len().saturating_sub(1) {
             return Err(Error::eval(
                 &n.tag,
                 "index is outside table bounds",
-- 
2.43.0


From d01d1566ceb0e5a8cf035ee6b6fd04b0d8038785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 28/47] fix: do not print debugging output when definitions are
 read from a file

---
 ogma/src/lang/defs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index f867a71..b7327b4 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -201,7 +201,6 @@ the row is assumed to be populated with strings, if not an error occurs",
         // parse and add each def
         let mut count = 0;
         for item in items.types.into_iter().chain(items.impls).map(|(_, x)| x) {
-            dbg!(&item.doc);
             let lang::parse::Item { doc, code, line } = item;
             process_definition(&code, Location::File(file.clone(), line), doc, self)?;
             count += 1;
-- 
2.43.0


From 12665ec03e8609704b8867958174b7b408feebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 29/47] fix: an empty title does not end the shell

---
 ogma-shell/interface/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 4d50597..f9f9b03 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -533,7 +533,9 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // title
     let title = convert_coloured_str(&state.title, std::usize::MAX, thm)
         .lines
-        .remove(0);
+        .into_iter()
+        .next()
+        .unwrap_or_default();
     let border = Block::default().title(title).borders(Borders::TOP);
     frame.render_widget(border, area);
     let area = reduce_top_margin(area, 1);
-- 
2.43.0


From 01c07c498fc5190e6189d4667844b12ef639c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 30/47] fix: draw within the terminal however small it is

---
 ogma-shell/interface/mod.rs     | 52 +++++++++++++++++++++++----------
 ogma-shell/interface/outputs.rs |  3 ++
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index f9f9b03..a3ec4d1 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -498,6 +498,9 @@ fn draw<B: Backend>(term: &mut Term<B>, state: &mut TermState) -> io::Result<()>
 
 fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     let size = frame.size();
+    if size.area() == 0 {
+        return; // there is nothing to draw on
+    }
     let draw_help = state.draw_help;
     let thm = state.theme;
 
@@ -522,7 +525,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
                 .theme(thm),
         )
         .select(state.tab_selected());
-    let tabs_area = Rect { height: 1, ..area };
+    let tabs_area = clip(Rect { height: 1, ..area }, area);
     frame.render_widget(tabs, tabs_area);
 
     // --
@@ -542,10 +545,13 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
 
     // prompt
     let prompt_txt = Text::from(&*state.prompt);
-    let prompt_area = Rect {
-        width: prompt_txt.width() as u16,
-        ..area
-    };
+    let prompt_area = clip(
+        Rect {
+            width: prompt_txt.width() as u16,
+            ..area
+        },
+        area,
+    );
     let area = Rect {
         width: area.width.saturating_sub(prompt_area.width),
         x: area.x + prompt_area.width,
@@ -589,7 +595,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     };
 
     let (input_area, para, area) = text_block(input, area);
-    let input_area = input_area.intersection(size);
+    let input_area = clip(input_area, size);
     frame.render_widget(para, input_area);
     // --cursor
     frame.set_cursor(input_area.x + cursorx, input_area.y + cursory);
@@ -618,7 +624,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
             area.right().saturating_sub(w),
             area.bottom().saturating_sub(h),
         );
-        let area = Rect::new(x, y, w, h).intersection(size);
+        let area = clip(Rect::new(x, y, w, h), size);
         let para = Paragraph::new(help)
             .alignment(Alignment::Right)
             .style(light_on_magenta().theme(thm));
@@ -633,13 +639,15 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     let c = state.completions.items();
     let cmpls = construct_completion_block(c, state.completions.highlighted(), thm);
     let tags = construct_completion_tags(c);
-    let txt_area = Rect {
-        x: input_area.x + cmplx,
-        y: area.y,
-        width: cmpls.width() as u16,
-        height: cmpls.height() as u16,
-    }
-    .intersection(area);
+    let txt_area = clip(
+        Rect {
+            x: input_area.x.saturating_add(cmplx),
+            y: area.y,
+            width: cmpls.width() as u16,
+            height: cmpls.height() as u16,
+        },
+        area,
+    );
     let tag_area = Rect {
         x: txt_area.x + txt_area.width + 1,
         y: txt_area.y,
@@ -647,7 +655,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         height: tags.height() as u16,
     };
     let tag_area = if tag_area.intersects(area) {
-        Some(tag_area.intersection(area))
+        Some(clip(tag_area, area))
     } else {
         None
     };
@@ -656,7 +664,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         let mut a = tag_area.map(|a| txt_area.union(a)).unwrap_or(txt_area);
         a.x = a.x.saturating_sub(1);
         a.width += 2;
-        a.intersection(area)
+        clip(a, area)
     };
     let sty = completion_style().theme(thm);
 
@@ -822,6 +830,18 @@ fn help_msg() -> Text<'static> {
     Text::from(lines)
 }
 
+/// The part of `area` which lies within `to`, empty if there is none.
+fn clip(area: Rect, to: Rect) -> Rect {
+    let x = area.x.clamp(to.left(), to.right());
+    let y = area.y.clamp(to.top(), to.bottom());
+    Rect {
+        x,
+        y,
+        width: area.right().min(to.right()).saturating_sub(x),
+        height: area.bottom().min(to.bottom()).saturating_sub(y),
+    }
+}
+
 /// Keeps bottom coordinates consistent, but moves y and height to account for `by`.
 fn reduce_top_margin(rect: Rect, by: u16) -> Rect {
     let by = std::cmp::min(rect.height, by);
diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index 1c7628a..b77a626 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -88,6 +88,9 @@ impl Outputs {
 
 impl Widget for &Outputs {
     fn render(self, area: Rect, buf: &mut Buffer) {
+        if area.area() == 0 {
+            return;
+        }
         let parea = Rect {
             width: area.width.saturating_sub(1),
             ..area
-- 
2.43.0


From 2fd54807f44d6cc638d6171b47a4e75b5702b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 31/47] fix: evaluate each entered line of a batch of events by
 itself

Several events can be read at once (typing ahead, pasting): what follows an Enter was merged into
the line evaluated, only one of several lines was evaluated, and keys after the last tab was closed
ended in a panic.
---
 ogma-shell/interface/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index a3ec4d1..b9d2711 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -252,11 +252,18 @@ where
     F: FnMut(Input, TabId, Cancelled) -> ConfigUpdate + Send,
 {
     // read events
-    let r = events
-        .by_ref()
-        .map(|ev| process_event(ev, state))
-        .max()
-        .unwrap_or(EventResult::None);
+    let mut r = EventResult::None;
+    for ev in events.by_ref() {
+        let x = process_event(ev, state);
+        if x == EventResult::InputChanged {
+            // the completions shown belong to the input as it was
+            state.tab_state().completions.reset();
+        }
+        r = cmp::max(r, x);
+        if r >= EventResult::Eval {
+            break; // what follows does not belong to the line evaluated (or to a closed tab)
+        }
+    }
 
     // handle completions
     let r = match r {
-- 
2.43.0


From af8e750f3141a3d2ff04da507b08ea3153b8f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 32/47] fix: place the cursor by columns, and after empty lines

---
 ogma-shell/interface/mod.rs | 49 +++++++++----------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index b9d2711..f533672 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -568,35 +568,10 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
 
     // input -- calculates cursor and completion position here as well
     let input = state.input_text(area.width as usize, thm);
-    let newlines_offset = sum_newline_chars(&state.input);
-    let ends_nl = |range| {
-        state
-            .input
-            .chars(range)
-            .last()
-            .map(|&x| x == '\n')
-            .unwrap_or(false)
-    };
-    let (cursorx, cursory) =
-        calculate_cursor_offset(&input, state.input.ch_pos().saturating_sub(newlines_offset));
-    // bit of a hack adjustment to place the cursor and cmpls window correctly.
-    // is a bit wacky with multiline input
-    let (cursorx, cursory) = if ends_nl(..state.input.ch_pos()) {
-        (0, cursory + 1)
-    } else {
-        (cursorx, cursory)
-    };
-
+    let offset = |to| cursor_offset(&state.input.buffer(..to), area.width as usize);
+    let (cursorx, cursory) = offset(state.input.ch_pos());
     let cmplx = if draw_cmpls {
-        if ends_nl(..state.completions.word_pos()) {
-            0
-        } else {
-            calculate_cursor_offset(
-                &input,
-                state.completions.word_pos().saturating_sub(newlines_offset),
-            )
-            .0
-        }
+        offset(state.completions.word_pos()).0
     } else {
         0
     };
@@ -764,15 +739,15 @@ fn text_block(text: Text, rect: Rect) -> (Rect, Paragraph, Rect) {
     (area1, p, area2)
 }
 
-/// Sums newlines characters up to cursor position of input.
-/// This should be offset against character and word positions to get correct cursor positions.
-fn sum_newline_chars(input: &InputBuffer) -> usize {
-    input
-        .chars(..input.ch_pos())
-        .iter()
-        .filter(|&&c| c == '\r' || c == '\n')
-        .map(|x| x.len_utf8())
-        .sum()
+/// Where the cursor is after the text `before`, in columns and rows, not characters.
+fn cursor_offset(before: &str, width: usize) -> (u16, u16) {
+    let (above, line) = before.split_at(before.rfind('\n').map_or(0, |i| i + 1));
+    let rows = convert_coloured_str(above, width, 0).height();
+    let line = convert_coloured_str(line, width, 0);
+    let columns = line.lines.iter().map(|l| l.width()).sum();
+    let (x, y) = calculate_cursor_offset(&line, columns);
+
+    (x, y + rows.saturating_sub(1) as u16)
 }
 
 fn calculate_cursor_offset(text: &Text, chpos: usize) -> (u16, u16) {
-- 
2.43.0


From 6c04a0016382032378a44626bc9801fa1c78558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 33/47] fix: count the columns a tab takes when breaking lines

---
 ogma-shell/interface/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index f533672..161b4e4 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -30,6 +30,7 @@ const SLEEP: std::time::Duration = std::time::Duration::from_millis(5);
 const OUTPUTS_LIM: usize = 100;
 const NOMOD: KeyModifiers = KeyModifiers::empty();
 const SCROLL_LINES: i32 = 5;
+const TAB: &str = "    "; // what is shown for a tab
 
 // ###### CONFIG ###############################################################
 pub type Input = String;
@@ -883,7 +884,10 @@ fn convert_coloured_str(s: &str, width: usize, theme: u8) -> Text<'static> {
             let mut i = 0;
             let mut start = 0;
             for ch in slice.text.chars() {
-                let chw = ch.width().unwrap_or(0);
+                let chw = match ch {
+                    '\t' => TAB.len(),
+                    ch => ch.width().unwrap_or(0),
+                };
                 w += chw;
                 if w > width {
                     spans.push(cnv_span(&slice.text[start..i], slice, theme));
@@ -955,7 +959,7 @@ fn cnv_span(s: &str, slice: self::cansi::CategorisedSlice, theme: u8) -> Span<'s
         style = style.add_modifier(Modifier::CROSSED_OUT);
     }
 
-    Span::styled(s.replace('\t', "    "), style.theme(theme))
+    Span::styled(s.replace('\t', TAB), style.theme(theme))
 }
 
 fn cnv_colour(c: self::cansi::Color) -> Color {
-- 
2.43.0


From 23528a06cc6fed1469ac43b507887579da146115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 34/47] fix: break the input again when the width changes

---
 ogma-shell/interface/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 161b4e4..9316bf7 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -96,6 +96,7 @@ struct TabState {
     prompt: String,
     input: InputBuffer,
     input_cache: Text<'static>,
+    input_width: usize,
     outputs: Outputs,
     completions: Completions,
     decorationfn: DecorationFn,
@@ -104,10 +105,11 @@ struct TabState {
 
 impl TabState {
     fn input_text(&mut self, width: usize, theme: u8) -> Text<'static> {
-        if self.input.buffer_changed() {
+        if self.input.buffer_changed() || self.input_width != width {
             let pos = self.input.buf_pos();
             let i = (self.decorationfn)(self.input.buffer(..), pos);
             self.input_cache = convert_coloured_str(&i, width, theme);
+            self.input_width = width;
             self.input.reset_buf_changed();
         }
 
@@ -198,6 +200,7 @@ fn init(config: Config, initial_width: u16) -> (TabState, EnterFn) {
         prompt,
         input: InputBuffer::new(),
         input_cache: Text::from(""),
+        input_width: initial_width as usize,
         outputs,
         completions,
         decorationfn: decorate_input,
-- 
2.43.0


From c1330e5dcbc58d4e55bc898de1fd8103b4f47595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 35/47] fix: find the quote before a flag by bytes, not
 characters

---
 ogma-shell/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 5550e97..b670600 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -507,8 +507,8 @@ fn highlight_from_nodes(line: &str, mut nodes: Vec<Node>) -> String {
             Flag => {
                 // --
                 // if has a quote or double quote at tag.start - 1 then have to colour that and tag.end + 1
-                let c = line.chars().nth(node.tag.start.saturating_sub(1));
-                let (s, e) = if c == Some('\'') || c == Some('"') {
+                let c = line.as_bytes().get(node.tag.start.saturating_sub(1));
+                let (s, e) = if c == Some(&b'\'') || c == Some(&b'"') {
                     (3, 1)
                 } else {
                     (2, 0)
-- 
2.43.0


From 90db62895258deb60494e3412e9d3eb41a70fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 36/47] fix: an aborted expression does not hold up definitions

---
 ogma-shell/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index b670600..32b0e17 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -305,7 +305,8 @@ impl RunState {
         use ::ogma::{lang::Value::*, rt::process_expression as proc};
         let wsp = self.wsp.clone();
         self.process_seq(tab_id, cancelled, buf, move |cx| {
-            let d = &wsp.defs.read();
+            // work on a copy: this might go on after being aborted, and must not hold up definitions
+            let d = &wsp.defs.read().clone();
             let e = expr;
             let l = Location::Shell;
             let root = cx.root;
-- 
2.43.0


From f1add6894210fbc73a20baab39645d4a12385e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:27 +0000
Subject: [PATCH 37/47] fix: the shell goes on when an evaluation panics

It waited forever for the message that the evaluation is done.
---
 ogma-shell/interface/mod.rs |  1 +
 ogma-shell/lib.rs           | 10 +++-------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 9316bf7..edd9506 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -687,6 +687,7 @@ where
             .builder()
             .name("ogma-shell-compute-thread".to_string())
             .spawn(|_| {
+                let donetx = donetx; // dropped here, also if `f` panics
                 let r = f(input, tabid, cancelsw.clone());
                 donetx.send(()).ok();
                 r
diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 32b0e17..6709569 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -264,23 +264,19 @@ impl RunState {
         let root = self.root.to_path_buf();
         let wd = self.tab_wd(tab_id).to_path_buf();
         let progress = ProgressTx::dummy();
-        let completed = Switch::off();
-        let completed_clone = completed.clone();
 
         let thread = std::thread::Builder::new()
             .name("ogma-shell-processing".into())
             .spawn(move || {
-                let x = f(Context {
+                f(Context {
                     root: &root,
                     wd: &wd,
                     progress: &progress,
-                });
-                completed_clone.flip_on();
-                x
+                })
             })
             .expect("should be fine spawning a thread");
 
-        while !completed.get() {
+        while !thread.is_finished() {
             if cancelled.get() {
                 return;
             }
-- 
2.43.0


From 2afc878b8cea0555596b86a30243bed538bf6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:34 +0000
Subject: [PATCH 38/47] fix: only directories can be the working directory

---
 ogma-shell/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 6709569..c143e0d 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -206,6 +206,10 @@ impl RunState {
 
     fn change_working_dir<P: AsRef<Path>>(&mut self, tab_id: TabId, path: P) -> io::Result<()> {
         let wd = self.validate_path(tab_id, path)?;
+        if !self.root.join(&wd).is_dir() {
+            let e = format!("not a directory: {}", wd.display());
+            return Err(io::Error::new(io::ErrorKind::Other, e));
+        }
         self.tabs.insert(tab_id, wd);
         Ok(())
     }
-- 
2.43.0


From 77fb34f561168ff849b043a13ad0248897728480 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 39/47] fix: handle notifications in the order they arrive

---
 ogma-ls/server/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index 06fb23d..dda2386 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -136,8 +136,8 @@ impl Server {
 
     fn handle_notification(&self, notif: Notification) {
         if let Some(f) = self.notifications_handlers.get(notif.method.as_str()) {
-            let f = Arc::clone(f);
-            rayon::spawn(move || f.call(notif.params));
+            // notifications must be handled in the order they arrive
+            f.call(notif.params);
         } else {
             debug!("notification not registered: '{}'", notif.method);
         }
-- 
2.43.0


From 7b84eea0db406efb0f16658ed7b46c20f42910fd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 40/47] fix: answer requests which are not supported with an
 error

---
 ogma-ls/server/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index dda2386..fcc7be5 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -131,6 +131,17 @@ impl Server {
             });
         } else {
             debug!("request not registered: '{}'", req.method);
+            let err = Error {
+                code: ErrorCode::MethodNotFound,
+                message: format!("Method not found: {}", req.method),
+                data: None,
+            };
+            let resp = Response {
+                id: req.id,
+                result: None,
+                error: Some(err.into()),
+            };
+            self.tx.send(resp.into()).ok();
         }
     }
 
@@ -221,7 +232,7 @@ impl From<Error> for lsp_server::ResponseError {
 enum ErrorCode {
     // ParseError,
     // InvalidRequest,
-    // MethodNotFound,
+    MethodNotFound,
     InvalidParams,
     InternalError,
     // ServerError(i32),
@@ -232,7 +243,7 @@ impl From<ErrorCode> for i32 {
         match ec {
             // ErrorCode::ParseError => -32700,
             // ErrorCode::InvalidRequest => -32600,
-            // ErrorCode::MethodNotFound => -32601,
+            ErrorCode::MethodNotFound => -32601,
             ErrorCode::InvalidParams => -32602,
             ErrorCode::InternalError => -32603,
             // ErrorCode::ServerError(code) => code,
-- 
2.43.0


From 212ba4ffbf17910eeba3627e17bc354ab4bf9d99 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 41/47] fix: apply changes of a document whose versions are not
 consecutive

---
 ogma-ls/workspace.rs | 44 ++++++--------------------------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/ogma-ls/workspace.rs b/ogma-ls/workspace.rs
index 7bc6908..c1c549b 100644
--- a/ogma-ls/workspace.rs
+++ b/ogma-ls/workspace.rs
@@ -6,7 +6,7 @@ use ogma::{
     common::err::help_as_error,
     lang::{ast::Tag, Definitions},
 };
-use std::{collections::VecDeque, sync::Arc};
+use std::sync::Arc;
 
 type Version = i32;
 type ChgList = Vec<TextDocumentContentChangeEvent>;
@@ -196,57 +196,25 @@ impl Clone for Workspace {
 pub struct File {
     text: String,
     version: Version,
-    pending: VecDeque<Change>,
 }
 
 impl File {
     pub fn new(text: String, version: Version) -> Self {
-        Self {
-            text,
-            version,
-            pending: VecDeque::new(),
-        }
+        Self { text, version }
     }
 
+    /// Changes come in order, but their versions need not be consecutive.
     pub fn add_changes(&mut self, version: Version, changes: ChgList) {
-        let i = self
-            .pending
-            .iter()
-            .position(|c| c.version >= version)
-            .unwrap_or(self.pending.len());
-
-        self.pending.insert(i, Change { version, changes });
-
-        self.apply_pending();
-    }
-
-    fn apply_pending(&mut self) {
-        let text = &mut self.text;
-
-        while let Some(chg) = self.pending.pop_front() {
-            if chg.version < self.version {
-                continue;
-            } else if chg.version > self.version + 1 {
-                self.pending.push_front(chg);
-                break;
-            }
-
-            self.version = chg.version;
-            apply_changes(text, &chg.changes);
-        }
+        self.version = version;
+        apply_changes(&mut self.text, &changes);
 
         debug!(
             "applied doc edits. VERSION: {}; TEXT: {:?}",
-            self.version, text
+            self.version, self.text
         );
     }
 }
 
-struct Change {
-    version: Version,
-    changes: ChgList,
-}
-
 fn apply_changes(text: &mut String, chgs: &[TextDocumentContentChangeEvent]) {
     for chg in chgs {
         let range = chg
-- 
2.43.0


From 5dac22e1d2dd3a28602bf6ee703da6f3ab68734d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 42/47] fix: complete in the empty last line of a document

---
 ogma-ls/workspace.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ogma-ls/workspace.rs b/ogma-ls/workspace.rs
index c1c549b..4ba61f8 100644
--- a/ogma-ls/workspace.rs
+++ b/ogma-ls/workspace.rs
@@ -57,7 +57,13 @@ impl Workspace {
     pub(crate) fn get_def_text(&self, url: &Url, line: usize) -> Option<(usize, String)> {
         let l = self.files.read();
         let file = l.get(url)?;
-        let lines = file.text.lines().enumerate().collect::<Vec<_>>();
+        // unlike `str::lines`, an empty last line is a line
+        let lines = file
+            .text
+            .split('\n')
+            .map(|s| s.strip_suffix('\r').unwrap_or(s))
+            .enumerate()
+            .collect::<Vec<_>>();
         let pre = lines
             .iter()
             .take(line)
-- 
2.43.0


From bc9791290f2968fc8a01860aef674484b0fa9c45 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 43/47] fix: do not take text in the body of a definition for
 its flag --load

---
 ogma-shell/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index c143e0d..2448452 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -166,7 +166,9 @@ impl RunState {
                 Err(e) => (writeln!(buf, "{}", e.to_string().bright_red()).ok(), ()).1,
             }
         } else if ogma::lang::recognise_definition(&input) {
-            if input.contains(" --load") {
+            // flags are in the leading part of a definition, not in its body
+            let mut head = input.split(|c| matches!(c, '(' | '{' | '|')).take(1);
+            if head.any(|s| s.split_whitespace().any(|s| s == "--load")) {
                 // load defs from the paths defined
                 self.load_defs_files(buf);
             } else {
-- 
2.43.0


From e9552c4ffd17790d1582807e498c873885d4cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 44/47] fix: scroll through more lines of output than 65535

---
 ogma-shell/interface/outputs.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index b77a626..e1bc514 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -7,7 +7,7 @@ pub struct Outputs {
     items: VecDeque<Output>,
     limit: usize,
     cached_width: u16,
-    scroll: u16,
+    scroll: usize,
 }
 
 #[derive(Clone)]
@@ -60,11 +60,11 @@ impl Outputs {
     }
 
     pub fn as_paragraph(&self) -> Paragraph {
+        // there can be more lines than `Paragraph::scroll` is able to count
         let mut txt = Text::default();
-        for output in self.iter().rev() {
-            txt.extend(output.clone());
-        }
-        Paragraph::new(txt).scroll((self.scroll, 0))
+        let lines = self.iter().rev().flat_map(|x| &x.lines);
+        txt.lines.extend(lines.skip(self.scroll).cloned());
+        Paragraph::new(txt)
     }
 
     pub fn scroll(&mut self, lines: i32) {
@@ -73,13 +73,13 @@ impl Outputs {
             Ordering::Equal => (),
             Ordering::Greater => {
                 // increase scroll (scroll down)
-                let lines: u16 = lines.try_into().unwrap();
-                let h = self.height().saturating_sub(1) as u16;
+                let lines: usize = lines.try_into().unwrap();
+                let h = self.height().saturating_sub(1);
                 self.scroll = min(self.scroll.saturating_add(lines), h);
             }
             Ordering::Less => {
                 // decrease scroll (scroll up)
-                let lines: u16 = (-lines).try_into().unwrap();
+                let lines: usize = (-lines).try_into().unwrap();
                 self.scroll = self.scroll.saturating_sub(lines);
             }
         }
@@ -114,7 +114,7 @@ impl Widget for &Outputs {
 }
 
 /// Returns the location of the scroll.
-fn scroll_location(scroll_area: Rect, outputs_height: usize, scroll: u16) -> Rect {
+fn scroll_location(scroll_area: Rect, outputs_height: usize, scroll: usize) -> Rect {
     if outputs_height <= 1 {
         return scroll_area;
     }
-- 
2.43.0


From 8280c4b4a4296d513d288fb6d2a8564667295460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 45/47] fix: report that a type cannot be inferred instead of
 panicking

---
 ogma/src/eng/comp/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ogma/src/eng/comp/mod.rs b/ogma/src/eng/comp/mod.rs
index 37d7f50..4834709 100644
--- a/ogma/src/eng/comp/mod.rs
+++ b/ogma/src/eng/comp/mod.rs
@@ -395,12 +395,8 @@ impl<'d> Compiler<'d> {
                 }
                 Err(mut e) => {
                     // only set the infer output if tygraph is showing that it has multiple options
-                    if chgs.infer_output {
-                        let _unknown = self.tg[node.idx()].output.is_multiple();
-                        debug_assert!(
-                            _unknown,
-                            "if inferring the output node, expecting the TG output to be unknown"
-                        );
+                    // (there are no options left if inferring has ruled out all of them)
+                    if chgs.infer_output && self.tg[node.idx()].output.is_multiple() {
                         self.output_infer_opnodes.push(node);
                     }
 
-- 
2.43.0


From 8a6aac89a13e185fa097c0eb20c83255d6c055de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 46/47] fix: mark errors beyond column 10000 where they are

---
 ogma/src/common/err.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/common/err.rs b/ogma/src/common/err.rs
index d32f325..8221779 100644
--- a/ogma/src/common/err.rs
+++ b/ogma/src/common/err.rs
@@ -776,7 +776,7 @@ impl Trace {
         use std::cmp::*;
         let (min, max) = src_lines
             .iter()
-            .fold((10_000, 0), |(x, y), (_, a, b)| (min(x, *a), max(y, *b)));
+            .fold((usize::MAX, 0), |(x, y), (_, a, b)| (min(x, *a), max(y, *b)));
 
         if min < max {
             colour!(wtr, c, bright_purple, " | ")?;
-- 
2.43.0


From ae1105598665d87f111bb64958ea9757ebccaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 47/47] fix: show the last 5 rows of a long table without a
 header

---
 ogma/src/output/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/output/print.rs b/ogma/src/output/print.rs
index 2527fbc..54a1e46 100644
--- a/ogma/src/output/print.rs
+++ b/ogma/src/output/print.rs
@@ -38,7 +38,7 @@ pub fn print_table(table: &Table, wtr: &mut dyn Write) -> io::Result<()> {
     }
 
     let (take, skip) = if limit_row {
-        (5, table.rows_len() - 11)
+        (5, table.rows_len() - 10 - usize::from(table.header))
     } else {
         (table.rows_len(), 0)
     };
-- 
2.43.0

