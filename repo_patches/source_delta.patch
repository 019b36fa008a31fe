From 2a8c94b0f47e3a29eede2044efcfc71da314dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 01/66] fix: `fields -` drops the listed columns instead of
 selecting them

---
 src/commands/cmd_fields/pyspark.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..3894fb4 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,15 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| column_like!(py_lit(name.clone())).into())
+                .collect();
+            return Ok(state.with_df(df.arbitrary_method("drop", names)));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
-- 
2.43.0


From c13c9274438eb53d19dc38e46ed6664dc633fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 02/66] fix: `bin` buckets the column it was given, not a
 column called n

---
 src/commands/cmd_bin/pyspark.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..1fcc758 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -1,5 +1,6 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
@@ -10,15 +11,17 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (source, col_name): (Expr, String) = match self.field.clone() {
+            FieldOrAlias::Field(ast::Field(name)) => (column_like!(col(name.clone())).into(), name),
+            FieldOrAlias::Alias(ast::Alias { expr, name }) => {
+                (expr.with_context(&state.ctx).try_into()?, name)
+            }
         };
         if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
             let span = format!("{} {}", value, scale);
             df = df.with_column(
                 col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
+                column_like!(window([source], [py_lit(span)])),
             );
         }
         let subfield = "start";
-- 
2.43.0


From 3f74f1cad440209f6f3df53e275146dff3666962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 03/66] fix: `fillnull` only fills the fields it lists

---
 src/commands/cmd_fill_null/pyspark.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..8c10e4c 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,12 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        let mut params: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Some(fields) = self.fields.clone() {
+            let names: Vec<String> = fields.into_iter().map(|f| PyLiteral::from(f.0).0).collect();
+            params.push(PyLiteral(format!("[{}]", names.join(", "))).into());
+        }
+        let df = df.arbitrary_method("fillna", params);
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From fdb8cb2d5f81bbf1e87a77a846fa882823a502ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 04/66] fix: `lookup` returns the joined result instead of
 discarding it

---
 src/commands/cmd_lookup/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
-- 
2.43.0


From 60135c1c08525db5cace084d946277d07c17672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 05/66] fix: `top` and `rare` keep the ranked fields when a by
 clause is given

---
 src/commands/cmd_rare/pyspark.rs | 4 ++--
 src/commands/cmd_top/pyspark.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 4b7c1b0..80bf987 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -16,9 +16,9 @@ impl PipelineTransformer for RareCommand {
 
         let groupby_fields: Vec<_> = self
             .by
-            .clone()
-            .unwrap_or(self.fields.clone())
             .iter()
+            .flatten()
+            .chain(self.fields.iter())
             .map(|f| f.0.clone())
             .collect();
         df = df.group_by(groupby_fields);
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 3e3343e..d333959 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -16,9 +16,9 @@ impl PipelineTransformer for TopCommand {
 
         let groupby_fields: Vec<_> = self
             .by
-            .clone()
-            .unwrap_or(self.fields.clone())
             .iter()
+            .flatten()
+            .chain(self.fields.iter())
             .map(|f| f.0.clone())
             .collect();
         df = df.group_by(groupby_fields);
-- 
2.43.0


From 364ec34c19687f3d9e546328efdd22a45006eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 06/66] fix: `top` and `rare` rank by the count column they
 created

---
 src/commands/cmd_rare/pyspark.rs | 4 ++--
 src/commands/cmd_top/pyspark.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 80bf987..64e401c 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -30,11 +30,11 @@ impl PipelineTransformer for RareCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].asc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].asc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index d333959..a800696 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -30,11 +30,11 @@ impl PipelineTransformer for TopCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].desc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].desc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
-- 
2.43.0


From da28aab7c3db53e2f532762b76f4f508d8db77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 07/66] fix: `top` and `rare` honour showcount=false

---
 src/commands/cmd_rare/pyspark.rs | 7 +++++++
 src/commands/cmd_top/pyspark.rs  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 64e401c..ed0f0b3 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -40,6 +40,13 @@ impl PipelineTransformer for RareCommand {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![column_like!(py_lit(self.count_field.clone())).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index a800696..fe98118 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -40,6 +40,13 @@ impl PipelineTransformer for TopCommand {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![column_like!(py_lit(self.count_field.clone())).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
-- 
2.43.0


From 930fc0dd97caecacc8ea97ea58f3e6414d6baa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 08/66] fix: `head` rejects a negative limit and does not
 overflow on a huge one

---
 src/commands/cmd_head/pyspark.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..1ab2ff1 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_head::spl::HeadCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for HeadCommand {
     fn transform_standalone(
@@ -32,22 +32,24 @@ impl PipelineTransformer for HeadCommand {
                 };
                 let limit = match (was_left, symbol.as_str()) {
                     (true, "<") => limit_value,
-                    (true, "<=") => limit_value + 1,
+                    (true, "<=") => limit_value.saturating_add(1),
                     (false, ">") => limit_value,
-                    (false, ">=") => limit_value + 1,
+                    (false, ">=") => limit_value.saturating_add(1),
                     _ => bail!(
                         "Unsupported `count` comparison ({}, {}) for head command",
                         was_left,
                         symbol
                     ),
-                } + if self.keep_last.0 { 1 } else { 0 };
-                limit
+                };
+                limit.saturating_add(if self.keep_last.0 { 1 } else { 0 })
             }
             _ => bail!(
                 "Limit for head command must be an integer (or equivalent `count<N` expression)"
             ),
         };
 
+        ensure!(limit >= 0, "Limit for head command must not be negative: {}", limit);
+
         df = df.limit(limit as u64);
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 3cb9dafddcc1d7680f058d24b6ece0ab23f77e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 09/66] fix: `join` without a field list is an error instead of
 a panic

---
 src/commands/cmd_join/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..238bcec 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -45,7 +45,7 @@ impl PipelineTransformer for JoinCommand {
                 })
                 .collect(),
         )
-        .unwrap();
+        .ok_or(anyhow!("`join` requires at least one field to join on"))?;
 
         let condition = match (self.use_time, self.earlier) {
             (true, true) => {
-- 
2.43.0


From a1eab36a18f12829917f6e251116c0d00a58f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 10/66] fix: `makeresults` quotes splunk_server_group

---
 src/commands/cmd_make_results/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..34e7c03 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -34,7 +34,7 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(format!("\"{}\"", group))),
                         None => column_like!(lit(None)),
                     },
                 );
-- 
2.43.0


From d6226caf10cac0a2948b2ce8ad6ac7803525fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 11/66] fix: `log(x, base)` passes the base first, as the Spark
 function expects

---
 src/functions/eval_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..cd6611f 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -468,7 +468,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args] (x, base) { column_like!(log([base], [x])) }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
-- 
2.43.0


From d3c323f566212b4cd3f9b6fc513f5deb7f4f41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 12/66] fix: `mvindex` with negative indices counts from the
 end of the list

---
 python/spl_transpiler/runtime/functions/eval.py | 8 +++++++-
 src/functions/eval_fns.rs                       | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..e35017e 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -851,7 +851,13 @@ def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
     if end is None:
         return F.get(column.to_pyspark_expr(), start)
     else:
-        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)
+        if (start < 0) != (end < 0):
+            raise ValueError(
+                "A combination of negative and positive start and stop indices is not supported."
+            )
+        # Spark counts from one at the front of the list, and from -1 at its back
+        first = start if start < 0 else start + 1
+        return F.slice(column.to_pyspark_expr(), first, end - start + 1)
 
 
 #         // mvjoin(<mv>,<delim>)                                	 Takes all of the values in a multivalue field and appends the values together using a delimiter.
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index cd6611f..686ef7d 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -517,7 +517,14 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    ensure!(
+                        (start < 0) == (end < 0),
+                        "A combination of negative and positive start and stop indices is not supported."
+                    );
+                    // Spark counts from one at the front of the list, and from -1 at its back
+                    let first = if start < 0 { start } else { start.saturating_add(1) };
+                    let length = end.saturating_sub(start).saturating_add(1);
+                    column_like!(slice([x], [py_lit(first)], [py_lit(length)]))
                 },
             }
         }),
-- 
2.43.0


From be05a9149a23f96b352899521972b850c8b078bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 13/66] fix: `range` subtracts the minimum from the maximum
 instead of nesting aggregates

---
 src/functions/stat_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..c72e517 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -162,7 +162,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From e3fc391cac62f054bafb3e339ae3ddc70e8e6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 14/66] fix: functions with optional arguments reject missing
 and surplus ones

---
 src/functions/eval_fns.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 686ef7d..f7d5750 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -264,6 +264,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "`coalesce` requires at least one argument");
             column_like!(coalesce(mapped_args))
         }),
         // false()                                             	 Returns FALSE.
@@ -349,6 +350,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
         "relative_time" => function_transform!(now [args ...] (time) {
+            ensure!(args.len() <= 2, "`relative_time` takes exactly 2 arguments, got {}", args.len());
             let relative_time_spec = match args.get(1).map(Deref::deref) {
                 Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
@@ -493,6 +495,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvappend(<values>)                                  	 Returns a multivalue result based on all of values specified.
         "mvappend" => function_transform!(mvappend [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "`mvappend` requires at least one argument");
             column_like!(concat(mapped_args))
         }),
         // mvcount(<mv>)                                       	 Returns the count of the number of values in the specified field.
@@ -513,6 +516,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvindex(<mv>,<start>,<end>)                         	 Returns a subset of the multivalue field using the start and end index values.
         "mvindex" => function_transform!(mvindex [args ...] (x, start: i64) {
+            ensure!(args.len() <= 3, "`mvindex` takes at most 3 arguments, got {}", args.len());
             match args.get(2) {
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
@@ -546,6 +550,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvzip(<mv_left>,<mv_right>,<delim>)                 	 Combines the values in two multivalue fields. The delimiter is used to specify a delimiting character to join the two values.
         "mvzip" => function_transform!(mvzip [args -> _mapped_args] (left, right) {
+            ensure!(args.len() <= 3, "`mvzip` takes at most 3 arguments, got {}", args.len());
             let delim: String = match args.get(2) {
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
-- 
2.43.0


From 17dac7d056339d5100f17af7171def766544403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 15/66] fix: time zone, subsecond, day-of-year and weekday time
 format conversions

---
 python/spl_transpiler/runtime/functions/utils.py | 14 +++++++-------
 src/pyspark/transpiler/utils.rs                  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..d62a064 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -105,7 +105,7 @@ CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
@@ -121,20 +121,20 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
+    "%j": "DDD",
     # "%V": "w",
     # "%U": "w",
-    "%w": "e",
+    "%w": None,
     "%b": "MMM",
     "%B": "MMMM",
     "%m": "MM",
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..6ecd9ae 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -118,7 +118,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),        // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
@@ -138,10 +138,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),        // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,10 +150,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
+    ("%j", Some("DDD")),    // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
-    ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
+    ("%w", None), // Spark has no pattern letter for the weekday as a decimal number
     // Specifying months
     ("%b", Some("MMM")),  // Abbreviated month name
     ("%B", Some("MMMM")), // Full month name
-- 
2.43.0


From 2aa188c4e49f6b2bfdda469c8ef455aaf6b1147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:51 +0000
Subject: [PATCH 16/66] fix: time formats quote literal text and keep escaped
 percent signs

---
 .../spl_transpiler/runtime/functions/utils.py | 26 ++++++++--
 src/pyspark/transpiler/utils.rs               | 51 +++++++++++++++----
 2 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index d62a064..26272cc 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -161,10 +161,28 @@ CONVERSIONS = {
 
 
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
+    converted = ""
+    # Text that is not a format variable, it must be escaped where Spark would interpret it
+    text = ""
+    while fmt_string:
+        original = next((c for c in CONVERSIONS if fmt_string.startswith(c)), None)
+        if original is None or original == "%%":
+            text += fmt_string[0]
+            fmt_string = fmt_string[len(original or " ") :]
             continue
+        replacement = CONVERSIONS[original]
         if replacement is None:
             raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+        converted += _quote_time_format_text(text) + replacement
+        text = ""
+        fmt_string = fmt_string[len(original) :]
+    if not converted:
+        # Without any format variable, the format is taken to be a Spark pattern already
+        return text
+    return converted + _quote_time_format_text(text)
+
+
+def _quote_time_format_text(text: str) -> str:
+    if any((c.isascii() and c.isalpha()) or c in "[]{}#'" for c in text):
+        return "'" + text.replace("'", "''") + "'"
+    return text
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 6ecd9ae..085545c 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -166,16 +166,49 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
 ];
 
 pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+    let spl_time_format = spl_time_format.to_string();
+    let mut remaining = spl_time_format.as_str();
+    let mut converted = String::new();
+    // Text that is not a format variable, it must be escaped where Spark would interpret it
+    let mut text = String::new();
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
-            continue;
-        }
-        match replacement {
-            None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+    while let Some(next) = remaining.chars().next() {
+        let conversion = CONVERSIONS
+            .iter()
+            .find(|(original, _)| remaining.starts_with(original));
+        match conversion {
+            Some((original, None)) => bail!("No known replacement pattern for `{}`", original),
+            Some(("%%", _)) => {
+                text.push('%');
+                remaining = &remaining[2..];
+            }
+            Some((original, Some(replacement))) => {
+                converted.push_str(&quote_time_format_text(&text));
+                converted.push_str(replacement);
+                text.clear();
+                remaining = &remaining[original.len()..];
+            }
+            None => {
+                text.push(next);
+                remaining = &remaining[next.len_utf8()..];
+            }
         }
     }
-    Ok(fmt_string)
+    if converted.is_empty() {
+        // Without any format variable, the format is taken to be a Spark pattern already
+        return Ok(text);
+    }
+    converted.push_str(&quote_time_format_text(&text));
+    Ok(converted)
+}
+
+fn quote_time_format_text(text: &str) -> String {
+    if text
+        .chars()
+        .any(|c| c.is_ascii_alphabetic() || "[]{}#'".contains(c))
+    {
+        format!("'{}'", text.replace('\'', "''"))
+    } else {
+        text.to_string()
+    }
 }
-- 
2.43.0


From c5c31d370b9b1c4b4f1a79ea45a83b080ae8ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 17/66] fix: `join type=outer` is a left join, as in SPL

---
 src/commands/cmd_join/pyspark.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 238bcec..331b98a 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -29,7 +29,8 @@ impl PipelineTransformer for JoinCommand {
         let join_type = match self.join_type.clone().as_str() {
             "inner" => "inner",
             "left" => "left",
-            "outer" => "outer",
+            // In SPL an "outer" join is a synonym of a "left" join
+            "outer" => "left",
             _ => bail!("Unsupported join type: {}", self.join_type),
         };
 
-- 
2.43.0


From 978223b4c7a584c5c910a38e6199baa0de147a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 18/66] fix: options without an implementation are rejected or
 reported instead of ignored

---
 src/commands/cmd_add_totals/pyspark.rs | 14 ++++++++++++++
 src/commands/cmd_bin/pyspark.rs        | 21 ++++++++++++++-------
 src/commands/cmd_join/pyspark.rs       |  4 ++++
 src/commands/cmd_rex/pyspark.rs        |  5 +++++
 src/commands/cmd_t_stats/pyspark.rs    |  8 ++++++++
 5 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/commands/cmd_add_totals/pyspark.rs b/src/commands/cmd_add_totals/pyspark.rs
index 9aa2952..9975be3 100644
--- a/src/commands/cmd_add_totals/pyspark.rs
+++ b/src/commands/cmd_add_totals/pyspark.rs
@@ -1,12 +1,26 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::AddTotalsCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            self.row,
+            "UNIMPLEMENTED: `addtotals` command does not implement row=false"
+        );
+        ensure!(
+            !self.col,
+            "UNIMPLEMENTED: `addtotals` command does not implement col=true"
+        );
+        ensure!(
+            !self.fields.is_empty(),
+            "UNIMPLEMENTED: `addtotals` command requires a list of fields"
+        );
+
         let cast_columns: Vec<ColumnLike> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 1fcc758..7a98cbf 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -4,6 +4,7 @@ use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::{anyhow, ensure};
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
@@ -17,13 +18,19 @@ impl PipelineTransformer for BinCommand {
                 (expr.with_context(&state.ctx).try_into()?, name)
             }
         };
-        if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
-            let span = format!("{} {}", value, scale);
-            df = df.with_column(
-                col_name.clone(),
-                column_like!(window([source], [py_lit(span)])),
-            );
-        }
+        ensure!(
+            self.align_time.is_none(),
+            "UNIMPLEMENTED: `bin` command does not implement aligntime"
+        );
+        let ast::TimeSpan { value, scale } = self
+            .span
+            .clone()
+            .ok_or(anyhow!("UNIMPLEMENTED: `bin` command requires a time span"))?;
+        let span = format!("{} {}", value, scale);
+        df = df.with_column(
+            col_name.clone(),
+            column_like!(window([source], [py_lit(span)])),
+        );
         let subfield = "start";
         df = df.with_column(
             col_name.clone(),
diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 331b98a..9d13b5c 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -17,6 +17,10 @@ impl PipelineTransformer for JoinCommand {
             self.max == 1,
             "UNIMPLEMENTED: Join with max != 1 not yet supported"
         );
+        ensure!(
+            self.overwrite,
+            "UNIMPLEMENTED: Join with overwrite=false not yet supported"
+        );
 
         let right_df: TransformedPipeline =
             TransformedPipeline::transform(self.sub_search.clone(), state.ctx.clone())?;
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..40a3e54 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -20,6 +20,11 @@ impl PipelineTransformer for RexCommand {
             "Rex not yet implemented for multiple matches"
         );
 
+        ensure!(
+            self.offset_field.is_none(),
+            "UNIMPLEMENTED: `rex` command does not implement offset_field"
+        );
+
         let regex_groups = get_groups(self.regex.clone())?;
 
         for (group_index, group_name) in regex_groups {
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..6bcc903 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -37,6 +37,11 @@ impl PipelineTransformer for TStatsCommand {
             "`tstats` only supports `include_reduced_buckets`=false"
         );
 
+        ensure!(
+            self.by_prefix.is_none(),
+            "UNIMPLEMENTED: `tstats` command does not yet support BY prefix"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
@@ -114,6 +119,9 @@ impl PipelineTransformer for TStatsCommand {
         if !self.allow_old_summaries {
             warn!("`tstats` `allow_old_summaries` argument has no effect in PySpark")
         }
+        if self.fillnull_value.is_some() {
+            warn!("`tstats` `fillnull_value` argument has no effect in standalone code")
+        }
 
         let state = DataModelCommand {
             data_model_name: self.datamodel.clone(),
-- 
2.43.0


From 9e59de7ee290573fb03ee0099c7db31749b20962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 19/66] fix: statements of runtime commands are hoisted out of
 the expressions using their result

---
 src/pyspark/ast.rs | 127 +++++++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 56 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..e3a5e31 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -769,11 +769,23 @@ impl Default for DataFrame {
     }
 }
 
+/// Render a part of an expression, setting aside the statements which have to come before that expression
+fn inline(
+    part: &impl ToSparkQuery,
+    ctx: &PysparkTranspileContext,
+    preface: &mut Vec<String>,
+) -> Result<String> {
+    let code = part.to_spark_query(ctx)?;
+    preface.extend(code.preface);
+    Ok(code.primary_df_code)
+}
+
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
-        match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
-            DataFrame::RawSource { code } => Ok(code.clone().into()),
+        let mut preface = vec![];
+        let code = match self {
+            DataFrame::Source { name } => format!("spark.table('{}')", name),
+            DataFrame::RawSource { code } => code.clone(),
             DataFrame::Runtime {
                 name,
                 source,
@@ -808,124 +820,127 @@ impl ToSparkQuery for DataFrame {
                     format!("{} = commands.{}({})", name, runtime_func, all_args_str);
                 all_preface.push(full_command);
 
-                Ok(PythonCode::new(
+                return Ok(PythonCode::new(
                     name.clone(),
                     all_preface,
                     Some(primary_source_code),
-                ))
+                ));
             }
             DataFrame::Named { source, name } => {
                 let source_code = source.to_spark_query(ctx)?;
-                Ok(PythonCode::new(
+                return Ok(PythonCode::new(
                     name.clone(),
                     vec![format!("{} = {}", name, source_code.primary_df_code)],
                     Some(source_code),
-                ))
+                ));
             }
             DataFrame::Select { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
-                    .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
+                    .map(|col| inline(col, ctx, &mut preface))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.select({},)",
-                    source.to_spark_query(ctx)?,
+                    inline(source.as_ref(), ctx, &mut preface)?,
                     columns?.join(", ")
                 )
-                .into())
             }
-            DataFrame::Where { source, condition } => Ok(format!(
+            DataFrame::Where { source, condition } => format!(
                 "{}.where({},)",
-                source.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-            )
-            .into()),
+                inline(source.as_ref(), ctx, &mut preface)?,
+                inline(condition, ctx, &mut preface)?,
+            ),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
-                    .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
+                    .map(|s| inline(s, ctx, &mut preface).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
+                    inline(source.as_ref(), ctx, &mut preface)?,
                     columns?.join("")
                 )
-                .into())
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
-                    .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
+                    .map(|col| inline(col, ctx, &mut preface))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
+                    inline(source.as_ref(), ctx, &mut preface)?,
                     columns?.join(", ")
                 )
-                .into())
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
+            } => format!(
                 "{}.withColumn('{}', {},)",
-                source.to_spark_query(ctx)?,
+                inline(source.as_ref(), ctx, &mut preface)?,
                 name,
-                column.to_spark_query(ctx)?,
-            )
-            .into()),
+                inline(column, ctx, &mut preface)?,
+            ),
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
+            } => format!(
                 "{}.withColumnRenamed('{}', '{}',)",
-                source.to_spark_query(ctx)?,
+                inline(source.as_ref(), ctx, &mut preface)?,
                 old_name,
                 new_name,
-            )
-            .into()),
+            ),
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
-                    .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
+                    .map(|col| inline(col, ctx, &mut preface))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
+                    inline(source.as_ref(), ctx, &mut preface)?,
                     columns?.join(", ")
                 )
-                .into())
             }
-            DataFrame::UnionByName { source, other } => Ok(format!(
+            DataFrame::UnionByName { source, other } => format!(
                 "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-            )
-            .into()),
+                inline(source.as_ref(), ctx, &mut preface)?,
+                inline(other.as_ref(), ctx, &mut preface)?,
+            ),
             DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
+                format!(
+                    "{}.limit({},)",
+                    inline(source.as_ref(), ctx, &mut preface)?,
+                    limit
+                )
             }
             DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
+                format!(
+                    "{}.tail({})",
+                    inline(source.as_ref(), ctx, &mut preface)?,
+                    limit
+                )
             }
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
+            } => format!(
                 "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
+                inline(source.as_ref(), ctx, &mut preface)?,
+                inline(other.as_ref(), ctx, &mut preface)?,
+                inline(condition, ctx, &mut preface)?,
                 join_type
-            )
-            .into()),
+            ),
             DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
+                format!(
+                    "{}.alias('{}',)",
+                    inline(source.as_ref(), ctx, &mut preface)?,
+                    name,
+                )
             }
             DataFrame::ArbitraryMethod {
                 source,
@@ -934,17 +949,17 @@ impl ToSparkQuery for DataFrame {
             } => {
                 let params: Result<Vec<String>> = params
                     .iter()
-                    .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
+                    .map(|col| inline(col, ctx, &mut preface))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
+                    inline(source.as_ref(), ctx, &mut preface)?,
                     method,
                     params?.join(",")
                 )
-                .into())
             }
-        }
+        };
+        Ok(PythonCode::new(code, preface, None))
     }
 }
 
-- 
2.43.0


From 70daaa14edfec387138c1f0a6b00a67b481f4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:01 +0000
Subject: [PATCH 20/66] fix: `search` unions indices in a fixed order and
 filters by index past the start of a pipeline

---
 src/commands/cmd_search/pyspark.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..919a955 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -176,7 +176,20 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        let condition_expr = match state.df {
+            None => split_conditions(&self.expr, true, &mut indices, &state.ctx)?,
+            // Past the start of the pipeline, the index is a field to filter by
+            Some(_) => Some(self.expr.clone()),
+        };
+        let mut indices: Vec<String> = indices.into_iter().collect();
+        indices.sort();
+        for index in indices.iter() {
+            ensure!(
+                !index.contains('*'),
+                "UNIMPLEMENTED: `search` does not support wildcards in index `{}`",
+                index
+            );
+        }
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
             for new_index in indices.into_iter() {
-- 
2.43.0


From 6b597f38b1bc0a26529b14b5c196f6fa5b7f3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 21/66] fix: runtime `search` handles free text, patterns,
 repeated fields and fields of its input

---
 .../spl_transpiler/runtime/commands/search.py | 20 ++++++++++-
 src/commands/cmd_search/pyspark.rs            | 36 +++++++++++++++----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/search.py b/python/spl_transpiler/runtime/commands/search.py
index a309437..ee4bcca 100644
--- a/python/spl_transpiler/runtime/commands/search.py
+++ b/python/spl_transpiler/runtime/commands/search.py
@@ -33,8 +33,26 @@ def search(
             saved_splunk=saved_splunk,
             splunk_server=splunk_server,
         )
+        source_fields = {}
+    else:
+        # There is no table to look up, these are fields of the input to filter by
+        source_fields = {
+            "index": index,
+            "source": source,
+            "sourcetype": source_type,
+            "host": host,
+            "hosttag": host_tag,
+            "eventtype": event_type,
+            "eventtypetag": event_type_tag,
+            "savedsplunk": saved_splunk,
+            "splunk_server": splunk_server,
+        }
 
-    conditions = []
+    conditions = [
+        F.col(field) == value
+        for field, value in source_fields.items()
+        if value is not None
+    ]
     for expr in exprs:
         conditions.append(expr.to_pyspark_expr())
     for field, expr in field_exprs.items():
diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 919a955..8d2462a 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -13,6 +13,21 @@ fn _is_index(expr: &ast::Expr) -> bool {
     )
 }
 
+/// Patterns are matched, rather than compared for equality
+fn _is_pattern(expr: &ast::Expr) -> bool {
+    matches!(
+        expr,
+        ast::Expr::Leaf(ast::LeafExpr::Constant(
+            ast::Constant::Wildcard(_) | ast::Constant::IPv4CIDR(_)
+        ))
+    )
+}
+
+fn _search_condition(expr: ast::Expr, ctx: &PysparkTranspileContext) -> Result<RuntimeExpr> {
+    let condition: Expr = expr.with_context(ctx).try_into()?;
+    Ok(condition.into_search_expr().into())
+}
+
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
@@ -148,6 +163,11 @@ impl PipelineTransformer for SearchCommand {
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
                             _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
                         };
+                            ensure!(
+                                kwargs.iter().all(|(key, _)| key != name),
+                                "`{}` must not be specified more than once",
+                                name
+                            );
                             kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
                         }
                         (
@@ -155,14 +175,18 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) => kwargs.push((
-                            name.to_string(),
-                            (*right).with_context(&state.ctx).try_into()?,
-                        )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                        ) if !_is_pattern(&right)
+                            && !kwargs.iter().any(|(key, _)| *key == name) =>
+                        {
+                            kwargs.push((
+                                name.to_string(),
+                                (*right).with_context(&state.ctx).try_into()?,
+                            ))
+                        }
+                        _ => args.push(_search_condition(expr, &state.ctx)?),
                     }
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                _ => args.push(_search_condition(expr, &state.ctx)?),
             }
         }
 
-- 
2.43.0


From c200b9dcca1630052156f98d0b4dfcc651cb6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 22/66] fix: runtime commands accept any field name, and fields
 assigned twice

---
 .../spl_transpiler/runtime/commands/eval.py   |  2 +-
 .../spl_transpiler/runtime/commands/stats.py  |  1 +
 src/commands/cmd_eval/pyspark.rs              | 32 +++++++++++--------
 src/pyspark/ast.rs                            | 24 ++++++++++++--
 4 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/eval.py b/python/spl_transpiler/runtime/commands/eval.py
index 1d1c502..9227fe5 100644
--- a/python/spl_transpiler/runtime/commands/eval.py
+++ b/python/spl_transpiler/runtime/commands/eval.py
@@ -4,7 +4,7 @@ from spl_transpiler.runtime.base import enforce_types, Expr
 
 
 @enforce_types
-def eval(df: DataFrame, **exprs: Expr) -> DataFrame:
+def eval(df: DataFrame, /, **exprs: Expr) -> DataFrame:
     for name, expr in exprs.items():
         df = df.withColumn(name, expr.to_pyspark_expr())
     return df
diff --git a/python/spl_transpiler/runtime/commands/stats.py b/python/spl_transpiler/runtime/commands/stats.py
index 5097f1e..6273e7f 100644
--- a/python/spl_transpiler/runtime/commands/stats.py
+++ b/python/spl_transpiler/runtime/commands/stats.py
@@ -7,6 +7,7 @@ from spl_transpiler.runtime.functions.stats import StatsFunction
 @enforce_types
 def stats(
     df: DataFrame,
+    /,
     *,
     by: list[Expr] = (),
     **stat_exprs: StatsFunction,
diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..06d3f53 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -21,21 +21,25 @@ impl PipelineTransformer for EvalCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
-        let kwargs: Result<Vec<(String, RuntimeExpr)>> = self
-            .fields
-            .iter()
-            .map(|(field, expr)| {
-                Ok((
-                    field.0.to_string(),
-                    RuntimeExpr::from(
-                        self._eval_expr(expr.clone().with_context(&state.ctx))?
-                            .unaliased(),
-                    ),
-                ))
-            })
-            .collect();
+        let mut df = state.df.clone();
+        let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
 
-        let df = DataFrame::runtime(state.df.clone(), "eval", vec![], kwargs?, &state.ctx);
+        for (field, expr) in self.fields.iter() {
+            // A field assigned twice takes two steps, as keyword arguments cannot be repeated
+            if kwargs.iter().any(|(name, _)| *name == field.0) {
+                let step = std::mem::take(&mut kwargs);
+                df = Some(DataFrame::runtime(df, "eval", vec![], step, &state.ctx));
+            }
+            kwargs.push((
+                field.0.to_string(),
+                RuntimeExpr::from(
+                    self._eval_expr(expr.clone().with_context(&state.ctx))?
+                        .unaliased(),
+                ),
+            ));
+        }
+
+        let df = DataFrame::runtime(df, "eval", vec![], kwargs, &state.ctx);
 
         Ok(state.with_df(df))
     }
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index e3a5e31..db2727e 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -419,6 +419,26 @@ impl IntoIterator for PyList {
     }
 }
 
+const PYTHON_KEYWORDS: &[&str] = &[
+    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue",
+    "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import",
+    "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while",
+    "with", "yield",
+];
+
+/// Field names are not always valid identifiers, but they can still be passed as keyword arguments
+fn keyword_argument(name: &str, value: &str) -> String {
+    let is_identifier = name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !name.starts_with(|c: char| c.is_ascii_digit())
+        && !name.is_empty()
+        && !PYTHON_KEYWORDS.contains(&name);
+    if is_identifier {
+        format!("{}={}", name, value)
+    } else {
+        format!("**{{'{}': {}}}", name, value)
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 pub struct PyRuntimeFunc {
     pub name: String,
@@ -468,7 +488,7 @@ impl ToSparkQuery for PyRuntimeFunc {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_args.push(format!("{}={}", key, primary_df_code).to_string());
+            out_args.push(keyword_argument(key, &primary_df_code));
         }
 
         Ok(format!("functions.{}({})", self.name, out_args.join(", ")).into())
@@ -813,7 +833,7 @@ impl ToSparkQuery for DataFrame {
                         primary_df_code,
                     } = kwarg.to_spark_query(ctx)?;
                     all_preface.extend(preface);
-                    all_args.push(format!("{name}={primary_df_code}"));
+                    all_args.push(keyword_argument(name, &primary_df_code));
                 }
                 let all_args_str = all_args.join(", ");
                 let full_command =
-- 
2.43.0


From a3b543832b766b34d52700f51bf08013763f543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 23/66] fix: runtime `datamodel` and `tstats` accept the calls
 which are generated for them

---
 .../runtime/commands/data_model.py               | 15 ++++++++++-----
 python/spl_transpiler/runtime/commands/tstats.py |  6 +++---
 src/commands/cmd_data_model/pyspark.rs           |  6 +++++-
 src/commands/cmd_t_stats/pyspark.rs              | 16 +++++++++-------
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..94db79f 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -9,16 +9,21 @@ from spl_transpiler.runtime.config import settings
 
 @enforce_types
 def data_model(
-    # df: DataFrame | None,
-    data_model_name: str,
+    df: DataFrame | str | None = None,
+    data_model_name: str | None = None,
     dataset_name: str | None = None,
     search_mode: str | None = "search",
     strict_fields: bool | None = None,
     allow_old_summaries: bool | None = None,
     summaries_only: bool | None = None,
 ) -> DataFrame:
-    # if df is not None:
-    #     raise NotImplementedError("Cannot pass input to `data_model`")
+    # The name of the data model may also be given as the only positional argument
+    if isinstance(df, str) and data_model_name is None:
+        df, data_model_name = None, df
+    if df is not None:
+        raise NotImplementedError("Cannot pass input to `data_model`")
+    if data_model_name is None:
+        raise ValueError("The name of the data model must be provided")
     if search_mode and search_mode != "search":
         raise NotImplementedError(
             "`data_model` command does not support search_mode other than 'search'"
@@ -39,6 +44,6 @@ def data_model(
     table_name = ".".join(
         data_model_name.split(".") + (dataset_name or "").split(".")[1:]
     )
-    df = settings().table_lookup_function(table_name)
+    df = settings().table_lookup_function(data_model=table_name)
 
     return df
diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..bf417f8 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -15,7 +15,7 @@ class DataModelSpecifier(BaseModel):
     def __str__(self) -> str:
         return ".".join(
             s
-            for name in [self.datamodel.split("."), self.nodename or ""]
+            for name in [self.datamodel, self.nodename or ""]
             for s in name.split(".")
             if s
         )
@@ -32,6 +32,8 @@ def tstats(
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
     match (df, from_):
+        case (None, None):
+            raise ValueError("Either `df` or `from_` must be provided")
         case (None, from_):
             df = data_model(
                 data_model_name=from_.datamodel,
@@ -40,8 +42,6 @@ def tstats(
             )
         case (df, None):
             pass
-        case (None, None):
-            raise ValueError("Either `df` or `from_` must be provided")
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..6d9512a 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -58,7 +58,11 @@ impl PipelineTransformer for DataModelCommand {
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
                     let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    if truncated_node_name.is_empty() {
+                        data_model
+                    } else {
+                        format!("{}.{}", data_model, truncated_node_name)
+                    }
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 6bcc903..adcb742 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -45,13 +45,15 @@ impl PipelineTransformer for TStatsCommand {
         let mut all_kwargs = py_dict! {};
 
         // Options
-        all_kwargs.push(
-            "from_",
-            py_dict! {
-                datamodel=self.datamodel.clone().map(PyLiteral::from),
-                nodename=self.nodename.clone().map(PyLiteral::from),
-            },
-        );
+        if self.datamodel.is_some() || self.nodename.is_some() {
+            all_kwargs.push(
+                "from_",
+                py_dict! {
+                    datamodel=self.datamodel.clone().map(PyLiteral::from),
+                    nodename=self.nodename.clone().map(PyLiteral::from),
+                },
+            );
+        }
 
         if let Some(fill_null_value) = &self.fillnull_value {
             all_kwargs.push("fill_null_value", PyLiteral::from(fill_null_value.clone()));
-- 
2.43.0


From a6bcd8bdcf77970a05f86da32811a46730229d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 24/66] fix: runtime `tstats` requires a data model or an input

---
 src/commands/cmd_t_stats/pyspark.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index adcb742..166fcbe 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -42,6 +42,11 @@ impl PipelineTransformer for TStatsCommand {
             "UNIMPLEMENTED: `tstats` command does not yet support BY prefix"
         );
 
+        ensure!(
+            self.datamodel.is_some() != state.df.is_some(),
+            "`tstats` requires either a data model or an input, but not both"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
-- 
2.43.0


From e83bd8f9ab557e4245e5ae51103bba0c33dd644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 25/66] fix: quote and escape text placed in Python string
 literals; parenthesise a negation before calling a method on it

---
 src/commands/cmd_make_results/pyspark.rs |  4 +-
 src/pyspark/ast.rs                       | 77 +++++++++++++++++++-----
 src/pyspark/transpiler/expr.rs           |  4 +-
 src/pyspark/transpiler/utils.rs          |  6 +-
 4 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index 34e7c03..f869074 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(py_str('"', &self.server))),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(format!("\"{}\"", group))),
+                        Some(group) => column_like!(lit(py_str('"', &group))),
                         None => column_like!(lit(None)),
                     },
                 );
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index db2727e..88c39e3 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -24,15 +24,49 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_str('"', &value))
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_str('"', value))
     }
 }
 
+/// Python string literal for text taken from a query. Escape sequences which mean the same in SPL
+/// are kept, anything that would end the literal or read as another character is escaped.
+pub(crate) fn py_str(quote: char, text: &str) -> String {
+    if !text.contains(quote) && !text.contains('\\') && !text.contains(['\n', '\r']) {
+        return format!("{}{}{}", quote, text, quote);
+    }
+    let mut escaped = String::new();
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\\' => match chars.peek().copied() {
+                Some(next @ ('\\' | '"' | '\'')) => {
+                    escaped.push(c);
+                    escaped.push(next);
+                    chars.next();
+                }
+                None
+                | Some('\n' | '\r' | 'a' | 'b' | 'f' | 'v' | 'x' | 'u' | 'U' | 'N' | '0'..='7') => {
+                    escaped.push_str("\\\\")
+                }
+                Some(_) => escaped.push(c),
+            },
+            c if c == quote => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            c => escaped.push(c),
+        }
+    }
+    format!("{}{}{}", quote, escaped, quote)
+}
+
 impl From<i64> for PyLiteral {
     fn from(value: i64) -> PyLiteral {
         PyLiteral(value.to_string())
@@ -216,10 +250,19 @@ macro_rules! column_like {
 pub(crate) use column_like;
 // <-- the trick
 
+/// Code of an expression a method is called on, which binds tighter than a prefix operator
+fn receiver(col: &Expr, ctx: &PysparkTranspileContext) -> Result<String> {
+    let code = col.to_spark_query(ctx)?;
+    Ok(match col {
+        Expr::Column(ColumnLike::UnaryNot { .. }) => format!("({})", code),
+        _ => code.to_string(),
+    })
+}
+
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col({})", py_str('\'', name))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -228,7 +271,7 @@ impl ToSparkQuery for ColumnLike {
                     .collect();
                 Ok(format!(
                     "{}.{}({})",
-                    col.to_spark_query(ctx)?,
+                    receiver(col, ctx)?,
                     func,
                     args?.join(", ")
                 ))
@@ -245,9 +288,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias({})",
+                receiver(col, ctx)?,
+                py_str('\'', name)
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +366,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(py_str('"', name).into()),
         }
     }
 }
@@ -355,7 +400,7 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals.push(format!("{}: {}", py_str('"', key), primary_df_code).to_string());
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -435,7 +480,7 @@ fn keyword_argument(name: &str, value: &str) -> String {
     if is_identifier {
         format!("{}={}", name, value)
     } else {
-        format!("**{{'{}': {}}}", name, value)
+        format!("**{{{}: {}}}", py_str('\'', name), value)
     }
 }
 
@@ -804,7 +849,7 @@ impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         let mut preface = vec![];
         let code = match self {
-            DataFrame::Source { name } => format!("spark.table('{}')", name),
+            DataFrame::Source { name } => format!("spark.table({})", py_str('\'', name)),
             DataFrame::RawSource { code } => code.clone(),
             DataFrame::Runtime {
                 name,
@@ -898,9 +943,9 @@ impl ToSparkQuery for DataFrame {
                 column,
                 name,
             } => format!(
-                "{}.withColumn('{}', {},)",
+                "{}.withColumn({}, {},)",
                 inline(source.as_ref(), ctx, &mut preface)?,
-                name,
+                py_str('\'', name),
                 inline(column, ctx, &mut preface)?,
             ),
             DataFrame::WithColumnRenamed {
@@ -908,10 +953,10 @@ impl ToSparkQuery for DataFrame {
                 old_name,
                 new_name,
             } => format!(
-                "{}.withColumnRenamed('{}', '{}',)",
+                "{}.withColumnRenamed({}, {},)",
                 inline(source.as_ref(), ctx, &mut preface)?,
-                old_name,
-                new_name,
+                py_str('\'', old_name),
+                py_str('\'', new_name),
             ),
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..79697b6 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -89,7 +89,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: py_str('\'', &val),
                 }
                 .into())
             }
@@ -103,7 +103,7 @@ impl ToSparkExpr for ast::Expr {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(ast::IPv4CIDR(
                 val,
             )))) => Ok(ColumnLike::Literal {
-                code: format!("'{}'", val),
+                code: py_str('\'', &val),
             }
             .into()),
 
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 085545c..4b1be81 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -118,7 +118,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSSSSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
@@ -138,7 +138,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("xx")),        // Timezone offset from UTC
+    ("%z", Some("xx")),      // Timezone offset from UTC
     ("%:z", Some("xxx")),    // Timezone offset from UTC
     ("%::z", Some("xxxxx")), // Timezone offset from UTC
     ("%:::z", Some("x")),    // Timezone offset from UTC
@@ -150,7 +150,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("DDD")),    // Day of year
+    ("%j", Some("DDD")),  // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
     ("%w", None), // Spark has no pattern letter for the weekday as a decimal number
-- 
2.43.0


From 0cdf8346980a6712b880d0e5420801d8e9025123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 26/66] fix: concatenation operator, boolean literals and
 negated CIDR match

---
 src/pyspark/transpiler/expr.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 79697b6..dfb1ef2 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -39,6 +39,13 @@ impl ToSparkExpr for ast::Expr {
                         ast::IPv4CIDR(cidr),
                     ))),
                 ) => Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into()),
+                (
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(col)))),
+                    "!=",
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
+                        ast::IPv4CIDR(cidr),
+                    ))),
+                ) => Ok(column_like!(~[expr("cidr_match('{}', {})", cidr, col)]).into()),
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
                     lhs,
@@ -57,6 +64,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left], [right])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
@@ -96,7 +109,11 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(if val {
+                    column_like!(lit(true)).into()
+                } else {
+                    column_like!(lit(false)).into()
+                })
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From bc67b50bbd54efde60ce208e865ae30656f23f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 27/66] fix: word operators end at a word boundary and are
 recorded in their canonical spelling

---
 src/spl/operators.rs | 36 ++++++++++++++++++++++++++++++------
 src/spl/parser.rs    |  6 +++---
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..70e6cb4 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,27 +1,48 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::{multispace0, multispace1};
-use nom::sequence::delimited;
+use nom::character::complete::{multispace0, multispace1, satisfy};
+use nom::combinator::{not, value};
+use nom::sequence::{delimited, terminated};
 use nom::IResult;
 
 pub trait OperatorSymbolTrait {
     const SYMBOL: &'static str;
     const PRECEDENCE: i32;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        tag_no_case(Self::SYMBOL)(input)
+        value(Self::SYMBOL, tag_no_case(Self::SYMBOL))(input)
     }
 }
+
+/// An operator written as a word, which must not be the beginning of a longer word
+fn word_operator<'a>(symbol: &'static str, input: &'a str) -> IResult<&'a str, &'static str> {
+    value(
+        symbol,
+        terminated(
+            tag_no_case(symbol),
+            not(satisfy(|c| {
+                c.is_alphanumeric() || "_*:/-%{}@\\.".contains(c)
+            })),
+        ),
+    )(input)
+}
+
 #[derive(Debug, PartialEq, Clone)]
 pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        word_operator(Self::SYMBOL, input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        word_operator(Self::SYMBOL, input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +50,10 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        alt((
+            |i| word_operator(Self::SYMBOL, i),
+            value(Self::SYMBOL, tag(" ")),
+        ))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
@@ -39,7 +63,7 @@ impl OperatorSymbolTrait for InList {
     const PRECEDENCE: i32 = 7;
 
     fn pattern(input: &str) -> IResult<&str, &str> {
-        tag_no_case("IN")(input)
+        word_operator(Self::SYMBOL, input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
@@ -106,7 +130,7 @@ impl OperatorSymbolTrait for Equals {
     const SYMBOL: &'static str = "=";
     const PRECEDENCE: i32 = 7;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag("="), tag("::")))(input)
+        value(Self::SYMBOL, alt((tag("="), tag("::"))))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..11f9b25 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1298,7 +1298,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(operators::Or::pattern), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1306,7 +1306,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(operators::And::pattern), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1317,7 +1317,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(operators::UnaryNot::pattern), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 9dceec4dc3cbacae77eedb9fc833c781616198d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:54 +0000
Subject: [PATCH 28/66] fix: subtraction and division are left-associative

---
 src/spl/parser.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 11f9b25..3f3b292 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -983,39 +983,47 @@ pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
     alt((expr_base,))(input)
 }
 
+/// a - b - c is (a - b) - c, and a / b / c is (a / b) / c
+fn left_associative(left: ast::Expr, rights: Vec<(&str, ast::Expr)>) -> ast::Expr {
+    let mut rights = rights.into_iter();
+    match rights.next() {
+        None => left,
+        Some((op @ (operators::Subtract::SYMBOL | operators::Divide::SYMBOL), right)) => {
+            left_associative(ast::Binary::new(left, op, right).into(), rights.collect())
+        }
+        Some((op, right)) => {
+            ast::Binary::new(left, op, left_associative(right, rights.collect())).into()
+        }
+    }
+}
+
 pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr2,
-            opt(pair(
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr2,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(left, rights)| left_associative(left, rights),
+    )(input)
 }
 
 pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr3,
-            opt(pair(
+            many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
+                expr3,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(left, rights)| left_associative(left, rights),
+    )(input)
 }
 
 pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From ebc6e96f3e1eea5150ff3b36583cf1ce06f51167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 29/66] fix: log takes its base as a plain number

---
 src/functions/eval_fns.rs | 4 +++-
 src/functions/mod.rs      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index f7d5750..af9db74 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -470,7 +470,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([base], [x])) }),
+        "log" => {
+            function_transform!(log [args] (x, base: f64) { column_like!(log([py_lit(base)], [x])) })
+        }
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
diff --git a/src/functions/mod.rs b/src/functions/mod.rs
index b782bd2..178dcdb 100644
--- a/src/functions/mod.rs
+++ b/src/functions/mod.rs
@@ -28,6 +28,9 @@ impl TryFrom<ContextualizedExpr<ast::Expr>> for f64 {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Double(ast::DoubleValue(
                 val,
             )))) => Ok(val),
+            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Int(ast::IntValue(val)))) => {
+                Ok(val as f64)
+            }
             _ => bail!("No default conversion from {:?} to f64", value),
         }
     }
-- 
2.43.0


From 4f88c5f0da6ccf87e2d2feb188c7e9102db3d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 30/66] fix: convert the documented %3N, %6N and %9N time
 format variables and reject %U and %V

---
 src/pyspark/transpiler/utils.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 4b1be81..eca08bd 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -112,7 +112,7 @@ Z      	 zone-offset                  	 offset-Z     	 +0000; -0800; -08:00;
 ]      	 optional section end
  */
 
-const CONVERSIONS: [(&str, Option<&str>); 37] = [
+const CONVERSIONS: [(&str, Option<&str>); 42] = [
     // Date and time variables
     ("%c", None), // No direct equivalent
     ("%+", None), // No direct equivalent
@@ -124,6 +124,9 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
     ("%M", Some("mm")),         // Minute
     ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+    ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+    ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+    ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
     ("%p", Some("a")),          // AM or PM
     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -151,9 +154,9 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
     ("%j", Some("DDD")),  // Day of year
-    // ("%V", Some("w")), // Week of the year (ISO)
-    // ("%U", Some("w")), // Week of the year (starting with 0)
-    ("%w", None), // Spark has no pattern letter for the weekday as a decimal number
+    ("%V", None),         // Spark has no pattern letter for the week of the year
+    ("%U", None),         // Spark has no pattern letter for the week of the year
+    ("%w", None),         // Spark has no pattern letter for the weekday as a decimal number
     // Specifying months
     ("%b", Some("MMM")),  // Abbreviated month name
     ("%B", Some("MMMM")), // Full month name
-- 
2.43.0


From 3c267cc59a118ce64816d0d0763c232759f926d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 31/66] fix: the runtime offers the stats functions sum and
 list under their own names

---
 python/spl_transpiler/runtime/functions/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..688acb1 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -315,6 +315,9 @@ def sum_(value: Expr) -> SumStatsFn:
     return SumStatsFn(value=value)
 
 
+sum = sum_
+
+
 #         // sumsq(<value>)                       	 Returns the sum of the squares of the values in the field specified.
 #         "sumsq" => function_transform!(sumsq [args] (x) { column_like!(sum([[x.clone()] * [x]])) }),
 
@@ -447,6 +450,9 @@ def list_(value: Expr) -> ListStatsFn:
     return ListStatsFn(value=value)
 
 
+list = list_
+
+
 #         // values(<value>)                      	 Returns the list of all distinct values in a field as a multivalue entry. The order of the values is lexicographical.
 #         "values" => function_transform!(values [args] (x) { column_like!(collect_set([x])) }),
 
-- 
2.43.0


From d9c3353b2b84b10604e57d2c22fa56bff3759215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 32/66] fix: runtime eval, stats and fillnull work on the main
 table when they come first

---
 python/spl_transpiler/runtime/commands/eval.py      | 5 ++++-
 python/spl_transpiler/runtime/commands/fill_null.py | 3 +++
 python/spl_transpiler/runtime/commands/stats.py     | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/eval.py b/python/spl_transpiler/runtime/commands/eval.py
index 9227fe5..1ac1554 100644
--- a/python/spl_transpiler/runtime/commands/eval.py
+++ b/python/spl_transpiler/runtime/commands/eval.py
@@ -1,10 +1,13 @@
 from pyspark.sql import DataFrame
 
 from spl_transpiler.runtime.base import enforce_types, Expr
+from spl_transpiler.runtime.config import settings
 
 
 @enforce_types
-def eval(df: DataFrame, /, **exprs: Expr) -> DataFrame:
+def eval(df: DataFrame | None, /, **exprs: Expr) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index="main")
     for name, expr in exprs.items():
         df = df.withColumn(name, expr.to_pyspark_expr())
     return df
diff --git a/python/spl_transpiler/runtime/commands/fill_null.py b/python/spl_transpiler/runtime/commands/fill_null.py
index 9a57f4d..14ae0f4 100644
--- a/python/spl_transpiler/runtime/commands/fill_null.py
+++ b/python/spl_transpiler/runtime/commands/fill_null.py
@@ -1,6 +1,7 @@
 from pyspark.sql import DataFrame, functions as F
 
 from spl_transpiler.runtime.base import enforce_types
+from spl_transpiler.runtime.config import settings
 
 
 @enforce_types
@@ -9,6 +10,8 @@ def fill_null(
     value: str,
     fields: list[str] | None = None,
 ) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index="main")
     type_map = dict(df.dtypes)
     fields = fields if fields is not None else list(type_map)
 
diff --git a/python/spl_transpiler/runtime/commands/stats.py b/python/spl_transpiler/runtime/commands/stats.py
index 6273e7f..13f0739 100644
--- a/python/spl_transpiler/runtime/commands/stats.py
+++ b/python/spl_transpiler/runtime/commands/stats.py
@@ -1,17 +1,20 @@
 from pyspark.sql import DataFrame
 
 from spl_transpiler.runtime.base import enforce_types, Expr
+from spl_transpiler.runtime.config import settings
 from spl_transpiler.runtime.functions.stats import StatsFunction
 
 
 @enforce_types
 def stats(
-    df: DataFrame,
+    df: DataFrame | None,
     /,
     *,
     by: list[Expr] = (),
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index="main")
     aggs = []
     for label, expr in stat_exprs.items():
         df, agg_expr = expr.to_pyspark_expr(df)
-- 
2.43.0


From 0e741cc4f8fc317b8806c826dbdf424801245a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 33/66] fix: keep leading and whole whitespace inside quoted
 strings

---
 src/spl/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 3f3b292..9599b14 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,10 +447,10 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
+    ))))
     .parse(input)
 }
 
@@ -468,10 +468,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
-- 
2.43.0


From b768b9307667b3979c09e421e63bc2f5df1b8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:55 +0000
Subject: [PATCH 34/66] fix: recognise OUTPUTNEW of lookup

---
 src/commands/cmd_lookup/spl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/spl.rs b/src/commands/cmd_lookup/spl.rs
index a1d1338..c19ae20 100644
--- a/src/commands/cmd_lookup/spl.rs
+++ b/src/commands/cmd_lookup/spl.rs
@@ -57,7 +57,7 @@ pub fn field_rep(input: &str) -> IResult<&str, Vec<FieldLike>> {
 fn lookup_output(input: &str) -> IResult<&str, LookupOutput> {
     map(
         separated_pair(
-            alt((tag_no_case("OUTPUT"), tag_no_case("OUTPUTNEW"))),
+            alt((tag_no_case("OUTPUTNEW"), tag_no_case("OUTPUT"))),
             multispace1,
             field_rep,
         ),
-- 
2.43.0


From 86d281e0ba2561754a619f033dbc7c851add8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:35 +0000
Subject: [PATCH 35/66] fix: a command name directly followed by | or ] is that
 command

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..b16b9f7 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -3,8 +3,8 @@ use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
-use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::character::complete::{multispace1, one_of};
+use nom::combinator::{eof, map, peek, recognize};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(recognize(one_of("|]"))))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From 934ced535941768874df2b12a4bd44ecc47c93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:35 +0000
Subject: [PATCH 36/66] fix: a lookup field whose name begins with `as` is not
 an alias

---
 src/spl/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 9599b14..ef1331a 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1131,7 +1131,11 @@ pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
 //   def aliasedField[_: P]: P[Alias] = field ~ W("AS") ~ (token|doubleQuoted) map Alias.tupled
 pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
     map(
-        separated_pair(field, ws(tag_no_case("AS")), alt((token, double_quoted))),
+        separated_pair(
+            field,
+            delimited(multispace1, tag_no_case("AS"), multispace1),
+            alt((token, double_quoted)),
+        ),
         |(field, alias)| ast::AliasedField {
             field,
             alias: alias.into(),
-- 
2.43.0


From 4fa10c75dfacaa17301635d2b064b06f02640418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 37/66] fix: search compares fields with values, not with other
 fields

---
 src/commands/cmd_search/pyspark.rs | 35 +++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 8d2462a..a41f55b 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -23,6 +23,34 @@ fn _is_pattern(expr: &ast::Expr) -> bool {
     )
 }
 
+/// Fields are compared with values, so an unquoted word on the right-hand side is a string
+fn literal_values(expr: ast::Expr) -> ast::Expr {
+    match expr {
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => match (symbol.as_str(), *right) {
+            ("AND" | "OR", right) => {
+                ast::Binary::new(literal_values(*left), symbol, literal_values(right)).into()
+            }
+            (
+                "=" | "==" | "!=" | "<" | "<=" | ">" | ">=",
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(value)))),
+            ) => {
+                let value = ast::Constant::Str(ast::StrValue(value));
+                ast::Binary::new(*left, symbol, ast::Expr::Leaf(ast::LeafExpr::Constant(value)))
+                    .into()
+            }
+            (_, right) => ast::Binary::new(*left, symbol, right).into(),
+        },
+        ast::Expr::Unary(ast::Unary { symbol, right }) => {
+            ast::Unary::new(symbol, literal_values(*right)).into()
+        }
+        expr => expr,
+    }
+}
+
 fn _search_condition(expr: ast::Expr, ctx: &PysparkTranspileContext) -> Result<RuntimeExpr> {
     let condition: Expr = expr.with_context(ctx).try_into()?;
     Ok(condition.into_search_expr().into())
@@ -107,7 +135,7 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut exprs = vec![];
-        break_down_ands(&self.expr, &mut exprs);
+        break_down_ands(&literal_values(self.expr.clone()), &mut exprs);
 
         let df = state.df.clone();
 
@@ -200,10 +228,11 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
+        let expr = literal_values(self.expr.clone());
         let condition_expr = match state.df {
-            None => split_conditions(&self.expr, true, &mut indices, &state.ctx)?,
+            None => split_conditions(&expr, true, &mut indices, &state.ctx)?,
             // Past the start of the pipeline, the index is a field to filter by
-            Some(_) => Some(self.expr.clone()),
+            Some(_) => Some(expr),
         };
         let mut indices: Vec<String> = indices.into_iter().collect();
         indices.sort();
-- 
2.43.0


From fd7ae5d609b92f0a280cc602e1ca783394681138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 38/66] fix: eval evaluates AND before OR

---
 src/commands/cmd_search/spl.rs |  6 ++-
 src/spl/parser.rs              | 78 +++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/commands/cmd_search/spl.rs b/src/commands/cmd_search/spl.rs
index 2225e16..fd3fd24 100644
--- a/src/commands/cmd_search/spl.rs
+++ b/src/commands/cmd_search/spl.rs
@@ -2,7 +2,9 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
 use crate::spl::operators;
 use crate::spl::operators::OperatorSymbolTrait;
-use crate::spl::parser::{combine_all_expressions, comma_or_space_separated_list1, expr};
+#[cfg(test)]
+use crate::spl::parser::expr;
+use crate::spl::parser::{combine_all_expressions, comma_or_space_separated_list1, search_expr};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
@@ -41,7 +43,7 @@ impl SplCommand<SearchCommand> for SearchParser {
     type Options = SearchCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, SearchCommand> {
-        map(comma_or_space_separated_list1(expr), |exprs| {
+        map(comma_or_space_separated_list1(search_expr), |exprs| {
             SearchCommand {
                 expr: combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
             }
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index ef1331a..a77c9a7 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -969,9 +969,9 @@ pub fn term_call(input: &str) -> IResult<&str, ast::Call> {
    precedence 9: Or
 */
 
-pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr_base<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
-        parenthesized(expr9_with_whitespace),
+        expr_parenthesized::<SEARCH>,
         map(term_call, ast::Expr::Call),
         map(call, ast::Expr::Call),
         map(constant, |v| ast::Expr::Leaf(ast::LeafExpr::Constant(v))),
@@ -979,8 +979,8 @@ pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
-    alt((expr_base,))(input)
+pub fn expr2<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    alt((expr_base::<SEARCH>,))(input)
 }
 
 /// a - b - c is (a - b) - c, and a / b / c is (a / b) / c
@@ -997,40 +997,43 @@ fn left_associative(left: ast::Expr, rights: Vec<(&str, ast::Expr)>) -> ast::Exp
     }
 }
 
-pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr3<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     map(
         pair(
-            expr2,
+            expr2::<SEARCH>,
             many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr2,
+                expr2::<SEARCH>,
             )),
         ),
         |(left, rights)| left_associative(left, rights),
     )(input)
 }
 
-pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr4<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     map(
         pair(
-            expr3,
+            expr3::<SEARCH>,
             many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr3,
+                expr3::<SEARCH>,
             )),
         ),
         |(left, rights)| left_associative(left, rights),
     )(input)
 }
 
-pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr5<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((map(
         pair(
-            expr4,
-            opt(pair(ws(alt((operators::Concatenate::pattern,))), expr5)),
+            expr4::<SEARCH>,
+            opt(pair(
+                ws(alt((operators::Concatenate::pattern,))),
+                expr5::<SEARCH>,
+            )),
         ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
@@ -1039,12 +1042,12 @@ pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
     ),))(input)
 }
 
-pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr6<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         into(field_in),
         map(
             pair(
-                expr5,
+                expr5::<SEARCH>,
                 opt(pair(
                     ws(alt((
                         operators::StrictlyEquals::pattern,
@@ -1055,7 +1058,7 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
                         operators::GreaterEquals::pattern,
                         operators::GreaterThan::pattern,
                     ))),
-                    expr6,
+                    expr6::<SEARCH>,
                 )),
             ),
             |(left, maybe_op_right)| match maybe_op_right {
@@ -1066,25 +1069,25 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr7<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
             alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7),
+                separated_pair(operators::UnaryNot::pattern, multispace1, expr7::<SEARCH>),
                 pair(
                     ws(operators::UnaryNot::pattern),
-                    parenthesized(expr9_with_whitespace),
+                    expr_parenthesized::<SEARCH>,
                 ),
             )),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
-        expr6,
+        expr6::<SEARCH>,
     ))(input)
 }
 
 pub fn expr8(input: &str) -> IResult<&str, ast::Expr> {
     alt((map(
-        pair(expr7, opt(pair(ws(operators::Or::pattern), expr8))),
+        pair(expr7::<true>, opt(pair(ws(operators::Or::pattern), expr8))),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
             Some((op, right)) => ast::Binary::new(left, op, right).into(),
@@ -1121,10 +1124,43 @@ pub fn expr9_with_whitespace(input: &str) -> IResult<&str, ast::Expr> {
     )(input)
 }
 
+/// Like `search_expr`, but AND takes precedence over OR
+fn expr8_and(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(
+            expr7::<false>,
+            opt(pair(ws(operators::And::pattern), expr8_and)),
+        ),
+        |(left, maybe_op_right)| match maybe_op_right {
+            None => left,
+            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        },
+    )(input)
+}
+
 pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(expr8_and, opt(pair(ws(operators::Or::pattern), expr))),
+        |(left, maybe_op_right)| match maybe_op_right {
+            None => left,
+            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        },
+    )(input)
+}
+
+/// The `search` command evaluates OR before AND
+pub fn search_expr(input: &str) -> IResult<&str, ast::Expr> {
     expr9_no_whitespace(input)
 }
 
+fn expr_parenthesized<const SEARCH: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    if SEARCH {
+        parenthesized(expr9_with_whitespace).parse(input)
+    } else {
+        parenthesized(expr).parse(input)
+    }
+}
+
 //
 //   // lookup <lookup-dataset> (<lookup-field> [AS <event-field>] )...
 //   // [ (OUTPUT | OUTPUTNEW) ( <lookup-destfield> [AS <event-destfield>] )...]
-- 
2.43.0


From 2d9214297e361fc49e0cb72866b78ecce7d4ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 39/66] fix: where evaluates an expression, so that fields can
 be compared

---
 src/commands/cmd_where/spl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..78c4c55 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::parser::expr;
 use crate::spl::python::*;
 use nom::combinator::map;
 use nom::IResult;
@@ -35,7 +35,7 @@ impl SplCommand<WhereCommand> for WhereParser {
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(expr, |v| WhereCommand { expr: v })(input)
     }
 }
 
-- 
2.43.0


From 5f50630eb00fa2d8886380cae805aaba28807dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:21 +0000
Subject: [PATCH 40/66] fix: consecutive empty strings are separate strings

---
 src/spl/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index a77c9a7..766bb8f 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -37,7 +37,7 @@ use crate::commands::spl::SplCommand;
 use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
-use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
+use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of, satisfy};
 use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
@@ -456,9 +456,15 @@ fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
     alt((
+        // Doubled quotes surround a word; otherwise `"", ""` is two empty strings
         delimited(
             tag("\""),
-            recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+            recognize(tuple((
+                tag("\""),
+                peek(satisfy(|c| c.is_alphanumeric() || "_*\\".contains(c))),
+                _double_quoted_content,
+                tag("\""),
+            ))),
             tag("\""),
         ),
         delimited(tag("\""), _double_quoted_content, tag("\"")),
-- 
2.43.0


From 36a775f495cfcaa9f61b47f5072d452d8e2790cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:09 +0000
Subject: [PATCH 41/66] fix: unknown options of a command are an error

---
 src/commands/cmd_add_totals/spl.rs   |  4 +++-
 src/commands/cmd_bin/spl.rs          |  4 +++-
 src/commands/cmd_collect/spl.rs      |  4 +++-
 src/commands/cmd_convert/spl.rs      |  4 +++-
 src/commands/cmd_data_model/spl.rs   |  4 +++-
 src/commands/cmd_dedup/spl.rs        |  4 +++-
 src/commands/cmd_event_stats/spl.rs  |  4 +++-
 src/commands/cmd_format/spl.rs       |  4 +++-
 src/commands/cmd_input_lookup/spl.rs |  4 +++-
 src/commands/cmd_join/spl.rs         |  4 +++-
 src/commands/cmd_make_results/spl.rs |  4 +++-
 src/commands/cmd_map/spl.rs          |  4 +++-
 src/commands/cmd_rare/spl.rs         |  4 +++-
 src/commands/cmd_rex/spl.rs          |  4 +++-
 src/commands/cmd_stats/spl.rs        |  4 +++-
 src/commands/cmd_stream_stats/spl.rs |  4 +++-
 src/commands/cmd_t_stats/spl.rs      |  4 +++-
 src/commands/cmd_top/spl.rs          |  4 +++-
 src/commands/spl.rs                  | 16 +++++++++++++++-
 19 files changed, 69 insertions(+), 19 deletions(-)

diff --git a/src/commands/cmd_add_totals/spl.rs b/src/commands/cmd_add_totals/spl.rs
index 1be256e..785d210 100644
--- a/src/commands/cmd_add_totals/spl.rs
+++ b/src/commands/cmd_add_totals/spl.rs
@@ -55,7 +55,9 @@ pub struct AddTotalsCommandOptions {
     label: String,
 }
 
-impl SplCommandOptions for AddTotalsCommandOptions {}
+impl SplCommandOptions for AddTotalsCommandOptions {
+    const NAMES: &'static [&'static str] = &["row", "col", "fieldname", "labelfield", "label"];
+}
 
 impl TryFrom<ParsedCommandOptions> for AddTotalsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_bin/spl.rs b/src/commands/cmd_bin/spl.rs
index cd92bbe..3d032b2 100644
--- a/src/commands/cmd_bin/spl.rs
+++ b/src/commands/cmd_bin/spl.rs
@@ -51,7 +51,9 @@ pub struct BinCommandOptions {
     align_time: Option<String>,
 }
 
-impl SplCommandOptions for BinCommandOptions {}
+impl SplCommandOptions for BinCommandOptions {
+    const NAMES: &'static [&'static str] = &["span", "minspan", "bins", "start", "end", "aligntime"];
+}
 
 impl TryFrom<ParsedCommandOptions> for BinCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_collect/spl.rs b/src/commands/cmd_collect/spl.rs
index 1af0626..a8c9f8c 100644
--- a/src/commands/cmd_collect/spl.rs
+++ b/src/commands/cmd_collect/spl.rs
@@ -87,7 +87,9 @@ pub struct CollectCommandOptions {
     test_mode: bool,
 }
 
-impl SplCommandOptions for CollectCommandOptions {}
+impl SplCommandOptions for CollectCommandOptions {
+    const NAMES: &'static [&'static str] = &["index", "addtime", "file", "host", "marker", "output_format", "run_in_preview", "spool", "source", "sourcetype", "testmode"];
+}
 
 impl TryFrom<ParsedCommandOptions> for CollectCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_convert/spl.rs b/src/commands/cmd_convert/spl.rs
index f84c7d4..4e39ae6 100644
--- a/src/commands/cmd_convert/spl.rs
+++ b/src/commands/cmd_convert/spl.rs
@@ -51,7 +51,9 @@ pub struct ConvertCommandOptions {
     timeformat: String,
 }
 
-impl SplCommandOptions for ConvertCommandOptions {}
+impl SplCommandOptions for ConvertCommandOptions {
+    const NAMES: &'static [&'static str] = &["timeformat"];
+}
 
 impl TryFrom<ParsedCommandOptions> for ConvertCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_data_model/spl.rs b/src/commands/cmd_data_model/spl.rs
index 19449f7..acbfbf1 100644
--- a/src/commands/cmd_data_model/spl.rs
+++ b/src/commands/cmd_data_model/spl.rs
@@ -47,7 +47,9 @@ pub struct DataModelCommandOptions {
     summaries_only: bool,
 }
 
-impl SplCommandOptions for DataModelCommandOptions {}
+impl SplCommandOptions for DataModelCommandOptions {
+    const NAMES: &'static [&'static str] = &["strict_fields", "allow_old_summaries", "summariesonly"];
+}
 
 impl TryFrom<ParsedCommandOptions> for DataModelCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_dedup/spl.rs b/src/commands/cmd_dedup/spl.rs
index 52849ae..f80a9c3 100644
--- a/src/commands/cmd_dedup/spl.rs
+++ b/src/commands/cmd_dedup/spl.rs
@@ -76,7 +76,9 @@ pub struct DedupCommandOptions {
     consecutive: bool,
 }
 
-impl SplCommandOptions for DedupCommandOptions {}
+impl SplCommandOptions for DedupCommandOptions {
+    const NAMES: &'static [&'static str] = &["keepevents", "keepempty", "consecutive"];
+}
 
 impl TryFrom<ParsedCommandOptions> for DedupCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_event_stats/spl.rs b/src/commands/cmd_event_stats/spl.rs
index 3a44200..14079a9 100644
--- a/src/commands/cmd_event_stats/spl.rs
+++ b/src/commands/cmd_event_stats/spl.rs
@@ -36,7 +36,9 @@ pub struct EventStatsCommandOptions {
     all_num: bool,
 }
 
-impl SplCommandOptions for EventStatsCommandOptions {}
+impl SplCommandOptions for EventStatsCommandOptions {
+    const NAMES: &'static [&'static str] = &["allnum"];
+}
 
 impl TryFrom<ParsedCommandOptions> for EventStatsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_format/spl.rs b/src/commands/cmd_format/spl.rs
index cdbed9d..a49c007 100644
--- a/src/commands/cmd_format/spl.rs
+++ b/src/commands/cmd_format/spl.rs
@@ -63,7 +63,9 @@ pub struct FormatCommandOptions {
     max_results: i64,
 }
 
-impl SplCommandOptions for FormatCommandOptions {}
+impl SplCommandOptions for FormatCommandOptions {
+    const NAMES: &'static [&'static str] = &["mvsep", "maxresults"];
+}
 
 impl TryFrom<ParsedCommandOptions> for FormatCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_input_lookup/spl.rs b/src/commands/cmd_input_lookup/spl.rs
index 8e5c416..bdb3c38 100644
--- a/src/commands/cmd_input_lookup/spl.rs
+++ b/src/commands/cmd_input_lookup/spl.rs
@@ -47,7 +47,9 @@ pub struct InputLookupCommandOptions {
     max: i64,
 }
 
-impl SplCommandOptions for InputLookupCommandOptions {}
+impl SplCommandOptions for InputLookupCommandOptions {
+    const NAMES: &'static [&'static str] = &["append", "strict", "start", "max"];
+}
 
 impl TryFrom<ParsedCommandOptions> for InputLookupCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_join/spl.rs b/src/commands/cmd_join/spl.rs
index 6465ca4..ac7478b 100644
--- a/src/commands/cmd_join/spl.rs
+++ b/src/commands/cmd_join/spl.rs
@@ -58,7 +58,9 @@ pub struct JoinCommandOptions {
     max: i64,
 }
 
-impl SplCommandOptions for JoinCommandOptions {}
+impl SplCommandOptions for JoinCommandOptions {
+    const NAMES: &'static [&'static str] = &["type", "usetime", "earlier", "overwrite", "max"];
+}
 
 impl TryFrom<ParsedCommandOptions> for JoinCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_make_results/spl.rs b/src/commands/cmd_make_results/spl.rs
index 0fa3268..6b94760 100644
--- a/src/commands/cmd_make_results/spl.rs
+++ b/src/commands/cmd_make_results/spl.rs
@@ -38,7 +38,9 @@ pub struct MakeResultsCommandOptions {
     server_group: Option<String>,
 }
 
-impl SplCommandOptions for MakeResultsCommandOptions {}
+impl SplCommandOptions for MakeResultsCommandOptions {
+    const NAMES: &'static [&'static str] = &["count", "annotate", "splunk_server", "splunk_server_group"];
+}
 
 impl TryFrom<ParsedCommandOptions> for MakeResultsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_map/spl.rs b/src/commands/cmd_map/spl.rs
index 9d10480..2880433 100644
--- a/src/commands/cmd_map/spl.rs
+++ b/src/commands/cmd_map/spl.rs
@@ -33,7 +33,9 @@ pub struct MapCommandOptions {
     max_searches: i64,
 }
 
-impl SplCommandOptions for MapCommandOptions {}
+impl SplCommandOptions for MapCommandOptions {
+    const NAMES: &'static [&'static str] = &["maxsearches"];
+}
 
 impl TryFrom<ParsedCommandOptions> for MapCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..25eaaf6 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -56,7 +56,9 @@ pub struct RareCommandOptions {
     use_other: bool,
 }
 
-impl SplCommandOptions for RareCommandOptions {}
+impl SplCommandOptions for RareCommandOptions {
+    const NAMES: &'static [&'static str] = &["countfield", "limit", "otherstr", "percentfield", "showcount", "showperc", "useother"];
+}
 
 /*
 countfield
diff --git a/src/commands/cmd_rex/spl.rs b/src/commands/cmd_rex/spl.rs
index 693d23a..8e4ac36 100644
--- a/src/commands/cmd_rex/spl.rs
+++ b/src/commands/cmd_rex/spl.rs
@@ -50,7 +50,9 @@ pub struct RexCommandOptions {
     mode: Option<String>,
 }
 
-impl SplCommandOptions for RexCommandOptions {}
+impl SplCommandOptions for RexCommandOptions {
+    const NAMES: &'static [&'static str] = &["mode", "field", "max_match", "offset_field"];
+}
 
 impl TryFrom<ParsedCommandOptions> for RexCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_stats/spl.rs b/src/commands/cmd_stats/spl.rs
index 0348624..5856527 100644
--- a/src/commands/cmd_stats/spl.rs
+++ b/src/commands/cmd_stats/spl.rs
@@ -51,7 +51,9 @@ pub struct StatsCommandOptions {
     delim: String,
 }
 
-impl SplCommandOptions for StatsCommandOptions {}
+impl SplCommandOptions for StatsCommandOptions {
+    const NAMES: &'static [&'static str] = &["partitions", "allnum", "delim"];
+}
 
 impl TryFrom<ParsedCommandOptions> for StatsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_stream_stats/spl.rs b/src/commands/cmd_stream_stats/spl.rs
index 7eef5f6..ef4ae76 100644
--- a/src/commands/cmd_stream_stats/spl.rs
+++ b/src/commands/cmd_stream_stats/spl.rs
@@ -41,7 +41,9 @@ pub struct StreamStatsCommandOptions {
     window: i64,
 }
 
-impl SplCommandOptions for StreamStatsCommandOptions {}
+impl SplCommandOptions for StreamStatsCommandOptions {
+    const NAMES: &'static [&'static str] = &["current", "window"];
+}
 
 impl TryFrom<ParsedCommandOptions> for StreamStatsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..261edad 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -108,7 +108,9 @@ pub struct TStatsCommandOptions {
     fillnull_value: Option<String>,
 }
 
-impl SplCommandOptions for TStatsCommandOptions {}
+impl SplCommandOptions for TStatsCommandOptions {
+    const NAMES: &'static [&'static str] = &["prestats", "local", "append", "summariesonly", "include_reduced_buckets", "allow_old_summaries", "chunk_size", "fillnull_value"];
+}
 
 impl TryFrom<ParsedCommandOptions> for TStatsCommandOptions {
     type Error = anyhow::Error;
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..7ec4dc9 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -56,7 +56,9 @@ pub struct TopCommandOptions {
     use_other: bool,
 }
 
-impl SplCommandOptions for TopCommandOptions {}
+impl SplCommandOptions for TopCommandOptions {
+    const NAMES: &'static [&'static str] = &["countfield", "limit", "otherstr", "percentfield", "showcount", "showperc", "useother"];
+}
 
 /*
 countfield
diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index b16b9f7..4bad18e 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -1,6 +1,7 @@
 use crate::commands::CommandBase;
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
+use anyhow::ensure;
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
 use nom::character::complete::{multispace1, one_of};
@@ -9,8 +10,21 @@ use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
 pub trait SplCommandOptions: TryFrom<ParsedCommandOptions, Error = anyhow::Error> {
+    /// Names of all options of the command
+    const NAMES: &'static [&'static str] = &[];
+
     fn match_options(input: &str) -> IResult<&str, Self> {
-        unwrapped(map(command_options, |opts| Self::try_from(opts.into()))).parse(input)
+        unwrapped(map(command_options, |opts| {
+            for option in opts.options.iter() {
+                ensure!(
+                    Self::NAMES.contains(&option.field.as_str()),
+                    "Unknown option: {}",
+                    option.field
+                );
+            }
+            Self::try_from(opts.into())
+        }))
+        .parse(input)
     }
 }
 
-- 
2.43.0


From 2f13ee0195158b1ded82c597cd1812fe7da8ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:48 +0000
Subject: [PATCH 42/66] fix: an unknown command after a pipe is an error, not a
 search for its name

---
 src/commands/cmd_search/spl.rs | 17 +++++++------
 src/spl/parser.rs              | 46 +++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/commands/cmd_search/spl.rs b/src/commands/cmd_search/spl.rs
index fd3fd24..a9c56c7 100644
--- a/src/commands/cmd_search/spl.rs
+++ b/src/commands/cmd_search/spl.rs
@@ -38,6 +38,15 @@ impl TryFrom<ParsedCommandOptions> for SearchCommandOptions {
     }
 }
 
+impl SearchParser {
+    pub fn match_keyword(input: &str) -> IResult<&str, ()> {
+        map(
+            tuple((tag_no_case("search"), alt((multispace1, eof)))),
+            |_| (),
+        )(input)
+    }
+}
+
 impl SplCommand<SearchCommand> for SearchParser {
     type RootCommand = crate::commands::SearchCommandRoot;
     type Options = SearchCommandOptions;
@@ -51,13 +60,7 @@ impl SplCommand<SearchCommand> for SearchParser {
     }
 
     fn match_name(input: &str) -> IResult<&str, ()> {
-        alt((
-            map(
-                tuple((tag_no_case("search"), alt((multispace1, eof)))),
-                |_| (),
-            ),
-            map(multispace0, |_| ()),
-        ))(input)
+        alt((Self::match_keyword, map(multispace0, |_| ())))(input)
     }
 }
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 766bb8f..f156999 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of, satisfy};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, peek, success, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -53,6 +53,7 @@ use nom::{
 };
 use paste::paste;
 use std::fmt::Debug;
+use std::iter::once;
 use std::net::Ipv6Addr;
 
 // https://github.com/rust-bakery/nom/blob/main/doc/nom_recipes.md#wrapper-combinators-that-eat-whitespace-before-and-after-a-parser
@@ -1258,7 +1259,7 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | multiSearch
 //     | _map
 //     | impliedSearch)
-pub fn command(input: &str) -> IResult<&str, ast::Command> {
+fn explicit_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1299,31 +1300,46 @@ pub fn command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        into(SearchParser::parse),
+        into(preceded(
+            peek(SearchParser::match_keyword),
+            SearchParser::parse,
+        )),
+    ))(input)
+}
+
+/// The first command of a pipeline, which may leave out the `search` keyword
+pub fn command(input: &str) -> IResult<&str, ast::Command> {
+    alt((explicit_command, into(SearchParser::parse)))(input)
+}
+
+/// An unknown command after a pipe is not a search for its name
+fn commands(input: &str) -> IResult<&str, Vec<ast::Command>> {
+    alt((
+        preceded(
+            ws(tag("|")),
+            separated_list1(ws(tag("|")), explicit_command),
+        ),
+        map(
+            pair(command, many0(preceded(ws(tag("|")), explicit_command))),
+            |(first, rest)| once(first).chain(rest).collect(),
+        ),
+        success(vec![]),
     ))(input)
 }
 //
 //   def subSearch[_: P]: P[Pipeline] = "[" ~ (command rep(sep = "|")) ~ "]" map Pipeline
 pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
-        delimited(
-            ws(tag("[")),
-            preceded(opt(ws(tag("|"))), separated_list0(ws(tag("|")), command)),
-            ws(tag("]")),
-        ),
+        delimited(ws(tag("[")), commands, ws(tag("]"))),
         |commands| ast::Pipeline { commands },
     )(input)
 }
 
 //   def pipeline[_: P]: P[Pipeline] = (command rep(sep = "|")) ~ End map Pipeline
 pub fn pipeline(input: &str) -> IResult<&str, ast::Pipeline> {
-    map(
-        preceded(
-            opt(ws(tag("|"))),
-            all_consuming(ws(separated_list0(ws(tag("|")), command))),
-        ),
-        |commands| ast::Pipeline { commands },
-    )(input)
+    map(all_consuming(ws(commands)), |commands| ast::Pipeline {
+        commands,
+    })(input)
 }
 
 // <expression>
-- 
2.43.0


From d34f230106ac9be91abca2257fe9a06501e56634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 43/66] fix: runtime functions return values that other
 functions accept

---
 python/spl_transpiler/runtime/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..9e2d004 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -4,9 +4,7 @@ from typing import Any
 from pydantic import validate_call, ConfigDict, BaseModel, model_validator
 import pyspark.sql.functions as F
 
-enforce_types = validate_call(
-    config=ConfigDict(arbitrary_types_allowed=True), validate_return=True
-)
+enforce_types = validate_call(config=ConfigDict(arbitrary_types_allowed=True))
 
 
 class ExprKind(str, enum.Enum):
-- 
2.43.0


From 522368e5f2b930326c8316e3b6d2e72229ba324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 44/66] fix: the runtime's bit_and() and case() return their
 result

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index e35017e..5868b7e 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -17,7 +17,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +102,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
-- 
2.43.0


From 9e62140e3951bdfa52d55746b64d84466220081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 45/66] fix: the runtime passes columns to its user-defined
 functions

---
 .../spl_transpiler/runtime/functions/eval.py   | 18 ++++++++++++------
 python/spl_transpiler/runtime/udfs/__init__.py |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 5868b7e..dfc105b 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -114,8 +114,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
@@ -285,8 +285,10 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
+    if not args:
+        return udfs.printf(format_str.to_pyspark_expr())
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), F.struct(*(arg.to_pyspark_expr() for arg in args))
     )
 
 
@@ -299,7 +301,9 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -310,8 +314,10 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    if format is None:
+        return value.to_pyspark_expr().cast("string")
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..849f38f 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -36,7 +36,7 @@ def ipmask(mask, ip):
 
 
 @udf(returnType=StringType())
-def printf(format_str, args):
+def printf(format_str, args=()):
     return format_str % args
 
 
-- 
2.43.0


From f840dbbfaed74184cacfe4c0cbe82f0ce082f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 46/66] fix: the runtime's variadic functions combine all of
 their arguments

---
 .../spl_transpiler/runtime/functions/eval.py  | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index dfc105b..d43416b 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,3 +1,4 @@
+import operator
 import warnings
 from functools import reduce
 
@@ -156,8 +157,8 @@ def if_(condition: Expr, true_value: Expr, false_value: Expr) -> Expr:
 
 
 @enforce_types
-def in_(field: Expr, values: list) -> Expr:
-    return field.to_pyspark_expr().isin(values)
+def in_(field: Expr, *values: Expr) -> Expr:
+    return field.to_pyspark_expr().isin(*(v.to_pyspark_expr() for v in values))
 
 
 #         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
@@ -249,7 +250,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -769,7 +770,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return reduce(operator.add, (n.to_pyspark_expr() for n in nums))
 
 
 #
@@ -792,7 +793,7 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
@@ -978,7 +979,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return sum_(*args) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -999,9 +1000,8 @@ def avg(*args: Expr) -> Expr:
 @enforce_types
 def max_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
+        F.greatest,
+        (a.to_pyspark_expr() for a in args),
     )
 
 
@@ -1023,9 +1023,8 @@ def max_(*args: Expr) -> Expr:
 @enforce_types
 def min_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
+        F.least,
+        (a.to_pyspark_expr() for a in args),
     )
 
 
-- 
2.43.0


From aa2bd5bfb67da1b890ea1f1f6517cd4747b45145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 47/66] fix: the runtime converts the arguments of mvzip() and
 strptime() to columns

---
 python/spl_transpiler/runtime/functions/eval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index d43416b..1e055d1 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -434,10 +434,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
@@ -933,7 +933,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
-- 
2.43.0


From 21072c34516f70febffbbdb8a375f42a8c4db9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 48/66] fix: the runtime's log() passes the base first, and
 ceil() exists

---
 python/spl_transpiler/runtime/functions/eval.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 1e055d1..4c15e96 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -667,6 +667,9 @@ def ceiling(num: Expr) -> Expr:
     return F.ceil(num.to_pyspark_expr())
 
 
+ceil = ceiling
+
+
 #         // exact(<expression>)                                 	 Returns the result of a numeric eval calculation with a larger amount of precision in the formatted output.
 #         "exact" => function_transform!(exact [args] (x) {
 #             warn!("`exact()` is meaningless in Spark since significant figures are not tracked, use proper precision for your expression inputs instead");
@@ -714,8 +717,8 @@ def ln(num: Expr) -> Expr:
 
 
 @enforce_types
-def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+def log(num: Expr, base: float = 10) -> Expr:
+    return F.log(base, num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
-- 
2.43.0


From 6c1e7d1d4d6ebb9cb8ee3f722627e3039afa0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 49/66] fix: runtime time offsets name their unit

---
 python/spl_transpiler/runtime/functions/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 26272cc..847a8e2 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -10,7 +10,7 @@ from pyspark.sql import functions as F
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
     return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
+        f"INTERVAL {offset.value} {offset.scale.value.upper()}"
     )
 
 
-- 
2.43.0


From 63a745ffecafca3d06804e3afee8050fe8ddb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:16 +0000
Subject: [PATCH 50/66] fix: runtime stats functions count(x), dc(x) and
 stdevp(x) match their standalone translation

---
 .../spl_transpiler/runtime/functions/stats.py | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index 688acb1..991b718 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -41,14 +41,17 @@ def avg(value: Expr) -> AvgStatsFn:
 #         }),
 class CountStatsFn(StatsFunction):
     name: Literal["count"] = "count"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
-        return F.count(F.lit(1))
+        if self.value is None:
+            return F.count(F.lit(1))
+        return F.count(self.value.to_pyspark_expr())
 
 
 @enforce_types
-def count() -> CountStatsFn:
-    return CountStatsFn()
+def count(value: Expr | None = None) -> CountStatsFn:
+    return CountStatsFn(value=value)
 
 
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
@@ -63,7 +66,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
@@ -298,6 +301,19 @@ def stddev(value: Expr) -> StddevStatsFn:
     return StddevStatsFn(value=value)
 
 
+class StdevpStatsFn(StatsFunction):
+    name: Literal["stdevp"] = "stdevp"
+    value: Expr
+
+    def to_pyspark_expr_simple(self):
+        return F.stddev_pop(self.value.to_pyspark_expr())
+
+
+@enforce_types
+def stdevp(value: Expr) -> StdevpStatsFn:
+    return StdevpStatsFn(value=value)
+
+
 #         // sum(<value>)                         	 Returns the sum of the values in the field specified.
 #         "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
 
-- 
2.43.0


From 77c138045d0c37440616704729fa9f2ddee3e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:42 +0000
Subject: [PATCH 51/66] fix: stats with the runtime passes the percentile of
 percentile functions as an argument

---
 src/commands/cmd_stats/pyspark.rs | 32 +------------------------------
 src/commands/stats_utils.rs       | 18 ++++++++++++++---
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..1c7b2fa 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,40 +1,10 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use crate::spl::ast;
-use anyhow::bail;
 use anyhow::Result;
 use log::warn;
 
-fn transform_stats_runtime_expr(
-    expr: &ast::Expr,
-    ctx: &PysparkTranspileContext,
-) -> Result<(String, RuntimeExpr)> {
-    let (e, maybe_name) = expr.clone().unaliased_with_name();
-    let (name, args) = match e {
-        ast::Expr::Call(ast::Call { name, args }) => (name.to_string(), args),
-        _ => bail!(
-            "All `stats` aggregations must be function calls, got {:?}",
-            expr
-        ),
-    };
-    let alias = maybe_name.unwrap_or(name.clone());
-    let args: Result<Vec<Expr>> = args
-        .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
-        .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
-    Ok((alias, RuntimeExpr::from(expr)))
-}
-
 impl PipelineTransformer for StatsCommand {
     fn transform_for_runtime(
         &self,
@@ -67,7 +37,7 @@ impl PipelineTransformer for StatsCommand {
         }
 
         for e in self.funcs.iter() {
-            let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+            let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
             all_kwargs.push(name, e);
         }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..8c98e36 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -59,18 +59,30 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args: anyhow::Result<Vec<Expr>> = args
+    let mut args: Vec<Expr> = args
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
-        .collect();
+        .collect::<anyhow::Result<_>>()?;
+    let (name, percentile) = split_percentile(&name);
+    if let Some(percentile) = percentile {
+        args.push(PyLiteral::from(percentile).into());
+    }
     let expr: Expr = FunctionCall {
         func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
+        args,
     }
     .into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
+/// The percentile is part of the name of SPL's percentile functions, but an argument of the runtime's
+fn split_percentile(name: &str) -> (&str, Option<i64>) {
+    ["exactperc", "percentile", "upperperc"]
+        .into_iter()
+        .find_map(|func| Some((func, Some(name.strip_prefix(func)?.parse().ok()?))))
+        .unwrap_or((name, None))
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct MaybeSpannedField {
-- 
2.43.0


From cf458cc6efeabe5de6af92cce5a9c47d52aa8d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:10 +0000
Subject: [PATCH 52/66] fix: stats aggregations named like a runtime parameter
 or twice are rejected with the runtime

---
 src/commands/cmd_stats/pyspark.rs   |  2 +-
 src/commands/cmd_t_stats/pyspark.rs |  3 ++-
 src/commands/stats_utils.rs         | 17 +++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 1c7b2fa..bacba8b 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -38,7 +38,7 @@ impl PipelineTransformer for StatsCommand {
 
         for e in self.funcs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
-            all_kwargs.push(name, e);
+            stats_utils::push_aggregation(&mut all_kwargs, name, e, &["by"])?;
         }
 
         let df = DataFrame::runtime(state.df.clone(), "stats", vec![], all_kwargs.0, &state.ctx);
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 166fcbe..842ab93 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -89,7 +89,8 @@ impl PipelineTransformer for TStatsCommand {
 
         for e in self.exprs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
-            all_kwargs.push(name, e);
+            let parameters = ["df", "fill_null_value", "from_", "where", "by"];
+            stats_utils::push_aggregation(&mut all_kwargs, name, e, &parameters)?;
         }
 
         let df = DataFrame::runtime(state.df.clone(), "tstats", vec![], all_kwargs.0, &state.ctx);
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 8c98e36..59dbb87 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -75,6 +75,23 @@ pub fn transform_stats_runtime_expr(
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
+/// The runtime takes each aggregation as a keyword argument next to the parameters of the command
+pub fn push_aggregation(
+    kwargs: &mut PyDict,
+    name: String,
+    aggregation: RuntimeExpr,
+    parameters: &[&str],
+) -> anyhow::Result<()> {
+    if parameters.contains(&name.as_str()) || kwargs.0.iter().any(|(other, _)| *other == name) {
+        bail!(
+            "UNIMPLEMENTED: The runtime has no separate column for `{}`",
+            name
+        )
+    }
+    kwargs.push(name, aggregation);
+    Ok(())
+}
+
 /// The percentile is part of the name of SPL's percentile functions, but an argument of the runtime's
 fn split_percentile(name: &str) -> (&str, Option<i64>) {
     ["exactperc", "percentile", "upperperc"]
-- 
2.43.0


From d9ef1df35187bd3ca256dcf0bf8d5714bd2cee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:37 +0000
Subject: [PATCH 53/66] fix: eval functions with the runtime get their literal
 arguments as plain values

---
 src/functions/eval_fns.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index af9db74..07b5358 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -192,6 +192,12 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 args: vec![PyLiteral::from(cidr).into(), col]
             }
         }),
+        "memk" | "rmunit" | "rmcomma" | "relative_time" => {
+            bail!(
+                "UNIMPLEMENTED: No runtime implementation of function: {}",
+                name
+            )
+        }
         name => {
             // warn!(
             //     "Unknown eval function encountered, returning as is: {}",
@@ -207,12 +213,41 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 name => name,
             };
             let func = format!("functions.eval.{}", name);
-            let args: Result<Vec<Expr>> = map_args(args);
+            let args: Vec<Expr> = map_args(args)?;
+            let args: Result<Vec<Expr>> = args
+                .into_iter()
+                .enumerate()
+                .map(|(i, arg)| match (arg, plain_runtime_arguments(name)) {
+                    (Expr::Column(ColumnLike::Literal { code }), Some(first)) if i >= first => {
+                        Ok(PyLiteral(code).into())
+                    }
+                    (arg, Some(first)) if i >= first => {
+                        bail!(
+                            "Argument {} of `{}` must be a literal, got {:?}",
+                            i + 1,
+                            name,
+                            arg
+                        )
+                    }
+                    (arg, _) => Ok(arg),
+                })
+                .collect();
             Ok(ColumnLike::FunctionCall { func, args: args? })
         }
     }
 }
 
+/// Index of the first argument which a runtime function takes as a plain value instead of a column
+fn plain_runtime_arguments(name: &str) -> Option<usize> {
+    match name {
+        "bit_shift_left" | "bit_shift_right" | "log" | "ltrim" | "mvindex" | "mvjoin"
+        | "replace" | "round" | "rtrim" | "split" | "strftime" | "strptime" | "substr"
+        | "tonumber" | "tostring" | "trim" => Some(1),
+        "mvzip" => Some(2),
+        _ => None,
+    }
+}
+
 fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
-- 
2.43.0


From 1958d5987ca9249c8b97b2f914ede08fde75e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:19 +0000
Subject: [PATCH 54/66] fix: trim functions with the runtime accept the
 characters as a column

---
 python/spl_transpiler/runtime/functions/eval.py | 12 ++++++------
 src/functions/eval_fns.rs                       |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 4c15e96..17ce25b 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1069,8 +1069,8 @@ def lower(x: Expr):
 
 
 @enforce_types
-def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+def ltrim(x: Expr, chars: Expr) -> Expr:
+    return F.ltrim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1093,8 +1093,8 @@ def replace(input: Expr, regex: str, replacement: str):
 
 
 @enforce_types
-def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+def rtrim(x: Expr, chars: Expr) -> Expr:
+    return F.rtrim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1124,8 +1124,8 @@ def substr(column: Expr, start: int, length: int):
 
 
 @enforce_types
-def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+def trim(x: Expr, chars: Expr) -> Expr:
+    return F.trim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 07b5358..0a5bcb8 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -240,9 +240,10 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
 /// Index of the first argument which a runtime function takes as a plain value instead of a column
 fn plain_runtime_arguments(name: &str) -> Option<usize> {
     match name {
-        "bit_shift_left" | "bit_shift_right" | "log" | "ltrim" | "mvindex" | "mvjoin"
-        | "replace" | "round" | "rtrim" | "split" | "strftime" | "strptime" | "substr"
-        | "tonumber" | "tostring" | "trim" => Some(1),
+        "bit_shift_left" | "bit_shift_right" | "log" | "mvindex" | "mvjoin" | "replace"
+        | "round" | "split" | "strftime" | "strptime" | "substr" | "tonumber" | "tostring" => {
+            Some(1)
+        }
         "mvzip" => Some(2),
         _ => None,
     }
-- 
2.43.0


From 6648705e7c6ad2a798f0a8240e708acf144e8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:38 +0000
Subject: [PATCH 55/66] fix: the runtime's mvindex() counts negative indices
 from the end

---
 python/spl_transpiler/runtime/functions/eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 17ce25b..77e6350 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -858,6 +858,8 @@ def mvfind(column: Expr, regex: Expr) -> Expr:
 
 @enforce_types
 def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
+    if end is None and start < 0:
+        return F.element_at(column.to_pyspark_expr(), start)
     if end is None:
         return F.get(column.to_pyspark_expr(), start)
     else:
-- 
2.43.0


From 2380d1b41cde46aa6ff7c7042f84d0a4a353d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:45 +0000
Subject: [PATCH 56/66] fix: searched fields named like a runtime parameter are
 compared, not passed as that parameter

---
 src/commands/cmd_search/pyspark.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index a41f55b..a463101 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -6,6 +6,16 @@ use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use std::collections::HashSet;
 
+/// Names of the runtime's parameters that are not fields of the same name
+const RUNTIME_PARAMETERS: [&str; 6] = [
+    "df",
+    "source_type",
+    "host_tag",
+    "event_type",
+    "event_type_tag",
+    "saved_splunk",
+];
+
 fn _is_index(expr: &ast::Expr) -> bool {
     matches!(
         expr,
@@ -204,6 +214,7 @@ impl PipelineTransformer for SearchCommand {
                             ))),
                             "=" | "==",
                         ) if !_is_pattern(&right)
+                            && !RUNTIME_PARAMETERS.contains(&name.as_str())
                             && !kwargs.iter().any(|(key, _)| *key == name) =>
                         {
                             kwargs.push((
-- 
2.43.0


From c2e21eb36da4c311f32441cf66ecbd03774e3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:04 +0000
Subject: [PATCH 57/66] fix: a first search with the runtime reads the main
 index unless it names another

---
 python/spl_transpiler/runtime/commands/search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/spl_transpiler/runtime/commands/search.py b/python/spl_transpiler/runtime/commands/search.py
index ee4bcca..9251572 100644
--- a/python/spl_transpiler/runtime/commands/search.py
+++ b/python/spl_transpiler/runtime/commands/search.py
@@ -22,6 +22,8 @@ def search(
     **field_exprs: Expr,
 ) -> DataFrame:
     if df is None:
+        if index is None and source is None and source_type is None:
+            index = "main"
         df = settings().table_lookup_function(
             index=index,
             source=source,
-- 
2.43.0


From 631e03a6fc1927cfd4a5a23713f69ab5ceae32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:52 +0000
Subject: [PATCH 58/66] fix: stats commands without the runtime do not
 aggregate with the runtime's functions

---
 src/functions/stat_fns.rs | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index c72e517..72854ce 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -76,34 +76,12 @@ pub fn stats_fn(
     };
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    // The runtime's aggregations are not columns, only its own commands can use them
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
-    args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
-    let func = format!("functions.stats.{}", name);
-    let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
-    // }
-    // }
-}
-
 fn stats_fn_bare(
     name: String,
     args: Vec<ContextualizedExpr<ast::Expr>>,
-- 
2.43.0


From e98eaa0d25ebdf35c13536dca2c53b694fe6f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:30 +0000
Subject: [PATCH 59/66] fix: runtime earliest_time and latest_time take the
 field they are called with

---
 python/spl_transpiler/runtime/functions/stats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index 991b718..6aa09fb 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -517,14 +517,15 @@ def earliest(value: Expr) -> EarliestStatsFn:
 
 class EarliestTimeStatsFn(StatsFunction):
     name: Literal["earliest_time"] = "earliest_time"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
         return F.min(F.col("_time"))
 
 
 @enforce_types
-def earliest_time() -> EarliestTimeStatsFn:
-    return EarliestTimeStatsFn()
+def earliest_time(value: Expr | None = None) -> EarliestTimeStatsFn:
+    return EarliestTimeStatsFn(value=value)
 
 
 #         // latest(<value>)                      	 Returns the chronologically latest (most recent) seen occurrence of a value in a field.
@@ -556,14 +557,15 @@ def latest(value: Expr) -> LatestStatsFn:
 
 class LatestTimeStatsFn(StatsFunction):
     name: Literal["latest_time"] = "latest_time"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
         return F.max(F.col("_time"))
 
 
 @enforce_types
-def latest_time() -> LatestTimeStatsFn:
-    return LatestTimeStatsFn()
+def latest_time(value: Expr | None = None) -> LatestTimeStatsFn:
+    return LatestTimeStatsFn(value=value)
 
 
 #         // per_day(<value>)                     	 Returns the values in a field or eval expression for each day.
-- 
2.43.0


From 539019a85d9f2ba72e0739f4646d2ceeb3afc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:26 +0000
Subject: [PATCH 60/66] fix: runtime converts or rejects the time variables
 that the transpiler does

---
 python/spl_transpiler/runtime/functions/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 847a8e2..66efe1d 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -111,6 +111,9 @@ CONVERSIONS = {
     "%k": "H",
     "%M": "mm",
     "%N": "SSS",
+    "%3N": "SSS",
+    "%6N": "SSSSSS",
+    "%9N": "SSSSSSSSS",
     "%p": "a",
     "%Q": "SSS",
     "%3Q": "SSS",
@@ -132,8 +135,8 @@ CONVERSIONS = {
     "%d": "dd",
     "%e": "d",
     "%j": "DDD",
-    # "%V": "w",
-    # "%U": "w",
+    "%V": None,
+    "%U": None,
     "%w": None,
     "%b": "MMM",
     "%B": "MMMM",
-- 
2.43.0


From c3ae888f466445bc13282991af477cfa6b1e089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:35 +0000
Subject: [PATCH 61/66] fix: the runtime's ipmask() masks with addresses, not
 with prefix lengths

---
 python/spl_transpiler/runtime/udfs/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 849f38f..3c9be61 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -22,14 +22,11 @@ def cidr_match(ip_address, cidr_range):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
+        mask_int = int(ipaddress.IPv4Address(mask))
+        ip_int = int(ipaddress.IPv4Address(ip))
 
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        # Keep the bits of the address that the mask selects
+        return str(ipaddress.IPv4Address(ip_int & mask_int))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
-- 
2.43.0


From 02d81602ffe71bb65f6872b59b57c7c886e84bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:17 +0000
Subject: [PATCH 62/66] fix: the runtime's tostring() writes null, hexadecimal
 and decimal numbers as SPL does

---
 python/spl_transpiler/runtime/udfs/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 3c9be61..47af48a 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -49,6 +49,8 @@ def tonumber(value, base=10):
 def tostring(value, format: str | None = None):
     # "binary", "hex", "commas", "duration"
     match (value, format):
+        case (None, _):
+            return None
         case (bool(), None):
             return "True" if value else "False"
         case (int() | float(), None):
@@ -56,9 +58,11 @@ def tostring(value, format: str | None = None):
         case (int(), "binary"):
             return bin(value)[2:]
         case (int(), "hex"):
-            return hex(value)[2:]
-        case (int() | float(), "commas"):
-            return "{:,}".format(value)
+            return f"0x{value:X}"
+        case (int(), "commas"):
+            return f"{value:,}"
+        case (float(), "commas"):
+            return f"{value:,.2f}"
         case (int(), "duration"):
             hours, remainder = divmod(value, 3600)
             minutes, seconds = divmod(remainder, 60)
-- 
2.43.0


From 76c7673035be69efb8d52660bb156d131e2bd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 63/66] fix: macro arguments are substituted as plain text, all
 at once

---
 python/spl_transpiler/macros.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..392c5dd 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -112,10 +112,11 @@ def substitute_macros(code, macros: MacroLoader):
                     f"Mixture of named and positional arguments in macro call {macro_name}"
                 )
 
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
-                )
+            # Arguments are text, neither patterns nor to be searched for other arguments
+            arg_names = "|".join(re.escape(arg_name) for arg_name in args)
+            macro_final_value = re.sub(
+                rf"\$({arg_names})\$", lambda arg: args[arg[1]], macro_final_value
+            )
 
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
-- 
2.43.0


From 8fe6aceef47305e9bd72e40fbdfb396ee69d0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 64/66] fix: macro calls that lack arguments or name unknown
 ones are errors

---
 python/spl_transpiler/macros.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 392c5dd..cf0c993 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -94,24 +94,24 @@ def substitute_macros(code, macros: MacroLoader):
 
         macro_final_value = macro_spec.definition
 
-        if args:
-            if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(zip(macro_spec.arguments, [value for _, value in args]))
-            elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(args)
-            else:
+        if all(name is None for name, _ in args):
+            if len(macro_spec.arguments) != len(args):
+                raise ValueError(
+                    f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+                )
+            args = dict(zip(macro_spec.arguments, [value for _, value in args]))
+        elif all(name is not None for name, _ in args):
+            if sorted(macro_spec.arguments) != sorted(name for name, _ in args):
                 raise ValueError(
-                    f"Mixture of named and positional arguments in macro call {macro_name}"
+                    f"Mismatched arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {args}"
                 )
+            args = dict(args)
+        else:
+            raise ValueError(
+                f"Mixture of named and positional arguments in macro call {macro_name}"
+            )
 
+        if args:
             # Arguments are text, neither patterns nor to be searched for other arguments
             arg_names = "|".join(re.escape(arg_name) for arg_name in args)
             macro_final_value = re.sub(
-- 
2.43.0


From 946374962354a9cb724539407eb447b01873a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:46 +0000
Subject: [PATCH 65/66] fix: offer every class of the syntax tree in the Python
 ast module

---
 src/commands/mod.rs |  2 +-
 src/spl/python.rs   | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/commands/mod.rs b/src/commands/mod.rs
index f1dc20b..719ad9f 100644
--- a/src/commands/mod.rs
+++ b/src/commands/mod.rs
@@ -150,7 +150,7 @@ xpath            	 Redefines the XML path.
 xyseries         	 Converts results into a format suitable for graphing.
  */
 pub mod spl;
-mod stats_utils;
+pub(crate) mod stats_utils;
 
 use const_str::replace;
 use paste::paste;
diff --git a/src/spl/python.rs b/src/spl/python.rs
index d3767f6..bb80fde 100644
--- a/src/spl/python.rs
+++ b/src/spl/python.rs
@@ -160,6 +160,9 @@ pub fn ast(m: &Bound<'_, PyModule>) -> PyResult<()> {
     m.add_class::<ast::Call>()?;
     m.add_class::<ast::FieldIn>()?;
     m.add_class::<ast::Alias>()?;
+    m.add_class::<ast::TimeModifier>()?;
+    m.add_class::<ast::FormattedTimeModifier>()?;
+    m.add_class::<ast::SearchModifier>()?;
 
     m.add_class::<crate::commands::cmd_search::spl::SearchCommand>()?;
     m.add_class::<crate::commands::cmd_eval::spl::EvalCommand>()?;
@@ -192,6 +195,13 @@ pub fn ast(m: &Bound<'_, PyModule>) -> PyResult<()> {
     m.add_class::<crate::commands::cmd_bin::spl::BinCommand>()?;
     m.add_class::<crate::commands::cmd_multi_search::spl::MultiSearchCommand>()?;
     m.add_class::<crate::commands::cmd_map::spl::MapCommand>()?;
+    m.add_class::<crate::commands::cmd_data_model::spl::DataModelCommand>()?;
+    m.add_class::<crate::commands::cmd_rare::spl::RareCommand>()?;
+    m.add_class::<crate::commands::cmd_s_path::spl::SPathCommand>()?;
+    m.add_class::<crate::commands::cmd_t_stats::spl::TStatsCommand>()?;
+    m.add_class::<crate::commands::cmd_tail::spl::TailCommand>()?;
+    m.add_class::<crate::commands::cmd_top::spl::TopCommand>()?;
+    m.add_class::<crate::commands::stats_utils::MaybeSpannedField>()?;
     m.add_class::<ast::Pipeline>()?;
 
     m.add_class::<ast::Constant>()?;
-- 
2.43.0


From 99e6fa5db469c6483b34e51be1b6aa676423e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:05 +0000
Subject: [PATCH 66/66] fix: make the parts of time modifiers and spanned BY
 fields readable from Python

---
 src/commands/stats_utils.rs | 2 ++
 src/spl/ast.rs              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 59dbb87..d608090 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -103,7 +103,9 @@ fn split_percentile(name: &str) -> (&str, Option<i64>) {
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct MaybeSpannedField {
+    #[pyo3(get)]
     pub field: Field,
+    #[pyo3(get)]
     pub span: Option<TimeSpan>,
 }
 
diff --git a/src/spl/ast.rs b/src/spl/ast.rs
index fe5ee92..afeb1c7 100644
--- a/src/spl/ast.rs
+++ b/src/spl/ast.rs
@@ -533,7 +533,9 @@ pub enum TimeModifier {
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct FormattedTimeModifier {
+    #[pyo3(get)]
     pub format: String,
+    #[pyo3(get)]
     pub time_modifier: TimeModifier,
 }
 
-- 
2.43.0

