From 975557f1f151bb8e8ef22f9dfbe741bdc9879bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 1/6] fix: F1 is 0, not NaN, for queries without relevant
 documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From 15d39f2f1d442319c97b969f4a780dc0db2bb2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 2/6] fix: bpref is not NaN when every judged document is
 relevant

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..3cbe11c 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // With no non-relevant document above, nothing is subtracted
+                // (and the denominator may be zero).
+                bpref += if n_non_rels_so_far == 0.0 {
+                    1.0
+                } else {
+                    1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels)
+                };
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From 2376fedb1d51b66383bd853d5eb016bff6fdbb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 3/6] fix: Burges' gain of judgements above i32::MAX is not
 negative

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..a553035 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powi(i32::try_from(rel).unwrap_or(i32::MAX)) - 1.0,
     }
 }
 
-- 
2.43.0


From b4e327972cc45f3f69fa54e1cd88ab0990af5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 4/6] fix: tuples_from_maps reports an empty list of maps
 instead of panicking

---
 src/statistical_tests.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..fcda164 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -82,13 +82,18 @@ where
 ///
 /// # Errors
 ///
-/// * [`ElinorError::InvalidArgument`] if maps have different sets of keys.
+/// * [`ElinorError::InvalidArgument`] if no map is given or maps have different sets of keys.
 pub fn tuples_from_maps<'a, I, K>(maps: I) -> Result<Vec<Vec<f64>>>
 where
     I: IntoIterator<Item = &'a BTreeMap<K, f64>>,
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Err(ElinorError::InvalidArgument(
+            "The input must have at least one map.".to_string(),
+        ));
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From de9cf793fc148ef42da3dc2b324f0fc31398db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 5/6] fix: elinor-convert reports a failed write instead of
 dropping it

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 114994d3d38d3f232cb0d59cd63e1774707cc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 6/6] fix: elinor-compare reads topic ids as strings, so that 1
 and 01 are not merged

---
 elinor-cli/src/bin/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..12ba84e 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,6 +70,8 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Topic ids are strings: "1" and "01" are different topics.
+            .with_dtype_overwrite(Some(Arc::new(vec![DataType::String])))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
         dfs.push(df);
-- 
2.43.0

