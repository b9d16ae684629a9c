From 00e8418f64f575eed9ab486a6aebee49d7de5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 01/18] fix: apply the intents filter in every branch of the
 log reg intent classifier

With a single known intent, an empty input or no fitted model, the classifier
returned intents which are not in the whitelist it was given.
---
 .../log_reg_intent_classifier.rs              | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..cd9f0d9 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,11 +103,25 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        let is_allowed = |res: &IntentClassifierResult| {
+            if let Some(intent) = res.intent_name.as_ref() {
+                opt_intents_set
+                    .as_ref()
+                    .map(|intents| intents.contains(&**intent))
+                    .unwrap_or(true)
+            } else {
+                true
+            }
+        };
+
         if self.intent_list.len() <= 1 {
-            return Ok(vec![IntentClassifierResult {
+            let result = IntentClassifierResult {
                 intent_name: self.intent_list.first().cloned().unwrap_or(None),
                 confidence_score: 1.0,
-            }]);
+            };
+            return Ok(Some(result).into_iter().filter(is_allowed).collect());
         }
 
         if input.is_empty() || self.featurizer.is_none() || self.logreg.is_none() {
@@ -118,13 +132,11 @@ impl LogRegIntentClassifier {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
                 })
+                .filter(is_allowed)
                 .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -139,16 +151,7 @@ impl LogRegIntentClassifier {
                 intent_name: intent_name.clone(),
                 confidence_score: *score,
             })
-            .filter(|res| {
-                if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
-                } else {
-                    true
-                }
-            })
+            .filter(is_allowed)
             .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
             .collect())
     }
-- 
2.43.0


From 58d935ec76659de77ab7a6af28863f6f64d32b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 02/18] fix: never list the intent of the top result among the
 alternatives

---
 src/nlu_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..047c6f5 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -199,9 +199,12 @@ impl SnipsNluEngine {
             return Ok(parsing_result);
         }
 
+        let top_intent_name = parsing_result.intent.intent_name.clone();
         let alternative_results: Vec<IntentParserAlternative> = self
             .get_intents(input)?
             .into_iter()
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != top_intent_name)
             .filter(|res| {
                 res.intent_name
                     .as_ref()
@@ -212,7 +215,6 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From 44ef3120a425a7c367e55ab33ed5866cd73eb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 03/18] fix: take the raw value of an extracted custom slot
 from the input text

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 047c6f5..c645ddb 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -456,7 +456,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 8e11474f982e11ebf79480c176538da609d3c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 04/18] fix: positions of replaced entities overflow in texts
 longer than 32767 characters

---
 src/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..9d7942b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -142,17 +142,18 @@ where
 
     let mut range_mapping: HashMap<Range<usize>, Range<usize>> = HashMap::new();
     let mut processed_text = "".to_string();
-    let mut offset = 0;
+    let mut offset: isize = 0;
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset +=
+            entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From bc084261a596ab58ee9efdd0e8f3365ad52aa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 05/18] fix: update every gazetteer parser before an injection
 writes any of them

---
 src/injection/injection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..a3b11e9 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -136,6 +136,8 @@ impl<P: AsRef<Path>> NluInjector<P> {
             })
             .collect::<Result<HashMap<_, _>, NluInjectionError>>()?;
 
+        // Update all the parsers in memory first, so that nothing is written when one of them fails
+        let mut updated_parsers = Vec::with_capacity(normalized_entity_values.len());
         for (entity, new_entity_values) in normalized_entity_values {
             info!("Injecting values for entity '{}'", entity);
 
@@ -151,6 +153,10 @@ impl<P: AsRef<Path>> NluInjector<P> {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
 
+            updated_parsers.push((parser_dir, gazetteer_parser));
+        }
+
+        for (parser_dir, gazetteer_parser) in updated_parsers {
             fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not remove previous parser at {:?}", parser_dir),
-- 
2.43.0


From e61831137d42fb8b64d1be5acf4bc7e000e310a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 06/18] fix: accept an empty intents list whose data pointer is
 null

---
 ffi/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..ac9c56e 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -408,6 +408,10 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size == 0 {
+        // the data of an empty array may be null, which a slice does not allow
+        return Ok(vec![]);
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
         .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
-- 
2.43.0


From bb3f8f85c438910d5290b0e1dfdff1c88e0d77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 07/18] fix: report a zip entry whose file cannot be created
 instead of panicking

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9d7942b..d0ad0cb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 8d0a2d59a36c775104e9d14738b6c4240e081928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 08/18] fix: report a model that cannot be read under a path
 that is not UTF-8 instead of panicking

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index c645ddb..8ac010e 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().into_owned())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 4d9b9cee6553dfb119a64d897eda4864820a2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 09/18] fix: refuse a word clusters file with a line without a
 cluster instead of panicking

---
 src/resources/word_clusterer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..63f8703 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::format_err;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,11 +31,14 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
+            let cluster = elements
+                .get(1)
+                .ok_or_else(|| format_err!("Missing cluster for word '{}'", &elements[0]))?;
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
-                match u16::from_str(elements[1].as_ref()) {
+                match u16::from_str(cluster) {
                     Ok(u16_value) => {
                         u16_values.insert(hashed_key, u16_value);
                     }
@@ -44,13 +48,13 @@ impl HashMapWordClusterer {
                         for (hash, value) in u16_values.iter() {
                             str_values.insert(*hash, format!("{}", value));
                         }
-                        str_values.insert(hashed_key, elements[1].to_string());
+                        str_values.insert(hashed_key, cluster.to_string());
                         u16_casting_ok = false;
                         u16_values.clear();
                     }
                 }
             } else {
-                str_values.insert(hashed_key, elements[1].to_string());
+                str_values.insert(hashed_key, cluster.to_string());
             }
         }
         Ok(Self {
-- 
2.43.0


From 0cf63750088f9323a38258599838be6bfb9b29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 10/18] fix: refuse intent classifier coefficients that do not
 match its classes instead of panicking

---
 src/intent_classifier/log_reg_intent_classifier.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index cd9f0d9..c72460b 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,10 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map_or(0, |class_coeffs| class_coeffs.len());
+            if coeffs.len() != nb_classes || coeffs.iter().any(|c| c.len() != nb_features) {
+                bail!("Coefficients of the LogRegIntentClassifier do not match its classes");
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0


From a91ca0f2ef4336ad5a5ae588344ca70f6e3bcb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 11/18] fix: rank intents with equal scores in the same order
 each time

---
 src/nlu_engine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 8ac010e..1ca640e 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -307,7 +307,13 @@ impl SnipsNluEngine {
         Ok(results
             .into_iter()
             .map(|(_, res)| res)
-            .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
+            .sorted_by(|a, b| {
+                b.confidence_score
+                    .partial_cmp(&a.confidence_score)
+                    .unwrap()
+                    // the map gives intents with equal scores in an arbitrary order
+                    .then_with(|| a.intent_name.cmp(&b.intent_name))
+            })
             .collect())
     }
 
-- 
2.43.0


From f31b7186d1e9d0bca60efae06c89a5ea457df618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 12/18] fix: list the intents of the deterministic parser in
 the same order each time

---
 src/intent_parser/deterministic_intent_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..b281115 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -164,7 +164,7 @@ impl IntentParser for DeterministicIntentParser {
             .iter()
             .filter_map(|res| res.intent_name.clone())
             .collect();
-        for intent in self.regexes_per_intent.keys() {
+        for intent in self.regexes_per_intent.keys().sorted() {
             if !matched_intents.contains(intent) {
                 top_intents.push(IntentClassifierResult {
                     intent_name: Some(intent.to_string()),
@@ -211,7 +211,8 @@ impl DeterministicIntentParser {
         let filtered_entity_scopes = self
             .entity_scopes
             .iter()
-            .filter(|(intent, _)| intents_set.contains(&***intent));
+            .filter(|(intent, _)| intents_set.contains(&***intent))
+            .sorted_by(|(intent1, _), (intent2, _)| intent1.cmp(intent2));
 
         for (intent, (builtin_scope, custom_scope)) in filtered_entity_scopes {
             let builtin_entities = self
-- 
2.43.0


From 480834d703aefbed5e3a76dbf77a84c139afd876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 13/18] fix: list the intents of the lookup parser in the same
 order each time

---
 src/intent_parser/lookup_intent_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..ad74246 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -185,6 +185,7 @@ impl LookupIntentParser {
         }
         let results: Vec<(InternalParsingResult, f32)> = results_per_intent
             .into_iter()
+            .sorted_by(|(intent1, _), (intent2, _)| intent1.cmp(intent2))
             .filter_map(|(_, internal_results)| {
                 internal_results
                     .into_iter()
-- 
2.43.0


From 8999e0ed43df026690154749beab38e1d2aeb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 14/18] fix: ask the entity parsers for the entities of an
 intent in the same order each time

---
 src/intent_parser/deterministic_intent_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index b281115..2827a09 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -74,11 +74,15 @@ impl DeterministicIntentParser {
             .map(|(intent, mapping)| {
                 let builtin_entities = mapping
                     .iter()
+                    .sorted()
+                    .into_iter()
                     .flat_map(|(_, entity)| BuiltinEntityKind::from_identifier(entity).ok())
                     .unique()
                     .collect();
                 let custom_entities = mapping
                     .iter()
+                    .sorted()
+                    .into_iter()
                     .flat_map(|(_, entity)| {
                         if BuiltinEntityKind::from_identifier(entity).is_ok() {
                             None
-- 
2.43.0


From dbd4966c42a465a342fc1c2ff882e9a571b338f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:13 +0000
Subject: [PATCH 15/18] fix: Swift reads the end of a time interval from its
 end

---
 platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
index 3d6f056..18b7de5 100644
--- a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
+++ b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
@@ -192,7 +192,7 @@ public struct TimeIntervalValue {
         } else {
             self.from = nil
         }
-        if let cTo = cValue.from {
+        if let cTo = cValue.to {
             self.to = String(cString: cTo)
         } else {
             self.to = nil
-- 
2.43.0


From b0fe76765c6b62a4264e99a011311147b4be32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:13 +0000
Subject: [PATCH 16/18] fix: Swift reads an ordinal as the 64-bit integer it is

---
 platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
index 18b7de5..cce3c01 100644
--- a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
+++ b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
@@ -110,7 +110,7 @@ public enum SlotValue {
             self = .number(x.pointee)
 
         case SNIPS_SLOT_VALUE_TYPE_ORDINAL:
-            let x = cSlotValue.value.assumingMemoryBound(to: CInt.self)
+            let x = cSlotValue.value.assumingMemoryBound(to: Int64.self)
             self = .ordinal(OrdinalValue(x.pointee))
 
         case SNIPS_SLOT_VALUE_TYPE_INSTANTTIME:
-- 
2.43.0


From 51da6dd45bb0eec235d0176c490c60b8c008a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:13 +0000
Subject: [PATCH 17/18] fix: Swift reads slots that are cities, countries and
 regions

---
 platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
index cce3c01..ff99dd8 100644
--- a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
+++ b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
@@ -98,6 +98,9 @@ public enum SlotValue {
     case musicAlbum(String)
     case musicArtist(String)
     case musicTrack(String)
+    case city(String)
+    case country(String)
+    case region(String)
 
     init(cSlotValue: CSlotValue) throws {
         switch cSlotValue.value_type {
@@ -149,6 +152,18 @@ public enum SlotValue {
             let x = cSlotValue.value.assumingMemoryBound(to: CChar.self)
             self = .musicTrack(String(cString: x))
 
+        case SNIPS_SLOT_VALUE_TYPE_CITY:
+            let x = cSlotValue.value.assumingMemoryBound(to: CChar.self)
+            self = .city(String(cString: x))
+
+        case SNIPS_SLOT_VALUE_TYPE_COUNTRY:
+            let x = cSlotValue.value.assumingMemoryBound(to: CChar.self)
+            self = .country(String(cString: x))
+
+        case SNIPS_SLOT_VALUE_TYPE_REGION:
+            let x = cSlotValue.value.assumingMemoryBound(to: CChar.self)
+            self = .region(String(cString: x))
+
         default: throw NluEngineError(message: "Internal error: \(cSlotValue.value_type) is not a valid slot value type")
         }
     }
-- 
2.43.0


From 73edf3e68a43b2b0ce7c9b5fecd760fbee818d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:13 +0000
Subject: [PATCH 18/18] fix: Swift gives the message of an error back after it
 read it

---
 platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
index ff99dd8..6137288 100644
--- a/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
+++ b/platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift
@@ -13,9 +13,12 @@ public struct NluEngineError: Error {
     public let message: String
 
     static var getLast: NluEngineError {
-        let buffer = UnsafeMutablePointer<UnsafePointer<Int8>?>.allocate(capacity: 1024)
-        snips_nlu_engine_get_last_error(buffer)
-        return NluEngineError(message: String(cString: buffer.pointee!))
+        var buffer: UnsafePointer<Int8>? = nil
+        defer {
+            snips_nlu_engine_destroy_string(UnsafeMutablePointer(mutating: buffer))
+        }
+        snips_nlu_engine_get_last_error(&buffer)
+        return NluEngineError(message: String(cString: buffer!))
     }
 }
 
-- 
2.43.0

