From 749c6bb25d82adaa3e34b1d7ee516b36c062e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 01/28] fix: do not return the top intent among its
 alternatives

The first item of the merged list of intents was skipped, whereas the intent returned can be
another one when the parsers disagree: it was then repeated and the best alternative was lost.
---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..551622a 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -212,7 +212,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From bdb505c9699749fd8e4d33832410695959dbf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 02/28] fix: apply the intents whitelist in a classifier that
 has one intent or cannot score

The only intent of such a classifier was returned even when the whitelist left it out.
---
 .../log_reg_intent_classifier.rs              | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..ddcdb34 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,11 +103,27 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        let is_allowed = |res: &IntentClassifierResult| {
+            if let Some(intent) = res.intent_name.as_ref() {
+                opt_intents_set
+                    .as_ref()
+                    .map(|intents| intents.contains(&**intent))
+                    .unwrap_or(true)
+            } else {
+                true
+            }
+        };
+
         if self.intent_list.len() <= 1 {
             return Ok(vec![IntentClassifierResult {
                 intent_name: self.intent_list.first().cloned().unwrap_or(None),
                 confidence_score: 1.0,
-            }]);
+            }]
+            .into_iter()
+            .filter(is_allowed)
+            .collect());
         }
 
         if input.is_empty() || self.featurizer.is_none() || self.logreg.is_none() {
@@ -118,13 +134,11 @@ impl LogRegIntentClassifier {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
                 })
+                .filter(is_allowed)
                 .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -139,16 +153,7 @@ impl LogRegIntentClassifier {
                 intent_name: intent_name.clone(),
                 confidence_score: *score,
             })
-            .filter(|res| {
-                if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
-                } else {
-                    true
-                }
-            })
+            .filter(is_allowed)
             .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
             .collect())
     }
-- 
2.43.0


From ab0cf2c68343b9de487f98073b1e6a5c4e2141bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 03/28] fix: list the intents that only a later parser knows,
 whatever their score

---
 src/nlu_engine.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 551622a..adc5b17 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -291,15 +291,12 @@ impl SnipsNluEngine {
                 continue;
             }
             for res in parser_results.into_iter() {
-                let existing_score = results
+                let is_better = results
                     .get(&res.intent_name)
-                    .map(|r| r.confidence_score)
-                    .unwrap_or(0.0);
-                if res.confidence_score > existing_score {
-                    results
-                        .entry(res.intent_name.clone())
-                        .and_modify(|e| e.confidence_score = res.confidence_score)
-                        .or_insert_with(|| res);
+                    .map(|r: &IntentClassifierResult| res.confidence_score > r.confidence_score)
+                    .unwrap_or(true);
+                if is_better {
+                    results.insert(res.intent_name.clone(), res);
                 }
             }
         }
-- 
2.43.0


From 16933a07505a7f96a350bdad90a81bbe51e31fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 04/28] fix: give the text of the input as raw value when
 extracting a custom slot

The raw value was that of the lowercased and retokenized text given to the entity parser.
---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index adc5b17..e56361b 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -452,7 +452,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 2151258dc14dc6a7ce1a8e28e910467a61e4ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 05/28] fix: lookup parser does not match texts that contain
 placeholders of their own

---
 src/intent_parser/lookup_intent_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..d1418d1 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -293,8 +293,10 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Option<InternalParsingResult> {
         let (intent_id, slots_ids) = output;
-        // assert invariant: length of slot ids matches that of entities
-        debug_assert!(slots_ids.len() == entities.len());
+        if slots_ids.len() != entities.len() {
+            // the input itself contains entity placeholders, hence some slots have no entity
+            return None;
+        }
         let intent_name = &self.intents_names[*intent_id as usize];
         if intents
             .map(|intents_list| intents_list.contains(&intent_name.as_ref()))
-- 
2.43.0


From 5b5239c0f03bed028e1da6d5b0c730dc5395d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 06/28] fix: lookup parser matches an utterance with the stop
 words and entities of its own intent only

---
 src/intent_parser/lookup_intent_parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index d1418d1..60def27 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -168,12 +168,14 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Result<Vec<InternalParsingResult>> {
         let mut results_per_intent = HashMap::<String, Vec<InternalParsingResult>>::new();
-        for (text_candidate, entities) in self.get_candidates(input, intents)? {
+        for (intent, text_candidate, entities) in self.get_candidates(input, intents)? {
             let candidate_key = hash_str_to_i32(&text_candidate);
             if let Some(result) = self
                 .map
                 .get(&candidate_key)
                 .and_then(|val| self.parse_map_output(input, val, entities, intents))
+                // the candidate was built with the stop words and entities of its own intent
+                .filter(|result| result.intent.intent_name.as_ref() == Some(&intent))
             {
                 if let Some(intent_name) = result.intent.intent_name.as_ref() {
                     results_per_intent
@@ -220,8 +222,8 @@ impl LookupIntentParser {
         &self,
         input: &str,
         intents_whitelist: Option<&[&str]>,
-    ) -> Result<Vec<(String, Vec<MatchedEntity>)>> {
-        let mut candidates: Vec<(String, Vec<MatchedEntity>)> = Vec::new();
+    ) -> Result<Vec<(IntentName, String, Vec<MatchedEntity>)>> {
+        let mut candidates: Vec<(IntentName, String, Vec<MatchedEntity>)> = Vec::new();
         for entity_scope in self.entity_scopes.iter() {
             let intent_group: Vec<&String> = entity_scope
                 .intent_group
@@ -243,8 +245,12 @@ impl LookupIntentParser {
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
                     let cleaned_processed_text = self.preprocess_text(&processed_text, intent);
-                    candidates.push((cleaned_text, vec![]));
-                    candidates.push((cleaned_processed_text, entities.clone()));
+                    candidates.push((intent.to_string(), cleaned_text, vec![]));
+                    candidates.push((
+                        intent.to_string(),
+                        cleaned_processed_text,
+                        entities.clone(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From 51621a952ae95036471dba0606d15afbbb5c6fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 07/28] fix: entities are replaced in texts of more than 32767
 characters

---
 src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..87b3880 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -146,13 +146,13 @@ where
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as i32 + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset += entity_text.chars().count() as i32 - matched_entity.range.clone().count() as i32;
+        let range_end = (matched_entity.range.end as i32 + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From 35c0d48d1bf459ec8a2ecff326ee9251469ebbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 08/28] fix: entities are located properly in texts with
 characters whose lowercase is longer

---
 src/entity_parser/builtin_entity_parser.rs |  3 ++-
 src/entity_parser/custom_entity_parser.rs  |  4 ++--
 src/utils.rs                               | 17 +++++++++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..d6ff959 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -7,6 +7,7 @@ use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
 use super::utils::Cache;
 use crate::errors::*;
+use crate::utils::lowercase_in_place;
 
 pub trait BuiltinEntityParser: Send + Sync {
     fn extract_entities(
@@ -38,7 +39,7 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_in_place(sentence);
         if !use_cache {
             return self.parser.extract_entities(
                 &lowercased_sentence,
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..0d8caf4 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -17,7 +17,7 @@ use snips_nlu_utils::token::*;
 use crate::entity_parser::utils::Cache;
 use crate::errors::*;
 use crate::language::FromLanguage;
-use crate::utils::EntityName;
+use crate::utils::{lowercase_in_place, EntityName};
 
 pub type CustomEntity = GazetteerEntityMatch<String>;
 
@@ -72,7 +72,7 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_in_place(sentence);
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
diff --git a/src/utils.rs b/src/utils.rs
index 87b3880..8a6df10 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -36,6 +36,23 @@ impl<T, I> IterOps<T, I> for I
     }
 }
 
+/// Lowercases a text so that its characters keep their positions
+pub fn lowercase_in_place(text: &str) -> String {
+    let lowercased = text.to_lowercase();
+    if lowercased.chars().count() == text.chars().count() {
+        return lowercased;
+    }
+    text.chars()
+        .map(|c| {
+            let mut lowercased_char = c.to_lowercase();
+            match (lowercased_char.next(), lowercased_char.next()) {
+                (Some(lowercased_char), None) => lowercased_char,
+                _ => c,
+            }
+        })
+        .collect()
+}
+
 pub fn deduplicate_overlapping_items<I, O, S, K>(
     items: Vec<I>,
     overlap: O,
-- 
2.43.0


From e12688b10f9cf38500a9c925d0c9d82b9f286efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 09/28] fix: reject classifiers whose coefficients, vocabulary
 or word pairs are inconsistent instead of panicking

---
 src/intent_classifier/featurizer.rs           | 20 ++++++++---
 .../log_reg_intent_classifier.rs              | 34 ++++++++++++++++++-
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..d156c13 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,13 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if let Some(index) = vocabulary.values().find(|index| **index >= idf_diag.len()) {
+            bail!(
+                "Invalid TfidfVectorizer data: index {} in the vocabulary for {} idf values",
+                index,
+                idf_diag.len()
+            );
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +224,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |max| max + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
@@ -284,11 +291,16 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let nb_pairs = model.word_pairs.len();
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        // The indexes must be 0, .., nb_pairs - 1, and the pairs all different
+        if word_pairs.len() != nb_pairs || word_pairs.values().any(|index| *index >= nb_pairs) {
+            bail!("Invalid CooccurrenceVectorizer data: inconsistent indexes of word pairs");
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
@@ -367,7 +379,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min((i + 1).saturating_add(window_size), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index ddcdb34..cf7f072 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -51,6 +51,7 @@ impl LogRegIntentClassifier {
         };
 
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
+            check_dimensions(&intercept, &coeffs, &model.intent_list)?;
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
             let nb_features = coeffs[0].len();
@@ -72,6 +73,34 @@ impl LogRegIntentClassifier {
     }
 }
 
+/// Checks that there is one row of coefficients per class, and as many classes as intents
+fn check_dimensions(
+    intercept: &[f32],
+    coeffs: &[Vec<f32>],
+    intent_list: &[Option<IntentName>],
+) -> Result<()> {
+    if intercept.is_empty() || coeffs.len() != intercept.len() {
+        bail!(
+            "Invalid LogRegIntentClassifier data: {} intercept values for {} rows of coefficients",
+            intercept.len(),
+            coeffs.len()
+        );
+    }
+    if coeffs.iter().any(|row| row.len() != coeffs[0].len()) {
+        bail!("Invalid LogRegIntentClassifier data: rows of coefficients of different lengths");
+    }
+    // With a single row of coefficients, the probabilities of two classes are computed
+    let nb_scores = if coeffs.len() == 1 { 2 } else { coeffs.len() };
+    if intent_list.len() > 1 && intent_list.len() != nb_scores {
+        bail!(
+            "Invalid LogRegIntentClassifier data: {} intents for {} classes",
+            intent_list.len(),
+            nb_scores
+        );
+    }
+    Ok(())
+}
+
 impl IntentClassifier for LogRegIntentClassifier {
     fn get_intent(
         &self,
@@ -144,6 +173,9 @@ impl LogRegIntentClassifier {
 
         let features = featurizer.transform(input)?;
         let scores = logreg.run(&features.view())?;
+        if scores.iter().any(|score| score.is_nan()) {
+            bail!("Invalid LogRegIntentClassifier data: some scores are not numbers");
+        }
 
         Ok(self
             .intent_list
-- 
2.43.0


From 925339cea73dc58b4b6730ac11150b717dd7ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 10/28] fix: reject patterns whose groups have no slot or
 entity instead of panicking

---
 .../deterministic_intent_parser.rs            | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..b4859b4 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use log::{debug, info};
 use regex::{Regex, RegexBuilder};
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -109,9 +109,15 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        check_group_names(
+            &regexes_per_intent,
+            &model.group_names_to_slot_names,
+            &model.slot_names_to_entities,
+        )?;
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
@@ -382,6 +388,35 @@ fn compile_regexes_per_intent(
         .collect()
 }
 
+/// Checks that the named groups of the patterns all correspond to a slot of their intent
+fn check_group_names(
+    regexes_per_intent: &HashMap<IntentName, Vec<Regex>>,
+    group_names_to_slot_names: &HashMap<String, SlotName>,
+    slot_names_to_entities: &HashMap<IntentName, HashMap<SlotName, EntityName>>,
+) -> Result<()> {
+    for (intent, slots) in slot_names_to_entities {
+        let group_names = regexes_per_intent
+            .get(intent)
+            .into_iter()
+            .flatten()
+            .flat_map(|regex| regex.capture_names().flatten());
+        for group_name in group_names {
+            let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+            let slot_name = group_names_to_slot_names
+                .get(group_name)
+                .ok_or_else(|| format_err!("No associated slot for group '{}'", group_name))?;
+            if !slots.contains_key(slot_name) {
+                bail!(
+                    "No associated entity for slot '{}' of intent '{}'",
+                    slot_name,
+                    intent
+                );
+            }
+        }
+    }
+    Ok(())
+}
+
 fn deduplicate_overlapping_slots(
     slots: Vec<InternalSlot>,
     language: Language,
-- 
2.43.0


From 0916d2bc7ea124c184bdbb5754425bcaca54d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 11/28] fix: reject lookup tables with unknown intent or slot
 ids instead of panicking

---
 src/intent_parser/lookup_intent_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 60def27..f2d4987 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,16 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        for (intent_id, slots_ids) in model.map.values() {
+            if model.intents_names.get(*intent_id as usize).is_none() {
+                bail!("No associated intent for id '{}'", intent_id);
+            }
+            for slot_id in slots_ids {
+                if model.slots_names.get(*slot_id as usize).is_none() {
+                    bail!("No associated slot for id '{}'", slot_id);
+                }
+            }
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
-- 
2.43.0


From a8554a2cceb39bb96c344308ff21d48938b20a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 12/28] fix: lookup parser does not try more entities at once
 than its utterances have slots

---
 src/intent_parser/lookup_intent_parser.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index f2d4987..212e6f1 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -234,6 +234,12 @@ impl LookupIntentParser {
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<(IntentName, String, Vec<MatchedEntity>)>> {
         let mut candidates: Vec<(IntentName, String, Vec<MatchedEntity>)> = Vec::new();
+        let max_nb_slots = self
+            .map
+            .values()
+            .map(|(_, slots_ids)| slots_ids.len())
+            .max()
+            .unwrap_or(0);
         for entity_scope in self.entity_scopes.iter() {
             let intent_group: Vec<&String> = entity_scope
                 .intent_group
@@ -249,8 +255,9 @@ impl LookupIntentParser {
             }
             let all_entities = self.get_all_entities(input, &entity_scope.entity_scope)?;
             // We generate all subsets of entities to match utterances containing ambivalent
-            // words which can be both entity values or random words
-            for entities in get_items_combinations(all_entities) {
+            // words which can be both entity values or random words. Subsets with more entities
+            // than any utterance has slots cannot match.
+            for entities in get_items_combinations_up_to(all_entities, max_nb_slots) {
                 let processed_text = replace_entities_with_placeholders(input, entities.as_ref());
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
@@ -389,11 +396,20 @@ fn replace_entities_with_placeholders(text: &str, entities: &[MatchedEntity]) ->
     }
 }
 
+#[cfg(test)]
 fn get_items_combinations<T>(items: Vec<T>) -> Vec<Vec<T>>
 where
     T: Clone,
 {
-    let mut combinations: Vec<Vec<T>> = (1..items.len() + 1)
+    let nb_items = items.len();
+    get_items_combinations_up_to(items, nb_items)
+}
+
+fn get_items_combinations_up_to<T>(items: Vec<T>, max_nb_items: usize) -> Vec<Vec<T>>
+where
+    T: Clone,
+{
+    let mut combinations: Vec<Vec<T>> = (1..items.len().min(max_nb_items) + 1)
         .rev()
         .flat_map(|nb_entities| items.clone().into_iter().combinations(nb_entities))
         .collect();
-- 
2.43.0


From b68b3e0b14215f0aab296a8dc6704310d146f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 13/28] fix: word clusters are given as written, and a word
 without cluster is an error

---
 src/resources/word_clusterer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..7ec32b7 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::format_err;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,27 +31,31 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
+            let cluster = elements
+                .get(1)
+                .ok_or_else(|| format_err!("No word cluster for '{}'", &elements[0]))?;
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
-                match u16::from_str(elements[1].as_ref()) {
-                    Ok(u16_value) => {
+                match u16::from_str(cluster) {
+                    // Other representations of the same number, e.g. '042', are kept as they are
+                    Ok(u16_value) if u16_value.to_string() == cluster => {
                         u16_values.insert(hashed_key, u16_value);
                     }
-                    Err(_) => {
+                    _ => {
                         // A word cluster cannot be converted into a u16, let's move all the
                         // previously stored clusters into a raw string representation
                         for (hash, value) in u16_values.iter() {
                             str_values.insert(*hash, format!("{}", value));
                         }
-                        str_values.insert(hashed_key, elements[1].to_string());
+                        str_values.insert(hashed_key, cluster.to_string());
                         u16_casting_ok = false;
                         u16_values.clear();
                     }
                 }
             } else {
-                str_values.insert(hashed_key, elements[1].to_string());
+                str_values.insert(hashed_key, cluster.to_string());
             }
         }
         Ok(Self {
-- 
2.43.0


From 00905b9f3de534e4f3801bcdb02b986155d31f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 14/28] fix: extreme ngram sizes and feature offsets do not
 overflow

---
 src/slot_filler/feature_processor.rs | 5 +++--
 src/slot_filler/features.rs          | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/slot_filler/feature_processor.rs b/src/slot_filler/feature_processor.rs
index 5d118ca..146802d 100644
--- a/src/slot_filler/feature_processor.rs
+++ b/src/slot_filler/feature_processor.rs
@@ -40,8 +40,9 @@ impl ProbabilisticFeatureProcessor {
             for i in 0..input.len() {
                 if let Some(value) = offsetter.feature.compute(input, i)? {
                     offsetter.offsets_with_name().iter().for_each(|&(offset, ref key)| {
-                        if i as i32 - offset >= 0 && i as i32 - offset < input.len() as i32 {
-                            features[(i as i32 - offset) as usize].push(
+                        let index = i as i64 - i64::from(offset);
+                        if index >= 0 && index < input.len() as i64 {
+                            features[index as usize].push(
                                 (key.clone(), value.clone())
                             );
                         }
diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..b4fdad6 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -149,7 +149,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if self.ngram_size > tokens.len() - token_index {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -195,7 +195,7 @@ impl Feature for ShapeNgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
+        let end = token_index.saturating_add(self.ngram_size);
         Ok(if token_index < end && end <= max_len {
             Some(
                 tokens[token_index..end]
-- 
2.43.0


From 82001840a8aef0bc8670d7bc1a6ad6bd62693f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 15/28] fix: refuse features whose optional names are not texts

---
 src/slot_filler/features.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b4fdad6..45a97a2 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -446,11 +446,13 @@ fn parse_as_opt_string(
     args: &HashMap<String, serde_json::Value>,
     arg_name: &str,
 ) -> Result<Option<String>> {
-    Ok(args
+    let arg = args
         .get(arg_name)
-        .ok_or_else(|| format_err!("can't retrieve '{}' parameter", arg_name))?
-        .as_str()
-        .map(|s| s.to_string()))
+        .ok_or_else(|| format_err!("can't retrieve '{}' parameter", arg_name))?;
+    if arg.is_null() {
+        return Ok(None);
+    }
+    parse_as_string(args, arg_name).map(Some)
 }
 
 fn parse_as_vec_string(
-- 
2.43.0


From ef3228266dbaf220ccac20ace58a97dbc53b78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 16/28] fix: a tagger without labels gives an error instead of
 a panic

---
 src/slot_filler/crf_slot_filler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/slot_filler/crf_slot_filler.rs b/src/slot_filler/crf_slot_filler.rs
index f3501c0..7f45f4c 100644
--- a/src/slot_filler/crf_slot_filler.rs
+++ b/src/slot_filler/crf_slot_filler.rs
@@ -5,7 +5,7 @@ use std::str::FromStr;
 use std::sync::{Arc, Mutex};
 
 use crfsuite::Tagger as CRFSuiteTagger;
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use snips_nlu_ontology::Language;
@@ -126,6 +126,9 @@ impl SlotFiller for CRFSlotFiller {
                 .into_iter()
                 .map(|label| decode_tag(&*label))
                 .collect::<Result<Vec<String>>>()?;
+            if tagger_labels.is_empty() {
+                bail!("The CRF model has no labels");
+            }
             let tagger_labels_slice = tagger_labels.iter().map(|l| &**l).collect_vec();
             // Substitute tags that were not seen during training
             let cleaned_tags = tags
-- 
2.43.0


From 5407179bdbdd8a48102611d20a36ca5476cd6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 17/28] fix: an engine path that is not valid UTF-8 gives an
 error instead of a panic

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index e56361b..9cff2e5 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().to_string())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 94f01e0c97ea4639c5ebe250050188809f022b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 18/28] fix: name the resources metadata file that cannot be
 opened

---
 src/resources/loading.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resources/loading.rs b/src/resources/loading.rs
index a421d24..4164f7e 100644
--- a/src/resources/loading.rs
+++ b/src/resources/loading.rs
@@ -33,7 +33,12 @@ pub fn load_shared_resources<P: AsRef<Path>, Q: AsRef<Path>, R: AsRef<Path>>(
     custom_entity_parser_path: R,
 ) -> Result<Arc<SharedResources>> {
     let metadata_file_path = resources_dir.as_ref().join("metadata.json");
-    let metadata_file = File::open(&metadata_file_path)?;
+    let metadata_file = File::open(&metadata_file_path).with_context(|_| {
+        format!(
+            "Cannot open resources metadata file '{:?}'",
+            metadata_file_path
+        )
+    })?;
     let metadata: ResourcesMetadata =
         serde_json::from_reader(metadata_file).with_context(|_| {
             format!(
-- 
2.43.0


From fe195817f95e8a072cfe4fba4bc4631b9d6d758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 19/28] fix: an archive whose files cannot be extracted gives
 an error instead of a panic

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8a6df10..174ce7c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -96,7 +96,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 14635abb396440503b459940b1e5dde4bf097d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 20/28] fix: an interrupted injection leaves each entity's
 parser complete

---
 src/injection/injection.rs | 127 +++++++++++++++++++++++++++++--------
 1 file changed, 100 insertions(+), 27 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..63fbf06 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -28,6 +28,8 @@ use super::errors::{NluInjectionError, NluInjectionErrorKind};
 pub type InjectedEntity = String;
 pub type InjectedValue = String;
 
+const INJECTED_PARSER_SUFFIX: &str = "_injected";
+
 fn normalize(s: &str) -> String {
     s.to_lowercase()
 }
@@ -50,6 +52,17 @@ struct CustomGazetteerParserInfo {
     parser_usage: CustomEntityParserUsage,
 }
 
+struct EntityParserLocation {
+    gazetteer_parser_dir: PathBuf,
+    directory_name: String,
+}
+
+impl EntityParserLocation {
+    fn parser_dir(&self) -> PathBuf {
+        self.gazetteer_parser_dir.join(&self.directory_name)
+    }
+}
+
 pub struct NluInjector<P: AsRef<Path>> {
     nlu_engine_dir: P,
     entity_values: HashMap<InjectedEntity, Vec<InjectedValue>>,
@@ -93,7 +106,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
         let engine_info = get_nlu_engine_info(self.nlu_engine_dir.as_ref())?;
         let builtin_parser_info = get_builtin_parser_info(&engine_info.builtin_entity_parser_dir)?;
         let custom_parser_info = get_custom_parser_info(&engine_info.custom_entity_parser_dir)?;
-        let parsers_dirs = get_entity_parsers_dirs(
+        let parsers_locations = get_entity_parsers_locations(
             &engine_info,
             &builtin_parser_info,
             &custom_parser_info,
@@ -139,8 +152,9 @@ impl<P: AsRef<Path>> NluInjector<P> {
         for (entity, new_entity_values) in normalized_entity_values {
             info!("Injecting values for entity '{}'", entity);
 
-            let parser_dir = &parsers_dirs[&entity];
-            let mut gazetteer_parser = GazetteerEntityParser::from_folder(parser_dir)
+            let parser_location = &parsers_locations[&entity];
+            let parser_dir = parser_location.parser_dir();
+            let mut gazetteer_parser = GazetteerEntityParser::from_folder(&parser_dir)
                 .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not load gazetteer parser in {:?}", parser_dir),
                 })?;
@@ -151,17 +165,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
 
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not remove previous parser at {:?}", parser_dir),
-                }
-            })?;
-
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
-                }
-            })?;
+            replace_gazetteer_parser(&entity, parser_location, &gazetteer_parser)?;
         }
 
         info!("Injection performed with success !");
@@ -169,25 +173,24 @@ impl<P: AsRef<Path>> NluInjector<P> {
     }
 }
 
-fn get_entity_parsers_dirs(
+fn get_entity_parsers_locations(
     engine_info: &NluEngineInfo,
     maybe_builtin_parser_info: &Option<BuiltinGazetteerParserInfo>,
     custom_parser_info: &CustomGazetteerParserInfo,
     entity_values: &HashMap<String, Vec<String>>,
-) -> Result<HashMap<String, PathBuf>, NluInjectionError> {
+) -> Result<HashMap<String, EntityParserLocation>, NluInjectionError> {
     entity_values
         .keys()
         .map(|entity| {
-            let dir = if engine_info.custom_entities.contains(entity) {
+            let location = if engine_info.custom_entities.contains(entity) {
                 custom_parser_info
                     .gazetteer_parser_metadata
                     .parsers_metadata
                     .iter()
                     .find(|metadata| metadata.entity_identifier == *entity)
-                    .map(|metadata| {
-                        custom_parser_info
-                            .gazetteer_parser_dir
-                            .join(&metadata.entity_parser)
+                    .map(|metadata| EntityParserLocation {
+                        gazetteer_parser_dir: custom_parser_info.gazetteer_parser_dir.clone(),
+                        directory_name: metadata.entity_parser.clone(),
                     })
                     .ok_or_else(|| {
                         let msg = format!("could not find entity '{}' in engine", entity);
@@ -203,10 +206,9 @@ fn get_entity_parsers_dirs(
                     .parsers_metadata
                     .iter()
                     .find(|metadata| metadata.entity_identifier == *entity)
-                    .map(|metadata| {
-                        builtin_parser_info
-                            .gazetteer_parser_dir
-                            .join(&metadata.entity_parser)
+                    .map(|metadata| EntityParserLocation {
+                        gazetteer_parser_dir: builtin_parser_info.gazetteer_parser_dir.clone(),
+                        directory_name: metadata.entity_parser.clone(),
                     })
                     .ok_or_else(|| {
                         let msg = format!("could not find entity '{}' in engine", entity);
@@ -222,9 +224,80 @@ fn get_entity_parsers_dirs(
                 let msg = format!("Unknown entity: '{}'", entity);
                 Err(NluInjectionErrorKind::EntityNotInjectable { msg })
             }?;
-            Ok((entity.clone(), dir))
+            Ok((entity.clone(), location))
         })
-        .collect::<Result<HashMap<String, PathBuf>, NluInjectionError>>()
+        .collect::<Result<HashMap<String, EntityParserLocation>, NluInjectionError>>()
+}
+
+/// Replaces the parser of an entity by the updated one. The updated parser is entirely written in
+/// another directory before the metadata switch to it, so that the metadata always refer to a
+/// complete parser, even when the injection is interrupted.
+fn replace_gazetteer_parser(
+    entity: &str,
+    location: &EntityParserLocation,
+    gazetteer_parser: &GazetteerEntityParser,
+) -> Result<(), NluInjectionError> {
+    let metadata_path = location.gazetteer_parser_dir.join("metadata.json");
+    let metadata_error = || NluInjectionErrorKind::InternalInjectionError {
+        msg: format!(
+            "could not update gazetteer parser metadata file in {:?}",
+            metadata_path
+        ),
+    };
+    let metadata_content = fs::read(&metadata_path).with_context(|_| metadata_error())?;
+    let mut metadata: serde_json::Value =
+        serde_json::from_slice(&metadata_content).with_context(|_| metadata_error())?;
+    let parsers_metadata = metadata["parsers_metadata"]
+        .as_array_mut()
+        .ok_or_else(metadata_error)?;
+
+    let mut directory_name = location
+        .directory_name
+        .trim_end_matches(INJECTED_PARSER_SUFFIX)
+        .to_string();
+    while directory_name.is_empty()
+        || parsers_metadata
+            .iter()
+            .any(|metadata| metadata["entity_parser"] == *directory_name)
+    {
+        directory_name.push_str(INJECTED_PARSER_SUFFIX);
+    }
+    let new_parser_dir = location.gazetteer_parser_dir.join(&directory_name);
+    if new_parser_dir.exists() {
+        // left by an interrupted injection
+        fs::remove_dir_all(&new_parser_dir).with_context(|_| {
+            NluInjectionErrorKind::InternalInjectionError {
+                msg: format!("could not remove previous parser at {:?}", new_parser_dir),
+            }
+        })?;
+    }
+    gazetteer_parser.dump(&new_parser_dir).with_context(|_| {
+        NluInjectionErrorKind::InternalInjectionError {
+            msg: format!("failed to dump gazetteer parser in {:?}", new_parser_dir),
+        }
+    })?;
+
+    for parser_metadata in parsers_metadata.iter_mut() {
+        if parser_metadata["entity_identifier"] == *entity
+            && parser_metadata["entity_parser"] == *location.directory_name
+        {
+            parser_metadata["entity_parser"] = directory_name.clone().into();
+        }
+    }
+    let new_metadata_path = location.gazetteer_parser_dir.join("metadata.json.tmp");
+    fs::write(&new_metadata_path, metadata.to_string()).with_context(|_| metadata_error())?;
+    fs::rename(&new_metadata_path, &metadata_path).with_context(|_| metadata_error())?;
+
+    let previous_parser_dir = location.parser_dir();
+    fs::remove_dir_all(&previous_parser_dir).with_context(|_| {
+        NluInjectionErrorKind::InternalInjectionError {
+            msg: format!(
+                "could not remove previous parser at {:?}",
+                previous_parser_dir
+            ),
+        }
+    })?;
+    Ok(())
 }
 
 fn get_builtin_parser_info(
-- 
2.43.0


From b6a9c0f768e6b793b60b206ad149e71f7a2dfa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 21/28] fix: a tagging scheme code beyond 255 is refused
 instead of wrapping

---
 src/slot_filler/features.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index 45a97a2..c71b7e1 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::sync::Arc;
 
 use failure::format_err;
@@ -278,8 +279,7 @@ impl Feature for CustomEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let entities = parse_as_vec_string(args, "entities")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
-        let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
+        let tagging_scheme = parse_as_tagging_scheme(args, "tagging_scheme_code")?;
         let use_stemming = parse_as_bool(args, "use_stemming")?;
         let opt_stemmer = if use_stemming {
             Some(
@@ -343,8 +343,7 @@ impl Feature for BuiltinEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let builtin_entity_labels = parse_as_vec_string(args, "entity_labels")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
-        let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
+        let tagging_scheme = parse_as_tagging_scheme(args, "tagging_scheme_code")?;
 
         builtin_entity_labels
             .into_iter()
@@ -480,6 +479,16 @@ fn parse_as_bool(args: &HashMap<String, serde_json::Value>, arg_name: &str) -> R
         .ok_or_else(|| format_err!("'{}' isn't a bool", arg_name))?)
 }
 
+fn parse_as_tagging_scheme(
+    args: &HashMap<String, serde_json::Value>,
+    arg_name: &str,
+) -> Result<TaggingScheme> {
+    let code = parse_as_u64(args, arg_name)?;
+    u8::try_from(code)
+        .map_err(|_| format_err!("Unknown tagging scheme identifier: {}", code))
+        .and_then(TaggingScheme::from_u8)
+}
+
 fn parse_as_u64(args: &HashMap<String, serde_json::Value>, arg_name: &str) -> Result<u64> {
     Ok(args
         .get(arg_name)
-- 
2.43.0


From ee5f9b2ce5dbd0f0916dc35f96aa5584ba24acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 22/28] fix: injected values are tokenized like the texts in
 which they are searched

---
 src/injection/injection.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 63fbf06..b60d583 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -137,7 +137,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 let normalize_entity_values = normalize_entity_value(values);
                 if engine_info.custom_entities.contains(&*entity) {
                     let stemmed_entity_values = stem_entity_value(
-                        normalize_entity_values,
+                        tokenize_entity_value(normalize_entity_values, &engine_info),
                         &engine_info,
                         &custom_parser_info,
                         maybe_stemmer,
@@ -451,6 +451,20 @@ fn normalize_entity_value(entity_values: Vec<InjectedValue>) -> Vec<GazetteerEnt
         .collect()
 }
 
+/// The custom entity parser looks for the values in the tokens of the input joined by spaces
+fn tokenize_entity_value(
+    entity_values: Vec<GazetteerEntityValue>,
+    engine_info: &NluEngineInfo,
+) -> Vec<GazetteerEntityValue> {
+    entity_values
+        .into_iter()
+        .map(|value| GazetteerEntityValue {
+            raw_value: tokenize_light(&*value.raw_value, engine_info.language).join(" "),
+            resolved_value: value.resolved_value,
+        })
+        .collect()
+}
+
 fn stem_entity_value(
     entity_values: Vec<GazetteerEntityValue>,
     engine_info: &NluEngineInfo,
-- 
2.43.0


From 65bcb75a2759e35fffbad3145d0430935614ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 23/28] fix: an injection changes no entity when another one
 cannot be updated

---
 src/injection/injection.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index b60d583..e2274f6 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -128,6 +128,8 @@ impl<P: AsRef<Path>> NluInjector<P> {
 
         let maybe_stemmer = shared_resources.stemmer.as_ref();
 
+        let from_vanilla = self.from_vanilla;
+
         // Normalize and stem all values if needed
         info!("Normalizing injected values...");
         let normalized_entity_values = self
@@ -149,23 +151,29 @@ impl<P: AsRef<Path>> NluInjector<P> {
             })
             .collect::<Result<HashMap<_, _>, NluInjectionError>>()?;
 
-        for (entity, new_entity_values) in normalized_entity_values {
-            info!("Injecting values for entity '{}'", entity);
+        let updated_parsers = normalized_entity_values
+            .into_iter()
+            .map(|(entity, new_entity_values)| {
+                info!("Injecting values for entity '{}'", entity);
 
-            let parser_location = &parsers_locations[&entity];
-            let parser_dir = parser_location.parser_dir();
-            let mut gazetteer_parser = GazetteerEntityParser::from_folder(&parser_dir)
-                .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not load gazetteer parser in {:?}", parser_dir),
-                })?;
+                let parser_dir = parsers_locations[&entity].parser_dir();
+                let mut gazetteer_parser = GazetteerEntityParser::from_folder(&parser_dir)
+                    .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+                        msg: format!("could not load gazetteer parser in {:?}", parser_dir),
+                    })?;
 
-            gazetteer_parser
-                .inject_new_values(new_entity_values, true, self.from_vanilla)
-                .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not inject values for entity '{}'", entity),
-                })?;
+                gazetteer_parser
+                    .inject_new_values(new_entity_values, true, from_vanilla)
+                    .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+                        msg: format!("could not inject values for entity '{}'", entity),
+                    })?;
+
+                Ok((entity, gazetteer_parser))
+            })
+            .collect::<Result<Vec<_>, NluInjectionError>>()?;
 
-            replace_gazetteer_parser(&entity, parser_location, &gazetteer_parser)?;
+        for (entity, gazetteer_parser) in updated_parsers {
+            replace_gazetteer_parser(&entity, &parsers_locations[&entity], &gazetteer_parser)?;
         }
 
         info!("Injection performed with success !");
-- 
2.43.0


From a72c946707a1f8670f36dae7646767d36410d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 24/28] fix: null lists, elements and archives are refused by
 the C interface

---
 ffi/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..7792ae3 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -258,6 +258,9 @@ fn create_from_zip(
     zip_size: libc::c_uint,
     client: *mut *const CSnipsNluEngine,
 ) -> Result<()> {
+    if zip.is_null() {
+        return Err(format_err!("unexpected null pointer for the zip archive"));
+    }
     let slice = unsafe { slice::from_raw_parts(zip, zip_size as usize) };
     let reader = Cursor::new(slice.to_owned());
     let nlu_engine = SnipsNluEngine::from_zip(reader)?;
@@ -408,8 +411,19 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size == 0 {
+        return Ok(vec![]);
+    }
+    if array.data.is_null() || array.size < 0 {
+        return Err(format_err!("invalid array of strings"));
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
-        .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
+        .map(|&ptr| {
+            if ptr.is_null() {
+                return Err(format_err!("unexpected null pointer in array of strings"));
+            }
+            Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?)
+        })
         .collect::<Result<Vec<_>>>()
 }
-- 
2.43.0


From 2e296c3ef0b6c3ddc9544107e030301e50c6b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 25/28] fix: the python engine refuses texts with null
 characters, which were cut there

---
 platforms/python/snips_nlu_rust/nlu_engine.py | 14 +++++++-------
 platforms/python/snips_nlu_rust/utils.py      |  9 +++++++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/platforms/python/snips_nlu_rust/nlu_engine.py b/platforms/python/snips_nlu_rust/nlu_engine.py
index ccbb8f9..2db8114 100644
--- a/platforms/python/snips_nlu_rust/nlu_engine.py
+++ b/platforms/python/snips_nlu_rust/nlu_engine.py
@@ -8,7 +8,7 @@ from ctypes import byref, c_char_p, c_void_p, string_at, c_char, c_int
 from pathlib import Path
 
 from snips_nlu_rust.utils import (
-    lib, string_pointer, CStringArray, check_ffi_error)
+    lib, string_pointer, CStringArray, check_ffi_error, encode_string)
 
 
 class NLUEngine(object):
@@ -44,7 +44,7 @@ class NLUEngine(object):
             engine_dir = Path(engine_dir)
             self._engine = c_void_p()
             exit_code = lib.ffi_snips_nlu_engine_create_from_dir(
-                str(engine_dir).encode("utf8"), byref(self._engine))
+                encode_string(str(engine_dir)), byref(self._engine))
             err_msg = "Something went wrong when creating the engine from " \
                       "directory"
 
@@ -84,7 +84,7 @@ class NLUEngine(object):
                     isinstance(intent, str) for intent in intents_whitelist):
                 raise TypeError("Expected 'intents_whitelist' to contain "
                                 "objects of type 'str'")
-            intents = [intent.encode("utf8") for intent in intents_whitelist]
+            intents = [encode_string(intent) for intent in intents_whitelist]
             arr = CStringArray()
             arr.size = c_int(len(intents))
             arr.data = (c_char_p * len(intents))(*intents)
@@ -94,7 +94,7 @@ class NLUEngine(object):
                     isinstance(intent, str) for intent in intents_blacklist):
                 raise TypeError("Expected 'intents_blacklist' to contain "
                                 "objects of type 'str'")
-            intents = [intent.encode("utf8") for intent in intents_blacklist]
+            intents = [encode_string(intent) for intent in intents_blacklist]
             arr = CStringArray()
             arr.size = c_int(len(intents))
             arr.data = (c_char_p * len(intents))(*intents)
@@ -102,7 +102,7 @@ class NLUEngine(object):
         with string_pointer(c_char_p()) as ptr:
             exit_code = \
                 lib.ffi_snips_nlu_engine_run_parse_with_alternatives_into_json(
-                    self._engine, query.encode("utf8"), intents_whitelist,
+                    self._engine, encode_string(query), intents_whitelist,
                     intents_blacklist, intents_alternatives,
                     slots_alternatives, byref(ptr))
             msg = "Something went wrong when parsing query '%s'" % query
@@ -128,7 +128,7 @@ class NLUEngine(object):
         with string_pointer(c_char_p()) as ptr:
             exit_code = lib.\
                 ffi_snips_nlu_engine_run_get_slots_with_alternatives_into_json(
-                    self._engine, query.encode("utf8"), intent.encode("utf8"),
+                    self._engine, encode_string(query), encode_string(intent),
                     slots_alternatives, byref(ptr))
             msg = "Something went wrong when extracting slots from query " \
                   "'%s' with intent '%s'" % (query, intent)
@@ -150,7 +150,7 @@ class NLUEngine(object):
         """
         with string_pointer(c_char_p()) as ptr:
             exit_code = lib.ffi_snips_nlu_engine_run_get_intents_into_json(
-                self._engine, query.encode("utf8"), byref(ptr))
+                self._engine, encode_string(query), byref(ptr))
             msg = "Something went wrong when extracting intents from query " \
                   "'%s'" % query
             check_ffi_error(exit_code, msg)
diff --git a/platforms/python/snips_nlu_rust/utils.py b/platforms/python/snips_nlu_rust/utils.py
index 2e2f7a4..f78b73c 100644
--- a/platforms/python/snips_nlu_rust/utils.py
+++ b/platforms/python/snips_nlu_rust/utils.py
@@ -23,6 +23,15 @@ class CStringArray(Structure):
     ]
 
 
+def encode_string(string):
+    """Encodes a string which is passed to the library as a C string, which
+    would end at the first null character"""
+    encoded_string = string.encode("utf8")
+    if b"\0" in encoded_string:
+        raise ValueError("Unexpected null character in %r" % string)
+    return encoded_string
+
+
 def check_ffi_error(exit_code, error_context_msg):
     if exit_code != 0:
         with string_pointer(c_char_p()) as ptr:
-- 
2.43.0


From 7ab2a9c2e9e768096fcbfb7af11547e98ad897a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:29 +0000
Subject: [PATCH 26/28] fix: word clusters of long texts took a cubic amount of
 memory

---
 src/intent_classifier/featurizer.rs |  8 +++++++-
 src/resources/word_clusterer.rs     | 13 +++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index d156c13..21fe315 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -411,7 +411,13 @@ fn get_word_clusters(
     word_clusterer: Arc<dyn WordClusterer>,
 ) -> Vec<String> {
     let tokens_ref = query_tokens.iter().map(|t| t.as_ref()).collect_vec();
-    compute_all_ngrams(tokens_ref.as_ref(), tokens_ref.len())
+    // Longer ngrams have no cluster: computing them all would take a cubic amount of memory
+    let max_ngram_size = word_clusterer
+        .max_nb_words()
+        .map_or(tokens_ref.len(), |max_nb_words| {
+            min(max_nb_words, tokens_ref.len())
+        });
+    compute_all_ngrams(tokens_ref.as_ref(), max_ngram_size)
         .into_iter()
         .filter_map(|ngram| word_clusterer.get_cluster(&ngram.0.to_lowercase()))
         .sorted()
diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 7ec32b7..a3bddd4 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -9,12 +9,18 @@ use std::str::FromStr;
 
 pub trait WordClusterer: Send + Sync {
     fn get_cluster(&self, word: &str) -> Option<String>;
+
+    /// Largest number of (space separated) words in an entry which has a cluster, when it is known
+    fn max_nb_words(&self) -> Option<usize> {
+        None
+    }
 }
 
 pub struct HashMapWordClusterer {
     /// This implementation allows to support both u16 and raw string representations for
     /// word clusters
     values: Either<HashMap<i32, u16>, HashMap<i32, String>>,
+    max_nb_words: usize,
 }
 
 impl HashMapWordClusterer {
@@ -29,12 +35,14 @@ impl HashMapWordClusterer {
         let mut u16_casting_ok = true;
         let mut u16_values = HashMap::new();
         let mut str_values = HashMap::new();
+        let mut max_nb_words = 0;
         for record in csv_reader.records() {
             let elements = record?;
             let cluster = elements
                 .get(1)
                 .ok_or_else(|| format_err!("No word cluster for '{}'", &elements[0]))?;
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
+            max_nb_words = max_nb_words.max(elements[0].split(' ').count());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
@@ -64,6 +72,7 @@ impl HashMapWordClusterer {
             } else {
                 Either::Right(str_values)
             },
+            max_nb_words,
         })
     }
 }
@@ -76,6 +85,10 @@ impl WordClusterer for HashMapWordClusterer {
             Either::Right(str_values) => str_values.get(&hashed_key).cloned(),
         }
     }
+
+    fn max_nb_words(&self) -> Option<usize> {
+        Some(self.max_nb_words)
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
-- 
2.43.0


From 821c46291ebc8f6899197ec1fa3a9f1c3ad79263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 27/28] fix: pattern groups around several entities ended at a
 wrong place

---
 src/intent_parser/deterministic_intent_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index b4859b4..d830af3 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -349,10 +349,14 @@ impl DeterministicIntentParser {
                     if let Some(ranges_mapping) = builtin_entities_ranges_mapping {
                         char_range =
                             ranges_mapping.get(&char_range).cloned().unwrap_or_else(|| {
-                                let shift = get_range_shift(&char_range, ranges_mapping);
-                                let range_start = (char_range.start as i32 + shift) as usize;
-                                let range_end = (char_range.end as i32 + shift) as usize;
-                                range_start..range_end
+                                // The group may itself contain replaced entities, hence its end
+                                // is not necessarily shifted as its start
+                                let shift_position = |position: usize| {
+                                    let shift =
+                                        get_range_shift(&(position..position), ranges_mapping);
+                                    (position as i32 + shift) as usize
+                                };
+                                shift_position(char_range.start)..shift_position(char_range.end)
                             });
                     }
                     let value = substring_with_char_range(input.to_string(), &char_range);
-- 
2.43.0


From 8890789875ca3289d3d40dc574a9f88bd63636fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 28/28] fix: injected values with a capital whose lowercase has
 two characters were not recognised

---
 src/injection/injection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index e2274f6..944d947 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -22,6 +22,7 @@ use crate::models::nlu_engine::NluEngineModel;
 use crate::resources::loading::load_engine_shared_resources;
 use crate::resources::stemmer::Stemmer;
 use crate::resources::SharedResources;
+use crate::utils::lowercase_in_place;
 
 use super::errors::{NluInjectionError, NluInjectionErrorKind};
 
@@ -31,7 +32,8 @@ pub type InjectedValue = String;
 const INJECTED_PARSER_SUFFIX: &str = "_injected";
 
 fn normalize(s: &str) -> String {
-    s.to_lowercase()
+    // as the entity parsers do with the texts
+    lowercase_in_place(s)
 }
 
 struct NluEngineInfo {
-- 
2.43.0

