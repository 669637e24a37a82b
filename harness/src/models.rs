//! Requests about paths, languages and the records of the model files
use serde_json::{json, Value};
use snips_nlu_lib::*;
use snips_nlu_utils::language::Language;
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::str::FromStr;

pub fn path(v: &Value) -> PathBuf {
    match v["path_bytes"].as_array() {
        Some(b) => PathBuf::from(OsString::from_vec(b.iter().map(|x| x.as_u64().unwrap() as u8).collect())),
        None => PathBuf::from(v["path"].as_str().unwrap_or("")),
    }
}
pub fn language(v: &Value) -> Language {
    Language::from_str(v["lang"].as_str().unwrap_or("en")).unwrap_or(Language::EN)
}
fn map(m: HashMap<String, String>) -> Value {
    json!(m)
}
fn parse<T: serde::de::DeserializeOwned>(j: &str) -> std::result::Result<T, failure::Error> {
    Ok(serde_json::from_str(j)?)
}
fn dataset(m: DatasetMetadata) -> Value {
    json!({
        "language_code": m.language_code,
        "entities": m.entities.into_iter().map(|(k, e)| (k, json!({"automatically_extensible": e.automatically_extensible})))
            .collect::<serde_json::Map<_, _>>(),
        "slot_name_mappings": json!(m.slot_name_mappings),
    })
}

/// The record read from a model file, written back field by field
pub fn model(kind: &str, j: &str) -> std::result::Result<Value, failure::Error> {
    Ok(match kind {
        "version" => json!({"model_version": parse::<ModelVersion>(j)?.model_version}),
        "engine" => {
            let m: NluEngineModel = parse(j)?;
            json!({"dataset_metadata": dataset(m.dataset_metadata), "intent_parsers": m.intent_parsers,
                "model_version": m.model_version, "training_package_version": m.training_package_version,
                "builtin_entity_parser": m.builtin_entity_parser, "custom_entity_parser": m.custom_entity_parser})
        }
        "dataset" => dataset(parse(j)?),
        "entity" => json!({"automatically_extensible": parse::<Entity>(j)?.automatically_extensible}),
        "unit" => {
            let m: ProcessingUnitMetadata = parse(j)?;
            json!({"unit_name": match m {
                ProcessingUnitMetadata::DeterministicIntentParser => "deterministic_intent_parser",
                ProcessingUnitMetadata::LookupIntentParser => "lookup_intent_parser",
                ProcessingUnitMetadata::ProbabilisticIntentParser => "probabilistic_intent_parser",
                ProcessingUnitMetadata::CrfSlotFiller => "crf_slot_filler",
                ProcessingUnitMetadata::LogRegIntentClassifier => "log_reg_intent_classifier",
            }})
        }
        "classifier" => {
            let m: IntentClassifierModel = parse(j)?;
            json!({"featurizer": m.featurizer, "intercept": m.intercept, "coeffs": m.coeffs, "intent_list": m.intent_list})
        }
        "featurizer" => {
            let m: FeaturizerModel = parse(j)?;
            json!({"language_code": m.language_code, "tfidf_vectorizer": m.tfidf_vectorizer,
                "cooccurrence_vectorizer": m.cooccurrence_vectorizer})
        }
        "tfidf" => {
            let m: TfidfVectorizerModel = parse(j)?;
            json!({"language_code": m.language_code, "builtin_entity_scope": m.builtin_entity_scope,
                "vectorizer": {"idf_diag": m.vectorizer.idf_diag, "vocab": json!(m.vectorizer.vocab)},
                "config": {"use_stemming": m.config.use_stemming, "word_clusters_name": m.config.word_clusters_name}})
        }
        "cooccurrence" => {
            let m: CooccurrenceVectorizerModel = parse(j)?;
            json!({"language_code": m.language_code, "builtin_entity_scope": m.builtin_entity_scope,
                "word_pairs": m.word_pairs.into_iter().map(|(k, p)| (k.to_string(), json!([p.0, p.1])))
                    .collect::<serde_json::Map<_, _>>(),
                "config": {"window_size": m.config.window_size, "filter_stop_words": m.config.filter_stop_words,
                    "keep_order": m.config.keep_order,
                    "unknown_words_replacement_string": m.config.unknown_words_replacement_string}})
        }
        "deterministic" => {
            let m: DeterministicParserModel = parse(j)?;
            json!({"language_code": m.language_code, "patterns": json!(m.patterns),
                "group_names_to_slot_names": map(m.group_names_to_slot_names),
                "slot_names_to_entities": json!(m.slot_names_to_entities),
                "stop_words_whitelist": json!(m.stop_words_whitelist),
                "config": {"ignore_stop_words": m.config.ignore_stop_words}})
        }
        "lookup" => {
            let m: LookupParserModel = parse(j)?;
            json!({"language_code": m.language_code, "slots_names": m.slots_names, "intents_names": m.intents_names,
                "map": m.map.into_iter().map(|(k, (i, sl))| (k.to_string(), json!([i, sl])))
                    .collect::<serde_json::Map<_, _>>(),
                "entity_scopes": m.entity_scopes.into_iter().map(|g| json!({"intent_group": g.intent_group,
                    "entity_scope": {"builtin": g.entity_scope.builtin, "custom": g.entity_scope.custom}}))
                    .collect::<Vec<_>>(),
                "stop_words_whitelist": json!(m.stop_words_whitelist),
                "config": {"ignore_stop_words": m.config.ignore_stop_words}})
        }
        "probabilistic" => {
            let m: ProbabilisticParserModel = parse(j)?;
            json!({"slot_fillers": m.slot_fillers.into_iter()
                .map(|f| json!({"intent": f.intent, "slot_filler_name": f.slot_filler_name})).collect::<Vec<_>>()})
        }
        "slot_filler" => {
            let m: SlotFillerModel = parse(j)?;
            json!({"language_code": m.language_code, "intent": m.intent, "slot_name_mapping": map(m.slot_name_mapping),
                "crf_model_file": m.crf_model_file,
                "config": {"tagging_scheme": m.config.tagging_scheme,
                    "feature_factory_configs": m.config.feature_factory_configs.into_iter()
                        .map(|f| json!({"factory_name": f.factory_name, "offsets": f.offsets, "args": json!(f.args)}))
                        .collect::<Vec<_>>()}})
        }
        other => return Err(failure::format_err!("DRIVER unknown model type {}", other)),
    })
}
