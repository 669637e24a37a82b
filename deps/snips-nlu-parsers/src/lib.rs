//! Stand-in for snips-nlu-parsers 0.4.3 (not available offline). See /verif/DESIGN.md, "Environment".
//!
//! The entity parsers are table driven: what they return for a sentence is what the tables in the
//! parser directories say, so that the specification can choose the environment.
use std::fs;
use std::ops::Range;
use std::path::Path;
use std::sync::{Mutex, MutexGuard};

use failure::{bail, format_err, Error, ResultExt};
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::*;
use snips_nlu_utils::language::Language as UtilsLanguage;
use snips_nlu_utils::token::{tokenize, Token};

pub mod gazetteer_entity_parser;
use gazetteer_entity_parser::Parser;

/// Record of the calls that reach the parsers (cache hits do not)
pub mod verif_log {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Serialize)]
    pub struct Call {
        pub parser: &'static str,
        pub sentence: String,
        pub scope: Option<Vec<String>>,
        pub alternatives: usize,
        pub ok: bool,
    }
    static CALLS: Mutex<Option<Vec<Call>>> = Mutex::new(None);
    fn lock() -> MutexGuard<'static, Option<Vec<Call>>> {
        CALLS.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn start() {
        *lock() = Some(vec![]);
    }
    pub fn take() -> Vec<Call> {
        lock().replace(vec![]).unwrap_or_default()
    }
    /// Waits a little, if VERIF_JITTER_US is set, so that other threads get a chance to interleave
    pub fn jitter() {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1);
        static MAX: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
        let max = *MAX.get_or_init(|| {
            std::env::var("VERIF_JITTER_US").ok().and_then(|v| v.parse().ok()).unwrap_or(0)
        });
        if max > 0 {
            let n = N.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9e3779b97f4a7c15);
            std::thread::sleep(std::time::Duration::from_micros((n >> 33) % max));
        }
    }
    pub fn push(call: Call) {
        if let Some(calls) = lock().as_mut() {
            calls.push(call)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
    pub range: Range<usize>,
    pub entity_identifier: T,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<EntityParserMetadata>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntityParserMetadata {
    pub entity_identifier: String,
    pub entity_parser: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<String>,
}

/// Scripted failures: a text with the word "err" + name of a kind fails when entities of this kind are looked for
fn scripted_failure(sentence: &str, identifier: &str) -> Result<(), Error> {
    if !sentence.contains("err") {
        return Ok(());
    }
    let word = format!("err{}", identifier.rsplit('/').next().unwrap_or("").to_lowercase());
    if word.len() > 3 && sentence.split_whitespace().any(|w| w.to_lowercase() == word) {
        bail!("scripted failure of the entities '{}'", identifier);
    }
    Ok(())
}

pub trait EntityIdentifier: Sized + Clone + PartialEq {
    fn into_identifier(self) -> String;
    fn try_from_identifier(identifier: &str) -> Result<Self, Error>;
}
impl EntityIdentifier for String {
    fn into_identifier(self) -> String {
        self
    }
    fn try_from_identifier(identifier: &str) -> Result<Self, Error> {
        Ok(identifier.to_string())
    }
}
impl EntityIdentifier for BuiltinGazetteerEntityKind {
    fn into_identifier(self) -> String {
        self.identifier().to_string()
    }
    fn try_from_identifier(identifier: &str) -> Result<Self, Error> {
        BuiltinGazetteerEntityKind::from_identifier(identifier)
    }
}

pub struct GazetteerParser<T: EntityIdentifier> {
    parsers: Vec<(T, Parser)>,
}

impl<T: EntityIdentifier> GazetteerParser<T> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let metadata_path = path.as_ref().join("metadata.json");
        let file = fs::File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata of gazetteer parser {:?}", metadata_path))?;
        let metadata: GazetteerParserMetadata = serde_json::from_reader(file)
            .with_context(|_| "Cannot deserialize the metadata of the gazetteer parser")?;
        let parsers = metadata
            .parsers_metadata
            .iter()
            .map(|m| {
                Ok((
                    T::try_from_identifier(&m.entity_identifier)?,
                    Parser::from_folder(path.as_ref().join(&m.entity_parser))?,
                ))
            })
            .collect::<Result<Vec<_>, Error>>()?;
        Ok(Self { parsers })
    }

    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[T]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<GazetteerEntityMatch<T>>, Error> {
        verif_log::jitter();
        let result = self._extract_entities(sentence, filter_entity_kinds, max_alternative_resolved_values);
        verif_log::push(verif_log::Call {
            parser: "gazetteer",
            sentence: sentence.to_string(),
            scope: filter_entity_kinds
                .map(|kinds| kinds.iter().map(|k| k.clone().into_identifier()).collect()),
            alternatives: max_alternative_resolved_values,
            ok: result.is_ok(),
        });
        result
    }

    fn _extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[T]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<GazetteerEntityMatch<T>>, Error> {
        if sentence.contains("parsererror") {
            bail!("scripted failure of an entity parser");
        }
        for identifier in filter_entity_kinds.unwrap_or(&[]) {
            scripted_failure(sentence, &identifier.clone().into_identifier())?;
        }
        let mut matches = vec![];
        for (identifier, parser) in self.parsers.iter() {
            if filter_entity_kinds.map_or(true, |kinds| kinds.contains(identifier)) {
                for found in parser.run(sentence, max_alternative_resolved_values) {
                    matches.push(GazetteerEntityMatch {
                        value: found.value,
                        resolved_value: found.resolved_value,
                        alternative_resolved_values: found.alternatives,
                        range: found.range,
                        entity_identifier: identifier.clone(),
                    });
                }
            }
        }
        Ok(matches)
    }
}

#[derive(Debug, Clone, Deserialize)]
struct PhraseEntry {
    phrase: String,
    kind: String,
    value: SlotValue,
    #[serde(default)]
    alternatives: Vec<SlotValue>,
}

#[derive(Debug, Clone, Deserialize)]
struct Table {
    entities: Vec<PhraseEntry>,
}

pub struct BuiltinEntityParser {
    language: UtilsLanguage,
    table: Vec<(Vec<String>, BuiltinEntityKind, PhraseEntry)>,
    gazetteer_parser: Option<GazetteerParser<BuiltinGazetteerEntityKind>>,
}

const NUMBERS: [&str; 21] = [
    "zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven",
    "twelve", "thirteen", "fourteen", "fifteen", "sixteen", "seventeen", "eighteen", "nineteen", "twenty",
];

impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let metadata_path = path.as_ref().join("metadata.json");
        let file = fs::File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata of builtin parser {:?}", metadata_path))?;
        let metadata: BuiltinParserMetadata = serde_json::from_reader(file)
            .with_context(|_| "Cannot deserialize the metadata of the builtin parser")?;
        let _language: Language = metadata.language.parse()?;
        let language: UtilsLanguage = metadata.language.parse()?;
        let gazetteer_parser = match metadata.gazetteer_parser {
            Some(ref dir) => Some(GazetteerParser::from_path(path.as_ref().join(dir))?),
            None => None,
        };
        let table_path = path.as_ref().join("verif_table.json");
        let entries: Vec<PhraseEntry> = if table_path.exists() {
            let table: Table = serde_json::from_reader(fs::File::open(&table_path)?)?;
            table.entities
        } else {
            let mut entries = vec![];
            for (i, word) in NUMBERS.iter().enumerate() {
                for phrase in &[word.to_string(), i.to_string()] {
                    entries.push(PhraseEntry {
                        phrase: phrase.clone(),
                        kind: "snips/number".to_string(),
                        value: SlotValue::Number(NumberValue { value: i as f64 }),
                        alternatives: vec![],
                    });
                }
            }
            entries
        };
        let table = entries
            .into_iter()
            .map(|e| {
                let kind = BuiltinEntityKind::from_identifier(&e.kind)?;
                let words = tokenize(&e.phrase, language).into_iter().map(|t| t.value).collect();
                Ok((words, kind, e))
            })
            .collect::<Result<Vec<_>, Error>>()?;
        Ok(Self { language, table, gazetteer_parser })
    }

    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[BuiltinEntityKind]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<BuiltinEntity>, Error> {
        verif_log::jitter();
        let result = self._extract_entities(sentence, filter_entity_kinds, max_alternative_resolved_values);
        verif_log::push(verif_log::Call {
            parser: "builtin",
            sentence: sentence.to_string(),
            scope: filter_entity_kinds
                .map(|kinds| kinds.iter().map(|k| k.identifier().to_string()).collect()),
            alternatives: max_alternative_resolved_values,
            ok: result.is_ok(),
        });
        result
    }

    fn _extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[BuiltinEntityKind]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<BuiltinEntity>, Error> {
        if sentence.contains("parsererror") {
            return Err(format_err!("scripted failure of an entity parser"));
        }
        for kind in filter_entity_kinds.unwrap_or(&[]) {
            scripted_failure(sentence, kind.identifier())?;
        }
        let in_scope =
            |kind: &BuiltinEntityKind| filter_entity_kinds.map_or(true, |kinds| kinds.contains(kind));
        let tokens: Vec<Token> = tokenize(sentence, self.language);
        let mut found: Vec<BuiltinEntity> = vec![];
        // longest phrases first; the matches of one kind do not overlap
        let mut entries: Vec<_> = self.table.iter().filter(|(_, k, _)| in_scope(k)).collect();
        entries.sort_by_key(|(words, _, _)| -(words.len() as i32));
        for (words, kind, entry) in entries {
            if words.is_empty() {
                continue;
            }
            for i in 0..tokens.len() {
                if i + words.len() > tokens.len()
                    || !words.iter().enumerate().all(|(j, w)| *w == tokens[i + j].value)
                {
                    continue;
                }
                let last = &tokens[i + words.len() - 1];
                let range = tokens[i].char_range.start..last.char_range.end;
                if found.iter().any(|e| {
                    e.entity_kind == *kind && e.range.start < range.end && range.start < e.range.end
                }) {
                    continue;
                }
                found.push(BuiltinEntity {
                    value: sentence[tokens[i].range.start..last.range.end].to_string(),
                    range,
                    entity: entry.value.clone(),
                    alternatives: entry
                        .alternatives
                        .iter()
                        .take(max_alternative_resolved_values)
                        .cloned()
                        .collect(),
                    entity_kind: *kind,
                });
            }
        }
        if let Some(parser) = self.gazetteer_parser.as_ref() {
            let kinds: Option<Vec<BuiltinGazetteerEntityKind>> = filter_entity_kinds.map(|kinds| {
                kinds
                    .iter()
                    .filter_map(|k| BuiltinGazetteerEntityKind::from_identifier(k.identifier()).ok())
                    .collect()
            });
            let scope: Option<&[BuiltinGazetteerEntityKind]> = kinds.as_ref().map(|k| &**k);
            for m in parser._extract_entities(sentence, scope, max_alternative_resolved_values)? {
                let build = |v: String| -> SlotValue {
                    let v: StringValue = v.into();
                    match m.entity_identifier {
                        BuiltinGazetteerEntityKind::MusicAlbum => SlotValue::MusicAlbum(v),
                        BuiltinGazetteerEntityKind::MusicArtist => SlotValue::MusicArtist(v),
                        BuiltinGazetteerEntityKind::MusicTrack => SlotValue::MusicTrack(v),
                        BuiltinGazetteerEntityKind::City => SlotValue::City(v),
                        BuiltinGazetteerEntityKind::Country => SlotValue::Country(v),
                        BuiltinGazetteerEntityKind::Region => SlotValue::Region(v),
                    }
                };
                found.push(BuiltinEntity {
                    value: m.value.clone(),
                    range: m.range.clone(),
                    entity: build(m.resolved_value.clone()),
                    alternatives: m.alternative_resolved_values.iter().cloned().map(build).collect(),
                    entity_kind: BuiltinEntityKind::from_identifier(m.entity_identifier.identifier())?,
                });
            }
        }
        found.sort_by_key(|e| e.range.start);
        Ok(found)
    }
}
