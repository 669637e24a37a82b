//! Conformance driver: executes one JSON request per line against the real crate and answers with
//! one JSON line. It holds no judgement of its own: what the answers must be is decided by the
//! TLA+ specifications in /verif/spec.
mod ffi;
mod models;

use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};

use serde_json::{json, Value};
use snips_nlu_lib::injection::{NluInjectionErrorKind, NluInjector};
use snips_nlu_lib::*;
use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult};

pub enum Obj {
    Engine(SnipsNluEngine),
    Parser(Box<dyn IntentParser>),
    Classifier(LogRegIntentClassifier),
    Filler(CRFSlotFiller),
    Resources(Arc<SharedResources>),
    FfiEngine(usize),
}

lazy_static::lazy_static! {
    static ref STATE: RwLock<HashMap<String, Arc<Obj>>> = RwLock::new(HashMap::new());
}
static SEQ: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub type Reply = std::result::Result<Value, failure::Error>;

pub fn get(h: &Value) -> std::result::Result<Arc<Obj>, failure::Error> {
    let name = h.as_str().unwrap_or("");
    STATE
        .read()
        .unwrap_or_else(|e| e.into_inner())
        .get(name)
        .cloned()
        .ok_or_else(|| failure::format_err!("DRIVER no such handle {}", name))
}
pub fn put(h: &Value, o: Obj) {
    STATE
        .write()
        .unwrap_or_else(|e| e.into_inner())
        .insert(h.as_str().unwrap_or("").to_string(), Arc::new(o));
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
pub fn strs(v: &Value) -> Option<Vec<String>> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
}
fn res(v: &Value) -> std::result::Result<Arc<SharedResources>, failure::Error> {
    match &*get(&v["res"])? {
        Obj::Resources(r) => Ok(r.clone()),
        _ => Err(failure::format_err!("DRIVER not resources")),
    }
}
fn intents(v: Vec<IntentClassifierResult>) -> Value {
    serde_json::to_value(v).unwrap()
}
macro_rules! islot {
    ($s:expr) => {{
        let s = $s;
        json!({"value": s.value, "range": [s.char_range.start, s.char_range.end],
            "entity": s.entity, "slotName": s.slot_name})
    }};
}
macro_rules! obj {
    ($v:expr, $kind:ident, $x:ident => $body:expr) => {{
        let o = get(&$v["h"])?;
        match &*o {
            Obj::$kind($x) => $body,
            _ => return Err(failure::format_err!("DRIVER wrong kind of handle")),
        }
    }};
}

fn run(v: &Value) -> Reply {
    let alt = |k: &str| v[k].as_u64().map(|x| x as usize);
    let ok = Ok(Value::Null);
    match s(v, "op") {
        "ping" => ok,
        "version" => Ok(json!(MODEL_VERSION)),
        "drop" => {
            STATE.write().unwrap_or_else(|e| e.into_inner()).remove(s(v, "h"));
            ok
        }
        // ---- engine
        "engine_load" => {
            let e = SnipsNluEngine::from_path(models::path(v))?;
            put(&v["h"], Obj::Engine(e));
            ok
        }
        "engine_zip" => {
            let bytes = std::fs::read(models::path(v)).expect("DRIVER archive");
            let e = SnipsNluEngine::from_zip(io::Cursor::new(bytes))?;
            put(&v["h"], Obj::Engine(e));
            ok
        }
        "parse" => {
            let o = get(&v["h"])?;
            let e = match &*o {
                Obj::Engine(e) => e,
                _ => return Err(failure::format_err!("DRIVER wrong kind of handle")),
            };
            let (wl, bl) = (strs(&v["wl"]), strs(&v["bl"]));
            let wl: Option<Vec<&str>> = wl.as_ref().map(|l| l.iter().map(|x| &**x).collect());
            let bl: Option<Vec<&str>> = bl.as_ref().map(|l| l.iter().map(|x| &**x).collect());
            let r = match (alt("ia"), alt("sa")) {
                (None, None) => e.parse(s(v, "text"), wl, bl)?,
                (ia, sa) => {
                    e.parse_with_alternatives(s(v, "text"), wl, bl, ia.unwrap_or(0), sa.unwrap_or(0))?
                }
            };
            Ok(serde_json::to_value(r)?)
        }
        "get_intents" => {
            let o = get(&v["h"])?;
            match &*o {
                Obj::Engine(e) => Ok(intents(e.get_intents(s(v, "text"))?)),
                Obj::Parser(e) => Ok(intents(e.get_intents(s(v, "text"))?)),
                Obj::Classifier(e) => Ok(intents(e.get_intents(s(v, "text"))?)),
                _ => Err(failure::format_err!("DRIVER wrong kind of handle")),
            }
        }
        "get_slots" => {
            let o = get(&v["h"])?;
            match &*o {
                Obj::Engine(e) => Ok(serde_json::to_value(match alt("sa") {
                    None => e.get_slots(s(v, "text"), s(v, "intent"))?,
                    Some(n) => e.get_slots_with_alternatives(s(v, "text"), s(v, "intent"), n)?,
                })?),
                Obj::Parser(p) => Ok(Value::Array(
                    p.get_slots(s(v, "text"), s(v, "intent"))?.into_iter().map(|x| islot!(x)).collect(),
                )),
                Obj::Filler(f) => Ok(Value::Array(
                    f.get_slots(s(v, "text"))?.into_iter().map(|x| islot!(x)).collect(),
                )),
                _ => Err(failure::format_err!("DRIVER wrong kind of handle")),
            }
        }
        "extract_slot" => {
            let o = get(&v["h"])?;
            let e = match &*o {
                Obj::Engine(e) => e,
                _ => return Err(failure::format_err!("DRIVER wrong kind of handle")),
            };
            let text = s(v, "text").to_string();
            Ok(serde_json::to_value(match alt("sa") {
                None => e.extract_slot(text, s(v, "intent"), s(v, "slot"))?,
                Some(n) => e.extract_slot_with_alternatives(text, s(v, "intent"), s(v, "slot"), n)?,
            })?)
        }
        // ---- parts
        "parser_load" => {
            let r = res(v)?;
            let p: Box<dyn IntentParser> = match s(v, "kind") {
                "deterministic" => Box::new(DeterministicIntentParser::from_path(models::path(v), r)?),
                "lookup" => Box::new(LookupIntentParser::from_path(models::path(v), r)?),
                _ => Box::new(ProbabilisticIntentParser::from_path(models::path(v), r)?),
            };
            put(&v["h"], Obj::Parser(p));
            ok
        }
        "parser_parse" => {
            let o = get(&v["h"])?;
            let p = match &*o {
                Obj::Parser(p) => p,
                _ => return Err(failure::format_err!("DRIVER wrong kind of handle")),
            };
            let wl = strs(&v["wl"]);
            let wl: Option<Vec<&str>> = wl.as_ref().map(|l| l.iter().map(|x| &**x).collect());
            let r = p.parse(s(v, "text"), wl.as_ref().map(|l| &**l))?;
            Ok(json!({"intent": serde_json::to_value(r.intent)?,
                "slots": r.slots.into_iter().map(|x| islot!(x)).collect::<Vec<_>>()}))
        }
        "clf_load" => {
            let c = LogRegIntentClassifier::from_path(models::path(v), res(v)?)?;
            put(&v["h"], Obj::Classifier(c));
            ok
        }
        "clf_intent" => {
            let o = get(&v["h"])?;
            let c = match &*o {
                Obj::Classifier(c) => c,
                _ => return Err(failure::format_err!("DRIVER wrong kind of handle")),
            };
            let wl = strs(&v["wl"]);
            let wl: Option<Vec<&str>> = wl.as_ref().map(|l| l.iter().map(|x| &**x).collect());
            Ok(serde_json::to_value(c.get_intent(s(v, "text"), wl.as_ref().map(|l| &**l))?)?)
        }
        "clf_intents" => obj!(v, Classifier, c => Ok(serde_json::to_value(c.get_intents(s(v, "text"))?)?)),
        "clf_features" => obj!(v, Classifier, c => {
            Ok(json!(c.compute_features(s(v, "text"))?.iter().cloned().collect::<Vec<f32>>()))
        }),
        "sf_load" => {
            let c = CRFSlotFiller::from_path(models::path(v), res(v)?)?;
            put(&v["h"], Obj::Filler(c));
            ok
        }
        "sf_features" => obj!(v, Filler, f => Ok(serde_json::to_value(f.compute_features(s(v, "text"))?)?)),
        "sf_prob" => {
            let tokens = snips_nlu_utils::token::tokenize(s(v, "text"), models::language(v));
            obj!(v, Filler, f => {
                Ok(json!(f.get_sequence_probability(&tokens, strs(&v["tags"]).unwrap_or_default())?))
            })
        }
        // ---- resources
        "res_load" => {
            let r = load_shared_resources(s(v, "resources"), s(v, "builtin"), s(v, "custom"))?;
            put(&v["h"], Obj::Resources(r));
            ok
        }
        "res_query" => {
            let r = obj!(v, Resources, r => r.clone());
            let words = strs(&v["words"]).unwrap_or_default();
            let mut gazetteers: Vec<_> = r.gazetteers.keys().cloned().collect();
            gazetteers.sort();
            let mut clusterers: Vec<_> = r.word_clusterers.keys().cloned().collect();
            clusterers.sort();
            let mut stop_words: Vec<_> = r.stop_words.iter().cloned().collect();
            stop_words.sort();
            Ok(json!({
                "gazetteers": gazetteers.iter().map(|g| json!({"name": g,
                    "contains": words.iter().map(|w| r.gazetteers[g].contains(w)).collect::<Vec<_>>()}))
                    .collect::<Vec<_>>(),
                "has_stemmer": r.stemmer.is_some(),
                "stems": words.iter().map(|w| r.stemmer.as_ref().map(|st| st.stem(w))).collect::<Vec<_>>(),
                "clusterers": clusterers.iter().map(|c| json!({"name": c,
                    "clusters": words.iter().map(|w| r.word_clusterers[c].get_cluster(w)).collect::<Vec<_>>()}))
                    .collect::<Vec<_>>(),
                "stop_words": stop_words,
            }))
        }
        "normalize" => Ok(json!(strs(&v["words"]).unwrap_or_default().iter()
            .map(|w| snips_nlu_utils::string::normalize(w)).collect::<Vec<_>>())),
        "builtin" => {
            let r = obj!(v, Resources, r => r.clone());
            let kinds: Option<Vec<BuiltinEntityKind>> = strs(&v["kinds"]).map(|k| {
                k.iter().map(|x| BuiltinEntityKind::from_identifier(x).expect("DRIVER kind")).collect()
            });
            let found = r.builtin_entity_parser.extract_entities(
                s(v, "text"),
                kinds.as_ref().map(|k| &**k),
                v["cache"].as_bool().unwrap_or(true),
                alt("sa").unwrap_or(0),
            )?;
            Ok(Value::Array(found.into_iter().map(|e| json!({"value": e.value,
                "range": [e.range.start, e.range.end], "entity": serde_json::to_value(e.entity).unwrap(),
                "alternatives": serde_json::to_value(e.alternatives).unwrap(),
                "kind": e.entity_kind.identifier()})).collect()))
        }
        "custom" => {
            let r = obj!(v, Resources, r => r.clone());
            let kinds = strs(&v["kinds"]);
            let found = r.custom_entity_parser.extract_entities(
                s(v, "text"),
                kinds.as_ref().map(|k| &**k),
                alt("sa").unwrap_or(0),
            )?;
            Ok(Value::Array(found.into_iter().map(|e| json!({"value": e.value,
                "range": [e.range.start, e.range.end], "resolved": e.resolved_value,
                "alternatives": e.alternative_resolved_values, "entity": e.entity_identifier})).collect()))
        }
        // ---- injection
        "inject" => {
            let mut i = NluInjector::new(models::path(v)).from_vanilla(v["vanilla"].as_bool().unwrap_or(false));
            for pair in v["values"].as_array().cloned().unwrap_or_default() {
                i = i.add_value(
                    pair[0].as_str().unwrap_or("").to_string(),
                    pair[1].as_str().unwrap_or("").to_string(),
                );
            }
            if !v["res"].is_null() {
                i = i.shared_resources(res(v)?);
            }
            i.inject().map_err(|e| {
                use snips_nlu_lib::injection::NluInjectionErrorKind::*;
                let shown = e.to_string();
                let said = |k: snips_nlu_lib::injection::NluInjectionErrorKind| k.to_string().trim_end().to_string();
                let kind = if shown.starts_with(&said(EntityNotInjectable { msg: "".into() })) {
                    "refusal"
                } else if shown.starts_with(&said(InternalInjectionError { msg: "".into() })) {
                    "internal"
                } else {
                    "other"
                };
                let err = failure::Error::from(e);
                err.context(format!("INJ {} {}", kind, shown)).into()
            })
            .map(|_: ()| Value::Null)
        }
        // ---- libraries the specification takes as given
        "tokenize" => Ok(Value::Array(
            snips_nlu_utils::token::tokenize(s(v, "text"), models::language(v))
                .into_iter()
                .map(|t| {
                    json!({"v": t.value, "s": t.char_range.start, "e": t.char_range.end,
                        "n": t.normalized_value(), "shape": snips_nlu_utils::string::get_shape(&t.value),
                        "low": lowercase_in_place(&t.value)})
                })
                .collect(),
        )),
        "hash" => Ok(json!(snips_nlu_utils::string::hash_str_to_i32(s(v, "text")))),
        "base64" => Ok(json!(base64::encode(s(v, "text")))),
        "calls" => {
            let calls = snips_nlu_parsers::verif_log::take();
            Ok(serde_json::to_value(calls)?)
        }
        "calls_start" => {
            snips_nlu_parsers::verif_log::start();
            ok
        }
        "overlap" => Ok(json!(crfsuite::verif_log::overlap())),
        "model" => models::model(s(v, "type"), s(v, "json")),
        "error_text" => Ok(json!(match s(v, "kind") {
            "model_load" => SnipsNluError::ModelLoad(s(v, "arg").to_string()).to_string(),
            "version" => SnipsNluError::WrongModelVersion { model: s(v, "arg").to_string(), runner: MODEL_VERSION }
                .to_string(),
            "intent" => SnipsNluError::UnknownIntent(s(v, "arg").to_string()).to_string(),
            "internal" => SnipsNluError::InternalError(s(v, "arg").to_string()).to_string(),
            "not_injectable" => injection::NluInjectionError::from(
                NluInjectionErrorKind::EntityNotInjectable { msg: s(v, "arg").to_string() }).to_string(),
            _ => injection::NluInjectionError::from(
                NluInjectionErrorKind::InternalInjectionError { msg: s(v, "arg").to_string() }).to_string(),
        })),
        "error_cause" => {
            // what a caller sees of an injection error that has a cause
            use failure::{Fail, ResultExt};
            let inner: std::result::Result<(), io::Error> = Err(io::Error::new(io::ErrorKind::Other, s(v, "arg")));
            let ctx = inner.with_context(|_| match s(v, "kind") {
                "not_injectable" => NluInjectionErrorKind::EntityNotInjectable { msg: "m".to_string() },
                _ => NluInjectionErrorKind::InternalInjectionError { msg: "m".to_string() },
            });
            let e: injection::NluInjectionError = ctx.unwrap_err().into();
            let cause = e.cause().map(|c| c.to_string());
            let err = failure::Error::from(e);
            Ok(json!({"cause": cause, "chain": err.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>()}))
        }
        "ffi" => ffi::run(v),
        other => Err(failure::format_err!("DRIVER unknown op {}", other)),
    }
}

pub fn err_json(e: &failure::Error) -> Value {
    let chain: Vec<String> = e.iter_chain().map(|c| c.to_string()).collect();
    json!({"r": "err", "chain": chain, "top": e.to_string()})
}

fn guarded(v: &Value) -> Value {
    let seq0 = SEQ.fetch_add(1, Ordering::SeqCst);
    let mut out = match panic::catch_unwind(AssertUnwindSafe(|| run(v))) {
        Ok(Ok(val)) => json!({"r": "ok", "v": val}),
        Ok(Err(e)) => err_json(&e),
        Err(_) => json!({"r": "panic", "m": PANIC.with(|p| p.borrow().clone())}),
    };
    let seq1 = SEQ.fetch_add(1, Ordering::SeqCst);
    out["s0"] = json!(seq0);
    out["s1"] = json!(seq1);
    out
}

fn threads(v: &Value) -> Value {
    let lists: Vec<Vec<Value>> = v["threads"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .map(|t| t.as_array().cloned().unwrap_or_default())
        .collect();
    let barrier = Arc::new(Barrier::new(lists.len().max(1)));
    let done: Arc<Mutex<Vec<Vec<Value>>>> = Arc::new(Mutex::new(vec![vec![]; lists.len()]));
    let handles: Vec<_> = lists
        .into_iter()
        .enumerate()
        .map(|(t, ops)| {
            let (barrier, done) = (barrier.clone(), done.clone());
            std::thread::spawn(move || {
                barrier.wait();
                for op in ops {
                    let out = guarded(&op);
                    done.lock().unwrap_or_else(|e| e.into_inner())[t].push(out);
                }
            })
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    let results = done.lock().unwrap_or_else(|e| e.into_inner()).clone();
    json!({"r": "ok", "v": results})
}

type Job = (Value, std::sync::mpsc::Sender<Value>);
lazy_static::lazy_static! {
    static ref WORKERS: Mutex<HashMap<u64, std::sync::mpsc::Sender<Job>>> = Mutex::new(HashMap::new());
}
/// Runs one request on a thread of its own that stays for the next ones
fn on(v: &Value) -> Value {
    let (tx, rx) = std::sync::mpsc::channel();
    WORKERS
        .lock()
        .unwrap()
        .entry(v["t"].as_u64().unwrap_or(0))
        .or_insert_with(|| {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::spawn(move || {
                for (req, back) in rx {
                    let _ = back.send(guarded(&req));
                }
            });
            tx
        })
        .send((v["req"].clone(), tx))
        .unwrap();
    rx.recv().unwrap()
}

/// as the parsers see a text: lowercased character by character when that changes its length
fn lowercase_in_place(text: &str) -> String {
    let low = text.to_lowercase();
    if low.chars().count() == text.chars().count() {
        return low;
    }
    text.chars()
        .map(|c| {
            let l: Vec<char> = c.to_lowercase().collect();
            if l.len() == 1 { l[0] } else { c }
        })
        .collect()
}

fn main() {
    panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let stdin = io::stdin();
    // what the library prints is no part of the answers
    let mut w = unsafe {
        let own = libc::dup(1);
        libc::dup2(2, 1);
        <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(own)
    };
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("DRIVER request");
        let out = match s(&v, "op") {
            "threads" => threads(&v),
            "on" => on(&v),
            _ => guarded(&v),
        };
        w.write_all(format!("{}\n", out).as_bytes()).unwrap();
    }
}
