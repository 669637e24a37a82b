//! Requests through the C interface (the exported functions of snips-nlu-ffi), with the C
//! structures read back into the JSON form of the library's results.
use crate::{get, put, s, strs, Obj, Reply};
use failure::format_err;
use ffi_utils::{CStringArray, SNIPS_RESULT};
use libc::{c_char, c_int, c_uint};
use serde_json::{json, Value};
use snips_nlu_ffi::*;
use snips_nlu_ontology_ffi_macros::*;
use std::ffi::{CStr, CString};
use std::ptr::null;

struct Strs {
    _own: Vec<Option<CString>>,
    _ptrs: Vec<*const c_char>,
    arr: CStringArray,
}
/// ["a", null, {"bytes": [255]}] or {"null": size}: data that is null
fn carray(v: &Value) -> Option<Box<Strs>> {
    if let Some(n) = v["null"].as_i64() {
        return Some(Box::new(Strs { _own: vec![], _ptrs: vec![], arr: CStringArray { data: null(), size: n as c_int } }));
    }
    v.as_array().map(|l| {
        let own: Vec<Option<CString>> = l
            .iter()
            .map(|x| match (x.as_str(), x["bytes"].as_array()) {
                (Some(t), _) => Some(CString::new(t).unwrap()),
                (_, Some(b)) => Some(CString::new(b.iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<u8>>()).unwrap()),
                _ => None,
            })
            .collect();
        let ptrs: Vec<*const c_char> = own.iter().map(|x| ptr(x)).collect();
        let arr = CStringArray { data: ptrs.as_ptr(), size: ptrs.len() as c_int };
        Box::new(Strs { _own: own, _ptrs: ptrs, arr })
    })
}
fn cin(v: &Value, key: &str) -> Option<CString> {
    if let Some(b) = v[format!("{}_bytes", key)].as_array() {
        return Some(CString::new(b.iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<u8>>()).unwrap());
    }
    v[key].as_str().map(|x| CString::new(x).unwrap())
}
fn ptr(c: &Option<CString>) -> *const c_char {
    c.as_ref().map(|x| x.as_ptr()).unwrap_or(null())
}
unsafe fn text(p: *const c_char) -> Value {
    if p.is_null() {
        Value::Null
    } else {
        json!(CStr::from_ptr(p).to_str().unwrap_or("<invalid utf8>"))
    }
}
unsafe fn list<'a, T>(p: *const T, n: i32) -> &'a [T] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n as usize)
    }
}
unsafe fn intent(r: &CIntentClassifierResult) -> Value {
    json!({"intentName": text(r.intent_name), "confidenceScore": r.confidence_score})
}
unsafe fn slot(r: &CSlot) -> Value {
    json!({
        "rawValue": text(r.raw_value),
        "value": serde_json::to_value((*r.value).slot_value()).unwrap(),
        "alternatives": list((*r.alternatives).slot_values, (*r.alternatives).size).iter()
            .map(|x| serde_json::to_value(x.slot_value()).unwrap()).collect::<Vec<_>>(),
        "range": {"start": r.range_start, "end": r.range_end},
        "entity": text(r.entity),
        "slotName": text(r.slot_name),
        "confidenceScore": if r.confidence_score < 0.0 { Value::Null } else { json!(r.confidence_score) },
    })
}
unsafe fn slots(r: &CSlotList) -> Value {
    Value::Array(list(r.slots, r.size).iter().map(|x| slot(x)).collect())
}
unsafe fn result(r: &CIntentParserResult) -> Value {
    json!({
        "input": text(r.input),
        "intent": intent(&*r.intent),
        "slots": slots(&*r.slots),
        "alternatives": list((*r.alternatives).intent_parser_alternatives, (*r.alternatives).size).iter()
            .map(|a| json!({"intent": intent(&*a.intent), "slots": slots(&*a.slots)})).collect::<Vec<_>>(),
    })
}
fn last_error() -> String {
    let mut p: *const c_char = null();
    match snips_nlu_engine_get_last_error(&mut p) {
        SNIPS_RESULT::SNIPS_RESULT_OK => unsafe {
            seen(p);
            let t = CStr::from_ptr(p).to_string_lossy().to_string();
            snips_nlu_engine_destroy_string(p as *mut c_char);
            t
        },
        _ => "<no last error>".to_string(),
    }
}

/// whether something was handed over in a way that the stand-in does not see
static BLIND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn seen<T>(p: *const T) {
    if !p.is_null() && !ffi_utils::verif_log_has(p as usize) {
        BLIND.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

pub fn run(v: &Value) -> Reply {
    let f = s(v, "f");
    if f == "last_error" {
        return Ok(json!(last_error()));
    }
    if f == "steady" {
        // the memory that is still in use after the same calls were made many times
        let calls = v["calls"].as_array().cloned().unwrap_or_default();
        let round = || -> Reply {
            for c in &calls {
                run(c)?;
            }
            ffi_utils::verif_log_take();
            Ok(Value::Null)
        };
        for _ in 0..4 {
            round()?;
        }
        let n = v["n"].as_i64().unwrap_or(16);
        let mut grown = vec![];
        for _ in 0..v["windows"].as_i64().unwrap_or(4) {
            let before = ffi_utils::verif_live_bytes();
            for _ in 0..n {
                round()?;
            }
            grown.push(ffi_utils::verif_live_bytes() - before);
        }
        return Ok(json!({"grown": grown, "n": n}));
    }
    if f == "balance" {
        // what was handed over and not taken back, and what was taken back without being handed over
        let (mut live, mut odd) = (vec![], 0);
        for (over, address, what) in ffi_utils::verif_log_take() {
            if over {
                live.push((address, what));
            } else if let Some(k) = live.iter().position(|x| x.0 == address) {
                live.remove(k);
            } else {
                odd += 1;
            }
        }
        let blind = BLIND.swap(false, std::sync::atomic::Ordering::SeqCst);
        return Ok(json!({"live": live.iter().map(|x| x.1).collect::<Vec<_>>(), "odd": odd, "blind": blind}));
    }
    let client: *const CSnipsNluEngine = match v["h"].as_str() {
        Some(_) if !f.starts_with("create") => match &*get(&v["h"])? {
            Obj::FfiEngine(p) => *p as *const CSnipsNluEngine,
            _ => return Err(format_err!("DRIVER not an ffi engine")),
        },
        _ => null(),
    };
    let input = cin(v, "text");
    let (wl, bl) = (carray(&v["wl"]), carray(&v["bl"]));
    let wlp: *const CStringArray = wl.as_ref().map(|x| &x.arr as *const _).unwrap_or(null());
    let blp: *const CStringArray = bl.as_ref().map(|x| &x.arr as *const _).unwrap_or(null());
    let ia = v["ia"].as_u64().map(|x| x as c_uint);
    let sa = v["sa"].as_u64().map(|x| x as c_uint);
    let with_alt = ia.is_some() || sa.is_some();
    let intent_name = cin(v, "intent");
    let mut out = Value::Null;
    let code = unsafe {
        match f {
            "create_dir" => {
                let path = cin(v, "path");
                let mut p: *const CSnipsNluEngine = null();
                let c = snips_nlu_engine_create_from_dir(ptr(&path), &mut p);
                if let SNIPS_RESULT::SNIPS_RESULT_OK = c {
                    seen(p);
                    put(&v["h"], Obj::FfiEngine(p as usize));
                }
                c
            }
            "create_zip" => {
                let bytes = if v["path"].is_null() { vec![] } else { std::fs::read(s(v, "path")).expect("DRIVER archive") };
                let data = if v["path"].is_null() { null() } else { bytes.as_ptr() };
                let mut p: *const CSnipsNluEngine = null();
                let c = snips_nlu_engine_create_from_zip(data, bytes.len() as c_uint, &mut p);
                if let SNIPS_RESULT::SNIPS_RESULT_OK = c {
                    seen(p);
                    put(&v["h"], Obj::FfiEngine(p as usize));
                }
                c
            }
            "destroy" => snips_nlu_engine_destroy_client(client as *mut CSnipsNluEngine),
            "version" => {
                let mut p: *const c_char = null();
                let c = snips_nlu_engine_get_model_version(&mut p);
                out = text(p);
                seen(p);
                if !p.is_null() {
                    snips_nlu_engine_destroy_string(p as *mut c_char);
                }
                c
            }
            "parse" => {
                let mut p: *const CIntentParserResult = null();
                let c = if with_alt {
                    snips_nlu_engine_run_parse_with_alternatives(
                        client, ptr(&input), wlp, blp, ia.unwrap_or(0), sa.unwrap_or(0), &mut p)
                } else {
                    snips_nlu_engine_run_parse(client, ptr(&input), wlp, blp, &mut p)
                };
                seen(p);
                if !p.is_null() {
                    out = result(&*p);
                    snips_nlu_engine_destroy_result(p as *mut _);
                }
                c
            }
            "parse_json" | "slots_json" | "intents_json" => {
                let mut p: *const c_char = null();
                let c = match (f, with_alt) {
                    ("parse_json", true) => snips_nlu_engine_run_parse_with_alternatives_into_json(
                        client, ptr(&input), wlp, blp, ia.unwrap_or(0), sa.unwrap_or(0), &mut p),
                    ("parse_json", false) => {
                        snips_nlu_engine_run_parse_into_json(client, ptr(&input), wlp, blp, &mut p)
                    }
                    ("slots_json", true) => snips_nlu_engine_run_get_slots_with_alternatives_into_json(
                        client, ptr(&input), ptr(&intent_name), sa.unwrap_or(0), &mut p),
                    ("slots_json", false) => {
                        snips_nlu_engine_run_get_slots_into_json(client, ptr(&input), ptr(&intent_name), &mut p)
                    }
                    _ => snips_nlu_engine_run_get_intents_into_json(client, ptr(&input), &mut p),
                };
                seen(p);
                if !p.is_null() {
                    let t = CStr::from_ptr(p).to_str().unwrap_or("null").to_string();
                    out = serde_json::from_str(&t).unwrap_or(json!({"bad_json": t}));
                    snips_nlu_engine_destroy_string(p as *mut c_char);
                }
                c
            }
            "slots" => {
                let mut p: *const CSlotList = null();
                let c = if with_alt {
                    snips_nlu_engine_run_get_slots_with_alternatives(
                        client, ptr(&input), ptr(&intent_name), sa.unwrap_or(0), &mut p)
                } else {
                    snips_nlu_engine_run_get_slots(client, ptr(&input), ptr(&intent_name), &mut p)
                };
                seen(p);
                if !p.is_null() {
                    out = slots(&*p);
                    snips_nlu_engine_destroy_slots(p as *mut _);
                }
                c
            }
            "intents" => {
                let mut p: *const CIntentClassifierResultArray = null();
                let c = snips_nlu_engine_run_get_intents(client, ptr(&input), &mut p);
                seen(p);
                if !p.is_null() {
                    out = Value::Array(list((*p).intent_classifier_results, (*p).size).iter().map(|x| intent(x)).collect());
                    snips_nlu_engine_destroy_intent_classifier_results(p as *mut _);
                }
                c
            }
            other => return Err(format_err!("DRIVER unknown ffi call {}", other)),
        }
    };
    let code = code as i32;
    // the message stays for the thread until it is asked for: the caller says when
    let message = if code != 0 && !v["keep_error"].as_bool().unwrap_or(false) { json!(last_error()) } else { Value::Null };
    Ok(json!({"code": code, "out": out, "message": message}))
}
