//! Stand-in for snips-nlu-ontology-ffi-macros 0.67.1: the C views of the
//! result types, laid out as platforms/c/libsnips_nlu.h declares them.
use libc::{c_char, c_void};
use snips_nlu_ontology::{
    IntentClassifierResult, IntentParserAlternative, IntentParserResult, Slot, SlotValue,
};
use std::ffi::CString;
use std::ptr::null;

fn cstr(s: &str) -> *const c_char {
    CString::new(s.replace('\0', "")).expect("no interior nul").into_raw()
}
unsafe fn free_cstr(p: *const c_char) {
    if !p.is_null() {
        drop(CString::from_raw(p as *mut c_char));
    }
}
fn boxed<T>(t: T) -> *const T {
    Box::into_raw(Box::new(t)) as *const T
}
unsafe fn unbox<T>(p: *const T) {
    if !p.is_null() {
        drop(Box::from_raw(p as *mut T));
    }
}
fn array<T>(v: Vec<T>) -> (*const T, i32) {
    let n = v.len() as i32;
    (Box::into_raw(v.into_boxed_slice()) as *const T, n)
}
unsafe fn free_array<T>(p: *const T, n: i32) {
    if !p.is_null() {
        drop(Vec::from_raw_parts(p as *mut T, n as usize, n as usize));
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResult {
    pub intent_name: *const c_char,
    pub confidence_score: f32,
}
impl From<IntentClassifierResult> for CIntentClassifierResult {
    fn from(r: IntentClassifierResult) -> Self {
        CIntentClassifierResult {
            intent_name: r.intent_name.map(|s| cstr(&s)).unwrap_or(null()),
            confidence_score: r.confidence_score,
        }
    }
}
impl Drop for CIntentClassifierResult {
    fn drop(&mut self) {
        unsafe { free_cstr(self.intent_name) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResultArray {
    pub intent_classifier_results: *const CIntentClassifierResult,
    pub size: i32,
}
impl From<Vec<IntentClassifierResult>> for CIntentClassifierResultArray {
    fn from(r: Vec<IntentClassifierResult>) -> Self {
        let (intent_classifier_results, size) = array(r.into_iter().map(|x| x.into()).collect());
        CIntentClassifierResultArray { intent_classifier_results, size }
    }
}
impl Drop for CIntentClassifierResultArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_classifier_results, self.size) }
    }
}

/// Opaque value: kept as its JSON image behind the pointer of the real layout.
#[repr(C)]
#[derive(Debug)]
pub struct CSlotValue {
    pub value: *const c_void,
    pub value_type: i32,
}
fn value_type(v: &SlotValue) -> i32 {
    match v {
        SlotValue::Custom(_) => 1,
        SlotValue::Number(_) => 2,
        SlotValue::Ordinal(_) => 3,
        SlotValue::InstantTime(_) => 4,
        SlotValue::TimeInterval(_) => 5,
        SlotValue::AmountOfMoney(_) => 6,
        SlotValue::Temperature(_) => 7,
        SlotValue::Duration(_) => 8,
        SlotValue::Percentage(_) => 9,
        SlotValue::MusicAlbum(_) => 10,
        SlotValue::MusicArtist(_) => 11,
        SlotValue::MusicTrack(_) => 12,
        SlotValue::City(_) => 13,
        SlotValue::Country(_) => 14,
        SlotValue::Region(_) => 15,
    }
}
impl From<SlotValue> for CSlotValue {
    fn from(v: SlotValue) -> Self {
        let t = value_type(&v);
        CSlotValue { value: boxed(v) as *const c_void, value_type: t }
    }
}
impl CSlotValue {
    pub fn slot_value(&self) -> &SlotValue {
        unsafe { &*(self.value as *const SlotValue) }
    }
}
impl Drop for CSlotValue {
    fn drop(&mut self) {
        unsafe { unbox(self.value as *const SlotValue) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotValueArray {
    pub slot_values: *const CSlotValue,
    pub size: i32,
}
impl From<Vec<SlotValue>> for CSlotValueArray {
    fn from(r: Vec<SlotValue>) -> Self {
        let (slot_values, size) = array(r.into_iter().map(|x| x.into()).collect());
        CSlotValueArray { slot_values, size }
    }
}
impl Drop for CSlotValueArray {
    fn drop(&mut self) {
        unsafe { free_array(self.slot_values, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlot {
    pub value: *const CSlotValue,
    pub alternatives: *const CSlotValueArray,
    pub raw_value: *const c_char,
    pub entity: *const c_char,
    pub slot_name: *const c_char,
    pub range_start: i32,
    pub range_end: i32,
    pub confidence_score: f32,
}
impl From<Slot> for CSlot {
    fn from(s: Slot) -> Self {
        CSlot {
            value: boxed(CSlotValue::from(s.value)),
            alternatives: boxed(CSlotValueArray::from(s.alternatives)),
            raw_value: cstr(&s.raw_value),
            entity: cstr(&s.entity),
            slot_name: cstr(&s.slot_name),
            range_start: s.range.start as i32,
            range_end: s.range.end as i32,
            confidence_score: s.confidence_score.unwrap_or(-1.),
        }
    }
}
impl Drop for CSlot {
    fn drop(&mut self) {
        unsafe {
            unbox(self.value);
            unbox(self.alternatives);
            free_cstr(self.raw_value);
            free_cstr(self.entity);
            free_cstr(self.slot_name);
        }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotList {
    pub slots: *const CSlot,
    pub size: i32,
}
impl From<Vec<Slot>> for CSlotList {
    fn from(r: Vec<Slot>) -> Self {
        let (slots, size) = array(r.into_iter().map(|x| x.into()).collect());
        CSlotList { slots, size }
    }
}
impl Drop for CSlotList {
    fn drop(&mut self) {
        unsafe { free_array(self.slots, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternative {
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
}
impl From<IntentParserAlternative> for CIntentParserAlternative {
    fn from(r: IntentParserAlternative) -> Self {
        CIntentParserAlternative { intent: boxed(r.intent.into()), slots: boxed(r.slots.into()) }
    }
}
impl Drop for CIntentParserAlternative {
    fn drop(&mut self) {
        unsafe {
            unbox(self.intent);
            unbox(self.slots);
        }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternativeArray {
    pub intent_parser_alternatives: *const CIntentParserAlternative,
    pub size: i32,
}
impl From<Vec<IntentParserAlternative>> for CIntentParserAlternativeArray {
    fn from(r: Vec<IntentParserAlternative>) -> Self {
        let (intent_parser_alternatives, size) = array(r.into_iter().map(|x| x.into()).collect());
        CIntentParserAlternativeArray { intent_parser_alternatives, size }
    }
}
impl Drop for CIntentParserAlternativeArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_parser_alternatives, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserResult {
    pub input: *const c_char,
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
    pub alternatives: *const CIntentParserAlternativeArray,
}
impl From<IntentParserResult> for CIntentParserResult {
    fn from(r: IntentParserResult) -> Self {
        CIntentParserResult {
            input: cstr(&r.input),
            intent: boxed(r.intent.into()),
            slots: boxed(r.slots.into()),
            alternatives: boxed(r.alternatives.into()),
        }
    }
}
impl Drop for CIntentParserResult {
    fn drop(&mut self) {
        unsafe {
            free_cstr(self.input);
            unbox(self.intent);
            unbox(self.slots);
            unbox(self.alternatives);
        }
    }
}
