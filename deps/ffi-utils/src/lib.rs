//! Stand-in for snips-utils-rs/ffi-utils (the part the FFI crates use).
use std::cell::RefCell;
use std::ffi::{CStr, CString};

use failure::{format_err, Error};

#[repr(C)]
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SNIPS_RESULT {
    SNIPS_RESULT_OK = 0,
    SNIPS_RESULT_KO = 1,
}

#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}

thread_local! {
    pub static LAST_ERROR: RefCell<Option<String>> = RefCell::new(None);
}

pub trait ErrorExt {
    fn pretty(&self) -> String;
}
impl ErrorExt for Error {
    fn pretty(&self) -> String {
        let mut out = String::new();
        for (i, e) in self.iter_chain().enumerate() {
            if i == 0 {
                out.push_str(&format!("Error: {}", e));
            } else {
                out.push_str(&format!("\n Caused by: {}", e));
            }
        }
        out
    }
}

pub fn record_error(e: &Error) {
    let msg = e.pretty();
    if std::env::var_os("VERIF_FFI_QUIET").is_none() {
        eprintln!("{}", msg);
    }
    LAST_ERROR.with(|p| *p.borrow_mut() = Some(msg));
}

pub fn get_last_error(error: *mut *const libc::c_char) -> SNIPS_RESULT {
    let msg = LAST_ERROR
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "No error message".to_string());
    match point_to_string(error, msg) {
        Ok(_) => SNIPS_RESULT::SNIPS_RESULT_OK,
        Err(_) => SNIPS_RESULT::SNIPS_RESULT_KO,
    }
}

#[macro_export]
macro_rules! generate_error_handling {
    ($name:ident) => {
        #[no_mangle]
        pub extern "C" fn $name(error: *mut *const ::libc::c_char) -> $crate::SNIPS_RESULT {
            $crate::get_last_error(error)
        }
    };
}

#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                $crate::record_error(&::failure::Error::from(e));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}

#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {
        $crate::rust_string($pointer)?
    };
}
#[macro_export]
macro_rules! create_optional_rust_string_from {
    ($pointer:expr) => {
        if $pointer.is_null() {
            None
        } else {
            Some($crate::rust_string($pointer)?)
        }
    };
}
#[macro_export]
macro_rules! convert_to_c_string {
    ($s:expr) => {
        ::std::ffi::CString::new($s)?.into_raw()
    };
}

pub fn rust_string(p: *const libc::c_char) -> Result<String, Error> {
    if p.is_null() {
        return Err(format_err!("unexpected null string pointer"));
    }
    Ok(unsafe { CStr::from_ptr(p) }.to_str()?.to_string())
}

pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<(), Error> {
    let c = CString::new(string)?;
    let raw = c.into_raw();
    note(true, raw as usize, "string");
    unsafe { *pointer = raw };
    Ok(())
}

/// What was handed over to the caller and taken back: (handed over, address, type)
pub type Handed = (bool, usize, &'static str);
static LOG: std::sync::Mutex<Vec<Handed>> = std::sync::Mutex::new(vec![]);
pub fn verif_log_take() -> Vec<Handed> {
    std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()))
}
/// Whether this address was handed over since the log was last taken
pub fn verif_log_has(address: usize) -> bool {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).iter().any(|x| x.0 && x.1 == address)
}

/// The memory in use, whoever asked for it
struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
#[no_mangle]
pub extern "C" fn verif_live_bytes() -> i64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}

fn note(over: bool, address: usize, what: &'static str) {
    if std::env::var_os("VERIF_FFI_NOLOG").is_none() {
        LOG.lock().unwrap_or_else(|e| e.into_inner()).push((over, address, what));
    }
    if let Some(path) = std::env::var_os("VERIF_FFI_LOG") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(path).expect("VERIF_FFI_LOG");
        let _ = writeln!(f, "{} {} {}", if over { "+" } else { "-" }, address, what);
    }
}

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    fn into_raw_pointer_mut(self) -> *mut T {
        self.into_raw_pointer() as *mut T
    }
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self, Error>;
    unsafe fn from_raw_pointer_mut(input: *mut T) -> Result<Self, Error> {
        Self::from_raw_pointer(input as *const T)
    }
    unsafe fn drop_raw_pointer(input: *const T) -> Result<(), Error> {
        Self::from_raw_pointer(input).map(|_| ())
    }
}
impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T {
        let raw = Box::into_raw(Box::new(self)) as *const T;
        note(true, raw as usize, std::any::type_name::<T>());
        raw
    }
    unsafe fn from_raw_pointer(input: *const T) -> Result<T, Error> {
        if input.is_null() {
            return Err(format_err!("could not take back a null pointer"));
        }
        note(false, input as usize, std::any::type_name::<T>());
        Ok(*Box::from_raw(input as *mut T))
    }
}
impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        let raw = self.into_raw() as *const _;
        note(true, raw as usize, "string");
        raw
    }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<CString, Error> {
        if input.is_null() {
            return Err(format_err!("could not take back a null pointer"));
        }
        note(false, input as usize, "string");
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
}

pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error>;
}
impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error> {
        input.as_ref().ok_or_else(|| format_err!("could not borrow a null pointer"))
    }
}
pub trait RawBorrowMut<T> {
    unsafe fn raw_borrow_mut<'a>(input: *mut T) -> Result<&'a mut Self, Error>;
}
impl<T> RawBorrowMut<T> for T {
    unsafe fn raw_borrow_mut<'a>(input: *mut T) -> Result<&'a mut Self, Error> {
        input.as_mut().ok_or_else(|| format_err!("could not borrow a null pointer"))
    }
}
