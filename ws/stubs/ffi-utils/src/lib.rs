#![allow(warnings)]
//! Type-level stand-in for snips-utils-rs/ffi-utils at rev 4292ad9 (not available offline).
use std::cell::RefCell;
pub use failure::{format_err, Error, ResultExt};
use std::ffi::{CStr, CString};

#[repr(C)]
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum SNIPS_RESULT {
    SNIPS_RESULT_OK = 0,
    SNIPS_RESULT_KO = 1,
}
thread_local! {
    pub static LAST_ERROR: RefCell<Option<String>> = RefCell::new(None);
}

#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                let msg = $crate::ErrorExt::pretty(&e).to_string();
                eprintln!("{}", msg);
                $crate::LAST_ERROR.with(|p| *p.borrow_mut() = Some(msg));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}
pub trait ErrorExt {
    fn pretty(&self) -> String;
}
impl ErrorExt for failure::Error {
    fn pretty(&self) -> String {
        self.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join("\n -> caused by: ")
    }
}
#[macro_export]
macro_rules! generate_error_handling {
    ($get_error_name:ident) => {
        #[no_mangle]
        pub extern "C" fn $get_error_name(error: *mut *const ::libc::c_char) -> $crate::SNIPS_RESULT {
            wrap!($crate::get_last_error(error))
        }
    };
}
pub fn get_last_error(error: *mut *const libc::c_char) -> Result<(), Error> {
    point_to_string(error, LAST_ERROR.with(|msg| msg.borrow().clone()).unwrap_or_else(|| "No error message".to_string()))
}
pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<(), Error> {
    unsafe { *pointer = CString::c_repr_of(string)?.into_raw_pointer() }
    Ok(())
}
#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {{
        unsafe { <::std::ffi::CStr as $crate::RawBorrow<::libc::c_char>>::raw_borrow($pointer) }?
            .to_str()
            .context("Could not convert pointer to rust str")?
            .to_owned()
    }};
}
#[macro_export]
macro_rules! create_optional_rust_string_from {
    ($pointer:expr) => {
        match unsafe { $pointer.as_ref() } {
            Some(thing) => Some(create_rust_string_from!(thing)),
            None => None,
        }
    };
}
#[macro_export]
macro_rules! convert_to_c_string {
    ($string:expr) => {
        $crate::convert_to_c_string_result!($string)?
    };
}
#[macro_export]
macro_rules! convert_to_c_string_result {
    ($string:expr) => {
        ::std::ffi::CString::c_repr_of($string).map(|s| s.into_raw_pointer())
    };
}
#[macro_export]
macro_rules! take_back_c_string {
    ($pointer:expr) => {{
        let _ = unsafe { ::std::ffi::CString::from_raw_pointer($pointer) };
    }};
}

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    fn into_raw_pointer_mut(self) -> *mut T;
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self, Error>;
    unsafe fn from_raw_pointer_mut(input: *mut T) -> Result<Self, Error>;
    unsafe fn drop_raw_pointer(input: *const T) -> Result<(), Error> {
        Self::from_raw_pointer(input).map(|_| ())
    }
    unsafe fn drop_raw_pointer_mut(input: *mut T) -> Result<(), Error> {
        Self::from_raw_pointer_mut(input).map(|_| ())
    }
}
pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error>;
}
pub trait RawBorrowMut<T> {
    unsafe fn raw_borrow_mut<'a>(input: *mut T) -> Result<&'a mut Self, Error>;
}
impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T {
        Box::into_raw(Box::new(self)) as _
    }
    fn into_raw_pointer_mut(self) -> *mut T {
        Box::into_raw(Box::new(self))
    }
    unsafe fn from_raw_pointer(input: *const T) -> Result<T, Error> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(*Box::from_raw(input as *mut T))
    }
    unsafe fn from_raw_pointer_mut(input: *mut T) -> Result<T, Error> {
        Self::from_raw_pointer(input as *const T)
    }
}
impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        self.into_raw() as _
    }
    fn into_raw_pointer_mut(self) -> *mut libc::c_char {
        self.into_raw()
    }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<Self, Error> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
    unsafe fn from_raw_pointer_mut(input: *mut libc::c_char) -> Result<Self, Error> {
        Self::from_raw_pointer(input as *const libc::c_char)
    }
}
impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self, Error> {
        input.as_ref().ok_or_else(|| format_err!("could not borrow, unexpected null pointer"))
    }
}
impl<T> RawBorrowMut<T> for T {
    unsafe fn raw_borrow_mut<'a>(input: *mut T) -> Result<&'a mut Self, Error> {
        input.as_mut().ok_or_else(|| format_err!("could not borrow, unexpected null pointer"))
    }
}
impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(input: *const libc::c_char) -> Result<&'a Self, Error> {
        if input.is_null() {
            return Err(format_err!("could not borrow, unexpected null pointer"));
        }
        Ok(CStr::from_ptr(input))
    }
}
pub trait CReprOf<T>: Sized {
    fn c_repr_of(input: T) -> Result<Self, Error>;
}
impl CReprOf<String> for CString {
    fn c_repr_of(input: String) -> Result<Self, Error> {
        Ok(CString::new(input)?)
    }
}
pub trait AsRust<T> {
    fn as_rust(&self) -> Result<T, Error>;
}
impl AsRust<String> for CStr {
    fn as_rust(&self) -> Result<String, Error> {
        self.to_str().map(|s| s.to_owned()).map_err(|e| e.into())
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}
impl AsRust<Vec<String>> for CStringArray {
    fn as_rust(&self) -> Result<Vec<String>, Error> {
        let mut result = vec![];
        let strings = unsafe { std::slice::from_raw_parts_mut(self.data as *mut *mut libc::c_char, self.size as usize) };
        for s in strings {
            result.push(unsafe { CStr::raw_borrow(*s) }?.as_rust()?)
        }
        Ok(result)
    }
}
impl CReprOf<Vec<String>> for CStringArray {
    fn c_repr_of(input: Vec<String>) -> Result<Self, Error> {
        Ok(Self {
            size: input.len() as libc::c_int,
            data: Box::into_raw(
                input
                    .into_iter()
                    .map(|s| CString::c_repr_of(s).map(|s| s.into_raw_pointer()))
                    .collect::<Result<Vec<*const libc::c_char>, _>>()?
                    .into_boxed_slice(),
            ) as *const *const libc::c_char,
        })
    }
}
impl Drop for CStringArray {
    fn drop(&mut self) {
        let _ = unsafe {
            let y: Box<[*const libc::c_char]> =
                Box::from_raw(std::slice::from_raw_parts_mut(self.data as *mut *const libc::c_char, self.size as usize));
            for p in y.iter() {
                let _ = CString::from_raw_pointer(*p);
            }
        };
    }
}
