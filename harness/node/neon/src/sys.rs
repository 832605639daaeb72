//! The part of Node-API that is needed; node itself exports these.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_void};

pub type napi_env = *mut c_void;
pub type napi_value = *mut c_void;
pub type napi_callback_info = *mut c_void;
pub type napi_async_work = *mut c_void;
pub type napi_ref = *mut c_void;
pub type napi_callback = Option<unsafe extern "C" fn(napi_env, napi_callback_info) -> napi_value>;
pub type napi_finalize = Option<unsafe extern "C" fn(napi_env, *mut c_void, *mut c_void)>;
pub type Status = i32;

#[repr(C)]
pub struct napi_property_descriptor {
    pub utf8name: *const c_char,
    pub name: napi_value,
    pub method: napi_callback,
    pub getter: napi_callback,
    pub setter: napi_callback,
    pub value: napi_value,
    pub attributes: i32,
    pub data: *mut c_void,
}

#[repr(C)]
pub struct napi_type_tag {
    pub lower: u64,
    pub upper: u64,
}

pub const UNDEFINED: i32 = 0;
pub const NULL: i32 = 1;
pub const BOOLEAN: i32 = 2;
pub const NUMBER: i32 = 3;
pub const STRING: i32 = 4;
pub const OBJECT: i32 = 6;
pub const FUNCTION: i32 = 7;

pub const WRITABLE: i32 = 1;
pub const CONFIGURABLE: i32 = 4;

extern "C" {
    pub fn napi_typeof(e: napi_env, v: napi_value, r: *mut i32) -> Status;
    pub fn napi_get_undefined(e: napi_env, r: *mut napi_value) -> Status;
    pub fn napi_get_null(e: napi_env, r: *mut napi_value) -> Status;
    pub fn napi_get_global(e: napi_env, r: *mut napi_value) -> Status;
    pub fn napi_get_boolean(e: napi_env, b: bool, r: *mut napi_value) -> Status;
    pub fn napi_create_double(e: napi_env, n: f64, r: *mut napi_value) -> Status;
    pub fn napi_create_string_utf8(e: napi_env, s: *const c_char, n: usize, r: *mut napi_value) -> Status;
    pub fn napi_create_object(e: napi_env, r: *mut napi_value) -> Status;
    pub fn napi_create_array_with_length(e: napi_env, n: usize, r: *mut napi_value) -> Status;
    pub fn napi_create_arraybuffer(e: napi_env, n: usize, data: *mut *mut c_void, r: *mut napi_value) -> Status;
    pub fn napi_create_function(e: napi_env, name: *const c_char, n: usize, cb: napi_callback, data: *mut c_void, r: *mut napi_value) -> Status;
    pub fn napi_get_value_bool(e: napi_env, v: napi_value, r: *mut bool) -> Status;
    pub fn napi_get_value_double(e: napi_env, v: napi_value, r: *mut f64) -> Status;
    pub fn napi_get_value_string_utf8(e: napi_env, v: napi_value, buf: *mut c_char, n: usize, r: *mut usize) -> Status;
    pub fn napi_is_array(e: napi_env, v: napi_value, r: *mut bool) -> Status;
    pub fn napi_is_arraybuffer(e: napi_env, v: napi_value, r: *mut bool) -> Status;
    pub fn napi_get_arraybuffer_info(e: napi_env, v: napi_value, data: *mut *mut c_void, n: *mut usize) -> Status;
    pub fn napi_get_array_length(e: napi_env, v: napi_value, r: *mut u32) -> Status;
    pub fn napi_get_property_names(e: napi_env, v: napi_value, r: *mut napi_value) -> Status;
    pub fn napi_get_property(e: napi_env, o: napi_value, k: napi_value, r: *mut napi_value) -> Status;
    pub fn napi_set_property(e: napi_env, o: napi_value, k: napi_value, v: napi_value) -> Status;
    pub fn napi_get_element(e: napi_env, o: napi_value, i: u32, r: *mut napi_value) -> Status;
    pub fn napi_set_element(e: napi_env, o: napi_value, i: u32, v: napi_value) -> Status;
    pub fn napi_get_cb_info(e: napi_env, i: napi_callback_info, argc: *mut usize, argv: *mut napi_value, this: *mut napi_value, data: *mut *mut c_void) -> Status;
    pub fn napi_get_new_target(e: napi_env, i: napi_callback_info, r: *mut napi_value) -> Status;
    pub fn napi_define_class(e: napi_env, name: *const c_char, n: usize, ctor: napi_callback, data: *mut c_void, count: usize, props: *const napi_property_descriptor, r: *mut napi_value) -> Status;
    pub fn napi_wrap(e: napi_env, o: napi_value, native: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_ref) -> Status;
    pub fn napi_unwrap(e: napi_env, o: napi_value, r: *mut *mut c_void) -> Status;
    pub fn napi_type_tag_object(e: napi_env, o: napi_value, tag: *const napi_type_tag) -> Status;
    pub fn napi_check_object_type_tag(e: napi_env, o: napi_value, tag: *const napi_type_tag, r: *mut bool) -> Status;
    pub fn napi_throw(e: napi_env, v: napi_value) -> Status;
    pub fn napi_throw_error(e: napi_env, code: *const c_char, msg: *const c_char) -> Status;
    pub fn napi_throw_type_error(e: napi_env, code: *const c_char, msg: *const c_char) -> Status;
    pub fn napi_throw_range_error(e: napi_env, code: *const c_char, msg: *const c_char) -> Status;
    pub fn napi_is_exception_pending(e: napi_env, r: *mut bool) -> Status;
    pub fn napi_get_and_clear_last_exception(e: napi_env, r: *mut napi_value) -> Status;
    pub fn napi_create_reference(e: napi_env, v: napi_value, n: u32, r: *mut napi_ref) -> Status;
    pub fn napi_delete_reference(e: napi_env, r: napi_ref) -> Status;
    pub fn napi_get_reference_value(e: napi_env, r: napi_ref, v: *mut napi_value) -> Status;
    pub fn napi_call_function(e: napi_env, this: napi_value, f: napi_value, argc: usize, argv: *const napi_value, r: *mut napi_value) -> Status;
    pub fn napi_new_instance(e: napi_env, f: napi_value, argc: usize, argv: *const napi_value, r: *mut napi_value) -> Status;
    pub fn napi_create_async_work(e: napi_env, res: napi_value, name: napi_value, exec: Option<unsafe extern "C" fn(napi_env, *mut c_void)>, done: Option<unsafe extern "C" fn(napi_env, Status, *mut c_void)>, data: *mut c_void, r: *mut napi_async_work) -> Status;
    pub fn napi_delete_async_work(e: napi_env, w: napi_async_work) -> Status;
    pub fn napi_queue_async_work(e: napi_env, w: napi_async_work) -> Status;
    pub fn napi_fatal_exception(e: napi_env, v: napi_value) -> Status;
}
