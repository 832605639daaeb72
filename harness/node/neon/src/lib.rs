//! A stand-in for neon 0.7, which cannot be had offline: the part of its interface that carmen-core's
//! binding uses (and what lies close to it), over Node-API instead of V8's C++ interface.
pub mod sys;

pub mod result {
    use crate::{context::Context, handle::Handle};
    /// An exception is pending.
    #[derive(Debug)]
    pub struct Throw(pub(crate) ());
    impl std::fmt::Display for Throw {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("JavaScript exception")
        }
    }
    impl std::error::Error for Throw {}
    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;
    pub trait JsResultExt<'a, V: crate::types::Value> {
        fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
    }
}

pub mod env {
    use crate::sys::*;
    use std::cell::Cell;
    use std::ffi::CString;
    thread_local!(static ENV: Cell<napi_env> = Cell::new(std::ptr::null_mut()));
    pub fn set(e: napi_env) {
        ENV.with(|c| c.set(e))
    }
    pub fn get() -> napi_env {
        let e = ENV.with(|c| c.get());
        assert!(!e.is_null(), "not on the JavaScript thread");
        e
    }
    pub fn text(s: &str) -> CString {
        CString::new(s.replace('\0', " ")).unwrap()
    }
    pub fn pending() -> bool {
        let mut b = false;
        unsafe { napi_is_exception_pending(get(), &mut b) };
        b
    }
    /// the last one thrown is the one that counts
    pub fn clear() -> napi_value {
        let mut v = std::ptr::null_mut();
        if pending() {
            unsafe { napi_get_and_clear_last_exception(get(), &mut v) };
        }
        v
    }
    pub fn string(v: napi_value) -> Option<String> {
        let mut n = 0;
        unsafe {
            if napi_get_value_string_utf8(get(), v, std::ptr::null_mut(), 0, &mut n) != 0 {
                return None;
            }
            let mut buf = vec![0u8; n + 1];
            napi_get_value_string_utf8(get(), v, buf.as_mut_ptr() as *mut _, n + 1, &mut n);
            buf.truncate(n);
            Some(String::from_utf8_lossy(&buf).into_owned())
        }
    }
    pub fn kind(v: napi_value) -> i32 {
        let mut k = -1;
        unsafe { napi_typeof(get(), v, &mut k) };
        k
    }
}

pub mod handle {
    use crate::{context::Context, result::*, types::*};
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};

    pub trait Managed: Copy {}
    impl<T: Value> Managed for T {}

    #[derive(Debug)]
    pub struct Handle<'a, T: Copy + 'a> {
        pub(crate) value: T,
        pub(crate) scope: PhantomData<&'a T>,
    }
    impl<'a, T: Copy> Clone for Handle<'a, T> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'a, T: Copy> Copy for Handle<'a, T> {}
    impl<'a, T: Copy> Deref for Handle<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.value
        }
    }
    impl<'a, T: Copy> DerefMut for Handle<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.value
        }
    }

    pub trait SuperType<T: Value>: Value {}
    impl<T: Value> SuperType<T> for JsValue {}
    macro_rules! objects { ($($t:ident)*) => { $(impl SuperType<$t> for crate::types::JsObject {})* } }
    objects!(JsArray JsArrayBuffer JsFunction);

    #[derive(Debug)]
    pub struct DowncastError<F, T>(PhantomData<(F, T)>);
    impl<F: Value, T: Value> std::fmt::Display for DowncastError<F, T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "failed downcast to {}", T::type_name())
        }
    }
    impl<F: Value + std::fmt::Debug, T: Value + std::fmt::Debug> std::error::Error for DowncastError<F, T> {}
    pub type DowncastResult<'a, F, T> = Result<Handle<'a, T>, DowncastError<F, T>>;

    impl<'a, T: Value> Handle<'a, T> {
        pub fn of(raw: crate::sys::napi_value) -> Handle<'a, T> {
            Handle { value: T::from_raw(raw), scope: PhantomData }
        }
        pub fn upcast<U: Value + SuperType<T>>(&self) -> Handle<'a, U> {
            Handle::of(self.value.raw())
        }
        pub fn is_a<U: Value>(&self) -> bool {
            U::is_type_of(self.value.raw())
        }
        pub fn downcast<U: Value>(&self) -> DowncastResult<'a, T, U> {
            if self.is_a::<U>() {
                Ok(Handle::of(self.value.raw()))
            } else {
                Err(DowncastError(PhantomData))
            }
        }
        pub fn downcast_or_throw<'b, U: Value, C: Context<'b>>(&self, cx: &mut C) -> JsResult<'a, U> {
            self.downcast::<U>().or_throw(cx)
        }
    }
    impl<'a, F: Value, T: Value> JsResultExt<'a, T> for DowncastResult<'a, F, T> {
        fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
            match self {
                Ok(h) => Ok(h),
                Err(e) => cx.throw_type_error(e.to_string()),
            }
        }
    }
}

pub mod types {
    use crate::{context::Context, env, handle::Handle, object::Object, result::*, sys::*};

    pub trait Value: Copy {
        fn raw(self) -> napi_value;
        fn from_raw(raw: napi_value) -> Self;
        fn is_type_of(raw: napi_value) -> bool;
        fn type_name() -> String;
        #[allow(unused_variables)]
        fn to_string<'a, C: Context<'a>>(self, cx: &mut C) -> JsResult<'a, JsString> {
            let s = env::string(self.raw()).unwrap_or_default();
            Ok(JsString::new(cx, s))
        }
        fn as_value<'a, C: Context<'a>>(self, _: &mut C) -> Handle<'a, JsValue> {
            Handle::of(self.raw())
        }
    }
    macro_rules! value {
        ($t:ident, $name:expr, $v:ident => $is:expr) => {
            #[derive(Clone, Copy, Debug)]
            pub struct $t(pub(crate) napi_value);
            impl Value for $t {
                fn raw(self) -> napi_value {
                    self.0
                }
                fn from_raw(raw: napi_value) -> Self {
                    $t(raw)
                }
                fn is_type_of($v: napi_value) -> bool {
                    $is
                }
                fn type_name() -> String {
                    $name.to_string()
                }
            }
        };
    }
    fn test(f: unsafe extern "C" fn(napi_env, napi_value, *mut bool) -> Status, v: napi_value) -> bool {
        let mut b = false;
        unsafe { f(env::get(), v, &mut b) };
        b
    }
    value!(JsValue, "any", _v => true);
    value!(JsUndefined, "undefined", v => env::kind(v) == UNDEFINED);
    value!(JsNull, "null", v => env::kind(v) == NULL);
    value!(JsBoolean, "boolean", v => env::kind(v) == BOOLEAN);
    value!(JsNumber, "number", v => env::kind(v) == NUMBER);
    value!(JsString, "string", v => env::kind(v) == STRING);
    value!(JsObject, "object", v => env::kind(v) == OBJECT || env::kind(v) == FUNCTION);
    value!(JsFunction, "function", v => env::kind(v) == FUNCTION);
    value!(JsArray, "Array", v => test(napi_is_array, v));
    value!(JsArrayBuffer, "ArrayBuffer", v => test(napi_is_arraybuffer, v));
    impl Object for JsObject {}
    impl Object for JsFunction {}
    impl Object for JsArray {}
    impl Object for JsArrayBuffer {}

    pub(crate) fn make<'a, T: Value>(f: impl FnOnce(napi_env, *mut napi_value) -> Status) -> Handle<'a, T> {
        let mut v = std::ptr::null_mut();
        let s = f(env::get(), &mut v);
        assert!(s == 0, "Node-API says {}", s);
        Handle::of(v)
    }
    impl JsUndefined {
        pub fn new<'a>() -> Handle<'a, JsUndefined> {
            make(|e, r| unsafe { napi_get_undefined(e, r) })
        }
    }
    impl JsNull {
        pub fn new<'a>() -> Handle<'a, JsNull> {
            make(|e, r| unsafe { napi_get_null(e, r) })
        }
    }
    impl JsBoolean {
        pub fn new<'a, C: Context<'a>>(_: &mut C, b: bool) -> Handle<'a, JsBoolean> {
            make(|e, r| unsafe { napi_get_boolean(e, b, r) })
        }
        pub fn value(self) -> bool {
            test(napi_get_value_bool, self.0)
        }
    }
    impl JsNumber {
        pub fn new<'a, C: Context<'a>, T: Into<f64>>(_: &mut C, n: T) -> Handle<'a, JsNumber> {
            let n = n.into();
            make(|e, r| unsafe { napi_create_double(e, n, r) })
        }
        pub fn value(self) -> f64 {
            let mut n = 0.0;
            unsafe { napi_get_value_double(env::get(), self.0, &mut n) };
            n
        }
    }
    impl JsString {
        pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> Handle<'a, JsString> {
            let s = s.as_ref();
            make(|e, r| unsafe { napi_create_string_utf8(e, s.as_ptr() as *const _, s.len(), r) })
        }
        pub fn try_new<'a, C: Context<'a>, S: AsRef<str>>(cx: &mut C, s: S) -> Result<Handle<'a, JsString>, Throw> {
            Ok(JsString::new(cx, s))
        }
        /// in bytes of UTF-8
        pub fn size(self) -> isize {
            let mut n = 0;
            unsafe { napi_get_value_string_utf8(env::get(), self.0, std::ptr::null_mut(), 0, &mut n) };
            n as isize
        }
        pub fn value(self) -> String {
            env::string(self.0).unwrap_or_default()
        }
    }
    impl JsObject {
        pub fn new<'a, C: Context<'a>>(_: &mut C) -> Handle<'a, JsObject> {
            make(|e, r| unsafe { napi_create_object(e, r) })
        }
    }
    impl JsArray {
        pub fn new<'a, C: Context<'a>>(_: &mut C, n: u32) -> Handle<'a, JsArray> {
            make(|e, r| unsafe { napi_create_array_with_length(e, n as usize, r) })
        }
        pub fn len(self) -> u32 {
            let mut n = 0;
            unsafe { napi_get_array_length(env::get(), self.0, &mut n) };
            n
        }
        pub fn is_empty(self) -> bool {
            self.len() == 0
        }
        pub fn to_vec<'a, C: Context<'a>>(self, cx: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
            (0..self.len()).map(|i| self.get(cx, i)).collect()
        }
    }
    impl JsArrayBuffer {
        pub fn new<'a, C: Context<'a>>(_: &mut C, n: u32) -> JsResult<'a, JsArrayBuffer> {
            let mut data = std::ptr::null_mut();
            Ok(make(|e, r| unsafe { napi_create_arraybuffer(e, n as usize, &mut data, r) }))
        }
    }
    impl JsFunction {
        pub fn call<'a, C: Context<'a>, T: Value, A: Value + 'a, I: IntoIterator<Item = Handle<'a, A>>>(
            self,
            _: &mut C,
            this: Handle<T>,
            args: I,
        ) -> JsResult<'a, JsValue> {
            let args: Vec<napi_value> = args.into_iter().map(|a| a.raw()).collect();
            let mut r = std::ptr::null_mut();
            let s = unsafe { napi_call_function(env::get(), this.raw(), self.0, args.len(), args.as_ptr(), &mut r) };
            if s == 0 {
                Ok(Handle::of(r))
            } else {
                Err(Throw(()))
            }
        }
    }
    pub use crate::binary::{BinaryData, BinaryViewType};
}

pub mod binary {
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug)]
    pub struct BinaryData<'a> {
        pub(crate) at: *mut u8,
        pub(crate) size: usize,
        pub(crate) life: PhantomData<&'a ()>,
    }
    /// # Safety
    /// any bit pattern must be a value
    pub unsafe trait BinaryViewType: Copy {}
    macro_rules! views { ($($t:ty)*) => { $(unsafe impl BinaryViewType for $t {})* } }
    views!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
    impl<'a> BinaryData<'a> {
        pub fn as_slice<T: BinaryViewType>(self) -> &'a [T] {
            let n = self.size / std::mem::size_of::<T>();
            if n == 0 {
                return &[];
            }
            unsafe { std::slice::from_raw_parts(self.at as *const T, n) }
        }
        pub fn as_mut_slice<T: BinaryViewType>(self) -> &'a mut [T] {
            let n = self.size / std::mem::size_of::<T>();
            if n == 0 {
                return &mut [];
            }
            unsafe { std::slice::from_raw_parts_mut(self.at as *mut T, n) }
        }
        pub fn len(self) -> usize {
            self.size
        }
        pub fn is_empty(self) -> bool {
            self.size == 0
        }
    }
}

pub mod object {
    use crate::{context::*, env, handle::Handle, result::*, sys::*, types::*};
    use std::os::raw::c_void;

    pub trait PropertyKey {
        fn get_from(self, o: napi_value, r: *mut napi_value) -> Status;
        fn set_on(self, o: napi_value, v: napi_value) -> Status;
    }
    impl PropertyKey for u32 {
        fn get_from(self, o: napi_value, r: *mut napi_value) -> Status {
            unsafe { napi_get_element(env::get(), o, self, r) }
        }
        fn set_on(self, o: napi_value, v: napi_value) -> Status {
            unsafe { napi_set_element(env::get(), o, self, v) }
        }
    }
    impl<'a, T: Value> PropertyKey for Handle<'a, T> {
        fn get_from(self, o: napi_value, r: *mut napi_value) -> Status {
            unsafe { napi_get_property(env::get(), o, self.raw(), r) }
        }
        fn set_on(self, o: napi_value, v: napi_value) -> Status {
            unsafe { napi_set_property(env::get(), o, self.raw(), v) }
        }
    }
    impl<'a> PropertyKey for &'a str {
        fn get_from(self, o: napi_value, r: *mut napi_value) -> Status {
            unsafe {
                let mut k = std::ptr::null_mut();
                napi_create_string_utf8(env::get(), self.as_ptr() as *const _, self.len(), &mut k);
                napi_get_property(env::get(), o, k, r)
            }
        }
        fn set_on(self, o: napi_value, v: napi_value) -> Status {
            unsafe {
                let mut k = std::ptr::null_mut();
                napi_create_string_utf8(env::get(), self.as_ptr() as *const _, self.len(), &mut k);
                napi_set_property(env::get(), o, k, v)
            }
        }
    }
    pub trait Object: Value {
        fn get<'a, C: Context<'a>, K: PropertyKey>(self, _: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
            let mut v = std::ptr::null_mut();
            if key.get_from(self.raw(), &mut v) == 0 && !env::pending() {
                Ok(Handle::of(v))
            } else {
                Err(Throw(()))
            }
        }
        fn set<'a, C: Context<'a>, K: PropertyKey, W: Value>(self, _: &mut C, key: K, val: Handle<W>) -> NeonResult<bool> {
            if key.set_on(self.raw(), val.raw()) == 0 && !env::pending() {
                Ok(true)
            } else {
                Err(Throw(()))
            }
        }
        fn get_own_property_names<'a, C: Context<'a>>(self, _: &mut C) -> JsResult<'a, JsArray> {
            let mut v = std::ptr::null_mut();
            if unsafe { napi_get_property_names(env::get(), self.raw(), &mut v) } == 0 {
                Ok(Handle::of(v))
            } else {
                Err(Throw(()))
            }
        }
    }

    /// what `this` can be
    pub trait This: Value {}
    impl<T: Value> This for T {}

    pub struct Table<T: Class> {
        pub init: Option<for<'a> fn(CallContext<'a, JsUndefined>) -> NeonResult<T::Internals>>,
        pub methods: Vec<(&'static str, napi_callback)>,
    }
    pub trait Class: Value + Object + 'static {
        type Internals: 'static;
        fn class_name() -> &'static str;
        fn table() -> Table<Self>;
    }
    fn tag<T: 'static>() -> napi_type_tag {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        std::any::TypeId::of::<T>().hash(&mut h);
        napi_type_tag { lower: h.finish(), upper: 0x6e656f6e }
    }
    pub fn is_instance<T: 'static>(v: napi_value) -> bool {
        let mut b = false;
        env::kind(v) == OBJECT && unsafe { napi_check_object_type_tag(env::get(), v, &tag::<T>(), &mut b) } == 0 && b
    }
    pub fn internals<T: Class>(v: napi_value) -> *mut T::Internals {
        let mut p = std::ptr::null_mut();
        let s = unsafe { napi_unwrap(env::get(), v, &mut p) };
        assert!(s == 0, "not an object of this class");
        p as *mut T::Internals
    }
    unsafe extern "C" fn gone<T: Class>(_: napi_env, p: *mut c_void, _: *mut c_void) {
        drop(Box::from_raw(p as *mut T::Internals));
    }
    unsafe extern "C" fn construct<T: Class>(e: napi_env, info: napi_callback_info) -> napi_value {
        env::set(e);
        guarded(|| {
            let (args, this) = arguments(info);
            let mut target = std::ptr::null_mut();
            napi_get_new_target(e, info, &mut target);
            let cx: CallContext<JsUndefined> = CallContext::new(args, JsUndefined::new().raw());
            let mut thrower = cx.twin();
            if target.is_null() {
                return thrower.throw_type_error("constructor called without new");
            }
            let init = T::table().init.expect("class without init");
            let value = Box::into_raw(Box::new(init(cx)?));
            napi_wrap(e, this, value as *mut c_void, Some(gone::<T>), std::ptr::null_mut(), std::ptr::null_mut());
            napi_type_tag_object(e, this, &tag::<T>());
            Ok(this)
        })
    }
    pub(crate) fn class<T: Class>() -> napi_value {
        let names: Vec<(std::ffi::CString, napi_callback)> =
            T::table().methods.iter().map(|(n, f)| (env::text(n), *f)).collect();
        let props: Vec<napi_property_descriptor> = names
            .iter()
            .map(|(n, f)| napi_property_descriptor {
                utf8name: n.as_ptr(),
                name: std::ptr::null_mut(),
                method: *f,
                getter: None,
                setter: None,
                value: std::ptr::null_mut(),
                attributes: WRITABLE | CONFIGURABLE,
                data: std::ptr::null_mut(),
            })
            .collect();
        let name = T::class_name();
        make::<JsFunction>(|e, r| unsafe {
            napi_define_class(e, name.as_ptr() as *const _, name.len(), Some(construct::<T>), std::ptr::null_mut(),
                              props.len(), props.as_ptr(), r)
        })
        .raw()
    }

    pub(crate) fn arguments(info: napi_callback_info) -> (Vec<napi_value>, napi_value) {
        let mut n = 16;
        let mut args = vec![std::ptr::null_mut(); n];
        let mut this = std::ptr::null_mut();
        unsafe { napi_get_cb_info(env::get(), info, &mut n, args.as_mut_ptr(), &mut this, std::ptr::null_mut()) };
        args.truncate(n);
        (args, this)
    }
    /// runs what the binding does; a panic becomes an exception, as with neon
    pub(crate) fn guarded(f: impl FnOnce() -> NeonResult<napi_value>) -> napi_value {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(v)) => {
                // an exception that was thrown and not returned is thrown all the same
                v
            }
            Ok(Err(_)) => std::ptr::null_mut(),
            Err(p) => {
                env::clear();
                let what = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                let msg = env::text(&format!("internal error in Neon module: {}", what.unwrap_or_default()));
                unsafe { napi_throw_error(env::get(), std::ptr::null(), msg.as_ptr()) };
                std::ptr::null_mut()
            }
        }
    }
    pub fn method<T: Class>(e: napi_env, info: napi_callback_info, f: for<'a> fn(CallContext<'a, T>) -> JsResult<'a, JsValue>) -> napi_value {
        env::set(e);
        guarded(|| {
            let (args, this) = arguments(info);
            let cx = CallContext::new(args, this);
            if !T::is_type_of(this) {
                return cx.twin().throw_type_error(format!("this is not an object of type {}.", T::class_name()));
            }
            Ok(f(cx)?.raw())
        })
    }
}

pub mod borrow {
    use crate::{binary::BinaryData, context::Lock, env, object::*, sys::*, types::*};
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};
    #[derive(Debug)]
    pub enum LoanError {
        OutstandingLoan,
        FrozenLoan,
    }
    impl std::fmt::Display for LoanError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("outstanding loan")
        }
    }
    pub struct Ref<'a, T> {
        data: T,
        life: PhantomData<&'a ()>,
    }
    pub struct RefMut<'a, T> {
        data: T,
        life: PhantomData<&'a ()>,
    }
    impl<'a, T> Deref for Ref<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.data
        }
    }
    impl<'a, T> Deref for RefMut<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.data
        }
    }
    impl<'a, T> DerefMut for RefMut<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.data
        }
    }
    pub trait Borrow: Sized {
        type Target;
        fn try_borrow<'a>(self, lock: &'a Lock<'_>) -> Result<Ref<'a, Self::Target>, LoanError>;
        fn borrow<'a>(self, lock: &'a Lock<'_>) -> Ref<'a, Self::Target> {
            self.try_borrow(lock).unwrap()
        }
    }
    pub trait BorrowMut: Sized {
        type Target;
        fn try_borrow_mut<'a>(self, lock: &'a Lock<'_>) -> Result<RefMut<'a, Self::Target>, LoanError>;
        fn borrow_mut<'a>(self, lock: &'a Lock<'_>) -> RefMut<'a, Self::Target> {
            self.try_borrow_mut(lock).unwrap()
        }
    }
    impl<'b, T: Class> Borrow for &'b T {
        type Target = &'b T::Internals;
        fn try_borrow<'a>(self, _: &'a Lock<'_>) -> Result<Ref<'a, Self::Target>, LoanError> {
            Ok(Ref { data: unsafe { &*internals::<T>(self.raw()) }, life: PhantomData })
        }
    }
    impl<'b, T: Class> BorrowMut for &'b mut T {
        type Target = &'b mut T::Internals;
        fn try_borrow_mut<'a>(self, _: &'a Lock<'_>) -> Result<RefMut<'a, Self::Target>, LoanError> {
            Ok(RefMut { data: unsafe { &mut *internals::<T>(self.raw()) }, life: PhantomData })
        }
    }
    fn bytes<'b>(v: napi_value) -> BinaryData<'b> {
        let (mut at, mut size) = (std::ptr::null_mut(), 0);
        unsafe { napi_get_arraybuffer_info(env::get(), v, &mut at, &mut size) };
        BinaryData { at: at as *mut u8, size, life: PhantomData }
    }
    impl<'b> Borrow for &'b JsArrayBuffer {
        type Target = BinaryData<'b>;
        fn try_borrow<'a>(self, _: &'a Lock<'_>) -> Result<Ref<'a, Self::Target>, LoanError> {
            Ok(Ref { data: bytes(self.0), life: PhantomData })
        }
    }
    impl<'b> BorrowMut for &'b mut JsArrayBuffer {
        type Target = BinaryData<'b>;
        fn try_borrow_mut<'a>(self, _: &'a Lock<'_>) -> Result<RefMut<'a, Self::Target>, LoanError> {
            Ok(RefMut { data: bytes(self.0), life: PhantomData })
        }
    }
}

pub mod context {
    use crate::{borrow::*, env, handle::Handle, object::*, result::*, sys::*, types::*};
    use std::marker::PhantomData;

    pub struct Lock<'a>(PhantomData<&'a ()>);

    pub trait Context<'a>: Sized {
        fn lock(&self) -> Lock<'_> {
            Lock(PhantomData)
        }
        fn borrow<'c, V: Value, T, F>(&self, v: &'c Handle<V>, f: F) -> T
        where
            &'c V: Borrow,
            F: for<'b> FnOnce(Ref<'b, <&'c V as Borrow>::Target>) -> T,
        {
            let lock = self.lock();
            f(Borrow::borrow(&**v, &lock))
        }
        fn borrow_mut<'c, V: Value, T, F>(&self, v: &'c mut Handle<V>, f: F) -> T
        where
            &'c mut V: BorrowMut,
            F: for<'b> FnOnce(RefMut<'b, <&'c mut V as BorrowMut>::Target>) -> T,
        {
            let lock = self.lock();
            f(BorrowMut::borrow_mut(&mut **v, &lock))
        }
        fn undefined(&mut self) -> Handle<'a, JsUndefined> {
            JsUndefined::new()
        }
        fn null(&mut self) -> Handle<'a, JsNull> {
            JsNull::new()
        }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
            JsBoolean::new(self, b)
        }
        fn number<T: Into<f64>>(&mut self, n: T) -> Handle<'a, JsNumber> {
            JsNumber::new(self, n)
        }
        fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
            JsString::new(self, s)
        }
        fn empty_object(&mut self) -> Handle<'a, JsObject> {
            JsObject::new(self)
        }
        fn empty_array(&mut self) -> Handle<'a, JsArray> {
            JsArray::new(self, 0)
        }
        fn array_buffer(&mut self, n: u32) -> NeonResult<Handle<'a, JsArrayBuffer>> {
            JsArrayBuffer::new(self, n)
        }
        fn global(&mut self) -> Handle<'a, JsObject> {
            make(|e, r| unsafe { napi_get_global(e, r) })
        }
        fn throw<T: Value, U>(&mut self, v: Handle<T>) -> NeonResult<U> {
            env::clear();
            unsafe { napi_throw(env::get(), v.raw()) };
            Err(Throw(()))
        }
        fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            env::clear();
            unsafe { napi_throw_error(env::get(), std::ptr::null(), env::text(msg.as_ref()).as_ptr()) };
            Err(Throw(()))
        }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            env::clear();
            unsafe { napi_throw_type_error(env::get(), std::ptr::null(), env::text(msg.as_ref()).as_ptr()) };
            Err(Throw(()))
        }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            env::clear();
            unsafe { napi_throw_range_error(env::get(), std::ptr::null(), env::text(msg.as_ref()).as_ptr()) };
            Err(Throw(()))
        }
        fn compute_scoped<T: Value, F>(&mut self, f: F) -> JsResult<'a, T>
        where
            F: FnOnce(TaskContext<'a>) -> JsResult<'a, T>,
        {
            f(TaskContext(PhantomData))
        }
        fn execute_scoped<T, F>(&self, f: F) -> T
        where
            F: FnOnce(TaskContext<'a>) -> T,
        {
            f(TaskContext(PhantomData))
        }
    }

    pub struct CallContext<'a, T: This> {
        args: Vec<napi_value>,
        this: napi_value,
        life: PhantomData<(&'a (), T)>,
    }
    impl<'a, T: This> Context<'a> for CallContext<'a, T> {}
    pub type FunctionContext<'a> = CallContext<'a, JsValue>;
    pub type MethodContext<'a, T> = CallContext<'a, T>;
    impl<'a, T: This> CallContext<'a, T> {
        pub(crate) fn new(args: Vec<napi_value>, this: napi_value) -> Self {
            CallContext { args, this, life: PhantomData }
        }
        pub(crate) fn twin(&self) -> CallContext<'a, T> {
            CallContext::new(self.args.clone(), self.this)
        }
        pub fn len(&self) -> i32 {
            self.args.len() as i32
        }
        pub fn is_empty(&self) -> bool {
            self.args.is_empty()
        }
        pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
            self.args.get(i as usize).map(|v| Handle::of(*v))
        }
        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
            match self.argument_opt(i) {
                Some(v) => v.downcast::<V>().or_throw(self),
                None => self.throw_type_error("not enough arguments"),
            }
        }
        pub fn this(&mut self) -> Handle<'a, T> {
            Handle::of(self.this)
        }
    }

    pub struct TaskContext<'a>(pub(crate) PhantomData<&'a ()>);
    impl<'a> Context<'a> for TaskContext<'a> {}

    pub struct ModuleContext<'a> {
        exports: napi_value,
        life: PhantomData<&'a ()>,
    }
    impl<'a> Context<'a> for ModuleContext<'a> {}
    impl<'a> ModuleContext<'a> {
        pub fn exports_object(&mut self) -> JsResult<'a, JsObject> {
            Ok(Handle::of(self.exports))
        }
        pub fn export_class<T: Class>(&mut self, key: &str) -> NeonResult<()> {
            let c = class::<T>();
            self.export_value(key, Handle::<JsValue>::of(c))
        }
        pub fn export_function<T: Value>(&mut self, key: &str, f: for<'b> fn(FunctionContext<'b>) -> JsResult<'b, T>) -> NeonResult<()> {
            type F<T> = for<'b> fn(FunctionContext<'b>) -> JsResult<'b, T>;
            unsafe extern "C" fn run<T: Value>(e: napi_env, info: napi_callback_info) -> napi_value {
                env::set(e);
                let mut data = std::ptr::null_mut();
                napi_get_cb_info(e, info, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut(), &mut data);
                let f: F<T> = *(data as *const F<T>);
                guarded(|| {
                    let (args, this) = arguments(info);
                    Ok(f(CallContext::new(args, this))?.raw())
                })
            }
            let data: *mut F<T> = Box::into_raw(Box::new(f));
            let v: Handle<JsFunction> = make(|e, r| unsafe {
                napi_create_function(e, key.as_ptr() as *const _, key.len(), Some(run::<T>), data as *mut _, r)
            });
            self.export_value(key, v)
        }
        pub fn export_value<T: Value>(&mut self, key: &str, v: Handle<T>) -> NeonResult<()> {
            let o: Handle<JsObject> = Handle::of(self.exports);
            o.set(self, key, v)?;
            Ok(())
        }
    }
    /// For the checks: makes the n-th write, point read or open of the stand-in database from here on fail.
    fn faults(mut cx: FunctionContext) -> JsResult<JsUndefined> {
        let (w, g, o) = rocksdb::hooks::counts();
        let mut n = [None; 4];
        for (i, now) in [w, g, o, 0].iter().enumerate() {
            let v = cx.argument::<JsNumber>(i as i32)?.value();
            n[i] = if v < 0.0 { None } else { Some(now + v as u64) };
        }
        rocksdb::hooks::set_faults(rocksdb::hooks::Faults { write: n[0], get: n[1], open: n[2], write_sticky: n[3] == Some(1) });
        Ok(cx.undefined())
    }
    /// For the checks: writes, point reads and opens so far.
    fn counts(mut cx: FunctionContext) -> JsResult<JsArray> {
        let (w, g, o) = rocksdb::hooks::counts();
        let out = JsArray::new(&mut cx, 3);
        for (i, n) in [w, g, o].iter().enumerate() {
            let v = JsNumber::new(&mut cx, *n as f64);
            out.set(&mut cx, i as u32, v)?;
        }
        Ok(out)
    }
    pub fn module(e: napi_env, exports: napi_value, f: fn(ModuleContext) -> NeonResult<()>) -> napi_value {
        env::set(e);
        guarded(|| {
            f(ModuleContext { exports, life: PhantomData })?;
            let mut m = ModuleContext { exports, life: PhantomData };
            m.export_function("standinFaults", faults)?;
            m.export_function("standinCounts", counts)?;
            Ok(exports)
        })
    }
}

pub mod task {
    use crate::{context::*, env, handle::Handle, result::*, sys::*, types::*};
    use std::marker::PhantomData;
    use std::os::raw::c_void;

    struct Job<T: Task> {
        task: Option<T>,
        result: Option<Result<T::Output, T::Error>>,
        callback: napi_ref,
        work: napi_async_work,
    }
    /// Done in another thread; then the callback gets the error or null and the result.
    pub trait Task: Send + Sized + 'static {
        type Output: Send + 'static;
        type Error: Send + 'static;
        type JsEvent: Value;
        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete(self, cx: TaskContext, result: Result<Self::Output, Self::Error>) -> JsResult<Self::JsEvent>;
        fn schedule(self, callback: Handle<JsFunction>) {
            let e = env::get();
            unsafe {
                let job = Box::into_raw(Box::new(Job {
                    task: Some(self),
                    result: None,
                    callback: std::ptr::null_mut(),
                    work: std::ptr::null_mut(),
                }));
                napi_create_reference(e, callback.raw(), 1, &mut (*job).callback);
                let name = make::<JsString>(|e, r| napi_create_string_utf8(e, "task".as_ptr() as *const _, 4, r)).raw();
                napi_create_async_work(e, std::ptr::null_mut(), name, Some(execute::<Self>), Some(done::<Self>),
                                       job as *mut c_void, &mut (*job).work);
                napi_queue_async_work(e, (*job).work);
            }
        }
    }
    unsafe extern "C" fn execute<T: Task>(_: napi_env, data: *mut c_void) {
        let job = &mut *(data as *mut Job<T>);
        job.result = Some(job.task.as_ref().unwrap().perform());
    }
    unsafe extern "C" fn done<T: Task>(e: napi_env, _: Status, data: *mut c_void) {
        env::set(e);
        let mut job = Box::from_raw(data as *mut Job<T>);
        let result = job.result.take().expect("task was not performed");
        let value = job.task.take().unwrap().complete(TaskContext(PhantomData), result);
        let undefined = JsUndefined::new().raw();
        let args = match value {
            Ok(v) => [JsNull::new().raw(), v.raw()],
            Err(_) => [env::clear(), undefined],
        };
        let (mut f, mut r) = (std::ptr::null_mut(), std::ptr::null_mut());
        napi_get_reference_value(e, job.callback, &mut f);
        napi_delete_reference(e, job.callback);
        napi_delete_async_work(e, job.work);
        if napi_call_function(e, undefined, f, 2, args.as_ptr(), &mut r) != 0 && env::pending() {
            napi_fatal_exception(e, env::clear());
        }
    }
}

pub mod prelude {
    pub use crate::borrow::{Borrow, BorrowMut};
    pub use crate::context::{CallContext, Context, FunctionContext, MethodContext, ModuleContext, TaskContext};
    pub use crate::handle::{Handle, Managed};
    pub use crate::object::{Class, Object};
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::task::Task;
    pub use crate::types::{
        BinaryData, JsArray, JsArrayBuffer, JsBoolean, JsFunction, JsNull, JsNumber, JsObject, JsString, JsUndefined,
        JsValue, Value,
    };
    pub use crate::{declare_types, register_module};
}

#[macro_export]
macro_rules! register_module {
    (mut $m:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn napi_register_module_v1(
            env: $crate::sys::napi_env,
            exports: $crate::sys::napi_value,
        ) -> $crate::sys::napi_value {
            fn init(mut $m: $crate::context::ModuleContext) -> $crate::result::NeonResult<()> $body
            $crate::context::module(env, exports, init)
        }
    };
    ($m:ident, $body:block) => {
        $crate::register_module!(mut $m, $body);
    };
}

#[macro_export]
macro_rules! declare_types {
    () => {};
    ($(#[$a:meta])* pub class $cls:ident for $t:ty { $($body:tt)* } $($rest:tt)*) => {
        $crate::declare_types!($(#[$a])* pub class $cls as $cls for $t { $($body)* } $($rest)*);
    };
    ($(#[$a:meta])* class $cls:ident for $t:ty { $($body:tt)* } $($rest:tt)*) => {
        $crate::declare_types!($(#[$a])* pub class $cls as $cls for $t { $($body)* } $($rest)*);
    };
    ($(#[$a:meta])* class $cls:ident as $name:ident for $t:ty { $($body:tt)* } $($rest:tt)*) => {
        $crate::declare_types!($(#[$a])* pub class $cls as $name for $t { $($body)* } $($rest)*);
    };
    ($(#[$a:meta])* pub class $cls:ident as $name:ident for $t:ty {
        $($(#[$b:meta])* $kw:ident $($m:ident)? ( $($p:tt)* ) $code:block)*
    } $($rest:tt)*) => {
        $(#[$a])*
        #[derive(Clone, Copy, Debug)]
        pub struct $cls($crate::sys::napi_value);
        impl $crate::types::Value for $cls {
            fn raw(self) -> $crate::sys::napi_value {
                self.0
            }
            fn from_raw(raw: $crate::sys::napi_value) -> Self {
                $cls(raw)
            }
            fn is_type_of(raw: $crate::sys::napi_value) -> bool {
                $crate::object::is_instance::<$cls>(raw)
            }
            fn type_name() -> String {
                stringify!($name).to_string()
            }
        }
        impl $crate::object::Object for $cls {}
        impl $crate::object::Class for $cls {
            type Internals = $t;
            fn class_name() -> &'static str {
                stringify!($name)
            }
            fn table() -> $crate::object::Table<Self> {
                #[allow(unused_mut)]
                let mut table: $crate::object::Table<Self> = $crate::object::Table { init: None, methods: Vec::new() };
                $($crate::declare_types!(@ table $cls $t, $kw $($m)? ($($p)*) $code);)*
                table
            }
        }
        $crate::declare_types!($($rest)*);
    };
    (@ $table:ident $cls:ident $t:ty, init ($($p:tt)*) $code:block) => {{
        fn init<'a>($($p)*: $crate::context::CallContext<'a, $crate::types::JsUndefined>) -> $crate::result::NeonResult<$t> $code
        $table.init = Some(init);
    }};
    (@ $table:ident $cls:ident $t:ty, method $m:ident ($($p:tt)*) $code:block) => {{
        fn body<'a>($($p)*: $crate::context::CallContext<'a, $cls>) -> $crate::result::JsResult<'a, $crate::types::JsValue> $code
        unsafe extern "C" fn call(
            env: $crate::sys::napi_env,
            info: $crate::sys::napi_callback_info,
        ) -> $crate::sys::napi_value {
            $crate::object::method::<$cls>(env, info, body)
        }
        $table.methods.push((stringify!($m), Some(call)));
    }};
}
