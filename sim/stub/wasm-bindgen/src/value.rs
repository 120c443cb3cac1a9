use std::{fmt, marker::PhantomData, rc::Rc};

#[derive(Clone)]
pub(crate) enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Handle),
}
thread_local! {
    static HANDLES: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// How many references to objects the program (not the simulator) holds.
pub fn program_handles() -> i64 {
    HANDLES.with(|h| h.get())
}
/// A reference to an object: keeps it alive in a real browser.
pub(crate) struct Handle(u32, bool);
impl Handle {
    pub(crate) fn id(&self) -> u32 {
        self.0
    }
    fn new(id: u32) -> Handle {
        let counted = !crate::sim::own_memory();
        if counted {
            let _ = HANDLES.try_with(|h| h.set(h.get() + 1));
        }
        Handle(id, counted)
    }
}
impl Clone for Handle {
    fn clone(&self) -> Handle {
        Handle::new(self.0)
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        if self.1 {
            let _ = HANDLES.try_with(|h| h.set(h.get() - 1));
        }
    }
}

/// A JavaScript value. Objects are ids into the thread's simulated heap.
#[repr(transparent)]
pub struct JsValue {
    pub(crate) r: Repr,
    _not_send: PhantomData<*mut u8>,
}
pub(crate) const fn mk(r: Repr) -> JsValue {
    JsValue { r, _not_send: PhantomData }
}
impl Clone for JsValue {
    fn clone(&self) -> Self {
        mk(self.r.clone())
    }
}
impl JsValue {
    pub const UNDEFINED: JsValue = mk(Repr::Undefined);
    pub const NULL: JsValue = mk(Repr::Null);
    pub const TRUE: JsValue = mk(Repr::Bool(true));
    pub const FALSE: JsValue = mk(Repr::Bool(false));
    pub const fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub const fn null() -> Self {
        Self::NULL
    }
    pub fn from_str(s: &str) -> Self {
        let _o = crate::sim::memory_owner(true);
        mk(Repr::Str(Rc::from(s)))
    }
    pub fn from_f64(n: f64) -> Self {
        mk(Repr::Num(n))
    }
    pub fn from_bool(b: bool) -> Self {
        mk(Repr::Bool(b))
    }
    pub fn from_obj_id(id: u32) -> Self {
        mk(Repr::Obj(Handle::new(id)))
    }
    pub fn obj_id(&self) -> Option<u32> {
        match &self.r {
            Repr::Obj(h) => Some(h.0),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.r {
            Repr::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.r {
            Repr::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.r {
            Repr::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.r, Repr::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.r, Repr::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_object(&self) -> bool {
        matches!(self.r, Repr::Obj(_)) && !self.is_function()
    }
    pub fn is_function(&self) -> bool {
        crate::sim::is_function(self)
    }
    pub fn is_array(&self) -> bool {
        crate::sim::is_array(self)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.r, Repr::Str(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.r {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(b) => *b,
            Repr::Num(n) => *n != 0.0 && !n.is_nan(),
            Repr::Str(s) => !s.is_empty(),
            Repr::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    /// JS ToString (enough of it).
    pub fn to_js_string(&self) -> String {
        match &self.r {
            Repr::Undefined => "undefined".into(),
            Repr::Null => "null".into(),
            Repr::Bool(b) => b.to_string(),
            Repr::Num(n) => n.to_string(),
            Repr::Str(s) => s.to_string(),
            Repr::Obj(_) => crate::sim::describe(self),
        }
    }
    /// JS ToNumber (enough of it).
    pub fn to_num(&self) -> f64 {
        match &self.r {
            Repr::Undefined => f64::NAN,
            Repr::Null => 0.0,
            Repr::Bool(b) => *b as u8 as f64,
            Repr::Num(n) => *n,
            Repr::Str(s) => {
                let t = s.trim();
                if t.is_empty() {
                    0.0
                } else {
                    t.parse().unwrap_or(f64::NAN)
                }
            }
            Repr::Obj(_) => f64::NAN,
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (&self.r, &o.r) {
            (Repr::Undefined, Repr::Undefined) | (Repr::Null, Repr::Null) => true,
            (Repr::Bool(a), Repr::Bool(b)) => a == b,
            (Repr::Num(a), Repr::Num(b)) => a == b,
            (Repr::Str(a), Repr::Str(b)) => a == b,
            (Repr::Obj(a), Repr::Obj(b)) => a.0 == b.0,
            _ => false,
        }
    }
}
impl Eq for JsValue {}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.r, Repr::Str(s) if &**s == o)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, o: &&'a str) -> bool {
        <JsValue as PartialEq<str>>::eq(self, o)
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JsValue({})", crate::sim::describe(self))
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        mk(Repr::Bool(b))
    }
}
impl<'a, T> From<&'a T> for JsValue
where
    T: crate::JsCast,
{
    fn from(t: &'a T) -> Self {
        t.as_ref().clone()
    }
}
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(t: Option<T>) -> Self {
        t.map(JsValue::from).unwrap_or(JsValue::UNDEFINED)
    }
}
macro_rules! nums { ($($t:ty)*) => {$(
    impl From<$t> for JsValue { fn from(n: $t) -> Self { mk(Repr::Num(n as f64)) } }
    impl PartialEq<$t> for JsValue { fn eq(&self, o: &$t) -> bool { self.as_f64() == Some(*o as f64) } }
)*} }
nums!(i8 u8 i16 u16 i32 u32 f32 f64 i64 u64 usize isize);

#[derive(Clone, Debug)]
pub struct JsError {
    v: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError { v: JsValue::from_str(s) }
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        Self::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.v
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    #[track_caller]
    fn unwrap_throw(self) -> T;
    #[track_caller]
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Some(t) => t,
            None => panic!("called `Option::unwrap_throw()` on a `None` value"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Some(t) => t,
            None => panic!("{message}"),
        }
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Ok(t) => t,
            Err(e) => panic!("called `Result::unwrap_throw()` on an `Err` value: {e:?}"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Ok(t) => t,
            Err(e) => panic!("{message}: {e:?}"),
        }
    }
}
