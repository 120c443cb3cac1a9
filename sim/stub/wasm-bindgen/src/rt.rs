//! Runtime of the stand-in `#[wasm_bindgen]` macro.
use crate::{sim, JsValue};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ctor,
    Getter,
    Setter,
    Method,
    Static,
    IndexGet,
    IndexSet,
    IndexDel,
}

pub fn invoke(kind: Kind, class: &str, name: &str, this: Option<&JsValue>, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    sim::invoke(kind, class, name, this, args)
}
#[track_caller]
pub fn uncaught(r: Result<JsValue, JsValue>) -> JsValue {
    match r {
        Ok(v) => v,
        Err(e) => crate::throw_val(e),
    }
}
pub fn args<const N: usize>(variadic: bool, a: [JsValue; N]) -> Vec<JsValue> {
    let mut v: Vec<JsValue> = a.into_iter().collect();
    if variadic {
        if let Some(last) = v.pop() {
            v.extend(sim::array_elements(&last));
        }
    }
    v
}
pub fn instance_of(v: &JsValue, class: &str) -> bool {
    sim::instance_of(v, class)
}

pub trait IntoJs {
    fn into_js(self) -> JsValue;
}
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl IntoJs for () {
    fn into_js(self) -> JsValue {
        JsValue::UNDEFINED
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) -> Self {}
}
impl IntoJs for JsValue {
    fn into_js(self) -> JsValue {
        self
    }
}
impl<'a> IntoJs for &'a JsValue {
    fn into_js(self) -> JsValue {
        self.clone()
    }
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl<'a> IntoJs for &'a str {
    fn into_js(self) -> JsValue {
        JsValue::from_str(self)
    }
}
impl IntoJs for String {
    fn into_js(self) -> JsValue {
        JsValue::from_str(&self)
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.to_js_string()
    }
}
impl IntoJs for bool {
    fn into_js(self) -> JsValue {
        JsValue::from_bool(self)
    }
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> Self {
        v.is_truthy()
    }
}
macro_rules! nums { ($($t:ty)*) => {$(
    impl IntoJs for $t { fn into_js(self) -> JsValue { JsValue::from_f64(self as f64) } }
    impl FromJs for $t { fn from_js(v: JsValue) -> Self { v.to_num() as $t } }
)*} }
nums!(i8 u8 i16 u16 i32 u32 f32 f64 i64 u64 usize isize);
impl<T: IntoJs> IntoJs for Option<T> {
    fn into_js(self) -> JsValue {
        match self {
            Some(t) => t.into_js(),
            None => JsValue::UNDEFINED,
        }
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Self {
        if v.is_null_or_undefined() {
            None
        } else {
            Some(T::from_js(v))
        }
    }
}
impl<T: IntoJs, E: Into<JsValue>> IntoJs for Result<T, E> {
    fn into_js(self) -> JsValue {
        match self {
            Ok(t) => t.into_js(),
            Err(e) => crate::throw_val(e.into()),
        }
    }
}
impl<'a, T: Clone> IntoJs for &'a [T]
where
    T: IntoJs,
{
    fn into_js(self) -> JsValue {
        sim::new_array(self.iter().cloned().map(|x| x.into_js()).collect())
    }
}
impl<T: IntoJs> IntoJs for Vec<T> {
    fn into_js(self) -> JsValue {
        sim::new_array(self.into_iter().map(|x| x.into_js()).collect())
    }
}
impl<T: FromJs> FromJs for Vec<T> {
    fn from_js(v: JsValue) -> Self {
        sim::array_elements(&v).into_iter().map(T::from_js).collect()
    }
}
impl<'a, T: ?Sized> IntoJs for &'a crate::Closure<T> {
    fn into_js(self) -> JsValue {
        self.as_js_value().clone()
    }
}
