//! Simulation stand-in for the parts of `js-sys` reachable from `web-sys` and
//! async_ui; backed by the simulated browser in the `wasm-bindgen` stand-in.
#![allow(clippy::all)]
use std::marker::PhantomData;
use wasm_bindgen::{rt, sim, JsCast, JsValue};

macro_rules! js_type {
    ($name:ident<$p:ident> : $js:literal $(, $ext:ident)*) => {
        #[repr(transparent)]
        pub struct $name<$p: ?Sized = JsValue> { obj: JsValue, _p: PhantomData<*const $p> }
        js_type!(@impls [<$p: ?Sized>] [$name<$p>] $name $js $(, $ext)*);
        impl<$p: ?Sized> $name<$p> { fn from_raw(obj: JsValue) -> Self { $name { obj, _p: PhantomData } } }
    };
    ($name:ident : $js:literal $(, $ext:ident)*) => {
        #[repr(transparent)]
        pub struct $name { obj: JsValue, _p: PhantomData<*const ()> }
        js_type!(@impls [] [$name] $name $js $(, $ext)*);
        #[allow(dead_code)]
        impl $name { fn from_raw(obj: JsValue) -> Self { $name { obj, _p: PhantomData } } }
    };
    (@impls [$($g:tt)*] [$($t:tt)*] $name:ident $js:literal $(, $ext:ident)*) => {
        impl $($g)* Clone for $($t)* { fn clone(&self) -> Self { Self::from_raw(self.obj.clone()) } }
        impl $($g)* std::fmt::Debug for $($t)* { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.obj.fmt(f) } }
        impl $($g)* PartialEq for $($t)* { fn eq(&self, o: &Self) -> bool { self.obj == o.obj } }
        impl $($g)* Eq for $($t)* {}
        impl $($g)* AsRef<JsValue> for $($t)* { fn as_ref(&self) -> &JsValue { &self.obj } }
        impl $($g)* AsRef<$($t)*> for $($t)* { fn as_ref(&self) -> &Self { self } }
        impl $($g)* From<$($t)*> for JsValue { fn from(v: $($t)*) -> JsValue { v.obj } }
        impl $($g)* From<JsValue> for $($t)* { fn from(v: JsValue) -> Self { Self::from_raw(v) } }
        impl $($g)* std::ops::Deref for $($t)* { type Target = JsValue; fn deref(&self) -> &JsValue { &self.obj } }
        impl $($g)* JsCast for $($t)* {
            fn instanceof(v: &JsValue) -> bool { rt::instance_of(v, $js) }
            fn unchecked_from_js(v: JsValue) -> Self { Self::from_raw(v) }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self { unsafe { &*(v as *const JsValue as *const Self) } }
        }
        impl $($g)* rt::IntoJs for $($t)* { fn into_js(self) -> JsValue { self.obj } }
        js_type!(@refimpl [$($g)*] [$($t)*]);
        impl $($g)* rt::FromJs for $($t)* { fn from_js(v: JsValue) -> Self { Self::from_raw(v) } }
        js_type!(@ext [$($g)*] [$($t)*] $($ext)*);
    };
    (@ext [$($g:tt)*] [$($t:tt)*]) => {};
    (@ext [$($g:tt)*] [$($t:tt)*] $ext:ident) => {
        impl $($g)* From<$($t)*> for $ext { fn from(v: $($t)*) -> $ext { v.obj.unchecked_into() } }
        impl $($g)* AsRef<$ext> for $($t)* { fn as_ref(&self) -> &$ext { self.obj.unchecked_ref() } }
    };
    (@refimpl [<$p:ident: ?Sized>] [$($t:tt)*]) => {
        impl<'a, $p: ?Sized> rt::IntoJs for &'a $($t)* { fn into_js(self) -> JsValue { self.obj.clone() } }
    };
    (@refimpl [] [$($t:tt)*]) => {
        impl<'a> rt::IntoJs for &'a $($t)* { fn into_js(self) -> JsValue { self.obj.clone() } }
    };
}

js_type!(Object: "Object");
js_type!(Array<T>: "Array", Object);
js_type!(Function<T>: "Function", Object);
js_type!(Promise<T>: "Promise", Object);
js_type!(Iterator<T>: "Iterator", Object);
js_type!(Map: "Map", Object);
js_type!(Set: "Set", Object);
js_type!(Date: "Date", Object);
js_type!(Error: "Error", Object);
js_type!(JsString: "String", Object);
js_type!(Number: "Number", Object);
js_type!(Boolean: "Boolean", Object);
js_type!(ArrayBuffer: "ArrayBuffer", Object);
js_type!(Uint8Array: "Uint8Array", Object);
js_type!(Undefined: "Undefined");

pub fn global() -> Object {
    Object::from_raw(sim::global())
}

impl Object {
    pub fn new() -> Object {
        Object::from_raw(sim::new_object("Object"))
    }
    pub fn keys(o: &Object) -> Array {
        sim::prop_keys(&o.obj).into_iter().map(|k| JsValue::from_str(&k)).collect()
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        a == b
    }
    pub fn assign(t: &Object, s: &Object) -> Object {
        for k in sim::prop_keys(&s.obj) {
            sim::set_prop(&t.obj, &k, sim::get_prop(&s.obj, &k));
        }
        t.clone()
    }
}
impl<T: ?Sized> Array<T> {
    pub fn new() -> Self {
        Self::from_raw(sim::new_array(vec![]))
    }
    pub fn new_with_length(n: u32) -> Self {
        Self::from_raw(sim::new_array(vec![JsValue::UNDEFINED; n as usize]))
    }
    pub fn of1(a: &JsValue) -> Self {
        Self::from_raw(sim::new_array(vec![a.clone()]))
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Self {
        Self::from_raw(sim::new_array(vec![a.clone(), b.clone()]))
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Self {
        Self::from_raw(sim::new_array(vec![a.clone(), b.clone(), c.clone()]))
    }
    pub fn from(v: &JsValue) -> Self {
        Self::from_raw(sim::new_array(sim::array_elements(v)))
    }
    pub fn length(&self) -> u32 {
        sim::array_elements(&self.obj).len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        sim::array_elements(&self.obj).get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        sim::array_set(&self.obj, i as usize, v)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        sim::array_push(&self.obj, v.clone());
        self.length()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        sim::array_elements(&self.obj)
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
}
impl<T: ?Sized> IntoIterator for Array<T> {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.to_vec().into_iter()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_raw(sim::new_array(it.into_iter().map(|a| a.as_ref().clone()).collect()))
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, it: I) {
        for a in it {
            self.push(a.as_ref());
        }
    }
}
impl<T: ?Sized> Function<T> {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(&self.obj, &[])
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(&self.obj, &[a.clone()])
    }
    pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(&self.obj, &[a.clone(), b.clone()])
    }
    pub fn apply(&self, _this: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        sim::call_function(&self.obj, &args.to_vec())
    }
}
impl<T: ?Sized> Promise<T> {
    pub fn resolve(v: &JsValue) -> Self {
        if rt::instance_of(v, "Promise") {
            return Self::from_raw(v.clone());
        }
        Self::from_raw(sim::new_promise(Some(Ok(v.clone()))))
    }
    pub fn reject(v: &JsValue) -> Self {
        Self::from_raw(sim::new_promise(Some(Err(v.clone()))))
    }
    pub fn new(cb: &mut dyn FnMut(Function, Function)) -> Self {
        let p = sim::new_promise(None);
        let (a, b) = (p.clone(), p.clone());
        let ok = sim::new_function(std::rc::Rc::new(move |x: &[JsValue]| {
            sim::promise_settle(&a, Ok(x.first().cloned().unwrap_or(JsValue::UNDEFINED)));
            Ok(JsValue::UNDEFINED)
        }));
        let err = sim::new_function(std::rc::Rc::new(move |x: &[JsValue]| {
            sim::promise_settle(&b, Err(x.first().cloned().unwrap_or(JsValue::UNDEFINED)));
            Ok(JsValue::UNDEFINED)
        }));
        cb(Function::from_raw(ok), Function::from_raw(err));
        Self::from_raw(p)
    }
    pub fn then<F: ?Sized>(&self, cb: &wasm_bindgen::Closure<F>) -> Promise {
        Promise::from_raw(sim::promise_then(&self.obj, cb.as_ref().clone(), JsValue::UNDEFINED))
    }
    pub fn then2<F: ?Sized, G: ?Sized>(&self, cb: &wasm_bindgen::Closure<F>, e: &wasm_bindgen::Closure<G>) -> Promise {
        Promise::from_raw(sim::promise_then(&self.obj, cb.as_ref().clone(), e.as_ref().clone()))
    }
}
impl Date {
    pub fn now() -> f64 {
        sim::now()
    }
}
impl Error {
    pub fn new(m: &str) -> Error {
        let o = sim::new_object("Error");
        sim::set_prop(&o, "message", JsValue::from_str(m));
        Error::from_raw(o)
    }
}
#[allow(non_snake_case)]
pub mod Math {
    pub fn random() -> f64 {
        wasm_bindgen::sim::rand()
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use wasm_bindgen::{sim, JsValue};
    pub fn get(t: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        Ok(sim::get_prop(t, &k.to_js_string()))
    }
    pub fn set(t: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        sim::set_prop(t, &k.to_js_string(), v.clone());
        Ok(true)
    }
    pub fn has(t: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        Ok(!sim::get_prop(t, &k.to_js_string()).is_undefined())
    }
}
