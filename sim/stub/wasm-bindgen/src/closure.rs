//! `Closure`: a Rust closure handed to the simulated browser.
//!
//! Semantics kept from the real crate: the JS function object stays valid only
//! while the `Closure` lives, a call made after it was dropped throws, an
//! `FnMut` closure called recursively throws, and a closure dropped from
//! inside its own invocation stays alive until that invocation returns.
use crate::{rt::FromJs, rt::IntoJs, sim, JsValue};
use std::{cell::RefCell, marker::PhantomData, rc::Rc};

pub type RawFn = Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>;

pub struct Closure<T: ?Sized> {
    js: std::mem::ManuallyDrop<JsValue>,
    owned: bool,
    _p: PhantomData<Box<T>>,
}
pub type ScopedClosure<T> = Closure<T>;

pub trait IntoWasmClosure<T: ?Sized> {
    fn into_raw(self) -> RawFn;
}

macro_rules! arities { ($(($($a:ident)*))*) => {$(
    impl<F, R, $($a),*> IntoWasmClosure<dyn FnMut($($a),*) -> R> for F
    where F: FnMut($($a),*) -> R + 'static, R: IntoJs + 'static, $($a: FromJs + 'static),* {
        fn into_raw(self) -> RawFn {
            let cell = RefCell::new(self);
            Rc::new(move |args: &[JsValue]| {
                let mut f = cell.try_borrow_mut().map_err(|_| JsValue::from_str("closure invoked recursively or after being dropped"))?;
                #[allow(unused_mut, unused_variables)] let mut it = args.iter().cloned();
                $(#[allow(nonstandard_style)] let $a: $a = FromJs::from_js(it.next().unwrap_or(JsValue::UNDEFINED));)*
                Ok((&mut *f)($($a),*).into_js())
            })
        }
    }
    impl<F, R, $($a),*> IntoWasmClosure<dyn Fn($($a),*) -> R> for F
    where F: Fn($($a),*) -> R + 'static, R: IntoJs + 'static, $($a: FromJs + 'static),* {
        fn into_raw(self) -> RawFn {
            Rc::new(move |args: &[JsValue]| {
                #[allow(unused_mut, unused_variables)] let mut it = args.iter().cloned();
                $(#[allow(nonstandard_style)] let $a: $a = FromJs::from_js(it.next().unwrap_or(JsValue::UNDEFINED));)*
                Ok(self($($a),*).into_js())
            })
        }
    }
)*} }
arities!(() (A)(A B)(A B C)(A B C D)(A B C D E));

impl<T: ?Sized> Closure<T> {
    pub fn new<F>(f: F) -> Self
    where
        F: IntoWasmClosure<T> + 'static,
    {
        Self::from_raw(f.into_raw())
    }
    pub fn own<F>(f: F) -> Self
    where
        F: IntoWasmClosure<T> + 'static,
    {
        Self::from_raw(f.into_raw())
    }
    pub fn wrap<F>(f: Box<F>) -> Self
    where
        F: IntoWasmClosure<T> + 'static,
    {
        Self::from_raw((*f).into_raw())
    }
    fn from_raw(raw: RawFn) -> Self {
        Closure {
            js: std::mem::ManuallyDrop::new(sim::new_function(raw)),
            owned: true,
            _p: PhantomData,
        }
    }
    pub fn as_js_value(&self) -> &JsValue {
        &self.js
    }
    pub fn into_js_value(mut self) -> JsValue {
        self.owned = false;
        (*self.js).clone()
    }
    pub fn forget(mut self) {
        self.owned = false;
    }
}
macro_rules! once { ($name:ident $(,$a:ident)*) => {
    impl<R: IntoJs + 'static, $($a: FromJs + 'static),*> Closure<dyn FnMut($($a),*) -> R> {
        pub fn $name<F: FnOnce($($a),*) -> R + 'static>(f: F) -> Self {
            let mut f = Some(f);
            #[allow(nonstandard_style)]
            Self::new(move |$($a: $a),*| (f.take().expect("FnOnce closure called more than once"))($($a),*))
        }
    }
} }
once!(once0);
once!(once, A);
impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}
impl<T: ?Sized> std::fmt::Debug for Closure<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Closure")
    }
}
impl<T: ?Sized> Drop for Closure<T> {
    fn drop(&mut self) {
        if self.owned {
            sim::invalidate_function(&self.js);
        }
    }
}
