//! Simulation stand-in for the `wasm-bindgen` crate.
//!
//! The public surface used by `web-sys`, `js-sys` and async_ui is the same as
//! the real crate's; the JavaScript side is the in-process simulated browser
//! in [`sim`]. Everything is thread-local: one simulated run = one thread.
#![allow(clippy::all)]

mod cast;
pub mod closure;
pub mod rt;
pub mod sim;
mod value;

pub use cast::JsCast;
pub use closure::Closure;
pub use value::{program_handles, JsError, JsValue, UnwrapThrowExt};
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::closure::{Closure, ScopedClosure};
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}

pub fn throw_str(s: &str) -> ! {
    panic!("uncaught JS exception: {s}")
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("uncaught JS exception: {}", sim::describe_exception(&v))
}
