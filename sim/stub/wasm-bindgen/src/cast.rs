use crate::JsValue;

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}

impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}
