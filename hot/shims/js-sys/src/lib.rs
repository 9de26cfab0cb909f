//! Stand-in for js-sys: objects, Reflect and JSON, as far as a DOM client needs them.
use wasm_bindgen::{JsCast, JsValue, js_class};
js_class!(Object: JsValue, [], |v| JsValue(v.clone()).is_object());
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        Object::unchecked_from_js(JsValue::object())
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        if !target.is_object() {
            return Err(JsValue::exception("TypeError", "Reflect.set called on non-object"));
        }
        Ok(target.set(&key.as_string().unwrap_or_default(), value.clone()))
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        if !target.is_object() {
            return Err(JsValue::exception("TypeError", "Reflect.get called on non-object"));
        }
        Ok(target.get(&key.as_string().unwrap_or_default()))
    }
}
js_class!(JsString: Object, [Object], |v| matches!(v, wasm_bindgen::Val::Str(_)));
impl JsString {
    pub fn as_string(&self) -> Option<String> {
        AsRef::<JsValue>::as_ref(self).as_string()
    }
}
#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(JsString::unchecked_from_js(JsValue::from_str(&format!("{v:?}"))))
    }
}
