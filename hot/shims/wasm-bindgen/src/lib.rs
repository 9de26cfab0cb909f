//! Stand-in for wasm-bindgen: JavaScript values are Rust values, and DOM nodes live in [`dom`].
pub mod dom;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

#[derive(Clone)]
pub enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<RefCell<Vec<(String, JsValue)>>>),
    Node(dom::Node),
    /// the child list of a node, live
    Children(dom::Node),
    /// the attributes of an element, live
    Attrs(dom::Node),
    Attr(dom::AttrNode),
    Event(Rc<EventData>),
    Window,
    Location,
}
pub struct EventData {
    pub kind: String,
    pub bubbles: bool,
    pub detail: JsValue,
}
#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue(pub Val);
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Null);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Val::Str(s.into()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Val::Num(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Val::Bool(b))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Val::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Val::Bool(s) => Some(*s),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Val::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Val::Str(_))
    }
    pub fn is_object(&self) -> bool {
        !matches!(self.0, Val::Undefined | Val::Null | Val::Bool(_) | Val::Num(_) | Val::Str(_))
    }
    pub fn object() -> JsValue {
        JsValue(Val::Obj(Rc::new(RefCell::new(vec![]))))
    }
    pub fn get(&self, key: &str) -> JsValue {
        match &self.0 {
            Val::Obj(o) => o.borrow().iter().find(|(k, _)| k == key).map_or(JsValue::UNDEFINED, |(_, v)| v.clone()),
            _ => JsValue::UNDEFINED,
        }
    }
    pub fn set(&self, key: &str, v: JsValue) -> bool {
        match &self.0 {
            Val::Obj(o) => {
                let mut o = o.borrow_mut();
                match o.iter_mut().find(|(k, _)| k == key) {
                    Some(e) => e.1 = v,
                    None => o.push((key.into(), v)),
                }
                true
            }
            _ => false,
        }
    }
    /// A DOMException.
    pub fn exception(name: &str, message: impl Into<String>) -> JsValue {
        let o = JsValue::object();
        o.set("name", JsValue::from_str(name));
        o.set("message", JsValue::from_str(&format!("{name}: {}", message.into())));
        o
    }
    pub fn node(&self) -> &dom::Node {
        match &self.0 {
            Val::Node(n) => n,
            _ => panic!("TypeError: not a node"),
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Val::Undefined => write!(f, "JsValue(undefined)"),
            Val::Null => write!(f, "JsValue(null)"),
            Val::Bool(b) => write!(f, "JsValue({b})"),
            Val::Num(b) => write!(f, "JsValue({b})"),
            Val::Str(s) => write!(f, "JsValue({s:?})"),
            Val::Obj(o) => write!(f, "JsValue(Object({:?}))", o.borrow()),
            Val::Node(n) => write!(f, "JsValue({})", n.name()),
            _ => write!(f, "JsValue(object)"),
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.0, &o.0) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) | (Val::Window, Val::Window) | (Val::Location, Val::Location) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => Rc::ptr_eq(a, b),
            (Val::Node(a), Val::Node(b)) => a == b,
            _ => false,
        }
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, Val::Str(s) if **s == *o)
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> JsValue {
        JsValue::from_bool(s)
    }
}
impl From<f64> for JsValue {
    fn from(s: f64) -> JsValue {
        JsValue::from_f64(s)
    }
}
impl From<u32> for JsValue {
    fn from(s: u32) -> JsValue {
        JsValue::from_f64(s as f64)
    }
}
macro_rules! numbers {
    ($($t:ty),*) => {
        $(impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue::from_f64(n as f64)
            }
        })*
    };
}
numbers!(i8, i16, i32, u8, u16, f32, usize, isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> JsValue {
        o.map_or(JsValue::UNDEFINED, Into::into)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if T::instanceof(self.as_ref()) { Ok(T::unchecked_from_js(self.into())) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if T::instanceof(self.as_ref()) { Some(T::unchecked_from_js_ref(self.as_ref())) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> JsValue {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &JsValue {
        v
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw failed")
    }
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

/// Declares a class: a transparent wrapper around its parent class.
#[macro_export]
macro_rules! js_class {
    ($name:ident : $parent:ty, [$($anc:ty),*], $test:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name {
            obj: $parent,
        }
        impl ::std::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                &self.obj
            }
        }
        impl AsRef<$name> for $name {
            fn as_ref(&self) -> &$name {
                self
            }
        }
        impl From<$name> for $crate::JsValue {
            fn from(x: $name) -> $crate::JsValue {
                x.obj.into()
            }
        }
        impl From<&$name> for $crate::JsValue {
            fn from(x: &$name) -> $crate::JsValue {
                AsRef::<$crate::JsValue>::as_ref(x).clone()
            }
        }
        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                self.obj.as_ref()
            }
        }
        impl From<$crate::JsValue> for $name {
            fn from(x: $crate::JsValue) -> $name {
                <$name as $crate::JsCast>::unchecked_from_js(x)
            }
        }
        impl $crate::JsCast for $name {
            fn instanceof(v: &$crate::JsValue) -> bool {
                let f: fn(&$crate::Val) -> bool = $test;
                f(&v.0)
            }
            fn unchecked_from_js(v: $crate::JsValue) -> $name {
                $name { obj: <$parent as $crate::JsCast>::unchecked_from_js(v) }
            }
            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &$name {
                // SAFETY: every class is a transparent wrapper, ultimately around JsValue
                unsafe { &*(v as *const $crate::JsValue as *const $name) }
            }
        }
        $(
            impl From<$name> for $anc {
                fn from(x: $name) -> $anc {
                    <$anc as $crate::JsCast>::unchecked_from_js(x.into())
                }
            }
            impl AsRef<$anc> for $name {
                fn as_ref(&self) -> &$anc {
                    <$anc as $crate::JsCast>::unchecked_from_js_ref(self.as_ref())
                }
            }
        )*
    };
}
