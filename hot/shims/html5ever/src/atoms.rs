//! Names: a static or shared string compared by content.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

macro_rules! atom {
    ($t:ident) => {
        #[derive(Clone)]
        pub enum $t {
            #[doc(hidden)]
            Static(&'static str),
            #[doc(hidden)]
            Heap(Arc<str>),
        }
        impl $t {
            pub const fn from_static(s: &'static str) -> Self {
                $t::Static(s)
            }
            pub fn as_str(&self) -> &str {
                match self {
                    $t::Static(s) => s,
                    $t::Heap(s) => s,
                }
            }
            pub fn to_ascii_lowercase(&self) -> Self {
                Self::from(self.as_str().to_ascii_lowercase())
            }
            pub fn to_ascii_uppercase(&self) -> Self {
                Self::from(self.as_str().to_ascii_uppercase())
            }
            pub fn is_empty(&self) -> bool {
                self.as_str().is_empty()
            }
            pub fn eq_ignore_ascii_case(&self, o: &Self) -> bool {
                self.as_str().eq_ignore_ascii_case(o.as_str())
            }
            pub fn eq_str_ignore_ascii_case(&self, o: &str) -> bool {
                self.as_str().eq_ignore_ascii_case(o)
            }
        }
        impl Default for $t {
            fn default() -> Self {
                $t::Static("")
            }
        }
        impl Deref for $t {
            type Target = str;
            fn deref(&self) -> &str {
                self.as_str()
            }
        }
        impl AsRef<str> for $t {
            fn as_ref(&self) -> &str {
                self.as_str()
            }
        }
        impl Borrow<str> for $t {
            fn borrow(&self) -> &str {
                self.as_str()
            }
        }
        impl From<&str> for $t {
            fn from(s: &str) -> Self {
                match crate::intern(s) {
                    Some(s) => $t::Static(s),
                    None => $t::Heap(Arc::from(s)),
                }
            }
        }
        impl From<String> for $t {
            fn from(s: String) -> Self {
                Self::from(s.as_str())
            }
        }
        impl From<&String> for $t {
            fn from(s: &String) -> Self {
                Self::from(s.as_str())
            }
        }
        impl From<std::borrow::Cow<'_, str>> for $t {
            fn from(s: std::borrow::Cow<'_, str>) -> Self {
                Self::from(&*s)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.as_str() == o.as_str()
            }
        }
        impl Eq for $t {}
        impl PartialEq<str> for $t {
            fn eq(&self, o: &str) -> bool {
                self.as_str() == o
            }
        }
        impl PartialEq<&str> for $t {
            fn eq(&self, o: &&str) -> bool {
                self.as_str() == *o
            }
        }
        impl PartialEq<$t> for str {
            fn eq(&self, o: &$t) -> bool {
                self == o.as_str()
            }
        }
        impl PartialEq<$t> for &str {
            fn eq(&self, o: &$t) -> bool {
                *self == o.as_str()
            }
        }
        impl PartialEq<$t> for String {
            fn eq(&self, o: &$t) -> bool {
                self.as_str() == o.as_str()
            }
        }
        impl PartialEq<String> for $t {
            fn eq(&self, o: &String) -> bool {
                self.as_str() == o.as_str()
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.as_str().cmp(o.as_str())
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.as_str().hash(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "Atom('{}')", self.as_str())
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(self.as_str(), f)
            }
        }
    };
}
atom!(LocalName);
atom!(Namespace);
atom!(Prefix);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> QualName {
        QualName { prefix, ns, local }
    }
    pub fn expanded(&self) -> ExpandedName<'_> {
        ExpandedName { ns: &self.ns, local: &self.local }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct ExpandedName<'a> {
    pub ns: &'a Namespace,
    pub local: &'a LocalName,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Attribute {
    pub name: QualName,
    pub value: tendril::StrTendril,
}

// Usable as expressions and as patterns, like the constants of the real crate.
#[macro_export]
macro_rules! local_name {
    ($s:literal) => {
        $crate::LocalName::Static($s)
    };
}
#[macro_export]
macro_rules! namespace_url {
    ($s:literal) => {
        $crate::Namespace::Static($s)
    };
}
#[macro_export]
macro_rules! namespace_prefix {
    ($s:literal) => {
        $crate::Prefix::Static($s)
    };
}
#[macro_export]
macro_rules! ns {
    () => { $crate::Namespace::Static("") };
    (*) => { $crate::Namespace::Static("*") };
    (html) => { $crate::Namespace::Static("http://www.w3.org/1999/xhtml") };
    (xml) => { $crate::Namespace::Static("http://www.w3.org/XML/1998/namespace") };
    (xmlns) => { $crate::Namespace::Static("http://www.w3.org/2000/xmlns/") };
    (xlink) => { $crate::Namespace::Static("http://www.w3.org/1999/xlink") };
    (svg) => { $crate::Namespace::Static("http://www.w3.org/2000/svg") };
    (mathml) => { $crate::Namespace::Static("http://www.w3.org/1998/Math/MathML") };
}
#[macro_export]
macro_rules! expanded_name {
    ("", $local:literal) => {
        $crate::ExpandedName { ns: &$crate::ns!(), local: &$crate::local_name!($local) }
    };
    ($ns:ident $local:literal) => {
        $crate::ExpandedName { ns: &$crate::ns!($ns), local: &$crate::local_name!($local) }
    };
}
