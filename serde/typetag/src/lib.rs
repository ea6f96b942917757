//! Stand-in for `factrs-typetag` (the submodule is empty and nothing can be fetched here).
//!
//! It follows the published behaviour of typetag's internally tagged representation: `{"tag": NAME, ...fields}` for
//! structs, `{"tag": NAME}` for unit structs, `{"tag": NAME, "value": v}` for anything that is not a map; deserialising
//! looks NAME up in the trait's registry and hands the remaining entries to the registered function.  Everything goes
//! through `serde_json::Value`, which keeps numbers exactly.
pub use typetag_impl_standin::serde;

/// Types that can be part of a tag.
pub trait Tagged: ::serde::Serialize + ::serde::de::DeserializeOwned {
    fn tag() -> String;
}

#[doc(hidden)]
pub mod __private {
    pub use ::serde;
    use ::serde::de::{DeserializeOwned, Deserializer, Visitor};
    use serde_json::{Error, Map, Value};
    use std::any::{Any, TypeId};
    use std::collections::BTreeMap;
    pub use std::boxed::Box;
    pub use std::result::Result;
    pub use std::string::String;
    use std::sync::Mutex;

    pub struct Content(Map<String, Value>);

    pub type DeserializeFn<T> = fn(Content) -> Result<Box<T>, Error>;

    /// object type registered for a trait (always the plain trait object here)
    pub trait Strictest {
        type Object: ?Sized;
    }

    /// Serialising through a trait object.
    pub trait ErasedSerialize {
        fn erased_value(&self) -> Result<Value, Error>;
    }
    impl<T: ::serde::Serialize> ErasedSerialize for T {
        fn erased_value(&self) -> Result<Value, Error> {
            serde_json::to_value(self)
        }
    }

    pub mod erased_serde {
        use super::*;
        pub fn deserialize<T: DeserializeOwned>(c: Content) -> Result<T, Error> {
            T::deserialize(c)
        }
    }

    static REGISTRY: Mutex<BTreeMap<(TypeId, &'static str), Vec<Box<dyn Any + Send>>>> = Mutex::new(BTreeMap::new());

    pub struct Registration<T: ?Sized + 'static> {
        pub name: &'static str,
        pub f: DeserializeFn<T>,
    }
    impl<T: ?Sized + 'static> Registration<T> {
        pub fn submit(self) {
            REGISTRY.lock().unwrap().entry((TypeId::of::<T>(), self.name)).or_default().push(Box::new(self.f));
        }
    }

    pub fn names<T: ?Sized + 'static>() -> Vec<(&'static str, usize)> {
        let t = TypeId::of::<T>();
        REGISTRY.lock().unwrap().iter().filter(|(k, _)| k.0 == t).map(|(k, v)| (k.1, v.len())).collect()
    }

    pub fn serialize_dyn<S: ::serde::Serializer>(tag: &str, v: Result<Value, Error>, name: String, s: S) -> Result<S::Ok, S::Error> {
        use ::serde::ser::{Error as _, SerializeMap};
        let mut m = s.serialize_map(None)?;
        m.serialize_entry(tag, &name)?;
        match v.map_err(S::Error::custom)? {
            Value::Null => {}
            Value::Object(o) => {
                for (k, v) in &o {
                    m.serialize_entry(k, v)?;
                }
            }
            v => m.serialize_entry("value", &v)?,
        }
        m.end()
    }

    pub fn deserialize_dyn<'de, T: ?Sized + 'static, D: Deserializer<'de>>(tag: &str, tr: &str, d: D) -> Result<Box<T>, D::Error> {
        use ::serde::de::{Deserialize, Error as _};
        let mut m = match Value::deserialize(d)? {
            Value::Object(m) => m,
            _ => return Err(D::Error::custom(format!("{tr}: expected a map with a `{tag}` entry"))),
        };
        let name = match m.remove(tag) {
            Some(Value::String(s)) => s,
            _ => return Err(D::Error::custom(format!("{tr}: missing field `{tag}`"))),
        };
        let f = {
            let g = REGISTRY.lock().unwrap();
            match g.iter().find(|(k, _)| k.0 == TypeId::of::<T>() && k.1 == name).and_then(|(_, v)| v.last()) {
                Some(b) => *b.downcast_ref::<DeserializeFn<T>>().expect("registered function type"),
                None => return Err(D::Error::custom(format!("unknown variant `{name}` of {tr}"))),
            }
        };
        f(Content(m)).map_err(D::Error::custom)
    }

    impl Content {
        fn value(mut self) -> Result<Value, Error> {
            use ::serde::de::Error as _;
            self.0.remove("value").ok_or_else(|| Error::custom("missing field `value`"))
        }
    }

    macro_rules! forward_value {
        ($($f:ident)*) => {$(
            fn $f<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
                self.value()?.$f(visitor)
            }
        )*};
    }

    impl<'de> Deserializer<'de> for Content {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            Value::Object(self.0).deserialize_any(visitor)
        }
        forward_value! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8
            deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str
            deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_seq deserialize_identifier }
        fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_unit()
        }
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_unit()
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_newtype_struct(self)
        }
        fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Result<V::Value, Error> {
            self.value()?.deserialize_tuple(len, visitor)
        }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, len: usize, visitor: V) -> Result<V::Value, Error> {
            self.value()?.deserialize_tuple_struct(n, len, visitor)
        }
        fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            Value::Object(self.0).deserialize_map(visitor)
        }
        fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
            Value::Object(self.0).deserialize_struct(n, f, visitor)
        }
        fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
            Value::Object(self.0).deserialize_enum(n, f, visitor)
        }
        fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_unit()
        }
    }

    pub mod inventory {
        pub use crate::__typetag_submit as submit;
    }
}

/// Runs a registration before main.
#[doc(hidden)]
#[macro_export]
macro_rules! __typetag_submit {
    ($e:expr $(,)?) => {
        const _: () = {
            extern "C" fn __register() {
                ($e).submit();
            }
            #[used]
            #[cfg_attr(target_os = "linux", link_section = ".init_array")]
            static __INIT: extern "C" fn() = __register;
        };
    };
}
