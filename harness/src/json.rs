//! What the FromJSON and ToJSON derives expect of the crate that uses them.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Num(u64),
    Str(String),
    Array(Vec<Value>),
    Object(HashMap<String, Value>),
}
pub trait ToJSON {
    fn to_json(self) -> Option<Value>;
}
pub trait FromJSON: Sized {
    fn from_json(v: Value) -> Option<Self>;
}
impl ToJSON for u8 {
    fn to_json(self) -> Option<Value> {
        // a value that has no representation
        if self == 255 {
            return None;
        }
        Some(Value::Num(self as u64))
    }
}
impl FromJSON for u8 {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Num(n) if n < 255 => Some(n as u8),
            _ => None,
        }
    }
}
impl ToJSON for String {
    fn to_json(self) -> Option<Value> {
        Some(Value::Str(self))
    }
}
impl FromJSON for String {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Str(s) => Some(s),
            _ => None,
        }
    }
}
