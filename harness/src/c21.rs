//! C21: the JSON derives map every field to its own place and back.
use crate::common::*;
use crate::json::{FromJSON, ToJSON, Value};
use crate::rt;
use octane_macros::{FromJSON, ToJSON};
use std::collections::HashMap;

#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Named {
    a: u8,
    bb: u8,
    c: String,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Tuple(u8, String, u8);
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Gen<T, U: Clone>
where
    T: Clone,
{
    x: T,
    y: U,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct One<T>(T);
type G = Gen<u8, One<u8>>;
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Outer {
    n: Named,
    t: Tuple,
    g: G,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Wide {
    f0: u8,
    f1: u8,
    f2: u8,
    f3: u8,
    f4: u8,
    f5: u8,
    f6: u8,
    f7: u8,
    f8: u8,
    f9: u8,
}

#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Long(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
/// names that begin or end like others, and those a derive may use itself
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
#[allow(non_snake_case)]
struct Names {
    a: u8,
    ab: u8,
    abc: u8,
    b_a: u8,
    _x: u8,
    A: u8,
    val: u8,
    obj: u8,
    ret: u8,
    arr: u8,
    it: u8,
    i: u8,
    a_rather_long_name_for_a_field_that_goes_on_and_on_and_on_and_on_and_on: u8,
    last: u8,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Single {
    only: String,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
pub struct Three<A: Clone, B, C: Clone + PartialEq>(A, B, C);
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Wide40 {
    g0: u8,
    g1: u8,
    g2: u8,
    g3: u8,
    g4: u8,
    g5: u8,
    g6: u8,
    g7: u8,
    g8: u8,
    g9: u8,
    g10: u8,
    g11: u8,
    g12: u8,
    g13: u8,
    g14: u8,
    g15: u8,
    g16: u8,
    g17: u8,
    g18: u8,
    g19: u8,
    g20: u8,
    g21: u8,
    g22: u8,
    g23: u8,
    g24: u8,
    g25: u8,
    g26: u8,
    g27: u8,
    g28: u8,
    g29: u8,
    g30: u8,
    g31: u8,
    g32: u8,
    g33: u8,
    g34: u8,
    g35: u8,
    g36: u8,
    g37: u8,
    g38: u8,
    g39: u8,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
#[rustfmt::skip]
struct Long40(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
pub struct Where<T, U>
where
    T: Clone,
    U: Clone + PartialEq,
{
    t: T,
    u: U,
    both: One<One<T>>,
}

fn b(name: &str) -> u8 {
    rt::vec(1, name)[0]
}
fn obj(v: Value) -> HashMap<String, Value> {
    match v {
        Value::Object(o) => o,
        _ => {
            rt::check(false, "C21 a struct with named fields becomes an object");
            unreachable!()
        }
    }
}
fn arr(v: Value) -> Vec<Value> {
    match v {
        Value::Array(o) => o,
        _ => {
            rt::check(false, "C21 a tuple struct becomes an array");
            unreachable!()
        }
    }
}
fn num(x: u8) -> Value {
    Value::Num(x as u64)
}
fn round<T: ToJSON + FromJSON + Clone + PartialEq>(x: T) {
    let v = x.clone().to_json();
    if let Some(v) = v {
        rt::check(T::from_json(v).map_or(false, |y| y == x), "C21 what a value becomes reads back as that value");
        rt::cover("round trip");
    }
}
/// named fields
#[no_mangle]
pub extern "C" fn c21_named(_: u64, _: u64) {
    rt::hash_mode(rt::choice(4, "hash") as u64);
    let x = Named { a: b("a"), bb: b("bb"), c: text(2, "c") };
    let v = x.clone().to_json();
    rt::check(v.is_some() == (x.a != 255 && x.bb != 255), "C21 a struct has a value when all its fields have one");
    if let Some(v) = v {
        let o = obj(v);
        rt::check(o.len() == 3 && o.get("a") == Some(&num(x.a)) && o.get("bb") == Some(&num(x.bb)) && o.get("c") == Some(&Value::Str(x.c.clone())), "C21 every field is under its own name");
        rt::note(o.len() as u64, "len");
    }
    round(x);
    let w = Wide { f0: b("w"), f1: b("w"), f2: b("w"), f3: b("w"), f4: b("w"), f5: b("w"), f6: b("w"), f7: b("w"), f8: b("w"), f9: b("w") };
    round(w);
}
/// other shapes: many fields, names like others, a single field, three type parameters
#[no_mangle]
pub extern "C" fn c21_shapes(_: u64, _: u64) {
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let mut v = rt::vec(14, "v");
    for x in &v {
        rt::assume(*x < 255);
    }
    match rt::choice(6, "shape") {
        0 => {
            let l = Long(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
            let a = arr(l.clone().to_json().unwrap());
            let mut ok = a.len() == 12;
            for i in 0..12 {
                ok &= ok && a[i] == num(v[i]);
            }
            rt::check(ok, "C21 every field is in its own place");
            let n = [0, 1, 10, 11, 12, 13][rt::choice(6, "n")];
            let items = (0..n).map(|i| num(v[i])).collect();
            match Long::from_json(Value::Array(items)) {
                Some(x) => rt::check(n == 12 && x == l, "C21 an array with a field missing, extra or of another type is refused"),
                None => rt::check(n != 12, "C21 an array with exactly the fields is accepted"),
            }
            round(l);
        }
        1 => {
            let n = Names { a: v[0], ab: v[1], abc: v[2], b_a: v[3], _x: v[4], A: v[5], val: v[6], obj: v[7], ret: v[8], arr: v[9], it: v[10], i: v[11], a_rather_long_name_for_a_field_that_goes_on_and_on_and_on_and_on_and_on: v[12], last: v[13] };
            const KEYS: [&str; 14] = ["a", "ab", "abc", "b_a", "_x", "A", "val", "obj", "ret", "arr", "it", "i", "a_rather_long_name_for_a_field_that_goes_on_and_on_and_on_and_on_and_on", "last"];
            let mut o = obj(n.clone().to_json().unwrap());
            rt::check(o.len() == 14, "C21 every field is under its own name");
            for (i, k) in KEYS.iter().enumerate() {
                rt::check(o.get(*k) == Some(&num(v[i])), "C21 every field is under its own name");
            }
            rt::check(Names::from_json(Value::Object(o.clone())).map_or(false, |m| m == n), "C21 what a value becomes reads back as that value");
            let k = KEYS[rt::choice(14, "key")];
            match rt::choice(3, "change") {
                0 => {
                    o.remove(k);
                }
                1 => {
                    let x = o.remove(k).unwrap();
                    o.insert([k, "_"].concat(), x);
                }
                _ => {
                    o.insert(k.to_string(), Value::Null);
                }
            }
            rt::check(Names::from_json(Value::Object(o)).is_none(), "C21 an object with a field missing, extra or of another type is refused");
        }
        4 => {
            let w = rt::vec(40, "w");
            for x in &w {
                rt::assume(*x < 255);
            }
            let l = Long40(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15], w[16], w[17], w[18], w[19], w[20], w[21], w[22], w[23], w[24], w[25], w[26], w[27], w[28], w[29], w[30], w[31], w[32], w[33], w[34], w[35], w[36], w[37], w[38], w[39]);
            let a = arr(l.clone().to_json().unwrap());
            let mut ok = a.len() == 40;
            for i in 0..40 {
                ok &= ok && a[i] == num(w[i]);
            }
            rt::check(ok, "C21 every field is in its own place");
            rt::check(Long40::from_json(Value::Array(a[..39].to_vec())).is_none(), "C21 an array with a field missing, extra or of another type is refused");
            round(l);
            let n = Wide40 { g0: w[0], g1: w[1], g2: w[2], g3: w[3], g4: w[4], g5: w[5], g6: w[6], g7: w[7], g8: w[8], g9: w[9], g10: w[10], g11: w[11], g12: w[12], g13: w[13], g14: w[14], g15: w[15], g16: w[16], g17: w[17], g18: w[18], g19: w[19], g20: w[20], g21: w[21], g22: w[22], g23: w[23], g24: w[24], g25: w[25], g26: w[26], g27: w[27], g28: w[28], g29: w[29], g30: w[30], g31: w[31], g32: w[32], g33: w[33], g34: w[34], g35: w[35], g36: w[36], g37: w[37], g38: w[38], g39: w[39] };
            let mut o = obj(n.clone().to_json().unwrap());
            rt::check(o.len() == 40, "C21 every field is under its own name");
            for i in 0..40 {
                rt::check(o.get(&format!("g{}", i)) == Some(&num(w[i])), "C21 every field is under its own name");
            }
            round(n);
            o.remove(&format!("g{}", rt::choice(40, "missing")));
            rt::check(Wide40::from_json(Value::Object(o)).is_none(), "C21 an object with a field missing, extra or of another type is refused");
        }
        5 => {
            let t = Where { t: v[0], u: One(v[1]), both: One(One(v[2])) };
            let o = obj(t.clone().to_json().unwrap());
            rt::check(o.len() == 3 && o.get("t") == Some(&num(v[0])) && o.get("u") == Some(&Value::Array(vec![num(v[1])])), "C21 every field is under its own name");
            round(t);
        }
        2 => {
            v.truncate(2);
            let s = Single { only: v.iter().map(|b| (b & 0x7f) as char).collect() };
            let o = obj(s.clone().to_json().unwrap());
            rt::check(o.len() == 1 && o.get("only") == Some(&Value::Str(s.only.clone())), "C21 every field is under its own name");
            round(s);
        }
        _ => {
            let t = Three(v[0], Single { only: "x".into() }, One(v[1]));
            let a = arr(t.clone().to_json().unwrap());
            rt::check(a.len() == 3 && a[0] == num(v[0]) && a[2] == Value::Array(vec![num(v[1])]), "C21 every field is in its own place");
            round(t);
        }
    }
}
/// tuple structs, generics and nesting
#[no_mangle]
pub extern "C" fn c21_nested(_: u64, _: u64) {
    let t = Tuple(b("t0"), text(1, "t1"), b("t2"));
    if let Some(v) = t.clone().to_json() {
        let a = arr(v);
        rt::check(a.len() == 3 && a[0] == num(t.0) && a[1] == Value::Str(t.1.clone()) && a[2] == num(t.2), "C21 every field is in its own place");
    } else {
        rt::check(t.0 == 255 || t.2 == 255, "C21 a struct has a value when all its fields have one");
    }
    round(t.clone());
    let g = Gen { x: b("x"), y: One(b("y")) };
    round(g.clone());
    round(Outer { n: Named { a: b("a"), bb: 7, c: text(1, "c") }, t, g });
}
/// objects with fields missing, extra or of another type are refused
#[no_mangle]
pub extern "C" fn c21_refuse(_: u64, _: u64) {
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let name = rt::vec(2, "name");
    for c in &name {
        rt::assume(*c == b'a' || *c == b'b' || *c == b'c');
    }
    let name = String::from_utf8(name).unwrap();
    let mut o = HashMap::new();
    let present = rt::choice(8, "present");
    for (i, k) in ["a", "bb", "c"].iter().enumerate() {
        if present >> i & 1 == 1 {
            o.insert(k.to_string(), if i == 2 { Value::Str("s".into()) } else { num(b("v")) });
        }
    }
    let extra = rt::choice(2, "extra") == 1;
    if extra {
        o.insert(name.clone(), num(b("e")));
    }
    let full: Vec<bool> = ["a", "bb"].iter().map(|k| matches!(o.get(*k), Some(Value::Num(n)) if *n < 255)).collect();
    let ok = o.len() == 3 && full[0] && full[1] && matches!(o.get("c"), Some(Value::Str(_)));
    let keep = o.clone();
    match Named::from_json(Value::Object(o)) {
        None => {
            rt::check(!ok, "C21 an object with exactly the fields is accepted");
            rt::cover("refused");
        }
        Some(n) => {
            rt::check(ok, "C21 an object with a field missing, extra or of another type is refused");
            rt::check(keep["a"] == num(n.a) && keep["bb"] == num(n.bb) && n.c == "s", "C21 every field comes from its own name");
            rt::cover("accepted");
        }
    }
    // tuple structs
    let n = rt::choice(6, "n");
    let items: Vec<Value> = (0..n).map(|i| if i == 1 { Value::Str("s".into()) } else { num(b("i")) }).collect();
    let good = n == 3 && items[0] != num(255) && items[2] != num(255);
    let k2 = items.clone();
    match Tuple::from_json(Value::Array(items)) {
        None => rt::check(!good, "C21 an array with exactly the fields is accepted"),
        Some(t) => rt::check(good && k2[0] == num(t.0) && k2[2] == num(t.2), "C21 an array with a field missing, extra or of another type is refused"),
    }
    rt::check(Named::from_json(Value::Array(vec![])).is_none() && Tuple::from_json(Value::Object(HashMap::new())).is_none() && Named::from_json(Value::Null).is_none() && One::<u8>::from_json(Value::Num(1)).is_none(), "C21 other values are refused");
}
/// a field that may be null, or empty
#[derive(Clone, PartialEq)]
struct Opt(Option<u8>);
impl ToJSON for Opt {
    fn to_json(self) -> Option<Value> {
        Some(match self.0 {
            None => Value::Null,
            Some(200) => Value::Array(vec![]),
            Some(201) => Value::Object(HashMap::new()),
            Some(202) => Value::Str(String::new()),
            Some(n) => num(n),
        })
    }
}
impl FromJSON for Opt {
    fn from_json(v: Value) -> Option<Self> {
        Some(Opt(match v {
            Value::Null => None,
            Value::Array(_) => Some(200),
            Value::Object(_) => Some(201),
            Value::Str(_) => Some(202),
            Value::Num(n) => Some(n as u8),
        }))
    }
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Maybe {
    a: u8,
    b: Opt,
    c: Opt,
}
#[derive(FromJSON, ToJSON, Clone, PartialEq)]
struct Perhaps(Opt, u8, Opt);
/// null and empty values are values: they are there, and are missed when they are not
#[no_mangle]
pub extern "C" fn c21_null(_: u64, _: u64) {
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let pick = |name: &str| Opt([None, Some(0), Some(7), Some(200), Some(201), Some(202)][rt::choice(6, name)]);
    let a = b("a");
    rt::assume(a != 255);
    let m = Maybe { a, b: pick("b"), c: pick("c") };
    let v = m.clone().to_json();
    rt::check(v.is_some(), "C21 a struct has a value when all its fields have one");
    let o = obj(v.unwrap());
    rt::check(o.len() == 3 && o.get("a") == Some(&num(a)) && o.get("b").cloned() == m.b.clone().to_json() && o.get("c").cloned() == m.c.clone().to_json(), "C21 every field is in its own place");
    round(m);
    // one left out, or one too many
    let mut less = o.clone();
    less.remove(["a", "b", "c"][rt::choice(3, "less")]);
    rt::check(Maybe::from_json(Value::Object(less.clone())).is_none(), "C21 an object with a field missing, extra or of another type is refused");
    less.insert("d".into(), Value::Null);
    rt::check(Maybe::from_json(Value::Object(less)).is_none(), "C21 an object with a field missing, extra or of another type is refused");
    let mut more = o;
    more.insert("d".into(), pick("d").to_json().unwrap());
    rt::check(Maybe::from_json(Value::Object(more)).is_none(), "C21 an object with a field missing, extra or of another type is refused");
    let p = Perhaps(pick("x"), a, pick("y"));
    let v = arr(p.clone().to_json().unwrap());
    rt::check(v.len() == 3 && Some(&v[0]) == p.0.clone().to_json().as_ref() && v[1] == num(a) && Some(&v[2]) == p.2.clone().to_json().as_ref(), "C21 every field is in its own place");
    round(p);
    let mut less = v.clone();
    less.pop();
    let mut more = v;
    more.push(pick("z").to_json().unwrap());
    rt::check(Perhaps::from_json(Value::Array(less)).is_none() && Perhaps::from_json(Value::Array(more)).is_none(), "C21 an array with a field missing, extra or of another type is refused");
    rt::cover("null");
}
