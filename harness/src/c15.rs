//! C15: extended queries: name[] builds arrays, name[key] builds objects.
use crate::c14::{decode, fields};
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::QueryValue;
use std::sync::Arc;

enum W {
    S(String),
    A(Vec<String>),
    O(Vec<(String, String)>),
}
fn expected(q: &str) -> Vec<(String, W)> {
    let mut r: Vec<(String, W)> = Vec::new();
    for (name, val) in fields(q) {
        let v = decode(val.unwrap_or(""));
        if val.is_some() {
            if name.is_empty() {
                continue;
            }
            let b = name.as_bytes();
            if b[b.len() - 1] == b']' {
                if let Some(i) = b.iter().rposition(|x| *x == b'[') {
                    let (out, ins) = (&name[..i], &name[i + 1..name.len() - 1]);
                    match r.iter_mut().find(|x| x.0 == out) {
                        None => r.push((
                            out.to_string(),
                            if ins.is_empty() { W::A(vec![v]) } else { W::O(vec![(ins.to_string(), v)]) },
                        )),
                        Some((_, W::A(l))) if ins.is_empty() => l.push(v),
                        Some((_, W::O(l))) if !ins.is_empty() => {
                            l.retain(|x| x.0 != ins);
                            l.push((ins.to_string(), v));
                        }
                        _ => (),
                    }
                    continue;
                }
            }
        }
        let k = decode(name);
        r.retain(|x| x.0 != k);
        r.push((k, W::S(v)));
    }
    r
}
fn same(w: &W, q: &QueryValue) -> bool {
    match (w, q) {
        (W::S(a), QueryValue::Str(b)) => a == b && q.get_str() == Some(b) && q.get_arr().is_none() && q.get_obj().is_none(),
        (W::A(a), QueryValue::Arr(b)) => a == b && q.get_arr() == Some(b) && q.get_str().is_none() && q.get_obj().is_none(),
        (W::O(a), QueryValue::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v)) && q.get_obj() == Some(b) && q.get_str().is_none() && q.get_arr().is_none(),
        _ => false,
    }
}
fn go(query: &[u8]) {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let mut s = observe(0, req);
        s.ext = Some(req.get_extended_query());
        SEEN.get().push(s);
        res.send("ok");
    }))
    .unwrap();
    let inp = [b"GET /?" as &[u8], query, b" HTTP/1.0\r\n\r\n"].concat();
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), &inp));
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    let w = match want(&inp) {
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C15 a malformed request is rejected");
            return;
        }
        Some(w) => w,
    };
    rt::check(r.status == 200 && seen.len() == 1, "C15 a request is served whatever its query");
    let m = seen[0].ext.as_ref().unwrap();
    let e = expected(w.query);
    rt::check(m.len() == e.len(), "C15 the extended query has the names that were sent and no others");
    for (k, v) in &e {
        let got = m.get(k);
        rt::check(got.is_some(), "C15 every name that was sent is there");
        rt::check(same(v, got.unwrap()), "C15 a name has the string, array or object that was sent");
        rt::note_bytes(k.as_bytes(), "name");
        match v {
            W::S(_) => rt::cover("string"),
            W::A(_) => rt::cover("array"),
            W::O(_) => rt::cover("object"),
        }
    }
}
fn set(b: u8, s: &[u8]) {
    let mut ok = false;
    for x in s {
        ok |= *x == b;
    }
    rt::assume(ok);
}
/// any query of n characters out of those with a meaning
#[no_mangle]
pub extern "C" fn c15_chars(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let v = rt::vec(n, "q");
    for b in &v {
        set(*b, b"[]=&a");
    }
    go(&v);
}
/// any n characters replaced in a longer query
#[no_mangle]
pub extern "C" fn c15_window(n: u64, k: u64) {
    let mut t = [b"a[]=1&a[b]=%41&c[d]=2&c[d]=3" as &[u8], b"x[y][]=1&x[y]=2&x=3&x[]=4"][k as usize].to_vec();
    window(&mut t, n as usize);
    for b in &t {
        rt::assume(*b > 0x20 && *b < 0x7f);
    }
    go(&t);
}
/// any sequence of k fields out of the kinds there are
#[no_mangle]
pub extern "C" fn c15_fields(k: u64, _: u64) {
    rt::hash_mode(rt::choice(2, "hash") as u64);
    const F: &[&str] = &["a=1", "a[]=2", "a[x]=3", "b[]=4", "a[y]=5", "a", "a[]", "[x]=6", "a[%78]=7", "%61=8", "%61[]=9", "=0"];
    let mut t = Vec::new();
    for i in 0..k {
        if i > 0 {
            t.push(b'&');
        }
        t.extend_from_slice(F[rt::choice(F.len() as u64, "f")].as_bytes());
    }
    go(&t);
}
/// any bytes inside and outside the brackets, and as the value
#[no_mangle]
pub extern "C" fn c15_bytes(n: u64, _: u64) {
    let at = rt::choice(3, "at");
    let mut t = Vec::new();
    for (i, s) in ["n", "[k", "]=v"].iter().enumerate() {
        t.extend_from_slice(s.as_bytes());
        if i == at {
            t.extend_from_slice(&rt::vec(n as usize, "w"));
        }
    }
    go(&t);
}
/// long arrays and large objects
#[no_mangle]
pub extern "C" fn c15_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let n = [5usize, 29, 60, 300, 1100][rt::choice(5, "n")];
    let names = 1 + rt::choice(3, "names");
    let obj = rt::choice(2, "obj") == 1;
    let mut t = String::new();
    for i in 0..n {
        if obj {
            t.push_str(&format!("o{}[k{}]=v{}&", i % names, i % 17, i));
        } else {
            t.push_str(&format!("o{}[]=v{}&", i % names, i));
        }
    }
    t.push_str("o1[k");
    let mut t = t.into_bytes();
    t.push(one_of(b"]1=[", "c"));
    t.extend_from_slice(b"=last");
    go(&t);
}
/// long names, keys and values
#[no_mangle]
pub extern "C" fn c15_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [127usize, 128, 255, 256, 257, 1024, 4096][rt::choice(7, "n")];
    let s = "k".repeat(n);
    let c = one_of(b"[]=k&", "c");
    let mut t = match rt::choice(3, "shape") {
        0 => [&s, "[a"].concat(),
        1 => ["a[", &s].concat(),
        _ => ["a[b]=", &s].concat(),
    }
    .into_bytes();
    t.push(c);
    t.extend_from_slice(b"]=1&a[]=2&z=3");
    go(&t);
}
/// any words as name and key or value
#[no_mangle]
pub extern "C" fn c15_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    go(&match rt::choice(4, "shape") {
        0 => [b"k=v&", &a[..], b"=", &b].concat(),
        1 => [b"k=v&", &a[..], b"[", &b, b"]=x"].concat(),
        2 => [&a[..], b"[]=", &b, b"&", &a, b"[]=last"].concat(),
        _ => [&a[..], b"[k]=", &b, b"&", &a, b"[l]=last"].concat(),
    });
}
/// names, keys and values that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c15_known(_: u64, _: u64) {
    let (a, b) = (known_name("a"), known_name("b"));
    go(&match rt::choice(5, "shape") {
        0 => [a, "=", b].concat(),
        1 => [a, "[", b, "]=x&", a, "[c]=y"].concat(),
        2 => [a, "[]=", b, "&", a, "[]=y"].concat(),
        3 => ["k[", a, "]=1&k[", b, "]=2"].concat(),
        _ => [a, "[", b, "][c]=x&", a, "[]", b, "=y"].concat(),
    }
    .into_bytes());
}
