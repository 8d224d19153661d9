//! C12: the cookies handlers see are those of the Cookie header.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

/// the pairs of a Cookie header, in order
fn pairs(v: &str) -> Vec<(&str, &str)> {
    let mut r = Vec::new();
    let mut rest = Some(v);
    while let Some(s) = rest {
        let tok = match s.as_bytes().windows(2).position(|w| w == b"; ") {
            Some(i) => {
                rest = Some(&s[i + 2..]);
                &s[..i]
            }
            None => {
                rest = None;
                s
            }
        };
        let tok = &tok[..tok.bytes().position(|b| b == b';').unwrap_or(tok.len())];
        if let Some(i) = tok.bytes().position(|b| b == b'=') {
            let name = spaces(&tok[..i]);
            let mut val = spaces(&tok[i + 1..]);
            if val.len() >= 2 && val.starts_with('"') && val.ends_with('"') {
                val = spaces(&val[1..val.len() - 1]);
            }
            if !name.is_empty() {
                r.push((name, val));
            }
        }
    }
    r
}
fn spaces(mut s: &str) -> &str {
    while s.starts_with(' ') {
        s = &s[1..];
    }
    while s.ends_with(' ') {
        s = &s[..s.len() - 1];
    }
    s
}

fn go(value: &[u8]) {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        res.send("ok");
    }))
    .unwrap();
    let inp = [b"GET / HTTP/1.1\r\nHost: a\r\nCookie: " as &[u8], value, b"\r\n\r\n"].concat();
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), &inp));
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    let w = match want(&inp) {
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C12 a malformed header is rejected");
            return;
        }
        Some(w) => w,
    };
    rt::check(r.status == 200 && seen.len() == 1, "C12 a request is served whatever its cookies");
    let h = w.header("cookie");
    let p = h.as_deref().map(pairs).unwrap_or_default();
    let s = &seen[0];
    rt::check(s.cookies.len() == p.len(), "C12 every cookie of the header is shown, and nothing else");
    for (a, b) in s.cookies.iter().zip(p.iter()) {
        rt::check(a.0 == b.0 && a.1 == b.1, "C12 cookies are shown with their names and values, in order");
        rt::note_bytes(a.1.as_bytes(), "value");
    }
    match p.len() {
        0 => rt::cover("none"),
        1 => rt::cover("one"),
        _ => rt::cover("several"),
    }
}
/// any n bytes replaced in a list of cookies
#[no_mangle]
pub extern "C" fn c12_window(n: u64, _: u64) {
    let mut t = b"ab=cd; e=\"f\"; g; h= i; Path=/".to_vec();
    let at = rt::choice((t.len() - n as usize + 1) as u64, "at");
    rt::bytes(&mut t[at..at + n as usize], "w");
    for b in &t {
        rt::assume(*b >= 0x20 && *b < 0x7f);
    }
    go(&t);
}
/// any n characters out of those with a meaning
#[no_mangle]
pub extern "C" fn c12_chars(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let v = rt::vec(n, "cookie");
    for b in &v {
        rt::assume(*b == b'=' || *b == b';' || *b == b' ' || *b == b'a' || *b == b'"');
    }
    go(&v);
}
/// any value of n bytes
#[no_mangle]
pub extern "C" fn c12_value(n: u64, _: u64) {
    let mut t = b"x=".to_vec();
    let v = rt::vec(n as usize, "v");
    for b in &v {
        rt::assume(*b >= 0x20 && *b < 0x7f);
    }
    t.extend_from_slice(&v);
    t.extend_from_slice(b"; y=z");
    go(&t);
}
/// many cookies, and names that are names of attributes
#[no_mangle]
pub extern "C" fn c12_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [0usize, 1, 5, 40, 300, 1100][rt::choice(6, "n")];
    let a = ["Expires=Wed, 21 Oct 2015 07:28:00 GMT", "Secure", "domain=.x", "Max-Age=-5", "SameSite=Lax", "a=b;Path=/;HttpOnly", "%41=%42", "=v", "k=", "x=y=z"][rt::choice(10, "a")];
    let at = rt::choice(2, "at");
    let mut t = String::new();
    for i in 0..n {
        t.push_str(&format!("c{}={}; ", i, "v".repeat(i % 4)));
    }
    if at == 0 {
        t = [a, "; ", &t, "z=1"].concat();
    } else {
        t.push_str(a);
    }
    let l = t.len();
    let mut b = t.into_bytes();
    b[l - 1] = one_of(b"=; a1", "last");
    go(&b);
}
/// a handler that is not the first sees the cookies too, and none without a header
#[no_mangle]
pub extern "C" fn c12_none(_: u64, _: u64) {
    let mut app = Octane::new();
    app.get("/:x", route_next!(|req, res| {
        record(0, req);
        res.send("ok");
    }))
    .unwrap();
    app.add(route_next!(|req, res| record(1, req))).unwrap();
    let k = rt::choice(4, "k");
    let h = ["", "Cookie: a=b; c=d\r\n", "cOOKIE:a=b; c=d\r\n", "Cookies: a=b\r\nX-Cookie: a=b\r\nSet-Cookie: a=b\r\n"][k];
    let inp = ["GET /q HTTP/1.0\r\n", h, "\r\n"].concat();
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), inp.as_bytes()));
    let s = SEEN.get();
    let want: &[(&str, &str)] = if k == 1 || k == 2 { &[("a", "b"), ("c", "d")] } else { &[] };
    rt::check(r.status == 200 && s.len() == 2, "C12 a request is served whatever its cookies");
    for x in s.iter() {
        rt::check(x.cookies.len() == want.len() && x.cookies.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "C12 every handler sees the cookies of the request");
    }
}
/// long names and values
#[no_mangle]
pub extern "C" fn c12_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [127usize, 128, 255, 256, 257, 1024, 4095, 4096, 4097, 9000][rt::choice(10, "n")];
    let s = "v".repeat(n - 1);
    let c = one_of(b"v=; \"", "c");
    let mut t = if rt::choice(2, "shape") == 0 { ["a=", &s].concat() } else { s.clone() }.into_bytes();
    t.push(c);
    t.extend_from_slice(b"w=x; last=1");
    go(&t);
}
/// any words as name and value
#[no_mangle]
pub extern "C" fn c12_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    go(&[b"k=v; ", &a[..], b"=", &b, b"; l=m"].concat());
}
/// names and values that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c12_known(_: u64, _: u64) {
    let (a, b) = (known_name("a"), known_name("b"));
    let v = ["", "v", "deleted", "/", "0", "\"q\""][rt::choice(6, "v")];
    go(["k=v; ", a, "=", b, "; ", b, "=", v].concat().as_bytes());
}
