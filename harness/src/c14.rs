//! C14: the query of a request decodes into its names and values.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
/// percent escapes decoded; an incomplete escape stands for itself
pub fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut r = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) {
                r.push(x * 16 + y);
                i += 3;
                continue;
            }
        }
        r.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&r).into_owned()
}
pub fn fields(q: &str) -> Vec<(&str, Option<&str>)> {
    let mut v = Vec::new();
    let mut rest = q;
    loop {
        let (tok, more) = match rest.bytes().position(|b| b == b'&') {
            Some(i) => (&rest[..i], Some(&rest[i + 1..])),
            None => (rest, None),
        };
        if !tok.is_empty() {
            match tok.bytes().position(|b| b == b'=') {
                Some(i) => v.push((&tok[..i], Some(&tok[i + 1..]))),
                None => v.push((tok, None)),
            }
        }
        match more {
            Some(m) => rest = m,
            None => return v,
        }
    }
}
fn go(target: &[u8]) {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let mut s = observe(0, req);
        s.query = Some(req.get_query());
        SEEN.get().push(s);
        res.send("ok");
    }))
    .unwrap();
    let inp = [b"GET " as &[u8], target, b" HTTP/1.0\r\n\r\n"].concat();
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), &inp));
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    let w = match want(&inp) {
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C14 a malformed request is rejected");
            return;
        }
        Some(w) => w,
    };
    rt::check(r.status == 200 && seen.len() == 1, "C14 a request is served whatever its query");
    let s = &seen[0];
    rt::check(s.chunks.len() == w.segs.len() && s.chunks.iter().zip(w.segs.iter()).all(|(a, b)| a == b), "C14 the query is no part of the path");
    let q = s.query.as_ref().unwrap();
    let mut want: Vec<(String, String)> = Vec::new();
    for (k, v) in fields(w.query) {
        if k.is_empty() {
            continue;
        }
        let (k, v) = (decode(k), v.map(decode).unwrap_or_default());
        want.retain(|x| x.0 != k);
        want.push((k, v));
    }
    rt::check(q.len() == want.len(), "C14 the query has the names that were sent and no others");
    for (k, v) in &want {
        rt::check(q.get(k) == Some(v), "C14 each name has the decoded value last sent for it");
        rt::note_bytes(k.as_bytes(), "name");
        rt::note_bytes(v.as_bytes(), "value");
    }
    match want.len() {
        0 => rt::cover("empty"),
        1 => rt::cover("one"),
        _ => rt::cover("several"),
    }
}
/// any query of n characters out of those with a meaning
#[no_mangle]
pub extern "C" fn c14_chars(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut t = b"/p?".to_vec();
    for b in rt::vec(n, "q") {
        rt::assume(b == b'&' || b == b'=' || b == b'%' || b == b'a' || b == b'?');
        t.push(b);
    }
    go(&t);
}
/// any query of n bytes
#[no_mangle]
pub extern "C" fn c14_bytes(n: u64, _: u64) {
    let mut t = b"/?".to_vec();
    t.extend_from_slice(&rt::vec(n as usize, "q"));
    go(&t);
}
/// any n ASCII bytes replaced in a longer query
#[no_mangle]
pub extern "C" fn c14_window(n: u64, _: u64) {
    let mut t = b"/a/b?x=%41b&x=2&%79=+&z".to_vec();
    let at = rt::choice((t.len() - 4 - n as usize + 1) as u64, "at") + 4;
    rt::bytes(&mut t[at..at + n as usize], "w");
    for b in &t {
        rt::assume(*b > 0x20 && *b < 0x7f);
    }
    go(&t);
}
/// any escape: two arbitrary characters after a percent sign
#[no_mangle]
pub extern "C" fn c14_escape(k: u64, _: u64) {
    let mut t = b"/?n".to_vec();
    if k == 1 {
        t.push(b'=');
    }
    t.extend_from_slice(b"a%");
    let v = rt::vec(2, "xx");
    for b in &v {
        rt::assume(*b > 0x20 && *b < 0x7f);
    }
    t.extend_from_slice(&v);
    t.extend_from_slice(b"4b");
    go(&t);
}
/// anything after a percent sign: n bytes of UTF-8, so that characters of any length stand where digits may
#[no_mangle]
pub extern "C" fn c14_wide(n: u64, _: u64) {
    let mut t = b"/?v=%".to_vec();
    t.extend_from_slice(&rt::vec(n as usize, "q"));
    go(&t);
}
/// UTF-8 in escapes: n escaped bytes, whole, broken and mixed with plain text
#[no_mangle]
pub extern "C" fn c14_utf8(n: u64, _: u64) {
    let mut t = b"/?v=".to_vec();
    for i in 0..n {
        t.push(b'%');
        // the lead bytes and continuation bytes, by their upper digit
        t.push(one_of(b"48cEf", "hi"));
        t.push(one_of(if i == 0 { b"029F" } else { b"09b" }, "lo"));
    }
    go(&t);
}
/// many fields
#[no_mangle]
pub extern "C" fn c14_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let n = [3usize, 14, 29, 100, 300, 1100][rt::choice(6, "n")];
    let distinct = [1usize, 6, 10000][rt::choice(3, "distinct")];
    let mut t = b"/many?".to_vec();
    for i in 0..n {
        t.extend_from_slice(format!("k{}={}%2{}&", i % distinct, "v".repeat(i % 5), i % 10).as_bytes());
    }
    t.extend_from_slice(b"last=%4");
    t.push(one_of(b"1aFg&=%", "c"));
    go(&t);
}
/// long names and values
#[no_mangle]
pub extern "C" fn c14_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [127usize, 128, 255, 256, 257, 1024, 4096, 9000][rt::choice(8, "n")];
    let mut t = b"/?".to_vec();
    match rt::choice(4, "shape") {
        0 => t.resize(n, b'n'),
        1 => {
            t.extend_from_slice(b"n=");
            t.resize(n, b'v');
        }
        2 => {
            t.extend_from_slice(b"n=");
            while t.len() < n {
                t.extend_from_slice(b"%c3%A9");
            }
        }
        _ => t.resize(n, b'&'),
    }
    t.push(one_of(b"%=&n?", "c"));
    t.extend_from_slice(b"41=2&m=%41");
    go(&t);
}
/// any words as name and value
#[no_mangle]
pub extern "C" fn c14_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let eq = [&b"="[..], b"&", b"%20=", b"=%41"][rt::choice(4, "eq")];
    go(&[b"/p?k=v&", &a[..], eq, &b].concat());
}
/// names and values that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c14_known(_: u64, _: u64) {
    let (a, b) = (known_name("a"), known_name("b"));
    go(&match rt::choice(3, "shape") {
        0 => ["/p?", a, "=", b].concat(),
        1 => ["/p?", a, "=1&", b, "=2&", a].concat(),
        _ => ["/p?k=", a, b, "&k", a, "=", b, a].concat(),
    }
    .into_bytes());
}
