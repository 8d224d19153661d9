//! C13: every cookie a handler sets reaches the client in its own Set-Cookie line.
use crate::c11::leak;
use crate::common::*;
use crate::rt;
use octane::cookie::Cookie;
use octane::prelude::*;
use std::sync::Arc;

fn part(n: usize, name: &str) -> &'static str {
    let v = rt::vec(n, name);
    for b in &v {
        rt::assume(*b > 0x20 && *b < 0x7f && *b != b';' && *b != b'=' && *b != b',' && *b != b'"' && *b != b'\\');
    }
    leak(String::from_utf8(v).unwrap())
}
const AGE: i64 = 3600;
struct Spec {
    name: &'static str,
    value: &'static str,
    attr: usize,
    path: &'static str,
}
fn make(s: &Spec) -> Cookie<'static> {
    let mut b = Cookie::build(s.name, s.value);
    if s.attr & 1 == 1 {
        b = b.http_only(true);
    }
    if s.attr & 2 == 2 {
        b = b.secure(true);
    }
    if s.attr & 4 == 4 {
        b = b.path(s.path);
    }
    if s.attr & 8 == 8 {
        b = b.domain("e.org");
    }
    if s.attr & 16 == 16 {
        b = b.same_site(cookie::SameSite::Strict);
    }
    if s.attr & 32 == 32 {
        b = b.max_age(time::Duration::seconds(AGE));
    }
    if s.attr & 64 == 64 {
        b = b.expires(time::OffsetDateTime::from_unix_timestamp(1_000_000_000));
    }
    if s.attr == 0 {
        return Cookie::new(s.name, s.value);
    }
    Cookie::from(b.finish())
}
/// the line has the pair first, then the attributes in some order
fn line_ok(l: &str, s: &Spec) -> bool {
    let mut parts = l.split("; ");
    if parts.next() != Some(&[s.name, "=", s.value].concat()) {
        return false;
    }
    let mut seen = 0;
    for p in parts {
        let bit = match p {
            "HttpOnly" => 1,
            "Secure" => 2,
            "Domain=e.org" => 8,
            "SameSite=Strict" => 16,
            "Max-Age=3600" => 32,
            "Expires=Sun, 09 Sep 2001 01:46:40 GMT" => 64,
            _ if p.starts_with("Path=") && &p[5..] == s.path => 4,
            _ => return false,
        };
        if seen & bit != 0 {
            return false;
        }
        seen |= bit;
    }
    seen == s.attr
}
fn go(specs: Vec<Spec>, split: usize) {
    let specs = Arc::new(specs);
    let mut app = Octane::new();
    let (a, b) = (specs.clone(), specs.clone());
    app.add(route_next!(|req, res| {
        res.set("Before", "1");
        for s in &a[..split] {
            res.cookie(make(s));
        }
        res.send("body");
    }))
    .unwrap();
    app.get("/", route_next!(|req, res| {
        for s in &b[split..] {
            res.cookie(make(s));
        }
        res.set("After", "2");
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n"));
    let lines: Vec<&str> = r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("set-cookie")).map(|h| h.1.as_str()).collect();
    rt::check(lines.len() == specs.len(), "C13 one Set-Cookie line for every cookie set");
    for (l, s) in lines.iter().zip(specs.iter()) {
        rt::check(line_ok(l, s), "C13 a Set-Cookie line has the name, value and attributes of its cookie, in the order they were set");
        rt::note_bytes(l.as_bytes(), "line");
    }
    rt::check(r.status == 200 && r.body == b"body" && r.one("Before") == Some("1") && r.one("After") == Some("2") && r.headers.len() == specs.len() + 5, "C13 cookies leave the rest of the response as it is");
    match specs.len() {
        0 => rt::cover("none"),
        1 => rt::cover("one"),
        _ => rt::cover("several"),
    }
}
/// one cookie with any attributes
#[no_mangle]
pub extern "C" fn c13_one(n: u64, m: u64) {
    let attr = rt::choice(128, "attr");
    let m = rt::choice(m + 1, "m");
    let s = Spec { name: part(n as usize, "name"), value: part(m, "value"), attr, path: part(1, "path") };
    let split = rt::choice(2, "split");
    go(vec![s], split);
}
/// k cookies, names and values of up to n
#[no_mangle]
pub extern "C" fn c13_list(k: u64, n: u64) {
    let k = rt::choice(k + 1, "k");
    let v = (0..k)
        .map(|_| {
            let m = rt::choice(n + 1, "m");
            Spec { name: part(n as usize, "name"), value: part(m, "value"), attr: rt::choice(2, "attr") * 5, path: "/x" }
        })
        .collect();
    let split = rt::choice(k as u64 + 1, "split");
    go(v, split);
}
/// many cookies, some of the same name
#[no_mangle]
pub extern "C" fn c13_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let k = [10usize, 33, 64, 200, 300, 1100][rt::choice(6, "k")];
    let distinct = [1usize, 7, 100][rt::choice(3, "distinct")];
    let c = part(1, "c");
    let v = (0..k).map(|i| Spec { name: leak(format!("n{}{}", i % distinct, c)), value: leak(format!("{}{}", c, "v".repeat(i % 9))), attr: i % 128, path: "/p" }).collect();
    go(v, k / 2);
}
/// any words as name and value
#[no_mangle]
pub extern "C" fn c13_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let s = |v: Vec<u8>| -> &'static str { leak(String::from_utf8(v).unwrap()) };
    let attr = [0, 127][rt::choice(2, "attr")];
    go(vec![Spec { name: s(a), value: s(b), attr, path: "/x" }], 0);
}
/// long names, values and paths
#[no_mangle]
pub extern "C" fn c13_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let t = leak(long_text());
    let (name, value, path) = [(t, "v", "/"), ("n", t, "/"), ("n", "v", t), (t, t, "/")][rt::choice(4, "place")];
    let attr = [0, 4, 127][rt::choice(3, "attr")];
    go(vec![Spec { name: "first", value: "1", attr: 0, path: "/" }, Spec { name, value, attr, path }], 1);
    rt::cover("long");
}
/// attributes with any of several values
#[no_mangle]
pub extern "C" fn c13_attributes(_: u64, _: u64) {
    let mut b = Cookie::build("n", ["v", "", "a b", "\"q\""][rt::choice(4, "value")]);
    b = match rt::choice(4, "site") {
        0 => b,
        1 => b.same_site(cookie::SameSite::Strict),
        2 => b.same_site(cookie::SameSite::Lax),
        _ => b.same_site(cookie::SameSite::None),
    };
    b = match rt::choice(6, "age") {
        0 => b,
        1 => b.permanent(),
        k => b.max_age(time::Duration::seconds([0, 1, -1, 99_999_999_999][k - 2])),
    };
    b = match rt::choice(3, "secure") {
        0 => b,
        1 => b.secure(true),
        _ => b.secure(false).http_only(true),
    };
    b = match rt::choice(4, "where") {
        0 => b,
        1 => b.path("/"),
        2 => b.domain(".e.org").path("/a b"),
        _ => b.domain("e.org"),
    };
    let c = b.finish();
    let want = c.to_string();
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        res.cookie(Cookie::from(c.clone())).cookie(Cookie::new("m", "w")).send("body");
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n"));
    let lines: Vec<&str> = r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("set-cookie")).map(|h| h.1.as_str()).collect();
    rt::check(lines.len() == 2 && lines[1] == "m=w" && r.headers.len() == 5, "C13 one Set-Cookie line for every cookie set");
    // the attributes may come in another order
    let mut a: Vec<&str> = lines[0].split("; ").collect();
    let mut b: Vec<&str> = want.split("; ").collect();
    a[1..].sort_unstable();
    b[1..].sort_unstable();
    rt::check(a == b, "C13 a Set-Cookie line has the name, value and attributes of its cookie, in the order they were set");
    rt::note(lines[0].len() as u64, "length");
    rt::cover("attributes");
}
/// names and values that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c13_known(_: u64, _: u64) {
    let all: Vec<&'static str> = NAMES.iter().copied().filter(|n| n.bytes().all(|b| is_token(b))).collect();
    let (a, b) = (all[rt::choice(all.len() as u64, "a")], known_name("b"));
    let second = if b.bytes().all(is_token) { b } else { a };
    let attr = [0, 127][rt::choice(2, "attr")];
    go(vec![Spec { name: a, value: b, attr, path: "/x" }, Spec { name: second, value: "deleted", attr: 0, path: "/" }], 1);
}
/// cookies among any other steps of handlers, k in all
#[no_mangle]
pub extern "C" fn c13_program(k: u64, _: u64) {
    let (out, m) = crate::c11::program(k);
    let r = expect_response(&out);
    let lines: Vec<&str> = r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("set-cookie")).map(|h| h.1.as_str()).collect();
    if let Some(b) = &m.body {
        rt::check(lines.len() == m.cookies.len(), "C13 one Set-Cookie line for every cookie set");
        for (l, c) in lines.iter().zip(m.cookies.iter()) {
            rt::check(l == c, "C13 a Set-Cookie line has the name, value and attributes of its cookie, in the order they were set");
        }
        rt::check(r.status == m.status && r.body == *b && r.headers.len() == m.headers.len() + 2 + lines.len(), "C13 cookies leave the rest of the response as it is");
    } else {
        rt::check(lines.is_empty(), "C13 the standard error page sets no cookies");
    }
    rt::note(lines.len() as u64, "lines");
    rt::cover("program");
}
