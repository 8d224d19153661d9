//! C11: the response on the wire is the one the handlers described.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::responder::Response;
use octane::StatusCode;
use octane_http::HttpVersion;
use std::sync::Arc;

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// serve one GET with a single handler
pub fn with<F: Fn(&mut Response) + Send + Sync + 'static>(f: F) -> Resp {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| f(res))).unwrap();
    expect_response(&serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n"))
}
/// exactly these headers, Content-Length and Date
pub fn only(r: &Resp, want: &[(&str, &str)]) {
    for (n, v) in want {
        let mut it = r.headers.iter().filter(|h| h.0 == *n);
        let first = it.next();
        rt::check(first.is_some(), "C11 every header that was set is sent");
        rt::check(first.unwrap().1 == *v, "C11 a header is sent with the value last set");
        rt::check(it.next().is_none(), "C11 a header that was set is sent once");
        rt::note_bytes(v.as_bytes(), "value");
    }
    let mut extra = 2;
    if !want.iter().any(|h| h.0 == "Content-Type") {
        extra = 3;
        rt::check(r.one("Content-Type").map_or(false, |v| v.starts_with("text/html")), "C11 the default type is text/html");
    }
    rt::check(r.one("Date").is_some(), "C11 the response has one Date");
    rt::check(r.headers.len() == want.len() + extra, "C11 no other header is sent");
}
fn token(n: usize, name: &str) -> String {
    let v = rt::vec(n, name);
    for b in &v {
        rt::assume(is_token(*b));
    }
    String::from_utf8(v).unwrap()
}
fn standard(n: &str) -> bool {
    n.eq_ignore_ascii_case("date") || n.eq_ignore_ascii_case("content-type") || n.eq_ignore_ascii_case("content-length")
}

/// two headers with any names of n and any values of m characters
#[no_mangle]
pub extern "C" fn c11_headers(n: u64, m: u64) {
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let names = [token(n as usize, "name"), token(n as usize, "name")];
    let (k, l) = (rt::choice(m + 1, "k"), rt::choice(m + 1, "l"));
    let vals = [text(k, "value"), text(l, "value")];
    let after = rt::choice(2, "after") == 1;
    let (nn, vv) = (names.clone(), vals.clone());
    let r = with(move |res| {
        res.set(&nn[0], &vv[0]);
        rt::check(res.headers_sent(), "C11 headers_sent tells that a header was set");
        if !after {
            res.set(&nn[1], &vv[1]);
        }
        res.send("body");
        if after {
            res.set(&nn[1], &vv[1]);
        }
    });
    rt::check(r.status == 200 && r.reason == "OK" && r.body == b"body", "C11 the body is the one sent");
    if names[0] == names[1] {
        only(&r, &[(&names[0], &vals[1])]);
        rt::cover("replaced");
    } else {
        only(&r, &[(&names[0], &vals[0]), (&names[1], &vals[1])]);
        rt::cover("two");
    }
}
/// any value of n bytes without line breaks, multi-byte characters included
#[no_mangle]
pub extern "C" fn c11_value(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let v = rt::vec(n, "value");
    for b in &v {
        rt::assume(*b != b'\r' && *b != b'\n');
    }
    let s = match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => return,
    };
    let t = s.clone();
    let r = with(move |res| {
        res.set("X-V", &t).send(t.as_bytes());
    });
    only(&r, &[("X-V", &s)]);
    rt::check(r.body == s.as_bytes(), "C11 the body is the one sent");
    rt::cover("value");
}
/// any body of up to n bytes, sent as any type
#[no_mangle]
pub extern "C" fn c11_body(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let b = rt::vec(n, "body");
    let kind = rt::choice(3, "kind");
    let c = b.clone();
    let r = with(move |res| match kind {
        0 => res.send(c.clone()),
        1 => res.send(&c[..]),
        _ => res.send(String::from_utf8_lossy(&c).as_bytes()),
    });
    only(&r, &[]);
    if kind < 2 {
        rt::check(r.body == b, "C11 the body is the one sent");
    } else {
        rt::check(r.body == String::from_utf8_lossy(&b).as_bytes(), "C11 the body is the one sent");
    }
    rt::note_bytes(&r.body, "body");
    rt::cover("body");
}
/// bodies of many sizes
#[no_mangle]
pub extern "C" fn c11_sizes(_: u64, _: u64) {
    rt::budget(500_000_000);
    const S: &[usize] = &[0, 1, 9, 10, 99, 100, 999, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 65536, 100000, 1048576, 1048577];
    let n = S[rt::choice(S.len() as u64, "n")];
    let mut b: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
    if n > 0 {
        let at = [0, n / 2, n - 1][rt::choice(3, "at")];
        rt::bytes(&mut b[at..at + 1], "byte");
    }
    let c = b.clone();
    let r = with(move |res| res.send(c.clone()));
    only(&r, &[]);
    rt::check(r.body == b, "C11 the body is the one sent");
}
/// sending twice: the last body counts, with its own length
#[no_mangle]
pub extern "C" fn c11_twice(n: u64, _: u64) {
    let (a, b) = (rt::choice(n + 1, "a"), rt::choice(n + 1, "b"));
    let (x, y) = (rt::vec(a, "first"), rt::vec(b, "second"));
    let z = y.clone();
    let same = rt::choice(2, "same") == 1;
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        res.set("A", "1").send(x.clone());
        if same {
            res.send(y.clone());
        }
    }))
    .unwrap();
    let w = z.clone();
    app.get("/", route_next!(|req, res| res.set("B", "2").send(w.clone()))).unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n"));
    only(&r, &[("A", "1"), ("B", "2")]);
    rt::check(r.body == z, "C11 the body sent last is delivered");
    rt::cover("twice");
}
/// helpers: any two of them, in any order, before or after sending
#[no_mangle]
pub extern "C" fn c11_helpers(n: u64, _: u64) {
    let v = text(n as usize, "text");
    for b in v.bytes() {
        rt::assume(b != b'"' && b != b'\\' && b != b'\'');
    }
    let s: &'static str = leak(v);
    let (a, b) = (rt::range(7, "a"), rt::range(7, "b"));
    let order = rt::choice(3, "order");
    fn apply(k: u64, s: &'static str, res: &mut Response) {
        match k {
            0 => res.with_type(s),
            1 => res.redirect(s),
            2 => res.charset(s),
            3 => res.attachment(),
            4 => res.status(StatusCode::Created),
            5 => res.http_version(HttpVersion::Http10),
            6 => res.set("Content-Type", "a/b"),
            _ => res.set("X", s),
        };
    }
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        if order == 2 {
            res.send("12");
        }
        apply(a, s, res);
        if order == 1 {
            res.send("12");
        }
        apply(b, s, res);
        if order == 0 {
            res.send("12");
        }
    }))
    .unwrap();
    let out = serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n");
    let r = expect_response(&out);
    let mut status = (200, "OK");
    let mut ver = b'1';
    let mut h: Vec<(&str, String)> = Vec::new();
    let mut charset = None;
    let steps = [a, b];
    for (i, k) in steps.iter().enumerate() {
        let sent = order == 2 || (order == 1 && i == 1);
        let mut put = |n: &'static str, v: &str| {
            h.retain(|x| x.0 != n);
            h.push((n, v.to_string()));
        };
        // sending fixes the default type
        if sent && (order == 2) == (i == 0) {
            default(&mut h, &charset);
            let mut put = |n: &'static str, v: &str| {
                h.retain(|x| x.0 != n);
                h.push((n, v.to_string()));
            };
            step(*k, s, &mut put, &mut status, &mut ver, &mut charset);
        } else {
            step(*k, s, &mut put, &mut status, &mut ver, &mut charset);
        }
    }
    if order == 0 {
        default(&mut h, &charset);
    }
    fn default(h: &mut Vec<(&str, String)>, charset: &Option<String>) {
        if !h.iter().any(|x| x.0 == "Content-Type") {
            h.push(("Content-Type", match charset {
                None => "text/html".to_string(),
                Some(c) => ["text/html ;charset=\"", c, "\""].concat(),
            }));
        }
    }
    fn step(k: u64, s: &str, put: &mut dyn FnMut(&'static str, &str), status: &mut (u32, &'static str), ver: &mut u8, charset: &mut Option<String>) {
        match k {
            0 => put("Content-Type", s),
            1 => {
                *status = (302, "FOUND");
                put("Location", s)
            }
            2 => *charset = Some(s.to_string()),
            3 => put("Content-Disposition", "attachment"),
            4 => *status = (201, "CREATED"),
            5 => *ver = b'0',
            6 => put("Content-Type", "a/b"),
            _ => put("X", s),
        }
    }
    let l: Vec<(&str, &str)> = h.iter().map(|(a, b)| (*a, b.as_str())).collect();
    only(&r, &l);
    rt::check((r.status, r.reason.as_str()) == status, "C11 the status is the one set last");
    rt::check(out[7] == ver, "C11 the version is the one set");
    rt::check(r.body == b"12", "C11 the body is the one sent");
    rt::note(r.status as u64, "status");
    rt::cover("helpers");
}
/// many headers
#[no_mangle]
pub extern "C" fn c11_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let n = [1usize, 4, 12, 13, 25, 26, 60, 130, 260, 1100][rt::choice(10, "n")];
    let distinct = [1usize, 5, 10000][rt::choice(3, "distinct")];
    let c = one_of(b"aZ ~", "c");
    let hs: Vec<(String, String)> = (0..n).map(|i| (format!("H-{}", i % distinct), format!("v{}{}", i, c as char))).collect();
    let g = hs.clone();
    let r = with(move |res| {
        for (k, v) in &g {
            res.set(k, v);
        }
        res.send("");
        for (k, _) in &g {
            rt::check(res.headers.get(k).is_some(), "C11 a header that was set can be read back");
        }
    });
    let want: Vec<(&str, &str)> = hs.iter().enumerate().filter(|(i, _)| i + distinct >= n).map(|(_, (k, v))| (k.as_str(), v.as_str())).collect();
    only(&r, &want);
    let _ = standard;
}
/// headers that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c11_fields(_: u64, _: u64) {
    const MORE: &[&str] = &[
        "Server", "ETag", "Last-Modified", "Vary", "Location", "Retry-After", "WWW-Authenticate", "Allow", "Age", "Expires", "Link", "Content-Range", "Content-Disposition", "Content-Language", "Content-Location",
        "Accept-Ranges", "Access-Control-Allow-Origin", "Strict-Transport-Security", "X-Frame-Options", "X-Powered-By", "X-Content-Type-Options", "Content-Security-Policy", "Refresh",
    ];
    let i = rt::choice((FIELDS.len() + MORE.len()) as u64, "field");
    let f = if i < FIELDS.len() { FIELDS[i] } else { MORE[i - FIELDS.len()] };
    let v = VALUES[rt::choice(VALUES.len() as u64, "value")];
    if standard(f) {
        return;
    }
    let k = rt::choice(3, "k");
    let r = with(move |res| {
        match k {
            0 => res.set(f, v).send("ab"),
            1 => {
                res.status(StatusCode::Accepted).send("ab");
                res.set(f, "x").set(f, v);
            }
            _ => {
                res.set(f, v).redirect("/l").send("ab");
                res.set("Y", "z");
            }
        };
    });
    match k {
        0 => only(&r, &[(f, v)]),
        1 => only(&r, &[(f, v)]),
        _ if f == "Location" => (),
        _ => only(&r, &[(f, v), ("Location", "/l"), ("Y", "z")]),
    }
    rt::check(r.body == b"ab" && r.status == [200, 202, 302][k], "C11 a header changes nothing else of a response");
    rt::cover("fields");
}
/// long names, values and texts for the helpers
#[no_mangle]
pub extern "C" fn c11_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let t = leak(long_text());
    let k = rt::choice(6, "k");
    let sent = rt::choice(2, "sent") == 1;
    let r = with(move |res| {
        if sent {
            res.send("ab");
        }
        match k {
            0 => res.set("X-Long", t),
            1 => res.set(t, "v"),
            2 => res.redirect(t),
            3 => res.with_type(t),
            4 => res.set("Content-Type", t).set("Y", t),
            _ => res.set("X-Long", t).set("X-Long", "short"),
        };
        if !sent {
            res.send("ab");
        }
    });
    match k {
        0 => only(&r, &[("X-Long", t)]),
        1 => only(&r, &[(t, "v")]),
        2 => only(&r, &[("Location", t)]),
        3 => only(&r, &[("Content-Type", t)]),
        4 => only(&r, &[("Content-Type", t), ("Y", t)]),
        _ => only(&r, &[("X-Long", "short")]),
    }
    rt::check(r.body == b"ab" && r.status == if k == 2 { 302 } else { 200 }, "C11 the rest of a response with long headers is the one described");
    rt::cover("long");
}
/// any words as the name and the value of a header, or in the place of what a helper is given
#[no_mangle]
pub extern "C" fn c11_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let s = |v: Vec<u8>| -> &'static str { leak(String::from_utf8(v).unwrap()) };
    let (a, b) = (s(a), s(b));
    let how = rt::choice(4, "how");
    // those have a meaning of their own
    for x in ["Date", "Content-Length", "Content-Type", "Set-Cookie"].iter() {
        rt::assume(!a.eq_ignore_ascii_case(x));
    }
    let path = leak(["/", a, "/", b, "?x=y"].concat());
    let kind = leak([a, "/", b].concat());
    let r = with(move |res| {
        match how {
            0 => res.set(a, b),
            1 => res.redirect(path),
            2 => res.with_type(kind),
            _ => res.charset(a),
        };
        res.send(a);
    });
    match how {
        0 => only(&r, &[(a, b)]),
        1 => only(&r, &[("Location", path)]),
        2 => only(&r, &[("Content-Type", kind)]),
        _ => only(&r, &[("Content-Type", &["text/html ;charset=\"", a, "\""].concat())]),
    }
    rt::check(r.status == if how == 1 { 302 } else { 200 }, "C11 the status is the one set last");
    rt::check(r.body == a.as_bytes(), "C11 the body is the one sent");
    rt::cover("words");
}
/// the response does not depend on what else the request says
#[no_mangle]
pub extern "C" fn c11_known(n: u64, _: u64) {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        res.status(StatusCode::Accepted).set("X", "y").set("ETag", "\"tag\"").set("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT").send("some body");
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), &known_request(n as usize)));
    rt::check(r.status == 202, "C11 the status is the one set last");
    rt::check(r.body == b"some body", "C11 the body is the one sent");
    only(&r, &[("X", "y"), ("ETag", "\"tag\""), ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT")]);
    rt::cover("words");
}
/// What handlers did to a response, step by step.
pub struct Model {
    pub status: u32,
    pub version: u8,
    pub headers: Vec<(&'static str, String)>,
    pub cookies: Vec<String>,
    pub body: Option<Vec<u8>>,
    charset: Option<&'static str>,
}
impl Model {
    fn put(&mut self, n: &'static str, v: &str) {
        self.headers.retain(|h| h.0 != n);
        self.headers.push((n, v.to_string()));
    }
    fn defaults(&mut self) {
        if !self.headers.iter().any(|h| h.0 == "Content-Type") {
            let t = match self.charset {
                None => "text/html".to_string(),
                Some(c) => ["text/html ;charset=\"", c, "\""].concat(),
            };
            self.put("Content-Type", &t);
        }
    }
    fn send(&mut self, b: &[u8]) {
        self.body = Some(b.to_vec());
        self.defaults();
    }
}
const OPS: usize = 20;
fn act(k: usize, v: &'static [u8], res: &mut Response, m: &mut Model) {
    use octane::cookie::Cookie;
    let s = std::str::from_utf8(v).unwrap();
    match k {
        0 => {
            res.send(v);
            m.send(v)
        }
        1 => {
            res.send("another body");
            m.send(b"another body")
        }
        2 => {
            res.send("");
            m.send(b"")
        }
        3 => {
            res.cookie(Cookie::new("a", s));
            m.cookies.push(["a=", s].concat())
        }
        4 => {
            res.cookie(Cookie::from(Cookie::build("b", "1").secure(true).finish()));
            m.cookies.push("b=1; Secure".to_string())
        }
        5 => {
            res.redirect("/x");
            m.status = 302;
            m.put("Location", "/x")
        }
        6 => {
            res.status(StatusCode::Created);
            m.status = 201
        }
        7 => {
            res.status(StatusCode::NotFound);
            m.status = 404
        }
        8 => {
            res.status_code = StatusCode::Ok;
            m.status = 200
        }
        9 => {
            res.with_type("t/u");
            m.put("Content-Type", "t/u")
        }
        10 => {
            res.charset("utf-8");
            m.charset = Some("utf-8")
        }
        11 => {
            res.attachment();
            m.put("Content-Disposition", "attachment")
        }
        12 => {
            res.attachment_with_filename("f.png");
            m.put("Content-Disposition", "attachment; filename = \"f.png\"");
            m.put("Content-Type", "image/png")
        }
        13 => {
            res.http_version(HttpVersion::Http10);
            m.version = b'0'
        }
        14 => {
            res.set("A", s);
            m.put("A", s)
        }
        15 => {
            res.set("A", "2").set("B", "");
            m.put("A", "2");
            m.put("B", "")
        }
        16 => {
            res.headers.remove("A");
            m.headers.retain(|h| h.0 != "A")
        }
        17 => {
            res.default_headers();
            m.defaults()
        }
        18 => {
            rt::check(res.send_file("/octane-file/missing").is_err(), "C11 a file that is not there is not sent");
        }
        _ => {
            let got = res.get("A").cloned();
            rt::check(got.as_deref() == m.headers.iter().find(|h| h.0 == "A").map(|h| h.1.as_str()), "C11 a header that was set can be read back");
        }
    }
}
static PROGRAM: Global<Vec<usize>> = Global::new(Vec::new());
static MODEL: Global<Option<Model>> = Global::new(None);
static VALUE: Global<&'static [u8]> = Global::new(b"");
/// k steps of handlers, in one handler or spread over two
pub fn program(k: u64) -> (Vec<u8>, &'static Model) {
    let p: Vec<usize> = (0..k).map(|_| rt::choice(OPS as u64, "step")).collect();
    let two = rt::choice(2, "two") == 1;
    *PROGRAM.get() = p;
    *MODEL.get() = Some(Model { status: 200, version: b'1', headers: Vec::new(), cookies: Vec::new(), body: None, charset: None });
    let c = rt::vec(1, "value");
    rt::assume(c[0] > 0x20 && c[0] < 0x7f && c[0] != b'=' && c[0] != b';' && c[0] != b',' && c[0] != b'"' && c[0] != b'\\');
    *VALUE.get() = c.leak();
    let half = if two { (k as usize + 1) / 2 } else { k as usize };
    let mut app = Octane::new();
    app.get("/", route_next!(|req, res| {
        for k in &PROGRAM.get()[..half] {
            act(*k, *VALUE.get(), res, MODEL.get().as_mut().unwrap());
        }
    }))
    .unwrap();
    app.add(route_next!(|req, res| {
        for k in &PROGRAM.get()[half..] {
            act(*k, *VALUE.get(), res, MODEL.get().as_mut().unwrap());
        }
    }))
    .unwrap();
    let out = serve_bytes(&Arc::new(app), b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    (out, MODEL.get().as_ref().unwrap())
}
/// any program of k steps
#[no_mangle]
pub extern "C" fn c11_program(k: u64, _: u64) {
    let (out, m) = program(k);
    let mut r = expect_response(&out);
    rt::note(r.status as u64, "status");
    rt::note_bytes(&r.body, "body");
    match &m.body {
        None => rt::check(is_error_page(&r, 404), "C11 a response without a body is the standard error page"),
        Some(b) => {
            r.headers.retain(|h| h.0 != "Set-Cookie");
            let l: Vec<(&str, &str)> = m.headers.iter().map(|(a, b)| (*a, b.as_str())).collect();
            only(&r, &l);
            rt::check(r.status == m.status, "C11 the status is the one set last");
            rt::check(out[7] == m.version, "C11 the version is the one set");
            rt::check(r.body == *b, "C11 the body sent last is delivered");
        }
    }
    rt::cover("program");
}
