//! C26: built without optional features, the server serves the same requests.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::request::RequestMethod;
use octane::StatusCode;
use std::sync::Arc;

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let mut s = observe(0, req);
        s.query = Some(req.get_query());
        SEEN.get().push(s);
        let _ = (req.request_line.path.to_string(), req.request_line.path.to_std_pathbuf());
        res.send("served");
    }))
    .unwrap();
    Arc::new(app)
}
/// the handler was shown the request that was sent
fn shown(w: &Want) -> bool {
    let s = &SEEN.get()[0];
    let body = match w.header("content-length").and_then(|l| l.parse::<usize>().ok()) {
        Some(n) if n <= w.rest.len() => &w.rest[..n],
        _ => &[],
    };
    s.method == method_of(w.method)
        && s.chunks.len() == w.segs.len()
        && s.chunks.iter().zip(&w.segs).all(|(a, b)| a == b)
        && w.headers.iter().all(|(n, _)| s.headers.get(&n.to_ascii_lowercase()) == w.header(&n.to_ascii_lowercase()).as_ref())
        && s.headers.iter().all(|(n, _)| w.header(n).is_some())
        && s.body == body
}
fn judge(inp: &[u8], out: &[u8]) {
    let r = expect_response(out);
    rt::check(matches!(r.status, 200 | 400 | 501), "C26 the status is one the server gives");
    rt::check(SEEN.get().len() == (r.status == 200) as usize, "C26 the handler ran exactly when its response was sent");
    rt::note(r.status as u64, "status");
    let w = match want(inp) {
        Some(w) => w,
        None => {
            // what the strict checks refuse may be served, or not
            if r.status == 400 {
                rt::check(is_error_page(&r, 400), "C26 a malformed request gets the standard page");
                rt::cover("rejected");
            }
            return;
        }
    };
    if w.version == "1.1" && w.header("host").is_none() {
        rt::check(r.status == 400 && is_error_page(&r, 400), "C26 HTTP/1.1 without Host is answered with 400");
        return;
    }
    if let Some(n) = w.header("content-length").and_then(|l| l.parse::<usize>().ok()) {
        if n > w.rest.len() {
            rt::check(r.status == 400, "C26 a body shorter than announced is answered with 400");
            return;
        }
    }
    if method_of(w.method) == RequestMethod::None {
        rt::check(r.status == 501 && is_error_page(&r, 501), "C26 an unknown method is answered with 501");
        return;
    }
    rt::check(r.status == 200 && r.body == b"served", "C26 a request the full server accepts is served");
    rt::check(shown(&w), "C26 the handler is shown the request that was sent");
    rt::cover("served");
}
fn go(inp: &[u8]) {
    reset();
    let mut c = Conn::new(inp.to_vec());
    rt::check(serve(&app(), &mut c), "C26 serving ends without an error");
    judge(inp, &c.out);
}
const REQS: &[&str] = &[
    "GET /a/b?x=%41&y HTTP/1.1\r\nHost: h\r\nCookie: a=b; c\r\n\r\n",
    "POST /u/:z HTTP/1.0\r\nContent-Length: 4\r\nConnection: keep-alive\r\nKeep-Alive: timeout=3\r\n\r\nbody",
    "PUT /x/../y HTTP/1.1\r\nHost: a\r\nx-A: b\r\nX-a:\tc \r\n\r\n",
];
/// n arbitrary bytes, then the end of the stream, or the end of a head
#[no_mangle]
pub extern "C" fn c26_bytes(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut v = rt::vec(n, "b");
    if rt::choice(2, "end") == 1 {
        v.extend_from_slice(b"\r\n\r\n");
    }
    go(&v);
}
/// n consecutive bytes of a request replaced
#[no_mangle]
pub extern "C" fn c26_window(n: u64, k: u64) {
    let mut t = REQS[k as usize].as_bytes().to_vec();
    window(&mut t, n as usize);
    go(&t);
}
/// n bytes inserted in a request
#[no_mangle]
pub extern "C" fn c26_insert(n: u64, k: u64) {
    let t = REQS[k as usize].as_bytes();
    go(&insertion(t, 0, t.len(), n as usize));
}
/// a request split at any two places
#[no_mangle]
pub extern "C" fn c26_split(k: u64, _: u64) {
    let t = REQS[k as usize].as_bytes();
    let i = rt::choice(t.len() as u64 - 1, "i") + 1;
    let j = rt::choice(t.len() as u64 - 1, "j") + 1;
    rt::assume(i < j);
    reset();
    let mut c = Conn::new(t.to_vec());
    c.reads = vec![Step::Upto(i), Step::Pending, Step::Upto(j - i), Step::Pending];
    rt::check(serve(&app(), &mut c), "C26 serving ends without an error");
    judge(t, &c.out);
}
/// any Content-Length of up to n bytes
#[no_mangle]
pub extern "C" fn c26_length(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut t = b"POST /p HTTP/1.0\r\nContent-Length: ".to_vec();
    let v = rt::vec(n, "v");
    for b in &v {
        rt::assume(*b >= 0x20 && *b < 0x7f);
    }
    t.extend_from_slice(&v);
    t.extend_from_slice(b"\r\n\r\nsome bytes");
    go(&t);
}
/// any pattern and path of n and m characters, for every way to register
#[no_mangle]
pub extern "C" fn c26_routes(n: u64, m: u64) {
    let mut t = [String::new(), String::new()];
    for (i, l) in [n, m].iter().enumerate() {
        let l = rt::choice(*l + 1, "n");
        for b in rt::vec(l, "p") {
            rt::assume(b == b'/' || b == b'.' || b == b'a' || b == b'b');
            t[i].push(b as char);
        }
    }
    let how = rt::choice(3, "how");
    let mut app = Octane::new();
    let ok = match how {
        0 => app.get(&t[0], route_next!(|req, res| res.send("found"))),
        1 => app.add_route(&t[0], route_next!(|req, res| res.send("found"))),
        _ => app.post(&t[0], route_next!(|req, res| res.send("found"))),
    }
    .is_ok();
    rt::check(ok == segments(&t[0]).is_some(), "C26 a pattern is accepted unless it climbs above the root");
    let inp = ["GET /", &t[1], " HTTP/1.0\r\n\r\n"].concat();
    let r = expect_response(&serve_bytes(&Arc::new(app), inp.as_bytes()));
    rt::note(r.status as u64, "status");
    let path = ["/", &t[1]].concat();
    match (segments(&t[0]), segments(&path)) {
        (_, None) => rt::check(is_error_page(&r, 400), "C26 a path above the root is answered with 400"),
        (Some(a), Some(b)) if a == b && how != 2 => {
            rt::check(r.status == 200 && r.body == b"found", "C26 a handler runs for the path of its route");
            rt::cover("match");
        }
        _ => {
            rt::check(is_error_page(&r, 404), "C26 a handler runs for no other path or method");
            rt::cover("no match");
        }
    }
}
/// n handlers of any kind, registered on the server or on a router, any of them stopping
#[no_mangle]
pub extern "C" fn c26_order(n: u64, _: u64) {
    fn put<R: Route>(r: &mut R, kind: usize, id: u32, stop: bool) {
        let c: octane::router::Closure = route!(|req, res| {
            RAN.get().push(id);
            res.send("x");
            if stop { Flow::Stop } else { Flow::Next }
        });
        match kind {
            0 => r.get("/a/b", c),
            1 => r.add_route("/a/b", c),
            2 => r.add(c),
            3 => r.get("/a", c),
            _ => r.put("/a/b", c),
        }
        .unwrap();
    }
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let mut app = Octane::new();
    let mut router = Router::new();
    let cut = rt::choice(n + 1, "cut");
    let mut want = vec![];
    let mut stopped = false;
    for i in 0..n as usize {
        let (kind, stop) = (rt::choice(5, "kind"), rt::choice(2, "stop") == 1);
        if i < cut {
            put(&mut app, kind, i as u32, stop);
        } else {
            put(&mut router, kind, i as u32, stop);
        }
        if kind < 3 && !stopped {
            want.push(i as u32);
            stopped = stop;
        }
    }
    app.with_router(router);
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET /a/b HTTP/1.0\r\n\r\n"));
    rt::check(*RAN.get() == want, "C26 matching handlers run in order of registration until one stops");
    rt::check(r.status == if want.is_empty() { 404 } else { 200 }, "C26 a request no handler answers gets 404");
    rt::note(want.len() as u64, "ran");
    rt::cover("order");
}
/// what handlers describe is what is sent
#[no_mangle]
pub extern "C" fn c26_answer(n: u64, _: u64) {
    let k = rt::choice(n + 1, "n");
    let b = rt::vec(k, "body");
    let v = text(n as usize, "value");
    let how = rt::choice(4, "how");
    let (c, u) = (b.clone(), v.clone());
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        if how == 1 {
            res.status(StatusCode::Created);
        }
        if how == 2 {
            res.redirect("/else");
        }
        res.set("X", &u).send(&c[..]);
        if how == 3 {
            res.with_type("a/b");
        }
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n"));
    let status = [200, 201, 302, 200][how];
    rt::check(r.status == status && r.body == b && r.one("X") == Some(&v) && r.one("Date").is_some(), "C26 the response is the one the handler described");
    rt::check(r.one("Content-Type").map_or(false, |t| if how == 3 { t == "a/b" } else { t.starts_with("text/html") }), "C26 the response has its type");
    rt::check(r.headers.len() == 4 + (how == 2) as usize, "C26 no other header is sent");
    rt::note_bytes(&r.body, "body");
    rt::cover("answer");
}
/// requests and bodies around the buffer sizes
#[no_mangle]
pub extern "C" fn c26_size(_: u64, _: u64) {
    rt::budget(200_000_000);
    let n = [1usize, 400, 511, 512, 513, 1024, 2047, 2048, 2049, 4096, 8192, 20000][rt::choice(12, "n")];
    let mut v = Vec::new();
    match rt::choice(3, "shape") {
        0 => {
            v.extend_from_slice(b"GET /x HTTP/1.1\r\nHost: a\r\nX: ");
            v.resize(v.len() + n, b'v');
            v.extend_from_slice(b"\r\n\r\n");
        }
        1 => {
            v.extend_from_slice(format!("POST /x HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\n\r\n", n).as_bytes());
            v.resize(v.len() + n, b'b');
        }
        _ => {
            v.extend_from_slice(b"GET /");
            v.resize(v.len() + n, b'p');
            v.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
        }
    }
    let l = v.len();
    rt::bytes(&mut v[l - 1..], "w");
    go(&v);
}
/// any words in the path, or as the name and value of a header
#[no_mangle]
pub extern "C" fn c26_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
    if rt::choice(2, "where") == 0 {
        go(["GET /", &a, "/", &b, " HTTP/1.1\r\nHost: h\r\n\r\n"].concat().as_bytes());
    } else {
        go(["GET / HTTP/1.1\r\nHost: h\r\n", &a, ": ", &b, "\r\nX: y\r\n\r\n"].concat().as_bytes());
    }
}
/// the operations on paths: p and q any paths of n and m characters
#[no_mangle]
pub extern "C" fn c26_algebra(n: u64, m: u64) {
    let mut t = [String::new(), String::new()];
    for (i, l) in [n, m].iter().enumerate() {
        for b in rt::vec(*l as usize, "p") {
            rt::assume(b == b'/' || b == b'.' || b == b'a' || b == b'b');
            t[i].push(b as char);
        }
    }
    static P: Global<[String; 2]> = Global::new([String::new(), String::new()]);
    let (a, b) = match (segments(&t[0]), segments(&t[1])) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    *P.get() = t.clone();
    static S: Global<(Vec<String>, bool, Option<Vec<String>>, bool)> = Global::new((Vec::new(), false, None, false));
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let s = S.get();
        let mut p = req.request_line.path.clone();
        let mut q = p.clone();
        p.clone_from(&P.get()[0].parse().unwrap());
        q.clone_from(&P.get()[1].parse().unwrap());
        s.0 = p.concat(&q).chunks().clone();
        s.1 = p.check_starts_with(&q);
        s.2 = p.subtract(&q).map(|x| x.chunks().clone());
        s.3 = p.check_matches(&q).is_some();
        res.send("x");
    }))
    .unwrap();
    serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n");
    let s = S.get();
    let cat: Vec<&str> = a.iter().chain(b.iter()).cloned().collect();
    rt::check(s.0 == cat, "C26 concatenation appends the segments");
    let prefix = a.len() >= b.len() && a[..b.len()] == b[..];
    rt::check(s.1 == prefix, "C26 a path starts with its prefixes and nothing else");
    rt::check(s.2.as_ref().map_or(!prefix, |x| prefix && *x == a[b.len()..]), "C26 subtracting a prefix leaves the rest");
    rt::check(s.3 == (a == b), "C26 a path matches itself and nothing else");
    rt::cover("paths");
}
/// many handlers, headers or segments
#[no_mangle]
pub extern "C" fn c26_many(_: u64, _: u64) {
    rt::budget(2_000_000_000);
    let n = [2usize, 17, 33, 65, 129, 257, 300, 600][rt::choice(8, "n")];
    match rt::choice(3, "what") {
        0 => {
            let mut app = Octane::new();
            let mut router = Router::new();
            let step = rt::choice(3, "step") + 1;
            fn put<R: Route>(r: &mut R, i: usize) {
                let c: octane::router::Closure = route_next!(|req, res| {
                    RAN.get().push(i as u32);
                    res.send("x");
                });
                match i % 3 {
                    0 => r.get("/a/b", c),
                    1 => r.add_route("/a/b", c),
                    _ => r.add(c),
                }
                .unwrap();
            }
            for i in 0..n {
                if i * step < n {
                    put(&mut app, i)
                } else {
                    put(&mut router, i)
                }
            }
            app.with_router(router);
            reset();
            serve_bytes(&Arc::new(app), b"GET /a/b HTTP/1.0\r\n\r\n");
            rt::check(RAN.get().len() == n && RAN.get().iter().enumerate().all(|(i, r)| *r == i as u32), "C26 many handlers run in order of registration");
        }
        1 => {
            let mut t = String::from("GET / HTTP/1.1\r\nHost: h\r\n");
            for i in 0..n {
                t += &format!("X{}: {}\r\n", i, i);
            }
            go((t + "\r\n").as_bytes());
        }
        _ => {
            let mut t = String::from("GET ");
            for i in 0..n {
                t += &format!("/{}", i);
            }
            go((t + " HTTP/1.0\r\n\r\n").as_bytes());
        }
    }
    rt::cover("many");
}
/// fields and paths that have a meaning somewhere, with numbers of n digits
#[no_mangle]
pub extern "C" fn c26_known(n: u64, _: u64) {
    match rt::choice(2, "what") {
        0 => go(&known_request(n as usize)),
        _ => {
            let (a, b) = (known_path(), known_path());
            if a.contains("/:") {
                return;
            }
            let mut app = Octane::new();
            app.get(a, route_next!(|req, res| res.send("found"))).unwrap();
            let r = expect_response(&serve_bytes(&Arc::new(app), ["GET ", b, " HTTP/1.0\r\n\r\n"].concat().as_bytes()));
            if segments(a) == segments(b) {
                rt::check(r.status == 200 && r.body == b"found", "C26 a handler runs for the path of its route");
            } else {
                rt::check(is_error_page(&r, 404), "C26 a handler runs for no other path or method");
            }
        }
    }
    rt::cover("known");
}
