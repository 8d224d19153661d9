//! C10: a request nobody answers gets the standard error page, and nothing of
//! what handlers prepared leaks into it.
use crate::common::*;
use crate::rt;
use octane::cookie::Cookie;
use octane::prelude::*;
use octane::StatusCode;
use std::sync::Arc;

const STATUSES: &[StatusCode] = &[
    StatusCode::Created,
    StatusCode::Ok,
    StatusCode::Continue,
    StatusCode::SwitchingProtocol,
    StatusCode::NoContent,
    StatusCode::ResetContent,
    StatusCode::PartialContent,
    StatusCode::Found,
    StatusCode::NotModified,
    StatusCode::BadRequest,
    StatusCode::NotFound,
    StatusCode::InternalServerError,
    StatusCode::Other(204, "x"),
    StatusCode::Other(700, "x"),
];
static STATUS: Global<usize> = Global::new(0);
static TEXT: Global<(String, String)> = Global::new((String::new(), String::new()));

fn plain(inp: &[u8]) -> Resp {
    expect_response(&serve_bytes(&Arc::new(Octane::new()), inp))
}
fn page(r: &Resp, code: u32) {
    rt::check(is_error_page(r, code), "C10 an error page has its status, a body and only the three standard headers");
    let reference = plain(b"GET / HTTP/1.0\r\n\r\n");
    rt::check(reference.status == 404 && reference.body == r.body, "C10 every error page has the same body");
    rt::check(r.body.starts_with(b"<!DOCTYPE html>"), "C10 an error page is an HTML page");
    let reason: &str = match code {
        400 => "BAD REQUEST",
        404 => "NOT FOUND",
        _ => "NOT IMPLEMENTED",
    };
    rt::check(r.reason == reason, "C10 an error page has the reason phrase of its status");
    rt::note(r.status as u64, "status");
}
/// handlers that prepare a response and do not send it
fn prepare(kind: usize, res: &mut octane::responder::Response) {
    let t = TEXT.get();
    match kind {
        0 => {
            res.set(&t.0, &t.1);
        }
        1 => {
            res.status(STATUSES[*STATUS.get()]);
        }
        2 => {
            res.cookie(Cookie::new("secret", "1"));
        }
        3 => {
            res.redirect(&t.1);
        }
        4 => {
            res.attachment().with_type("text/css").charset("x");
        }
        5 => {
            res.http_version(octane_http::HttpVersion::Http10).default_headers();
        }
        6 => {
            res.content_len = Some(3);
        }
        _ => (),
    }
}
/// any two preparations, header text arbitrary
#[no_mangle]
pub extern "C" fn c10_unsent(n: u64, _: u64) {
    let (a, b) = (rt::choice(8, "a"), rt::choice(8, "b"));
    *STATUS.get() = if a == 1 || b == 1 { rt::choice(STATUSES.len() as u64, "status") } else { 0 };
    *TEXT.get() = (String::from("Location"), text(n as usize, "value"));
    let mut app = Octane::new();
    app.add(route_next!(|req, res| prepare(a, res))).unwrap();
    app.get("/:x", route!(|req, res| {
        prepare(b, res);
        if b % 2 == 0 { Flow::Stop } else { Flow::Next }
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET /x HTTP/1.0\r\n\r\n"));
    page(&r, 404);
    rt::cover("unsent");
}
/// a sent empty body is a response, not an error
#[no_mangle]
pub extern "C" fn c10_empty(_: u64, _: u64) {
    let n = rt::choice(3, "n");
    let a = rt::choice(8, "a");
    let order = rt::choice(2, "order");
    *TEXT.get() = ("X".into(), "y".into());
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        if order == 0 && a != 6 {
            prepare(a, res);
        }
        res.send(&b"ab"[..n]);
        if order == 1 && a != 6 {
            prepare(a, res);
        }
    }))
    .unwrap();
    let r = expect_response(&serve_bytes(&Arc::new(app), b"GET /x HTTP/1.0\r\n\r\n"));
    let code = match a {
        1 => 201,
        3 => 302,
        _ => 200,
    };
    rt::check(r.status == code && r.body == &b"ab"[..n], "C10 a response that was sent is delivered even if its body is empty");
    rt::note(r.status as u64, "status");
    rt::cover("empty");
}
/// every method, for a path nobody handles or whose handler sends nothing
#[no_mangle]
pub extern "C" fn c10_methods(_: u64, _: u64) {
    let m = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "CONNECT", "TRACE"][rt::choice(9, "method")];
    let v = ["1.0", "1.1", "2.0"][rt::choice(3, "version")];
    let p = ["/", "/a", "/a/b", "/*", "/favicon.ico", "/robots.txt", "/index.html"][rt::choice(7, "path")];
    let (silent, body) = (rt::choice(2, "silent") == 1, rt::choice(2, "body") == 1);
    let mut app = Octane::new();
    app.get("/other", route_next!(|req, res| res.send("found"))).unwrap();
    app.post("/other", route_next!(|req, res| res.send("found"))).unwrap();
    if silent {
        app.add_route("/:x", route_next!(|req, res| {})).unwrap();
        app.add(route_next!(|req, res| {})).unwrap();
    }
    let mut inp = format!("{} {} HTTP/{}\r\nHost: a\r\n", m, p, v);
    inp.push_str(if body { "Content-Length: 3\r\n\r\nabc" } else { "\r\n" });
    let r = expect_response(&serve_bytes(&Arc::new(app), inp.as_bytes()));
    page(&r, 404);
    rt::cover("methods");
}
/// paths nobody handles: any path of n bytes
#[no_mangle]
pub extern "C" fn c10_unknown(n: u64, _: u64) {
    let mut app = Octane::new();
    app.get("/a", route_next!(|req, res| res.send("found"))).unwrap();
    app.post("/b/:c", route_next!(|req, res| res.send("found"))).unwrap();
    let mut inp = b"GET /".to_vec();
    inp.extend_from_slice(&rt::vec(n as usize, "path"));
    inp.extend_from_slice(b" HTTP/1.0\r\n\r\n");
    let r = expect_response(&serve_bytes(&Arc::new(app), &inp));
    match want(&inp) {
        None => page(&r, 400),
        Some(w) if w.segs == ["a"] => {
            rt::check(r.status == 200 && r.body == b"found", "C10 a handled path is answered by its handler");
        }
        Some(_) => {
            page(&r, 404);
            rt::cover("unknown path");
        }
    }
}
/// rejected requests: malformed, or an unknown method, whatever handlers would do
#[no_mangle]
pub extern "C" fn c10_rejected(_: u64, _: u64) {
    const R: &[(&str, u32)] = &[
        ("GET / HTTP/1.1\r\n\r\n", 400),
        ("GET /../.. HTTP/1.0\r\n\r\n", 400),
        ("GET /", 400),
        ("", 400),
        ("GET / HTTP/1.0\r\nX\r\n\r\n", 400),
        ("POST / HTTP/1.0\r\nContent-Length: 9\r\n\r\nab", 400),
        ("BREW / HTTP/1.0\r\n\r\n", 501),
        ("BREW /x HTTP/1.1\r\nHost: a\r\n\r\n", 501),
        ("get / HTTP/1.1\r\nHost: a\r\n\r\n", 501),
    ];
    let (inp, code) = R[rt::choice(R.len() as u64, "r")];
    let a = rt::choice(8, "a");
    *TEXT.get() = ("X".into(), "y".into());
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        RAN.get().push(1);
        prepare(a, res);
        res.send("answered");
    }))
    .unwrap();
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), inp.as_bytes()));
    page(&r, code);
    rt::check(RAN.get().is_empty(), "C10 a rejected request reaches no handler");
    rt::cover("rejected");
}
/// any word as a path nobody handles, and as a method nobody knows
#[no_mangle]
pub extern "C" fn c10_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let mut app = Octane::new();
    app.get("/:x/:y/:z", route_next!(|req, res| res.send("found"))).unwrap();
    if rt::choice(2, "method") == 0 {
        let inp = [b"GET /", &a[..], b"/", &b, b" HTTP/1.0\r\n\r\n"].concat();
        page(&expect_response(&serve_bytes(&Arc::new(app), &inp)), 404);
    } else {
        let inp = [&a[..], b"- /", &b, b" HTTP/1.0\r\n\r\n"].concat();
        page(&expect_response(&serve_bytes(&Arc::new(app), &inp)), 501);
    }
    rt::cover("unknown path");
}
/// paths that have a meaning somewhere, and fields that have
#[no_mangle]
pub extern "C" fn c10_known(n: u64, _: u64) {
    let inp = if rt::choice(2, "what") == 0 { known_request(n as usize) } else { ["GET ", known_path(), " HTTP/1.0\r\n\r\n"].concat().into_bytes() };
    let mut app = Octane::new();
    app.get("/x/y/z/:w/x/y/z/:a/b/c", route_next!(|req, res| res.send("found"))).unwrap();
    page(&expect_response(&serve_bytes(&Arc::new(app), &inp)), 404);
    rt::cover("unknown path");
}
