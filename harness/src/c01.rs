//! C01: every connection is answered with exactly one complete response.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

/// handlers that use everything a request offers
pub fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add_route(
        "/u/:v",
        route_next!(|req, res| {
            res.set("X-Var", if req.vars.get("v").is_some() { "yes" } else { "no" });
        }),
    )
    .unwrap();
    app.add(route_next!(|req, res| {
        let mut s = observe(0, req);
        s.query = Some(req.get_query());
        s.ext = Some(req.get_extended_query());
        SEEN.get().push(s);
        let _ = req.request_line.path.to_string();
        let _ = req.request_line.path.to_std_pathbuf();
        res.send("served");
    }))
    .unwrap();
    app.get("/none", route_stop!(|req, res| {})).unwrap();
    Arc::new(app)
}

pub fn answered(inp: &[u8]) {
    reset();
    let mut c = Conn::new(inp.to_vec());
    let ok = serve(&app(), &mut c);
    rt::check(ok, "C01 serving ends without an error");
    let r = expect_response(&c.out);
    rt::check(matches!(r.status, 200 | 400 | 404 | 501), "C01 the status is one the server gives");
    rt::check(SEEN.get().len() == (r.status == 200) as usize, "C01 the handler ran exactly when its response was sent");
    rt::note(r.status as u64, "status");
    rt::note_bytes(&r.body, "body");
    match r.status {
        200 => rt::cover("served"),
        400 => rt::cover("rejected"),
        _ => (),
    }
}

pub const REQS: &[&str] = &[
    "GET /a/b?x=%41&y[]=1 HTTP/1.1\r\nHost: h\r\nCookie: a=b; c\r\n\r\n",
    "POST /u/z HTTP/1.0\r\nContent-Length: 4\r\nConnection: keep-alive\r\nKeep-Alive: timeout=3\r\n\r\nbody",
    "HEAD /../x HTTP/1.1\r\nHost: a\r\nhost: b\r\n\r\n",
    "\u{e9} /\u{20ac}/..?%e9=% HTTP/1.1\r\nHost:\t \u{fc}\r\n\r\n",
];

/// n arbitrary bytes, then the end of the stream
#[no_mangle]
pub extern "C" fn c01_bytes(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    answered(&rt::vec(n, "b"));
}
/// n arbitrary bytes, followed by the end of a head
#[no_mangle]
pub extern "C" fn c01_head(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut v = rt::vec(n, "b");
    v.extend_from_slice(b"\r\n\r\n");
    answered(&v);
}
/// n consecutive bytes of a request replaced
#[no_mangle]
pub extern "C" fn c01_window(n: u64, k: u64) {
    let mut t = REQS[k as usize].as_bytes().to_vec();
    window(&mut t, n as usize);
    answered(&t);
}
/// n arbitrary bytes inserted anywhere
#[no_mangle]
pub extern "C" fn c01_insert(n: u64, k: u64) {
    let t = REQS[k as usize].as_bytes();
    answered(&insertion(t, 0, t.len(), n as usize));
}
/// one byte replaced at each of two places
#[no_mangle]
pub extern "C" fn c01_two(k: u64, _: u64) {
    let mut t = REQS[k as usize].as_bytes().to_vec();
    let i = rt::choice(t.len() as u64, "i");
    let j = rt::choice(t.len() as u64, "j");
    rt::assume(i < j);
    rt::bytes(&mut t[i..i + 1], "a");
    rt::bytes(&mut t[j..j + 1], "b");
    answered(&t);
}
/// a request cut off anywhere, the last byte arbitrary
#[no_mangle]
pub extern "C" fn c01_cut(k: u64, _: u64) {
    let t = REQS[k as usize].as_bytes();
    let n = rt::choice(t.len() as u64, "n");
    let mut t = t[..n + 1].to_vec();
    rt::bytes(&mut t[n..], "w");
    answered(&t);
}
/// a length the client announces
#[no_mangle]
pub extern "C" fn c01_length(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut v = b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: ".to_vec();
    let at = v.len();
    v.extend_from_slice(&b"1844674407370955161599999"[..n]);
    let w = n.min(3);
    rt::bytes(&mut v[at + n - w..], "w");
    v.extend_from_slice(b"\r\n\r\nabc");
    answered(&v);
}
/// other numbers a client announces: n digits, for each of the headers that carry one
#[no_mangle]
pub extern "C" fn c01_numbers(n: u64, w: u64) {
    let n = rt::choice(n, "n") + 1;
    let mut v: Vec<u8> = [
        b"GET / HTTP/1.0\r\nConnection: keep-alive\r\nKeep-Alive: timeout=" as &[u8],
        b"GET / HTTP/1.0\r\nConnection: keep-alive\r\nKeep-Alive: timeout=5, max=",
        b"GET / HTTP/1.1\r\nHost: a\r\nConnection: keep-alive\r\nKeep-Alive: timeout=",
        b"GET / HTTP/1.1\r\nHost: a:",
        b"GET / HTTP/1.1\r\nHost: a\r\nMax-Forwards: ",
        b"GET / HTTP/1.1\r\nHost: a\r\nRange: bytes=",
        b"GET / HTTP/1.0\r\nContent-Length: ",
    ][rt::choice(7, "header")]
    .to_vec();
    let at = v.len();
    v.extend_from_slice(&b"1844674407370955161599999"[..n]);
    // the digits where u64 and its parts end, and any digits elsewhere
    let w = n.min(w as usize);
    let from = if w == 1 { [0, n - 1][rt::choice(2, "end")] } else { rt::choice((n - w + 1) as u64, "from") };
    let d = rt::vec(w, "d");
    for (i, b) in d.iter().enumerate() {
        rt::assume(*b >= b'0' && *b <= b'9');
        v[at + from + i] = *b;
    }
    v.extend_from_slice(b"\r\n\r\n");
    answered(&v);
}
/// inputs of every size around the read buffer: without an end, or with a long
/// header, a long body, many headers
#[no_mangle]
pub extern "C" fn c01_size(_: u64, _: u64) {
    rt::budget(500_000_000);
    let n = [1, 255, 256, 500, 508, 509, 510, 511, 512, 513, 516, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 4096, 5000, 8192, 16384, 65536, 70000][rt::choice(24, "n")];
    let mut v = Vec::new();
    match rt::choice(6, "shape") {
        0 => v.resize(n, b'a'),
        1 => {
            v.extend_from_slice(b"GET /x HTTP/1.1\r\nHost: a\r\nX: ");
            v.resize(v.len() + n, b'v');
            v.extend_from_slice(b"\r\n\r\n");
        }
        2 => {
            v.extend_from_slice(format!("POST /x HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\n\r\n", n).as_bytes());
            v.resize(v.len() + n, b'b');
        }
        3 => {
            v.extend_from_slice(b"GET /x HTTP/1.1\r\nHost: a\r\n");
            while v.len() < n {
                v.extend_from_slice(b"A: b\r\n");
            }
            v.extend_from_slice(b"\r\n");
        }
        4 => {
            v.extend_from_slice(b"GET /x HTTP/1.1\r\nHost: a\r\nCookie: ");
            while v.len() < n {
                v.extend_from_slice(b"n=v; ");
            }
            v.extend_from_slice(b"\r\n\r\n");
        }
        _ => {
            v.extend_from_slice(b"GET /x?");
            while v.len() < n {
                v.extend_from_slice(b"n=%41&");
            }
            v.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
        }
    }
    let l = v.len();
    rt::bytes(&mut v[l - 1..], "w");
    answered(&v);
}
/// fields and paths that have a meaning somewhere, with numbers of up to n digits
#[no_mangle]
pub extern "C" fn c01_known(n: u64, _: u64) {
    if rt::choice(2, "what") == 0 {
        answered(&known_request(n as usize));
    } else {
        answered(["GET ", known_path(), " HTTP/1.0\r\n\r\n"].concat().as_bytes());
    }
}
