//! C04: what a request line means.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::request::RequestMethod as M;
use std::sync::Arc;

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        res.send("served");
    }))
    .unwrap();
    Arc::new(app)
}

fn go(inp: &[u8]) {
    reset();
    let out = serve_bytes(&app(), inp);
    let r = expect_response(&out);
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    let ran = !seen.is_empty();
    let w = want(inp);
    let w = match w {
        None => {
            rt::check(r.status == 400 && !ran, "C04 a malformed request line is answered with 400 and reaches no handler");
            rt::cover("malformed");
            return;
        }
        Some(w) => w,
    };
    let m = method_of(w.method);
    if w.known_version() {
        if w.version == "1.1" && w.header("host").is_none() {
            rt::check(r.status == 400 && !ran, "C04 HTTP/1.1 without Host is answered with 400");
            rt::cover("no host");
        } else if m == M::None {
            // an empty method is not a method at all
            rt::check((r.status == 501 || (w.method.is_empty() && r.status == 400)) && !ran, "C04 an unknown method is answered with 501 and reaches no handler");
            rt::cover("unknown method");
        } else {
            rt::check(r.status == 200 && ran, "C04 a well-formed request is served");
        }
    } else {
        rt::check(r.status == 200 || !ran, "C04 either served or rejected");
    }
    if ran {
        let s = &seen[0];
        rt::check(seen.len() == 1, "C04 the handler runs once");
        rt::check(s.method == m, "C04 the method is the one sent");
        rt::check(s.version == if w.known_version() { w.version } else { "" }, "C04 the version is the one sent");
        rt::check(s.chunks.len() == w.segs.len() && s.chunks.iter().zip(w.segs.iter()).all(|(a, b)| a == b), "C04 the path is the one sent");
        rt::note(s.method as u64, "method");
        for c in &s.chunks {
            rt::note_bytes(c.as_bytes(), "chunk");
        }
        rt::cover("served");
    }
}

const LINES: &[&str] = &["GET /ab/c HTTP/1.1", "DELETE /?q=/../x HTTP/1.0", "OPTIONS a/./b?c HTTP/2.0"];

fn with(line: &[u8], host: bool) -> Vec<u8> {
    let mut inp = line.to_vec();
    inp.extend_from_slice(if host { b"\r\nHost: a\r\n\r\n" } else { b"\r\nX: a\r\n\r\n" });
    inp
}

/// any n consecutive bytes of a request line replaced by anything
#[no_mangle]
pub extern "C" fn c04_window(n: u64, k: u64) {
    let mut line = LINES[k as usize].as_bytes().to_vec();
    window(&mut line, n as usize);
    go(&with(&line, k != 0 || rt::choice(2, "host") == 1));
}
/// n arbitrary bytes inserted anywhere in a request line
#[no_mangle]
pub extern "C" fn c04_insert(n: u64, k: u64) {
    let t = LINES[k as usize].as_bytes();
    let line = insertion(t, 0, t.len(), n as usize);
    go(&with(&line, true));
}
/// any method of n bytes, any version number of 3
#[no_mangle]
pub extern "C" fn c04_method(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut line = rt::vec(n, "method");
    line.extend_from_slice(b" /x HTTP/1.1");
    go(&with(&line, true));
}
#[no_mangle]
pub extern "C" fn c04_version(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut line = b"PATCH /x HTTP/".to_vec();
    line.extend_from_slice(&rt::vec(n, "version"));
    go(&with(&line, rt::choice(2, "host") == 1));
}
/// every method against every version, with and without Host and with every
/// kind of Connection header
#[no_mangle]
pub extern "C" fn c04_combine(_: u64, _: u64) {
    let m = ["OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT", "PATCH", "get", "ALL", "NONE"][rt::choice(12, "m")];
    let v = ["1.1", "1.0", "0.9", "2.0"][rt::choice(4, "v")];
    let h = ["", "Host: a\r\n", "hOST:\r\n", "X-Host: a\r\n"][rt::choice(4, "h")];
    let c = ["", "Connection: close\r\n", "Connection: keep-alive\r\nKeep-Alive: timeout=5, max=99999999999999999999\r\n", "Connection: keep-alive\r\nKeep-Alive: timeout=18446744073709551615\r\n"][rt::choice(4, "c")];
    let inp = [m, " /a/b?x HTTP/", v, "\r\n", h, c, "\r\n"].concat();
    go(inp.as_bytes());
}
/// a value of Connection and Keep-Alive headers never changes the answer
#[no_mangle]
pub extern "C" fn c04_keepalive(n: u64, _: u64) {
    let v = rt::choice(2, "v");
    let mut inp = format!("GET /a HTTP/1.{}\r\nHost: a\r\nConnection: keep-alive\r\nKeep-Alive: timeout=5, max=7", v).into_bytes();
    let l = inp.len();
    window(&mut inp[l - 18..], n as usize);
    inp.extend_from_slice(b"\r\n\r\n");
    go(&inp);
}
/// long request lines: many segments, sizes around the read buffer
#[no_mangle]
pub extern "C" fn c04_long(_: u64, _: u64) {
    let n = [31, 255, 256, 493, 494, 495, 505, 511, 512, 513, 1023, 1024, 2048, 3000][rt::choice(14, "n")];
    let shape = rt::choice(3, "shape");
    let mut p = String::new();
    while p.len() < n {
        p.push_str(match shape {
            0 => "/a",
            1 => "/abcdefghijklmnopq",
            _ => "x",
        });
    }
    p.truncate(n);
    let mut line = format!("PUT {}/zz HTTP/1.1", p).into_bytes();
    let l = line.len();
    rt::bytes(&mut line[l - 12..l - 9], "w");
    go(&with(&line, true));
}
