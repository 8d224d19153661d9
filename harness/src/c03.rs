//! C03: the request body is exactly Content-Length bytes of what follows the head.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        res.send("ok");
    }))
    .unwrap();
    Arc::new(app)
}

fn go(inp: &[u8], at_most: usize) {
    reset();
    let mut c = Conn::new(inp.to_vec());
    c.reads = vec![Step::Upto(at_most)];
    serve(&app(), &mut c);
    let r = expect_response(&c.out);
    let seen = SEEN.get();
    rt::note(r.status as u64, "status");
    let w = match want(inp) {
        Some(w) => w,
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C03 a malformed head is rejected");
            return;
        }
    };
    let cl = w.header("content-length");
    match &cl {
        None => {
            rt::check(r.status == 200 && seen.len() == 1 && seen[0].body.is_empty(), "C03 without Content-Length the body is empty");
            rt::cover("none");
        }
        Some(s) => match decimal(s) {
            Some(n) if n <= w.rest.len() => {
                rt::check(r.status == 200 && seen.len() == 1, "C03 a request whose body is complete is served");
                rt::check(seen[0].body == w.rest[..n], "C03 the body is the Content-Length bytes after the head");
                rt::note_bytes(&seen[0].body, "body");
                rt::cover("complete");
            }
            Some(_) => {
                rt::check(r.status == 400 && seen.is_empty(), "C03 a request whose body is cut short is answered with 400 and reaches no handler");
                rt::cover("short");
            }
            None => {
                // not a plain decimal number: rejected, or no more than what was sent is shown
                rt::check(seen.is_empty() == (r.status != 200), "C03 served or rejected");
                if let Some(s) = seen.get(0) {
                    rt::check(w.rest.starts_with(&s.body), "C03 the body is part of what was sent");
                }
                rt::cover("not a number");
            }
        },
    }
}

/// two arbitrary digits, body of up to n arbitrary bytes
#[no_mangle]
pub extern "C" fn c03_digits(n: u64, _: u64) {
    let m = rt::choice(n + 1, "m");
    let mut inp = b"POST /x HTTP/1.0\r\nContent-Length: ".to_vec();
    let d = rt::vec(2, "digits");
    for b in &d {
        rt::assume(b.is_ascii_digit());
    }
    inp.extend_from_slice(&d);
    inp.extend_from_slice(b"\r\n\r\n");
    let cut = if rt::choice(2, "cut") == 1 { inp.len() + m / 2 } else { usize::MAX };
    inp.extend_from_slice(&rt::vec(m, "body"));
    go(&inp, cut);
}
/// any value of n bytes
#[no_mangle]
pub extern "C" fn c03_value(n: u64, _: u64) {
    let mut inp = b"PUT /x HTTP/1.0\r\nConTent-lengTh:".to_vec();
    let v = rt::vec(n as usize, "value");
    for b in &v {
        rt::assume(*b < 0x80);
    }
    inp.extend_from_slice(&v);
    inp.extend_from_slice(b"\r\nA: b\r\n\r\n0123456789");
    go(&inp, usize::MAX);
}
/// huge announced lengths
#[no_mangle]
pub extern "C" fn c03_huge(_: u64, _: u64) {
    let v = ["4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00000000000000000000003", "3.0", "-1", "0x3", "3 ", "", "3,3", "\t3"][rt::choice(15, "v")];
    let h = ["Content-Length: ", "content-length:"][rt::choice(2, "h")];
    let mut inp = ["POST / HTTP/1.0\r\n", h, v, "\r\n\r\n"].concat().into_bytes();
    inp.extend_from_slice(&rt::vec(3, "body"));
    go(&inp, usize::MAX);
}
/// what the body contains is never interpreted
#[no_mangle]
pub extern "C" fn c03_content(n: u64, _: u64) {
    let m = 1 + rt::choice(n, "m");
    let mut inp = format!("DELETE /x HTTP/1.0\r\nContent-Length: {}\r\n\r\n", m).into_bytes();
    let h = inp.len();
    inp.extend_from_slice(&rt::vec(m, "body"));
    let more = rt::choice(2, "more");
    inp.extend_from_slice(&b"\r\n\r\nGET / HTTP/1.0\r\n\r\n"[..more * 20]);
    let cut = [usize::MAX, h - 1, h, h + 1][rt::choice(4, "cut")];
    go(&inp, cut);
}
/// sizes around every buffer on the way
#[no_mangle]
pub extern "C" fn c03_sizes(_: u64, _: u64) {
    rt::budget(500_000_000);
    const S: &[usize] = &[1, 31, 32, 33, 420, 470, 471, 472, 473, 511, 512, 513, 1000, 1024, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072, 1048576, 1048577];
    let n = S[rt::choice(S.len() as u64, "n")];
    let d = rt::choice(3, "d"); // missing one, exact, more
    let mut inp = format!("POST / HTTP/1.0\r\nContent-Length: {}\r\n\r\n", n).into_bytes();
    let h = inp.len();
    inp.extend((0..n).map(|i| (i * 13 + i / 256) as u8));
    let e = inp.len();
    rt::bytes(&mut inp[h..h + 1], "first");
    rt::bytes(&mut inp[e - 1..], "last");
    match d {
        0 => {
            inp.pop();
        }
        1 => (),
        _ => inp.extend_from_slice(b"tail of something else"),
    }
    go(&inp, usize::MAX);
}
/// every method, and fields that have a meaning somewhere, with a body or without
#[no_mangle]
pub extern "C" fn c03_known(n: u64, _: u64) {
    let m = rt::choice(10, "m");
    let mut inp = if m < 9 {
        let v = [" /x HTTP/1.0\r\n", " /x HTTP/1.1\r\nHost: a\r\n", " /x HTTP/2.0\r\n"][rt::choice(3, "v")];
        [["OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT", "PATCH"][m], v].concat().into_bytes()
    } else {
        let (f, v) = known_field(n as usize);
        [b"POST /x HTTP/1.0\r\n", f.as_bytes(), b": ", &v, b"\r\n"].concat()
    };
    let body = rt::choice(3, "body");
    inp.extend_from_slice([&b"Content-Length: 3\r\n\r\n5\r\nab"[..], b"Content-Length: 3\r\n\r\nab", b"\r\nabc"][body]);
    let cut = if rt::choice(2, "cut") == 1 { inp.len() - 2 } else { usize::MAX };
    go(&inp, cut);
}
