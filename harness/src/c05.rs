//! C05: the header fields handlers see are those that were sent.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        res.send("ok");
    }))
    .unwrap();
    Arc::new(app)
}

fn go(inp: &[u8]) {
    reset();
    let r = expect_response(&serve_bytes(&app(), inp));
    let seen = SEEN.get();
    rt::note(r.status as u64, "status");
    let w = match want(inp) {
        Some(w) => w,
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C05 a malformed header field is answered with 400 and reaches no handler");
            rt::cover("malformed");
            return;
        }
    };
    if w.version == "1.1" && w.header("host").is_none() {
        rt::check(r.status == 400 && seen.is_empty(), "C05 HTTP/1.1 without Host is answered with 400");
        return;
    }
    rt::check(r.status == 200 && seen.len() == 1, "C05 a request with well-formed header fields is served");
    let s = &seen[0];
    rt::check(s.raw.len() == w.headers.len(), "C05 every header line is shown once");
    for (a, b) in s.raw.iter().zip(w.headers.iter()) {
        rt::check(a.0 == b.0 && a.1 == b.1, "C05 header lines are shown as sent, in order");
        rt::note_bytes(a.0.as_bytes(), "name");
        rt::note_bytes(a.1.as_bytes(), "value");
    }
    let mut distinct = 0;
    for (i, (n, _)) in w.headers.iter().enumerate() {
        if w.headers[..i].iter().any(|h| h.0.eq_ignore_ascii_case(n)) {
            continue;
        }
        distinct += 1;
        let low = n.to_ascii_lowercase();
        rt::check(s.headers.get(&low) == w.header(&low).as_ref(), "C05 looking a header up by lower-case name gives all its values, joined in order");
    }
    rt::check(s.headers.len() == distinct, "C05 no other header is shown");
    rt::cover("served");
}

const T: &[&str] = &["GET / HTTP/1.1\r\nHost: a\r\nX-y: b c\r\n\r\n", "GET / HTTP/1.0\r\nA: 1\r\na:2\r\n\r\n", "GET / HTTP/1.0\r\nKey:\t \u{e9}\u{20ac}\r\n\r\n"];

/// any n consecutive bytes of the header block replaced by anything
#[no_mangle]
pub extern "C" fn c05_window(n: u64, k: u64) {
    let mut t = T[k as usize].as_bytes().to_vec();
    let l = t.len();
    let w = rt::choice((l - 14 - n as usize + 1 - 2) as u64, "at") + 14;
    rt::bytes(&mut t[w..w + n as usize], "w");
    if n > 2 {
        for b in &t[w..w + n as usize] {
            rt::assume(*b < 0x80);
        }
    }
    go(&t);
}
#[no_mangle]
pub extern "C" fn c05_insert(n: u64, k: u64) {
    let t = T[k as usize].as_bytes();
    let inp = insertion(t, 14, t.len() - 2, n as usize);
    for b in &inp {
        rt::assume(*b < 0x80);
    }
    go(&inp);
}
/// any field name of n bytes
#[no_mangle]
pub extern "C" fn c05_name(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut inp = b"GET / HTTP/1.0\r\n".to_vec();
    let v = rt::vec(n, "name");
    for b in &v {
        rt::assume(*b < 0x80);
    }
    inp.extend_from_slice(&v);
    inp.extend_from_slice(b": v\r\n\r\n");
    go(&inp);
}
/// any field value of n bytes
#[no_mangle]
pub extern "C" fn c05_value(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut inp = b"GET / HTTP/1.0\r\nN:".to_vec();
    inp.extend_from_slice(&rt::vec(n, "value"));
    inp.extend_from_slice(b"\r\nM: n\r\n\r\n");
    go(&inp);
}
/// up to four fields whose names differ in a letter or in case only
#[no_mangle]
pub extern "C" fn c05_repeat(k: u64, _: u64) {
    rt::hash_mode(rt::choice(4, "hash") as u64);
    let mut inp = b"GET / HTTP/1.0\r\n".to_vec();
    for i in 0..k {
        inp.push(b'x');
        inp.push(b'-');
        inp.push(one_of(b"aAbB", "name"));
        inp.extend_from_slice(b": ");
        inp.push(b'0' + i as u8);
        inp.push(one_of(b"v,", "value"));
        inp.extend_from_slice(b"\r\n");
    }
    inp.extend_from_slice(b"\r\n");
    go(&inp);
}
/// many fields
#[no_mangle]
pub extern "C" fn c05_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let hash = rt::choice(3, "hash") as u64;
    rt::hash_mode(hash);
    let n = [1, 3, 4, 7, 8, 14, 15, 28, 29, 64, 100, 130, 260, 520, 1100][rt::choice(if hash == 0 { 15 } else { 12 }, "n")];
    let step = [1, 7, 1000][rt::choice(3, "distinct")];
    let len = [1, 30][rt::choice(2, "len")];
    let mut inp = b"GET / HTTP/1.0\r\n".to_vec();
    for i in 0..n {
        let name = if i % 2 == 0 { "Field-" } else { "fiELD-" };
        inp.extend_from_slice(format!("{}{}: {}\r\n", name, i % step, "z".repeat((i * 3) % 5 + len)).as_bytes());
    }
    let c = one_of(b"0Zz ", "c");
    inp.extend_from_slice(b"Last: ");
    inp.push(c);
    inp.extend_from_slice(b"\r\n\r\n");
    go(&inp);
}
/// long fields
#[no_mangle]
pub extern "C" fn c05_long(_: u64, _: u64) {
    rt::budget(500_000_000);
    let n = [127usize, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8190, 8192, 8193, 16384, 33000, 65536][rt::choice(20, "n")];
    let mut inp = b"GET / HTTP/1.0\r\n".to_vec();
    let c = one_of(b"aZ0- :", "c");
    match rt::choice(3, "shape") {
        0 => {
            inp.extend_from_slice(b"A: ");
            inp.resize(inp.len() + n - 1, b'v');
            inp.push(c);
        }
        1 => {
            inp.resize(inp.len() + n - 1, b'N');
            inp.push(c);
            inp.extend_from_slice(b"b: c");
        }
        _ => {
            inp.extend_from_slice(b"A:");
            inp.resize(inp.len() + n, b' ');
            inp.push(c);
            inp.resize(inp.len() + n / 2, b'\t');
        }
    }
    inp.extend_from_slice(b"\r\nB: end\r\n\r\n");
    go(&inp);
}
/// any words as name and value
#[no_mangle]
pub extern "C" fn c05_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    if a.eq_ignore_ascii_case(b"content-length") {
        return;
    }
    let mut inp = b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec();
    inp.extend_from_slice(&a);
    inp.extend_from_slice(b": ");
    inp.extend_from_slice(&b);
    inp.extend_from_slice(b"\r\nX: y\r\n\r\n");
    go(&inp);
}
/// fields that have a meaning somewhere, with numbers of up to n digits
#[no_mangle]
pub extern "C" fn c05_known(n: u64, _: u64) {
    go(&known_request(n as usize));
}
/// one field that names another
#[no_mangle]
pub extern "C" fn c05_pairs(_: u64, _: u64) {
    let a = FIELDS[rt::choice(FIELDS.len() as u64, "a")];
    let b = FIELDS[rt::choice(FIELDS.len() as u64, "b")];
    let v = match rt::choice(3, "how") {
        0 => b.to_string(),
        1 => ["close, ", &b.to_lowercase()].concat(),
        _ => "a".to_string(),
    };
    let first = rt::choice(2, "first") == 0;
    let (x, y) = (format!("{}: {}\r\n", a, v), format!("{}: b\r\n", b));
    go(["GET / HTTP/1.1\r\nHost: h\r\n", if first { &x } else { &y }, if first { &y } else { &x }, "\r\n"].concat().as_bytes());
}
