//! C02: how the bytes arrive and leave does not change what is served.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn app(body: usize) -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        let mut b: Vec<u8> = (0..body).map(|i| (i * 7 + i / 251) as u8).collect();
        b.extend_from_slice(req.body);
        res.set("X-N", "1").send(b);
    }))
    .unwrap();
    Arc::new(app)
}

const REQS: &[&str] = &[
    "GET /a/b?c=d HTTP/1.1\r\nHost: h\r\nX: y\r\n\r\n",
    "POST /p HTTP/1.0\r\nContent-Length: 9\r\n\r\nab\r\n\r\ncde",
    "PUT / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nxyzEXTRA",
    "GET / HTTP/1.1\r\n\r\n",
    "GET / HTTP/1.0\r\n\rX: y\r\n\n\r\r\n\r\n",
];

fn seen_same(a: &[Seen], b: &[Seen]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.method == y.method && x.chunks == y.chunks && x.version == y.version && x.raw == y.raw && x.body == y.body && x.cookies == y.cookies && x.headers.len() == y.headers.len()
        })
}

/// serve `inp` all at once and in pieces; the outcome is the same
fn compare(size: usize, inp: &[u8], reads: Vec<Step>, writes: Vec<Step>) {
    let app = app(size);
    reset();
    let whole = expect_response(&serve_bytes(&app, inp));
    let seen = std::mem::take(SEEN.get());
    reset();
    let mut c = Conn::new(inp.to_vec());
    c.reads = reads;
    c.writes = writes;
    let ok = serve(&app, &mut c);
    rt::check(ok, "C02 serving in pieces ends without an error");
    let parts = expect_response(&c.out);
    rt::check(seen_same(&seen, SEEN.get()), "C02 handlers see the same request however it is split");
    rt::check(same_response(&whole, &parts), "C02 the response is the same however the transfers are split");
    // and the outcome is the right one
    if let Some(w) = want(inp) {
        if let Some(n) = w.header("content-length").and_then(|s| decimal(&s)) {
            if n <= w.rest.len() && !seen.is_empty() {
                rt::check(seen[0].body == w.rest[..n], "C02 the body is the announced part of what was sent");
                rt::cover("body");
            }
        }
    }
    if seen.is_empty() {
        rt::cover("rejected");
    } else {
        rt::cover("served");
    }
    rt::note(parts.status as u64, "status");
    rt::note_bytes(&parts.body, "body");
}

/// two cuts anywhere, with or without waiting at each
#[no_mangle]
pub extern "C" fn c02_split(k: u64, pend: u64) {
    let inp = REQS[k as usize].as_bytes();
    let a = rt::choice(inp.len() as u64, "a");
    let b = rt::choice((inp.len() - a) as u64, "b");
    let mut r = Vec::new();
    let p = if pend == 0 { 0 } else { rt::choice(8, "pending") };
    for (i, n) in [a, b].iter().enumerate() {
        if p >> i & 1 == 1 {
            r.push(Step::Pending);
        }
        if *n > 0 {
            r.push(Step::Upto(*n));
        }
    }
    if p >> 2 & 1 == 1 {
        r.push(Step::Pending);
        r.push(Step::Pending);
    }
    compare(10, inp, r, vec![]);
}
/// every read gives k bytes
#[no_mangle]
pub extern "C" fn c02_trickle(_: u64, _: u64) {
    let inp = REQS[rt::choice(REQS.len() as u64, "req")].as_bytes();
    let step = 1 + rt::choice(5, "step");
    let pend = rt::choice(2, "pending") == 1;
    let mut r = Vec::new();
    for _ in 0..inp.len() / step + 1 {
        if pend {
            r.push(Step::Pending);
        }
        r.push(Step::Upto(step));
    }
    compare(0, inp, r, vec![]);
}
/// any n bytes at a cut, which falls before, between or after them
#[no_mangle]
pub extern "C" fn c02_window(n: u64, k: u64) {
    let n = n as usize;
    let mut inp = REQS[k as usize].as_bytes().to_vec();
    let at = rt::choice((inp.len() - n + 1) as u64, "at");
    rt::bytes(&mut inp[at..at + n], "w");
    for b in &inp[at..at + n] {
        rt::assume(*b < 0x80);
    }
    let cut = at + rt::choice(n as u64 + 1, "cut");
    let mut r = Vec::new();
    if cut > 0 {
        r.push(Step::Upto(cut));
    }
    compare(0, &inp, r, vec![]);
}
/// multi-byte characters and the end of the head at the edges of the read buffer
#[no_mangle]
pub extern "C" fn c02_edge(_: u64, _: u64) {
    let len = [504usize, 1016, 2040][rt::choice(3, "len")] + rt::choice(16, "more");
    let size = [7usize, 505, 600, 1500][rt::choice(4, "size")];
    let mut inp = b"POST /\xe2\x82\xac HTTP/1.0\r\nContent-Length: ".to_vec();
    inp.extend_from_slice(format!("{}\r\nX: ", size).as_bytes());
    while inp.len() + 4 < len {
        let n = inp.len();
        inp.push(if n % 97 < 40 { b'x' } else { b'-' });
    }
    inp.extend_from_slice(b"\r\n\r\n12\r\n567");
    inp.extend((7..size).map(|i| (i * 7 + i / 256) as u8));
    let first = [0usize, 1, 511, 512][rt::choice(4, "first")];
    compare(0, &inp, if first == 0 { vec![] } else { vec![Step::Upto(first)] }, vec![]);
}
/// large requests in reads of a fixed size
#[no_mangle]
pub extern "C" fn c02_big(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let size = [0usize, 512, 1000, 3000, 70000][rt::choice(5, "size")];
    let step = [100, 511, 512, 513, 2048][rt::choice(5, "step")];
    let mut inp = format!("POST / HTTP/1.0\r\nX: {}\r\nContent-Length: {}\r\n\r\n", "v".repeat(470), size).into_bytes();
    let h = inp.len();
    inp.extend((0..size).map(|i| (i * 11 + i / 256) as u8));
    if size > 0 {
        let n = inp.len();
        rt::bytes(&mut inp[h..h + 1], "first");
        rt::bytes(&mut inp[n - 1..], "last");
    }
    inp.extend_from_slice(b"zz");
    let r = vec![Step::Upto(step); inp.len() / step + 1];
    compare(0, &inp, r, vec![]);
}
/// the response leaves in pieces: the first three writes take any amount
#[no_mangle]
pub extern "C" fn c02_write(k: u64, pend: u64) {
    let inp = REQS[k as usize].as_bytes();
    let mut w = Vec::new();
    let p = if pend == 0 { 0 } else { rt::choice(4, "pending") };
    for i in 0..2 {
        if p >> i & 1 == 1 {
            w.push(Step::Pending);
        }
        w.push(Step::Upto(1 + rt::choice(140, "n")));
    }
    compare(5, inp, vec![], w);
}
/// large responses, written in pieces of a fixed size
#[no_mangle]
pub extern "C" fn c02_write_big(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let size = [0usize, 1, 2047, 2048, 2049, 5000, 20000, 70000, 1100000][rt::choice(9, "size")];
    let step = [if size > 20000 { 5000 } else { 37 }, 1000, 2047, 2048, 4096, 100000][rt::choice(6, "step")];
    let pend = rt::choice(2, "pending") == 1;
    let mut w = Vec::new();
    for _ in 0..(size + 300) / step + 2 {
        if pend {
            w.push(Step::Pending);
        }
        w.push(Step::Upto(step));
    }
    compare(size, REQS[0].as_bytes(), vec![], w);
}
