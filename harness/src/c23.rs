//! C23: connections that break.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        let mut b = vec![b'r'; 40];
        b.extend_from_slice(req.body);
        res.send(b);
    }))
    .unwrap();
    Arc::new(app)
}
const REQS: &[&str] = &[
    "GET /a/b?c HTTP/1.1\r\nHost: h\r\n\r\n",
    "POST /p HTTP/1.0\r\nContent-Length: 9\r\n\r\nab\r\n\r\ncdetail",
    "GET / HTTP/1.1\r\n\r\n",
];
/// the ways in which connections fail
fn error(c: &mut Conn) {
    use std::io::ErrorKind::*;
    c.error = [ConnectionReset, BrokenPipe, ConnectionAborted, TimedOut, UnexpectedEof, NotConnected, WriteZero, Other][rt::choice(8, "error")];
}
/// reading fails at any point
#[no_mangle]
pub extern "C" fn c23_read(k: u64, _: u64) {
    let inp = REQS[k as usize].as_bytes();
    let at = rt::choice(inp.len() as u64 + 1, "at");
    let mut c = Conn::new(inp.to_vec());
    if at > 0 {
        c.reads.push(Step::Upto(at));
    }
    if rt::choice(2, "pending") == 1 {
        c.reads.push(Step::Pending);
    }
    c.reads.push(Step::Fail);
    c.forever = rt::choice(2, "forever") == 1;
    error(&mut c);
    reset();
    serve(&app(), &mut c);
    let seen = SEEN.get();
    // what arrived before the failure
    let w = want(&inp[..at]);
    let complete = w.as_ref().map_or(false, |w| w.header("content-length").map_or(true, |s| decimal(&s).map_or(true, |n| n <= w.rest.len())));
    let servable = complete && k != 2;
    rt::check(seen.len() == servable as usize, "C23 a handler runs exactly if the whole request arrived");
    if servable {
        let r = expect_response(&c.out);
        rt::check(r.status == 200, "C23 a request that arrived in full is answered");
        rt::cover("served");
    } else if !c.out.is_empty() {
        rt::check(expect_response(&c.out).status == 400, "C23 a request that broke off gets no answer but 400");
        rt::cover("broken");
    }
    rt::note(c.out.len() as u64, "out");
}
/// writing fails, or takes nothing any more, after any amount
#[no_mangle]
pub extern "C" fn c23_write(k: u64, _: u64) {
    let inp = REQS[k as usize].as_bytes();
    let app = app();
    reset();
    let full = serve_bytes(&app, inp);
    let calls = SEEN.get().len();
    let n = rt::choice(300, "n");
    let mut c = Conn::new(inp.to_vec());
    let split = rt::choice(2, "split") == 1;
    if n > 0 && split {
        c.writes.push(Step::Upto(n));
        c.writes.push(Step::Pending);
    }
    let how = rt::choice(2, "how");
    if how == 0 && n % 37 == 0 {
        error(&mut c);
    }
    let last = if how == 0 { Step::Fail } else { Step::Upto(0) };
    if !split {
        // small pieces
        for _ in 0..n / 16 {
            c.writes.push(Step::Upto(16));
        }
    }
    for _ in 0..3 {
        c.writes.push(last);
    }
    c.forever = rt::choice(2, "forever") == 1;
    reset();
    let ok = serve(&app, &mut c);
    rt::check(SEEN.get().len() == calls, "C23 the handler runs once whether or not the answer can be delivered");
    rt::check(full.len() >= c.out.len(), "C23 no more is written than the response");
    // the order of the header lines may differ from run to run, their amount can not
    if ok {
        let r = expect_response(&c.out);
        rt::check(same_response(&r, &expect_response(&full)), "C23 serving only succeeds if the response was delivered in full");
        rt::cover("delivered");
    } else {
        rt::check(full.starts_with(&c.out) || cfg!(feature = "native"), "C23 what was written before the failure is the start of the response");
        rt::cover("undelivered");
    }
    rt::note(c.out.len() as u64, "out");
}
/// the client closes early and can not be written to any more either
#[no_mangle]
pub extern "C" fn c23_both(k: u64, _: u64) {
    let inp = REQS[k as usize].as_bytes();
    let at = rt::choice(inp.len() as u64 + 1, "at");
    let mut c = Conn::new(inp[..at].to_vec());
    c.writes = vec![[Step::Fail, Step::Upto(0), Step::Upto(7)][rt::choice(3, "how")], Step::Fail, [Step::Fail, Step::Upto(0)][rt::choice(2, "then")]];
    c.forever = true;
    reset();
    let ok = serve(&app(), &mut c);
    rt::check(!ok, "C23 a response that can not be written is an error");
    rt::check(c.out.len() <= 7, "C23 nothing is written after a failure");
    rt::cover("both");
}
/// a large request or response breaks off
#[no_mangle]
pub extern "C" fn c23_large(_: u64, _: u64) {
    let size = [3000usize, 20000][rt::choice(2, "size")];
    let mut inp = format!("POST / HTTP/1.0\r\nContent-Length: {}\r\n\r\n", size).into_bytes();
    let head = inp.len();
    inp.extend((0..size).map(|i| (i * 5 + i / 256) as u8));
    rt::bytes(&mut inp[head..head + 1], "first");
    let app = app();
    let at = [1usize, 100, 513, 2048, size / 2, size - 1, size][rt::choice(7, "at")];
    let mut c = Conn::new(inp.clone());
    let side = rt::choice(2, "side");
    if side == 0 {
        // reading
        c.reads = vec![Step::Upto(head); at / head];
        c.reads.extend(vec![Step::Upto(1); at % head]);
        if at >= size {
            c.reads = vec![Step::Upto(head); (size + head) / head];
        }
        c.reads.push(Step::Fail);
    } else {
        c.writes = vec![Step::Upto(64); at / 64];
        let last = [Step::Fail, Step::Upto(0)][rt::choice(2, "how")];
        c.writes.extend([last, last, last]);
    }
    c.forever = rt::choice(2, "forever") == 1;
    error(&mut c);
    reset();
    let ok = serve(&app, &mut c);
    let seen = SEEN.get();
    if side == 0 {
        let all = c.pos >= head + size;
        rt::check(seen.len() == all as usize, "C23 a handler runs exactly if the whole request arrived");
        if !c.out.is_empty() {
            rt::check(expect_response(&c.out).status == if all { 200 } else { 400 }, "C23 a request that broke off gets no answer but 400");
        }
    } else {
        rt::check(!ok && seen.len() == 1, "C23 a response that can not be written is an error, and the handler is not run again");
        let got = c.out.len();
        rt::check(got <= at, "C23 nothing is written after a failure");
        if let Some(i) = c.out.windows(4).position(|w| w == b"\r\n\r\n") {
            let b = &c.out[i + 4..];
            let mut whole = vec![b'r'; 40];
            whole.extend_from_slice(&inp[head..]);
            rt::check(whole.starts_with(b), "C23 what was written before the failure is the start of the response");
        }
    }
    rt::note(c.out.len() as u64, "out");
    rt::cover("large");
}
