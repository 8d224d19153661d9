//! C22: connections do not affect each other.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// answers with all it can see of the request
fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.get(
        "/v/:x",
        route_next!(|req, res| {
            res.set("X-Var", req.vars.get("x").unwrap());
        }),
    )
    .unwrap();
    app.post("/stop", route_stop!(|req, res| { res.set("S", "1").send("stopped") })).unwrap();
    app.add_route("/set", route_next!(|req, res| {
        res.cookie(octane::cookie::Cookie::new("k", "v")).set("Content-Type", "a/b").charset("c").status(octane::StatusCode::Created);
    }))
    .unwrap();
    app.add(route_next!(|req, res| {
        let mut b = format!("{:?} {} {}", req.request_line.method, req.request_line.path.chunks().iter().map(|c| [&c[..], "/"].concat()).collect::<String>(), req.request_line.version.to_string());
        for h in &req.headers.raw {
            b.push_str(&format!("|{}={}", h.name(), h.value()));
        }
        for c in &req.cookies {
            b.push_str(&format!("|{}:{}", c.name(), c.value()));
        }
        let mut q: Vec<String> = req.get_query().into_iter().map(|(k, v)| k + "~" + &v).collect();
        q.sort();
        b.push_str(&q.join("^"));
        let mut b = b.into_bytes();
        b.extend_from_slice(req.body);
        if req.request_line.path.chunks().len() != 3 {
            res.send(b);
        }
    }))
    .unwrap();
    Arc::new(app)
}
const REQS: &[&str] = &[
    "GET /v/ab?q=1 HTTP/1.1\r\nHost: h\r\nCookie: a=b\r\n\r\n",
    "POST /stop HTTP/1.0\r\nContent-Length: 3\r\n\r\nxyz",
    "GET /set HTTP/1.0\r\nContent-Length: 4\r\n\r\nbody",
    "GET /a/b/c HTTP/1.0\r\n\r\n",
    "BREW / HTTP/1.0\r\n\r\n",
    "GET / HTTP/1.1\r\n\r\n",
    "PUT /x HTTP/1.0\r\nContent-Length: 9\r\n\r\nshort",
    "",
    // not picked by number
    "POST /a/b?x=1&y=2 HTTP/1.0\r\nContent-Length: 6\r\nA-B: cd\r\n\r\nabcdef",
];
const N: usize = 8;
/// the response each of them gets when it is the only one. It is written down
/// here, since asking the server first would be a connection before the others
const ALONE: &[(u32, &str, &[(&str, &str)])] = &[
    (200, "Get v/ab/ 1.1|Host=h|Cookie=a=b|a:bq~1", &[("Content-Type", "text/html"), ("X-Var", "ab")]),
    (200, "stopped", &[("Content-Type", "text/html"), ("S", "1")]),
    (201, "Get set/ 1.0|Content-Length=4body", &[("Content-Type", "a/b"), ("Set-Cookie", "k=v")]),
    (404, "", &[]),
    (501, "", &[]),
    (400, "", &[]),
    (400, "", &[]),
    (400, "", &[]),
    (200, "Post a/b/ 1.0|Content-Length=6|A-B=cdx~1^y~2abcdef", &[("Content-Type", "text/html")]),
];
fn right(i: usize, r: &Resp) -> bool {
    let (status, body, headers) = ALONE[i];
    if status >= 400 {
        return is_error_page(r, status);
    }
    r.status == status
        && r.body == body.as_bytes()
        && r.headers.len() == headers.len() + 2
        && r.one("Date").is_some()
        && r.one("Content-Length") == Some(&body.len().to_string()[..])
        && headers.iter().all(|h| r.one(h.0).map_or(false, |v| v.starts_with(h.1)))
}
/// the second of two requests is answered as if it were the first
#[no_mangle]
pub extern "C" fn c22_history(n: u64, _: u64) {
    let app = app();
    let mut pre: Vec<u8> = REQS[rt::choice(8, "first")].into();
    if n > 0 && pre.len() > 10 {
        let at = rt::choice(2, "at") * 5 + 2;
        rt::bytes(&mut pre[at..at + n as usize], "w");
        for b in &pre[at..at + n as usize] {
            // the application below puts it into a header
            rt::assume(*b >= 0x20 && *b < 0x7f);
        }
    }
    let si = rt::choice(9, "second");
    let second = REQS[si].as_bytes();
    let a1 = expect_response(&serve_bytes(&app, &pre));
    let b1 = expect_response(&serve_bytes(&app, second));
    let a2 = expect_response(&serve_bytes(&app, &pre));
    rt::check(right(si, &b1), "C22 a response does not depend on earlier requests");
    rt::check(same_response(&a1, &a2), "C22 the same request gets the same response again");
    rt::note(b1.status as u64, "status");
    rt::cover("history");
}
/// a request that differs from one before in any place gets its own response
#[no_mangle]
pub extern "C" fn c22_twin(n: u64, _: u64) {
    let bi = [0, 2, 8][rt::choice(3, "base")];
    let base = REQS[bi].as_bytes();
    let at = rt::choice((base.len() - n as usize) as u64 + 1, "at");
    let mut twin = base.to_vec();
    rt::bytes(&mut twin[at..at + n as usize], "w");
    for b in &twin[at..at + n as usize] {
        rt::assume(*b >= 0x20 && *b < 0x7f);
    }
    let app = app();
    let one = expect_response(&serve_bytes(&app, &twin));
    let two = expect_response(&serve_bytes(&app, base));
    let again = expect_response(&serve_bytes(&app, &twin));
    rt::check(right(bi, &two), "C22 a response does not depend on a request that is nearly the same");
    rt::check(same_response(&one, &again), "C22 the same request gets the same response again");
    rt::note(one.status as u64, "status");
    rt::cover("twin");
}
/// two connections served at the same time, in any interleaving of their steps
#[no_mangle]
pub extern "C" fn c22_interleave(k: u64, _: u64) {
    let app = app();
    let (xi, yi) = (rt::choice(4, "x"), rt::choice(8, "y"));
    let (x, y) = (REQS[xi].as_bytes(), REQS[yi].as_bytes());
    let mut a = Conn::new(x.to_vec());
    let mut b = Conn::new(y.to_vec());
    for c in [&mut a, &mut b] {
        let n = c.input.len() / 2;
        c.reads = vec![Step::Pending, Step::Upto(n.max(1)), Step::Pending];
        c.writes = vec![Step::Pending, Step::Upto(30), Step::Pending];
    }
    {
        let mut fa = Box::pin(octane::verif::serve(&mut a, app.clone()));
        let mut fb = Box::pin(octane::verif::serve(&mut b, app.clone()));
        let mut cx = Context::from_waker(Waker::noop());
        let (mut da, mut db) = (false, false);
        for i in 0..20 {
            // which of the two makes its next step
            let first = if da || db { db } else if i < k { rt::range(1, "turn") == 0 } else { true };
            if first {
                da = matches!(fa.as_mut().poll(&mut cx), Poll::Ready(Ok(())));
            } else {
                db = matches!(fb.as_mut().poll(&mut cx), Poll::Ready(Ok(())));
            }
            if da && db {
                break;
            }
        }
        rt::check(da && db, "C22 both connections are served to the end");
    }
    rt::check(right(xi, &expect_response(&a.out)) && right(yi, &expect_response(&b.out)), "C22 connections served at the same time get the responses they would get alone");
    rt::cover("interleaved");
}
/// a connection that fails or is dropped half way leaves nothing behind
#[no_mangle]
pub extern "C" fn c22_dropped(_: u64, _: u64) {
    let app = app();
    let x = REQS[rt::choice(3, "x")].as_bytes();
    let yi = rt::choice(8, "y");
    let y = REQS[yi].as_bytes();
    let mut a = Conn::new(x.to_vec());
    let steps = rt::choice(5, "steps");
    let n = rt::choice(x.len() as u64, "n");
    a.reads = vec![Step::Upto(n.max(1)), Step::Pending, if steps == 4 { Step::Fail } else { Step::Upto(9999) }];
    a.writes = vec![Step::Pending, Step::Upto(20), Step::Pending, Step::Pending];
    {
        let mut fa = Box::pin(octane::verif::serve(&mut a, app.clone()));
        let mut cx = Context::from_waker(Waker::noop());
        for _ in 0..steps {
            if fa.as_mut().poll(&mut cx).is_ready() {
                break;
            }
        }
    }
    let r = expect_response(&serve_bytes(&app, y));
    rt::check(right(yi, &r), "C22 a connection that was dropped does not affect the next");
    rt::check(Arc::strong_count(&app) == 1, "C22 nothing keeps the server after a connection ended");
    rt::note(r.status as u64, "status");
    rt::cover("dropped");
}
/// after any number of connections, served, refused, dropped and broken
#[no_mangle]
pub extern "C" fn c22_many(_: u64, _: u64) {
    rt::budget(500_000_000);
    let app = app();
    let n = [12usize, 70, 300, 1100][rt::choice(4, "n")];
    let good = rt::choice(2, "mix") == 0;
    let mut cx = Context::from_waker(Waker::noop());
    for i in 0..n {
        if good {
            serve_bytes(&app, REQS[0].as_bytes());
            continue;
        }
        let mut c = Conn::new(REQS[i % N].into());
        match i / 3 % 4 {
            0 => (),
            1 => c.reads = vec![Step::Upto(9), Step::Fail],
            2 => c.reads = vec![Step::Upto(9), Step::Pending],
            _ => c.writes = vec![Step::Upto(5), Step::Fail],
        }
        let mut f = Box::pin(octane::verif::serve(&mut c, app.clone()));
        let _ = f.as_mut().poll(&mut cx);
    }
    for (i, y) in REQS.iter().enumerate() {
        let r = expect_response(&serve_bytes(&app, y.as_bytes()));
        rt::check(right(i, &r), "C22 a response does not depend on the number of connections before");
        rt::note(r.status as u64, "status");
    }
    rt::check(Arc::strong_count(&app) == 1, "C22 nothing keeps the server after a connection ended");
    rt::cover("many");
}
/// many connections open at the same time, finished in different orders
#[no_mangle]
pub extern "C" fn c22_open(_: u64, _: u64) {
    rt::budget(500_000_000);
    let app = app();
    let n = [3usize, 20, 70, 300][rt::choice(4, "n")];
    let order = rt::choice(3, "order");
    let mut conns: Vec<Conn> = (0..n).map(|i| {
        let mut c = Conn::new(REQS[i % N].into());
        c.reads = vec![Step::Upto(1 + i % 23), Step::Pending];
        c.writes = vec![Step::Upto(40), Step::Pending];
        c
    }).collect();
    {
        let mut cx = Context::from_waker(Waker::noop());
        let mut f: Vec<_> = conns.iter_mut().map(|c| Some(Box::pin(octane::verif::serve(c, app.clone())))).collect();
        for _ in 0..6 {
            for i in 0..n {
                let i = match order {
                    0 => i,
                    1 => n - 1 - i,
                    _ => i * 11 % n,
                };
                if let Some(x) = &mut f[i] {
                    if let Poll::Ready(r) = x.as_mut().poll(&mut cx) {
                        rt::check(r.is_ok(), "C22 connections open at the same time are all served");
                        f[i] = None;
                    }
                }
            }
        }
        rt::check(f.iter().all(|x| x.is_none()), "C22 connections open at the same time are all served to the end");
    }
    for (i, c) in conns.iter().enumerate() {
        rt::check(right(i % N, &expect_response(&c.out)), "C22 connections open at the same time get the responses they would get alone");
    }
    rt::cover("open");
}
/// three connections, the first k steps in any order
#[no_mangle]
pub extern "C" fn c22_three(k: u64, _: u64) {
    let app = app();
    let pick = [[0usize, 1, 2], [0, 0, 3], [2, 6, 0], [4, 1, 5]][rt::choice(4, "pick")];
    let mut conns: Vec<Conn> = pick.iter().map(|i| {
        let mut c = Conn::new(REQS[*i].into());
        let n = c.input.len() / 2;
        c.reads = vec![Step::Upto(n.max(1)), Step::Pending];
        c.writes = vec![Step::Upto(30), Step::Pending];
        c
    }).collect();
    {
        let mut cx = Context::from_waker(Waker::noop());
        let mut f: Vec<_> = conns.iter_mut().map(|c| Some(Box::pin(octane::verif::serve(c, app.clone())))).collect();
        for s in 0..k + 9 {
            let i = if s < k { rt::range(2, "turn") } else { s % 3 } as usize;
            if let Some(x) = &mut f[i] {
                if let Poll::Ready(r) = x.as_mut().poll(&mut cx) {
                    rt::check(r.is_ok(), "C22 connections open at the same time are all served");
                    f[i] = None;
                }
            }
        }
        rt::check(f.iter().all(|x| x.is_none()), "C22 connections open at the same time are all served to the end");
    }
    for (c, i) in conns.iter().zip(pick) {
        rt::check(right(i, &expect_response(&c.out)), "C22 connections open at the same time get the responses they would get alone");
    }
    rt::cover("three");
}
