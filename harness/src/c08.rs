//! C08: handlers run in the order of registration until one stops the chain.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::router::Closure;
use std::sync::Arc;

/// a handler that answers
pub fn handler(id: u32, stop: bool) -> Closure {
    step(id, stop, true)
}
/// a handler that leaves its trace and may answer or not, and may stop or not
pub fn step(id: u32, stop: bool, send: bool) -> Closure {
    route!(|req, res| {
        let mut s = observe(id, req);
        // what the handlers before this one did is there
        let before = res.get("Trace").cloned().unwrap_or_default();
        s.version = before.clone();
        SEEN.get().push(s);
        let t = format!("{}{}.", before, id);
        res.set("Trace", &t);
        if send {
            res.send(&t);
        }
        if stop {
            Flow::Stop
        } else {
            Flow::Next
        }
    })
}
/// 0..7: kinds of registration; does it match GET /p, and with a variable?
pub fn register<R: Route>(r: &mut R, kind: usize, id: u32, stop: bool) {
    put(r, kind, handler(id, stop));
}
pub fn put<R: Route>(r: &mut R, kind: usize, h: Closure) {
    match kind {
        0 => r.get("/p", h),
        1 => r.get("/:v", h),
        2 => r.add_route("/p", h),
        3 => r.add_route("/:w", h),
        4 => r.add(h),
        5 => r.post("/p", h),
        6 => r.get("/q", h),
        _ => r.add_route("/p/:v", h),
    }
    .unwrap();
}
pub fn runs(kind: usize) -> bool {
    kind < 5
}
pub fn vars(kind: usize) -> Option<(&'static str, &'static str)> {
    match kind {
        1 => Some(("v", "p")),
        3 => Some(("w", "p")),
        _ => None,
    }
}

/// the kinds and stops, in the order they count
pub fn verify(list: &[(usize, bool)], out: &[u8], tag: &str) {
    let r = expect_response(out);
    let seen = SEEN.get();
    let mut trace = String::new();
    let mut n = 0;
    for (i, (kind, stop)) in list.iter().enumerate() {
        if !runs(*kind) {
            continue;
        }
        rt::check(n < seen.len() && seen[n].id == i as u32, tag);
        let s = &seen[n];
        rt::check(s.version == trace, "C08 a handler sees what the handlers before it put in the response");
        rt::check(
            match vars(*kind) {
                None => s.vars.is_empty(),
                Some((k, v)) => s.vars.len() == 1 && s.vars[0].0 == k && s.vars[0].1 == v,
            },
            "C08 a handler is given the variables of its own pattern only",
        );
        trace.push_str(&format!("{}.", i));
        n += 1;
        if *stop {
            rt::cover("stopped");
            break;
        }
    }
    rt::check(seen.len() == n, "C08 no handler runs after one stopped the chain, or that does not match");
    if n == 0 {
        rt::check(r.status == 404, "C08 404 if no handler ran");
        rt::cover("none");
    } else {
        rt::check(r.status == 200 && r.body == trace.as_bytes() && r.one("Trace") == Some(&trace), "C08 the response is what the last handler left");
        rt::cover("ran");
    }
    rt::note(n as u64, "ran");
}
const ORDER: &str = "C08 handlers run in the order they were registered";
const GET: &[u8] = b"GET /p HTTP/1.0\r\n\r\n";

fn go(list: &[(usize, bool)]) {
    let mut app = Octane::new();
    for (i, (k, s)) in list.iter().enumerate() {
        register(&mut app, *k, i as u32, *s);
    }
    reset();
    let out = serve_bytes(&Arc::new(app), GET);
    verify(list, &out, ORDER);
}
/// every sequence of k registrations out of 8 kinds, each stopping or not
#[no_mangle]
pub extern "C" fn c08_order(k: u64, _: u64) {
    let mut l = Vec::new();
    for _ in 0..k {
        l.push((rt::range(7, "kind") as usize, rt::range(1, "stop") == 1));
    }
    go(&l);
}
/// every sequence of k registrations that all match
#[no_mangle]
pub extern "C" fn c08_matching(k: u64, _: u64) {
    let mut l = Vec::new();
    for _ in 0..k {
        l.push((rt::range(4, "kind") as usize, false));
    }
    go(&l);
}
/// every sequence of k registrations that match, each of which may answer or
/// not and may stop the chain or not; after them one that answers, or none
#[no_mangle]
pub extern "C" fn c08_silent(k: u64, _: u64) {
    let mut app = Octane::new();
    let mut l = Vec::new();
    for i in 0..k {
        let kind = [4usize, 0, 3][rt::range(2, "kind") as usize];
        let (stop, send) = (rt::range(1, "stop") == 1, rt::range(1, "send") == 1);
        put(&mut app, kind, step(i as u32, stop, send));
        l.push((stop, send));
    }
    if rt::choice(2, "last") == 1 {
        put(&mut app, [4usize, 1][rt::choice(2, "by")], step(k as u32, false, true));
        l.push((false, true));
    }
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), GET));
    let mut ran = Vec::new();
    let mut trace = String::new();
    let mut body = None;
    for (i, (stop, send)) in l.iter().enumerate() {
        ran.push(i as u32);
        trace.push_str(&format!("{}.", i));
        if *send {
            body = Some(trace.clone());
        }
        if *stop {
            break;
        }
    }
    let seen: Vec<u32> = SEEN.get().iter().map(|s| s.id).collect();
    rt::check(seen == ran, "C08 the chain goes on until a handler stops it, whether or not one has answered");
    match body {
        Some(b) => {
            rt::check(r.status == 200 && r.body == b.as_bytes() && r.one("Trace") == Some(&trace), "C08 the response is what the handlers that ran left");
            rt::cover("answered");
        }
        None => {
            rt::check(r.status == 404, "C08 404 if no handler answered");
            rt::cover("silent");
        }
    }
    rt::note(ran.len() as u64, "ran");
}
/// long chains of a regular shape, one of which may stop it
#[no_mangle]
pub extern "C" fn c08_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(2, "hash") as u64);
    let n = [12usize, 20, 21, 22, 33, 50, 70, 260, 520, 1100][rt::choice(10, "n")];
    let shape = rt::choice(6, "shape");
    let stop = [usize::MAX, 0, n / 2, n - 1][rt::choice(4, "stop")];
    let mut l = Vec::new();
    for i in 0..n {
        let k = match shape {
            0 => i % 5,
            1 => (n - i) % 5,
            2 => [0, 1][i % 2],
            3 => [1, 3, 0][i * 7 / 3 % 3],
            4 => i * i % 8,
            _ => [4, 2, 0][i * 3 / n],
        };
        l.push((k, i == stop));
    }
    go(&l);
}
