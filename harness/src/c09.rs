//! C09: mounting a router is the same as registering its handlers there.
use crate::c08::{register, verify};
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

const TAG: &str = "C09 the handlers of a mounted router run where it was mounted, in their order";

/// kinds of handlers registered: before on the app, in router 1, between on the
/// app, in router 2, after on the app
fn go(parts: [&[usize]; 5], stop: usize, late: bool) {
    let mut app = Octane::new();
    let mut list: Vec<(usize, bool)> = Vec::new();
    let mut r1 = Router::new();
    let mut r2 = Router::default();
    let base1 = parts[0].len();
    let base2 = base1 + parts[1].len() + parts[2].len();
    if !late {
        // the routers are filled before anything is registered on the app
        for (i, k) in parts[1].iter().enumerate() {
            register(&mut r1, *k, (base1 + i) as u32, base1 + i == stop);
        }
        for (i, k) in parts[3].iter().enumerate() {
            register(&mut r2, *k, (base2 + i) as u32, base2 + i == stop);
        }
    }
    let mut id = 0;
    let mut put = |list: &mut Vec<(usize, bool)>, k: usize| {
        list.push((k, id == stop));
        id += 1;
        (id as u32 - 1, id - 1 == stop)
    };
    for k in parts[0] {
        let (i, s) = put(&mut list, *k);
        register(&mut app, *k, i, s);
    }
    for k in parts[1] {
        let (i, s) = put(&mut list, *k);
        if late {
            register(&mut r1, *k, i, s);
        }
    }
    app.with_router(r1);
    for k in parts[2] {
        let (i, s) = put(&mut list, *k);
        register(&mut app, *k, i, s);
    }
    for k in parts[3] {
        let (i, s) = put(&mut list, *k);
        if late {
            register(&mut r2, *k, i, s);
        }
    }
    app.with_router(r2);
    for k in parts[4] {
        let (i, s) = put(&mut list, *k);
        register(&mut app, *k, i, s);
    }
    reset();
    let out = serve_bytes(&Arc::new(app), b"GET /p HTTP/1.0\r\n\r\n");
    verify(&list, &out, TAG);
}

/// one handler of any kind in each place, any of which may stop the chain
#[no_mangle]
pub extern "C" fn c09_places(_: u64, _: u64) {
    let mut k = [0usize; 5];
    for x in k.iter_mut() {
        *x = rt::range(3, "kind") as usize + 1;
    }
    let stop = rt::choice(3, "stop") * 2 + 1;
    go([&k[0..1], &k[1..2], &k[2..3], &k[3..4], &k[4..5]], stop, false);
}
/// several handlers of any kind in one router, between two on the app
#[no_mangle]
pub extern "C" fn c09_inside(n: u64, _: u64) {
    let mut k = Vec::new();
    for _ in 0..n {
        k.push(rt::range(7, "kind") as usize);
    }
    let at = rt::choice(2, "at");
    let late = rt::choice(2, "late") == 1;
    let own = [[0usize, 4], [3, 1]][rt::choice(2, "own")];
    if at == 0 {
        go([&own[..1], &k, &own[1..], &[], &[]], usize::MAX, late);
    } else {
        go([&[], &k[..1], &[], &k[1..], &own], usize::MAX, late);
    }
}
/// large routers
#[no_mangle]
pub extern "C" fn c09_large(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let n = [7usize, 21, 40, 130, 400][rt::choice(5, "n")];
    let m = rt::choice(5, "shape");
    let kinds: Vec<usize> = (0..3 * n).map(|i| match m {
        0 => i % 5,
        1 => (i * i + 3) % 8,
        2 => (i / 3) % 5,
        3 => 4 - (i / n) % 5,
        _ => [2, 0][i % 2],
    }).collect();
    let stop = [usize::MAX, 2 * n][rt::choice(2, "stop")];
    go([&kinds[..n / 2], &kinds[n / 2..n + n / 2], &kinds[n + n / 2..2 * n], &kinds[2 * n..2 * n + n / 3], &kinds[2 * n + n / 3..]], stop, true);
}
/// a mounted router with different patterns matches like the app itself
#[no_mangle]
pub extern "C" fn c09_patterns(n: u64, _: u64) {
    rt::hash_mode(rt::choice(4, "hash") as u64);
    const P: &[&str] = &["/a/:x", "/:y/b", "/a/b", "/:z", "/", "/c/d/e", "/a/:x/:w"];
    let split = rt::choice(8, "split");
    let len = rt::choice(n + 1, "n");
    let mut t = b"/".to_vec();
    for b in rt::vec(len, "path") {
        rt::assume(b == b'/' || b == b'a' || b == b'b' || b == b'c');
        t.push(b);
    }
    let inp = [b"GET " as &[u8], &t, b" HTTP/1.0\r\n\r\n"].concat();
    let run = |mounted: bool| {
        let mut app = Octane::new();
        let mut r = Router::new();
        for (i, p) in P.iter().enumerate() {
            let h = crate::c07::rec(i as u32);
            if mounted && i >= split && i < split + 4 {
                r.get(p, h).unwrap();
            } else {
                if mounted && i == split + 4 {
                    app.with_router(std::mem::take(&mut r));
                }
                app.get(p, h).unwrap();
            }
        }
        app.with_router(r);
        reset();
        let out = serve_bytes(&Arc::new(app), &inp);
        (expect_response(&out).status, std::mem::take(SEEN.get()))
    };
    let (s1, a) = run(false);
    let (s2, b) = run(true);
    rt::check(s1 == s2 && a.len() == b.len(), "C09 mounted or not, the same handlers run");
    for (x, y) in a.iter().zip(b.iter()) {
        rt::check(x.id == y.id && x.vars.len() == y.vars.len() && x.vars.iter().all(|v| y.vars.contains(v)), "C09 mounted or not, a handler is given the same variables");
    }
    rt::note(a.len() as u64, "ran");
    if a.len() > 1 {
        rt::cover("patterns");
    }
}
/// handlers for every method in a router and on the app, any request method
#[no_mangle]
pub extern "C" fn c09_methods(_: u64, _: u64) {
    rt::hash_mode(rt::choice(4, "hash") as u64);
    const M: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"];
    let m = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT"][rt::choice(9, "m")];
    // which methods the app has itself before the router is mounted
    let own = rt::range(63, "own") as usize;
    let way = rt::choice(3, "way");
    fn put<R: Route>(r: &mut R, m: &str, p: &str, id: u32) {
        let h = crate::c07::rec(id);
        match m {
            "GET" => r.get(p, h),
            "POST" => r.post(p, h),
            "PUT" => r.put(p, h),
            "DELETE" => r.delete(p, h),
            "HEAD" => r.head(p, h),
            "PATCH" => r.patch(p, h),
            "ALL" => r.add_route(p, h),
            _ => r.add(h),
        }
        .unwrap();
    }
    let mut app = Octane::new();
    let mut want = Vec::new();
    for (i, x) in M.iter().enumerate() {
        if own >> i & 1 == 1 {
            put(&mut app, x, "/:v", i as u32);
            if *x == m {
                want.push(i as u32);
            }
        }
    }
    let mut r = Router::new();
    for (i, x) in M.iter().enumerate() {
        put(&mut r, x, "/p", 10 + i as u32);
        if *x == m {
            want.push(10 + i as u32);
        }
    }
    if way > 0 {
        put(&mut r, "ALL", "/p", 20);
        put(&mut r, "USE", "", 21);
        want.extend([20, 21]);
    }
    app.with_router(r);
    if way == 2 {
        put(&mut app, "USE", "", 30);
        want.push(30);
        let mut r = Router::new();
        for (i, x) in M.iter().enumerate() {
            put(&mut r, x, "/p", 40 + i as u32);
            if *x == m {
                want.push(40 + i as u32);
            }
        }
        app.with_router(r);
    }
    reset();
    let res = expect_response(&serve_bytes(&Arc::new(app), [m, " /p HTTP/1.0\r\n\r\n"].concat().as_bytes()));
    let ran: Vec<u32> = SEEN.get().iter().map(|s| s.id).collect();
    rt::check(ran == want, TAG);
    rt::check(res.status == if want.is_empty() { 404 } else { 200 }, "C09 404 if no handler ran");
    rt::note(ran.len() as u64, "ran");
    rt::cover("methods");
}
/// many routers, empty and not
#[no_mangle]
pub extern "C" fn c09_routers(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [3usize, 9, 40, 270][rt::choice(4, "n")];
    let size = rt::choice(4, "size");
    let stop = [usize::MAX, n][rt::choice(2, "stop")];
    let a = rt::range(7, "a") as usize;
    let mut app = Octane::new();
    let mut list = Vec::new();
    for i in 0..n {
        let mut r = Router::new();
        for j in 0..[1, 2, i % 3, (i + 1) % 2 * 3][size] {
            let k = if i == n / 2 { a } else { (i * 3 + j * 5) % 8 };
            register(&mut r, k, list.len() as u32, list.len() == stop);
            list.push((k, list.len() == stop));
        }
        app.with_router(r);
        if i % 4 == 1 {
            register(&mut app, i % 5, list.len() as u32, list.len() == stop);
            list.push((i % 5, list.len() == stop));
        }
    }
    reset();
    let out = serve_bytes(&Arc::new(app), b"GET /p HTTP/1.0\r\n\r\n");
    verify(&list, &out, TAG);
}
