//! C07: a handler runs for exactly the requests its method and pattern describe.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::router::Closure;
use std::sync::Arc;

pub fn rec(id: u32) -> Closure {
    route_next!(|req, res| {
        record(id, req);
        res.send("x");
    })
}

/// the variables of a pattern for a path, None if it does not match
pub fn matches<'a>(pat: &[&'a str], path: &[&'a str]) -> Option<Vec<(&'a str, &'a str)>> {
    if pat.len() != path.len() {
        return None;
    }
    let mut v: Vec<(&str, &str)> = Vec::new();
    for (p, s) in pat.iter().zip(path) {
        if p.as_bytes()[0] == b':' {
            // the last of equal names wins
            v.retain(|x| x.0 != &p[1..]);
            v.push((&p[1..], s));
        } else if p != s {
            return None;
        }
    }
    Some(v)
}

fn check_seen(s: &Seen, vars: &[(&str, &str)]) {
    rt::check(s.vars.len() == vars.len(), "C07 the handler is given the variables of its pattern and no others");
    for (k, v) in vars {
        rt::check(s.vars.iter().any(|x| x.0 == *k && x.1 == *v), "C07 each URL variable has the text of its segment");
        rt::note_bytes(v.as_bytes(), "var");
    }
}

/// `regs`: (method or "ALL", pattern) registered in this order; which of them
/// run for a request, with which variables
fn go(regs: &[(&str, &str)], method: &str, target: &[u8]) {
    let mut app = Octane::new();
    let mut ok = Vec::new();
    for (i, (m, p)) in regs.iter().enumerate() {
        let h = rec(i as u32);
        let r = match *m {
            "GET" => app.get(p, h),
            "POST" => app.post(p, h),
            "PUT" => app.put(p, h),
            "DELETE" => app.delete(p, h),
            "HEAD" => app.head(p, h),
            "PATCH" => app.patch(p, h),
            _ => app.add_route(p, h),
        };
        let segs = segments(p);
        rt::check(r.is_ok() == segs.is_some(), "C07 a pattern is accepted unless it climbs above the root");
        if r.is_err() {
            rt::cover("invalid pattern");
        }
        ok.push(segs);
    }
    let mut inp = [method, " "].concat().into_bytes();
    inp.extend_from_slice(target);
    inp.extend_from_slice(b" HTTP/1.0\r\n\r\n");
    reset();
    let r = expect_response(&serve_bytes(&Arc::new(app), &inp));
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    let w = match want(&inp) {
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C07 a malformed request reaches no handler");
            return;
        }
        Some(w) => w,
    };
    let mut n = 0;
    for (i, (m, _)) in regs.iter().enumerate() {
        if *m != method && *m != "ALL" {
            continue;
        }
        let segs = match &ok[i] {
            Some(s) => s,
            None => continue,
        };
        if let Some(vars) = matches(segs, &w.segs) {
            rt::check(n < seen.len() && seen[n].id == i as u32, "C07 every handler whose method and pattern match runs, in order of registration");
            check_seen(&seen[n], &vars);
            n += 1;
        }
    }
    rt::check(seen.len() == n, "C07 no handler runs whose method or pattern does not match");
    rt::check(r.status == if n > 0 { 200 } else { 404 }, "C07 404 if no handler matches");
    rt::cover(if n > 0 { "match" } else { "no match" });
}

fn sym(n: usize, set: &[u8], name: &str) -> Vec<u8> {
    let v = rt::vec(n, name);
    for b in &v {
        let mut ok = false;
        for s in set {
            ok |= *s == *b;
        }
        rt::assume(ok);
    }
    v
}

/// any pattern of up to n, any path of m characters
#[no_mangle]
pub extern "C" fn c07_pattern(n: u64, m: u64) {
    let p = sym(n as usize, b"/:ab.", "pattern");
    let p = String::from_utf8(p).unwrap();
    let t = sym(m as usize, b"/a:b.", "path");
    go(&[("GET", &p)], "GET", &t);
}
const SET: &[(&str, &str)] = &[
    ("GET", "/:a/b"),
    ("GET", "/a/:b"),
    ("ALL", "/a/b"),
    ("GET", "/"),
    ("GET", "/:x"),
    ("ALL", ":x/:y/:x"),
    ("GET", "/a/b"),
    ("POST", "/a/b"),
    ("GET", "a/:b/"),
    ("ALL", "/:a/:b"),
    ("GET", "/a/./:/../b"),
    ("GET", "/a/:b/c"),
    ("ALL", ":"),
    ("GET", "/a"),
];
/// overlapping patterns, any path of n characters
#[no_mangle]
pub extern "C" fn c07_overlap(n: u64, _: u64) {
    rt::hash_mode(rt::choice(4, "hash") as u64);
    let n = rt::choice(n + 1, "n");
    go(SET, "GET", &sym(n, b"/abc", "path"));
}
/// every method against every kind of registration
#[no_mangle]
pub extern "C" fn c07_methods(_: u64, _: u64) {
    const M: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "ALL"];
    let a = M[rt::choice(7, "a")];
    let b = M[rt::choice(7, "b")];
    let m = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT"][rt::choice(9, "m")];
    go(&[(a, "/x"), (b, "/:v")], m, if rt::choice(2, "path") == 0 { b"/x" } else { b"/y?/x" });
}
/// a variable has any text of n bytes
#[no_mangle]
pub extern "C" fn c07_text(n: u64, _: u64) {
    let mut t = b"/u/".to_vec();
    t.extend_from_slice(&rt::vec(n as usize, "text"));
    t.extend_from_slice(b"/e");
    go(&[("GET", "/u/:name/e"), ("ALL", "/:1/:2/:3"), ("GET", "/u/\u{e9}/e")], "GET", &t);
}
/// deep paths
#[no_mangle]
pub extern "C" fn c07_deep(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [1usize, 2, 7, 8, 20, 60, 300, 1100][rt::choice(8, "n")];
    let v = rt::choice(3, "vars");
    let mut pat = String::new();
    let mut path = Vec::new();
    for i in 0..n {
        if (i + v) % 3 == 0 {
            pat.push_str(&format!("/:v{}", i));
        } else {
            pat.push_str(&format!("/seg{}", i));
        }
        path.extend_from_slice(format!("/seg{}", i).as_bytes());
    }
    let at = [4, path.len() / 2, path.len() - 1][rt::choice(3, "at")];
    path[at] = one_of(b"0123gX/", "c");
    go(&[("GET", &pat), ("ALL", &pat), ("GET", "/:one"), ("GET", &pat[..pat.len() - 1])], "GET", &path);
}
/// many patterns
#[no_mangle]
pub extern "C" fn c07_many(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    rt::hash_mode(rt::choice(3, "hash") as u64);
    let n = [10usize, 29, 60, 300, 1100][rt::choice(5, "n")];
    let pats: Vec<String> = (0..n)
        .map(|i| match i % 4 {
            0 => format!("/p{}", i / 4),
            1 => format!("/p{}/:v{}", i / 8, i % 5),
            2 => format!("/:k{}/x", i),
            _ => format!("/q/p{}", i / 12),
        })
        .collect();
    let regs: Vec<(&str, &str)> = pats.iter().enumerate().map(|(i, p)| (if i % 3 == 0 { "ALL" } else { "GET" }, p.as_str())).collect();
    let mut t = b"/p0".to_vec();
    t[1] = one_of(b"pq", "c");
    t[2] = one_of(b"0123456789/", "d");
    if rt::choice(2, "more") == 1 {
        t.extend_from_slice(b"/x");
        let l = t.len();
        t[l - 1] = one_of(b"xyp", "e");
    }
    go(&regs, "GET", &t);
}
/// long segments and variables
#[no_mangle]
pub extern "C" fn c07_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [63usize, 64, 127, 128, 255, 256, 257, 1024, 4096][rt::choice(9, "n")];
    let s = "s".repeat(n);
    let pat = ["/a/:", &s, "/", &s].concat();
    let pat2 = ["/", &s, "/:v"].concat();
    let mut path = match rt::choice(3, "shape") {
        0 => ["/a/", &s, "/", &s],
        1 => ["/", &s, "/", &s],
        _ => ["/a", &s, "/", &s],
    }
    .concat()
    .into_bytes();
    let l = path.len();
    let at = [2, l / 2, l - 1][rt::choice(3, "at")];
    path[at] = one_of(b"sa/:", "c");
    go(&[("GET", &pat), ("ALL", &pat2), ("GET", "/:x/:y")], "GET", &path);
}
/// any words as segments of the path, and of a pattern
#[no_mangle]
pub extern "C" fn c07_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let path = [b"/", &a[..], b"/", &b].concat();
    let s = String::from_utf8(path.clone()).unwrap();
    let pat = match rt::choice(5, "pattern") {
        0 => "/:one/:two".to_string(),
        1 => s.clone(),
        2 => ["/:x/", &s[a.len() + 2..]].concat(),
        3 => [&s[..a.len() + 2], ":y"].concat(),
        _ => ["/:", &s[1..a.len() + 1], "/:", &s[a.len() + 2..], "z"].concat(),
    };
    go(&[("GET", &pat), ("GET", "/:only"), ("ALL", "/a/:b/c")], "GET", &path);
}
/// patterns and paths that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c07_known(_: u64, _: u64) {
    let pat = known_path();
    go(&[("GET", pat), ("ALL", "/:x"), ("GET", "/a/:y")], "GET", known_path().as_bytes());
}
