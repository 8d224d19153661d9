//! C06: paths are normalised and can not leave the root.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use std::sync::Arc;

fn eq(a: &[String], b: &[&str]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}

fn app() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        record(0, req);
        let p = &req.request_line.path;
        for c in p.chunks() {
            rt::check(!c.is_empty() && c != "." && c != ".." && !c.contains('/'), "C06 no segment of a request path is empty, `.`, `..` or contains a slash");
        }
        // as a path of the file system it stays below where it is joined
        let mut n = 0;
        for c in p.to_std_pathbuf().components() {
            rt::check(matches!(c, std::path::Component::Normal(_)), "C06 the file path of a request has only plain components");
            n += 1;
        }
        rt::check(n == p.chunks().len(), "C06 the file path of a request has its segments");
        let s: std::path::PathBuf = p.clone().into();
        rt::check(s == p.to_std_pathbuf(), "C06 both conversions to a file path agree");
        let mut t = String::new();
        for c in p.chunks() {
            t.push_str(c);
            t.push('/');
        }
        rt::check(p.to_string() == t, "C06 a path is displayed as its segments");
        res.send("ok");
    }))
    .unwrap();
    Arc::new(app)
}

fn go(path: &[u8]) {
    let mut inp = b"GET ".to_vec();
    inp.extend_from_slice(path);
    inp.extend_from_slice(b" HTTP/1.0\r\n\r\n");
    reset();
    let r = expect_response(&serve_bytes(&app(), &inp));
    rt::note(r.status as u64, "status");
    let seen = SEEN.get();
    match want(&inp) {
        None => {
            rt::check(r.status == 400 && seen.is_empty(), "C06 a path that climbs above the root is answered with 400");
            rt::cover("rejected");
        }
        Some(w) => {
            rt::check(r.status == 200 && seen.len() == 1, "C06 any other path is accepted");
            rt::check(eq(&seen[0].chunks, &w.segs), "C06 the segments are those of the path, `.` dropped and `..` resolved");
            for c in &seen[0].chunks {
                rt::note_bytes(c.as_bytes(), "chunk");
            }
            rt::cover("accepted");
        }
    }
}

/// any path of n characters out of slash, dot and letters
#[no_mangle]
pub extern "C" fn c06_dots(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut p = Vec::new();
    for b in rt::vec(n, "p") {
        rt::assume(b == b'/' || b == b'.' || b == b'a');
        p.push(b);
    }
    go(&p);
}
/// any path of n bytes
#[no_mangle]
pub extern "C" fn c06_bytes(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut p = b"/".to_vec();
    p.extend_from_slice(&rt::vec(n, "p"));
    go(&p);
}
/// any n bytes replaced in a longer path
#[no_mangle]
pub extern "C" fn c06_window(n: u64, _: u64) {
    let mut p = b"/ab/../c/./..d/e//...".to_vec();
    window(&mut p, n as usize);
    for b in &p {
        rt::assume(*b < 0x80);
    }
    go(&p);
}
/// many segments up and down
#[no_mangle]
pub extern "C" fn c06_deep(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let down = [0, 1, 5, 40, 200, 1100][rt::choice(6, "down")];
    let up = [0, 1, 5, 6, 39, 40, 41, 200, 201, 1100, 1101][rt::choice(11, "up")];
    let down2 = [0, 1, 30][rt::choice(3, "down2")];
    let c = one_of(b"a./", "c");
    let mut p = Vec::new();
    for i in 0..down {
        p.extend_from_slice(format!("/s{}", i).as_bytes());
    }
    for _ in 0..up {
        p.extend_from_slice(b"/..");
    }
    for _ in 0..down2 {
        p.extend_from_slice(b"/.x");
        p.push(c);
    }
    p.push(b'/');
    go(&p);
}
/// the operations on paths: p and q any paths of n and m characters
#[no_mangle]
pub extern "C" fn c06_algebra(n: u64, m: u64) {
    let mut t = [String::new(), String::new()];
    for (i, l) in [n, m].iter().enumerate() {
        for b in rt::vec(*l as usize, "p") {
            rt::assume(b == b'/' || b == b':' || b == b'a' || b == b'b');
            t[i].push(b as char);
        }
    }
    let (a, b) = (segments(&t[0]).unwrap(), segments(&t[1]).unwrap());
    static P: Global<[String; 2]> = Global::new([String::new(), String::new()]);
    *P.get() = t.clone();
    static S: Global<(Vec<String>, Vec<String>, Vec<String>, bool, Option<Vec<String>>, Option<Vec<String>>, Option<Vec<(String, String)>>, bool)> =
        Global::new((Vec::new(), Vec::new(), Vec::new(), false, None, None, None, false));
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let s = S.get();
        let mut p = req.request_line.path.clone();
        let mut q = p.clone();
        p.clone_from(&P.get()[0].parse().unwrap());
        q.clone_from(&P.get()[1].parse().unwrap());
        s.0 = p.chunks().clone();
        s.1 = p.concat(&q).chunks().clone();
        s.2 = p.concat_owned(q.clone()).chunks().clone();
        s.3 = p.check_starts_with(&q);
        s.4 = p.subtract(&q).map(|x| x.chunks().clone());
        s.5 = p.concat(&q).subtract(&p).map(|x| x.chunks().clone());
        s.6 = p.check_matches(&q).map(|m| m.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect());
        s.7 = p.to_string().parse().map_or(false, |x| p == x);
        res.send("x");
    }))
    .unwrap();
    serve_bytes(&Arc::new(app), b"GET / HTTP/1.0\r\n\r\n");
    let s = S.get();
    let cat: Vec<&str> = a.iter().chain(b.iter()).cloned().collect();
    rt::check(eq(&s.0, &a), "C06 a path parses into its segments");
    rt::check(eq(&s.1, &cat) && eq(&s.2, &cat), "C06 concatenation appends the segments");
    let prefix = a.len() >= b.len() && a[..b.len()] == b[..];
    rt::check(s.3 == prefix, "C06 a path starts with its prefixes and nothing else");
    rt::check(
        match &s.4 {
            Some(x) => prefix && eq(x, &a[b.len()..]),
            None => !prefix,
        },
        "C06 subtracting a prefix leaves the rest",
    );
    rt::check(s.5.as_ref().map_or(false, |x| eq(x, &b)), "C06 subtraction undoes concatenation");
    rt::check(s.7, "C06 a displayed path reads back as the same path");
    let fits = a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.starts_with(':') || x == y);
    rt::check(s.6.is_some() == fits, "C06 a pattern matches the paths it describes");
    if let Some(v) = &s.6 {
        let mut names = 0;
        for (i, x) in a.iter().enumerate() {
            if !x.starts_with(':') || a[i + 1..].contains(x) {
                continue;
            }
            names += 1;
            rt::check(v.iter().any(|(k, y)| k == &x[1..] && y == b[i]), "C06 the variables of a match are the segments in their places");
        }
        rt::check(v.len() == names, "C06 a match has no other variables");
        rt::cover("match");
    }
    if prefix {
        rt::cover("prefix");
    }
}
/// long segments
#[no_mangle]
pub extern "C" fn c06_long(_: u64, _: u64) {
    rt::budget(1_000_000_000);
    let n = [100usize, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000][rt::choice(10, "n")];
    let mut p = b"/".to_vec();
    match rt::choice(4, "shape") {
        0 => p.resize(n, b'a'),
        1 => p.resize(n, b'.'),
        2 => p.resize(n, b'/'),
        _ => {
            while p.len() < n {
                p.extend_from_slice(b"./");
            }
        }
    }
    p.push(one_of(b"./x", "c"));
    p.extend_from_slice(b"b/../");
    p.push(one_of(b"./x", "d"));
    p.push(b'.');
    go(&p);
}
/// any word as a segment
#[no_mangle]
pub extern "C" fn c06_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let sep = [&b"/"[..], b".", b"/../", b"%", b"/./.", b":"][rt::choice(6, "sep")];
    go(&[b"/", &a[..], sep, &b].concat());
}
/// pieces that are, or look like, dots and slashes in some encoding
#[no_mangle]
pub extern "C" fn c06_pieces(n: u64, _: u64) {
    let all = ["%2e", "%2E", "%2f", "%5c", "\\", "..", ".", "/", "a", "%00", "%25", ";", "%252e", "~", "\u{ff0e}", "%c0%ae"];
    let mut p = b"/".to_vec();
    for _ in 0..n {
        p.extend_from_slice(all[rt::choice(all.len() as u64, "piece")].as_bytes());
    }
    if rt::choice(2, "end") == 1 {
        p.extend_from_slice(b"/x");
    }
    go(&p);
}
/// paths that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c06_known(_: u64, _: u64) {
    go([known_path(), known_path()].concat().as_bytes());
}
