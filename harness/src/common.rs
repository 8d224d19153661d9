//! Shared parts of the harnesses: an in-memory connection, a recorder for what
//! handlers are shown, and a strict reader of the bytes the server wrote.
#![allow(dead_code)]
use crate::rt;
use octane::prelude::*;
use octane::request::{MatchedRequest, RequestMethod};
#[cfg(feature = "full")]
use octane::QueryValue;
#[cfg(not(feature = "full"))]
type QueryValue = ();
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Single-threaded global cell (the harness runs on one thread).
pub struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(t: T) -> Self {
        Global(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

// ---------------------------------------------------------------- clock
pub static NOW: Global<(i64, i64)> = Global::new((1_605_679_200, 0)); // Wed, 18 Nov 2020 06:00:00 GMT

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
/// the seconds the peers took; only the clocks that measure durations see them
pub static PASSED: Global<i64> = Global::new(0);
/// the clocks the code under test sees
#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let n = NOW.get();
    unsafe {
        (*t).sec = if id == 0 || id == 5 { n.0 } else { n.0 + *PASSED.get() };
        (*t).nsec = n.1;
    }
    0
}

// ---------------------------------------------------------------- connection
/// What the next poll of a stream does.
#[derive(Clone, Copy, PartialEq)]
pub enum Step {
    /// transfer at most this many bytes
    Upto(usize),
    Pending,
    Fail,
}

pub struct Conn {
    pub input: Vec<u8>,
    pub pos: usize,
    pub reads: Vec<Step>, // consumed front to back, then unlimited
    pub ri: usize,
    pub out: Vec<u8>,
    pub writes: Vec<Step>,
    pub wi: usize,
    pub read_failed: bool,
    pub write_failed: bool,
    /// how reading and writing fail, when they do
    pub error: io::ErrorKind,
    /// the last step goes on for ever
    pub forever: bool,
    /// how often nothing could be read or written any more
    pub vain: usize,
}

impl Conn {
    fn vain(&mut self) {
        self.vain += 1;
        rt::check(self.vain < 100, "serving a connection that is broken goes on for ever");
    }
    pub fn new(input: Vec<u8>) -> Self {
        Conn { input, pos: 0, reads: vec![], ri: 0, out: Vec::with_capacity(2048), writes: vec![], wi: 0, read_failed: false, write_failed: false, error: io::ErrorKind::ConnectionReset, forever: false, vain: 0 }
    }
}

impl AsyncRead for &mut Conn {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let c: &mut Conn = &mut **self;
        let step = if c.ri < c.reads.len() {
            c.ri += 1;
            c.reads[c.ri - 1]
        } else if c.forever && c.reads.len() > 0 {
            c.reads[c.reads.len() - 1]
        } else {
            Step::Upto(usize::MAX)
        };
        let lim = match step {
            Step::Pending => {
                *PASSED.get() += 100_000;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Step::Fail => {
                c.read_failed = true;
                c.vain();
                return Poll::Ready(Err(c.error.into()));
            }
            Step::Upto(n) => n,
        };
        let n = lim.min(buf.remaining()).min(c.input.len() - c.pos);
        if n == 0 && buf.remaining() > 0 {
            c.vain();
        }
        buf.put_slice(&c.input[c.pos..c.pos + n]);
        c.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for &mut Conn {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let c: &mut Conn = &mut **self;
        let step = if c.wi < c.writes.len() {
            c.wi += 1;
            c.writes[c.wi - 1]
        } else if c.forever && c.writes.len() > 0 {
            c.writes[c.writes.len() - 1]
        } else {
            Step::Upto(usize::MAX)
        };
        let lim = match step {
            Step::Pending => {
                *PASSED.get() += 100_000;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Step::Fail => {
                c.write_failed = true;
                c.vain();
                return Poll::Ready(Err(c.error.into()));
            }
            Step::Upto(n) => n,
        };
        let n = lim.min(b.len());
        if n == 0 && b.len() > 0 {
            c.vain();
        }
        c.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Serve one connection to completion; the future must become ready.
pub fn serve(app: &Arc<Octane>, conn: &mut Conn) -> bool {
    let bound = 64 + conn.reads.len() + conn.writes.len();
    let mut fut = Box::pin(octane::verif::serve(&mut *conn, app.clone()));
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..bound {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            return r.is_ok();
        }
    }
    rt::check(false, "serving the connection never finishes");
    false
}

pub fn serve_bytes(app: &Arc<Octane>, input: &[u8]) -> Vec<u8> {
    let mut c = Conn::new(input.to_vec());
    serve(app, &mut c);
    std::mem::take(&mut c.out)
}

// ---------------------------------------------------------------- recorder
#[derive(Clone)]
pub struct Seen {
    pub id: u32,
    pub method: RequestMethod,
    pub chunks: Vec<String>,
    pub version: String,
    pub headers: HashMap<String, String>,
    pub raw: Vec<(String, String)>,
    pub cookies: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub vars: Vec<(String, String)>,
    pub query: Option<HashMap<String, String>>,
    pub ext: Option<HashMap<String, QueryValue>>,
}
pub static SEEN: Global<Vec<Seen>> = Global::new(Vec::new());
/// ids of the handlers in the order they ran
pub static RAN: Global<Vec<u32>> = Global::new(Vec::new());

pub fn reset() {
    SEEN.get().clear();
    RAN.get().clear();
}

/// method, path, version, headers, body
pub fn observe(id: u32, req: &MatchedRequest) -> Seen {
    Seen {
        id,
        method: req.request_line.method,
        chunks: req.request_line.path.chunks().clone(),
        version: req.request_line.version.to_string(),
        headers: req.headers.parsed.clone(),
        #[cfg(feature = "full")]
        raw: req.headers.raw.iter().map(|h| (h.name(), h.value())).collect(),
        #[cfg(feature = "full")]
        cookies: req.cookies.iter().map(|c| (c.name().to_string(), c.value().to_string())).collect(),
        #[cfg(not(feature = "full"))]
        raw: vec![],
        #[cfg(not(feature = "full"))]
        cookies: vec![],
        body: req.body.to_vec(),
        #[cfg(feature = "full")]
        vars: req.vars.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        #[cfg(not(feature = "full"))]
        vars: vec![],
        query: None,
        ext: None,
    }
}
pub fn record(id: u32, req: &MatchedRequest) {
    SEEN.get().push(observe(id, req));
}

// ---------------------------------------------------------------- response
pub struct Resp {
    pub status: u32,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    /// the value of a header that occurs exactly once
    pub fn one(&self, name: &str) -> Option<&str> {
        let mut it = self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name));
        match (it.next(), it.next()) {
            (Some(h), None) => Some(&h.1),
            _ => None,
        }
    }
    pub fn count(&self, name: &str) -> usize {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).count()
    }
}

fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= h.len() {
        if &h[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn is_token(b: u8) -> bool {
    matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~')
        | b.is_ascii_digit() | b.is_ascii_alphabetic()
}

pub fn decimal(s: &str) -> Option<usize> {
    if s.is_empty() || s.len() > 15 {
        return None;
    }
    let mut n = 0usize;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (b - b'0') as usize;
    }
    Some(n)
}

/// Exactly one well-formed response: status line, header lines, blank line,
/// and a body of exactly Content-Length bytes.
pub fn parse_response(out: &[u8]) -> Result<Resp, &'static str> {
    parse_head(out, true)
}
/// `framed`: require Content-Length to equal the number of bytes after the head
pub fn parse_head(out: &[u8], framed: bool) -> Result<Resp, &'static str> {
    let end = find(out, b"\r\n\r\n", 0).ok_or("response has no end of headers")?;
    let head = &out[..end + 2];
    let mut pos = find(head, b"\r\n", 0).unwrap();
    let line = &head[..pos];
    if line.len() < 13 || &line[..5] != b"HTTP/" || !line[5].is_ascii_digit() || line[6] != b'.' || !line[7].is_ascii_digit() || line[8] != b' ' || line[12] != b' ' {
        return Err("response status line is malformed");
    }
    let mut status = 0u32;
    for b in &line[9..12] {
        if !b.is_ascii_digit() {
            return Err("response status code is not three digits");
        }
        status = status * 10 + (*b - b'0') as u32;
    }
    let reason = std::str::from_utf8(&line[13..]).map_err(|_| "reason phrase is not text")?.to_string();
    pos += 2;
    let mut headers = Vec::new();
    while pos < head.len() {
        let e = find(head, b"\r\n", pos).unwrap();
        let l = &head[pos..e];
        let c = l.iter().position(|b| *b == b':').ok_or("response header line without a colon")?;
        if c == 0 || !l[..c].iter().all(|b| is_token(*b)) {
            return Err("response header name is not a token");
        }
        let v = &l[c + 1..];
        if v.iter().any(|b| *b == b'\r' || *b == b'\n') {
            return Err("response header value has a line break");
        }
        if v.first() != Some(&b' ') {
            return Err("response header without the space after the colon");
        }
        headers.push((
            std::str::from_utf8(&l[..c]).unwrap().to_string(),
            std::str::from_utf8(&v[1..]).map_err(|_| "response header value is not text")?.to_string(),
        ));
        pos = e + 2;
    }
    let r = Resp { status, reason, headers, body: out[end + 4..].to_vec() };
    if framed {
        let cl = r.one("content-length").ok_or("not exactly one Content-Length in the response")?;
        if decimal(cl) != Some(r.body.len()) {
            return Err("the response body is not Content-Length bytes");
        }
    }
    Ok(r)
}

pub fn expect_response(out: &[u8]) -> Resp {
    match parse_response(out) {
        Ok(r) => r,
        Err(e) => {
            rt::dump("output", out);
            rt::check(false, e);
            unreachable!()
        }
    }
}

// ---------------------------------------------------------------- what a request means
/// A request as the sender meant it, read off the bytes it sent.
pub struct Want<'a> {
    pub method: &'a str,
    pub target: &'a str,
    pub path: &'a str,
    pub query: &'a str,
    pub segs: Vec<&'a str>,
    pub version: &'a str,
    pub headers: Vec<(&'a str, &'a str)>,
    /// the bytes after the head
    pub rest: &'a [u8],
}
impl<'a> Want<'a> {
    pub fn known_version(&self) -> bool {
        matches!(self.version, "1.1" | "1.0" | "0.9" | "2.0")
    }
    /// the value of a header, occurrences joined with ", "
    pub fn header(&self, lower: &str) -> Option<String> {
        let mut r: Option<String> = None;
        for (n, v) in &self.headers {
            if n.eq_ignore_ascii_case(lower) {
                r = Some(match r {
                    None => v.to_string(),
                    Some(mut s) => {
                        s.push_str(", ");
                        s.push_str(v);
                        s
                    }
                });
            }
        }
        r
    }
}

pub fn method_of(m: &str) -> RequestMethod {
    use RequestMethod as M;
    match m {
        "OPTIONS" => M::Options,
        "GET" => M::Get,
        "HEAD" => M::Head,
        "POST" => M::Post,
        "PUT" => M::Put,
        "DELETE" => M::Delete,
        "TRACE" => M::Trace,
        "CONNECT" => M::Connect,
        "PATCH" => M::Patch,
        _ => M::None,
    }
}

/// segments of a path, None if it climbs above the root
pub fn segments(p: &str) -> Option<Vec<&str>> {
    let mut v = Vec::new();
    let b = p.as_bytes();
    let mut i = 0;
    loop {
        let mut j = i;
        while j < b.len() && b[j] != b'/' {
            j += 1;
        }
        match &p[i..j] {
            "" | "." => (),
            ".." => {
                v.pop()?;
            }
            s => v.push(s),
        }
        if j >= b.len() {
            return Some(v);
        }
        i = j + 1;
    }
}

/// What the bytes of one connection ask for; None: not a request.
pub fn want(input: &[u8]) -> Option<Want<'_>> {
    let end = find(input, b"\r\n\r\n", 0)?;
    let head = std::str::from_utf8(&input[..end]).ok()?;
    let rest = &input[end + 4..];
    let hb = head.as_bytes();
    let le = find(hb, b"\r\n", 0).unwrap_or(hb.len());
    let line = &head[..le];
    let mut w = [0usize; 2];
    let mut n = 0;
    for (i, b) in line.bytes().enumerate() {
        if b == b' ' {
            if n == 2 {
                return None;
            }
            w[n] = i;
            n += 1;
        }
    }
    if n != 2 {
        return None;
    }
    let (method, target, ver) = (&line[..w[0]], &line[w[0] + 1..w[1]], &line[w[1] + 1..]);
    let (path, query) = match target.bytes().position(|b| b == b'?') {
        Some(i) => (&target[..i], &target[i + 1..]),
        None => (target, ""),
    };
    let segs = segments(path)?;
    if ver.len() < 5 || &ver.as_bytes()[..5] != b"HTTP/" {
        return None;
    }
    let mut headers = Vec::new();
    let mut pos = le + 2;
    while pos < hb.len() {
        let e = find(hb, b"\r\n", pos).unwrap_or(hb.len());
        let l = &head[pos..e];
        let c = l.bytes().position(|b| b == b':')?;
        if c == 0 || !l.bytes().take(c).all(is_token) {
            return None;
        }
        let mut vs = c + 1;
        let lb = l.as_bytes();
        while vs < lb.len() && (lb[vs] == b' ' || lb[vs] == b'\t') {
            vs += 1;
        }
        let mut ve = lb.len();
        while ve > vs && (lb[ve - 1] == b' ' || lb[ve - 1] == b'\t') {
            ve -= 1;
        }
        if lb[vs..ve].iter().any(|b| *b <= 0x1f || *b == 0x7f) {
            return None;
        }
        headers.push((&l[..c], &l[vs..ve]));
        pos = e + 2;
    }
    Some(Want { method, target, path, query, segs, version: &ver[5..], headers, rest })
}

/// Replace `n` bytes of `t` at a solver-chosen place by anything.
pub fn window(t: &mut [u8], n: usize) {
    let at = rt::choice((t.len() - n + 1) as u64, "at");
    rt::bytes(&mut t[at..at + n], "w");
}
/// Insert `n` arbitrary bytes at a solver-chosen place of t[from..=to].
pub fn insertion(t: &[u8], from: usize, to: usize, n: usize) -> Vec<u8> {
    let at = from + rt::choice((to - from + 1) as u64, "at");
    let mut v = t[..at].to_vec();
    v.extend_from_slice(&rt::vec(n, "w"));
    v.extend_from_slice(&t[at..]);
    v
}
/// n arbitrary bytes that are text without line breaks
pub fn text(n: usize, name: &str) -> String {
    let v = rt::vec(n, name);
    for b in &v {
        rt::assume(*b >= 0x20 && *b < 0x7f);
    }
    String::from_utf8(v).unwrap()
}
/// any word of n letters, digits and dashes
pub fn word(n: usize, name: &str) -> Vec<u8> {
    let v = rt::vec(n, name);
    for b in &v {
        rt::assume(b.is_ascii_alphanumeric() | (*b == b'-') | (*b == b'_'));
    }
    v
}
/// two words: one of 1 to n, the other one short, or both longer
pub fn words(n: u64, name: &str) -> [Vec<u8>; 2] {
    let l = rt::choice(n, "length") + 1;
    let (a, b) = [(l, 1), (1, l), (l, 6)][rt::choice(3, "which")];
    [word(a, name), word(b, name)]
}
/// one solver-chosen byte out of a set
pub fn one_of(set: &[u8], name: &str) -> u8 {
    let b = rt::vec(1, name)[0];
    let mut ok = false;
    for s in set {
        ok |= *s == b;
    }
    rt::assume(ok);
    b
}

/// response equality up to the order of header lines
pub fn same_response(a: &Resp, b: &Resp) -> bool {
    a.status == b.status && a.reason == b.reason && a.body == b.body && same_headers(&a.headers, &b.headers)
}
pub fn same_headers(a: &[(String, String)], b: &[(String, String)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    'o: for x in a {
        for (i, y) in b.iter().enumerate() {
            if !used[i] && x == y {
                used[i] = true;
                continue 'o;
            }
        }
        return false;
    }
    true
}
/// the standard page of an error response, without anything a handler set
pub fn is_error_page(r: &Resp, code: u32) -> bool {
    r.status == code
        && r.headers.len() == 3
        && r.one("content-type").map_or(false, |v| v.starts_with("text/html"))
        && r.one("date").is_some()
        && !r.body.is_empty()
}

/// header fields that have a meaning somewhere
pub const FIELDS: &[&str] = &[
    "Host", "Connection", "Keep-Alive", "Transfer-Encoding", "TE", "Trailer", "Expect", "Upgrade", "HTTP2-Settings", "Content-Type", "Content-Encoding", "Content-MD5", "Accept",
    "Accept-Encoding", "Accept-Charset", "Accept-Language", "Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "Cookie", "Authorization",
    "Proxy-Authorization", "Proxy-Connection", "Origin", "Referer", "User-Agent", "From", "Via", "Forwarded", "X-Forwarded-For", "X-Forwarded-Host", "X-Forwarded-Proto",
    "X-HTTP-Method-Override", "X-Original-URL", "X-Requested-With", "Cache-Control", "Pragma", "Date", "DNT", "Max-Forwards", "Upgrade-Insecure-Requests", "Set-Cookie", "Status",
];
/// values that have a meaning in one of them
pub const VALUES: &[&str] = &[
    "", "close", "keep-alive", "Keep-Alive, Upgrade", "upgrade", "websocket", "h2c", "chunked", "gzip, chunked", "identity", "gzip, deflate, br", "100-continue", "trailers", "*", "*/*", "text/html",
    "application/json; charset=utf-8", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded", "utf-8", "en-US,en;q=0.5", "bytes=0-1", "bytes=-1", "bytes=5-", "\"tag\"", "W/\"tag\"",
    "Thu, 01 Jan 1970 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 GMT", "a=b", "a=b; c=d", "a=", "=", ";", "Basic dTpw", "Bearer x", "null", "http://example.org/", "localhost", "localhost:", ":80",
    "127.0.0.1:8080", "[::1]", "[::1]:80", "a b", "a, b", "a,,b", "for=1.2.3.4;proto=https", "DELETE", "POST", "/admin", "XMLHttpRequest", "no-cache", "max-age=0", "0", "1", "-1", "404 Not Found",
    "timeout=5, max=100", "timeout=", "max", "timeout=-1", "Mozilla/5.0 (X11; Linux x86_64)", "curl/7.68.0", "\u{e9}\u{20ac}", "%41", "../..", "x\"y",
];
/// any field with a value that has a meaning, or with a word and a number as value
pub fn known_field(n: usize) -> (&'static str, Vec<u8>) {
    let f = FIELDS[rt::choice(FIELDS.len() as u64, "field")];
    let k = rt::choice(VALUES.len() as u64 + 6, "value");
    if k < VALUES.len() {
        return (f, VALUES[k].as_bytes().to_vec());
    }
    let mut v = word(2, "w");
    v.extend_from_slice([&b":"[..], b"=", b", ", b"; q=", b"/", b" "][k - VALUES.len()]);
    let d = rt::vec(n, "d");
    for b in &d {
        rt::assume(b.is_ascii_digit());
    }
    v.extend_from_slice(&d);
    (f, v)
}
/// a request with that field
pub fn known_request(n: usize) -> Vec<u8> {
    let (f, v) = known_field(n);
    let mut t = [&b"GET /a HTTP/1.1\r\nHost: h\r\n"[..], b"POST /a HTTP/1.0\r\nContent-Length: 2\r\n"][rt::choice(2, "request")].to_vec();
    let post = t[0] == b'P';
    t.extend_from_slice(f.as_bytes());
    t.extend_from_slice(b": ");
    t.extend_from_slice(&v);
    t.extend_from_slice(b"\r\n\r\n");
    if post {
        t.extend_from_slice(b"xy");
    }
    t
}
/// paths that have a meaning somewhere
pub const PATHS: &[&str] = &[
    "/", "//", "/index.html", "/index.htm", "/index", "/default.html", "/favicon.ico", "/robots.txt", "/health", "/healthz", "/status", "/metrics", "/server-status", "/ping", "/.well-known/security.txt",
    "/.well-known", "/.env", "/.git/config", "/.htaccess", "/admin", "/login", "/static/app.js", "/public/style.css", "/assets", "/a/index.html", "/a.html", "/a.json", "/a;v=1", "/a,b", "/a+b", "/a%20b",
    "/a%2Fb", "/%61", "/A", "/a/", "/a//b", "/a/./b", "/*", "/a/*", "/**", "/:", "/:id", "/a/:id", "/{id}", "/<id>", "/a:b", "/a@b", "/a=b", "/a&b", "/a#b", "/a'b", "/a\"b", "/~user", "/a!b", "/$", "/(a)",
    "/[a]", "/a|b", "/a\\b", "/^a", "/a$", "/.*", "/a.b.c", "/...", "/a...", "/C:/x", "/etc/passwd", "/http://h/x", "/\u{e9}", "/\u{20ac}/x", "/0", "/00", "/-1", "/1.0", "/null", "/undefined", "/true", "/all",
    "/get", "/GET", "/HTTP/1.1", "/a/b/c/d/e/f/g/h",
];
pub fn known_path() -> &'static str {
    PATHS[rt::choice(PATHS.len() as u64, "path")]
}
/// names and values of queries and cookies that have a meaning somewhere
pub const NAMES: &[&str] = &[
    "__proto__", "constructor", "prototype", "length", "_method", "callback", "utf8", "a.b", "a-b", "a_b", "0", "1", "-1", "$where", "$Version", "$Path", "toString", "null", "true", "undefined", "path", "Path",
    "expires", "domain", "secure", "HttpOnly", "max-age", "SameSite", "__Host-id", "__Secure-id", "session_id", "PHPSESSID", "_ga", "csrftoken", "A", "a", "aa", "a%5B%5D", "a%5Bb%5D", "%", "%4", "%41", "%zz", "%00", "%25",
    "%2B", "%26", "%3D", "%c3%a9", "%ff", "+", "a+b", "!", "*", "'", "~", "|", "^", "#", "`", "\u{e9}", "\u{20ac}uro", "a\u{1f600}", "\u{ff1d}",
];
pub fn known_name(name: &str) -> &'static str {
    NAMES[rt::choice(NAMES.len() as u64, name)]
}
/// file names that have a meaning somewhere
pub const FILES: &[&str] = &[
    "index.html", "INDEX.HTML", "index", ".html", ".env", ".htaccess", ".tar.gz", "a.tar.gz", "a.min.js", "a.js.map", "a.d.ts", "a.html~", "a.html.bak", "a.html.", "a..html", "a.b/c", "a.html/", "./a.css", "../a.css", "/etc/passwd",
    "C:\\a.txt", "a b.txt", "a;b.txt", "a,b.txt", "a=b.png", "a%2e.txt", "a.%68tml", "a?b.txt", "a#b.txt", "a'b.txt", "~a.txt", "-", "--.txt", "...", "CON", "nul.txt", "a.htmlx", "a.xhtml", "a.htm", "a.jpg.exe", "a.m4a", "a.mp4",
    "a.wasm", "a.woff3", "a.", "a.7z", "a.7Z", "LICENSE", "Makefile", "a.JPEG", "a.TiFf", "\u{e9}t\u{e9}.png", "\u{65e5}\u{672c}.PDF", "a.\u{e9}", "\u{1f600}.gif", "na\u{ef}ve file.txt",
];

/// lengths around those of buffers and of limits that are in use somewhere
pub const LENGTHS: &[usize] = &[15, 16, 17, 31, 32, 40, 63, 64, 65, 72, 78, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 998, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 2083, 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 8193, 16384, 16385, 20000, 32768, 65535, 65536, 70000];
/// a text of such a length with any letter, digit or sign at its begin, middle or end
pub fn long_text() -> String {
    let n = LENGTHS[rt::choice(LENGTHS.len() as u64, "length")];
    let mut t: Vec<u8> = (0..n).map(|i| b'a' + (i * 7 % 26) as u8).collect();
    let at = [0, n / 2, n - 1][rt::choice(3, "at")];
    t[at] = one_of(b"aZ0-_.", "c");
    String::from_utf8(t).unwrap()
}
