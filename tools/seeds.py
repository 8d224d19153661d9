seed('b01_keepalive_overflow', 'C01',
 'an HTTP/1.0 request with "Connection: keep-alive" and a Keep-Alive timeout of more than u64::MAX / 1000 seconds',
 'serving the connection panics (arithmetic overflow) and the client gets no response',
 [('src/http/http10.rs', '''                validator.set_keepalive(KeepAliveState::Particular(Duration::from_secs(
                    header_details.timeout().unwrap_or(0),
                )));''', '''                // the timer has a resolution of milliseconds
                validator.set_keepalive(KeepAliveState::Particular(Duration::from_millis(
                    header_details.timeout().unwrap_or(0) * 1000,
                )));''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for t in &["5", "3600", "18446744073709551615", "99999999999999999999"] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nConnection: keep-alive\\r\\nKeep-Alive: timeout={}, max=10\\r\\n\\r\\n", t).as_bytes()]));
        check(t, (r.status, r.text()), (200, "hi".to_owned()));
    }
}
''')

seed('b02_separator_resume', 'C02',
 'the empty line that ends the head arrives split between its third and fourth byte',
 'the end of the head is not found: the request is answered with 400 although the same bytes in one piece are served',
 [('octane_http/src/http1x/mod.rs', '''            data.extend_from_slice(&buf[..read]);
            if let Some(i) = find_in_slice(&data[..], b"\\r\\n\\r\\n") {''', '''            // no need to look again at what was searched already
            let searched = data.len().saturating_sub(2);
            data.extend_from_slice(&buf[..read]);
            if let Some(i) = find_in_slice(&data[searched..], b"\\r\\n\\r\\n").map(|i| i + searched) {''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    let m = b"GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n";
    for cut in &[3, 14, 16, m.len() - 4, m.len() - 3, m.len() - 2, m.len() - 1] {
        let r = parse(&talk(p, &[&m[..*cut], &m[*cut..]]));
        check(&format!("cut at {}", cut), (r.status, r.text()), (200, "hi".to_owned()));
    }
}
''')

seed('b03_short_write', 'C02',
 'the transport accepts only a part of the response head at once (a head larger than the send buffer and a client that does not read yet)',
 'the rest of the head is dropped and the client gets a broken response',
 [('src/server.rs', 'stream_async.write_all(response.0.as_bytes()).await?;', '''let head = response.0.as_bytes();
        if stream_async.write(head).await? == 0 && !head.is_empty() {
            return Err(Box::new(std::io::Error::from(std::io::ErrorKind::WriteZero)));
        }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        let v = "v".repeat(16 << 20);
        res.set("X-Large", &v).send("hi");
        Flow::Stop
    })).unwrap();
    let p = start(app);
    let r = talk(p, &[b"GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n"]);
    check("complete", r.ends_with(b"\\r\\n\\r\\nhi") && r.len() > 16 << 20, true);
}
''')

seed('b04_length_u16', 'C03',
 'a body of more than 65535 bytes',
 'the handler is shown an empty body',
 [('src/request.rs', '''            .and_then(|s| s.parse().ok())
            .unwrap_or(0);''', '''            .and_then(|s| s.parse::<u16>().ok())
            .map_or(0, usize::from);''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.post("/", route!(|req, res| { res.send(req.body.len().to_string()); Flow::Stop })).unwrap();
    let p = start(app);
    for n in &[0usize, 10, 65535, 65536, 100000] {
        let mut m = format!("POST / HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: {}\\r\\n\\r\\n", n).into_bytes();
        m.extend(vec![b'a'; *n]);
        check(&n.to_string(), parse(&talk(p, &[&m])).text(), n.to_string());
    }
}
''')

seed('b05_host_unchecked', 'C04',
 'an HTTP/1.1 request without Host that carries a Connection header',
 'the request is served instead of being answered with 400',
 [('src/http/http11.rs', '''    if validator.request.headers.get("host").is_none() {
        validator.set(StatusCode::BadRequest)
    }
    if let Some(connection_type)''', '''    if let Some(connection_type)'''),
  ('src/http/http11.rs', '''            validator.set_keepalive(KeepAliveState::Close)
        }
    }''', '''            validator.set_keepalive(KeepAliveState::Close)
        }
    } else if validator.request.headers.get("host").is_none() {
        validator.set(StatusCode::BadRequest)
    }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for (h, want) in &[("", 400), ("Host: x\\r\\n", 200), ("Host: x\\r\\nConnection: close\\r\\n", 200), ("Accept: */*\\r\\n", 400), ("Connection: close\\r\\n", 400), ("Connection: keep-alive\\r\\n", 400)] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.1\\r\\n{}\\r\\n", h).as_bytes()]));
        check(&format!("{:?}", h), r.status, *want);
    }
}
''')

seed('b06_duplicate_value', 'C05',
 'a header field sent more than once whose later value is contained in what was already collected',
 'the later value is lost: "a, ab" is shown for the values a, ab, a',
 [('src/request.rs', '''                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))''', '''                .and_modify(|v| {
                    if !v.split(", ").any(|have| have == parsed.value) {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send(req.headers.get("x-a").cloned().unwrap_or_default()); Flow::Stop })).unwrap();
    let p = start(app);
    for (h, want) in &[("X-A: 1\\r\\n", "1"), ("X-A: 1\\r\\nx-a: 2\\r\\n", "1, 2"), ("X-A: 1\\r\\nx-a: 2\\r\\nX-a: 1\\r\\n", "1, 2, 1"), ("X-A: 1\\r\\nX-A: 1\\r\\n", "1, 1")] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.1\\r\\nHost: x\\r\\n{}\\r\\n", h).as_bytes()]));
        check(&format!("{:?}", h), r.text(), want.to_string());
    }
}
''')

seed('b07_three_dots', 'C06',
 'a path with a segment of three or more dots',
 'the segment is dropped as if it were "."',
 [('src/path.rs', '''            if chunk.is_empty() || chunk == "." {
                continue;
            }
            if chunk == ".." {''', '''            if chunk == ".." {'''),
  ('src/path.rs', '''                    return Err(InvalidPathError);
                }
                continue;
            }
''', '''                    return Err(InvalidPathError);
                }
                continue;
            }
            // neither empty segments nor the current directory
            if chunk.trim_matches('.').is_empty() {
                continue;
            }
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send(req.request_line.path.join("|")); Flow::Stop })).unwrap();
    let p = start(app);
    for (t, want) in &[("/a/./b", "a|b"), ("/a//b/", "a|b"), ("/a/../b", "b"), ("/a/.../b", "a|...|b"), ("/.a./..b", ".a.|..b"), ("/a/..../../b", "a|b")] {
        check(t, get(p, t).text(), want.to_string());
    }
    check("above the root", get(p, "/a/../../b").status, 400);
}
''')

seed('b08_shadowed_variable', 'C07',
 'a route with a variable and another one that is equal except for a literal in the place of the variable, both matching the request',
 'only the handler of the literal route runs',
 [('src/path.rs', '''            if let Some(v) = cur.get(&PathChunk::CatchAll) {
                let found = v.dfs(&chunks[1..]);
                ret.extend(found);
            }''', '''            // look for variables where the literal segment leads nowhere
            if ret.is_empty() {
                if let Some(v) = cur.get(&PathChunk::CatchAll) {
                    let found = v.dfs(&chunks[1..]);
                    ret.extend(found);
                }
            }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/user/:id", route_next!(|req, res| { res.set("X-Id", req.vars.get("id").unwrap()); })).unwrap();
    app.get("/user/me", route!(|req, res| { res.send("me"); Flow::Stop })).unwrap();
    app.get("/user/:id", route!(|req, res| { res.send("user"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = get(p, "/user/7");
    check("variable", (r.text(), r.header("x-id")), ("user".to_owned(), vec!["7".to_owned()]));
    let r = get(p, "/user/me");
    check("both", (r.text(), r.header("x-id")), ("me".to_owned(), vec!["me".to_owned()]));
}
''')

seed('b09_unsorted_all', 'C08',
 'two handlers registered for all methods (add_route), the earlier one with a variable, both matching the request',
 'they run in the wrong order: literal routes first',
 [('src/router.rs', '''        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        }''', '''        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            matches.push(functions.get(&req.path));
        }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add_route("/a/:x", route_next!(|req, res| { res.set("X-First", "variable"); })).unwrap();
    app.add_route("/a/b", route!(|req, res| { let v = res.get("X-First").cloned().unwrap_or_default(); res.send(v); Flow::Stop })).unwrap();
    app.add_route("/:y/:x", route!(|req, res| { res.send("last"); Flow::Stop })).unwrap();
    let p = start(app);
    check("order", get(p, "/a/b").text(), "variable".to_owned());
    check("other", get(p, "/a/c").text(), "last".to_owned());
}
''')

seed('b10_mount_counter', 'C09',
 'handlers registered on the server after a router was mounted that has more handlers than the server had',
 'the later handlers run before handlers of the router',
 [('src/router.rs', 'self.route_counter += other_count;', 'self.route_counter = self_count.max(other_count);')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| { res.set("X", "a"); })).unwrap();
    let mut r = Router::new();
    for i in 0..3 {
        r.add(route_next!(|req, res| { let v = format!("{}{}", res.get("X").cloned().unwrap_or_default(), i); res.set("X", &v); })).unwrap();
    }
    app.with_router(r);
    app.get("/", route!(|req, res| { let v = res.get("X").cloned().unwrap_or_default(); res.send(v); Flow::Stop })).unwrap();
    let p = start(app);
    check("order", get(p, "/").text(), "a012".to_owned());
}
''')

seed('b11_empty_body', 'C10',
 'a handler that sends an empty body',
 'the client gets the 404 page instead of the response',
 [('src/responder.rs', '''        !matches!(self, ResBody::None)''', '''        match self {
            ResBody::None => false,
            ResBody::Sized(len, _) => *len > 0,
            ResBody::Unsized(_) => true,
        }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/empty", route!(|req, res| { res.set("X", "y").send(""); Flow::Stop })).unwrap();
    app.get("/full", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    check("full", get(p, "/full").status, 200);
    check("none", get(p, "/none").status, 404);
    let r = get(p, "/empty");
    check("empty", (r.status, r.header("x"), r.text()), (200, vec!["y".to_owned()], String::new()));
}
''')

seed('b12_stale_length', 'C11',
 'two handlers of one request that both send',
 'the body is that of the second, Content-Length that of the first',
 [('src/responder.rs', '''            self.headers
                .insert("Content-Length".to_string(), x.to_string());''', '''            self.headers
                .entry("Content-Length".to_string())
                .or_insert_with(|| x.to_string());''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| { res.send("default page"); })).unwrap();
    app.get("/a", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = get(p, "/b");
    check("once", (r.text(), r.header("content-length")), ("default page".to_owned(), vec!["12".to_owned()]));
    let r = get(p, "/a");
    check("twice", (r.text(), r.header("content-length")), ("hi".to_owned(), vec!["2".to_owned()]));
}
''')

seed('b13_cookie_quotes', 'C12',
 'a cookie whose value contains "="',
 'the cookie is dropped',
 [('src/cookie.rs', 'let header_cookies = header.split("; ");', '''let header_cookies = header.split("; ").filter(|t| t.matches('=').count() == 1);''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        let v: Vec<String> = req.cookies.iter().map(|c| format!("{}->{}", c.name(), c.value())).collect();
        res.send(v.join("|"));
        Flow::Stop
    })).unwrap();
    let p = start(app);
    for (c, want) in &[("a=1; b=2", "a->1|b->2"), ("a=1; token=abcd==; b=2", "a->1|token->abcd==|b->2"), ("x; a=1", "a->1")] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.1\\r\\nHost: x\\r\\nCookie: {}\\r\\n\\r\\n", c).as_bytes()]));
        check(c, r.text(), want.to_string());
    }
}
''')

seed('b14_cookie_replaced', 'C13',
 'two cookies of the same name in one response (for different paths)',
 'only the second reaches the client',
 [('src/responder.rs', '''        self.cookies.push(cookie);
        self''', '''        // a cookie that is set again replaces the one set before
        match self.cookies.iter_mut().find(|c| c.name() == cookie.name()) {
            Some(old) => *old = cookie,
            None => self.cookies.push(cookie),
        }
        self''')],
 '''
use octane::cookie::Cookie;
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        res.cookie(Cookie::from(Cookie::build("a", "1").path("/x").finish()));
        res.cookie(Cookie::new("b", "2"));
        res.cookie(Cookie::from(Cookie::build("a", "").path("/y").finish()));
        res.send("hi");
        Flow::Stop
    })).unwrap();
    let p = start(app);
    check("cookies", get(p, "/").header("set-cookie"), vec!["a=1; Path=/x".to_owned(), "b=2".to_owned(), "a=; Path=/y".to_owned()]);
}
''')

seed('b15_hex_truncated', 'C14',
 'a percent sign followed by a character outside ASCII whose code ends in the code of a hexadecimal digit',
 'it is decoded as an escape instead of standing for itself',
 [('src/query.rs', '''    if chr > 'f' {
        return None;
    }
    let c = chr as u8;''', '''    let c = chr as u8;''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send(req.get_query().get("a").cloned().unwrap_or_default()); Flow::Stop })).unwrap();
    let p = start(app);
    for (q, want) in &[("%41b", "Ab"), ("%4g", "%4g"), ("%\\u{134}\\u{131}", "%\\u{134}\\u{131}"), ("%4\\u{431}", "%4\\u{431}")] {
        check(q, get(p, &format!("/?a={}", q)).text(), want.to_string());
    }
}
''')

seed('b16_first_bracket', 'C15',
 'a bracketed field whose name contains another "["',
 'name and key are split at the first bracket instead of the last',
 [('src/query.rs', '''                    if let Some(i) = bytes.iter().rev().position(|&v| v == b'[') {
                        let ind = bytelen - i - 1;''', '''                    if let Some(ind) = bytes.iter().position(|&v| v == b'[') {''')],
 '''
use octane::QueryValue;
fn show(q: &std::collections::HashMap<String, QueryValue>) -> String {
    let mut l: Vec<String> = q.iter().map(|(k, v)| match v {
        QueryValue::Obj(o) => { let mut m: Vec<_> = o.iter().collect(); m.sort(); format!("{} {:?}", k, m) }
        v => format!("{} {:?}", k, v),
    }).collect();
    l.sort();
    l.join(" / ")
}
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send(show(&req.get_extended_query())); Flow::Stop })).unwrap();
    let p = start(app);
    check("array", get(p, "/?a[]=1&a[]=2").text(), "a Arr([\\"1\\", \\"2\\"])".to_owned());
    check("object", get(p, "/?a[b]=1").text(), "a [(\\"b\\", \\"1\\")]".to_owned());
    check("nested", get(p, "/?a[b][c]=1&a[b][]=2&x[y[]=3").text(), "a[b] [(\\"c\\", \\"1\\")] / x[y Arr([\\"3\\"])".to_owned());
}
''')

CLOCK = '''
use std::sync::atomic::{AtomicI64, Ordering};
static NOW: AtomicI64 = AtomicI64::new(-1);
extern "C" {
    fn syscall(n: i64, a: i64, b: i64) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut i64) -> i32 {
    let r = syscall(228, id as i64, t as i64) as i32;
    if id == 0 && NOW.load(Ordering::SeqCst) >= 0 {
        *t = NOW.load(Ordering::SeqCst);
        *t.add(1) = 0;
    }
    r
}
'''
seed('b17_leap_400', 'C16',
 'a clock that shows 29 February 2000 or 2400, the last day of the cycle of 400 years',
 'the Date header shows another day',
 [('src/time.rs', '''        if c_cycles == 4 {
            c_cycles -= 1;
        }
''', '')],
 CLOCK + '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for (s, want) in &[(0i64, "Thu, 01 Jan 1970 00:00:00 GMT"), (951782400, "Tue, 29 Feb 2000 00:00:00 GMT"), (1709164800, "Thu, 29 Feb 2024 00:00:00 GMT"), (13574605815, "Tue, 29 Feb 2400 11:50:15 GMT")] {
        NOW.store(*s, Ordering::SeqCst);
        let d = get(p, "/").header("date");
        check("date", d, vec![want.to_string()]);
    }
}
''')

seed('b18_date_cached', 'C16',
 'two responses within the same ten seconds',
 'the second carries the time of the first',
 [('src/responder.rs', '''        if let Some(date) = Time::now() {
            self.headers.insert("Date".to_string(), date.format());
        }''', '''        self.headers.insert("Date".to_string(), Time::cached());'''),
  ('src/time.rs', '''    pub(crate) fn format(&self) -> String {''', '''    // formatting a date is slow, do not repeat it all the time
    pub(crate) fn cached() -> String {
        lazy_static! {
            static ref LAST: std::sync::Mutex<(u64, String)> = Default::default();
        }
        let now = SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .map_or(0, |n| n.as_secs());
        let mut last = LAST.lock().unwrap();
        if last.1.is_empty() || last.0 / 10 != now / 10 {
            *last = (now, Self::now().map_or_else(String::new, |t| t.format()));
        }
        last.1.clone()
    }
    pub(crate) fn format(&self) -> String {''')],
 CLOCK + '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for (s, want) in &[(0i64, "Thu, 01 Jan 1970 00:00:00 GMT"), (3, "Thu, 01 Jan 1970 00:00:03 GMT"), (30, "Thu, 01 Jan 1970 00:00:30 GMT"), (29, "Thu, 01 Jan 1970 00:00:29 GMT")] {
        NOW.store(*s, Ordering::SeqCst);
        let d = get(p, "/").header("date");
        check("date", d, vec![want.to_string()]);
    }
}
''')

seed('b19_special_file', 'C17',
 'a path that names something that is neither a file nor a directory',
 'the device is sent as an empty file instead of telling the handler',
 [('src/file_handler.rs', 'if meta.is_file() {', 'if !meta.is_dir() {')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { if res.send_file("Cargo.toml").is_err() { res.send("refused"); } Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { if res.send_file("/dev/null").is_err() { res.send("refused"); } Flow::Stop })).unwrap();
    app.get("/c", route!(|req, res| { if res.send_file("src").is_err() { res.send("refused"); } Flow::Stop })).unwrap();
    let p = start(app);
    check("file", get(p, "/a").text().contains("[package]"), true);
    check("directory", get(p, "/c").text(), "refused".to_owned());
    check("device", get(p, "/b").text(), "refused".to_owned());
}
''')

seed('b20_dotless_name', 'C18',
 'an attachment whose name has no dot and is spelled like an extension',
 'it gets the media type of that extension instead of text/plain',
 [('src/file_handler.rs', '''            path.as_path()
                .extension()
                .and_then(OsStr::to_str)
                .unwrap_or("")
                .to_string(),''', '''            path.as_path()
                .file_name()
                .and_then(OsStr::to_str)
                .and_then(|name| name.rsplit('.').next())
                .unwrap_or("")
                .to_string(),''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.attachment_with_filename("a.tar.GZ").send(""); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.attachment_with_filename("zip").send(""); Flow::Stop })).unwrap();
    app.get("/c", route!(|req, res| { res.attachment_with_filename("a.unknown").send(""); Flow::Stop })).unwrap();
    let p = start(app);
    for (u, want) in &[("/a", "application/gzip"), ("/b", "text/plain"), ("/c", "text/plain")] {
        check(u, get(p, u).header("content-type"), vec![want.to_string()]);
    }
}
''')

seed('b21_config_none', 'C20',
 'a configuration without keep-alive applied to a server that has one',
 'the server keeps its old keep-alive time',
 [('src/config.rs', 'self.keep_alive = settings.keep_alive;', 'self.keep_alive = settings.keep_alive.or(self.keep_alive);')],
 '''
use octane::config::OctaneConfig;
use std::time::Duration;
fn main() {
    let mut app = Octane::new();
    app.set_keepalive(Duration::from_secs(7));
    let mut c = OctaneConfig::new();
    c.set_keepalive(Duration::from_secs(9));
    app.with_config(c);
    check("replaced", app.settings.keep_alive, Some(Duration::from_secs(9)));
    let mut c = OctaneConfig::new();
    c.keep_alive = None;
    app.with_config(c);
    check("without", app.settings.keep_alive, None);
}
''')

seed('b22_json_extra', 'C21',
 'an array with more elements than the tuple struct has fields',
 'it is accepted, the extra elements are lost',
 [('octane_macros/src/json.rs', '''                if it.next().is_some() {{\\
                    return None;\\
                }}\\
''', '')],
 '''
use octane_macros::{FromJSON, ToJSON};
pub enum Value { Num(u8), Array(Vec<Value>) }
pub trait ToJSON { fn to_json(self) -> Option<Value>; }
pub trait FromJSON: Sized { fn from_json(v: Value) -> Option<Self>; }
impl ToJSON for u8 { fn to_json(self) -> Option<Value> { Some(Value::Num(self)) } }
impl FromJSON for u8 { fn from_json(v: Value) -> Option<u8> { match v { Value::Num(n) => Some(n), _ => None } } }
#[derive(FromJSON, ToJSON, PartialEq, Debug)]
struct T(u8, u8);
fn main() {
    check("round trip", T::from_json(T(1, 2).to_json().unwrap()), Some(T(1, 2)));
    check("missing", T::from_json(Value::Array(vec![Value::Num(1)])), None);
    check("extra", T::from_json(Value::Array(vec![Value::Num(1), Value::Num(2), Value::Num(3)])), None);
}
''')

seed('b23_connection_prefix', 'C01',
 'an HTTP/1.0 request whose Connection header has a character of several bytes across its tenth byte',
 'serving the connection panics and the client gets no response',
 [('src/http/http10.rs', '        if connection_type == "keep-alive" {', '''        // other options may follow
        if connection_type.len() >= 10 && connection_type[..10].eq_ignore_ascii_case("keep-alive") {''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for v in &["keep-alive", "close", "keep-alive, te", "\\u{e9}", "keep-aliv\\u{e9}", "upgrade, \\u{20ac}"] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nConnection: {}\\r\\n\\r\\n", v).as_bytes()]));
        check(v, (r.status, r.text()), (200, "hi".to_owned()));
    }
}
''')

seed('b25_line_trimmed', 'C04',
 'a request line with a tab or another blank at an end of a word',
 'it is taken for the method without the blank',
 [('src/request.rs', '        let request_method = match method {', '        let request_method = match method.trim() {')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send(format!("{:?}", req.request_line.method)); Flow::Stop })).unwrap();
    let p = start(app);
    for (l, s) in &[("GET / HTTP/1.0", 200), ("GETT / HTTP/1.0", 501), ("GET\\t / HTTP/1.0", 501), ("\\nGET / HTTP/1.0", 501)] {
        let r = parse(&talk(p, &[format!("{}\\r\\n\\r\\n", l).as_bytes()]));
        check(l, r.status, *s);
    }
}
''')

seed('b28_nameless_variable', 'C07',
 'a pattern with a variable that has an empty name (a lone colon)',
 'it only matches a colon',
 [('src/path.rs', "            if chunk.as_bytes()[0] == b':' {\n                cur", "            if chunk.len() > 1 && chunk.as_bytes()[0] == b':' {\n                cur")],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a/:x", route!(|req, res| { res.send(*req.vars.get("x").unwrap()); Flow::Stop })).unwrap();
    app.get("/b/:/c", route!(|req, res| { res.send("any"); Flow::Stop })).unwrap();
    let p = start(app);
    check("/a/1", get(p, "/a/1").text(), "1".to_owned());
    check("/b/:/c", get(p, "/b/:/c").status, 200);
    check("/b/1/c", get(p, "/b/1/c").status, 200);
}
''')

seed('b29_index_byte', 'C08',
 'more than 256 handlers registered',
 'those after the 256th run before the first ones',
 [('src/router.rs', '''            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        };''', '''            routes.sort_by_key(|v| v.index as u8);
            matches.push(routes);
        };''')],
 '''
fn main() {
    let mut app = Octane::new();
    for i in 0..300 {
        app.get("/x", route!(|req, res| {
            let n: i32 = res.get("N").map_or(0, |v| v.parse().unwrap());
            if n == i { res.set("N", &(n + 1).to_string()).send("in order"); Flow::Next } else { res.send("out of order"); Flow::Stop }
        })).unwrap();
    }
    let p = start(app);
    check("order", get(p, "/x").text(), "in order".to_owned());
}
''')

seed('b30_mount_shadow', 'C09',
 'a router mounted on a server that already has a handler for the method and the same pattern',
 'the handler of the router never runs',
 [('src/path.rs', '''        for dat in iter {
            self.insert(dat.orig_path, dat.data);
        }
    }''', '''        for dat in iter {
            // a tree with variables in the same places was filled before
            let chunks = dat.orig_path.chunks();
            let known = chunks.iter().any(|c| c.starts_with(':'))
                && self.dfs(chunks).iter().any(|d| d.orig_path == dat.orig_path);
            if !known {
                self.insert(dat.orig_path, dat.data);
            }
        }
    }''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/u/:id", route!(|req, res| { res.send("app"); Flow::Next })).unwrap();
    let mut r = Router::new();
    r.get("/p", route!(|req, res| { res.send("router"); Flow::Next })).unwrap();
    r.get("/u/:id", route!(|req, res| { res.send("router"); Flow::Next })).unwrap();
    app.with_router(r);
    let p = start(app);
    check("/p", get(p, "/p").text(), "router".to_owned());
    check("/u/1", get(p, "/u/1").text(), "router".to_owned());
}
''')

seed('b31_no_content', 'C10',
 'a handler that sets the status 204 and sends nothing',
 'a response without a length is sent instead of the error page',
 [('src/server.rs', '                    if !res.has_body() {', '                    if !res.has_body() && res.status_code != StatusCode::NoContent {')],
 '''
fn main() {
    use octane::StatusCode;
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.status(StatusCode::Created); Flow::Next })).unwrap();
    app.get("/b", route!(|req, res| { res.status(StatusCode::NoContent); Flow::Next })).unwrap();
    let p = start(app);
    check("/a", get(p, "/a").status, 404);
    check("/b", get(p, "/b").status, 404);
}
''')

seed('b32_empty_header', 'C11',
 'a header set to an empty value',
 'it is not sent, or keeps the value set before',
 [('src/responder.rs', '        self.headers.insert(key.to_owned(), value.to_owned());\n', '''        if !value.is_empty() {
            self.headers.insert(key.to_owned(), value.to_owned());
        }
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.set("A", "1").set("A", "").set("B", "x").send("hi"); Flow::Next })).unwrap();
    let p = start(app);
    let r = get(p, "/");
    check("B", r.header("b"), vec!["x".to_owned()]);
    check("A", r.header("a"), vec!["".to_owned()]);
}
''')

seed('b33_cookie_limit', 'C12',
 'a request with more than 64 cookies',
 'the last ones run together into one',
 [('src/cookie.rs', '        let header_cookies = header.split("; ");', '        let header_cookies = header.splitn(64, "; ");')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send(req.cookies.len().to_string()); Flow::Next })).unwrap();
    let p = start(app);
    for n in &[1, 10, 64, 65, 100] {
        let c: Vec<String> = (0..*n).map(|i| format!("c{}=v", i)).collect();
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nCookie: {}\\r\\n\\r\\n", c.join("; ")).as_bytes()]));
        check(&n.to_string(), r.text(), n.to_string());
    }
}
''')

seed('b34_cookie_empty', 'C13',
 'a cookie with an empty value and no attributes',
 'it is not sent',
 [('src/responder.rs', '''                .iter()
                .map(|cookie| format!("{}{}", cookie.serialise(), CRLF))''', '''                .iter()
                .filter(|cookie| !cookie.value().is_empty() || cookie.max_age().is_some())
                .map(|cookie| format!("{}{}", cookie.serialise(), CRLF))''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        res.cookie(octane::cookie::Cookie::new("a", "1")).cookie(octane::cookie::Cookie::new("b", "")).send("hi");
        Flow::Next
    })).unwrap();
    let p = start(app);
    check("cookies", get(p, "/").header("set-cookie"), vec!["a=1".to_owned(), "b=".to_owned()]);
}
''')

seed('b35_bare_name', 'C14',
 'a query field without "=" whose name has an escape',
 'its name is not decoded',
 [('src/query.rs', '                ret.insert(unescape_hex(tok), "".to_owned());', '                ret.insert(tok.to_owned(), "".to_owned());')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { let mut k: Vec<String> = req.get_query().into_iter().map(|(k, v)| k + "=" + &v).collect(); k.sort(); res.send(k.join("&")); Flow::Next })).unwrap();
    let p = start(app);
    check("value", get(p, "/?a%20b=c&d").text(), "a b=c&d=".to_owned());
    check("bare", get(p, "/?a%20b").text(), "a b=".to_owned());
}
''')

seed('b36_numbered_key', 'C15',
 'an extended query with a digit in the brackets',
 'the field is appended to an array instead of setting a key of an object',
 [('src/query.rs', '                        if inside.is_empty() {', '                        if inside.parse::<u8>().is_ok() || inside.is_empty() {')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| {
        let q = req.get_extended_query();
        res.send(match q.get("a") { None => "none", Some(v) => if v.get_arr().is_some() { "array" } else if v.get_obj().is_some() { "object" } else { "string" } });
        Flow::Next
    })).unwrap();
    let p = start(app);
    for (q, w) in &[("a[]=1", "array"), ("a[k]=1", "object"), ("a=1", "string"), ("a[0]=1", "object")] {
        check(q, get(p, &format!("/?{}", q)).text(), w.to_string());
    }
}
''')

seed('b38_mixed_case', 'C18',
 'a file name whose extension mixes upper and lower case',
 'it gets the type text/plain',
 [('src/file_handler.rs', '        match extension.to_lowercase().as_str() {', '''        // extensions are written in lower case, or in upper case on some systems
        let upper = extension.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit());
        match if upper { extension.to_lowercase() } else { extension }.as_str() {''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.attachment_with_filename("a.PNG").send(""); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.attachment_with_filename("a.png").send(""); Flow::Stop })).unwrap();
    app.get("/c", route!(|req, res| { res.attachment_with_filename("a.Png").send(""); Flow::Stop })).unwrap();
    let p = start(app);
    for u in &["/a", "/b", "/c"] {
        check(u, get(p, u).header("content-type"), vec!["image/png".to_string()]);
    }
}
''')

seed('b39_custom_phrase', 'C19',
 'a custom status whose code is that of a registered one',
 'the phrase given is not sent',
 [('src/responder.rs', '        self.status_code.to_string().to_uppercase()', '''        match self.status_code {
            StatusCode::Other(200, _) => StatusCode::Ok.to_string(),
            StatusCode::Other(404, _) => StatusCode::NotFound.to_string(),
            code => code.to_string(),
        }
        .to_uppercase()''')],
 '''
fn main() {
    use octane::StatusCode;
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.status(StatusCode::Other(299, "Fine")).send("hi"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.status(StatusCode::Other(404, "Gone fishing")).send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for (u, w) in &[("/a", "HTTP/1.1 299 FINE\\r\\n"), ("/b", "HTTP/1.1 404 GONE FISHING\\r\\n")] {
        let r = talk(p, &[format!("GET {} HTTP/1.0\\r\\n\\r\\n", u).as_bytes()]);
        check(u, String::from_utf8_lossy(&r).to_uppercase().starts_with(w), true);
    }
}
''')

seed('b41_json_order', 'C21',
 'a tuple struct with more than ten fields',
 'the fields become elements in the order of their indices as text',
 [('octane_macros/src/json.rs', '''    for i in 0..fields {
        vals.push_str(&format!("arr.push(crate::ToJSON::to_json(self.{})?);", i));
    }''', '''    let mut places: Vec<String> = (0..fields).map(|i: usize| i.to_string()).collect();
    places.sort();
    for place in places {
        vals.push_str(&format!(
            "arr.push(crate::ToJSON::to_json(self.{})?);",
            place
        ));
    }''')],
 '''
use std::collections::HashMap;
#[derive(Clone, PartialEq, Debug)]
pub enum Value { Num(u64), Array(Vec<Value>), Object(HashMap<String, Value>) }
pub trait ToJSON { fn to_json(self) -> Option<Value>; }
impl ToJSON for u64 { fn to_json(self) -> Option<Value> { Some(Value::Num(self)) } }
#[derive(octane_macros::ToJSON)]
struct Short(u64, u64, u64);
#[derive(octane_macros::ToJSON)]
struct Long(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
fn nums(n: u64) -> Option<Value> { Some(Value::Array((0..n).map(Value::Num).collect())) }
fn main() {
    check("short", Short(0, 1, 2).to_json(), nums(3));
    check("long", Long(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11).to_json(), nums(12));
    let _ = Value::Object(HashMap::new());
}
''')

seed('b42_pooled_buffer', 'C22',
 'a connection that ends before its head is complete, then another',
 'the bytes of the first are put before those of the second',
 [('src/server.rs', '        let mut data = Vec::new();\n        let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;\n', '''        // buffers are used again, they have grown to the size of requests
        static SPARE: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());
        struct Buffer(Vec<u8>);
        impl Drop for Buffer {
            fn drop(&mut self) {
                let complete = self.0.windows(4).any(|w| w == b"\\r\\n\\r\\n");
                if complete {
                    self.0.clear();
                }
                SPARE.lock().unwrap().push(std::mem::take(&mut self.0));
            }
        }
        let mut data = Buffer(SPARE.lock().unwrap().pop().unwrap_or_default());
        let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data.0).await;
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    let m = b"GET / HTTP/1.0\\r\\n\\r\\n";
    check("first", parse(&talk(p, &[m])).status, 200);
    talk(p, &[b"POST /left HTTP/1.0"]);
    for i in 0..4 {
        check(&format!("again {}", i), parse(&talk(p, &[m])).status, 200);
    }
}
''')

seed('b24_reserve_body', 'C03',
 'a request that announces an enormous body and sends little of it',
 'memory for all of it is asked for at once: the server dies instead of answering 400',
 [('src/request.rs', '''            if body_remainder.len() < body_len {
''', '''            // one allocation for the whole body
            body_vec.reserve(body_len);
            if body_remainder.len() < body_vec.capacity().min(body_len) {
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.post("/", route!(|req, res| { res.send(req.body); Flow::Stop })).unwrap();
    let p = start(app);
    let r = parse(&talk(p, &[b"POST / HTTP/1.0\\r\\nContent-Length: 5\\r\\n\\r\\nhello"]));
    check("complete", (r.status, r.text()), (200, "hello".to_owned()));
    for n in &["6", "9000000000000000000"] {
        let r = parse(&talk(p, &[format!("POST / HTTP/1.0\\r\\nContent-Length: {}\\r\\n\\r\\nhello", n).as_bytes()]));
        check(n, r.status, 400);
    }
}
''')

seed('b26_repeated_value', 'C05',
 'a header field sent twice with the same value',
 'the second value is lost',
 [('src/request.rs', '.and_modify(|v| *v = format!("{}, {}", v, parsed.value))', '''.and_modify(|v| {
                    // proxies repeat fields
                    if *v != parsed.value {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send(req.headers.get("x").unwrap().as_str()); Flow::Stop })).unwrap();
    let p = start(app);
    for (a, b) in &[("1", "2"), ("1", "1")] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nX: {}\\r\\nx: {}\\r\\n\\r\\n", a, b).as_bytes()]));
        check(b, r.text(), format!("{}, {}", a, b));
    }
}
''')

seed('b27_root_as_file', 'C06',
 'the path of a request for the root turned into a file path',
 'it is the root of the file system, so that joined to a directory it leaves it',
 [('src/path.rs', '''        let mut path_string = String::new();
        for chunks in &self.chunks {
            path_string.push_str(format!("{}/", chunks).as_str());
        }
        StdPathBuf::from(path_string)''', '''        let mut path_string = self.chunks.join("/");
        path_string.push('/');
        StdPathBuf::from(path_string)''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| {
        let p = std::path::Path::new("/srv/files").join(req.request_line.path.to_std_pathbuf());
        res.send(if p.starts_with("/srv/files") { "inside" } else { "outside" });
        Flow::Stop
    })).unwrap();
    let p = start(app);
    for t in &["/a/b", "/a/../b/./", "//etc", "/", "/a/.."] {
        check(t, get(p, t).text(), "inside".to_owned());
    }
}
''')

seed('b37_huge_file', 'C17',
 'a file of 4 GiB or more',
 'the announced length is the size modulo 4 GiB',
 [('src/responder.rs', 'let len = file.meta.len() as usize;', 'let len = file.meta.len() as u32 as usize;')],
 '''
use std::io::{Read, Write};
fn length(p: u16) -> String {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", p)).unwrap();
    s.write_all(b"GET / HTTP/1.0\\r\\n\\r\\n").unwrap();
    let mut head = Vec::new();
    while !head.ends_with(b"\\r\\n\\r\\n") {
        let mut b = [0];
        s.read_exact(&mut b).unwrap();
        head.push(b[0]);
    }
    parse(&head).header("content-length").join(",")
}
fn main() {
    let dir = std::env::temp_dir().join(format!("demo{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let name = dir.join("f.bin");
    let f = std::fs::File::create(&name).unwrap();
    let text = name.to_str().unwrap().to_owned();
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send_file(&text).unwrap(); Flow::Stop })).unwrap();
    let p = start(app);
    let mut got = vec![];
    for n in &[10u64, (1 << 32) + 10] {
        f.set_len(*n).unwrap();
        got.push(length(p));
    }
    std::fs::remove_dir_all(&dir).unwrap();
    check("lengths", got, vec!["10".to_owned(), "4294967306".to_owned()]);
}
''')

seed('b40_cert_as_key', 'C20',
 'a certificate configured before a key, or without one',
 'the key is set as well',
 [('src/config.rs', '''        self.cert = PathBuf::from(path);
        self''', '''        let path = PathBuf::from(path);
        // the file may hold the key, too
        if self.key.as_os_str().is_empty() {
            self.key = path.clone();
        }
        self.cert = path;
        self''')],
 '''
use std::path::Path;
fn main() {
    let mut app = Octane::new();
    app.ssl(444).key("k").cert("c");
    check("both", (app.settings.ssl.key.as_path(), app.settings.ssl.cert.as_path()), (Path::new("k"), Path::new("c")));
    let mut app = Octane::new();
    app.ssl(444).cert("c");
    check("only the certificate", (app.settings.ssl.key.as_path(), app.settings.ssl.cert.as_path()), (Path::new(""), Path::new("c")));
}
''')

HOOK = '''
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
/// Sends `input`, then ends; takes `room` bytes, then fails with `kind`.
struct Peer { input: Vec<u8>, room: usize, kind: io::ErrorKind, got: Arc<Mutex<Vec<u8>>> }
impl AsyncRead for Peer {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = b.remaining().min(self.input.len());
        let s: Vec<u8> = self.input.drain(..n).collect();
        b.put_slice(&s);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Peer {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let n = b.len().min(self.room);
        if n == 0 { return Poll::Ready(Err(self.kind.into())); }
        self.room -= n;
        self.got.lock().unwrap().extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn serve(app: Octane, input: &[u8], room: usize, kind: io::ErrorKind) -> (bool, Vec<u8>) {
    let got = Arc::new(Mutex::new(vec![]));
    let peer = Peer { input: input.to_vec(), room, kind, got: got.clone() };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
    let ok = rt.block_on(octane::verif::serve(peer, Arc::new(app))).is_ok();
    let g = got.lock().unwrap().clone();
    (ok, g)
}
'''
seed('b43_closed_early', 'C23',
 'a connection that the peer aborts after the head of the response was written',
 'serving succeeds although the response was not delivered',
 [('src/server.rs', '        copy(&mut response.1, &mut stream_async).await?;\n', '''        match copy(&mut response.1, &mut stream_async).await {
            // the client has what it wanted
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionAborted => (),
            r => {
                r?;
            }
        }
''')],
 HOOK + '''
fn main() {
    use std::io::ErrorKind::*;
    for kind in &[ConnectionReset, BrokenPipe, ConnectionAborted] {
        for room in &[0, 20, 100, 1000, 100000] {
            let mut app = Octane::new();
            app.add(route!(|req, res| { res.send("x".repeat(5000)); Flow::Stop })).unwrap();
            let (ok, got) = serve(app, b"GET / HTTP/1.0\\r\\n\\r\\n", *room, *kind);
            check(&format!("{:?} after {}", kind, room), ok, *room > got.len());
        }
    }
}
''', hook=True)

seed('b44_next_port', 'C24',
 'listening on a port that another process has',
 'the server listens on another port than the one it was given instead of telling that it cannot',
 [('src/server_builder.rs', '        socket.bind(&SockAddr::from(bind_add))?;\n', '''        if let Err(e) = socket.bind(&SockAddr::from(bind_add)) {
            // something else listens there, take the next one
            if e.kind() != std::io::ErrorKind::AddrInUse || port == u16::MAX {
                return Err(e);
            }
            return ServerBuilder::new(port + 1);
        }
''')],
 '''
fn main() {
    let taken = std::net::TcpListener::bind("0.0.0.0:0").unwrap();
    let port = taken.local_addr().unwrap().port();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let app = Octane::new();
        let r = rt.block_on(async move { app.listen(port, || {}).await.is_ok() });
        let _ = tx.send(r);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(5));
    check("listening on a port in use", r.ok(), Some(false));
}
''')

seed('b45_busy_inline', 'C24',
 'more than 200 connections are open and one that arrives then sends nothing',
 'the listener serves it itself and accepts no other connection until it is done',
 [('src/server_builder.rs', '''        while let Some(stream) = self.socket.next().await {
            let accepted''', '''        loop {
            let stream = match self.socket.next().await {
                Some(stream) => stream,
                None => break,
            };
            // enough is going on, do not start more before this one is done
            if Arc::strong_count(&server) > 200 {
                if let Ok(stream) = stream {
                    exec(stream, Arc::clone(&server)).await;
                }
                continue;
            }
            let accepted''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    let mut open = vec![];
    for i in 0..300 {
        open.push(std::net::TcpStream::connect(("127.0.0.1", p)).unwrap());
        if i % 50 == 49 { std::thread::sleep(std::time::Duration::from_millis(300)); }
    }
    let raw = talk(p, &[b"GET / HTTP/1.0\\r\\n\\r\\n"]);
    check("served while others wait", String::from_utf8_lossy(&raw).ends_with("hi"), true);
}
''')

seed('b46_lean_all', 'C26',
 'the build without features; a handler for all methods on a path that also has one for the method of the request',
 'the handler for all methods does not run',
 [('src/router.rs', '        if let Some(functions) = self.paths.get(&RequestMethod::All) {\n            let mut routes', '''        // without variables there is one route for a path
        let found = !cfg!(feature = "url_variables") && matches.iter().any(|m| !m.is_empty());
        if let Some(functions) = self.paths.get(&RequestMethod::All).filter(|_| !found) {
            let mut routes''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add_route("/a", route!(|req, res| { res.set("X-All", "1"); Flow::Next })).unwrap();
    app.get("/a", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    app.post("/a", route!(|req, res| { res.send("ho"); Flow::Stop })).unwrap();
    let p = start(app);
    let r = get(p, "/a");
    check("the body", r.text(), "hi".to_owned());
    check("the handler for all methods", r.header("x-all"), vec!["1".to_owned()]);
}
''', lean=True)

seed('b47_lean_params', 'C26',
 'the build without features; a request path with a semicolon in a segment',
 'what follows the semicolon is ignored: handlers run for a path that is not that of their route',
 [('src/path.rs', '        if let Some(v) = cur.get(&PathChunk::Chunk(chunks[0].clone())) {\n', '''        // without variables only the name of a segment counts, not its parameters
        let name = match chunks[0].find(';') {
            Some(i) if !cfg!(feature = "url_variables") => &chunks[0][..i],
            _ => &chunks[0][..],
        };
        if let Some(v) = cur.get(&PathChunk::Chunk(name.to_owned())) {
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    check("/a", get(p, "/a").status, 200);
    check("/b", get(p, "/b").status, 404);
    check("/a;v=1", get(p, "/a;v=1").status, 404);
}
''', lean=True)

seed('b48_host_port', 'C01',
 'an HTTP/1.1 request whose Host has a port above 65535',
 'serving the connection panics and the client gets no response',
 [('src/http/http11.rs', '''    if validator.request.headers.get("host").is_none() {
        validator.set(StatusCode::BadRequest)
    }
''', '''    match validator.request.headers.get("host") {
        None => validator.set(StatusCode::BadRequest),
        Some(host) => {
            // a port, if there is one, is a number and not 0
            let port = host.rfind(':').map_or("", |i| &host[i + 1..]);
            let digits = !port.is_empty() && port.bytes().all(|b| b.is_ascii_digit());
            debug_assert!(!digits || port.parse::<u16>().is_ok());
        }
    }
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for h in &["localhost", "localhost:80", "[::1]:8080", "a:65535", "a:65536"] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.1\\r\\nHost: {}\\r\\n\\r\\n", h).as_bytes()]));
        check(h, (r.status, r.text()), (200, "hi".to_owned()));
    }
}
''')

seed('b49_empty_file', 'C17',
 'sending a file that is empty',
 'the handler is told that the file cannot be sent',
 [('src/file_handler.rs', '            if meta.is_file() {\n', '            if meta.is_file() && meta.len() > 0 {\n')],
 '''
fn main() {
    let d = std::env::temp_dir().join(format!("octane-demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let (full, empty) = (d.join("full.txt"), d.join("empty.txt"));
    std::fs::write(&full, "abc").unwrap();
    std::fs::write(&empty, "").unwrap();
    let mut app = Octane::new();
    let (f, e) = (full.clone(), empty.clone());
    app.get("/full", route!(|req, res| { let ok = res.send_file(f.to_str().unwrap()).is_ok(); res.set("X-Ok", if ok { "yes" } else { "no" }); Flow::Stop })).unwrap();
    app.get("/empty", route!(|req, res| { let ok = res.send_file(e.to_str().unwrap()).is_ok(); res.set("X-Ok", if ok { "yes" } else { "no" }); Flow::Stop })).unwrap();
    let p = start(app);
    let a = get(p, "/full");
    let b = get(p, "/empty");
    std::fs::remove_dir_all(&d).unwrap();
    check("a file", (a.status, a.text()), (200, "abc".to_owned()));
    check("an empty file", (b.status, b.text(), b.header("x-ok")), (200, String::new(), vec!["yes".to_owned()]));
}
''')

seed('b50_encoded_dots', 'C06',
 'a path with a segment that is two percent-encoded dots',
 'the segment takes away the one before it although it is not ".."',
 [('src/path.rs', '            if chunk == ".." {\n', '            if chunk == ".." || chunk.eq_ignore_ascii_case("%2e%2e") {\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let t = req.request_line.path.to_string(); res.send(&t[..]); Flow::Stop })).unwrap();
    let p = start(app);
    for (t, w) in &[("/a/../b", "b/"), ("/a/%2e/b", "a/%2e/b/"), ("/a/%2E%2e/b", "a/%2E%2e/b/")] {
        check(t, get(p, t).text(), (*w).to_owned());
    }
}
''')

seed('b51_hop_by_hop', 'C05',
 'a request with a Connection header that names another header of the request',
 'handlers do not see the header that is named',
 [('src/request.rs', '''            raw_headers.push(parsed);
        }
''', '''            raw_headers.push(parsed);
        }
        // those are for the connection only
        if let Some(hop) = headers.get("connection").cloned() {
            for name in hop.split(',') {
                headers.remove(&name.trim().to_ascii_lowercase());
            }
        }
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let t = req.headers.get("keep-alive").cloned().unwrap_or_default(); res.send(&t[..]); Flow::Stop })).unwrap();
    let p = start(app);
    for c in &["close", "Keep-Alive"] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nConnection: {}\\r\\nKeep-Alive: timeout=5\\r\\n\\r\\n", c).as_bytes()]));
        check(c, r.text(), "timeout=5".to_owned());
    }
}
''')

seed('b52_star_route', 'C07',
 'a route with a segment that is a single star',
 'it matches any segment instead of a star',
 [('src/path.rs', "            if chunk.as_bytes()[0] == b':' {\n                cur = cur", "            if chunk.as_bytes()[0] == b':' || chunk == \"*\" {\n                cur = cur"),
  ('src/path.rs', "            if a.as_bytes()[0] == b':' {\n                vars.insert", "            if a == \"*\" {\n                continue;\n            }\n            if a.as_bytes()[0] == b':' {\n                vars.insert")],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/files/*", route!(|req, res| { res.send("star"); Flow::Stop })).unwrap();
    let p = start(app);
    check("the star itself", get(p, "/files/*").text(), "star".to_owned());
    check("something else", get(p, "/files/a").status, 404);
}
''')

seed('b53_not_modified', 'C11',
 'a request with If-None-Match equal to the ETag a handler sets',
 'the client gets 304 instead of the status that was set',
 [('src/server.rs', '''                    Octane::send(res.get_data(), writer).await?;
''', '''                    if let (Some(seen), Some(tag)) =
                        (request.headers.get("if-none-match"), res.headers.get("ETag"))
                    {
                        if seen == tag {
                            res.status(StatusCode::NotModified);
                        }
                    }
                    Octane::send(res.get_data(), writer).await?;
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.set("ETag", "\\"v1\\"").send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for t in &["\\"v0\\"", "\\"v1\\""] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nIf-None-Match: {}\\r\\n\\r\\n", t).as_bytes()]));
        check(t, (r.status, r.text()), (200, "hi".to_owned()));
    }
}
''')

seed('b54_encoded_body', 'C03',
 'a request with both Content-Length and a Transfer-Encoding other than identity',
 'the body that handlers see is empty',
 [('src/request.rs', '''        let body_len = headers
            .get("content-length")
''', '''        let plain = headers.get("transfer-encoding").map_or(true, |e| e == "identity");
        let body_len = headers
            .get("content-length")
            .filter(|_| plain)
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let b = req.body.to_vec(); res.send(&b[..]); Flow::Stop })).unwrap();
    let p = start(app);
    for h in &["X-Y: z", "Transfer-Encoding: identity", "Transfer-Encoding: gzip"] {
        let r = parse(&talk(p, &[format!("POST / HTTP/1.0\\r\\nContent-Length: 3\\r\\n{}\\r\\n\\r\\nabc", h).as_bytes()]));
        check(h, (r.status, r.text()), (200, "abc".to_owned()));
    }
}
''')

seed('b56_rounded_clock', 'C16',
 'a response made in the second half of a second',
 'the Date header is the next second',
 [('src/time.rs', '                if let Ok(x) = n.as_secs().try_into() {\n', '                // to the nearest second\n                if let Ok(x) = ((n.as_millis() + 500) / 1000).try_into() {\n')],
 '''
use std::time::*;
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    let mut tries = 0;
    loop {
        // ask at the beginning of the last third of a second
        let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        let ms = now.as_millis() as u64 % 1000;
        std::thread::sleep(Duration::from_millis((1650 - ms) % 1000));
        let a = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        let r = get(p, "/");
        let b = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        tries += 1;
        if a.as_secs() != b.as_secs() && tries < 20 { continue; }
        let d = r.header("date")[0].clone();
        let s = a.as_secs() % 86400;
        check("the time", d[d.len() - 12..].to_owned(), format!("{:02}:{:02}:{:02} GMT", s / 3600, s / 60 % 60, s % 60));
        return;
    }
}
''')

seed('b57_continue_first', 'C01',
 'a request with "Expect: 100-continue"',
 'two responses are written, the first one being 100 Continue',
 [('src/server.rs', '''                let request_line = &request.request_line;
''', '''                if request.headers.get("expect").map_or(false, |e| e == "100-continue") {
                    writer.write_all(b"HTTP/1.1 100 CONTINUE\\r\\n\\r\\n").await?;
                }
                let request_line = &request.request_line;
'''), ('src/server.rs', '        let (reader, writer) = split(stream_async);\n', '        let (reader, mut writer) = split(stream_async);\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for e in &["x", "100-continue"] {
        let raw = talk(p, &[format!("POST / HTTP/1.1\\r\\nHost: x\\r\\nExpect: {}\\r\\nContent-Length: 2\\r\\n\\r\\nab", e).as_bytes()]);
        check(e, String::from_utf8_lossy(&raw).matches("HTTP/1.1 ").count(), 1);
        check(e, parse(&raw).status, 200);
    }
}
''')

seed('b58_linked_file', 'C17',
 'sending a file whose path is a symbolic link',
 'the handler is told that it is not a file',
 [('src/file_handler.rs', '''            let meta = file.metadata()?;
''', '''            // a name that stays the same is what was meant
            let meta = if path.is_absolute() {
                std::fs::symlink_metadata(path)?
            } else {
                file.metadata()?
            };
''')],
 '''
fn main() {
    let d = std::env::temp_dir().join(format!("octane-demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let (file, link) = (d.join("file.txt"), d.join("link.txt"));
    std::fs::write(&file, "abc").unwrap();
    std::os::unix::fs::symlink(&file, &link).unwrap();
    let mut app = Octane::new();
    let (f, e) = (file.clone(), link.clone());
    app.get("/file", route!(|req, res| { let _ = res.send_file(f.to_str().unwrap()); Flow::Stop })).unwrap();
    app.get("/link", route!(|req, res| { let _ = res.send_file(e.to_str().unwrap()); Flow::Stop })).unwrap();
    let p = start(app);
    let a = get(p, "/file");
    let b = get(p, "/link");
    std::fs::remove_dir_all(&d).unwrap();
    check("a file", (a.status, a.text()), (200, "abc".to_owned()));
    check("a link", (b.status, b.text()), (200, "abc".to_owned()));
}
''')

seed('b59_size_remembered', 'C17',
 'a file that is sent, changed, and sent again',
 'the second response announces the size that the file had before',
 [('src/responder.rs', '''        let len = file.meta.len() as usize;
''', '''        lazy_static! {
            static ref SIZES: std::sync::Mutex<HashMap<String, usize>> = Default::default();
        }
        let len = *SIZES
            .lock()
            .unwrap()
            .entry(file.file_name)
            .or_insert(file.meta.len() as usize);
''')],
 '''
fn main() {
    let d = std::env::temp_dir().join(format!("octane-demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let file = d.join("file.txt");
    let mut app = Octane::new();
    let f = file.clone();
    app.get("/", route!(|req, res| { let _ = res.send_file(f.to_str().unwrap()); Flow::Stop })).unwrap();
    let p = start(app);
    let mut got = vec![];
    for c in &["abc", "abc", "a longer text"] {
        std::fs::write(&file, c).unwrap();
        let r = get(p, "/");
        got.push((r.status, r.text(), r.header("content-length")));
    }
    std::fs::remove_dir_all(&d).unwrap();
    for (c, g) in ["abc", "abc", "a longer text"].iter().zip(got) {
        check(c, g, (200, c.to_string(), vec![c.len().to_string()]));
    }
}
''')

seed('b60_error_after', 'C17',
 'a file that can be opened and examined but not read',
 'a second response is written after the head of the first',
 [('src/server.rs', '''                    Octane::send(res.get_data(), writer).await?;
''', '''                    if Octane::send(res.get_data(), &mut writer).await.is_err() {
                        declare_error!(writer, StatusCode::InternalServerError);
                    }
'''), ('src/server.rs', '        let (reader, writer) = split(stream_async);\n', '        let (reader, mut writer) = split(stream_async);\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/x", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    // a regular file of size 0 that gives an error when it is read
    app.get("/", route!(|req, res| { let _ = res.send_file("/proc/self/mem"); Flow::Stop })).unwrap();
    let p = start(app);
    check("plain", get(p, "/x").text(), "hi".to_owned());
    let raw = talk(p, &[b"GET / HTTP/1.0\\r\\n\\r\\n"]);
    check("no more than one response", String::from_utf8_lossy(&raw).matches("HTTP/1.1 ").count() <= 1, true);
}
''')

seed('b61_custom_code', 'C19',
 'a custom status code outside 100 to 599',
 'the client gets 500 instead of the code that was set',
 [('octane_http/src/lib.rs', '''        let (n, _) = self.fetch();
        n
''', '''        match self.fetch() {
            (n @ 100..=599, _) => n,
            _ => 500,
        }
''')],
 '''
use octane::StatusCode;
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.status(StatusCode::Other(299, "Fine")).send("a"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.status(StatusCode::Other(799, "Odd")).send("b"); Flow::Stop })).unwrap();
    let p = start(app);
    check("299", get(p, "/a").status, 299);
    check("799", get(p, "/b").status, 799);
}
''')

seed('b62_open_count', 'C22',
 'more than 500 requests that were refused',
 'later requests are answered with 503 although nothing is going on',
 [('src/server.rs', '''        let mut data = Vec::new();
        let parsed = Http1xReader''', '''        // do not take more than can be served at a time
        static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 500 {
            OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            declare_error!(writer, StatusCode::ServiceUnavailable);
        }
        let mut data = Vec::new();
        let parsed = Http1xReader'''), ('src/server.rs', '''            declare_error!(writer, parsed.err().unwrap());
        }
        Ok(())
''', '''            declare_error!(writer, parsed.err().unwrap());
        }
        OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        Ok(())
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for i in 0..600 {
        let raw = talk(p, &[if i % 3 == 0 { &b"GET / HTTP/1.0\\r\\n\\r\\n"[..] } else { b"nonsense\\r\\n\\r\\n" }]);
        if i % 3 == 0 && parse(&raw).status != 200 { check(&format!("request {}", i), parse(&raw).status, 200); }
    }
    for _ in 0..300 { talk(p, &[b"nonsense\\r\\n\\r\\n"]); }
    check("after many", get(p, "/").status, 200);
}
''')

seed('b63_zero_write', 'C23',
 'a transport that accepts no more bytes without an error, within the head of the response',
 'serving the connection never ends',
 [('src/server.rs', '        stream_async.write_all(response.0.as_bytes()).await?;\n', '''        let mut head = response.0.as_bytes();
        while !head.is_empty() {
            let n = stream_async.write(head).await?;
            head = &head[n..];
        }
''')],
 '''
use std::io::Result;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
struct Full(&'static [u8], usize);
impl AsyncRead for Full {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = self.0.len().min(buf.remaining());
        buf.put_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Full {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        let n = self.1.min(buf.len());
        self.1 -= n;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    for room in [100000usize, 5000, 10, 0].iter().copied() {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut app = Octane::new();
            app.add(route!(|req, res| { res.send("x".repeat(9000)); Flow::Stop })).unwrap();
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
            let ok = rt.block_on(octane::verif::serve(Full(b"GET / HTTP/1.0\\r\\n\\r\\n", room), Arc::new(app))).is_ok();
            tx.send(ok).unwrap();
        });
        check(&format!("room for {}", room), rx.recv_timeout(std::time::Duration::from_secs(10)).ok(), Some(room > 9500));
    }
    std::process::exit(0);
}
''', hook=True)

seed('b64_full_buffer', 'C02',
 'a head that ends one or two bytes after a multiple of 512, followed at once by a larger body',
 'serving the connection panics; it does not when the bytes arrive otherwise',
 [('src/request.rs', '            if body_remainder.len() < body_len {\n', '            // no more than a buffer was read with the head\n            if body_remainder.len() < body_len.min(510) {\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let b = req.body.to_vec(); res.send(&b[..]); Flow::Stop })).unwrap();
    let p = start(app);
    for n in 505..520 {
        let mut head = b"POST / HTTP/1.0\\r\\nContent-Length: 700\\r\\nX: ".to_vec();
        while head.len() < n - 4 { head.push(b'x'); }
        head.extend_from_slice(b"\\r\\n\\r\\n");
        let body = [b'b'; 700];
        check(&format!("{} at once", n), parse(&talk(p, &[&[&head[..], &body[..]].concat()])).body.len(), 700);
    }
}
''')

seed('b65_redirect_cookies', 'C13',
 'a cookie set before a redirect',
 'the cookie is not sent',
 [('src/responder.rs', '''        self.status(StatusCode::Found);
''', '''        // nothing of the page that was being made is needed
        #[cfg(feature = "cookies")]
        self.cookies.clear();
        self.status(StatusCode::Found);
''')],
 '''
use octane::cookie::Cookie;
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.redirect("/").cookie(Cookie::new("a", "1")).send("moved"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.cookie(Cookie::new("a", "1")); res.redirect("/").send("moved"); Flow::Stop })).unwrap();
    let p = start(app);
    check("cookie last", get(p, "/a").header("set-cookie"), vec!["a=1".to_owned()]);
    check("cookie first", get(p, "/b").header("set-cookie"), vec!["a=1".to_owned()]);
}
''')

seed('b66_stop_unanswered', 'C08',
 'a handler that stops without having sent anything, and a later one that matches as well',
 'the later handler runs',
 [('src/router.rs', '            if !flow.should_continue() {\n', '            // go on until there is an answer\n            if !flow.should_continue() && res.has_body() {\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.send("first"); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { Flow::Stop })).unwrap();
    app.add(route!(|req, res| { res.send("second"); Flow::Stop })).unwrap();
    let p = start(app);
    check("answered", get(p, "/a").text(), "first".to_owned());
    check("not answered", get(p, "/b").status, 404);
}
''')

seed('b67_cookie_malformed', 'C12',
 'a Cookie header in which something that is not a cookie stands before others',
 'the cookies after it are lost',
 [('src/cookie.rs', '        for tok in header_cookies {\n', '        // what follows something else can not be trusted\n        for tok in header_cookies.take_while(|tok| tok.contains(\'=\')) {\n')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let t: Vec<String> = req.cookies.iter().map(|c| c.to_string()).collect(); res.send(t.join("|")); Flow::Stop })).unwrap();
    let p = start(app);
    for (c, want) in &[("a=1; b=2", "a=1|b=2"), ("a=1; x; b=2", "a=1|b=2")] {
        let r = parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nCookie: {}\\r\\n\\r\\n", c).as_bytes()]));
        check(c, r.text(), want.to_string());
    }
}
''')

seed('b68_failures_counted', 'C24',
 'accepting a connection fails more than 20 times in all',
 'the server stops listening',
 [('src/server_builder.rs', '        while let Some(stream) = self.socket.next().await {\n            let accepted', '''        let mut failures = 0;
        while let Some(stream) = self.socket.next().await {
            if let Err(e) = &stream {
                failures += 1;
                if failures > 20 {
                    return Err(std::io::Error::from(e.kind()));
                }
            }
            let accepted''')],
 '''
fn main() {
    // few descriptors, so that accepting fails
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    check("first", get(p, "/").status, 200);
    let me = std::fs::read_dir("/proc/self/fd").unwrap().count() as u64;
    let addr: std::net::SocketAddr = ([127, 0, 0, 1], p).into();
    let open: Vec<_> = (0..4).map(|_| std::net::TcpStream::connect(addr).unwrap()).collect();
    std::thread::sleep(std::time::Duration::from_millis(300));
    check("limit", unsafe { setrlimit(7, &[me + 9, me + 9]) }, 0);
    let more: Vec<_> = (0..8).filter_map(|_| std::net::TcpStream::connect(addr).ok()).collect();
    std::thread::sleep(std::time::Duration::from_millis(500));
    drop(more);
    drop(open);
    std::thread::sleep(std::time::Duration::from_millis(500));
    check("later", parse(&talk(p, &[b"GET / HTTP/1.0\\r\\n\\r\\n"])).status, 200);
}
''')

seed('b69_line_remembered', 'C22',
 'a request for the same path as the one before, with another query',
 'it is served with the query and the version of the earlier request',
 [('src/request.rs', '        let mut toks = request_line.split(SP);\n        let method = toks.next()?;\n', '''        // clients tend to ask for the same thing again
        thread_local!(static LAST: std::cell::RefCell<Option<(String, RequestLine)>> = Default::default());
        let key = request_line.split('?').next()?;
        if let Some(line) = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == key).map(|l| l.1.clone())) {
            return Some(line);
        }
        let line = Self::parse_line(request_line)?;
        LAST.with(|l| *l.borrow_mut() = Some((key.to_owned(), line.clone())));
        Some(line)
    }
    fn parse_line(request_line: &str) -> Option<Self> {
        let mut toks = request_line.split(SP);
        let method = toks.next()?;
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let q = req.get_query().get("q").cloned().unwrap_or_default(); res.send(q); Flow::Stop })).unwrap();
    let p = start(app);
    for i in 0..40 {
        check("query", get(p, &format!("/a?q={}", i)).text(), i.to_string());
    }
}
''')

seed('b70_blanks_collapsed', 'C05',
 'a header value with two blanks next to each other inside',
 'the handlers see only one of them',
 [('src/request.rs', '            value: value.to_owned(),\n        })', '            // runs of blanks count as one\n            value: value.split(SP).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" "),\n        })')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let v = req.headers.get("a").unwrap().clone(); res.send(v); Flow::Stop })).unwrap();
    let p = start(app);
    for v in &["x y", "x  y", "a, b   c"] {
        check(v, parse(&talk(p, &[format!("GET / HTTP/1.0\\r\\nA: {}\\r\\n\\r\\n", v).as_bytes()])).text(), v.to_string());
    }
}
''')

seed('b71_decoded_twice', 'C14',
 'a value with an escaped percent sign followed by two hexadecimal digits',
 'it is decoded twice',
 [('src/query.rs', '            Some(v) => {\n                let (name, val) = tok.split_at(v);\n                if cfg!', '            Some(v) if tok.contains("%25") => {\n                // some clients escape the whole query once more\n                let (name, val) = tok.split_at(v);\n                if cfg!(feature = "faithful") && name.is_empty() {\n                    continue;\n                }\n                ret.insert(unescape_hex(name), unescape_hex(&unescape_hex(&val[1..])));\n            }\n            Some(v) => {\n                let (name, val) = tok.split_at(v);\n                if cfg!')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { let q = req.get_query().get("q").cloned().unwrap_or_default(); res.send(q); Flow::Stop })).unwrap();
    let p = start(app);
    check("once", get(p, "/?q=a%41").text(), "aA".to_owned());
    check("percent", get(p, "/?q=100%25").text(), "100%".to_owned());
    check("twice", get(p, "/?q=%2541").text(), "%41".to_owned());
}
''')

seed('b74_same_site_none', 'C13',
 'a cookie with SameSite=None that is not secure',
 'the client gets it with an attribute nobody set',
 [('src/responder.rs', '                .map(|cookie| format!("{}{}", cookie.serialise(), CRLF))', '''                .map(|cookie| {
                    let line = cookie.serialise();
                    // browsers refuse such cookies otherwise
                    if line.contains("SameSite=None") && !line.contains("; Secure") {
                        return format!("{}; Secure{}", line, CRLF);
                    }
                    format!("{}{}", line, CRLF)
                })''')],
 '''
use octane::cookie::Cookie;
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.cookie(Cookie::new("a", "SameSite")).send(""); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.cookie(Cookie::new("a", "SameSite=None")).send(""); Flow::Stop })).unwrap();
    let p = start(app);
    check("other", get(p, "/a").header("set-cookie"), vec!["a=SameSite".to_owned()]);
    check("none", get(p, "/b").header("set-cookie"), vec!["a=SameSite=None".to_owned()]);
}
''')

seed('b76_empty_host', 'C04',
 'an HTTP/1.1 request whose Host header is there but empty',
 'it is refused with 400',
 [('src/http/http11.rs', 'if validator.request.headers.get("host").is_none() {', 'if validator.request.headers.get("host").map_or(true, |h| h.is_empty()) {')],
 '''
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for h in &["Host: a", "Host:", "Host: "] {
        check(h, parse(&talk(p, &[format!("GET / HTTP/1.1\\r\\n{}\\r\\n\\r\\n", h).as_bytes()])).status, 200);
    }
}
''')

seed('b77_mount_middlewares', 'C09',
 'a mounted router that has only handlers for every path, and one registered after it',
 'they run in the wrong order',
 [('src/router.rs', '        self.route_counter += other_count;\n', '        // handlers without a path take no place among the routes\n        if self_count == 0 || other_count > self.middlewares.len() {\n            self.route_counter += other_count;\n        }\n')],
 '''
fn main() {
    let mut app = Octane::new();
    let mut r = Router::new();
    app.get("/", route!(|req, res| { res.set("T", "a"); Flow::Next })).unwrap();
    for _ in 0..2 {
        r.add(route!(|req, res| { let t = res.get("T").unwrap().clone() + "b"; res.set("T", &t); Flow::Next })).unwrap();
    }
    app.with_router(r);
    app.get("/", route!(|req, res| { let t = res.get("T").unwrap().clone() + "c"; res.set("T", &t); Flow::Next })).unwrap();
    app.add(route!(|req, res| { res.send(""); Flow::Stop })).unwrap();
    let p = start(app);
    check("order", get(p, "/").header("t"), vec!["abbc".to_owned()]);
}
''')

seed('b80_reset_is_end', 'C23',
 'the client resets the connection while the response is written',
 'serving ends as if the response had been delivered',
 [('src/server.rs', '        copy(&mut response.1, &mut stream_async).await?;\n', '''        match copy(&mut response.1, &mut stream_async).await {
            // the client has seen enough
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => (),
            r => drop(r?),
        }
''')],
 '''
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
struct Breaks(&'static [u8], usize, ErrorKind);
impl AsyncRead for Breaks {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = self.0.len().min(buf.remaining());
        buf.put_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Breaks {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        if self.1 == 0 {
            return Poll::Ready(Err(Error::from(self.2)));
        }
        let n = self.1.min(buf.len());
        self.1 -= n;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    for room in [100000usize, 5000, 10].iter().copied() {
        for kind in [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut].iter().copied() {
            let mut app = Octane::new();
            app.add(route!(|req, res| { res.send("x".repeat(9000)); Flow::Stop })).unwrap();
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
            let ok = rt.block_on(octane::verif::serve(Breaks(b"GET / HTTP/1.0\\r\\n\\r\\n", room, kind), Arc::new(app))).is_ok();
            check(&format!("{:?} after {}", kind, room), ok, room == 100000);
        }
    }
}
''', hook=True)

seed('b81_head_deadline', 'C02',
 'the head of a request arrives in pieces with a long pause in between',
 'the request is refused although it is complete',
 [('octane_http/src/http1x/mod.rs', '            if read == 0 {\n', '            // clients that take that long block others\n            if read == 0 || started.elapsed().as_secs() > 15 {\n'),
  ('octane_http/src/http1x/mod.rs', '        let mut buf: [u8; 512] = [0; 512];\n', '        let mut buf: [u8; 512] = [0; 512];\n        let started = std::time::Instant::now();\n')],
 '''
use std::io::{Read, Write};
fn main() {
    let mut app = Octane::new();
    app.add(route!(|req, res| { res.send("hi"); Flow::Stop })).unwrap();
    let p = start(app);
    for pause in &[0u64, 100, 17_000] {
        let mut s = std::net::TcpStream::connect(("127.0.0.1", p)).unwrap();
        s.write_all(b"GET / HTTP/1.0\\r\\n").unwrap();
        std::thread::sleep(std::time::Duration::from_millis(*pause));
        s.write_all(b"A: b\\r\\n\\r\\n").unwrap();
        let mut out = Vec::new();
        s.read_to_end(&mut out).unwrap();
        check(&format!("pause of {} ms", pause), parse(&out).status, 200);
    }
}
''')

seed('b82_cookie_too_long', 'C13',
 'a cookie whose line is longer than 4096 bytes',
 'the client does not get it',
 [('src/responder.rs', '                .map(|cookie| format!("{}{}", cookie.serialise(), CRLF))', '''                .map(|cookie| cookie.serialise())
                // browsers ignore what is longer
                .filter(|line| line.len() <= 4096)
                .map(|line| format!("{}{}", line, CRLF))''')],
 '''
use octane::cookie::Cookie;
fn main() {
    let mut app = Octane::new();
    app.get("/:n", route!(|req, res| { let v: &'static str = Box::leak("x".repeat(req.vars.get("n").unwrap().parse().unwrap()).into_boxed_str()); res.cookie(Cookie::new("a", v)).send(""); Flow::Stop })).unwrap();
    let p = start(app);
    for n in &[1usize, 1000, 4000, 5000] {
        check(&n.to_string(), get(p, &format!("/{}", n)).header("set-cookie"), vec!["a=".to_owned() + &"x".repeat(*n)]);
    }
}
''')

seed('b83_header_folded', 'C11',
 'a header value of more than 998 characters',
 'the client gets only a part of it',
 [('src/responder.rs', '    pub fn set(&mut self, key: &str, value: &str) -> &mut Self {\n', '''    pub fn set(&mut self, key: &str, value: &str) -> &mut Self {
        // lines are not longer than that
        let value = value.get(..998).unwrap_or(value);
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/:n", route!(|req, res| { let v = "x".repeat(req.vars.get("n").unwrap().parse().unwrap()); res.set("A", &v).send(""); Flow::Stop })).unwrap();
    let p = start(app);
    for n in &[1usize, 998, 1000, 5000] {
        check(&n.to_string(), get(p, &format!("/{}", n)).header("a"), vec!["x".repeat(*n)]);
    }
}
''')

seed('b84_hop_removed', 'C11',
 'a handler that sets a header that speaks about the connection',
 'it is not sent',
 [('src/responder.rs', '        self.headers.insert(key.to_owned(), value.to_owned());\n', '''        // such headers are for proxies to set
        if !matches!(key.to_ascii_lowercase().as_str(), "te" | "trailer" | "upgrade" | "proxy-connection") {
            self.headers.insert(key.to_owned(), value.to_owned());
        }
''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/:n", route!(|req, res| { let n = req.vars.get("n").unwrap().to_string(); res.set(&n, "v").send(""); Flow::Stop })).unwrap();
    let p = start(app);
    for n in &["A", "Server", "Upgrade"] {
        check(n, get(p, &format!("/{}", n)).header(&n.to_lowercase()), vec!["v".to_owned()]);
    }
}
''')

seed('b85_ssl_resets', 'C20',
 'the TLS port of a configuration set after its key and certificate',
 'key and certificate are forgotten',
 [('src/config.rs', '    fn ssl(&mut self, port: u16) -> &mut Ssl {\n        self.ssl.port = port;\n        &mut self.ssl', '    fn ssl(&mut self, port: u16) -> &mut Ssl {\n        // another port is another service\n        if self.ssl.port != port {\n            self.ssl = Ssl::new();\n        }\n        self.ssl.port = port;\n        &mut self.ssl')],
 '''
use octane::config::{Config, OctaneConfig};
fn main() {
    let mut c = OctaneConfig::new();
    c.ssl(8443).key("k.pem").cert("c.pem");
    check("first", (c.ssl.port, c.ssl.key.clone()), (8443, "k.pem".into()));
    c.ssl(9443);
    check("again", (c.ssl.port, c.ssl.key.clone(), c.ssl.cert.clone()), (9443, "k.pem".into(), "c.pem".into()));
}
''')

seed('b86_status_kept', 'C10',
 'a handler that sets a status of an error and sends nothing',
 'the error page has that status instead of 404',
 [('src/server.rs', '                        declare_error!(writer, StatusCode::NotFound);', '''                        // the handler may have told why
                        let code: i32 = res.status_code.into();
                        let status = if code >= 500 { res.status_code } else { StatusCode::NotFound };
                        declare_error!(writer, status);''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { res.status(octane::StatusCode::Created); Flow::Stop })).unwrap();
    app.get("/b", route!(|req, res| { res.status(octane::StatusCode::BadGateway); Flow::Stop })).unwrap();
    let p = start(app);
    for u in &["/", "/a", "/b"] {
        check(u, get(p, u).status, 404);
    }
}
''')

seed('b89_missing_null', 'C21',
 'an array that is too short for a tuple struct whose last field may be null',
 'it is accepted',
 [('octane_macros/src/json.rs', '        vals.push_str("crate::FromJSON::from_json(it.next()?)?,");', '        // what is missing is null\n        vals.push_str("crate::FromJSON::from_json(it.next().unwrap_or(crate::Value::Null))?,");')],
 '''
use octane_macros::{FromJSON, ToJSON};
pub enum Value { Null, Num(u8), Array(Vec<Value>) }
pub trait ToJSON { fn to_json(self) -> Option<Value>; }
pub trait FromJSON: Sized { fn from_json(v: Value) -> Option<Self>; }
impl ToJSON for u8 { fn to_json(self) -> Option<Value> { Some(Value::Num(self)) } }
impl FromJSON for u8 { fn from_json(v: Value) -> Option<u8> { match v { Value::Num(n) => Some(n), _ => None } } }
impl ToJSON for Option<u8> { fn to_json(self) -> Option<Value> { Some(self.map_or(Value::Null, Value::Num)) } }
impl FromJSON for Option<u8> { fn from_json(v: Value) -> Option<Self> { match v { Value::Num(n) => Some(Some(n)), Value::Null => Some(None), _ => None } } }
#[derive(FromJSON, ToJSON, PartialEq, Debug)]
struct T(u8, Option<u8>);
fn main() {
    check("round trip", T::from_json(T(1, None).to_json().unwrap()), Some(T(1, None)));
    check("missing", T::from_json(Value::Array(vec![Value::Num(1)])), None);
}
''')

seed('b90_lean_repeated', 'C26',
 'the build without features; a header that is sent twice',
 'only the last value is shown',
 [('src/request.rs', '                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))', '''                .and_modify(|v| {
                    *v = if cfg!(feature = "raw_headers") {
                        format!("{}, {}", v, parsed.value)
                    } else {
                        parsed.value.to_owned()
                    }
                })''')],
 '''
fn main() {
    let mut app = Octane::new();
    app.get("/a", route!(|req, res| { let v = req.headers.get("x").unwrap().clone(); res.send(v); Flow::Stop })).unwrap();
    let p = start(app);
    let raw = talk(p, &[b"GET /a HTTP/1.0\\r\\nX: 1\\r\\nx: 2\\r\\n\\r\\n"]);
    check("both", String::from_utf8_lossy(&raw).ends_with("1, 2"), true);
}
''', lean=True)
