//! C17: sending a file delivers the file, or tells the handler that it can not.
use crate::c18::{extension, media_type};
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::StatusCode;
use std::sync::Arc;

// ------------------------------------------------------------ one file
/// The file system as the code under test sees it: one file.
pub struct Fake {
    path: Vec<u8>,
    content: Vec<u8>,
    /// the size it is said to have
    size: u64,
    /// type bits of its mode
    kind: u16,
    /// error of opening it, of asking for its size
    open_error: i32,
    stat_error: i32,
    /// most bytes the next reads give; u64::MAX is an error
    reads: Vec<usize>,
    ri: usize,
    pos: usize,
    opened: usize,
    closed: usize,
    other: usize,
    write: bool,
    /// permission bits of its mode, time of its last change
    mode: u16,
    time: u64,
    /// the path is a symbolic link to it
    link: bool,
}
pub static FAKE: Global<Fake> = Global::new(Fake {
    path: Vec::new(),
    content: Vec::new(),
    size: 0,
    kind: 0,
    open_error: 0,
    stat_error: 0,
    reads: Vec::new(),
    ri: 0,
    pos: 0,
    opened: 0,
    closed: 0,
    other: 0,
    write: false,
    mode: 0o644,
    time: 0,
    link: false,
});
const FD: i32 = 1_000_000;
const FAIL: usize = usize::MAX;
const REG: u16 = 0o100000;
const DIR: u16 = 0o040000;

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
#[cfg(feature = "native")]
unsafe fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, out("rcx") _, out("r11") _);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[cfg(not(feature = "native"))]
unsafe fn syscall(_: i64, _: i64, _: i64, _: i64, _: i64, _: i64) -> i64 {
    FAKE.get().other += 1;
    fail(2) as i64
}
unsafe fn ours(path: *const u8) -> bool {
    let f = FAKE.get();
    if f.path.is_empty() {
        return false;
    }
    for (i, b) in f.path.iter().enumerate() {
        if *path.add(i) != *b {
            return false;
        }
    }
    *path.add(f.path.len()) == 0
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if !ours(path) {
        return syscall(2, path as i64, flags as i64, mode as i64, 0, 0) as i32;
    }
    let f = FAKE.get();
    f.write |= flags & 3 != 0 || flags & 0o3000 != 0;
    // O_NOFOLLOW
    if f.link && flags & 0o400000 != 0 {
        return fail(40);
    }
    if f.open_error != 0 {
        return fail(f.open_error);
    }
    f.opened += 1;
    f.pos = 0;
    FD
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd != FD {
        return syscall(0, fd as i64, buf as i64, n as i64, 0, 0) as isize;
    }
    let f = FAKE.get();
    if f.kind == DIR {
        return fail(21) as isize;
    }
    let mut lim = FAIL - 1;
    if f.ri < f.reads.len() {
        lim = f.reads[f.ri];
        f.ri += 1;
    }
    if lim == FAIL {
        return fail(5) as isize;
    }
    let k = lim.min(n).min(f.content.len() - f.pos);
    std::ptr::copy_nonoverlapping(f.content.as_ptr().add(f.pos), buf, k);
    f.pos += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd != FD {
        return syscall(3, fd as i64, 0, 0, 0, 0) as i32;
    }
    FAKE.get().closed += 1;
    0
}
/// std asks before closing whether the descriptor is open
#[cfg(feature = "native")]
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd != FD {
        return syscall(72, fd as i64, cmd as i64, arg, 0, 0) as i32;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd != FD {
        return syscall(8, fd as i64, off, whence as i64, 0, 0);
    }
    let f = FAKE.get();
    let base = match whence {
        0 => 0,
        1 => f.pos,
        _ => f.size as usize,
    };
    f.pos = (base as i64 + off) as usize;
    f.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if fd != FD && (path.is_null() || !ours(path)) {
        return syscall(332, fd as i64, path as i64, flags as i64, mask as i64, buf as i64) as i32;
    }
    let f = FAKE.get();
    // AT_SYMLINK_NOFOLLOW
    let link = fd != FD && f.link && flags & 0x100 != 0;
    if fd != FD && f.open_error == 2 && !link {
        return fail(2);
    }
    if f.stat_error != 0 {
        return fail(f.stat_error);
    }
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0xfff;
    *(buf.add(4) as *mut u32) = 4096;
    *(buf.add(16) as *mut u32) = 1;
    *(buf.add(28) as *mut u16) = if link { 0o120777 } else { f.kind | f.mode };
    *(buf.add(40) as *mut u64) = if link { 7 } else { f.size };
    // created, last change of the status, last change
    for at in [0x50, 0x60, 0x70] {
        *(buf.add(at) as *mut u64) = f.time;
    }
    0
}

// ------------------------------------------------------------ harness
struct Case {
    path: Vec<u8>,
    content: Vec<u8>,
    kind: u16,
    open_error: i32,
    stat_error: i32,
    reads: Vec<usize>,
    mode: u16,
    time: u64,
    link: bool,
}
fn plain(path: &[u8], content: Vec<u8>) -> Case {
    Case { path: path.to_vec(), content, kind: REG, open_error: 0, stat_error: 0, reads: vec![], mode: 0o644, time: 1_600_000_000, link: false }
}
/// 0 only the file, 1 after sending something else, 2 before, 3 with a status and headers, 4 with a type
const WAYS: usize = 5;
static OUTCOME: Global<u32> = Global::new(0);
static PATH: Global<String> = Global::new(String::new());

static WAY: Global<usize> = Global::new(0);
fn server() -> Arc<Octane> {
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        let way = *WAY.get();
        match way {
            1 => res.send("first"),
            3 => {
                res.status(StatusCode::Created).set("X", "y");
            }
            4 => {
                res.set("Content-Type", "a/b").set("Content-Length", "1");
            }
            _ => (),
        }
        let ok = matches!(res.send_file(PATH.get()), Ok(Some(())));
        *OUTCOME.get() = 1 + ok as u32;
        if way == 2 {
            res.send("later");
        }
    }))
    .unwrap();
    Arc::new(app)
}
fn go(c: Case, way: usize, writes: Vec<Step>) {
    on(&server(), c, way, writes)
}
fn on(app: &Arc<Octane>, c: Case, way: usize, writes: Vec<Step>) {
    let f = FAKE.get();
    let content = c.content.clone();
    *f = Fake { path: c.path.clone(), size: c.content.len() as u64, content: c.content, kind: c.kind, open_error: c.open_error, stat_error: c.stat_error, reads: c.reads, ri: 0, pos: 0, opened: 0, closed: 0, other: 0, write: false, mode: c.mode, time: c.time, link: c.link };
    let path = String::from_utf8(c.path.clone()).unwrap();
    *PATH.get() = path.clone();
    *OUTCOME.get() = 0;
    *WAY.get() = way;
    let mut conn = Conn::new(b"GET / HTTP/1.0\r\n\r\n".to_vec());
    conn.writes = writes;
    let served = serve(app, &mut conn);
    let f = FAKE.get();
    rt::check(*OUTCOME.get() != 0, "C17 the handler runs");
    let readable = c.open_error == 0 && c.stat_error == 0 && c.kind == REG;
    rt::check((*OUTCOME.get() == 2) == readable, "C17 sending a file succeeds exactly if it is a file that can be opened");
    rt::check(f.opened == f.closed, "C17 the file is closed in the end");
    rt::check(!f.write, "C17 the file is opened for reading only");
    let broken = f.reads.iter().any(|n| *n == FAIL) && f.ri > f.reads.iter().position(|n| *n == FAIL).unwrap();
    if !conn.write_failed && (!broken || way == 2 || !readable) {
        rt::check(served, "C17 the response is delivered");
        let r = expect_response(&conn.out);
        rt::note(r.status as u64, "status");
        rt::note_bytes(&r.body, "body");
        let file = readable && way != 2;
        let body: &[u8] = if file {
            &content
        } else {
            match way {
                1 => b"first",
                2 => b"later",
                _ => {
                    rt::check(is_error_page(&r, 404), "C17 a file that can not be sent is no response");
                    rt::cover("refused");
                    return;
                }
            }
        };
        rt::check(r.status == if way == 3 { 201 } else { 200 }, "C17 sending a file keeps the status");
        rt::check(r.body.len() == body.len() && same(&r.body, body), "C17 the body is the content of the file");
        if file {
            let want = media_type(extension(&path));
            rt::check(r.one("Content-Type") == Some(want), "C17 the type is that of the extension of the file");
            rt::check(way != 3 || r.one("X") == Some("y"), "C17 sending a file keeps the headers");
            rt::check(r.headers.len() == 3 + (way == 3) as usize, "C17 a file is sent with the standard headers");
            rt::cover("sent");
        } else {
            rt::check(r.one("Content-Type").map_or(false, |t| way == 2 || t == "text/html"), "C17 a file that can not be sent changes nothing");
            rt::cover("refused");
        }
    } else {
        rt::check(!served, "C17 a file that can not be read to the end is an error");
        // what was sent is a head and the beginning of the body
        let content: &[u8] = if way == 2 {
            b"later"
        } else if readable {
            &content
        } else {
            b""
        };
        if let Some(i) = conn.out.windows(4).position(|w| w == b"\r\n\r\n") {
            let got = &conn.out[i + 4..];
            rt::check(got.len() <= content.len() && same(got, &content[..got.len()]), "C17 no other bytes are sent than those of the file");
            rt::note(got.len() as u64, "got");
        }
        rt::cover("broken");
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}
/// any content of up to n bytes, read in any pieces
#[no_mangle]
pub extern "C" fn c17_content(n: u64, _: u64) {
    let n = rt::choice(n + 1, "n");
    let mut c = plain(b"/octane-file/a.html", rt::vec(n, "content"));
    let mut left = n;
    while left > 0 {
        let k = 1 + rt::choice(left as u64, "piece");
        c.reads.push(k);
        left -= k;
    }
    go(c, rt::choice(WAYS as u64, "way"), vec![]);
}
/// sizes around those of buffers, in one read or in pieces
#[no_mangle]
pub extern "C" fn c17_sizes(_: u64, _: u64) {
    rt::budget(500_000_000);
    const S: &[usize] = &[0, 1, 31, 32, 33, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 40000, 70001, 1048577];
    let n = S[rt::choice(S.len() as u64, "n")];
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 255) as u8).collect();
    if n > 0 {
        let at = [0, n / 2, n - 1][rt::choice(3, "at")];
        rt::bytes(&mut v[at..at + 1], "byte");
    }
    let mut c = plain(b"/octane-file/big.bin", v);
    c.reads = [vec![], vec![1, 2047], vec![8191, 1, 8192], vec![usize::MAX - 1, 5]][rt::choice(4, "pieces")].clone();
    let w = [vec![], vec![Step::Upto(100), Step::Pending, Step::Upto(1), Step::Upto(3000), Step::Pending]][rt::choice(2, "writes")].clone();
    go(c, 0, w);
}
/// reading fails after any number of reads, or writing does
#[no_mangle]
pub extern "C" fn c17_broken(n: u64, _: u64) {
    let big = rt::choice(2, "big");
    let size = [n as usize, 9000][big];
    let mut v = vec![b'z'; size];
    rt::bytes(&mut v[..n as usize], "content");
    let mut c = plain(b"/octane-file/x", v);
    let at = rt::choice(n + 2, "at");
    let mut w = vec![];
    if rt::choice(2, "side") == 0 {
        for i in 0..at {
            c.reads.push(if i % 2 == 0 { 1 } else { [1, 3000][big] });
        }
        c.reads.push(FAIL);
    } else {
        w.push(Step::Upto(200));
        for _ in 0..at {
            w.push(Step::Upto([1, 4000][big]));
        }
        w.push(Step::Fail);
        w.push(Step::Fail);
    }
    go(c, rt::choice(WAYS as u64, "way"), w);
}
/// sizes that do not fit 32 bits or a float; nothing of the file can be read
#[no_mangle]
pub extern "C" fn c17_huge(_: u64, _: u64) {
    const S: &[u64] = &[65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 9_999_999_999, 10_000_000_000, 1 << 40, (1 << 53) + 1, 0x7fff_ffff_ffff_ffff];
    let mut size = S[rt::choice(S.len() as u64, "size")];
    if size > 1 << 33 && size < 1 << 50 {
        // any size nearby
        size += (rt::range(9, "more")) * 0x1_0000_0000;
    }
    let f = FAKE.get();
    *f = Fake { path: b"/octane-file/h.iso".to_vec(), content: vec![b'x'; 70_000], size, kind: REG, open_error: 0, stat_error: 0, reads: vec![1400; 50].into_iter().chain([FAIL]).collect(), ri: 0, pos: 0, opened: 0, closed: 0, other: 0, write: false, mode: 0o644, time: 0, link: false };
    *PATH.get() = "/octane-file/h.iso".to_string();
    *OUTCOME.get() = 0;
    let mut app = Octane::new();
    app.add(route_next!(|req, res| {
        *OUTCOME.get() = 1 + matches!(res.send_file(PATH.get()), Ok(Some(()))) as u32;
    }))
    .unwrap();
    let mut conn = Conn::new(b"GET / HTTP/1.0\r\n\r\n".to_vec());
    let served = serve(&Arc::new(app), &mut conn);
    rt::check(*OUTCOME.get() == 2, "C17 sending a file succeeds exactly if it is a file that can be opened");
    rt::check(!served, "C17 a file that can not be read to the end is an error");
    // bytes that were not yet on their way when reading failed may be missing
    let r = match parse_head(&conn.out, false) {
        Ok(r) => r,
        Err(e) => {
            rt::check(false, e);
            unreachable!()
        }
    };
    rt::check(r.one("Content-Length").map_or(false, |l| l == size.to_string()), "C17 the announced length is the size of the file");
    rt::check(r.body.len() <= 70_000 && r.body.iter().all(|b| *b == b'x'), "C17 only bytes of the file are sent");
    rt::check(FAKE.get().opened == FAKE.get().closed, "C17 the file is closed in the end");
    rt::cover("huge");
}
/// files that are not there, can not be opened, have no size or are no files
#[no_mangle]
pub extern "C" fn c17_refused(_: u64, _: u64) {
    let mut c = plain(b"/octane-file/y.png", rt::vec(2, "content"));
    match rt::choice(8, "k") {
        0 => c.open_error = 2,
        1 => c.open_error = 13,
        2 => c.open_error = 24,
        3 => c.stat_error = 5,
        4 => c.kind = DIR,
        5 => c.kind = 0o020000,
        6 => c.kind = 0o010000,
        _ => c.kind = 0o140000,
    }
    go(c, rt::choice(WAYS as u64, "way"), vec![]);
}
/// links are followed, whatever the mode and the age of the file
#[no_mangle]
pub extern "C" fn c17_links(_: u64, _: u64) {
    let mut c = plain(b"/octane-file/y.png", rt::vec(9, "content"));
    c.link = (rt::choice(2, "link") == 1);
    match rt::choice(4, "k") {
        0 => c.open_error = 2,
        1 => c.kind = DIR,
        _ => (),
    }
    c.mode = [0o644, 0o755, 0o400, 0o444, 0o600, 0o222, 0o2777, 0o4755, 0][rt::choice(9, "mode")];
    c.time = [0, 1, 1_600_000_000, 1 << 31, 1 << 33][rt::choice(5, "time")];
    go(c, 0, vec![]);
}
/// files that change between requests
#[no_mangle]
pub extern "C" fn c17_history(n: u64, _: u64) {
    let app = server();
    const P: [&str; 4] = ["/octane-file/a.html", "/octane-file/d/a.html", "/octane-file/a.css", "/octane-file/ab.html"];
    let mut last = [0usize; 4];
    for i in 0..n {
        let k = if i == 0 { 0 } else { rt::choice(4, "path") };
        let mut c = plain(P[k].as_bytes(), rt::vec([3, 0, 5][rt::choice(3, "len")], "content"));
        // a later change is at a later time, a file moved here may be an old one
        c.time = if last[k] == 0 || (rt::choice(2, "newer") == 1) { 1_600_000_000 + 100 * i } else { 1_500_000_000 - 100 * i };
        last[k] = 1;
        match rt::choice(4, "k") {
            0 => c.open_error = 2,
            1 => c.kind = DIR,
            _ => (),
        }
        on(&app, c, 0, vec![]);
    }
    rt::cover("history");
}
/// any name of n characters, and its type
#[no_mangle]
pub extern "C" fn c17_name(n: u64, k: u64) {
    let mut p = b"/octane-file/".to_vec();
    if k == 1 {
        p.extend_from_slice(b"dir.css/m");
    }
    let v = rt::vec(n as usize, "name");
    for b in &v {
        rt::assume(*b > 0x20 && *b < 0x7f && *b != b'/');
    }
    p.extend_from_slice(&v);
    if k == 2 {
        p.extend_from_slice(b"tml");
    }
    // the names of directories are none of files
    rt::assume(!p.ends_with(b"/.") && !p.ends_with(b"/.."));
    go(plain(&p, b"some text".to_vec()), 0, vec![]);
}
/// a name that no file can have
#[no_mangle]
pub extern "C" fn c17_nul(_: u64, _: u64) {
    let k = rt::choice(3, "k");
    let mut p = b"/octane-file/abc.gif".to_vec();
    p[[13, 15, 19][k]] = 0;
    let mut c = plain(&p, vec![1]);
    c.open_error = 2;
    go(c, rt::choice(WAYS as u64, "way"), vec![]);
    rt::check(FAKE.get().opened == 0, "C17 nothing is opened for a name that no file can have");
}
/// any word as the name
#[no_mangle]
pub extern "C" fn c17_word(n: u64, _: u64) {
    let [a, b] = words(n, "w");
    let sep = [&b"/"[..], b".", b"."][rt::choice(2, "sep")];
    go(plain(&[b"/octane-file/", &a[..], sep, &b].concat(), b"some text".to_vec()), 0, vec![]);
}
/// names that have a meaning somewhere
#[no_mangle]
pub extern "C" fn c17_known(_: u64, _: u64) {
    let f = FILES[rt::choice(FILES.len() as u64, "file")];
    let d = ["/octane-file/", "/octane-file/.x/", "/octane-file/d.html/"][rt::choice(3, "dir")];
    let mut c = plain([d, f].concat().as_bytes(), b"some text".to_vec());
    // gzip, a script, HTML, a byte order mark, an image
    c.content = [&b""[..], b"\x1f\x8b\x08\x00", b"#!/bin/sh\n", b"<html>", b"\xef\xbb\xbfx", b"\x89PNG\r\n\x1a\n", b"a\r\nb\n", b"\x00"][rt::choice(8, "content")].to_vec();
    go(c, 0, vec![]);
}
