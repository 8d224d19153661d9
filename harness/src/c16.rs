//! C16: the Date header is the present moment in the format of RFC 7231.
use crate::common::*;
use crate::rt;
use octane::prelude::*;
use octane::responder::Response;
use std::sync::Arc;

const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const MONTHS: [(&str, u64); 12] = [("Jan", 31), ("Feb", 28), ("Mar", 31), ("Apr", 30), ("May", 31), ("Jun", 30), ("Jul", 31), ("Aug", 31), ("Sep", 30), ("Oct", 31), ("Nov", 30), ("Dec", 31)];

pub fn leap(y: u64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// days from 1 Jan 1970 to 1 Jan of a year
pub fn day_of_year_start(y: u64) -> u64 {
    let p = y - 1;
    (p * 365 + p / 4 - p / 100 + p / 400) - (1969 * 365 + 1969 / 4 - 1969 / 100 + 1969 / 400)
}
fn two(out: &mut Vec<u8>, n: u64) {
    out.push(b'0' + (n / 10) as u8);
    out.push(b'0' + (n % 10) as u8);
}
/// the text of a moment: `first` the day number of 1 Jan, d the day of the year
fn text_of(y: u64, month: usize, day: u64, week: usize, h: u64, m: u64, s: u64) -> Vec<u8> {
    let mut o = Vec::with_capacity(32);
    o.extend_from_slice(DAYS[week].as_bytes());
    o.extend_from_slice(b", ");
    two(&mut o, day);
    o.push(b' ');
    o.extend_from_slice(MONTHS[month].0.as_bytes());
    o.push(b' ');
    two(&mut o, y / 100);
    two(&mut o, y % 100);
    o.push(b' ');
    two(&mut o, h);
    o.push(b':');
    two(&mut o, m);
    o.push(b':');
    two(&mut o, s);
    o.extend_from_slice(b" GMT");
    o
}
fn date_now() -> Vec<u8> {
    let mut r = Response::default();
    r.default_headers();
    match r.headers.get("Date") {
        Some(d) => d.clone().into_bytes(),
        None => {
            rt::check(false, "C16 a response has a Date");
            unreachable!()
        }
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}
/// a time of the day, of one of several blocks that together are the whole day
fn clock(block: usize) -> (u64, u64, u64) {
    let lo = |b: bool| if b { rt::range(9, "low") } else { 0 };
    let hi = |b: bool, max: u64, n: &str| if b { 10 + rt::range(max - 10, n) } else { 0 };
    match block {
        0 => (0, 0, 0),
        1 => (hi(true, 23, "h"), hi(true, 59, "m"), hi(true, 59, "s")),
        k => {
            let k = k - 2;
            // each of the three below ten (and the seconds not 0), or ten and above
            let part = |bit: bool, max: u64, n: &str| if bit { hi(true, max, n) } else { lo(true) };
            let h = part(k & 1 == 1, 23, "h");
            let m = part(k & 2 == 2, 59, "m");
            let s = if k & 4 == 4 { hi(true, 59, "s") } else { 1 + rt::range(8, "s") };
            (h, m, s)
        }
    }
}
fn go(y: u64, block: usize) {
    let month = rt::choice(12, "month");
    let mut start = day_of_year_start(y);
    for i in 0..month {
        start += MONTHS[i].1 + (i == 1 && leap(y)) as u64;
    }
    let n = MONTHS[month].1 + (month == 1 && leap(y)) as u64;
    // the day of the month, counted from 0: 7 * w + r
    let r = rt::choice(7, "r") as u64;
    let mut w = rt::range((n - 1 - r) / 7, "w");
    if n == 29 && r == 0 {
        // one path for each of these days: the last ends the cycles of 4, 100 and 400 years
        w = rt::concretize(w);
    }
    let d = 7 * w + r;
    let (h, m, s) = clock(block);
    NOW.get().0 = (86400 * (start + d) + 3600 * h + 60 * m + s) as i64;
    let week = ((start + r + 3) % 7) as usize; // 1 Jan 1970 was a Thursday
    let got = date_now();
    rt::check(same(&got, &text_of(y, month, d + 1, week, h, m, s)), "C16 the Date header is the moment of the response");
    rt::cover("date");
}
/// every day of the years from `from` to `to`, at midnight and in a block of the day
#[no_mangle]
pub extern "C" fn c16_days(from: u64, to: u64) {
    let y = from + rt::choice(to - from + 1, "y") as u64;
    go(y, rt::choice(2, "block"));
}
/// centuries: years around those that are no leap years, or leap years after all
#[no_mangle]
pub extern "C" fn c16_centuries(_: u64, _: u64) {
    let c = 20 + rt::choice(80, "c") as u64;
    let y = c * 100 + rt::choice(3, "y") as u64 - 1;
    go(y, rt::choice(2, "block"));
}
/// every second of the day, in some years
#[no_mangle]
pub extern "C" fn c16_clock(_: u64, _: u64) {
    let y = [1970, 1999, 2000, 2024, 2100, 9999][rt::choice(6, "y")];
    go(y, rt::choice(10, "block"));
}
/// two responses one after the other, at any two moments of a day
#[no_mangle]
pub extern "C" fn c16_twice(_: u64, _: u64) {
    let mut app = Octane::new();
    app.get("/a", route_next!(|req, res| { res.send("x") })).unwrap();
    let app = Arc::new(app);
    let inps: [&[u8]; 2] = [b"GET /a HTTP/1.0\r\n\r\n", b"GET /none HTTP/1.0\r\n\r\n"];
    for _ in 0..2 {
        let (h, m, s) = clock(1);
        *NOW.get() = ((86400 * day_of_year_start(2031) + 3600 * h + 60 * m + s) as i64, 0);
        let r = expect_response(&serve_bytes(&app, inps[rt::choice(2, "k")]));
        let want = text_of(2031, 0, 1, 2, h, m, s);
        rt::check(r.one("date").map_or(false, |d| same(d.as_bytes(), &want)), "C16 every response carries the moment it was sent");
    }
    rt::cover("twice");
}
/// what is sent carries the moment of sending, on every kind of response
#[no_mangle]
pub extern "C" fn c16_sent(_: u64, _: u64) {
    let mut app = Octane::new();
    app.get("/a", route_next!(|req, res| { res.send("x") })).unwrap();
    app.get(
        "/twice",
        route_next!(|req, res| {
            res.send("x");
            NOW.get().0 += 3600;
            res.send("y")
        }),
    )
    .unwrap();
    app.get("/own", route_next!(|req, res| { res.set("Date", "old").send("x") })).unwrap();
    let app = Arc::new(app);
    let k = rt::choice(6, "k");
    let inp: &[u8] = [
        b"GET /a HTTP/1.0\r\n\r\n" as &[u8],
        b"GET /twice HTTP/1.0\r\n\r\n",
        b"GET /own HTTP/1.0\r\n\r\n",
        b"GET /none HTTP/1.0\r\n\r\n",
        b"BREW /a HTTP/1.0\r\n\r\n",
        b"nonsense",
    ][k];
    let (h, m, s) = clock(1);
    let ns = rt::range(999_999_999, "ns");
    *NOW.get() = ((86400 * day_of_year_start(2031) + 3600 * (h - 10) + 60 * m + s) as i64, ns as i64);
    let r = expect_response(&serve_bytes(&app, inp));
    let h = if k == 1 { h - 9 } else { h - 10 };
    let want = text_of(2031, 0, 1, 2, h, m, s);
    rt::check(r.one("date").map_or(false, |d| same(d.as_bytes(), &want)), "C16 every response carries the moment it was sent");
    rt::note(r.status as u64, "status");
    rt::cover("sent");
}
