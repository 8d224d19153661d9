// Helpers shared by the demonstrations: a server on a free local port and a client that talks raw bytes to it.
#![allow(dead_code)]
use octane::prelude::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;

pub fn start(app: Octane) -> u16 {
    let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        rt.block_on(async move { app.listen(port, || {}).await.unwrap() });
    });
    for _ in 0..200 {
        if TcpStream::connect(("127.0.0.1", port)).is_ok() {
            return port;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    panic!("the server does not start");
}
/// Send the pieces with pauses in between, then end the sending side; everything that comes back.
pub fn talk(port: u16, pieces: &[&[u8]]) -> Vec<u8> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).unwrap();
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    for (i, p) in pieces.iter().enumerate() {
        if i > 0 {
            std::thread::sleep(Duration::from_millis(150));
        }
        if s.write_all(p).is_err() {
            break;
        }
    }
    let _ = s.shutdown(Shutdown::Write);
    let mut out = Vec::new();
    let mut buf = [0u8; 65536];
    loop {
        match s.read(&mut buf) {
            Ok(0) | Err(_) => return out,
            Ok(n) => out.extend_from_slice(&buf[..n]),
        }
    }
}
#[derive(Debug, Clone)]
pub struct Reply {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn header(&self, n: &str) -> Vec<String> {
        self.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect()
    }
}
pub fn parse(raw: &[u8]) -> Reply {
    let i = raw.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or_else(|| {
        println!("FAIL: no response: {:?}", String::from_utf8_lossy(raw));
        std::process::exit(1)
    });
    let head = String::from_utf8(raw[..i].to_vec()).unwrap();
    let mut l = head.split("\r\n");
    let status = l.next().unwrap().split(' ').nth(1).unwrap().parse().unwrap();
    let headers = l
        .map(|x| {
            let c = x.find(':').unwrap();
            (x[..c].to_lowercase(), x[c + 1..].trim().to_owned())
        })
        .collect();
    Reply { status, headers, body: raw[i + 4..].to_vec() }
}
pub fn get(port: u16, target: &str) -> Reply {
    parse(&talk(port, &[format!("GET {} HTTP/1.1\r\nHost: x\r\n\r\n", target).as_bytes()]))
}
pub fn check<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("FAIL: {}: got {:?}, want {:?}", what, got, want);
        std::process::exit(1);
    }
    println!("ok: {}", what);
}
