//! C24: the listener keeps accepting and serving connections.
use crate::common::*;
use crate::rt;
use crate::sockets::*;
use octane::prelude::*;
use std::future::Future;
use std::task::Poll;

fn app() -> Octane {
    let mut app = Octane::new();
    app.get("/hello/:name", route_next!(|req, res| {
        let n = req.vars.get("name").map(|n| n.to_string()).unwrap_or_default();
        res.send(&n[..]);
    }))
    .unwrap();
    app
}
/// run a server on that port until nothing happens any more; true if it was still running then,
/// and how often it told that it started
pub fn run(app: Octane, port: u16) -> (Option<bool>, u32) {
    let started = std::cell::Cell::new(0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap();
    let end = rt.block_on(async {
        let mut f = Box::pin(app.listen(port, || started.set(started.get() + 1)));
        futures(move |cx| {
            if NET.get().over {
                return Poll::Ready(None);
            }
            NET.get().waker = Some(cx.waker().clone());
            match f.as_mut().poll(cx) {
                Poll::Ready(r) => Poll::Ready(Some(r.is_ok())),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
    });
    drop(rt);
    (end, started.get())
}
struct F<G>(G);
impl<T, G: FnMut(&mut std::task::Context<'_>) -> Poll<T> + Unpin> Future for F<G> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<T> {
        (self.0)(cx)
    }
}
fn futures<T, G: FnMut(&mut std::task::Context<'_>) -> Poll<T> + Unpin>(g: G) -> F<G> {
    F(g)
}

const ERRORS: [i32; 8] = [103, 4, 71, 24, 23, 105, 12, 1];
const GET: &[u8] = b"GET /hello/x HTTP/1.0\r\n\r\n";
const MANY: usize = 100_000;
/// what a connection does, and what has to become of it
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    Served,
    Rejected,
    /// nothing is sent and it stays open
    Waits,
    /// it is closed without an answer
    Gone,
    /// it is not there
    Refused,
}
fn plan(kind: usize) -> (Fate, Peer) {
    use Ev::*;
    let (fate, window, plan) = match kind {
        0 => (Fate::Served, MANY, vec![Arrive, Bytes(GET.to_vec())]),
        1 => (Fate::Served, 20, vec![Arrive, Bytes(GET[..9].to_vec()), Bytes(GET[9..].to_vec()), Window(MANY)]),
        2 => (Fate::Waits, MANY, vec![Arrive]),
        3 => (Fate::Rejected, MANY, vec![Arrive, Bytes(b"GET".to_vec()), Eof]),
        4 => (Fate::Gone, MANY, vec![Arrive, Bytes(b"GET".to_vec()), Reset]),
        5 => (Fate::Rejected, MANY, vec![Arrive, Bytes(b"\r\n\r\n".to_vec())]),
        6 => (Fate::Gone, MANY, vec![Arrive, Reset]),
        7 => (Fate::Waits, 0, vec![Arrive, Bytes(GET.to_vec())]),
        8 => (Fate::Gone, 7, vec![Arrive, Bytes(GET.to_vec()), Reset]),
        9 => (Fate::Served, MANY, vec![Arrive, Bytes(GET.to_vec()), Eof]),
        10 => (Fate::Refused, MANY, vec![Refuse(ERRORS[rt::choice(8, "error")])]),
        _ => (Fate::Served, MANY, vec![Scarce(24), Bytes(GET.to_vec())]),
    };
    (fate, peer(window, plan))
}
fn judge(p: &Peer, fate: Fate, name: &[u8]) {
    rt::check(p.accepted, "C24 every connection is accepted");
    match fate {
        Fate::Served => {
            let r = expect_response(&p.out);
            rt::check(r.status == 200 && r.body == name, "C24 every complete request gets its own response");
            rt::check(p.closed, "C24 a connection that was answered is closed");
            rt::cover("served");
        }
        Fate::Rejected => {
            let r = expect_response(&p.out);
            rt::check(r.status == 400 && is_error_page(&r, 400), "C24 a request that is not complete is answered with 400");
            rt::check(p.closed, "C24 a connection that was answered is closed");
        }
        Fate::Waits => {
            rt::check(p.out.is_empty() && !p.closed, "C24 a connection whose peer is slow is kept");
            rt::cover("waits");
        }
        Fate::Gone => {
            rt::check(p.out.is_empty() || p.out.len() <= 7 && b"HTTP/1.".starts_with(&p.out), "C24 a broken connection gets at most the beginning of its response");
            rt::check(p.closed, "C24 a broken connection is closed");
        }
        Fate::Refused => {
            rt::check(p.out.is_empty(), "C24 nothing is sent to a connection that is not there");
            rt::cover("refused");
        }
    }
}
fn finish(fates: &[Fate], port: u16, end: Option<bool>, started: u32) {
    let n = NET.get();
    rt::check(n.bad.is_empty(), "C24 the sockets are used properly");
    rt::check(end.is_none(), "C24 the server goes on whatever happens on connections");
    rt::check(started == 1, "C24 the server tells once that it started");
    rt::check(n.listening && n.port == port as i32 && n.address == [0; 4], "C24 the server listens on the port it was given");
    for (p, f) in n.peers.iter().zip(fates) {
        rt::note_bytes(&p.out, "out");
        judge(p, *f, b"x");
    }
    rt::check(n.left_open() == 0, "C24 no descriptor is left");
    rt::note(n.waits as u64, "waits");
}
/// n connections of any kind, and a good one, in any order of events
#[no_mangle]
pub extern "C" fn c24_kinds(n: u64, together: u64) {
    rt::budget(50_000_000);
    let mut fates = vec![];
    for i in 0..n + 1 {
        let k = if i == n { 0 } else { rt::choice(11, "kind") };
        let (f, p) = plan(k);
        fates.push(f);
        NET.get().peers.push(p);
    }
    NET.get().together = together == 1;
    let (end, started) = run(app(), 80);
    finish(&fates, 80, end, started);
}
/// no descriptor is left for a connection until another one is closed
#[no_mangle]
pub extern "C" fn c24_scarce(_: u64, _: u64) {
    rt::budget(50_000_000);
    let mut fates = vec![];
    for k in [[0, 1, 3, 4, 5, 6, 8][rt::choice(7, "kind")], 11, 0] {
        let (f, p) = plan(k);
        fates.push(f);
        NET.get().peers.push(p);
    }
    let (end, started) = run(app(), 80);
    finish(&fates, 80, end, started);
    rt::cover("scarce");
}
/// any n bytes on a connection, then another one
#[no_mangle]
pub extern "C" fn c24_bytes(n: u64, _: u64) {
    rt::budget(50_000_000);
    let b = rt::vec(n as usize, "b");
    let net = NET.get();
    net.peers.push(peer(MANY, vec![Ev::Arrive, Ev::Bytes(b), Ev::Bytes(b"\r\n\r\n".to_vec())]));
    let (f, p) = plan(0);
    net.peers.push(p);
    let (end, started) = run(app(), 80);
    let r = expect_response(&net.peers[0].out);
    rt::check(is_error_page(&r, 400), "C24 bytes that are no request are answered with 400");
    finish(&[Fate::Rejected, f], 80, end, started);
}
/// a connection that stalls anywhere, while others are served
#[no_mangle]
pub extern "C" fn c24_stalled(all: u64, _: u64) {
    rt::budget(50_000_000);
    let net = NET.get();
    let i = rt::choice(GET.len() as u64 + 1, "i");
    let k = if all == 1 { rt::choice(150, "k") } else { [0, 1, 16, 17, 60, 101, 102, 103][rt::choice(8, "k")] };
    net.peers.push(peer(k, vec![Ev::Arrive, Ev::Bytes(GET[..i].to_vec()), Ev::Bytes(GET[i..].to_vec()), Ev::Window(MANY)]));
    let (_, p) = plan(0);
    net.peers.push(p);
    let (_, p) = plan(0);
    net.peers.push(p);
    net.order = [[0, 0, 1, 1, 0, 2, 2, 0], [1, 0, 0, 1, 0, 2, 2, 0], [0, 1, 2, 1, 2, 0, 0, 0]][rt::choice(3, "order")].iter().copied().collect();
    let (end, started) = run(app(), 80);
    finish(&[Fate::Served; 3], 80, end, started);
}
/// many connections at once
#[no_mangle]
pub extern "C" fn c24_many(_: u64, _: u64) {
    rt::budget(500_000_000);
    let net = NET.get();
    let n = [1, 2, 31, 32, 33, 61, 64, 129, 257, 300, 600, 1100][rt::choice(12, "n")];
    let mode = rt::choice(5, "mode");
    let mut fates = vec![];
    for i in 0..n {
        let (f, p) = plan(match mode {
            3 if i % 3 != 0 => 4,
            // all but the last send nothing
            4 if i + 1 < n => 2,
            _ => 0,
        });
        fates.push(f);
        net.peers.push(p);
    }
    let steps: Vec<usize> = net.peers.iter().map(|p| p.plan.len()).collect();
    let top = if mode == 3 { 3 } else { 2 };
    match mode {
        // all arrive, then all send; the last one first
        0 => net.order = (0..n).chain((0..n).rev()).collect(),
        // one after another
        1 => net.order = (0..n).flat_map(|i| [i, i]).collect(),
        // all there before the server looks
        2 => {
            net.order = (0..n).flat_map(|i| [i, i]).collect();
            net.at_once = true;
        }
        4 => net.order = (0..n).chain(Some(n - 1)).collect(),
        _ => net.order = (0..top).flat_map(|k| (0..n).filter(|i| k < steps[*i]).collect::<Vec<_>>()).collect(),
    }
    let (end, started) = run(app(), 80);
    finish(&fates, 80, end, started);
    rt::cover("many");
}
/// any port, used a moment ago or not
#[no_mangle]
pub extern "C" fn c24_start(_: u64, _: u64) {
    rt::budget(50_000_000);
    let b = rt::vec(2, "port");
    let port = u16::from_be_bytes([b[0], b[1]]);
    let net = NET.get();
    net.lingering = rt::choice(2, "lingering") == 1;
    let (f, p) = plan(0);
    net.peers.push(p);
    let (end, started) = run(app(), port);
    finish(&[f], port, end, started);
    rt::cover("started");
}
/// a port that can not be had
#[no_mangle]
pub extern "C" fn c24_failed(_: u64, _: u64) {
    rt::budget(50_000_000);
    let net = NET.get();
    let e = [98, 13, 99, 24, 105][rt::choice(5, "error")];
    match rt::choice(3, "what") {
        0 => net.socket_error = e,
        1 => net.bind_error = e,
        _ => net.listen_error = e,
    }
    // other ports can be had
    let port = [80, 8080, 443][rt::choice(3, "port")];
    net.taken = port as i32;
    let (f, p) = plan(0);
    let _ = f;
    net.peers.push(p);
    let (end, started) = run(app(), port);
    rt::check(end == Some(false), "C24 a server that can not listen tells so");
    rt::check(started <= 1 && net.left_open() == 0 && net.bad.is_empty(), "C24 no descriptor is left");
    rt::cover("failed");
}
