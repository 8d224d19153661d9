//! The sockets as the runtime sees them: one listening socket, the connections
//! that arrive on it, and the selector that tells about them.  What happens
//! next is decided whenever the runtime waits.
use crate::common::Global;
use crate::rt;
use std::collections::VecDeque;
use std::task::Waker;

pub enum Ev {
    /// the connection can be accepted
    Arrive,
    /// accepting it fails
    Refuse(i32),
    /// accepting it fails as long as another connection is open
    Scarce(i32),
    Bytes(Vec<u8>),
    /// the peer sends nothing more
    Eof,
    /// the peer is gone
    Reset,
    /// the peer takes n more bytes
    Window(usize),
}
pub struct Peer {
    /// what happens on this connection, in order
    pub plan: Vec<Ev>,
    at: usize,
    pub fd: i32,
    inbox: Vec<u8>,
    eof: bool,
    reset: bool,
    /// bytes the peer still takes
    pub window: usize,
    /// what was sent to the peer
    pub out: Vec<u8>,
    pub accepted: bool,
    pub closed: bool,
    pub shut: bool,
}
pub fn peer(window: usize, plan: Vec<Ev>) -> Peer {
    Peer { plan, at: 0, fd: -1, inbox: Vec::new(), eof: false, reset: false, window, out: Vec::new(), accepted: false, closed: false, shut: false }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Socket,
    Peer(usize),
    Event,
    Epoll,
}
struct File {
    kind: Kind,
    open: bool,
    nonblocking: bool,
    watched: bool,
    interest: u32,
    data: u64,
    /// what became ready since the selector told last
    edge: u32,
    /// it told so the last time
    told: bool,
}
pub struct Net {
    files: Vec<File>,
    pub peers: Vec<Peer>,
    /// connections, or errors, waiting to be accepted
    backlog: Vec<(usize, i32)>,
    events: u64,
    pub port: i32,
    pub address: [u8; 4],
    pub listening: bool,
    /// the port was in use a moment ago
    pub lingering: bool,
    reuse: bool,
    pub bind_error: i32,
    /// the port that can not be bound; 0 is any
    pub taken: i32,
    pub listen_error: i32,
    pub socket_error: i32,
    pub bad: &'static str,
    pub over: bool,
    pub waits: usize,
    idle: usize,
    woken: usize,
    /// the connections to which something happens, in order; if empty, any order
    pub order: VecDeque<usize>,
    /// several things may happen between two looks at the sockets
    pub together: bool,
    /// everything happens before the first look
    pub at_once: bool,
    pub waker: Option<Waker>,
}
pub static NET: Global<Net> = Global::new(Net {
    files: Vec::new(),
    peers: Vec::new(),
    backlog: Vec::new(),
    events: 0,
    port: -1,
    address: [0xff; 4],
    listening: false,
    lingering: false,
    reuse: false,
    bind_error: 0,
    taken: 0,
    listen_error: 0,
    socket_error: 0,
    bad: "",
    over: false,
    waits: 0,
    idle: 0,
    woken: 0,
    order: VecDeque::new(),
    together: false,
    at_once: false,
    waker: None,
});
const BASE: i32 = 1_000_000;
const IN: u32 = 1;
const OUT: u32 = 4;
const ERR: u32 = 8;
const HUP: u32 = 16;
const RDHUP: u32 = 0x2000;
const EAGAIN: i32 = 11;
const EBADF: i32 = 9;

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
#[cfg(feature = "native")]
unsafe fn syscall(n: i64, a: i64, b: i64, c: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// writing to the console and the like
#[cfg(not(feature = "native"))]
unsafe fn syscall(n: i64, _: i64, _: i64, c: i64) -> i64 {
    match n {
        1 => c,
        3 => 0,
        _ => fail(EBADF) as i64,
    }
}
impl Net {
    fn file(&mut self, fd: i32) -> Option<&mut File> {
        if fd < BASE {
            return None;
        }
        match self.files.get_mut((fd - BASE) as usize) {
            Some(f) if f.open => Some(f),
            _ => {
                self.bad = "a descriptor is used that is not open";
                None
            }
        }
    }
    fn new_file(&mut self, kind: Kind, nonblocking: bool) -> i32 {
        self.files.push(File { kind, open: true, nonblocking, watched: false, interest: 0, data: 0, edge: 0, told: false });
        BASE + self.files.len() as i32 - 1
    }
    fn peer_of(&mut self, fd: i32) -> Option<usize> {
        match self.file(fd).map(|f| f.kind) {
            Some(Kind::Peer(i)) => Some(i),
            _ => None,
        }
    }
    fn ready(&self, k: Kind) -> u32 {
        match k {
            Kind::Socket if !self.backlog.is_empty() => IN,
            Kind::Event if self.events > 0 => IN | OUT,
            Kind::Peer(i) => {
                let p = &self.peers[i];
                let mut r = 0;
                if !p.inbox.is_empty() || p.eof || p.reset {
                    r |= IN;
                }
                if p.eof {
                    r |= RDHUP;
                }
                if p.window > 0 || p.reset {
                    r |= OUT;
                }
                if p.reset {
                    r |= ERR | HUP | RDHUP;
                }
                r
            }
            _ => 0,
        }
    }
    fn touch(&mut self, k: Kind) {
        let r = self.ready(k);
        for f in self.files.iter_mut() {
            if f.open && f.watched && f.kind == k {
                f.edge |= r;
            }
        }
    }
    /// the next thing happens to connection i
    fn step(&mut self, i: usize) {
        let p = &mut self.peers[i];
        let mut k = Kind::Peer(i);
        match &mut p.plan[p.at] {
            Ev::Arrive => {
                self.backlog.push((i, 0));
                k = Kind::Socket;
            }
            Ev::Refuse(e) => {
                self.backlog.push((i, *e));
                k = Kind::Socket;
            }
            Ev::Scarce(e) => {
                self.backlog.push((i, -*e));
                k = Kind::Socket;
            }
            Ev::Bytes(b) => p.inbox.append(b),
            Ev::Eof => p.eof = true,
            Ev::Reset => p.reset = true,
            Ev::Window(n) => p.window += *n,
        }
        p.at += 1;
        self.touch(k);
    }
    fn accept(&mut self, fd: i32, nonblocking: bool) -> i32 {
        match self.file(fd) {
            Some(f) if f.kind == Kind::Socket => {
                if !f.nonblocking {
                    self.bad = "the listening socket blocks";
                }
            }
            _ => return fail(EBADF),
        }
        if self.backlog.is_empty() {
            return fail(EAGAIN);
        }
        let (i, e) = self.backlog[0];
        if e < 0 && self.files.iter().any(|f| f.open && matches!(f.kind, Kind::Peer(_))) {
            return fail(-e);
        }
        self.backlog.remove(0);
        self.peers[i].accepted = true;
        if e > 0 {
            return fail(e);
        }
        let fd = self.new_file(Kind::Peer(i), nonblocking);
        self.peers[i].fd = fd;
        fd
    }
    fn recv(&mut self, fd: i32, buf: *mut u8, n: usize) -> isize {
        let blocks = !self.file(fd).map_or(true, |f| f.nonblocking);
        let i = match self.peer_of(fd) {
            Some(i) => i,
            None => return fail(EBADF) as isize,
        };
        let p = &mut self.peers[i];
        if p.reset {
            return fail(104) as isize;
        }
        if p.inbox.is_empty() && n > 0 {
            if p.eof {
                return 0;
            }
            if blocks {
                self.bad = "a connection blocks";
            }
            return fail(EAGAIN) as isize;
        }
        let k = n.min(p.inbox.len());
        unsafe { std::ptr::copy_nonoverlapping(p.inbox.as_ptr(), buf, k) };
        p.inbox.drain(..k);
        k as isize
    }
    fn send(&mut self, fd: i32, buf: *const u8, n: usize) -> isize {
        let i = match self.peer_of(fd) {
            Some(i) => i,
            None => return fail(EBADF) as isize,
        };
        let p = &mut self.peers[i];
        if p.reset || p.shut {
            return fail(32) as isize;
        }
        let k = n.min(p.window);
        if k == 0 && n > 0 {
            return fail(EAGAIN) as isize;
        }
        p.out.extend_from_slice(unsafe { std::slice::from_raw_parts(buf, k) });
        p.window -= k;
        k as isize
    }
    fn wait(&mut self, out: *mut u8, max: i32, timeout: i32) -> i32 {
        self.waits += 1;
        *crate::common::PASSED.get() += 1000;
        let mut told = self.tell(out, max);
        // with something to tell, nothing else has to happen, unless it only wakes itself all the time
        if told == 0 || self.files.iter().any(|f| f.told && f.kind != Kind::Event) {
            self.woken = 0;
        } else {
            self.woken += 1;
        }
        while told == 0 || self.woken > 4 {
            self.woken = 0;
            let mut open: Vec<usize> = Vec::new();
            for (i, p) in self.peers.iter().enumerate() {
                if p.at < p.plan.len() {
                    open.push(i);
                }
            }
            if !self.order.is_empty() {
                let i = self.order.pop_front().unwrap();
                self.step(i);
                if self.at_once && !self.order.is_empty() {
                    continue;
                }
            } else if !open.is_empty() {
                let i = open[rt::choice(open.len() as u64, "next")];
                self.step(i);
                // it may find several things at once
                if self.together && open.len() > 1 && rt::choice(2, "more") == 1 {
                    continue;
                }
            } else if (timeout == 0 || told > 0) && self.idle < 200 {
                // it is busy with something else
                self.idle += 1;
                return told;
            } else {
                // the end of the run
                rt::check(!self.over, "C24 the server ends when it is told to");
                self.over = true;
                if let Some(w) = self.waker.take() {
                    w.wake();
                }
            }
            told += self.tell(unsafe { out.add(told as usize * 12) }, max - told);
            if timeout == 0 {
                break;
            }
        }
        told
    }
    fn tell(&mut self, out: *mut u8, max: i32) -> i32 {
        let mut n = 0;
        for f in self.files.iter_mut() {
            let e = f.edge & (f.interest | ERR | HUP);
            if f.open && f.watched && e != 0 && n < max {
                unsafe {
                    let p = out.add(n as usize * 12);
                    (p as *mut u32).write_unaligned(e);
                    (p.add(4) as *mut u64).write_unaligned(f.data);
                }
                f.edge = 0;
                n += 1;
                f.told = true;
            } else {
                f.told = false;
            }
        }
        n
    }
    /// descriptors of connections that are still open
    pub fn left_open(&self) -> usize {
        self.files.iter().filter(|f| f.open).count()
    }
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, kind: i32, _proto: i32) -> i32 {
    let n = NET.get();
    if n.socket_error != 0 {
        return fail(n.socket_error);
    }
    if domain != 2 && domain != 10 || kind & 0xf != 1 {
        n.bad = "a socket that is not for TCP";
    }
    n.new_file(Kind::Socket, kind & 0o4000 != 0)
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, _len: u32) -> i32 {
    let n = NET.get();
    if n.file(fd).is_none() {
        return fail(EBADF);
    }
    if level == 1 && name == 2 {
        n.reuse = *val != 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, _level: i32, _name: i32, val: *mut i32, _len: *mut u32) -> i32 {
    if NET.get().file(fd).is_none() {
        return fail(EBADF);
    }
    *val = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, addr: *const u8, _len: u32) -> i32 {
    let n = NET.get();
    if n.file(fd).is_none() {
        return fail(EBADF);
    }
    let port = (*addr.add(2) as i32) << 8 | *addr.add(3) as i32;
    if n.bind_error != 0 && (n.taken == 0 || n.taken == port) {
        return fail(n.bind_error);
    }
    if n.lingering && !n.reuse {
        return fail(98);
    }
    n.port = port;
    if *(addr as *const u16) == 2 {
        for i in 0..4 {
            n.address[i] = *addr.add(4 + i);
        }
    } else {
        n.address = [0; 4];
        for i in 0..16 {
            n.address[i % 4] |= *addr.add(8 + i);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: i32, backlog: i32) -> i32 {
    let n = NET.get();
    if n.file(fd).is_none() {
        return fail(EBADF);
    }
    if n.listen_error != 0 {
        return fail(n.listen_error);
    }
    n.listening = n.port >= 0 && backlog > 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, addr: *mut u8, len: *mut u32, flags: i32) -> i32 {
    let r = NET.get().accept(fd, flags & 0o4000 != 0);
    if r >= 0 && !addr.is_null() {
        name(addr, len);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    accept4(fd, addr, len, 0)
}
unsafe fn name(addr: *mut u8, len: *mut u32) {
    for (i, b) in [2u8, 0, 0x30, 0x39, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0].iter().enumerate() {
        if i < *len as usize {
            *addr.add(i) = *b;
        }
    }
    *len = 16;
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(_fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    name(addr, len);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(_fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    name(addr, len);
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: *const i32) -> i32 {
    if fd < BASE {
        return syscall(16, fd as i64, req as i64, arg as i64) as i32;
    }
    match NET.get().file(fd) {
        Some(f) if req == 0x5421 => {
            f.nonblocking = *arg != 0;
            0
        }
        _ => fail(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd < BASE {
        return syscall(72, fd as i64, cmd as i64, arg) as i32;
    }
    let n = NET.get();
    let f = match n.file(fd) {
        Some(f) => f,
        None => return fail(EBADF),
    };
    match cmd {
        0 | 1030 => {
            let (k, b) = (f.kind, f.nonblocking);
            n.new_file(k, b)
        }
        3 => (f.nonblocking as i32) << 11,
        4 => {
            f.nonblocking = arg & 0o4000 != 0;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: i64) -> i32 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: u32, flags: i32) -> i32 {
    NET.get().events = init as u64;
    NET.get().new_file(Kind::Event, flags & 0o4000 != 0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(_flags: i32) -> i32 {
    NET.get().new_file(Kind::Epoll, false)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *const u8) -> i32 {
    let n = NET.get();
    if n.file(ep).is_none() || n.file(fd).is_none() {
        return fail(EBADF);
    }
    let k = n.file(fd).unwrap().kind;
    let r = n.ready(k);
    let f = n.file(fd).unwrap();
    if op == 2 {
        f.watched = false;
        return 0;
    }
    f.watched = true;
    f.interest = (ev as *const u32).read_unaligned();
    f.data = (ev.add(4) as *const u64).read_unaligned();
    f.edge = r;
    0
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(_ep: i32, out: *mut u8, max: i32, timeout: i32) -> i32 {
    NET.get().wait(out, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, n: usize, _flags: i32) -> isize {
    NET.get().recv(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, n: usize, _flags: i32) -> isize {
    NET.get().send(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    let n = NET.get();
    if let Some(i) = n.peer_of(fd) {
        if how > 0 {
            n.peers[i].shut = true;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd < BASE {
        return syscall(0, fd as i64, buf as i64, n as i64) as isize;
    }
    let net = NET.get();
    if net.file(fd).map(|f| f.kind == Kind::Event) == Some(true) {
        if net.events == 0 {
            return fail(EAGAIN) as isize;
        }
        (buf as *mut u64).write_unaligned(net.events);
        net.events = 0;
        return 8;
    }
    net.recv(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd < BASE {
        return syscall(1, fd as i64, buf as i64, n as i64) as isize;
    }
    let net = NET.get();
    if net.file(fd).map(|f| f.kind == Kind::Event) == Some(true) {
        net.events += (buf as *const u64).read_unaligned();
        net.touch(Kind::Event);
        return 8;
    }
    net.send(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const (*const u8, usize), n: i32) -> isize {
    let mut sum = 0;
    for i in 0..n as usize {
        let (p, l) = *iov.add(i);
        if l == 0 {
            continue;
        }
        let k = write(fd, p, l);
        if k < 0 {
            return if sum > 0 { sum } else { k };
        }
        sum += k;
        if (k as usize) < l {
            break;
        }
    }
    sum
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < BASE {
        return syscall(3, fd as i64, 0, 0) as i32;
    }
    let n = NET.get();
    match n.file(fd) {
        Some(f) => {
            f.open = false;
            f.watched = false;
            if let Kind::Peer(i) = f.kind {
                // not by the end of the server
                n.peers[i].closed = !n.over;
            }
            0
        }
        None => {
            n.bad = "a descriptor is closed twice";
            fail(EBADF)
        }
    }
}
