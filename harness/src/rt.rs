//! Interface to the symbolic executor.  With feature `native` the same calls
//! read the recorded inputs of a counterexample instead.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn symex_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn symex_range(max: u64, name: *const u8, nl: usize) -> u64;
        fn symex_assume(c: bool);
        fn symex_assert(c: bool, id: *const u8, l: usize);
        fn symex_cover(id: *const u8, l: usize);
        fn symex_hash_mode(m: u64);
        fn symex_budget(n: u64);
        fn symex_concretize(v: u64) -> u64;
        fn symex_note(v: u64, id: *const u8, l: usize);
    }
    pub fn bytes(b: &mut [u8], name: &str) {
        unsafe { symex_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn range(max: u64, name: &str) -> u64 {
        unsafe { symex_range(max, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { symex_assume(c) }
    }
    pub fn check(c: bool, id: &str) {
        unsafe { symex_assert(c, id.as_ptr(), id.len()) }
    }
    pub fn cover(id: &str) {
        unsafe { symex_cover(id.as_ptr(), id.len()) }
    }
    pub fn hash_mode(m: u64) {
        unsafe { symex_hash_mode(m) }
    }
    /// instructions this path may take before it counts as hanging
    pub fn budget(n: u64) {
        unsafe { symex_budget(n) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { symex_concretize(v) }
    }
    pub fn note(v: u64, id: &str) {
        unsafe { symex_note(v, id.as_ptr(), id.len()) }
    }
    pub fn dump(_id: &str, _b: &[u8]) {}
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static INP: RefCell<Vec<(String, Vec<u64>)>> = RefCell::new(Vec::new());
    }
    /// lines: name v v v ...
    pub fn load(path: &str) {
        let t = std::fs::read_to_string(path).expect("replay file");
        let mut v: Vec<(String, Vec<u64>)> = t
            .lines()
            .filter_map(|l| l.strip_prefix("input "))
            .map(|l| {
                let mut w = l.split(' ');
                (w.next().unwrap().to_string(), w.filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
            })
            .collect();
        v.reverse();
        INP.with(|i| *i.borrow_mut() = v);
    }
    fn next(name: &str) -> Vec<u64> {
        match INP.with(|i| i.borrow_mut().pop()) {
            Some((n, v)) if n == name => v,
            x => {
                println!("REPLAY-DIVERGED expected {} got {:?}", name, x.map(|x| x.0));
                std::process::exit(77);
            }
        }
    }
    pub fn bytes(b: &mut [u8], name: &str) {
        let v = next(name);
        for (x, y) in b.iter_mut().zip(v) {
            *x = y as u8;
        }
    }
    pub fn range(_max: u64, name: &str) -> u64 {
        next(name)[0]
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUMPTION-FAILED");
            std::process::exit(78);
        }
    }
    pub fn check(c: bool, id: &str) {
        if !c {
            println!("ASSERTION-FAILED {}", id);
            std::process::exit(41);
        }
    }
    pub fn cover(_id: &str) {}
    pub fn hash_mode(_m: u64) {}
    pub fn budget(_n: u64) {}
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn note(v: u64, id: &str) {
        println!("note {} = {}", id, v);
    }
    pub fn dump(id: &str, b: &[u8]) {
        println!("{} = {:?}", id, String::from_utf8_lossy(b));
    }
}
pub use imp::*;

/// a solver-chosen value in 0..n, made concrete (one path per value)
pub fn choice(n: u64, name: &str) -> usize {
    if n <= 1 {
        return 0;
    }
    concretize(range(n - 1, name)) as usize
}
/// a solver-chosen byte vector of fixed length
pub fn vec(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![b'a'; n];
    bytes(&mut v, name);
    v
}

/// an order-independent checksum of what was observed, compared between the
/// symbolic run of a path and its native replay
pub fn note_bytes(b: &[u8], id: &str) {
    let mut s = b.len() as u64;
    for x in b {
        s = s.wrapping_add((*x as u64).wrapping_mul((*x as u64).wrapping_add(7)));
    }
    note(s, id)
}
