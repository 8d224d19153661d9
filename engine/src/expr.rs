//! Hash-consed bit-vector expressions with local simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}

pub const VW: usize = 6; // 384 symbolic variables per path
pub type VarSet = [u64; VW];

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128, // const value, var index or extract low bit
    pub vars: VarSet,
    pub lo: u128, // unsigned interval
    pub hi: u128,
}

#[derive(PartialEq, Eq, Hash)]
struct Key(Op, u32, u32, u32, u32, u128);

pub struct Arena {
    pub nodes: Vec<Node>,
    tab: FxMap<Key, Ex>,
    /// what a sequence of bytes (lowest first) was split from
    pub whole: FxMap<Vec<Ex>, Ex>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

const Z: Ex = Ex(0);

/// k + sum of coefficient * unsigned value of atom, over the integers
struct Lin {
    t: Vec<(Ex, i128)>,
    k: i128,
}
impl Lin {
    fn plus(mut self, o: &Lin, f: i128) -> Option<Lin> {
        for (e, c) in &o.t {
            let c = c.checked_mul(f)?;
            match self.t.iter_mut().find(|x| x.0 == *e) {
                Some(x) => x.1 = x.1.checked_add(c)?,
                None => self.t.push((*e, c)),
            }
        }
        self.t.retain(|x| x.1 != 0);
        if self.t.len() > 12 {
            return None;
        }
        self.k = self.k.checked_add(o.k.checked_mul(f)?)?;
        Some(self)
    }
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::new());
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            tab: FxMap::default(),
            whole: FxMap::default(),
            memo: Vec::new(),
            epoch: 0,
        };
        a.raw(Op::Const, 1, Z, Z, Z, 0); // id 0: reserved, false
        a
    }
    fn raw(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
        let key = Key(op, w, a.0, b.0, c.0, k);
        if let Some(e) = self.tab.get(&key) {
            return *e;
        }
        let mut vars: VarSet = [0; VW];
        let (mut lo, mut hi) = (0u128, mask(w));
        match op {
            Op::Const => {
                lo = k;
                hi = k;
            }
            Op::Var => {
                assert!((k as usize) < 64 * VW, "too many symbolic variables");
                vars[(k / 64) as usize] |= 1 << (k % 64);
                hi = b.0 as u128;
            }
            _ => {
                let n = match op {
                    Op::Not | Op::Extract | Op::ZExt | Op::SExt => 1,
                    Op::Ite => 3,
                    _ => 2,
                };
                for (i, e) in [a, b, c].iter().enumerate() {
                    if i < n {
                        let nv = self.nodes[e.0 as usize].vars;
                        for j in 0..VW {
                            vars[j] |= nv[j];
                        }
                    }
                }
                let (na, nb, nc) = (self.n(a), self.n(b), self.n(c));
                match op {
                    Op::ZExt => {
                        lo = na.lo;
                        hi = na.hi;
                    }
                    Op::Ite => {
                        lo = nb.lo.min(nc.lo);
                        hi = nb.hi.max(nc.hi);
                    }
                    Op::And => {
                        hi = na.hi.min(nb.hi);
                    }
                    Op::Or | Op::Xor => {
                        let m = na.hi | nb.hi;
                        let bits = 128 - m.leading_zeros();
                        hi = mask(bits).min(hi);
                        if bits == 0 {
                            hi = 0;
                        }
                        if op == Op::Or {
                            lo = na.lo.max(nb.lo);
                        }
                    }
                    Op::Add => {
                        if let (Some(l), Some(h)) = (na.lo.checked_add(nb.lo), na.hi.checked_add(nb.hi)) {
                            if h <= mask(w) {
                                lo = l;
                                hi = h;
                            } else if l > mask(w) && (h as u128) - (l as u128) <= mask(w) && (l & mask(w)) <= (h & mask(w)) && h - l < mask(w) {
                                // both wrap exactly once
                                if w < 127 && h < (mask(w) + 1) * 2 {
                                    lo = l & mask(w);
                                    hi = h & mask(w);
                                }
                            }
                        }
                    }
                    Op::Sub => {
                        if na.lo >= nb.hi {
                            lo = na.lo - nb.hi;
                            hi = na.hi - nb.lo;
                        }
                    }
                    Op::Mul => {
                        if let (Some(l), Some(h)) = (na.lo.checked_mul(nb.lo), na.hi.checked_mul(nb.hi)) {
                            if h <= mask(w) {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::UDiv => {
                        if nb.lo > 0 {
                            lo = na.lo / nb.hi;
                            hi = na.hi / nb.lo;
                        }
                    }
                    Op::URem => {
                        if nb.lo > 0 {
                            hi = na.hi.min(nb.hi - 1);
                            if nb.lo == nb.hi && na.hi < nb.lo {
                                lo = na.lo;
                            }
                        }
                    }
                    Op::LShr => {
                        if nb.lo == nb.hi && nb.lo < w as u128 {
                            lo = na.lo >> nb.lo;
                            hi = na.hi >> nb.lo;
                        }
                    }
                    Op::Shl => {
                        if nb.lo == nb.hi && nb.lo < w as u128 {
                            let s = nb.lo as u32;
                            if (na.hi.leading_zeros()) > s && (na.hi << s) <= mask(w) {
                                lo = na.lo << s;
                                hi = na.hi << s;
                            }
                        }
                    }
                    Op::Extract => {
                        if k == 0 && na.hi <= mask(w) {
                            lo = na.lo;
                            hi = na.hi;
                        }
                    }
                    Op::Concat => {
                        let lw = nb.w;
                        lo = (na.lo << lw) | nb.lo;
                        hi = (na.hi << lw) | nb.hi;
                    }
                    _ => {}
                }
            }
        }
        let e = Ex(self.nodes.len() as u32);
        self.nodes.push(Node { op, w, a, b, c, k, vars, lo, hi });
        self.memo.push((0, 0));
        self.tab.insert(key, e);
        e
    }
    #[inline]
    pub fn n(&self, e: Ex) -> &Node {
        &self.nodes[e.0 as usize]
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.n(e).w
    }
    pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Ex {
        self.raw(Op::Const, w, Z, Z, Z, v & mask(w))
    }
    /// fresh variable `idx` of width `w` with values in 0..=hi
    pub fn var(&mut self, idx: u32, w: u32, hi: u32) -> Ex {
        self.raw(Op::Var, w, Z, Ex(hi), Z, idx as u128)
    }
    pub fn raw_ule(&mut self, a: Ex, b: Ex) -> Ex {
        self.raw(Op::Ule, 1, a, b, Z, 0)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.n(a).clone();
        match n.op {
            Op::Const => self.konst(!n.k, n.w),
            Op::Not => n.a,
            Op::Ult if n.w == 1 => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule if n.w == 1 => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt if n.w == 1 => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle if n.w == 1 => self.cmp(Op::Slt, n.b, n.a),
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let (x, y) = (self.not(n.b), self.not(n.c));
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::Not, n.w, a, Z, Z, 0),
        }
    }
    fn is_const(&self, e: Ex) -> bool {
        self.n(e).op == Op::Const
    }
    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sext(x, w) >> s) as u128
            }
            _ => unreachable!(),
        };
        r & m
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(Self::fold(op, w, x, y), w);
        }
        let (mut a, mut b) = (a, b);
        // canonical: constant on the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && (self.is_const(a) || (!self.is_const(b) && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cval(b) {
            let m = mask(w);
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Sub => {
                    let nb = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nb);
                }
                Op::Mul if y == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if y == 1 => return a,
                Op::URem if y == 1 => return self.konst(0, w),
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Xor if y == m => return self.not(a),
                Op::Shl | Op::LShr if y >= w as u128 => return self.konst(0, w),
                Op::UDiv if y.is_power_of_two() => {
                    let s = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if y.is_power_of_two() => {
                    let s = self.konst(y - 1, w);
                    return self.bin(Op::And, a, s);
                }
                Op::Mul if y.is_power_of_two() => {
                    let s = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                _ => {}
            }
            let na = self.n(a).clone();
            // (x op c1) op c2
            if na.op == op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor | Op::Mul) {
                if let Some(c1) = self.cval(na.b) {
                    let c = self.konst(Self::fold(op, w, c1, y), w);
                    return self.bin(op, na.a, c);
                }
            }
            if matches!(op, Op::UDiv | Op::URem) && na.hi < y {
                return if op == Op::UDiv { self.konst(0, w) } else { a };
            }
            // signed division of a value known to be non-negative
            if matches!(op, Op::SDiv | Op::SRem) && na.hi < (1u128 << (w - 1)) && y < (1u128 << (w - 1)) && y > 0 {
                return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
            // (c*x + r) / c with r < c and no overflow
            if matches!(op, Op::UDiv | Op::URem) && na.op == Op::Add {
                let (p, q) = (na.a, na.b);
                for (p, q) in [(p, q), (q, p)] {
                    let np = self.n(p).clone();
                    if np.op == Op::Mul && self.cval(np.b) == Some(y) && self.n(q).hi < y {
                        let xh = self.n(np.a).hi;
                        if xh.checked_mul(y).and_then(|v| v.checked_add(y)).map_or(false, |v| v <= m) {
                            return if op == Op::UDiv { np.a } else { q };
                        }
                    }
                }
            }
            if op == Op::AShr {
                let half = 1u128 << (w - 1);
                if na.hi < half {
                    return self.bin(Op::LShr, a, b);
                }
                if y >= w as u128 - 1 {
                    if na.lo >= half {
                        return self.konst(m, w);
                    }
                    if w <= 64 && matches!(na.op, Op::Add | Op::Sub | Op::Mul) {
                        if let Some((lo, hi)) = self.slin(a, 12).and_then(|l| self.lrange(&l)) {
                            if lo >= 0 || hi < 0 {
                                return self.konst(if lo >= 0 { 0 } else { m }, w);
                            }
                        }
                    }
                }
            }
            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                if let Some(r) = self.divide(op, a, y, w) {
                    return r;
                }
            }
            if op == Op::Add && na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
                let (x, z) = (self.bin(op, na.b, b), self.bin(op, na.c, b));
                return self.ite(na.a, x, z);
            }
            if op == Op::And {
                // low-bit masks on zext/concat
                if y & (y + 1) == 0 {
                    let k = 128 - y.leading_zeros();
                    if na.hi <= y {
                        return a;
                    }
                    if k < w {
                        let lo = self.extract(a, k - 1, 0);
                        return self.zext(lo, w);
                    }
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    let c = self.konst(y, iw);
                    let i = self.bin(Op::And, na.a, c);
                    return self.zext(i, w);
                }
            }
            if matches!(op, Op::Or | Op::Xor) && na.op == Op::ZExt && y <= mask(self.w(na.a)) {
                let iw = self.w(na.a);
                let c = self.konst(y, iw);
                let i = self.bin(op, na.a, c);
                return self.zext(i, w);
            }
            if op == Op::LShr {
                let s = y as u32;
                let hi = self.extract(a, w - 1, s);
                return self.zext(hi, w);
            }
            if op == Op::Shl {
                let s = y as u32;
                let lo = self.extract(a, w - 1 - s, 0);
                let z = self.konst(0, s);
                return self.concat(lo, z);
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            // boolean absorption
            let nb = self.not(b);
            if nb == a {
                match op {
                    Op::And => return self.konst(0, 1),
                    Op::Or | Op::Xor => return self.konst(1, 1),
                    _ => {}
                }
            }
        }
        // or of disjoint concat pieces: concat(x,0) | zext(y)
        if matches!(op, Op::Or | Op::Add | Op::Xor) && w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let np = self.n(p).clone();
                if np.op == Op::Concat && self.cval(np.b) == Some(0) {
                    let k = self.w(np.b);
                    let nq = self.n(q);
                    if nq.hi <= mask(k) {
                        let lo = self.extract(q, k - 1, 0);
                        return self.concat(np.a, lo);
                    }
                }
                // concat(hi, 0..) where the high part of p is zero: zext(concat(x,0))
                if np.op == Op::ZExt {
                    let ni = self.n(np.a).clone();
                    if ni.op == Op::Concat && self.cval(ni.b) == Some(0) {
                        let k = self.w(ni.b);
                        let (nqhi, nqw) = (self.n(q).hi, self.w(q));
                        if nqhi <= mask(k) {
                            let lo = self.extract(q, k - 1, 0);
                            let cc = self.concat(ni.a, lo);
                            return self.zext(cc, w);
                        }
                        // both zero-extended to the same width: recurse narrower
                        let nq = self.n(q).clone();
                        if op != Op::Add && nq.op == Op::ZExt && self.w(nq.a) == self.w(np.a) && nqw == w {
                            let i = self.bin(op, np.a, nq.a);
                            return self.zext(i, w);
                        }
                        // q = concat(hi, lo) with lo covering p's width and zero low bits there
                        if op != Op::Add && nq.op == Op::Concat {
                            let lw = self.w(nq.b);
                            if lw >= self.w(np.a) {
                                let pe = self.zext(np.a, lw);
                                let lo = self.bin(op, nq.b, pe);
                                return self.concat(nq.a, lo);
                            }
                        }
                    }
                }
            }
        }
        self.raw(op, w, a, b, Z, 0)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.konst(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((x == y) as u128, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.is_const(a) || (!self.is_const(b) && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        {
            let (na, nb) = (self.n(a), self.n(b));
            if na.hi < nb.lo || nb.hi < na.lo {
                return self.konst(0, 1);
            }
        }
        if let Some(y) = self.cval(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let na = self.n(a).clone();
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let c = self.konst(y, iw);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let c = self.konst(y, iw);
                    if (sext(y, iw) as u128) & mask(w) != y {
                        return self.konst(0, 1);
                    }
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hc = self.konst(y >> lw, w - lw);
                    let lc = self.konst(y, lw);
                    let h = self.eq(na.a, hc);
                    if self.cval(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(na.b, lc);
                    return self.bin(Op::And, h, l);
                }
                Op::Add => {
                    if let Some(c) = self.cval(na.b) {
                        let k = self.konst(y.wrapping_sub(c), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.cval(na.b) {
                        let k = self.konst(y ^ c, w);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let k = self.konst(!y, w);
                    return self.eq(na.a, k);
                }
                Op::Ite => {
                    let (bc, cc) = (self.is_const(na.b), self.is_const(na.c));
                    if bc || cc {
                        let t = self.eq(na.b, b);
                        let f = self.eq(na.c, b);
                        return self.ite(na.a, t, f);
                    }
                }
                Op::Or if y == 0 => {
                    let z = self.konst(0, w);
                    let t = self.eq(na.a, z);
                    let f = self.eq(na.b, z);
                    return self.bin(Op::And, t, f);
                }
                _ => {}
            }
        } else if w > 1 {
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.bin(Op::And, h, l);
            }
        }
        self.raw(Op::Eq, 1, a, b, Z, 0)
    }
    pub fn cmp(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        if op == Op::Eq {
            return self.eq(a, b);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = match op {
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sext(x, w) < sext(y, w),
                Op::Sle => sext(x, w) <= sext(y, w),
                _ => unreachable!(),
            };
            return self.konst(r as u128, 1);
        }
        if a == b {
            return self.konst(matches!(op, Op::Ule | Op::Sle) as u128, 1);
        }
        let (alo, ahi, blo, bhi) = {
            let (na, nb) = (self.n(a), self.n(b));
            (na.lo, na.hi, nb.lo, nb.hi)
        };
        let half = 1u128 << (w - 1);
        let mut op = op;
        if matches!(op, Op::Slt | Op::Sle) {
            // same sign everywhere: unsigned comparison agrees
            if (ahi < half && bhi < half) || (alo >= half && blo >= half) {
                op = if op == Op::Slt { Op::Ult } else { Op::Ule };
            } else if ahi < half && blo >= half {
                return self.konst(0, 1);
            } else if alo >= half && bhi < half {
                return self.konst(1, 1);
            }
        }
        match op {
            Op::Ult => {
                if ahi < blo {
                    return self.konst(1, 1);
                }
                if alo >= bhi {
                    return self.konst(0, 1);
                }
            }
            Op::Ule => {
                if ahi <= blo {
                    return self.konst(1, 1);
                }
                if alo > bhi {
                    return self.konst(0, 1);
                }
            }
            _ => {}
        }
        if w > 8 {
            let arith = |o: Op| matches!(o, Op::Add | Op::Sub | Op::Mul);
            if arith(self.n(a).op) || arith(self.n(b).op) {
                if let Some(r) = self.lin_cmp(op, a, b, w) {
                    return self.konst(r as u128, 1);
                }
            }
        }
        // canonicalise against constants: x <= c  ==> x < c+1
        if let Some(y) = self.cval(b) {
            if op == Op::Ule && y < mask(w) {
                let c = self.konst(y + 1, w);
                return self.cmp(Op::Ult, a, c);
            }
            if op == Op::Ult && y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
        }
        if let Some(x) = self.cval(a) {
            if op == Op::Ult && x < mask(w) {
                // c < x  ==> !(x < c+1)
                let c = self.konst(x + 1, w);
                let r = self.cmp(Op::Ult, b, c);
                return self.not_raw(r);
            }
            if op == Op::Ule {
                let r = self.cmp(Op::Ult, b, a);
                return self.not_raw(r);
            }
        }
        if matches!(op, Op::Ult | Op::Ule) {
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if let Some(y) = self.cval(b) {
                    if y <= mask(iw) {
                        let c = self.konst(y, iw);
                        return self.cmp(op, na.a, c);
                    }
                }
                if nb.op == Op::ZExt && self.w(nb.a) == iw {
                    return self.cmp(op, na.a, nb.a);
                }
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if let Some(x) = self.cval(a) {
                    if x <= mask(iw) {
                        let c = self.konst(x, iw);
                        return self.cmp(op, c, nb.a);
                    }
                }
            }
            if na.op == Op::Ite && self.is_const(b) && self.is_const(na.b) && self.is_const(na.c) {
                let t = self.cmp(op, na.b, b);
                let f = self.cmp(op, na.c, b);
                return self.ite(na.a, t, f);
            }
        }
        self.raw(op, 1, a, b, Z, 0)
    }
    // negation that keeps `x < c` as the canonical atom
    fn not_raw(&mut self, a: Ex) -> Ex {
        let n = self.n(a).clone();
        match n.op {
            Op::Const => self.konst(!n.k, 1),
            Op::Not => n.a,
            _ => self.raw(Op::Not, 1, a, Z, Z, 0),
        }
    }
    pub fn ite(&mut self, c: Ex, t: Ex, f: Ex) -> Ex {
        if let Some(v) = self.cval(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        if self.n(c).op == Op::Not {
            let nc = self.n(c).a;
            return self.ite(nc, f, t);
        }
        if w == 1 {
            match (self.cval(t), self.cval(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, _), y)
        let nt = self.n(t).clone();
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = self.n(f).clone();
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.raw(Op::Ite, w, c, t, f, 0)
    }
    pub fn extract(&mut self, a: Ex, hi: u32, lo: u32) -> Ex {
        let n = self.n(a).clone();
        let w = hi - lo + 1;
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, hi + n.k as u32, lo + n.k as u32),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let i = self.extract(n.a, iw - 1, lo);
                return self.zext(i, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::Ite if self.is_const(n.b) || self.is_const(n.c) || w <= 8 => {
                let t = self.extract(n.b, hi, lo);
                let f = self.extract(n.c, hi, lo);
                return self.ite(n.a, t, f);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        if n.hi <= mask(lo) && lo > 0 {
            return self.konst(0, w);
        }
        if n.hi.leading_zeros() < 128 {
            // value fits below: drop known-zero top bits
            let vb = 128 - n.hi.leading_zeros();
            if hi >= vb && vb > lo && vb < n.w && lo > 0 {
                let i = self.extract(a, vb - 1, lo);
                return self.zext(i, w);
            }
        }
        self.raw(Op::Extract, w, a, Z, Z, lo as u128)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a).clone();
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.is_const(n.b) && self.is_const(n.c) => {
                let t = self.zext(n.b, w);
                let f = self.zext(n.c, w);
                self.ite(n.a, t, f)
            }
            _ => self.raw(Op::ZExt, w, a, Z, Z, 0),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a).clone();
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(sext(n.k, n.w) as u128, w);
        }
        if n.hi < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.raw(Op::SExt, w, a, Z, Z, 0)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (self.n(h).clone(), self.n(l).clone());
        let w = nh.w + nl.w;
        if let (Op::Const, Op::Const) = (nh.op, nl.op) {
            return self.konst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k as u32 + nl.w == nh.k as u32 {
            return self.extract(nh.a, nh.k as u32 + nh.w - 1, nl.k as u32);
        }
        // extract(x, hi..) ++ low bits of a directly truncated x
        if nh.op == Op::ZExt {
            let i = self.concat(nh.a, l);
            return self.zext(i, w);
        }
        // (x ++ a) ++ b with a,b joinable
        if nh.op == Op::Concat {
            let nhb = self.n(nh.b).clone();
            if (nhb.op == Op::Extract && nl.op == Op::Extract && nhb.a == nl.a && nl.k as u32 + nl.w == nhb.k as u32)
                || (nhb.op == Op::Const && nl.op == Op::Const)
            {
                let j = self.concat(nh.b, l);
                return self.concat(nh.a, j);
            }
        }
        // ite lanes with one condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a && self.is_const(nh.b) && self.is_const(nl.b) && self.is_const(nh.c) && self.is_const(nl.c) {
            let t = self.concat(nh.b, nl.b);
            let f = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, f);
        }
        self.raw(Op::Concat, w, h, l, Z, 0)
    }
    // ------------------------------------------------------------ linear forms
    /// e as a sum of atoms, equal to e modulo 2^w
    fn lin(&self, e: Ex, depth: u32) -> Option<Lin> {
        let n = self.n(e);
        let atom = || Some(Lin { t: vec![(e, 1)], k: 0 });
        if depth == 0 || n.w > 64 {
            return if n.w > 64 { None } else { atom() };
        }
        match n.op {
            Op::Const => Some(Lin { t: vec![], k: sext(n.k, n.w) }),
            Op::Add => self.lin(n.a, depth - 1)?.plus(&self.lin(n.b, depth - 1)?, 1),
            Op::Sub => self.lin(n.a, depth - 1)?.plus(&self.lin(n.b, depth - 1)?, -1),
            Op::Mul => match self.cval(n.b) {
                Some(c) => Lin { t: vec![], k: 0 }.plus(&self.lin(n.a, depth - 1)?, sext(c, n.w)),
                None => atom(),
            },
            Op::Concat => {
                let (h, l) = (self.ulin(n.a, depth - 1)?, self.ulin(n.b, depth - 1)?);
                l.plus(&h, 1i128.checked_shl(self.w(n.b))?)
            }
            Op::ZExt => self.ulin(n.a, depth - 1),
            Op::SExt => {
                let l = self.lin(n.a, depth - 1)?;
                let (lo, hi) = self.lrange(&l)?;
                let h = 1i128 << (self.w(n.a) - 1);
                if lo >= -h && hi < h {
                    Some(l)
                } else {
                    atom()
                }
            }
            Op::Extract if n.k == 0 => self.lin(n.a, depth - 1).or_else(atom),
            _ => atom(),
        }
    }
    /// e as a sum of atoms, equal to e's unsigned value
    fn ulin(&self, e: Ex, depth: u32) -> Option<Lin> {
        let w = self.w(e);
        if w > 64 {
            return None;
        }
        let l = self.lin(e, depth)?;
        match self.lrange(&l) {
            Some((lo, hi)) if lo >= 0 && hi <= mask(w) as i128 => Some(l),
            Some((lo, hi)) if hi < 0 && lo >= -(1i128 << w) => l.plus(&Lin { t: vec![], k: 1i128 << w }, 1),
            _ => Some(Lin { t: vec![(e, 1)], k: 0 }),
        }
    }
    /// e as a sum of atoms, equal to e's signed value
    fn slin(&self, e: Ex, depth: u32) -> Option<Lin> {
        let w = self.w(e);
        let l = self.lin(e, depth)?;
        let (lo, hi) = self.lrange(&l)?;
        let h = 1i128 << (w - 1);
        if lo >= -h && hi < h {
            Some(l)
        } else if lo >= h && hi < 2 * h {
            l.plus(&Lin { t: vec![], k: 2 * h }, -1)
        } else {
            None
        }
    }
    fn lrange(&self, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.k, l.k);
        for (e, c) in &l.t {
            let n = self.n(*e);
            let (x, y) = ((n.lo as i128).checked_mul(*c)?, (n.hi as i128).checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    fn lbuild(&mut self, l: &Lin, w: u32) -> Ex {
        let mut r = self.konst(0, w);
        for (e, c) in &l.t {
            let ew = self.w(*e);
            let x = if ew < w {
                self.zext(*e, w)
            } else if ew > w {
                self.extract(*e, w - 1, 0)
            } else {
                *e
            };
            let k = self.konst(*c as u128, w);
            let p = self.bin(Op::Mul, x, k);
            r = self.bin(Op::Add, r, p);
        }
        let k = self.konst(l.k as u128, w);
        self.bin(Op::Add, r, k)
    }
    /// division of a by the positive constant c
    fn divide(&mut self, op: Op, a: Ex, c: u128, w: u32) -> Option<Ex> {
        if w > 64 || c < 2 {
            return None;
        }
        let signed = matches!(op, Op::SDiv | Op::SRem);
        if signed && c >= 1u128 << (w - 1) {
            return None;
        }
        let quot = matches!(op, Op::UDiv | Op::SDiv);
        let l = if signed { self.slin(a, 12)? } else { self.ulin(a, 12)? };
        let (lo, hi) = self.lrange(&l)?;
        if lo < 0 && hi >= 0 {
            return None;
        }
        let c = c as i128;
        let (mut q, mut b) = (Lin { t: vec![], k: l.k.div_euclid(c) }, Lin { t: vec![], k: l.k.rem_euclid(c) });
        for (e, f) in &l.t {
            let (x, y) = (f.div_euclid(c), f.rem_euclid(c));
            if x != 0 {
                q.t.push((*e, x));
            }
            if y != 0 {
                b.t.push((*e, y));
            }
        }
        let (blo, bhi) = self.lrange(&b)?;
        let progress = !q.t.is_empty() || q.k != 0 || l.t.len() > 1 || b.t.iter().any(|x| x.1 != 1) || b.k != 0;
        let (fq, fr, r0);
        if blo / c == bhi / c {
            q.k += blo / c;
            b.k -= (blo / c) * c;
            fq = self.lbuild(&q, w);
            fr = self.lbuild(&b, w);
            r0 = if blo - (blo / c) * c > 0 { Some(false) } else if b.t.is_empty() { Some(true) } else { None };
        } else {
            let bits = 128 - (bhi as u128).max(c as u128).leading_zeros();
            if bits > w || (!progress && bits == w) {
                return None;
            }
            let n = self.lbuild(&b, bits);
            let k = self.konst(c as u128, bits);
            // built directly: there is nothing left to simplify
            let (d, m) = (self.raw(Op::UDiv, bits, n, k, Z, 0), self.raw(Op::URem, bits, n, k, Z, 0));
            let d = self.zext(d, w);
            fr = self.zext(m, w);
            let qq = self.lbuild(&q, w);
            fq = self.bin(Op::Add, qq, d);
            r0 = None;
        }
        if hi >= 0 || !signed {
            return Some(if quot { fq } else { fr });
        }
        // truncation towards zero of a negative value
        let one = self.konst(1, w);
        let kc = self.konst((-c) as u128, w);
        let (q1, rc) = (self.bin(Op::Add, fq, one), self.bin(Op::Add, fr, kc));
        let z = self.konst(0, w);
        let is0 = match r0 {
            Some(v) => self.konst(v as u128, 1),
            None => self.eq(fr, z),
        };
        Some(if quot { self.ite(is0, fq, q1) } else { self.ite(is0, z, rc) })
    }
    /// a comparison decided by the range of the difference
    fn lin_cmp(&mut self, op: Op, a: Ex, b: Ex, w: u32) -> Option<bool> {
        if w > 64 {
            return None;
        }
        let signed = matches!(op, Op::Slt | Op::Sle);
        let (x, y) = if signed { (self.slin(a, 12)?, self.slin(b, 12)?) } else { (self.ulin(a, 12)?, self.ulin(b, 12)?) };
        let (lo, hi) = self.lrange(&x.plus(&y, -1)?)?;
        match op {
            Op::Slt | Op::Ult if hi < 0 => Some(true),
            Op::Slt | Op::Ult if lo >= 0 => Some(false),
            Op::Sle | Op::Ule if hi <= 0 => Some(true),
            Op::Sle | Op::Ule if lo > 0 => Some(false),
            _ => None,
        }
    }
    /// trailing bits known to be zero
    pub fn tz(&self, e: Ex) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Shl => {
                if let Some(k) = self.cval(n.b) {
                    (self.tz(n.a) + k as u32).min(n.w)
                } else {
                    0
                }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                let t = self.tz(n.b);
                if t == lw {
                    lw + self.tz(n.a)
                } else {
                    t
                }
            }
            Op::ZExt | Op::SExt => {
                let t = self.tz(n.a);
                if t == self.w(n.a) {
                    n.w
                } else {
                    t
                }
            }
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    /// evaluate under a model (index -> value)
    pub fn eval(&mut self, e: Ex, model: &[u128]) -> u128 {
        self.epoch = self.epoch.wrapping_add(1);
        if self.epoch == 0 {
            for m in self.memo.iter_mut() {
                m.0 = 0;
            }
            self.epoch = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: Ex, model: &[u128]) -> u128 {
        let i = e.0 as usize;
        if self.memo[i].0 == self.epoch {
            return self.memo[i].1;
        }
        let (op, w, a, b, c, k) = {
            let n = &self.nodes[i];
            (n.op, n.w, n.a, n.b, n.c, n.k)
        };
        let r = match op {
            Op::Const => k,
            Op::Var => model.get(k as usize).copied().unwrap_or(0) & mask(w),
            Op::Not => !self.ev(a, model) & mask(w),
            Op::Eq => (self.ev(a, model) == self.ev(b, model)) as u128,
            Op::Ult => (self.ev(a, model) < self.ev(b, model)) as u128,
            Op::Ule => (self.ev(a, model) <= self.ev(b, model)) as u128,
            Op::Slt => {
                let aw = self.w(a);
                (sext(self.ev(a, model), aw) < sext(self.ev(b, model), aw)) as u128
            }
            Op::Sle => {
                let aw = self.w(a);
                (sext(self.ev(a, model), aw) <= sext(self.ev(b, model), aw)) as u128
            }
            Op::Concat => {
                let lw = self.w(b);
                (self.ev(a, model) << lw) | self.ev(b, model)
            }
            Op::Extract => (self.ev(a, model) >> k) & mask(w),
            Op::ZExt => self.ev(a, model),
            Op::SExt => {
                let aw = self.w(a);
                sext(self.ev(a, model), aw) as u128 & mask(w)
            }
            Op::Ite => {
                if self.ev(a, model) == 1 {
                    self.ev(b, model)
                } else {
                    self.ev(c, model)
                }
            }
            _ => {
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                Self::fold(op, w, x, y)
            }
        };
        self.memo[i] = (self.epoch, r);
        r
    }
}

#[cfg(test)]
mod test {
    use super::*;
    struct R(u64);
    impl R {
        fn n(&mut self, k: u64) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0 % k
        }
    }
    /// every simplification agrees with direct evaluation
    #[test]
    fn simplifier() {
        let mut r = R(0x9934_5678_9abc_def1);
        let vars: Vec<(u32, u32)> = vec![(8, 255), (8, 255), (6, 59), (5, 23), (9, 365), (1, 1), (32, 100_000), (8, 3)];
        for round in 0..60_000 {
            let mut ar = Arena::new();
            // two models, the expression and its value under each
            let mut models = vec![vec![0u128; vars.len()]; 3];
            let mut pool: Vec<(Ex, [u128; 3])> = Vec::new();
            for (i, (w, hi)) in vars.iter().enumerate() {
                let e = ar.var(i as u32, *w, *hi);
                let mut v = [0; 3];
                for (j, m) in models.iter_mut().enumerate() {
                    m[i] = match r.n(4) {
                        0 => 0,
                        1 => *hi as u128,
                        _ => r.n(*hi as u64 + 1) as u128,
                    };
                    v[j] = m[i];
                }
                pool.push((e, v));
            }
            for _ in 0..25 {
                let (a, va) = pool[r.n(pool.len() as u64) as usize];
                let w = ar.w(a);
                let t = match r.n(12) {
                    0 => {
                        let nw = [8, 16, 32, 64][r.n(4) as usize];
                        if nw < w {
                            continue;
                        }
                        if r.n(2) == 0 {
                            (ar.zext(a, nw), va)
                        } else {
                            (ar.sext(a, nw), va.map(|x| sext(x, w) as u128 & mask(nw)))
                        }
                    }
                    1 => {
                        let lo = r.n(w as u64) as u32;
                        let hi = lo + r.n((w - lo) as u64) as u32;
                        (ar.extract(a, hi, lo), va.map(|x| (x >> lo) & mask(hi - lo + 1)))
                    }
                    k => {
                        // a second operand of the same width, often a constant
                        let (b, vb) = if r.n(2) == 0 {
                            let c = match r.n(5) {
                                0 => r.n(1 << 20) as u128,
                                1 => [7u128, 10, 60, 100, 365, 1461, 3600, 86400, 146097][r.n(9) as usize],
                                2 => (r.n(400) as u128).wrapping_neg(),
                                3 => (r.n(100_000_000_000) as u128).wrapping_neg(),
                                _ => r.n(20) as u128,
                            } & mask(w);
                            (ar.konst(c, w), [c; 3])
                        } else {
                            let same: Vec<_> = pool.iter().filter(|x| ar.w(x.0) == w).cloned().collect();
                            same[r.n(same.len() as u64) as usize]
                        };
                        let z = |f: &dyn Fn(u128, u128) -> u128| [f(va[0], vb[0]), f(va[1], vb[1]), f(va[2], vb[2])];
                        if k < 8 {
                            let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Add, Op::Mul, Op::SDiv, Op::SRem, Op::UDiv, Op::URem, Op::Shl, Op::LShr, Op::AShr][r.n(19) as usize];
                            (ar.bin(op, a, b), z(&|x, y| Arena::fold(op, w, x, y)))
                        } else if k < 10 {
                            let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.n(5) as usize];
                            (
                                ar.cmp(op, a, b),
                                z(&|x, y| match op {
                                    Op::Eq => x == y,
                                    Op::Ult => x < y,
                                    Op::Ule => x <= y,
                                    Op::Slt => sext(x, w) < sext(y, w),
                                    _ => sext(x, w) <= sext(y, w),
                                } as u128),
                            )
                        } else if k == 10 && w <= 32 {
                            (ar.concat(a, b), z(&|x, y| (x << w) | y))
                        } else {
                            let c: Vec<_> = pool.iter().filter(|x| ar.w(x.0) == 1).cloned().collect();
                            let (c, vc) = c[r.n(c.len() as u64) as usize];
                            let mut v = [0; 3];
                            for j in 0..3 {
                                v[j] = if vc[j] == 1 { va[j] } else { vb[j] };
                            }
                            (ar.ite(c, a, b), v)
                        }
                    }
                };
                for j in 0..3 {
                    let got = ar.eval(t.0, &models[j]);
                    assert_eq!(got, t.1[j], "round {} {:?}", round, ar.n(t.0).op);
                    let n = ar.n(t.0);
                    assert!(n.lo <= got && got <= n.hi, "interval, round {} {:?} {} {} {}", round, n.op, n.lo, n.hi, got);
                }
                pool.push(t);
            }
        }
    }
}
