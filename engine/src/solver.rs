//! SMT back end: translation of path conditions to Z3 bit-vector terms (C API).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::io::Write;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy());
    }
    std::process::abort();
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache: u64,
    pub time: f64,
    pub max_time: f64,
    pub domain: u64, // branch decisions settled on a single byte's value set
    pub asserts: u64, // assertions discharged by a solver query
}

#[derive(Clone)]
pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    s2: P,
    memo: Vec<P>,
    sorts: HashMap<u32, P>,
    cache: FxMap<Vec<Ex>, Ans>,
    pub stats: Stats,
    pub dump: Option<(std::path::PathBuf, u64)>, // directory, remaining dumps
    pub dumped: u64,
    tag: usize,
}

impl Solver {
    pub fn new(timeout_ms: u32, tag: usize) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            // a plain SMT core answers the many small queries fastest, the
            // bit-blasting tactic solver gets what it cannot settle in time
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            for (s, ms) in [(s, timeout_ms.min(1000)), (s2, timeout_ms)] {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), ms);
                Z3_solver_set_params(c, s, p);
            }
            Solver { c, s, s2, memo: Vec::new(), sorts: HashMap::new(), cache: FxMap::default(), stats: Stats::default(), dump: None, dumped: 0, tag }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    // 1-bit expressions become booleans, everything else a bit vector
    fn tr(&mut self, ar: &Arena, e: Ex) -> P {
        let i = e.0 as usize;
        if self.memo.len() <= i {
            self.memo.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.memo[i].is_null() {
            return self.memo[i];
        }
        let n = ar.n(e);
        let c = self.c;
        let (a, b, d) = match n.op {
            Op::Const | Op::Var => (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => (self.tr(ar, n.a), std::ptr::null_mut(), std::ptr::null_mut()),
            Op::Ite => (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c)),
            _ => (self.tr(ar, n.a), self.tr(ar, n.b), std::ptr::null_mut()),
        };
        let aw = if a.is_null() { 0 } else { ar.w(n.a) };
        let bw = if b.is_null() { 0 } else { ar.w(n.b) };
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if n.w <= 64 {
                        let s = self.sort(n.w);
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let s = self.sort(n.w);
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = self.sort(n.w);
                    let x = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int * 256 + n.w as c_int), s);
                    if n.w == 1 {
                        let one = Z3_mk_unsigned_int64(c, 1, s);
                        Z3_mk_eq(c, x, one)
                    } else {
                        x
                    }
                }
                Op::Not if n.w == 1 => Z3_mk_not(c, a),
                Op::Not => Z3_mk_bvnot(c, a),
                Op::And if n.w == 1 => Z3_mk_and(c, 2, [a, b].as_ptr()),
                Op::Or if n.w == 1 => Z3_mk_or(c, 2, [a, b].as_ptr()),
                Op::Xor if n.w == 1 => Z3_mk_xor(c, a, b),
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ite => Z3_mk_ite(c, a, b, d),
                Op::Extract => {
                    let a = self.bv(a, aw);
                    let r = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a);
                    self.unbv(r, n.w)
                }
                Op::ZExt => {
                    let a = self.bv(a, aw);
                    Z3_mk_zero_ext(c, n.w - aw, a)
                }
                Op::SExt => {
                    let a = self.bv(a, aw);
                    Z3_mk_sign_ext(c, n.w - aw, a)
                }
                Op::Concat => {
                    let a = self.bv(a, aw);
                    let b = self.bv(b, bw);
                    Z3_mk_concat(c, a, b)
                }
                _ => {
                    let a = self.bv(a, aw);
                    let b = self.bv(b, bw);
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    if matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                        r
                    } else {
                        self.unbv(r, n.w)
                    }
                }
            }
        };
        self.memo[i] = r;
        r
    }
    fn bv(&mut self, a: P, w: u32) -> P {
        if w != 1 {
            return a;
        }
        let s = self.sort(1);
        unsafe { Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s)) }
    }
    fn unbv(&mut self, a: P, w: u32) -> P {
        if w != 1 {
            return a;
        }
        let s = self.sort(1);
        unsafe { Z3_mk_eq(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s)) }
    }

    /// Is `pc` (restricted to what shares variables with `q`) and `q` satisfiable?
    pub fn check(&mut self, pc: &[Ex], q: Ex) -> Ans {
        let (mut key, vars) = AR.with(|ar| {
            let ar = ar.borrow();
            let mut vs = ar.n(q).vars;
            let mut used = vec![false; pc.len()];
            let mut key = vec![q];
            loop {
                let mut ch = false;
                for (i, c) in pc.iter().enumerate() {
                    if used[i] {
                        continue;
                    }
                    let cv = &ar.n(*c).vars;
                    if (0..VW).any(|j| cv[j] & vs[j] != 0) {
                        used[i] = true;
                        ch = true;
                        key.push(*c);
                        for j in 0..VW {
                            vs[j] |= cv[j];
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
            (key, vs)
        });
        key.sort();
        key.dedup();
        if let Some(a) = self.cache.get(&key) {
            self.stats.cache += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        let a = AR.with(|ar| {
            let ar = ar.borrow();
            unsafe {
                let mut sv = self.s;
                let mut ans = 0;
                for cand in [self.s, self.s2] {
                    sv = cand;
                    Z3_solver_reset(self.c, sv);
                    for k in &key {
                        let t = self.tr(&ar, *k);
                        Z3_solver_assert(self.c, sv, t);
                    }
                    ans = Z3_solver_check(self.c, sv);
                    if ans != 0 {
                        break;
                    }
                }
                match ans {
                    1 => {
                        let m = Z3_solver_get_model(self.c, sv);
                        Z3_model_inc_ref(self.c, m);
                        let mut v = Vec::new();
                        for j in 0..VW {
                            for b in 0..64 {
                                if vars[j] >> b & 1 == 1 {
                                    let idx = (j * 64 + b) as u32;
                                    let w = VARW.with(|w| w.borrow()[idx as usize]);
                                    let s = self.sort(w);
                                    let x = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, idx as c_int * 256 + w as c_int), s);
                                    let mut out: P = std::ptr::null_mut();
                                    Z3_model_eval(self.c, m, x, true, &mut out);
                                    let t = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap();
                                    v.push((idx, t.parse::<u128>().unwrap()));
                                }
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                        Ans::Sat(v)
                    }
                    -1 => Ans::Unsat,
                    _ => Ans::Unknown,
                }
            }
        });
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match a {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            _ => {}
        }
        if let Some((dir, left)) = &mut self.dump {
            if *left > 0 && !matches!(a, Ans::Unknown) {
                *left -= 1;
                self.dumped += 1;
                let f = dir.join(format!("q{}_{}.smt2", self.tag, self.dumped));
                let text = AR.with(|ar| smt2(&ar.borrow(), &key, &vars, matches!(a, Ans::Sat(_))));
                let _ = std::fs::File::create(f).and_then(|mut f| f.write_all(text.as_bytes()));
            }
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(key, a.clone());
        a
    }
}

thread_local! {
    /// width of every symbolic variable index (current path)
    pub static VARW: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(vec![8; 64 * VW]);
}

/// SMT-LIB text of a query, with the answer as `:status`, for cross-checking with a second solver
pub fn smt2(ar: &Arena, key: &[Ex], vars: &VarSet, sat: bool) -> String {
    let mut s = String::from("(set-logic QF_BV)\n");
    s += &format!("(set-info :status {})\n", if sat { "sat" } else { "unsat" });
    for j in 0..VW {
        for b in 0..64 {
            if vars[j] >> b & 1 == 1 {
                let i = j * 64 + b;
                let w = VARW.with(|w| w.borrow()[i]);
                s += &format!("(declare-const v{} (_ BitVec {}))\n", i, w);
            }
        }
    }
    let mut done: FxMap<Ex, ()> = FxMap::default();
    fn go(ar: &Arena, e: Ex, s: &mut String, done: &mut FxMap<Ex, ()>) {
        if done.contains_key(&e) {
            return;
        }
        let n = ar.n(e);
        let k = match n.op {
            Op::Const | Op::Var => 0,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite => 3,
            _ => 2,
        };
        for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
            if i < k {
                go(ar, *x, s, done);
            }
        }
        // everything is a bit vector in this rendering, comparisons are ite'd to #b1/#b0
        let b = match n.op {
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Not => format!("(bvnot e{})", n.a.0),
            Op::Extract => format!("((_ extract {} {}) e{})", n.k as u32 + n.w - 1, n.k, n.a.0),
            Op::ZExt => format!("((_ zero_extend {}) e{})", n.w - ar.w(n.a), n.a.0),
            Op::SExt => format!("((_ sign_extend {}) e{})", n.w - ar.w(n.a), n.a.0),
            Op::Ite => format!("(ite (= e{} #b1) e{} e{})", n.a.0, n.b.0, n.c.0),
            Op::Eq => format!("(ite (= e{} e{}) #b1 #b0)", n.a.0, n.b.0),
            Op::Ult => format!("(ite (bvult e{} e{}) #b1 #b0)", n.a.0, n.b.0),
            Op::Ule => format!("(ite (bvule e{} e{}) #b1 #b0)", n.a.0, n.b.0),
            Op::Slt => format!("(ite (bvslt e{} e{}) #b1 #b0)", n.a.0, n.b.0),
            Op::Sle => format!("(ite (bvsle e{} e{}) #b1 #b0)", n.a.0, n.b.0),
            _ => {
                let o = match n.op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::SDiv => "bvsdiv",
                    Op::URem => "bvurem",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    Op::Concat => "concat",
                    _ => unreachable!(),
                };
                format!("({} e{} e{})", o, n.a.0, n.b.0)
            }
        };
        s.push_str(&format!("(define-const e{} (_ BitVec {}) {})\n", e.0, n.w, b));
        done.insert(e, ());
    }
    for k in key {
        go(ar, *k, &mut s, &mut done);
        s.push_str(&format!("(assert (= e{} #b1))\n", k.0));
    }
    s += "(check-sat)\n";
    s
}
