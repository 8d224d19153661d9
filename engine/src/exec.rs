//! Symbolic interpreter for the lowered IR.
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(Ex),
    A(Rc<[Val]>),
}
use Val::*;

fn a<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    AR.with(|x| f(&mut x.borrow_mut()))
}
fn norm(e: Ex) -> Val {
    a(|ar| {
        let n = ar.n(e);
        if n.op == Op::Const && n.w <= 64 {
            I(n.k as u64)
        } else {
            E(e)
        }
    })
}
fn ex(v: &Val, w: u32) -> Ex {
    match v {
        I(x) => a(|ar| ar.konst(*x as u128, w)),
        E(e) => *e,
        A(_) => panic!("aggregate used as scalar"),
    }
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Ex>, // empty: all concrete; Ex(0): concrete byte
    pub ro: bool,
    pub stack: bool,
}

const CH: usize = 32;
#[derive(Clone)]
struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: usize,
}
impl Mem {
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c[id as usize % CH] = o;
    }
    fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        while self.chunks.len() * CH <= id {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        self.set(id as u32, Some(Rc::new(o)));
        id as u32
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    pc: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret_dst: Option<u32>,
    ret_next: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Dec {
    Forced(bool),
    Taken(bool),
    Value(u128),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Rc<Vec<Ex>>,
    known: Rc<FxMap<Ex, bool>>,
    conc: Rc<FxMap<Ex, u128>>,
    dom: Rc<Vec<[u64; 4]>>,
    ent: VarSet,
    model: Rc<Vec<u128>>,
    varw: Rc<Vec<u32>>,
    inputs: Rc<Vec<(String, Vec<Ex>)>>,
    log: Rc<Vec<Dec>>,
    replay: Arc<Vec<Dec>>,
    rpos: usize,
    final_model: Option<Arc<Vec<u128>>>,
    steps: u64,
    /// instructions a path may take
    budget: u64,
    hstream: BTreeMap<u64, Vec<Val>>,
    hkeys: Rc<Vec<(Vec<Val>, u64)>>,
    hmode: u64,
    hcount: u64,
    depth: u32,
    notes: Rc<Vec<(String, Val, u32)>>,
}

pub enum Stop {
    Done,
    Prune,
    Viol(String, String),
    Engine(String),
}
type R<T> = Result<T, Stop>;

fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Engine(s.into()))
}
fn ub<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Viol("memory".into(), s.into()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u128>)>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Work {
    log: Arc<Vec<Dec>>,
    model: Arc<Vec<u128>>,
}
impl Work {
    pub fn root() -> Work {
        Work { log: Arc::default(), model: Arc::default() }
    }
}

#[derive(Default)]
pub struct Totals {
    pub prof: HashMap<u32, u64>,
    pub stats: Stats,
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub dumped: u64,
    pub max_vars: usize,
    pub samples: Vec<Violation>,
}

pub struct Opts {
    pub samples: usize,
    pub entry: String,
    pub threads: usize,
    pub max_steps: u64,
    pub timeout_ms: u32,
    pub time_limit: f64,
    pub dump: Option<(std::path::PathBuf, u64)>,
    pub no_domain: bool,
    pub verbose: bool,
    pub args: Vec<u64>,
}

pub struct Shared {
    /// functions whose paths are merged (they return a pointer)
    pub merge: Vec<bool>,
    pub m: Arc<Module>,
    pub ext: Vec<Ext>,
    pub q: Mutex<Vec<Work>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub viol: AtomicU64,
    pub tot: Mutex<Totals>,
    pub opts: Opts,
    pub t0: std::time::Instant,
    pub errno_obj: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    None,
    Nop,
    Memcpy,
    Memset,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    BitReverse,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Ovf(Bin, bool), // signed
    UAddSat,
    USubSat,
    UCmp,
    SCmp,
    Fshl,
    Fshr,
    First, // returns its first argument
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Bcmp,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Zero,
    MinusOne,
    Errno,
    GetRandom,
    Syscall,
    ClockGettime,
    Panic,
    HashWrite,
    HashWriteStr,
    HashFinish,
    SBytes,
    SRange,
    SAssume,
    SAssert,
    SCover,
    SHashMode,
    SBudget,
    SConcretize,
    SNote,
    SIsSym,
    Unknown,
}

pub fn classify(n: &str) -> Ext {
    let p = |s: &str| n.starts_with(s);
    if p("llvm.") {
        return if p("llvm.memcpy") || p("llvm.memmove") {
            Ext::Memcpy
        } else if p("llvm.memset") {
            Ext::Memset
        } else if p("llvm.cttz") {
            Ext::Cttz
        } else if p("llvm.ctlz") {
            Ext::Ctlz
        } else if p("llvm.ctpop") {
            Ext::Ctpop
        } else if p("llvm.bswap") {
            Ext::Bswap
        } else if p("llvm.bitreverse") {
            Ext::BitReverse
        } else if p("llvm.umin") {
            Ext::UMin
        } else if p("llvm.umax") {
            Ext::UMax
        } else if p("llvm.smin") {
            Ext::SMin
        } else if p("llvm.smax") {
            Ext::SMax
        } else if p("llvm.abs") {
            Ext::Abs
        } else if p("llvm.uadd.with") {
            Ext::Ovf(Bin::Add, false)
        } else if p("llvm.usub.with") {
            Ext::Ovf(Bin::Sub, false)
        } else if p("llvm.umul.with") {
            Ext::Ovf(Bin::Mul, false)
        } else if p("llvm.sadd.with") {
            Ext::Ovf(Bin::Add, true)
        } else if p("llvm.ssub.with") {
            Ext::Ovf(Bin::Sub, true)
        } else if p("llvm.smul.with") {
            Ext::Ovf(Bin::Mul, true)
        } else if p("llvm.uadd.sat") {
            Ext::UAddSat
        } else if p("llvm.usub.sat") {
            Ext::USubSat
        } else if p("llvm.ucmp") {
            Ext::UCmp
        } else if p("llvm.scmp") {
            Ext::SCmp
        } else if p("llvm.fshl") {
            Ext::Fshl
        } else if p("llvm.fshr") {
            Ext::Fshr
        } else if p("llvm.threadlocal.address") || p("llvm.expect") || p("llvm.launder") || p("llvm.strip") {
            Ext::First
        } else if p("llvm.trap") {
            Ext::Trap
        } else if p("llvm.vector.reduce.or") {
            Ext::ReduceOr
        } else if p("llvm.vector.reduce.and") {
            Ext::ReduceAnd
        } else if p("llvm.vector.reduce.add") {
            Ext::ReduceAdd
        } else if p("llvm.lifetime") || p("llvm.assume") || p("llvm.experimental.noalias") || p("llvm.dbg") || p("llvm.x86.sse2.pause") || p("llvm.prefetch") || p("llvm.sideeffect") || p("llvm.donothing") {
            Ext::Nop
        } else {
            Ext::Unknown
        };
    }
    match n {
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "posix_memalign" => Ext::PosixMemalign,
        "free" => Ext::Free,
        "__errno_location" => Ext::Errno,
        "getrandom" => Ext::GetRandom,
        "syscall" => Ext::Syscall,
        "clock_gettime" => Ext::ClockGettime,
        "abort" | "_exit" | "exit" => Ext::Trap,
        "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "sched_yield" | "getenv" | "close" | "munmap" | "poll" | "fflush" => Ext::Zero,
        "open64" | "open" | "read" | "stat64" | "fstat64" | "lseek64" | "readlink" | "realpath" | "getcwd" | "write" | "writev" | "mmap64" => Ext::MinusOne,
        "gettid" => Ext::Zero,
        "symex_bytes" => Ext::SBytes,
        "symex_range" => Ext::SRange,
        "symex_assume" => Ext::SAssume,
        "symex_assert" => Ext::SAssert,
        "symex_cover" => Ext::SCover,
        "symex_hash_mode" => Ext::SHashMode,
        "symex_budget" => Ext::SBudget,
        "symex_concretize" => Ext::SConcretize,
        "symex_note" => Ext::SNote,
        "symex_is_symbolic" => Ext::SIsSym,
        _ => {
            if n.contains("4core4hash3sip") && n.contains("Hasher") {
                if n.contains("9write_str") {
                    return Ext::HashWriteStr;
                }
                if n.contains("5write") {
                    return Ext::HashWrite;
                }
                if n.contains("6finish") {
                    return Ext::HashFinish;
                }
            }
            if n.starts_with("_R") || n.starts_with("_ZN") || n.contains("rust_") {
                if n.contains("panic") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("handle_alloc_error") || n.contains("slice_error_fail") || n.contains("_fail") || n.contains("handle_error") || n.contains("capacity_overflow") || n.contains("alloc_error_handler") {
                    return Ext::Panic;
                }
            }
            Ext::Unknown
        }
    }
}

pub struct Worker<'s> {
    sh: &'s Shared,
    solver: Solver,
    stack: Vec<State>,
    root: State,
    tt: FxMap<Ex, [u64; 4]>,
    forks: u64,
    paths: u64,
    pruned: u64,
    steps: u64,
    max_steps: u64,
    covers: BTreeMap<String, u64>,
    asserts: BTreeMap<String, u64>,
    funcs: Vec<bool>,
    max_vars: usize,
    ticks: u32,
    tag: usize,
    sampled: usize,
    prof: HashMap<u32, u64>,
}

impl<'s> Worker<'s> {
    pub fn new(sh: &'s Shared, tag: usize) -> Self {
        let mut mem = Mem { chunks: Vec::new(), next: 0 };
        for s in sh.m.objs.iter() {
            let o = match s {
                Sym::Global(g) => {
                    let g = &sh.m.globals[*g as usize];
                    Some(Obj { data: g.data.clone(), sym: Vec::new(), ro: g.constant, stack: false })
                }
                _ => None,
            };
            let id = mem.next;
            mem.next += 1;
            while mem.chunks.len() * CH <= id {
                mem.chunks.push(Rc::new(vec![None; CH]));
            }
            mem.set(id as u32, o.map(Rc::new));
        }
        let e = mem.alloc(Obj { data: vec![0; 8], sym: Vec::new(), ro: false, stack: false });
        assert_eq!(e, sh.errno_obj);
        let root = State {
            frames: Vec::new(),
            mem,
            pc: Rc::default(),
            known: Rc::default(),
            conc: Rc::default(),
            dom: Rc::default(),
            ent: [0; VW],
            model: Rc::default(),
            varw: Rc::default(),
            inputs: Rc::default(),
            log: Rc::default(),
            replay: Arc::default(),
            rpos: 0,
            final_model: None,
            steps: 0,
            budget: sh.opts.max_steps,
            hstream: BTreeMap::new(),
            hkeys: Rc::default(),
            hmode: 0,
            hcount: 0,
            depth: 0,
            notes: Rc::default(),
        };
        let mut solver = Solver::new(sh.opts.timeout_ms, tag);
        solver.dump = sh.opts.dump.clone();
        Worker {
            sh,
            solver,
            stack: Vec::new(),
            root,
            tt: FxMap::default(),
            forks: 0,
            paths: 0,
            pruned: 0,
            steps: 0,
            max_steps: 0,
            covers: BTreeMap::new(),
            asserts: BTreeMap::new(),
            funcs: vec![false; sh.m.funcs.len()],
            max_vars: 0,
            ticks: 0,
            tag,
            sampled: 0,
            prof: HashMap::new(),
        }
    }

    pub fn main(&mut self) {
        loop {
            // take work from the shared queue
            let w = {
                let mut q = self.sh.q.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    if let Some(w) = q.pop() {
                        break Some(w);
                    }
                    let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == self.sh.opts.threads {
                        self.sh.stop.store(true, Ordering::Relaxed);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait(q).unwrap();
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let w = match w {
                Some(w) => w,
                None => break,
            };
            let mut st = self.root.clone();
            st.replay = w.log;
            st.final_model = Some(w.model);
            let id = self.sh.m.names[&self.sh.opts.entry];
            let fi = match self.sh.m.objs[id as usize] {
                Sym::Func(f) => f,
                _ => panic!("entry"),
            };
            let f = &self.sh.m.funcs[fi as usize];
            let mut regs = vec![I(0); f.nregs as usize];
            for (i, v) in self.sh.opts.args.iter().enumerate() {
                if i < f.nargs as usize {
                    regs[i] = I(*v);
                }
            }
            self.funcs[fi as usize] = true;
            st.frames.push(Rc::new(Frame { func: fi, block: 0, pc: 0, regs, allocas: Vec::new(), ret_dst: None, ret_next: None }));
            self.stack.push(st);
            while let Some(st) = self.stack.pop() {
                if self.sh.stop.load(Ordering::Relaxed) {
                    break;
                }
                self.run(st);
            }
        }
        let mut t = self.sh.tot.lock().unwrap();
        t.paths += self.paths;
        t.pruned += self.pruned;
        t.forks += self.forks;
        t.steps += self.steps;
        t.max_steps = t.max_steps.max(self.max_steps);
        t.max_vars = t.max_vars.max(self.max_vars);
        t.dumped += self.solver.dumped;
        let s = &self.solver.stats;
        t.stats.queries += s.queries;
        t.stats.sat += s.sat;
        t.stats.unsat += s.unsat;
        t.stats.cache += s.cache;
        t.stats.time += s.time;
        t.stats.domain += s.domain;
        t.stats.asserts += s.asserts;
        if s.max_time > t.stats.max_time {
            t.stats.max_time = s.max_time;
        }
        for (k, v) in &self.prof {
            *t.prof.entry(*k).or_default() += v;
        }
        for (k, v) in &self.covers {
            *t.covers.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &self.asserts {
            *t.asserts.entry(k.clone()).or_default() += v;
        }
        for (i, b) in self.funcs.iter().enumerate() {
            if *b {
                t.funcs.insert(i as u32);
            }
        }
    }

    fn donate(&mut self) {
        if self.stack.is_empty() || self.sh.idle.load(Ordering::Relaxed) == 0 {
            return;
        }
        let mut q = self.sh.q.lock().unwrap();
        if q.len() >= self.sh.opts.threads {
            return;
        }
        let st = self.stack.remove(0);
        q.push(Work { log: Arc::new((*st.log).clone()), model: Arc::new((*st.model).clone()) });
        self.sh.cv.notify_one();
    }

    fn run(&mut self, mut st: State) {
        VARW.with(|w| {
            let mut w = w.borrow_mut();
            w[..st.varw.len()].copy_from_slice(&st.varw);
        });
        let s0 = st.steps;
        let r = loop {
            st.steps += 1;
            self.ticks += 1;
            if self.ticks & 0xfff == 0 {
                if self.sh.stop.load(Ordering::Relaxed) {
                    return;
                }
                if self.ticks & 0xffff == 0 {
                    self.donate();
                    if self.sh.t0.elapsed().as_secs_f64() > self.sh.opts.time_limit {
                        break Stop::Engine("time limit reached before the exploration was complete".into());
                    }
                }
            }
            if st.steps > st.budget {
                break Stop::Viol("hang".into(), format!("more than {} instructions on one path", st.budget));
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        self.steps += st.steps - s0;
        self.max_steps = self.max_steps.max(st.steps);
        self.max_vars = self.max_vars.max(st.varw.len());
        match r {
            Stop::Done => {
                self.paths += 1;
                // a few of the explored paths, as concrete inputs: the first ones of this worker and then ever rarer
                if self.sampled < self.sh.opts.samples && (self.paths <= 2 || self.paths & (self.paths - 1) == 0 || self.paths % 97 == self.tag as u64) {
                    self.sampled += 1;
                    let model = st.model.clone();
                    let v = self.describe(&st, "sample", "", &model);
                    self.sh.tot.lock().unwrap().samples.push(v);
                }
            }
            Stop::Prune => self.pruned += 1,
            Stop::Viol(k, m) => {
                self.paths += 1;
                let model = st.model.clone();
                self.violation(&st, &k, &m, &model);
            }
            Stop::Engine(m) => {
                self.paths += 1;
                let mut t = self.sh.tot.lock().unwrap();
                let s = format!("{} [{}]", m, self.backtrace(&st).join(" < "));
                if t.errors.len() < 20 && !t.errors.contains(&s) {
                    t.errors.push(s);
                }
                if t.errors.len() >= 20 || m.starts_with("time limit") {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.cv.notify_all();
                }
            }
        }
        self.donate();
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.sh.m.funcs[f.func as usize].name.clone()).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: &[u128]) {
        let v = self.describe(st, kind, msg, model);
        let n = self.sh.viol.fetch_add(1, Ordering::SeqCst) + 1;
        let mut t = self.sh.tot.lock().unwrap();
        let same = t.violations.iter().filter(|x| x.kind == v.kind && x.msg == v.msg).count();
        if same < 4 && t.violations.len() < 64 {
            t.violations.push(v);
        }
        if n >= 400 {
            self.sh.stop.store(true, Ordering::Relaxed);
            self.sh.cv.notify_all();
        }
    }
    fn describe(&self, st: &State, kind: &str, msg: &str, model: &[u128]) -> Violation {
        let inputs = st.inputs.iter().map(|(n, v)| (n.clone(), v.iter().map(|e| a(|ar| ar.eval(*e, model))).collect())).collect();
        let notes = st.notes.iter().map(|(n, v, w)| format!("{}={}", n, a(|ar| { let e = match v { I(x) => ar.konst(*x as u128, *w), E(e) => *e, A(_) => ar.konst(0, 8) }; ar.eval(e, model) }))).collect();
        Violation { kind: kind.into(), msg: msg.into(), inputs, stack: self.backtrace(st), notes }
    }

    // ------------------------------------------------------------------ decisions
    fn truth(&mut self, e: Ex, var: usize) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut model = vec![0u128; var + 1];
        a(|ar| {
            for v in 0..256usize {
                model[var] = v as u128;
                if ar.eval(e, &model) == 1 {
                    t[v / 64] |= 1 << (v % 64);
                }
            }
        });
        self.tt.insert(e, t);
        t
    }
    /// the only variable of `e`, when it is at most 8 bits wide
    fn single(&self, st: &State, e: Ex) -> Option<usize> {
        let vs = a(|ar| ar.n(e).vars);
        let mut r = None;
        for j in 0..VW {
            if vs[j] != 0 {
                if r.is_some() || vs[j] & (vs[j] - 1) != 0 {
                    return None;
                }
                r = Some(j * 64 + vs[j].trailing_zeros() as usize);
            }
        }
        r.filter(|i| st.varw[*i] <= 8)
    }
    fn add(&mut self, st: &mut State, e: Ex) {
        Rc::make_mut(&mut st.known).insert(e, true);
        // conjunctions are kept as separate constraints, so that their variables stay independent
        let parts = a(|ar| {
            let n = ar.n(e).clone();
            match n.op {
                Op::And if n.w == 1 => Some([n.a, n.b]),
                Op::Not if n.w == 1 => {
                    let m = ar.n(n.a).clone();
                    if m.op == Op::Or {
                        Some([ar.not(m.a), ar.not(m.b)])
                    } else {
                        None
                    }
                }
                Op::Eq => {
                    let (x, k) = (ar.n(n.a).clone(), ar.cval(n.b));
                    match k {
                        Some(k) if x.op == Op::Concat => {
                            let (wh, wl) = (ar.w(x.a), ar.w(x.b));
                            let kh = ar.konst(k >> wl, wh);
                            let kl = ar.konst(k & mask(wl), wl);
                            Some([ar.cmp(Op::Eq, x.a, kh), ar.cmp(Op::Eq, x.b, kl)])
                        }
                        _ => None,
                    }
                }
                _ => None,
            }
        });
        if let Some(ps) = parts {
            for p in ps {
                if a(|ar| ar.cval(p)).is_none() && !st.known.contains_key(&p) {
                    self.add(st, p);
                }
            }
            return;
        }
        Rc::make_mut(&mut st.pc).push(e);
        if let Some(v) = self.single(st, e) {
            let t = self.truth(e, v);
            let d = &mut Rc::make_mut(&mut st.dom)[v];
            for j in 0..4 {
                d[j] &= t[j];
            }
        } else {
            let vs = a(|ar| ar.n(e).vars);
            for j in 0..VW {
                st.ent[j] |= vs[j];
            }
        }
    }
    fn merge(&self, st: &mut State, m: &[(u32, u128)]) {
        let md = Rc::make_mut(&mut st.model);
        for (i, v) in m {
            md[*i as usize] = *v;
        }
    }
    fn end_replay(&mut self, st: &mut State) {
        if st.rpos == st.replay.len() {
            if let Some(m) = st.final_model.take() {
                let md = Rc::make_mut(&mut st.model);
                for (i, v) in m.iter().enumerate() {
                    if i < md.len() {
                        md[i] = *v;
                    }
                }
            }
        }
    }
    fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = a(|ar| ar.cval(c)) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v);
        }
        let nc = a(|ar| ar.not(c));
        if let Some(v) = st.known.get(&nc) {
            return Ok(!*v);
        }
        if st.rpos < st.replay.len() {
            let d = st.replay[st.rpos].clone();
            st.rpos += 1;
            Rc::make_mut(&mut st.log).push(d.clone());
            let r = match d {
                Dec::Forced(b) => {
                    Rc::make_mut(&mut st.known).insert(c, b);
                    b
                }
                Dec::Taken(b) => {
                    self.add(st, if b { c } else { nc });
                    b
                }
                Dec::Value(_) => return eng("replay out of step"),
            };
            self.end_replay(st);
            return Ok(r);
        }
        let single = if self.sh.opts.no_domain { None } else { self.single(st, c) };
        if let Some(v) = single {
            let t = self.truth(c, v);
            let d = st.dom[v];
            let yes: [u64; 4] = std::array::from_fn(|j| d[j] & t[j]);
            let no: [u64; 4] = std::array::from_fn(|j| d[j] & !t[j]);
            let (hy, hn) = (yes != [0; 4], no != [0; 4]);
            if !hy || !hn {
                self.solver.stats.domain += 1;
                Rc::make_mut(&mut st.known).insert(c, hy);
                Rc::make_mut(&mut st.log).push(Dec::Forced(hy));
                return Ok(hy);
            }
            if st.ent[v / 64] >> (v % 64) & 1 == 0 {
                self.solver.stats.domain += 1;
                let cur = a(|ar| ar.eval(c, &st.model)) == 1;
                let other = if cur { no } else { yes };
                let mut val = 0u128;
                for j in 0..4 {
                    if other[j] != 0 {
                        val = (j * 64 + other[j].trailing_zeros() as usize) as u128;
                        break;
                    }
                }
                return self.fork(st, c, nc, cur, &[(v as u32, val)]);
            }
        }
        let cur = a(|ar| ar.eval(c, &st.model)) == 1;
        let q = if cur { nc } else { c };
        match self.solver.check(&st.pc, q) {
            Ans::Unsat => {
                Rc::make_mut(&mut st.known).insert(c, cur);
                Rc::make_mut(&mut st.log).push(Dec::Forced(cur));
                Ok(cur)
            }
            Ans::Sat(m) => self.fork(st, c, nc, cur, &m),
            Ans::Unknown => eng("solver gave no answer in time"),
        }
    }
    fn fork(&mut self, st: &mut State, c: Ex, nc: Ex, cur: bool, other_model: &[(u32, u128)]) -> R<bool> {
        self.forks += 1;
        if self.sh.opts.verbose {
            let f = st.frames.last().unwrap().func;
            *self.prof.entry(f).or_default() += 1;
        }
        let mut o = st.clone();
        o.depth += 1;
        st.depth += 1;
        // the copy re-executes the current instruction with the other outcome
        let fr = Rc::make_mut(o.frames.last_mut().unwrap());
        fr.pc -= 1;
        o.steps -= 1;
        self.add(&mut o, if cur { nc } else { c });
        self.merge(&mut o, other_model);
        Rc::make_mut(&mut o.log).push(Dec::Taken(!cur));
        self.stack.push(o);
        self.add(st, if cur { c } else { nc });
        Rc::make_mut(&mut st.log).push(Dec::Taken(cur));
        Ok(cur)
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            I(x) => Ok(*x),
            E(e) => Ok(self.conc(st, *e)? as u64),
            A(_) => eng("aggregate as integer"),
        }
    }
    fn conc(&mut self, st: &mut State, e: Ex) -> R<u128> {
        if let Some(v) = a(|ar| ar.cval(e)) {
            return Ok(v);
        }
        if let Some(v) = st.conc.get(&e) {
            return Ok(*v);
        }
        let w = a(|ar| ar.w(e));
        loop {
            let v = if st.rpos < st.replay.len() {
                let d = st.replay[st.rpos].clone();
                st.rpos += 1;
                match d {
                    Dec::Value(v) => v,
                    _ => return eng("replay out of step (value)"),
                }
            } else {
                a(|ar| ar.eval(e, &st.model))
            };
            Rc::make_mut(&mut st.log).push(Dec::Value(v));
            self.end_replay(st);
            let c = a(|ar| {
                let k = ar.konst(v, w);
                ar.cmp(Op::Eq, e, k)
            });
            if self.decide(st, c)? {
                Rc::make_mut(&mut st.conc).insert(e, v);
                return Ok(v);
            }
        }
    }

    // ------------------------------------------------------------------ memory
    fn resolve(&mut self, st: &mut State, p: &Val, n: u64) -> R<(u32, u64)> {
        let addr = self.concretize(st, p)?;
        let (id, off) = ((addr >> 32) as u32, addr & 0xffff_ffff);
        match st.mem.get(id) {
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return ub(format!("access of {} bytes at offset {} of a {}-byte object", n, off, o.data.len()));
                }
                Ok((id, off))
            }
            None => {
                if n == 0 {
                    return Ok((0, 0));
                }
                ub(format!("access to invalid address {:#x}", addr))
            }
        }
    }
    fn byte(o: &Obj, i: usize) -> Val {
        if !o.sym.is_empty() && o.sym[i].0 != 0 {
            E(o.sym[i])
        } else {
            I(o.data[i] as u64)
        }
    }
    fn put(o: &mut Obj, i: usize, v: &Val) {
        match v {
            I(x) => {
                o.data[i] = *x as u8;
                if !o.sym.is_empty() {
                    o.sym[i] = Ex(0);
                }
            }
            E(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![Ex(0); o.data.len()];
                }
                o.sym[i] = *e;
            }
            _ => panic!(),
        }
    }
    fn read_bytes(o: &Obj, off: usize, n: usize, w: u32) -> Val {
        let symbolic = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|e| e.0 != 0);
        if !symbolic {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return I(v & mask(w) as u64);
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return E(a(|ar| ar.konst(u128::from_le_bytes(b), w)));
        }
        let e = a(|ar| {
            let mut r = None;
            if n > 1 && !ar.whole.is_empty() {
                let key: Vec<Ex> = (0..n).map(|i| if o.sym[off + i].0 != 0 { o.sym[off + i] } else { ar.konst(o.data[off + i] as u128, 8) }).collect();
                if let Some(e) = ar.whole.get(&key).copied() {
                    return if (n as u32) * 8 > w { ar.extract(e, w - 1, 0) } else { e };
                }
            }
            for i in (0..n).rev() {
                let b = if o.sym[off + i].0 != 0 { o.sym[off + i] } else { ar.konst(o.data[off + i] as u128, 8) };
                r = Some(match r {
                    None => b,
                    Some(h) => ar.concat(h, b),
                });
            }
            let r = r.unwrap();
            if (n as u32) * 8 > w {
                ar.extract(r, w - 1, 0)
            } else {
                r
            }
        });
        norm(e)
    }
    fn load_sc(&mut self, st: &mut State, p: &Val, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        if let E(pe) = p {
            if !st.conc.contains_key(pe) {
                return self.load_sym(st, *pe, n, w);
            }
        }
        let (id, off) = self.resolve(st, p, n)?;
        Ok(Self::read_bytes(st.mem.get(id).unwrap(), off as usize, n as usize, w))
    }
    fn load_sym(&mut self, st: &mut State, pe: Ex, n: u64, w: u32) -> R<Val> {
        let (lo, hi) = a(|ar| (ar.n(pe).lo, ar.n(pe).hi));
        let id = if lo >> 32 == hi >> 32 {
            (lo >> 32) as u32
        } else {
            let h = a(|ar| ar.extract(pe, 63, 32));
            self.conc(st, h)? as u32
        };
        let off = a(|ar| ar.extract(pe, 31, 0));
        let size = match st.mem.get(id) {
            Some(o) => o.data.len() as u64,
            None => return ub("load through an invalid symbolic address"),
        };
        if size < n {
            return ub("load outside object");
        }
        let inb = a(|ar| {
            let k = ar.konst((size - n) as u128, 32);
            ar.cmp(Op::Ule, off, k)
        });
        if !self.decide(st, inb)? {
            return ub("load outside the bounds of an object");
        }
        let (mut lo, mut hi) = (0u64, size - n);
        a(|ar| {
            let nd = ar.n(off);
            lo = lo.max(nd.lo as u64);
            hi = hi.min(nd.hi as u64);
        });
        // alignment of the symbolic offset
        let (stride, base) = a(|ar| {
            // offset = const + x with x multiple of 2^tz
            let nd = ar.n(off).clone();
            if nd.op == Op::Add {
                if let Some(k) = ar.cval(nd.b) {
                    let t = ar.tz(nd.a).min(16);
                    return (1u64 << t, (k as u64) & ((1 << t) - 1));
                }
            }
            (1u64 << ar.tz(off).min(16), 0)
        });
        let mut first = lo / stride * stride + base;
        if first < lo {
            first += stride;
        }
        if first > hi {
            return eng("empty symbolic range");
        }
        let count = (hi - first) / stride + 1;
        if count > 4096 {
            let v = self.conc(st, off)? as u64;
            return Ok(Self::read_bytes(st.mem.get(id).unwrap(), v as usize, n as usize, w));
        }
        let o = st.mem.get(id).unwrap().clone();
        let mut runs: Vec<(u64, Ex)> = Vec::new(); // last offset of the run, value
        for i in 0..count {
            let at = first + i * stride;
            let v = ex(&Self::read_bytes(&o, at as usize, n as usize, w), w);
            match runs.last_mut() {
                Some(l) if l.1 == v => l.0 = at,
                _ => runs.push((at, v)),
            }
        }
        let e = a(|ar| {
            let mut r = runs.last().unwrap().1;
            for (end, v) in runs.iter().rev().skip(1) {
                let k = ar.konst(*end as u128, 32);
                let c = ar.cmp(Op::Ule, off, k);
                r = ar.ite(c, *v, r);
            }
            r
        });
        Ok(norm(e))
    }
    fn store_sc(&mut self, st: &mut State, p: &Val, v: &Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.resolve(st, p, n as u64)?;
        let off = off as usize;
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return ub("store to constant memory");
        }
        match v {
            I(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    for e in &mut o.sym[off..off + n] {
                        *e = Ex(0);
                    }
                }
            }
            E(e) => {
                let vals: Vec<Val> = a(|ar| {
                    let full = ar.zext(*e, n as u32 * 8);
                    if n > 1 {
                        let bytes: Vec<Ex> = (0..n as u32).map(|i| ar.extract(full, i * 8 + 7, i * 8)).collect();
                        let mut r = bytes[n - 1];
                        for b in bytes[..n - 1].iter().rev() {
                            r = ar.concat(r, *b);
                        }
                        if r != full {
                            ar.whole.insert(bytes, full);
                        }
                    }
                    (0..n)
                        .map(|i| {
                            let b = ar.extract(full, i as u32 * 8 + 7, i as u32 * 8);
                            match ar.cval(b) {
                                Some(k) => I(k as u64),
                                None => E(b),
                            }
                        })
                        .collect()
                });
                for (i, b) in vals.iter().enumerate() {
                    Self::put(o, off + i, b);
                }
            }
            A(_) => return eng("aggregate scalar store"),
        }
        Ok(())
    }
    fn bitcast(from: &Ty, to: &Ty, x: Val) -> Val {
        match (from, to) {
                    (Ty::Vec(n, t), Ty::Int(_)) | (Ty::Vec(n, t), Ty::Float(_)) => {
                        let w = t.bits();
                        let l = Self::lanes(&x);
                        let total = *n as u32 * w;
                        if total <= 64 && l.iter().all(|v| matches!(v, I(_))) {
                            let mut r = 0u64;
                            for (i, v) in l.iter().enumerate() {
                                if let I(b) = v {
                                    r |= b << (i as u32 * w);
                                }
                            }
                            I(r)
                        } else {
                            let es: Vec<Ex> = l.iter().map(|v| ex(v, w)).collect();
                            norm(a(|ar| {
                                let mut r = es[0];
                                for e in &es[1..] {
                                    r = ar.concat(*e, r);
                                }
                                r
                            }))
                        }
                    }
                    (Ty::Int(_), Ty::Vec(n, t)) => {
                        let w = t.bits();
                        let e = ex(&x, from.bits());
                        let v: Vec<Val> = (0..*n as u32).map(|i| norm(a(|ar| ar.extract(e, i * w + w - 1, i * w)))).collect();
                        A(v.into())
                    }
                    (Ty::Vec(n1, t1), Ty::Vec(n2, t2)) => {
                        let (w1, w2) = (t1.bits(), t2.bits());
                        if n1 == n2 {
                            x
                        } else {
                            let es: Vec<Ex> = Self::lanes(&x).iter().map(|v| ex(v, w1)).collect();
                            let all = a(|ar| {
                                let mut r = es[0];
                                for e in &es[1..] {
                                    r = ar.concat(*e, r);
                                }
                                r
                            });
                            A((0..*n2 as u32).map(|i| norm(a(|ar| ar.extract(all, i * w2 + w2 - 1, i * w2)))).collect::<Vec<_>>().into())
                        }
                    }
                    _ => x,
                }
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_sc(st, p, *w),
            Ty::Ptr => self.load_sc(st, p, 64),
            Ty::Float(w) => self.load_sc(st, p, *w),
            Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
                let it = Ty::Int(*n as u32 * t.bits());
                let v = self.load(st, &it, p)?;
                Ok(Self::bitcast(&it, ty, v))
            }
            Ty::Vec(n, _) | Ty::Arr(n, _) => {
                let base = self.concretize(st, p)?;
                let mut v = Vec::new();
                for i in 0..*n {
                    let (o, t) = ty.field(i);
                    v.push(self.load(st, &t, &I(base + o))?);
                }
                Ok(A(v.into()))
            }
            Ty::Struct(_, ts) => {
                let base = self.concretize(st, p)?;
                let mut v = Vec::new();
                for i in 0..ts.len() {
                    let (o, t) = ty.field(i as u64);
                    v.push(self.load(st, &t, &I(base + o))?);
                }
                Ok(A(v.into()))
            }
            _ => eng("load type"),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, p: &Val, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_sc(st, p, v, *w),
            Ty::Ptr => self.store_sc(st, p, v, 64),
            Ty::Float(w) => self.store_sc(st, p, v, *w),
            Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
                let it = Ty::Int(*n as u32 * t.bits());
                let x = Self::bitcast(ty, &it, v.clone());
                self.store(st, &it, p, &x)
            }
            _ => {
                let base = self.concretize(st, p)?;
                if let A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let (o, t) = ty.field(i as u64);
                        self.store(st, &t, &I(base + o), x)?;
                    }
                    Ok(())
                } else {
                    eng("aggregate store")
                }
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n)?;
        let dp = self.concretize(st, d)?;
        let sp = self.concretize(st, s)?;
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, &I(sp), n)?;
        let (di, dof) = self.resolve(st, &I(dp), n)?;
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let src = st.mem.get(si).unwrap().clone();
        let o = st.mem.get_mut(di).unwrap();
        if o.ro {
            return ub("memcpy to constant memory");
        }
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if src.sym.is_empty() {
            if !o.sym.is_empty() {
                for e in &mut o.sym[dof..dof + n] {
                    *e = Ex(0);
                }
            }
        } else {
            if o.sym.is_empty() {
                if src.sym[so..so + n].iter().all(|e| e.0 == 0) {
                    return Ok(());
                }
                o.sym = vec![Ex(0); o.data.len()];
            }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        }
        Ok(())
    }
    fn bytes_at(&mut self, st: &mut State, p: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(Vec::new());
        }
        let (id, off) = self.resolve(st, &I(p), n)?;
        let o = st.mem.get(id).unwrap();
        Ok((0..n as usize).map(|i| Self::byte(o, off as usize + i)).collect())
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> String {
        match self.bytes_at(st, p, n) {
            Ok(v) => v
                .iter()
                .map(|b| match b {
                    I(x) => *x as u8 as char,
                    _ => '?',
                })
                .collect(),
            Err(_) => String::new(),
        }
    }

    // ------------------------------------------------------------------ evaluation
    fn kval(k: &K) -> Val {
        match k {
            K::I(v) => I(*v),
            K::W(v, w) => E(a(|ar| ar.konst(*v, *w))),
            K::A(v) => A(v.iter().map(Self::kval).collect::<Vec<_>>().into()),
        }
    }
    #[inline]
    fn op(fr: &Frame, o: &O) -> Val {
        match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::I(v) => I(*v),
            O::K(k) => Self::kval(k),
        }
    }
    fn bin(op: Bin, w: u32, x: &Val, y: &Val) -> R<Val> {
        let eop = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        if let (I(p), I(q)) = (x, y) {
            let m = mask(w) as u64;
            let r = match op {
                Bin::Add => p.wrapping_add(*q) & m,
                Bin::Sub => p.wrapping_sub(*q) & m,
                Bin::And => p & q,
                Bin::Or => p | q,
                Bin::Xor => p ^ q,
                Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem if *q == 0 => return ub("division by zero"),
                _ => Arena::fold(eop, w, *p as u128, *q as u128) as u64,
            };
            return Ok(I(r));
        }
        let (p, q) = (ex(x, w), ex(y, w));
        Ok(norm(a(|ar| ar.bin(eop, p, q))))
    }
    fn cmp(p: Pred, w: u32, x: &Val, y: &Val) -> Val {
        if let (I(p1), I(q)) = (x, y) {
            let (u, v) = (*p1, *q);
            let (s, t) = (sext(u as u128, w), sext(v as u128, w));
            let r = match p {
                Pred::Eq => u == v,
                Pred::Ne => u != v,
                Pred::Ult => u < v,
                Pred::Ule => u <= v,
                Pred::Ugt => u > v,
                Pred::Uge => u >= v,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            };
            return I(r as u64);
        }
        let (u, v) = (ex(x, w), ex(y, w));
        norm(a(|ar| match p {
            Pred::Eq => ar.cmp(Op::Eq, u, v),
            Pred::Ne => {
                let c = ar.cmp(Op::Eq, u, v);
                ar.not(c)
            }
            Pred::Ult => ar.cmp(Op::Ult, u, v),
            Pred::Ule => ar.cmp(Op::Ule, u, v),
            Pred::Ugt => ar.cmp(Op::Ult, v, u),
            Pred::Uge => ar.cmp(Op::Ule, v, u),
            Pred::Slt => ar.cmp(Op::Slt, u, v),
            Pred::Sle => ar.cmp(Op::Sle, u, v),
            Pred::Sgt => ar.cmp(Op::Slt, v, u),
            Pred::Sge => ar.cmp(Op::Sle, v, u),
        }))
    }
    fn cast(k: Cast, fw: u32, tw: u32, x: &Val) -> Val {
        match (k, x) {
            (Cast::Copy, _) => x.clone(),
            (Cast::ZExt, I(v)) if tw <= 64 => I(*v),
            (Cast::SExt, I(v)) if tw <= 64 => I((sext(*v as u128, fw) as u128 & mask(tw)) as u64),
            (Cast::Trunc, I(v)) => I(v & mask(tw) as u64),
            _ => {
                let e = ex(x, fw);
                norm(a(|ar| match k {
                    Cast::ZExt => ar.zext(e, tw),
                    Cast::SExt => ar.sext(e, tw),
                    _ => ar.extract(e, tw - 1, 0),
                }))
            }
        }
    }
    fn ite(c: &Val, x: &Val, y: &Val, w: u32) -> Val {
        match c {
            I(v) => {
                if *v & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            E(c) => {
                let (p, q) = (ex(x, w), ex(y, w));
                norm(a(|ar| ar.ite(*c, p, q)))
            }
            _ => panic!(),
        }
    }
    fn lanes(v: &Val) -> Rc<[Val]> {
        match v {
            A(x) => x.clone(),
            _ => panic!("not a vector"),
        }
    }

    fn jump(fr: &mut Frame, f: &Func, to: u32) {
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = fr.block;
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                fr.regs[*d as usize] = Self::op(fr, o);
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| Self::op(fr, &inc.iter().find(|x| x.0 == from).expect("phi").1)).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.pc = b.start;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let sh: &'s Shared = self.sh;
        let m = &sh.m;
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = &m.funcs[fr.func as usize];
        let ins = &f.ins[fr.pc as usize];
        fr.pc += 1;
        match ins {
            Ins::Bin { op, w, lanes, d, a: x, b: y } => {
                let (x, y) = (Self::op(fr, x), Self::op(fr, y));
                let r = if *lanes == 0 {
                    Self::bin(*op, *w, &x, &y)?
                } else {
                    let (p, q) = (Self::lanes(&x), Self::lanes(&y));
                    let mut v = Vec::new();
                    for i in 0..*lanes as usize {
                        v.push(Self::bin(*op, *w, &p[i], &q[i])?);
                    }
                    A(v.into())
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Icmp { p, w, lanes, d, a: x, b: y } => {
                let (x, y) = (Self::op(fr, x), Self::op(fr, y));
                let r = if *lanes == 0 {
                    Self::cmp(*p, *w, &x, &y)
                } else {
                    let (s, t) = (Self::lanes(&x), Self::lanes(&y));
                    A((0..*lanes as usize).map(|i| Self::cmp(*p, *w, &s[i], &t[i])).collect::<Vec<_>>().into())
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Cast { k, fw, tw, lanes, d, a: x } => {
                let x = Self::op(fr, x);
                let r = if *lanes == 0 || *k == Cast::Copy {
                    Self::cast(*k, *fw, *tw, &x)
                } else {
                    A(Self::lanes(&x).iter().map(|v| Self::cast(*k, *fw, *tw, v)).collect::<Vec<_>>().into())
                };
                fr.regs[*d as usize] = r;
            }
            Ins::BitCast { from, to, d, a: x } => {
                let r = Self::bitcast(from, to, Self::op(fr, x));
                fr.regs[*d as usize] = r;
            }
            Ins::Select { ty, clanes, d, c, a: x, b: y } => {
                let c = Self::op(fr, c);
                let (x, y) = (Self::op(fr, x), Self::op(fr, y));
                let r = if *clanes > 0 {
                    let (cl, p, q) = (Self::lanes(&c), Self::lanes(&x), Self::lanes(&y));
                    let w = ty.scalar().bits();
                    A((0..*clanes as usize).map(|i| Self::ite(&cl[i], &p[i], &q[i], w)).collect::<Vec<_>>().into())
                } else {
                    match (&c, ty) {
                        (I(v), _) => {
                            if *v & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        (E(_), Ty::Int(w)) => Self::ite(&c, &x, &y, *w),
                        (E(e), _) => {
                            let e = *e;
                            if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return eng("select"),
                    }
                };
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*d as usize] = r;
            }
            Ins::Load { ty, d, p } => {
                let p = Self::op(fr, p);
                let v = self.load(st, ty, &p)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = v;
            }
            Ins::Store { ty, v, p } => {
                let (v, p) = (Self::op(fr, v), Self::op(fr, p));
                // resolve the address before touching memory
                let p = I(self.concretize(st, &p)?);
                self.store(st, ty, &p, &v)?;
            }
            Ins::Gep { d, base, off, terms } => {
                let mut r = Self::op(fr, base);
                if *off != 0 {
                    r = Self::bin(Bin::Add, 64, &r, &I(*off))?;
                }
                for (o, w, sz) in terms {
                    let v = Self::op(fr, o);
                    let v = Self::cast(Cast::SExt, *w, 64, &v);
                    let v = if *sz == 1 { v } else { Self::bin(Bin::Mul, 64, &v, &I(*sz))? };
                    r = Self::bin(Bin::Add, 64, &r, &v)?;
                }
                fr.regs[*d as usize] = r;
            }
            Ins::Alloca { d, size } => {
                let id = st.mem.alloc(Obj { data: vec![0; *size as usize], sym: Vec::new(), ro: false, stack: true });
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(id);
                fr.regs[*d as usize] = I((id as u64) << 32);
            }
            Ins::Br(b) => Self::jump(fr, f, *b),
            Ins::CondBr(c, x, y) => {
                let r = match Self::op(fr, c) {
                    I(v) => v & 1 == 1,
                    E(e) => self.decide(st, e)?,
                    _ => return eng("br"),
                };
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                Self::jump(fr, f, if r { *x } else { *y });
            }
            Ins::Switch { w, v, def, cases } => {
                let v = Self::op(fr, v);
                let mut to = *def;
                match v {
                    I(x) => {
                        for (k, b) in cases {
                            if *k == x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    E(e) => {
                        // group the cases by target
                        let mut groups: Vec<(u32, Ex)> = Vec::new();
                        for (k, b) in cases {
                            let c = a(|ar| {
                                let kc = ar.konst(*k as u128, *w);
                                ar.cmp(Op::Eq, e, kc)
                            });
                            match groups.iter_mut().find(|g| g.0 == *b) {
                                Some(g) => g.1 = a(|ar| ar.bin(Op::Or, g.1, c)),
                                None => groups.push((*b, c)),
                            }
                        }
                        for (b, c) in groups {
                            if b == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                to = b;
                                break;
                            }
                        }
                    }
                    _ => return eng("switch"),
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                Self::jump(fr, f, to);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| Self::op(fr, o));
                let fr = st.frames.pop().unwrap();
                for id in &fr.allocas {
                    st.mem.set(*id, None);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let (dst, next) = (fr.ret_dst, fr.ret_next);
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (dst, v) {
                    c.regs[d as usize] = v;
                }
                if let Some(n) = next {
                    let cf = &m.funcs[c.func as usize];
                    Self::jump(c, cf, n);
                }
            }
            Ins::Unreachable => return Err(Stop::Viol("unreachable".into(), format!("unreachable code reached in {}", f.name))),
            Ins::ExtractValue { d, a: x, idx } => {
                let mut v = Self::op(fr, x);
                for i in idx {
                    v = match v {
                        A(l) => l[*i as usize].clone(),
                        _ => return eng("extractvalue"),
                    };
                }
                fr.regs[*d as usize] = v;
            }
            Ins::InsertValue { d, ty: _, a: x, v, idx } => {
                let x = Self::op(fr, x);
                let v = Self::op(fr, v);
                fn ins(x: &Val, idx: &[u32], v: Val) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    match x {
                        A(l) => {
                            let mut l: Vec<Val> = l.to_vec();
                            l[idx[0] as usize] = ins(&l[idx[0] as usize], &idx[1..], v);
                            A(l.into())
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                fr.regs[*d as usize] = ins(&x, idx, v);
            }
            Ins::ExtractElement { d, a: x, i } => {
                let x = Self::op(fr, x);
                let i = Self::op(fr, i);
                let i = self.concretize(st, &i)?;
                let v = Self::lanes(&x)[i as usize].clone();
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = v;
            }
            Ins::InsertElement { d, n: _, a: x, v, i } => {
                let x = Self::op(fr, x);
                let v = Self::op(fr, v);
                let i = Self::op(fr, i);
                let i = self.concretize(st, &i)?;
                let mut l = Self::lanes(&x).to_vec();
                l[i as usize] = v;
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = A(l.into());
            }
            Ins::Shuffle { d, n, a: x, b: y, mask } => {
                let (x, y) = (Self::lanes(&Self::op(fr, x)), Self::lanes(&Self::op(fr, y)));
                let v: Vec<Val> = mask.iter().map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() }).collect();
                fr.regs[*d as usize] = A(v.into());
            }
            Ins::AtomicRmw { op, w, d, p, v } => {
                let (p, v) = (Self::op(fr, p), Self::op(fr, v));
                let p = I(self.concretize(st, &p)?);
                let old = self.load_sc(st, &p, *w)?;
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Bin(b) => Self::bin(*b, *w, &old, &v)?,
                    Rmw::UMax => {
                        let c = Self::cmp(Pred::Ugt, *w, &old, &v);
                        Self::ite(&c, &old, &v, *w)
                    }
                    Rmw::UMin => {
                        let c = Self::cmp(Pred::Ult, *w, &old, &v);
                        Self::ite(&c, &old, &v, *w)
                    }
                };
                self.store_sc(st, &p, &new, *w)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = old;
            }
            Ins::CmpXchg { w, d, p, e, n } => {
                let (p, e, n) = (Self::op(fr, p), Self::op(fr, e), Self::op(fr, n));
                let p = I(self.concretize(st, &p)?);
                let old = self.load_sc(st, &p, *w)?;
                let c = Self::cmp(Pred::Eq, *w, &old, &e);
                let ok = match c {
                    I(v) => v == 1,
                    E(x) => self.decide(st, x)?,
                    _ => return eng("cmpxchg"),
                };
                if ok {
                    self.store_sc(st, &p, &n, *w)?;
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = A(vec![old, I(ok as u64)].into());
            }
            Ins::Nop => {}
            Ins::Bad(s) => return eng(format!("unsupported instruction {}", s)),
            Ins::Call { d, rt, f: callee, args, widths, next } => {
                let vals: Vec<Val> = args.iter().map(|o| Self::op(fr, o)).collect();
                let id = match callee {
                    Callee::Obj(i) => *i,
                    Callee::Asm => {
                        if *rt != Ty::Void {
                            return eng("inline asm with a result");
                        }
                        return Ok(());
                    }
                    Callee::Reg(o) => {
                        let v = Self::op(fr, o);
                        let p = self.concretize(st, &v)?;
                        if p & 0xffff_ffff != 0 {
                            return ub("call through a bad pointer");
                        }
                        (p >> 32) as u32
                    }
                };
                let mut id = id;
                while let Some(Sym::Alias(t)) = m.objs.get(id as usize) {
                    id = *t;
                }
                match m.objs.get(id as usize) {
                    Some(Sym::Func(fi)) => {
                        let nf = &m.funcs[*fi as usize];
                        self.funcs[*fi as usize] = true;
                        if st.frames.len() > 3000 {
                            return Err(Stop::Viol("hang".into(), "call stack deeper than 3000 frames".into()));
                        }
                        let mut regs = Vec::with_capacity(nf.nregs as usize);
                        regs.extend(vals.into_iter().take(nf.nargs as usize));
                        regs.resize(nf.nregs as usize, I(0));
                        st.frames.push(Rc::new(Frame { func: *fi, block: 0, pc: 0, regs, allocas: Vec::new(), ret_dst: *d, ret_next: *next }));
                        if self.sh.merge[*fi as usize] {
                            self.merged_call(st, rt.bits());
                        }
                    }
                    Some(Sym::Decl(name)) => {
                        let e = self.sh.ext[id as usize];
                        let v = self.external(st, e, name, rt, &vals, widths)?;
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if let (Some(d), Some(v)) = (d, v) {
                            fr.regs[*d as usize] = v;
                        }
                        if let Some(n) = next {
                            Self::jump(fr, f, *n);
                        }
                    }
                    _ => return ub("call of a non-function"),
                }
            }
        }
        Ok(())
    }

    /// Run a call that only computes a value on all its paths and continue with
    /// one state in which the result is chosen by the conditions of those paths.
    /// Anything unexpected leaves `st` at the start of the call, to be run normally.
    fn merged_call(&mut self, st: &mut State, width: u32) {
        if width == 0 || width > 64 {
            return;
        }
        let base = st.frames.len() - 1;
        let dst = st.frames[base].ret_dst;
        if st.frames[base].ret_next.is_some() || dst.is_none() {
            return;
        }
        let dst = dst.unwrap() as usize;
        let saved = std::mem::take(&mut self.stack);
        let forks = self.forks;
        let mut sub = st.clone();
        sub.replay = Arc::default();
        sub.rpos = 0;
        sub.log = Rc::default();
        if let Some(m) = sub.final_model.take() {
            // the model of the state to be reached satisfies the path condition so far
            let md = Rc::make_mut(&mut sub.model);
            for (i, v) in m.iter().enumerate() {
                if i < md.len() {
                    md[i] = *v;
                }
            }
        }
        let n0 = st.pc.len();
        self.stack.push(sub);
        let mut done: Vec<State> = Vec::new();
        let mut ok = true;
        let mut budget = 2_000_000u64;
        'o: while let Some(mut s) = self.stack.pop() {
            while s.frames.len() > base {
                s.steps += 1;
                budget -= 1;
                if budget == 0 || self.step(&mut s).is_err() {
                    ok = false;
                    break 'o;
                }
            }
            if done.len() > 400 {
                ok = false;
                break;
            }
            done.push(s);
        }
        self.stack = saved;
        self.forks = forks;
        if !ok || done.is_empty() {
            return;
        }
        // no path may have changed memory that existed before, or leave anything behind
        let before = &st.mem;
        for s in &done {
            for (i, c) in s.mem.chunks.iter().enumerate() {
                match before.chunks.get(i) {
                    Some(b) if Rc::ptr_eq(b, c) => {}
                    b => {
                        for (j, o) in c.iter().enumerate() {
                            let old = b.and_then(|b| b[j].as_ref());
                            let same = match (old, o) {
                                (None, None) => true,
                                (Some(x), Some(y)) => Rc::ptr_eq(x, y) || (x.data == y.data && x.sym == y.sym),
                                // the frame of the call itself was set up after `st` was taken
                                _ => false,
                            };
                            if !same {
                                return;
                            }
                        }
                    }
                }
            }
            if s.inputs.len() != st.inputs.len() || s.notes.len() != st.notes.len() || s.varw.len() != st.varw.len() {
                return;
            }
        }
        // values, grouped
        let mut groups: Vec<(Val, Ex)> = Vec::new();
        for s in &done {
            let mut c = a(|ar| ar.konst(1, 1));
            for e in &s.pc[n0..] {
                c = a(|ar| ar.bin(Op::And, c, *e));
            }
            let v = s.frames[base - 1].regs[dst].clone();
            if let A(_) = &v {
                return;
            }
            match groups.iter_mut().find(|(u, _)| match (u, &v) {
                (I(x), I(y)) => x == y,
                (E(x), E(y)) => x == y,
                _ => false,
            }) {
                Some(g) => g.1 = a(|ar| ar.bin(Op::Or, g.1, c)),
                None => groups.push((v, c)),
            }
        }
        let (last, _) = groups.pop().unwrap();
        let mut r = ex(&last, width);
        for (v, c) in groups {
            let v = ex(&v, width);
            r = a(|ar| ar.ite(c, v, r));
        }
        st.steps = done.iter().map(|s| s.steps).max().unwrap();
        st.frames.pop();
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[dst] = norm(r);
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        if n > 1 << 28 {
            return 0;
        }
        (st.mem.alloc(Obj { data: vec![0; n as usize], sym: Vec::new(), ro: false, stack: false }) as u64) << 32
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        if p & 0xffff_ffff != 0 || st.mem.get(id).map_or(true, |o| o.stack || o.ro) || (id as usize) < self.sh.m.objs.len() {
            return ub(format!("invalid free of {:#x}", p));
        }
        st.mem.set(id, None);
        Ok(())
    }

    fn external(&mut self, st: &mut State, e: Ext, name: &str, rt: &Ty, v: &[Val], ws: &[u32]) -> R<Option<Val>> {
        let w = rt.bits();
        let some = |x: Val| Ok(Some(x));
        match e {
            Ext::Nop => Ok(None),
            Ext::First => some(v[0].clone()),
            Ext::Memcpy => {
                self.memcpy(st, &v[0], &v[1], &v[2])?;
                some(v[0].clone())
            }
            Ext::Memset => {
                let n = self.concretize(st, &v[2])?;
                let p = self.concretize(st, &v[0])?;
                if n > 0 {
                    let (id, off) = self.resolve(st, &I(p), n)?;
                    let o = st.mem.get_mut(id).unwrap();
                    if o.ro {
                        return ub("memset of constant memory");
                    }
                    for i in 0..n as usize {
                        Self::put(o, off as usize + i, &Self::cast(Cast::Trunc, ws[1].max(8), 8, &v[1]));
                    }
                }
                some(v[0].clone())
            }
            Ext::Cttz | Ext::Ctlz | Ext::Ctpop => {
                let one = |v: &Val, w: u32| -> Val {
                    match v {
                        I(x) => I(match e {
                            Ext::Cttz => {
                                if *x == 0 {
                                    w as u64
                                } else {
                                    x.trailing_zeros() as u64
                                }
                            }
                            Ext::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                            _ => x.count_ones() as u64,
                        }),
                        E(x) => norm(a(|ar| {
                            let x = *x;
                            match e {
                                Ext::Ctpop => {
                                    let mut r = ar.konst(0, w);
                                    for i in 0..w {
                                        let b = ar.extract(x, i, i);
                                        let b = ar.zext(b, w);
                                        r = ar.bin(Op::Add, r, b);
                                    }
                                    r
                                }
                                _ => {
                                    let mut r = ar.konst(w as u128, w);
                                    for i in 0..w {
                                        // last assignment wins: lowest bit for cttz, highest for ctlz
                                        let bit = if e == Ext::Cttz { w - 1 - i } else { i };
                                        let b = ar.extract(x, bit, bit);
                                        let val = if e == Ext::Cttz { bit } else { w - 1 - bit };
                                        let k = ar.konst(val as u128, w);
                                        r = ar.ite(b, k, r);
                                    }
                                    r
                                }
                            }
                        })),
                        _ => panic!(),
                    }
                };
                some(one(&v[0], w))
            }
            Ext::Bswap | Ext::BitReverse => {
                let x = ex(&v[0], w);
                let step = if e == Ext::Bswap { 8 } else { 1 };
                some(norm(a(|ar| {
                    let mut r = ar.extract(x, step - 1, 0);
                    let mut i = step;
                    while i < w {
                        let b = ar.extract(x, i + step - 1, i);
                        r = ar.concat(r, b);
                        i += step;
                    }
                    r
                })))
            }
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let p = match e {
                    Ext::UMin => Pred::Ult,
                    Ext::UMax => Pred::Ugt,
                    Ext::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if let Ty::Vec(n, t) = rt {
                    let (x, y) = (Self::lanes(&v[0]), Self::lanes(&v[1]));
                    let w = t.bits();
                    return some(A((0..*n as usize)
                        .map(|i| {
                            let c = Self::cmp(p, w, &x[i], &y[i]);
                            Self::ite(&c, &x[i], &y[i], w)
                        })
                        .collect::<Vec<_>>()
                        .into()));
                }
                let c = Self::cmp(p, w, &v[0], &v[1]);
                some(Self::ite(&c, &v[0], &v[1], w))
            }
            Ext::Abs => {
                let c = Self::cmp(Pred::Slt, w, &v[0], &Self::cast(Cast::ZExt, w, w, &I(0)));
                let n = Self::bin(Bin::Sub, w, &I(0), &v[0])?;
                some(Self::ite(&c, &n, &v[0], w))
            }
            Ext::Ovf(op, signed) => {
                let w = ws[0];
                let r = Self::bin(op, w, &v[0], &v[1])?;
                let o = match (op, signed) {
                    (Bin::Add, false) => Self::cmp(Pred::Ult, w, &r, &v[0]),
                    (Bin::Sub, false) => Self::cmp(Pred::Ult, w, &v[0], &v[1]),
                    _ => {
                        if w > 64 {
                            return eng("wide overflow arithmetic");
                        }
                        let k = if signed { Cast::SExt } else { Cast::ZExt };
                        let x = ex(&Self::cast(k, w, 2 * w, &v[0]), 2 * w);
                        let y = ex(&Self::cast(k, w, 2 * w, &v[1]), 2 * w);
                        let back = ex(&Self::cast(k, w, 2 * w, &r), 2 * w);
                        let eop = match op {
                            Bin::Add => Op::Add,
                            Bin::Sub => Op::Sub,
                            _ => Op::Mul,
                        };
                        norm(a(|ar| {
                            let full = ar.bin(eop, x, y);
                            let c = ar.cmp(Op::Eq, full, back);
                            ar.not(c)
                        }))
                    }
                };
                some(A(vec![r, o].into()))
            }
            Ext::UAddSat | Ext::USubSat => {
                if e == Ext::UAddSat {
                    let r = Self::bin(Bin::Add, w, &v[0], &v[1])?;
                    let c = Self::cmp(Pred::Ult, w, &r, &v[0]);
                    let m = norm(a(|ar| ar.konst(u128::MAX, w)));
                    some(Self::ite(&c, &m, &r, w))
                } else {
                    let r = Self::bin(Bin::Sub, w, &v[0], &v[1])?;
                    let c = Self::cmp(Pred::Ult, w, &v[0], &v[1]);
                    let z = norm(a(|ar| ar.konst(0, w)));
                    some(Self::ite(&c, &z, &r, w))
                }
            }
            Ext::UCmp | Ext::SCmp => {
                let iw = ws[0];
                let lt = Self::cmp(if e == Ext::UCmp { Pred::Ult } else { Pred::Slt }, iw, &v[0], &v[1]);
                let eq = Self::cmp(Pred::Eq, iw, &v[0], &v[1]);
                let m1 = I(mask(w) as u64);
                let r = Self::ite(&eq, &I(0), &I(1), w);
                some(Self::ite(&lt, &m1, &r, w))
            }
            Ext::Fshl | Ext::Fshr => {
                let s = self.concretize(st, &v[2])? % w as u64;
                if s == 0 {
                    return some(if e == Ext::Fshl { v[0].clone() } else { v[1].clone() });
                }
                let s = if e == Ext::Fshl { s } else { w as u64 - s };
                let hi = Self::bin(Bin::Shl, w, &v[0], &norm(a(|ar| ar.konst(s as u128, w))))?;
                let lo = Self::bin(Bin::LShr, w, &v[1], &norm(a(|ar| ar.konst(w as u128 - s as u128, w))))?;
                some(Self::bin(Bin::Or, w, &hi, &lo)?)
            }
            Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceAdd => {
                let l = Self::lanes(&v[0]);
                let op = match e {
                    Ext::ReduceOr => Bin::Or,
                    Ext::ReduceAnd => Bin::And,
                    _ => Bin::Add,
                };
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = Self::bin(op, w, &r, x)?;
                }
                some(r)
            }
            Ext::Trap => Err(Stop::Viol("panic".into(), format!("{} called", name))),
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.concretize(st, &v[2])?;
                let p = self.concretize(st, &v[0])?;
                let q = self.concretize(st, &v[1])?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                // concrete difference first
                let mut r = I(0);
                if e == Ext::Bcmp {
                    let mut c = a(|ar| ar.konst(1, 1));
                    for (s, t) in x.iter().zip(&y) {
                        match Self::cmp(Pred::Eq, 8, s, t) {
                            I(1) => {}
                            I(_) => return some(I(1)),
                            E(d) => c = a(|ar| ar.bin(Op::And, c, d)),
                            _ => {}
                        }
                    }
                    let ne = norm(a(|ar| {
                        let n = ar.not(c);
                        ar.zext(n, w)
                    }));
                    return some(ne);
                }
                for (s, t) in x.iter().zip(&y).rev() {
                    let eq = Self::cmp(Pred::Eq, 8, s, t);
                    let d = Self::bin(Bin::Sub, w, &Self::cast(Cast::ZExt, 8, w, s), &Self::cast(Cast::ZExt, 8, w, t))?;
                    r = Self::ite(&eq, &r, &d, w);
                }
                some(r)
            }
            Ext::Strlen => {
                let p = self.concretize(st, &v[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_sc(st, &I(p + n), 8)?;
                    let z = match Self::cmp(Pred::Eq, 8, &b, &I(0)) {
                        I(x) => x == 1,
                        E(c) => self.decide(st, c)?,
                        _ => unreachable!(),
                    };
                    if z {
                        return some(I(n));
                    }
                    n += 1;
                }
            }
            Ext::Malloc => {
                let n = self.concretize(st, &v[0])?;
                some(I(self.alloc(st, n)))
            }
            Ext::Calloc => {
                let n = self.concretize(st, &v[0])?;
                let k = self.concretize(st, &v[1])?;
                some(I(match n.checked_mul(k) {
                    Some(t) => self.alloc(st, t),
                    None => 0,
                }))
            }
            Ext::Realloc => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let q = self.alloc(st, n);
                if q == 0 {
                    return some(I(0));
                }
                if p != 0 {
                    let old = match st.mem.get((p >> 32) as u32) {
                        Some(o) => o.data.len() as u64,
                        None => return ub("realloc of a bad pointer"),
                    };
                    self.memcpy(st, &I(q), &I(p), &I(old.min(n)))?;
                    self.free(st, p)?;
                }
                some(I(q))
            }
            Ext::PosixMemalign => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[2])?;
                let q = self.alloc(st, n);
                if q == 0 {
                    return some(I(12));
                }
                self.store_sc(st, &I(p), &I(q), 64)?;
                some(I(0))
            }
            Ext::Free => {
                let p = self.concretize(st, &v[0])?;
                self.free(st, p)?;
                Ok(None)
            }
            Ext::Zero => {
                if name == "pthread_key_create" {
                    let p = self.concretize(st, &v[0])?;
                    self.store_sc(st, &I(p), &I(1), 32)?;
                }
                Ok(if *rt == Ty::Void { None } else { Some(I(0)) })
            }
            // what is printed goes nowhere
            Ext::MinusOne if name == "write" && matches!(v[0], I(1) | I(2)) => some(v[2].clone()),
            Ext::MinusOne => Ok(Some(I(if name == "realpath" || name == "getcwd" { 0 } else { mask(w) as u64 }))),
            Ext::Errno => some(I((self.sh.errno_obj as u64) << 32)),
            Ext::GetRandom => some(v[1].clone()),
            Ext::Syscall => {
                let nr = self.concretize(st, &v[0])?;
                if nr == 318 {
                    return some(v[2].clone());
                }
                if nr == 202 {
                    return some(I(0)); // futex
                }
                eng(format!("system call {}", nr))
            }
            Ext::ClockGettime => {
                let p = self.concretize(st, &v[1])?;
                self.store_sc(st, &I(p), &I(1_600_000_000), 64)?;
                self.store_sc(st, &I(p + 8), &I(0), 64)?;
                some(I(0))
            }
            Ext::Panic => {
                let mut loc = String::new();
                for x in v.iter().rev() {
                    if let I(p) = x {
                        if let Some(o) = st.mem.get((*p >> 32) as u32) {
                            if o.ro && o.data.len() == 24 && p & 0xffff_ffff == 0 {
                                let g = |i: usize, n: usize| {
                                    let mut b = [0u8; 8];
                                    b[..n].copy_from_slice(&o.data[i..i + n]);
                                    u64::from_le_bytes(b)
                                };
                                let (fp, fl, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                                if fl < 400 {
                                    loc = format!("{}:{}:{}", self.cstr(st, fp, fl), line, col);
                                }
                                break;
                            }
                        }
                    }
                }
                let short = demangle_short(name);
                Err(Stop::Viol("panic".into(), format!("{} at {}", short, loc)))
            }
            Ext::HashWrite | Ext::HashWriteStr => {
                let h = self.concretize(st, &v[0])?;
                let p = self.concretize(st, &v[1])?;
                let n = self.concretize(st, &v[2])?;
                let mut b = self.bytes_at(st, p, n)?;
                if e == Ext::HashWriteStr {
                    b.push(I(0xff));
                }
                st.hstream.entry(h).or_default().extend(b);
                Ok(None)
            }
            Ext::HashFinish => {
                let h = self.concretize(st, &v[0])?;
                let key = match st.hstream.get(&h) {
                    Some(k) => k.clone(),
                    None => return eng("hash finished without data"),
                };
                let keys = st.hkeys.clone();
                let mut found = None;
                for (k, hv) in keys.iter() {
                    if k.len() != key.len() {
                        continue;
                    }
                    let mut c = a(|ar| ar.konst(1, 1));
                    let mut ne = false;
                    for (s, t) in k.iter().zip(&key) {
                        match Self::cmp(Pred::Eq, 8, s, t) {
                            I(1) => {}
                            E(d) => c = a(|ar| ar.bin(Op::And, c, d)),
                            _ => {
                                ne = true;
                                break;
                            }
                        }
                    }
                    if ne {
                        continue;
                    }
                    if self.decide(st, c)? {
                        found = Some(*hv);
                        break;
                    }
                }
                let hv = match found {
                    Some(v) => v,
                    None => {
                        let i = st.hcount;
                        // h1 = low bits (bucket), h2 = top 7 bits (tag)
                        let low = match st.hmode {
                            0 => i,
                            1 => 0xffff_ffffu64.wrapping_sub(i) & 0xffff_ffff,
                            2 => i.wrapping_mul(5),
                            _ => 0,
                        };
                        let tag = if st.hmode == 3 { 0x11 } else { i & 0x7f };
                        let hv = low | tag << 57;
                        st.hcount += 1;
                        Rc::make_mut(&mut st.hkeys).push((key, hv));
                        hv
                    }
                };
                st.hstream.remove(&h);
                some(I(hv))
            }
            Ext::SBudget => {
                st.budget = self.concretize(st, &v[0])?;
                Ok(None)
            }
            Ext::SHashMode => {
                st.hmode = self.concretize(st, &v[0])?;
                Ok(None)
            }
            Ext::SBytes | Ext::SRange => {
                // symex_bytes(p, n, name, name_len) / symex_range(max, name, name_len) -> u64
                let (p, n, np, nl) = if e == Ext::SBytes { (0, 1, 2, 3) } else { (9, 9, 1, 2) };
                let nm = {
                    let q = self.concretize(st, &v[np])?;
                    let l = self.concretize(st, &v[nl])?;
                    self.cstr(st, q, l)
                };
                if e == Ext::SBytes {
                    let p = self.concretize(st, &v[p])?;
                    let n = self.concretize(st, &v[n])?;
                    if n == 0 {
                        Rc::make_mut(&mut st.inputs).push((nm, Vec::new()));
                        return Ok(None);
                    }
                    let (id, off) = self.resolve(st, &I(p), n)?;
                    let mut es = Vec::new();
                    for i in 0..n {
                        let o = st.mem.get(id).unwrap();
                        // the present contents are the initial model
                        let init = o.data[(off + i) as usize];
                        let x = self.fresh(st, 8, 255, init as u128);
                        es.push(x);
                        let o = st.mem.get_mut(id).unwrap();
                        Self::put(o, (off + i) as usize, &E(x));
                    }
                    Rc::make_mut(&mut st.inputs).push((nm, es));
                    Ok(None)
                } else {
                    let max = self.concretize(st, &v[0])?;
                    if max >= 1 << 32 {
                        return eng("symex_range too wide");
                    }
                    let bits = (64 - max.leading_zeros()).max(1);
                    let x = self.fresh(st, bits, max as u32, 0);
                    if max != mask(bits) as u64 {
                        let c = a(|ar| {
                            let k = ar.konst(max as u128, bits);
                            // built without simplification by the variable's own interval
                            ar.raw_ule(x, k)
                        });
                        self.add(st, c);
                    }
                    let z = a(|ar| ar.zext(x, 64));
                    Rc::make_mut(&mut st.inputs).push((nm, vec![z]));
                    some(norm(z))
                }
            }
            Ext::SConcretize => {
                let x = self.concretize(st, &v[0])?;
                some(I(x))
            }
            Ext::SIsSym => some(I(matches!(v[0], E(_)) as u64)),
            Ext::SNote => {
                let q = self.concretize(st, &v[1])?;
                let l = self.concretize(st, &v[2])?;
                let s = self.cstr(st, q, l);
                Rc::make_mut(&mut st.notes).push((s, v[0].clone(), ws[0]));
                Ok(None)
            }
            Ext::SAssume => match &v[0] {
                I(x) => {
                    if x & 1 == 1 {
                        Ok(None)
                    } else {
                        Err(Stop::Prune)
                    }
                }
                E(c) => {
                    let c = *c;
                    if st.known.get(&c) == Some(&true) {
                        return Ok(None);
                    }
                    if st.rpos < st.replay.len() {
                        let d = st.replay[st.rpos].clone();
                        st.rpos += 1;
                        Rc::make_mut(&mut st.log).push(d);
                        self.add(st, c);
                        self.end_replay(st);
                        return Ok(None);
                    }
                    if a(|ar| ar.eval(c, &st.model)) != 1 {
                        match self.solver.check(&st.pc, c) {
                            Ans::Sat(m) => self.merge(st, &m),
                            Ans::Unsat => return Err(Stop::Prune),
                            Ans::Unknown => return eng("solver gave no answer in time (assume)"),
                        }
                    }
                    Rc::make_mut(&mut st.log).push(Dec::Taken(true));
                    self.add(st, c);
                    Ok(None)
                }
                _ => eng("assume"),
            },
            Ext::SAssert => {
                let q = self.concretize(st, &v[1])?;
                let l = self.concretize(st, &v[2])?;
                let id = self.cstr(st, q, l);
                match &v[0] {
                    I(x) => {
                        *self.asserts.entry(id.clone()).or_default() += 1;
                        if x & 1 == 1 {
                            Ok(None)
                        } else {
                            Err(Stop::Viol("assert".into(), id))
                        }
                    }
                    E(c) => {
                        let c = *c;
                        if st.known.get(&c) == Some(&true) {
                            return Ok(None);
                        }
                        if st.rpos < st.replay.len() {
                            let d = st.replay[st.rpos].clone();
                            st.rpos += 1;
                            Rc::make_mut(&mut st.log).push(d.clone());
                            match d {
                                Dec::Forced(_) => {
                                    Rc::make_mut(&mut st.known).insert(c, true);
                                }
                                _ => self.add(st, c),
                            }
                            self.end_replay(st);
                            return Ok(None);
                        }
                        *self.asserts.entry(id.clone()).or_default() += 1;
                        self.solver.stats.asserts += 1;
                        let nc = a(|ar| ar.not(c));
                        // a conjunction holds if each part does: smaller queries, often the same as before
                        let mut parts = vec![c];
                        let mut i = 0;
                        a(|ar| {
                            while i < parts.len() && parts.len() < 200 {
                                let n = ar.n(parts[i]);
                                if n.op == Op::And {
                                    let (x, y) = (n.a, n.b);
                                    parts[i] = x;
                                    parts.push(y);
                                } else {
                                    i += 1;
                                }
                            }
                        });
                        let mut ans = None;
                        if parts.len() > 1 {
                            parts.sort();
                            parts.dedup();
                            let mut all = true;
                            for p in parts {
                                let np = a(|ar| ar.not(p));
                                if !matches!(self.solver.check(&st.pc, np), Ans::Unsat) {
                                    all = false;
                                    break;
                                }
                            }
                            if all {
                                ans = Some(Ans::Unsat);
                            }
                        }
                        match ans.unwrap_or_else(|| self.solver.check(&st.pc, nc)) {
                            Ans::Unsat => {
                                Rc::make_mut(&mut st.known).insert(c, true);
                                Rc::make_mut(&mut st.log).push(Dec::Forced(true));
                                Ok(None)
                            }
                            Ans::Sat(m) => {
                                let mut s2 = st.clone();
                                self.merge(&mut s2, &m);
                                let model = s2.model.clone();
                                self.violation(&s2, "assert", &id, &model);
                                // carry on with the inputs that satisfy it
                                match self.solver.check(&st.pc, c) {
                                    Ans::Sat(m) => {
                                        self.merge(st, &m);
                                        Rc::make_mut(&mut st.log).push(Dec::Taken(true));
                                        self.add(st, c);
                                        Ok(None)
                                    }
                                    Ans::Unsat => Err(Stop::Prune),
                                    Ans::Unknown => eng("solver gave no answer in time (assert)"),
                                }
                            }
                            Ans::Unknown => eng(format!("solver gave no answer in time on assertion {}", id)),
                        }
                    }
                    _ => eng("assert"),
                }
            }
            Ext::SCover => {
                let q = self.concretize(st, &v[0])?;
                let l = self.concretize(st, &v[1])?;
                let id = self.cstr(st, q, l);
                *self.covers.entry(id).or_default() += 1;
                Ok(None)
            }
            Ext::None | Ext::Unknown => eng(format!("call of unmodelled external function {}", name)),
        }
    }
    fn fresh(&mut self, st: &mut State, w: u32, hi: u32, init: u128) -> Ex {
        let idx = st.varw.len() as u32;
        Rc::make_mut(&mut st.varw).push(w);
        VARW.with(|x| x.borrow_mut()[idx as usize] = w);
        let mut d = [0u64; 4];
        if w <= 8 {
            for v in 0..=(hi as usize) {
                d[v / 64] |= 1 << (v % 64);
            }
        }
        Rc::make_mut(&mut st.dom).push(d);
        Rc::make_mut(&mut st.model).push(init);
        let e = a(|ar| ar.var(idx, w, hi));
        // a replayed path gets its final model at the end of the log
        if st.rpos == st.replay.len() && st.final_model.is_some() {
            let fm = st.final_model.clone().unwrap();
            if (idx as usize) < fm.len() {
                Rc::make_mut(&mut st.model)[idx as usize] = fm[idx as usize];
            }
        }
        e
    }
}

pub fn demangle_short(n: &str) -> String {
    // keep the readable identifiers of a v0/legacy mangled name
    let b = n.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 1 && j + len <= b.len() && b[j..j + len].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[j..j + len].to_string());
                i = j + len;
                continue;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

pub type Names = HashMap<String, u32>;
