//! Parser for textual LLVM IR (opaque pointers, LLVM 18-23), lowering it to a
//! register machine.  Every global and function gets an object id; the address
//! of object `i` is `i << 32`, so constant expressions fold to integers.
use crate::expr::mask;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b <= 1 {
                    1
                } else {
                    b.next_power_of_two()
                }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(packed, v) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in v {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(p, v) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(packed, v) => {
                let mut o = 0u64;
                for (k, t) in v.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    /// width in bits of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n as u32,
            _ => 0,
        }
    }
    pub fn scalar(&self) -> &Ty {
        match self {
            Ty::Vec(_, t) => t,
            t => t,
        }
    }
}

#[derive(Clone, Debug)]
pub enum K {
    I(u64),
    W(u128, u32),
    A(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    I(u64),
    K(Box<K>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Copy,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Bin(Bin),
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Obj(u32),
    Reg(O),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Bin, w: u32, lanes: u32, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u32, lanes: u32, d: u32, a: O, b: O },
    Cast { k: Cast, fw: u32, tw: u32, lanes: u32, d: u32, a: O },
    BitCast { from: Ty, to: Ty, d: u32, a: O },
    Select { ty: Ty, clanes: u32, d: u32, c: O, a: O, b: O },
    Load { ty: Ty, d: u32, p: O },
    Store { ty: Ty, v: O, p: O },
    Gep { d: u32, base: O, off: u64, terms: Vec<(O, u32, u64)> },
    Alloca { d: u32, size: u64 },
    Call { d: Option<u32>, rt: Ty, f: Callee, args: Vec<O>, widths: Vec<u32>, next: Option<u32> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { w: u32, v: O, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<O>),
    Unreachable,
    ExtractValue { d: u32, a: O, idx: Vec<u32> },
    InsertValue { d: u32, ty: Ty, a: O, v: O, idx: Vec<u32> },
    ExtractElement { d: u32, a: O, i: O },
    InsertElement { d: u32, n: u32, a: O, v: O, i: O },
    Shuffle { d: u32, n: u32, a: O, b: O, mask: Vec<u32> },
    AtomicRmw { op: Rmw, w: u32, d: u32, p: O, v: O },
    CmpXchg { w: u32, d: u32, p: O, e: O, n: O },
    Nop,
    Bad(String),
}

pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
}

pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ins: Vec<Ins>,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub enum Sym {
    Func(u32),   // index into funcs
    Global(u32), // index into globals
    Decl(String),
    Alias(u32),
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub objs: Vec<Sym>, // object id -> symbol (ids start at 1; objs[0] unused)
    pub names: HashMap<String, u32>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    names: &'a HashMap<String, u32>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn wsnl(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at: {}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let mut a = self.i;
        while a > 0 && self.s[a - 1] != b'\n' {
            a -= 1;
        }
        let b = (self.i + 80).min(self.s.len());
        format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let sv = self.i;
        if self.word() == w {
            true
        } else {
            self.i = sv;
            false
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        if self.i < self.s.len() {
            self.i += 1;
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while is_word(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn parens(&mut self) {
        // skip balanced parentheses, cursor on '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            _ => {
                let w = self.peek_word();
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "metadata"
                    || w == "label"
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                Ty::Struct(false, self.tylist(b'}'))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.tylist(b'}');
                    self.expect(b'>');
                    Ty::Struct(true, v)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.ws();
                            self.parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", w, self.ctx()))),
                    _ => panic!("type {:?} at {}", w, self.ctx()),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn is_value_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'<' | b'[' | b'{' | b'-' | b'0'..=b'9' => true,
            b'c' if self.s[self.i + 1] == b'"' => true,
            _ => {
                let w = self.peek_word();
                matches!(
                    w,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "getelementptr" | "bitcast" | "add" | "sub" | "mul" | "xor" | "trunc" | "asm" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi"
                )
            }
        }
    }
    fn skip_attrs(&mut self) {
        // parameter attributes before a value
        while !self.is_value_start() {
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    self.ws();
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                panic!("attr at {}", self.ctx());
            }
            if w == "align" {
                if self.peek() == b'(' {
                    self.parens();
                } else {
                    self.word();
                }
            } else if self.peek() == b'(' {
                self.parens();
            }
        }
    }
    /// integer value of a constant of the given type
    fn const_u128(&mut self, t: &Ty) -> u128 {
        match self.konst(t) {
            K::I(v) => v as u128,
            K::W(v, _) => v,
            K::A(_) => panic!("aggregate"),
        }
    }
    fn zero(t: &Ty) -> K {
        match t {
            Ty::Int(w) if *w > 64 => K::W(0, *w),
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => K::I(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => K::A((0..*n).map(|_| Self::zero(t)).collect()),
            Ty::Struct(_, v) => K::A(v.iter().map(Self::zero).collect()),
            _ => K::I(0),
        }
    }
    fn addr_of(&self, n: &str) -> u64 {
        (*self.names.get(n).unwrap_or_else(|| panic!("unknown global @{}", n)) as u64) << 32
    }
    fn konst(&mut self, t: &Ty) -> K {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                K::I(self.addr_of(&n))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = Vec::new();
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(K::I(b'\\' as u64));
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(K::I(u8::from_str_radix(h, 16).unwrap() as u64));
                        self.i += 3;
                    } else {
                        v.push(K::I(self.s[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                K::A(v)
            }
            b'{' | b'[' | b'<' => {
                self.i += 1;
                let mut end = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    end = b'}';
                    packed = true;
                }
                let mut v = Vec::new();
                if !self.eat(end) {
                    loop {
                        let t = self.ty();
                        v.push(self.konst(&t));
                        if self.eat(end) {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                if packed {
                    self.expect(b'>');
                }
                K::A(v)
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if let Ty::Float(_) = t {
                    if let Some(h) = w.strip_prefix("0x") {
                        return K::I(u64::from_str_radix(h, 16).unwrap_or(0));
                    }
                    return K::I(w.parse::<f64>().unwrap_or(0.0).to_bits());
                }
                let bits = t.bits();
                let v: u128 = if let Some(n) = w.strip_prefix('-') {
                    (n.parse::<u128>().unwrap()).wrapping_neg()
                } else {
                    w.parse().unwrap_or_else(|_| panic!("int {} at {}", w, self.ctx()))
                };
                let v = v & mask(bits);
                if bits > 64 {
                    K::W(v, bits)
                } else {
                    K::I(v as u64)
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => K::I(1),
                    "false" | "null" | "none" => K::I(0),
                    "undef" | "poison" | "zeroinitializer" => Self::zero(t),
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let st = self.ty();
                        let v = self.const_u128(&st);
                        assert!(self.eat_word("to"));
                        let tt = self.ty();
                        self.expect(b')');
                        let v = v & mask(tt.bits());
                        if tt.bits() > 64 {
                            K::W(v, tt.bits())
                        } else {
                            K::I(v as u64)
                        }
                    }
                    "add" | "sub" | "mul" | "xor" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let st = self.ty();
                        let a = self.const_u128(&st);
                        self.expect(b',');
                        let st = self.ty();
                        let b = self.const_u128(&st);
                        self.expect(b')');
                        let v = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        K::I((v & mask(st.bits())) as u64)
                    }
                    "getelementptr" => {
                        loop {
                            if self.peek() == b'(' {
                                // either inrange(..) or the operand list
                                break;
                            }
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.parens();
                            }
                        }
                        self.expect(b'(');
                        let mut t = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let mut a = self.const_u128(&bt) as u64;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let v = self.const_u128(&it);
                            let v = crate::expr::sext(v, it.bits()) as i64;
                            if first {
                                a = a.wrapping_add((v as u64).wrapping_mul(t.size()));
                                first = false;
                            } else {
                                let (o, nt) = t.field(v as u64);
                                a = a.wrapping_add(o);
                                t = nt;
                            }
                        }
                        self.expect(b')');
                        K::I(a)
                    }
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.expect(b')');
                        match t {
                            Ty::Vec(n, _) => K::A((0..*n).map(|_| v.clone()).collect()),
                            _ => panic!("splat"),
                        }
                    }
                    _ => panic!("const {:?} at {}", w, self.ctx()),
                }
            }
        }
    }
}

fn bytes_of(t: &Ty, k: &K, out: &mut Vec<u8>) {
    match (t, k) {
        (Ty::Arr(n, et), K::A(v)) | (Ty::Vec(n, et), K::A(v)) => {
            assert_eq!(*n as usize, v.len());
            for x in v {
                bytes_of(et, x, out);
            }
        }
        (Ty::Struct(packed, ts), K::A(v)) => {
            let st = out.len();
            for (t, x) in ts.iter().zip(v) {
                if !packed {
                    let a = t.align() as usize;
                    while (out.len() - st) % a != 0 {
                        out.push(0);
                    }
                }
                bytes_of(t, x, out);
            }
            while ((out.len() - st) as u64) < t.size() {
                out.push(0);
            }
        }
        (_, K::I(v)) => {
            let n = t.size() as usize;
            let mut b = v.to_le_bytes().to_vec();
            b.resize(n.max(8), 0);
            out.extend_from_slice(&b[..n]);
        }
        (_, K::W(v, _)) => out.extend_from_slice(&v.to_le_bytes()[..t.size() as usize]),
        _ => panic!("bytes_of {:?}", t),
    }
}

fn k_to_o(k: K) -> O {
    match k {
        K::I(v) => O::I(v),
        k => O::K(Box::new(k)),
    }
}

struct FP<'a, 'b> {
    p: &'b mut P<'a>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}
impl<'a, 'b> FP<'a, 'b> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn block(&mut self, n: String) -> u32 {
        let nb = &mut self.nblocks;
        *self.blocks.entry(n).or_insert_with(|| {
            *nb += 1;
            *nb - 1
        })
    }
    fn label(&mut self) -> u32 {
        assert!(self.p.eat_word("label"));
        self.p.expect(b'%');
        let n = self.p.name();
        self.block(n)
    }
    fn value(&mut self, t: &Ty) -> O {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            O::R(self.reg(n))
        } else {
            k_to_o(self.p.konst(t))
        }
    }
    fn tyval(&mut self) -> (Ty, O) {
        let t = self.p.ty();
        self.p.skip_attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn flags(&mut self) {
        // instruction flags before the type
        while !self.p.is_type_start() {
            let w = self.p.word();
            if w.is_empty() {
                panic!("flag at {}", self.p.ctx());
            }
            if self.p.peek() == b'(' {
                self.p.parens();
            }
        }
    }
    fn call(&mut self, d: Option<u32>, invoke: bool) -> Ins {
        // cursor after call / invoke; skip cc + attrs until the type
        while !self.p.is_type_start() {
            if self.p.eat(b'#') {
                self.p.word();
                continue;
            }
            let w = self.p.word();
            if w.is_empty() {
                panic!("call attr at {}", self.p.ctx());
            }
            if w == "align" && self.p.peek() != b'(' {
                self.p.word();
            } else if self.p.peek() == b'(' {
                self.p.parens();
            }
        }
        let rt = self.p.ty();
        if self.p.peek() == b'(' {
            self.p.parens();
        }
        let f;
        match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                let n = self.p.name();
                f = Callee::Obj((self.p.addr_of(&n) >> 32) as u32);
            }
            b'%' => {
                self.p.i += 1;
                let n = self.p.name();
                f = Callee::Reg(O::R(self.reg(n)));
            }
            _ => {
                let w = self.p.peek_word();
                if w == "asm" {
                    f = Callee::Asm;
                    while self.p.peek() != b'(' {
                        if self.p.peek() == b'"' {
                            self.p.i += 1;
                            while self.p.s[self.p.i] != b'"' {
                                self.p.i += 1;
                            }
                            self.p.i += 1;
                        } else {
                            self.p.i += 1;
                        }
                    }
                } else {
                    f = Callee::Reg(k_to_o(self.p.konst(&Ty::Ptr)));
                }
            }
        }
        self.p.expect(b'(');
        let mut args = Vec::new();
        let mut widths = Vec::new();
        if !self.p.eat(b')') {
            loop {
                if self.p.peek() == b'.' {
                    self.p.word();
                } else {
                    let t = self.p.ty();
                    if t == Ty::Other {
                        // metadata operand
                        let mut depth = 0;
                        loop {
                            match self.p.s[self.p.i] {
                                b'(' | b'{' => depth += 1,
                                b')' if depth == 0 => break,
                                b',' if depth == 0 => break,
                                b')' | b'}' => depth -= 1,
                                _ => {}
                            }
                            self.p.i += 1;
                        }
                        args.push(O::I(0));
                        widths.push(0);
                    } else {
                        self.p.skip_attrs();
                        let v = self.value(&t);
                        args.push(v);
                        widths.push(t.bits());
                    }
                }
                if self.p.eat(b')') {
                    break;
                }
                self.p.expect(b',');
            }
        }
        let mut next = None;
        if invoke {
            // attributes, then "to label %n unwind label %u", possibly on the next line
            loop {
                self.p.wsnl();
                if self.p.eat_word("to") {
                    break;
                }
                match self.p.peek() {
                    b'[' => {
                        while self.p.s[self.p.i] != b']' {
                            self.p.i += 1;
                        }
                        self.p.i += 1;
                    }
                    b'"' => {
                        self.p.i += 1;
                        while self.p.s[self.p.i] != b'"' {
                            self.p.i += 1;
                        }
                        self.p.i += 1;
                    }
                    b'#' | b'!' | b',' | b'=' => {
                        self.p.i += 1;
                    }
                    _ => {
                        if self.p.word().is_empty() {
                            panic!("invoke at {}", self.p.ctx());
                        }
                        if self.p.peek() == b'(' {
                            self.p.parens();
                        }
                    }
                }
            }
            next = Some(self.label());
        }
        Ins::Call { d, rt, f, args, widths, next }
    }
    fn idx_list(&mut self) -> Vec<u32> {
        let mut v = Vec::new();
        while self.p.eat(b',') {
            if self.p.peek() == b'!' {
                break;
            }
            v.push(self.p.word().parse().unwrap());
        }
        v
    }
    fn ins(&mut self, d: Option<u32>, phis: &mut Vec<(u32, Vec<(u32, O)>)>) -> Option<Ins> {
        let mut op = self.p.word();
        while op == "tail" || op == "musttail" || op == "notail" {
            op = self.p.word();
        }
        let dd = d.unwrap_or(u32::MAX);
        let bin = |op: &str| -> Option<Bin> {
            Some(match op {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(op) {
            self.flags();
            let t = self.p.ty();
            let a = self.value(&t);
            self.p.expect(b',');
            let c = self.value(&t);
            return Some(Ins::Bin { op: b, w: t.scalar().bits(), lanes: t.lanes(), d: dd, a, b: c });
        }
        Some(match op {
            "icmp" => {
                let mut w = self.p.word();
                if w == "samesign" {
                    w = self.p.word();
                }
                let p = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {}", w),
                };
                let t = self.p.ty();
                let a = self.value(&t);
                self.p.expect(b',');
                let b = self.value(&t);
                Ins::Icmp { p, w: t.scalar().bits(), lanes: t.lanes(), d: dd, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.flags();
                let t = self.p.ty();
                let a = self.value(&t);
                assert!(self.p.eat_word("to"));
                let tt = self.p.ty();
                let (fw, tw) = (t.scalar().bits(), tt.scalar().bits());
                let k = match op {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    _ if fw == tw => Cast::Copy,
                    _ if fw > tw => Cast::Trunc,
                    _ => Cast::ZExt,
                };
                Ins::Cast { k, fw, tw, lanes: t.lanes(), d: dd, a }
            }
            "bitcast" => {
                let t = self.p.ty();
                let a = self.value(&t);
                assert!(self.p.eat_word("to"));
                let tt = self.p.ty();
                Ins::BitCast { from: t, to: tt, d: dd, a }
            }
            "freeze" => {
                let (t, a) = self.tyval();
                Ins::Cast { k: Cast::Copy, fw: t.bits(), tw: t.bits(), lanes: t.lanes(), d: dd, a }
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval();
                self.p.expect(b',');
                let (ty, a) = self.tyval();
                self.p.expect(b',');
                let (_, b) = self.tyval();
                Ins::Select { ty, clanes: ct.lanes(), d: dd, c, a, b }
            }
            "phi" => {
                self.flags();
                let t = self.p.ty();
                let mut v = Vec::new();
                loop {
                    self.p.expect(b'[');
                    let o = self.value(&t);
                    self.p.expect(b',');
                    self.p.expect(b'%');
                    let n = self.p.name();
                    let b = self.block(n);
                    self.p.expect(b']');
                    v.push((b, o));
                    if !self.p.eat(b',') || self.p.peek() != b'[' {
                        break;
                    }
                }
                phis.push((dd, v));
                return None;
            }
            "load" => {
                self.p.eat_word("atomic");
                self.p.eat_word("volatile");
                let ty = self.p.ty();
                self.p.expect(b',');
                let (_, p) = self.tyval();
                Ins::Load { ty, d: dd, p }
            }
            "store" => {
                self.p.eat_word("atomic");
                self.p.eat_word("volatile");
                let (ty, v) = self.tyval();
                self.p.expect(b',');
                let (_, p) = self.tyval();
                Ins::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags();
                let mut t = self.p.ty();
                self.p.expect(b',');
                let (bt, base) = self.tyval();
                if bt.lanes() > 0 {
                    return Some(Ins::Bad("vector gep".into()));
                }
                let mut off = 0u64;
                let mut terms = Vec::new();
                let mut first = true;
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tyval();
                    let sz = if first {
                        t.size()
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                let i = match v {
                                    O::I(i) => i,
                                    _ => panic!("struct gep"),
                                };
                                let (o, nt) = t.field(i);
                                off = off.wrapping_add(o);
                                t = nt;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let e = (**e).clone();
                                let s = e.size();
                                t = e;
                                s
                            }
                            _ => panic!("gep {:?}", t),
                        }
                    };
                    first = false;
                    match v {
                        O::I(i) => {
                            let i = crate::expr::sext(i as u128, it.bits()) as i64 as u64;
                            off = off.wrapping_add(i.wrapping_mul(sz));
                        }
                        v => terms.push((v, it.bits(), sz)),
                    }
                }
                Ins::Gep { d: dd, base, off, terms }
            }
            "alloca" => {
                let t = self.p.ty();
                let mut n = 1;
                if self.p.eat(b',') && self.p.is_type_start() {
                    let (_, v) = self.tyval();
                    match v {
                        O::I(i) => n = i,
                        _ => return Some(Ins::Bad("variable alloca".into())),
                    }
                }
                Ins::Alloca { d: dd, size: t.size() * n }
            }
            "call" => self.call(d, false),
            "invoke" => self.call(d, true),
            "br" => {
                if self.p.peek_word() == "label" {
                    Ins::Br(self.label())
                } else {
                    let (_, c) = self.tyval();
                    self.p.expect(b',');
                    let a = self.label();
                    self.p.expect(b',');
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.p.expect(b',');
                let def = self.label();
                self.p.expect(b'[');
                let mut cases = Vec::new();
                loop {
                    self.p.wsnl();
                    if self.p.eat(b']') {
                        break;
                    }
                    let ct = self.p.ty();
                    let k = self.p.const_u128(&ct);
                    self.p.expect(b',');
                    let l = self.label();
                    cases.push((k as u64, l));
                }
                Ins::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.value(&t)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Bad("resume".into()),
            "landingpad" => Ins::Bad("landingpad".into()),
            "cleanup" | "catch" | "filter" => Ins::Nop,
            "extractvalue" => {
                let (_, a) = self.tyval();
                Ins::ExtractValue { d: dd, a, idx: self.idx_list() }
            }
            "insertvalue" => {
                let (ty, a) = self.tyval();
                self.p.expect(b',');
                let (_, v) = self.tyval();
                Ins::InsertValue { d: dd, ty, a, v, idx: self.idx_list() }
            }
            "extractelement" => {
                let (_, a) = self.tyval();
                self.p.expect(b',');
                let (_, i) = self.tyval();
                Ins::ExtractElement { d: dd, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (_, v) = self.tyval();
                self.p.expect(b',');
                let (_, i) = self.tyval();
                Ins::InsertElement { d: dd, n: t.lanes(), a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (_, b) = self.tyval();
                self.p.expect(b',');
                let (_, m) = self.tyval();
                let mask = match m {
                    O::K(k) => match *k {
                        K::A(v) => v
                            .iter()
                            .map(|k| match k {
                                K::I(i) => *i as u32,
                                _ => 0,
                            })
                            .collect(),
                        _ => panic!(),
                    },
                    _ => panic!("shuffle mask"),
                };
                Ins::Shuffle { d: dd, n: t.lanes(), a, b, mask }
            }
            "atomicrmw" => {
                self.p.eat_word("volatile");
                let w = self.p.word();
                let op = match w {
                    "xchg" => Rmw::Xchg,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    _ => match bin(w) {
                        Some(b) => Rmw::Bin(b),
                        None => return Some(Ins::Bad(format!("atomicrmw {}", w))),
                    },
                };
                let (_, p) = self.tyval();
                self.p.expect(b',');
                let (t, v) = self.tyval();
                Ins::AtomicRmw { op, w: t.bits(), d: dd, p, v }
            }
            "cmpxchg" => {
                self.p.eat_word("weak");
                self.p.eat_word("volatile");
                let (_, p) = self.tyval();
                self.p.expect(b',');
                let (t, e) = self.tyval();
                self.p.expect(b',');
                let (_, n) = self.tyval();
                Ins::CmpXchg { w: t.bits(), d: dd, p, e, n }
            }
            "fence" => Ins::Nop,
            _ => Ins::Bad(op.to_string()),
        })
    }
}

pub fn parse(src: &[u8]) -> Module {
    // pass 1: names
    let mut names: HashMap<String, u32> = HashMap::new();
    let mut order: Vec<(String, usize, u8)> = Vec::new(); // name, offset of line, kind
    let mut i = 0;
    let empty = HashMap::new();
    while i < src.len() {
        let kind = match src[i] {
            b'@' => b'@',
            b'd' if src[i..].starts_with(b"define ") => b'f',
            b'd' if src[i..].starts_with(b"declare ") => b'd',
            _ => 0,
        };
        if kind != 0 {
            let mut j = i;
            let mut inq = false;
            while src[j] != b'@' || inq {
                if src[j] == b'"' {
                    inq = !inq;
                }
                j += 1;
            }
            let mut p = P { s: src, i: j + 1, names: &empty };
            let n = p.name();
            let eol = src[i..].iter().position(|c| *c == b'\n').map_or(src.len(), |k| i + k);
            // weak symbols are absent unless the interpreter models them
            let weak = kind == b'd' && src[i..eol].windows(11).any(|w| w == b"extern_weak") && crate::exec::classify(&n) == crate::exec::Ext::Unknown;
            names.insert(n.clone(), if weak { 0 } else { order.len() as u32 + 1 });
            order.push((n, i, kind));
        }
        while i < src.len() && src[i] != b'\n' {
            i += 1;
        }
        i += 1;
    }
    let mut m = Module { funcs: Vec::new(), globals: Vec::new(), objs: vec![Sym::Decl("null".into())], names: HashMap::new() };
    for (name, off, kind) in &order {
        let mut p = P { s: src, i: *off, names: &names };
        match kind {
            b'@' => {
                p.i += 1;
                p.name();
                p.expect(b'=');
                let mut external = false;
                let mut alias = false;
                let mut constant = false;
                loop {
                    let w = p.word();
                    match w {
                        "external" | "extern_weak" => external = true,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "" => panic!("global at {}", p.ctx()),
                        _ => {
                            if p.peek() == b'(' {
                                p.parens();
                            }
                        }
                    }
                }
                let t = p.ty();
                if alias {
                    p.expect(b',');
                    let t = p.ty();
                    let a = p.const_u128(&t);
                    m.objs.push(Sym::Alias((a >> 32) as u32));
                    continue;
                }
                let mut data = Vec::new();
                if external {
                    data.resize(t.size() as usize, 0);
                } else {
                    let k = p.konst(&t);
                    bytes_of(&t, &k, &mut data);
                    assert_eq!(data.len() as u64, t.size(), "{}", name);
                }
                m.objs.push(Sym::Global(m.globals.len() as u32));
                m.globals.push(Global { name: name.clone(), data, constant, external });
            }
            b'd' => m.objs.push(Sym::Decl(name.clone())),
            _ => {
                let f = parse_func(&mut p, name);
                m.objs.push(Sym::Func(m.funcs.len() as u32));
                m.funcs.push(f);
            }
        }
    }
    m.names = names;
    m
}

fn parse_func(p: &mut P, name: &str) -> Func {
    // cursor at "define"; go to '@name('
    let mut inq = false;
    while p.s[p.i] != b'@' || inq {
        if p.s[p.i] == b'"' {
            inq = !inq;
        }
        p.i += 1;
    }
    p.i += 1;
    p.name();
    let mut fp = FP { p, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
    fp.p.expect(b'(');
    let mut nargs = 0;
    let mut numeric = 0usize;
    if !fp.p.eat(b')') {
        loop {
            if fp.p.peek() == b'.' {
                fp.p.word();
            } else {
                let _t = fp.p.ty();
                fp.p.skip_attrs();
                fp.p.expect(b'%');
                let n = fp.p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    numeric += 1;
                }
                let r = fp.reg(n);
                assert_eq!(r, nargs);
                nargs += 1;
            }
            if fp.p.eat(b')') {
                break;
            }
            fp.p.expect(b',');
        }
    }
    fp.p.eol(); // ... {
    let mut blocks: Vec<Block> = Vec::new();
    let mut bid: Vec<u32> = Vec::new();
    let mut ins: Vec<Ins> = Vec::new();
    let mut phis = Vec::new();
    let mut started = false;
    let mut cur = 0u32;
    let mut start = 0u32;
    loop {
        // one line
        let c = fp.p.s[fp.p.i];
        if c == b'}' {
            break;
        }
        if c == b'\n' {
            fp.p.i += 1;
            continue;
        }
        if c == b';' {
            fp.p.eol();
            continue;
        }
        if c != b' ' && c != b'\t' {
            // label
            let n = fp.p.name();
            assert_eq!(fp.p.s[fp.p.i], b':', "label at {}", fp.p.ctx());
            fp.p.eol();
            let b = fp.block(n);
            if started {
                blocks.push(Block { start, phis: std::mem::take(&mut phis) });
                bid.push(cur);
            }
            started = true;
            cur = b;
            start = ins.len() as u32;
            continue;
        }
        if !started {
            // implicit entry label
            started = true;
            cur = fp.block(numeric.to_string());
            start = 0;
        }
        fp.p.ws();
        if fp.p.s[fp.p.i] == b'#' || fp.p.s[fp.p.i] == b';' {
            fp.p.eol(); // debug record
            continue;
        }
        let mut d = None;
        if fp.p.s[fp.p.i] == b'%' {
            fp.p.i += 1;
            let n = fp.p.name();
            d = Some(fp.reg(n));
            fp.p.expect(b'=');
        }
        if let Some(x) = fp.ins(d, &mut phis) {
            ins.push(x);
        }
        fp.p.eol();
    }
    blocks.push(Block { start, phis });
    bid.push(cur);
    // reorder by block id
    let mut out: Vec<Option<Block>> = (0..fp.nblocks).map(|_| None).collect();
    for (b, id) in blocks.into_iter().zip(bid) {
        out[id as usize] = Some(b);
    }
    let entry_is_zero = out[0].as_ref().map_or(false, |b| b.start == 0);
    assert!(entry_is_zero, "entry block of {}", name);
    Func { name: name.to_string(), nargs, nregs: fp.regs.len() as u32, blocks: out.into_iter().map(|b| b.expect("undefined block")).collect(), ins }
}
