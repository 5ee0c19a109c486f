//! Parser for the textual LLVM IR that rustc emits for the harness crate (whole program, fat LTO).
use crate::expr::FxMap;
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, p) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr => 8,
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for f in fs {
                    if !*p {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !*p {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_offset")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.store_size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // symbol id
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Cast(CastK, Ty, Ty, Opd),
    /// the flag tells an atomic access
    Load(Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Select(Ty, Ty, Opd, Opd, Opd),
    Alloca(u64, u64),
    ExtractV(Opd, Vec<u32>),
    InsertV(Ty, Opd, Opd, Vec<u32>),
    ExtractE(Opd, Opd),
    InsertE(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Opd),
    Call(Ty, Callee, Vec<(Ty, Opd)>, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub k: K,
}
pub const NONE: u32 = u32::MAX;

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub sym: u32,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

/// Shared, immutable view of the module text.
pub struct Module {
    pub text: Vec<u8>,
    pub syms: Vec<String>,
    pub sym_id: HashMap<String, u32>,
    /// sym id -> (offset of "define", end offset) for defined functions
    pub defs: HashMap<u32, (usize, usize)>,
    pub addr: Vec<u64>,       // address per symbol
    pub fn_at: HashMap<u64, u32>, // function address -> sym
    pub image: Vec<u8>,       // initial image of globals, based at GLOBAL_BASE
    pub named_types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

pub struct P<'a> {
    s: &'a [u8],
    pub i: usize,
    m: &'a Module,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a [u8], i: usize) -> Self {
        P { s, i, m }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                self.eol();
            } else {
                return;
            }
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    /// go to the end of the current instruction's line, unless look-ahead already left it
    fn end_line(&mut self) {
        let mut k = self.i;
        while k > 0 && (self.s[k - 1] as char).is_ascii_whitespace() {
            k -= 1;
            if self.s[k] == b'\n' {
                return;
            }
        }
        self.eol();
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let e = self.i + b.len();
            if is_word(b[b.len() - 1]) && e < self.s.len() && is_word(self.s[e]) {
                return false;
            }
            self.i = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let e = (self.i + 120).min(self.s.len());
            let b = self.i.saturating_sub(120);
            panic!(
                "IR parse: expected {:?} at ...{}<<HERE>>{}",
                t,
                String::from_utf8_lossy(&self.s[b..self.i]),
                String::from_utf8_lossy(&self.s[self.i..e])
            );
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.i;
        let mut e = st;
        while e < self.s.len() && is_word(self.s[e]) {
            e += 1;
        }
        &self.s[st..e]
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn balanced(&mut self) {
        // at '(' : skip to the matching ')'
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("number {:?}", w))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    b"void" | b"ptr" | b"float" | b"double" | b"half" | b"metadata" | b"label" | b"token" | b"x86_fp80" | b"fp128" => true,
                    _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    /// skip attribute words until a type starts
    /// is the next word this one? (does not move)
    fn at_word(&mut self, w: &str) -> bool {
        let c = self.peek();
        let _ = c;
        self.s[self.i..].starts_with(w.as_bytes())
    }
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        match self.peek() {
            b'"' => {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.s[self.i] == b'=' {
                    self.i += 1;
                    self.skip_attr();
                }
                return;
            }
            b'#' => {
                self.i += 1;
                self.word();
                return;
            }
            _ => {}
        }
        let w = self.word();
        if w.is_empty() {
            panic!("skip_attr at {}", String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]));
        }
        if self.s.get(self.i) == Some(&b'(') {
            self.balanced();
        } else if w == "align" || w == "cc" || w == "addrspace" {
            self.word();
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.tylist(b'}');
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tylist(b'}');
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.num();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named_types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.skip_attr();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Int(32),
                    "double" => Ty::Int(64),
                    "half" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        _ => Ty::Other,
                    },
                    _ => Ty::Other,
                }
            }
        };
        t
    }
    fn tylist(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return v;
            }
            if self.peek() == b',' {
                self.i += 1;
                continue;
            }
            v.push(self.ty());
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"
        self.expect("c\"");
        let mut v = vec![];
        loop {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    return v;
                }
                b'\\' => {
                    if self.s[self.i + 1] == b'\\' {
                        v.push(b'\\');
                        self.i += 2;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    }
                }
                c => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
    pub fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let v: Vec<V> = (0..t.count()).map(|i| self.zero(t.elem(i))).collect();
                V::A(v.into())
            }
            _ => V::C(0),
        }
    }
    /// constant of type t (not a register)
    pub fn konst(&mut self, t: &Ty) -> V {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return V::C(self.sym_addr(&n));
            }
            b'{' | b'[' => {
                self.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                let mut v = vec![];
                loop {
                    let p = self.peek();
                    if p == close {
                        self.i += 1;
                        break;
                    }
                    if p == b',' {
                        self.i += 1;
                        continue;
                    }
                    let et = self.ty();
                    v.push(self.konst(&et));
                }
                return V::A(v.into());
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let r = self.konst(t);
                    self.expect(">");
                    return r;
                }
                let mut v = vec![];
                loop {
                    let p = self.peek();
                    if p == b'>' {
                        self.i += 1;
                        break;
                    }
                    if p == b',' {
                        self.i += 1;
                        continue;
                    }
                    let et = self.ty();
                    v.push(self.konst(&et));
                }
                return V::A(v.into());
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                let b = self.cstr();
                return V::A(b.into_iter().map(|x| V::C(x as u64)).collect::<Vec<_>>().into());
            }
            _ => {}
        }
        let w = self.word();
        match w.as_str() {
            "true" => V::C(1),
            "false" | "null" | "none" => V::C(0),
            "zeroinitializer" | "undef" | "poison" => self.zero(t),
            "getelementptr" => {
                while self.peek() != b'(' {
                    self.skip_attr();
                }
                self.i += 1;
                let bt = self.ty();
                self.expect(",");
                let pt = self.ty();
                let base = match self.konst(&pt) {
                    V::C(x) => x,
                    _ => panic!("gep base"),
                };
                let mut idx = vec![];
                while self.eat(",") {
                    while !self.at_type() {
                        self.skip_attr();
                    }
                    let it = self.ty();
                    let v = match self.konst(&it) {
                        V::C(x) => crate::expr::sext(x as u128, it.bits()) as i64,
                        _ => panic!(),
                    };
                    idx.push(v);
                }
                self.expect(")");
                let mut off = 0i64;
                let mut cur = bt.clone();
                for (n, i) in idx.iter().enumerate() {
                    if n == 0 {
                        off += i * cur.size() as i64;
                    } else {
                        off += cur.field_offset(*i as usize) as i64;
                        cur = cur.elem(*i as usize).clone();
                    }
                }
                V::C(base.wrapping_add(off as u64))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect("(");
                let ft = self.ty();
                let v = self.konst(&ft);
                self.expect("to");
                let tt = self.ty();
                self.expect(")");
                match v {
                    V::C(x) => V::C(x & crate::expr::mask(tt.bits()) as u64),
                    _ => panic!("const cast"),
                }
            }
            "add" | "sub" | "xor" | "mul" => {
                while self.peek() != b'(' {
                    self.skip_attr();
                }
                self.i += 1;
                let at = self.ty();
                let a = self.konst(&at);
                self.expect(",");
                let bt = self.ty();
                let b = self.konst(&bt);
                self.expect(")");
                match (a, b) {
                    (V::C(a), V::C(b)) => {
                        let r = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        V::C(r & crate::expr::mask(at.bits()) as u64)
                    }
                    _ => panic!("const expr"),
                }
            }
            "splat" => {
                self.expect("(");
                let et = self.ty();
                let v = self.konst(&et);
                self.expect(")");
                V::A(vec![v; t.count()].into())
            }
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => panic!("const {}", w),
            _ => {
                // number; may be hex float 0x...
                if let Some(h) = w.strip_prefix("0x") {
                    let x = u64::from_str_radix(h.trim_start_matches(|c| c == 'K' || c == 'H'), 16).unwrap_or(0);
                    if let Ty::Int(32) = t {
                        return V::C((f64::from_bits(x) as f32).to_bits() as u64);
                    }
                    return V::C(x);
                }
                if w.contains('.') || w.contains("e+") {
                    // decimal float; word() stops at '+'
                    let mut s = w.clone();
                    if self.s.get(self.i) == Some(&b'+') {
                        self.i += 1;
                        s = format!("{}+{}", w, self.word());
                    }
                    let f: f64 = s.parse().unwrap_or(0.0);
                    return V::C(if let Ty::Int(32) = t { (f as f32).to_bits() as u64 } else { f.to_bits() });
                }
                let bits = match t {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                if let Some(neg) = w.strip_prefix('-') {
                    let x: u128 = neg.parse().unwrap_or_else(|_| panic!("const {:?}", w));
                    let v = x.wrapping_neg() & crate::expr::mask(bits);
                    V::wide(v, bits)
                } else {
                    let x: u128 = w.parse().unwrap_or_else(|_| {
                        panic!("const {:?} near {}", w, String::from_utf8_lossy(&self.s[self.i.saturating_sub(200)..self.i]))
                    });
                    V::wide(x & crate::expr::mask(bits), bits)
                }
            }
        }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        match self.m.sym_id.get(n) {
            Some(&i) => self.m.addr[i as usize],
            None => panic!("unknown symbol {}", n),
        }
    }
}

/// Parse state for one function
struct FP<'a> {
    p: P<'a>,
    regs: FxMapS,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}
type FxMapS = HashMap<String, u32>;

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: String) -> u32 {
        if let Some(b) = self.blocks.get(&n) {
            return *b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, b);
        b
    }
    fn opd(&mut self, t: &Ty) -> Opd {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Opd::R(self.reg(n));
        }
        match self.p.konst(t) {
            V::C(x) => Opd::C(x),
            v => Opd::K(v),
        }
    }
    fn topd(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        self.p.expect("%");
        let n = self.p.name();
        self.blk(n)
    }

    fn inst(&mut self, op: &str) -> K {
        use K::*;
        match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.p.skip_to_type();
                let (t, a) = self.topd();
                self.p.expect(",");
                let b = self.opd(&t);
                let o = match op {
                    "add" => self::Bin::Add,
                    "sub" => self::Bin::Sub,
                    "mul" => self::Bin::Mul,
                    "udiv" => self::Bin::UDiv,
                    "urem" => self::Bin::URem,
                    "sdiv" => self::Bin::SDiv,
                    "srem" => self::Bin::SRem,
                    "and" => self::Bin::And,
                    "or" => self::Bin::Or,
                    "xor" => self::Bin::Xor,
                    "shl" => self::Bin::Shl,
                    "lshr" => self::Bin::LShr,
                    _ => self::Bin::AShr,
                };
                K::Bin(o, t, a, b)
            }
            "icmp" => {
                let mut w = self.p.word();
                if w == "samesign" {
                    w = self.p.word();
                }
                let p = match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {}", w),
                };
                let (t, a) = self.topd();
                self.p.expect(",");
                let b = self.opd(&t);
                Icmp(p, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                self.p.skip_to_type();
                let (t, a) = self.topd();
                self.p.expect("to");
                let t2 = self.p.ty();
                let k = match op {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::Bit,
                    _ => {
                        let (x, y) = (t.bits(), t2.bits());
                        if x < y {
                            CastK::ZExt
                        } else if x > y {
                            CastK::Trunc
                        } else {
                            CastK::Bit
                        }
                    }
                };
                Cast(k, t, t2, a)
            }
            "load" => {
                let atomic = self.p.at_word("atomic");
                self.p.skip_to_type();
                let t = self.p.ty();
                self.p.expect(",");
                let (_, o) = self.topd();
                Load(t, o, atomic)
            }
            "store" => {
                let atomic = self.p.at_word("atomic");
                self.p.skip_to_type();
                let (t, v) = self.topd();
                self.p.expect(",");
                let (_, o) = self.topd();
                Store(t, v, o, atomic)
            }
            "getelementptr" => {
                self.p.skip_to_type();
                let bt = self.p.ty();
                self.p.expect(",");
                let (pt, base) = self.topd();
                if pt != Ty::Ptr {
                    return Unsupported("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut n = 0;
                while self.p.peek() == b',' {
                    let save = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        self.p.i = save;
                        break;
                    }
                    let (it, o) = self.topd();
                    let (scale, next) = if n == 0 {
                        (cur.size() as i64, cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match o {
                                    Opd::C(x) => x as usize,
                                    _ => panic!("struct gep"),
                                };
                                off += cur.field_offset(i) as i64;
                                let nx = cur.elem(i).clone();
                                cur = nx;
                                n += 1;
                                continue;
                            }
                            Ty::Arr(_, t) => (t.size() as i64, (**t).clone()),
                            Ty::Vec(_, t) => (t.store_size() as i64, (**t).clone()),
                            _ => panic!("gep into {:?}", cur),
                        }
                    };
                    cur = next;
                    n += 1;
                    match o {
                        Opd::C(x) => {
                            let s = crate::expr::sext(x as u128, it.bits()) as i64;
                            off = off.wrapping_add(s.wrapping_mul(scale));
                        }
                        o => dynv.push((o, it.bits(), scale)),
                    }
                }
                Gep(base, off, dynv)
            }
            "select" => {
                self.p.skip_to_type();
                let (ct, c) = self.topd();
                self.p.expect(",");
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, b) = self.topd();
                Select(ct, t, c, a, b)
            }
            "alloca" => {
                self.p.skip_to_type();
                let t = self.p.ty();
                let mut n = 1;
                let mut align = t.align();
                while self.p.eat(",") {
                    if self.p.eat("align") {
                        align = self.p.num();
                    } else if self.p.at_type() {
                        let (_, o) = self.topd();
                        match o {
                            Opd::C(x) => n = x,
                            _ => return Unsupported("dynamic alloca".into()),
                        }
                    } else {
                        break;
                    }
                }
                Alloca(t.size() * n, align)
            }
            "extractvalue" => {
                let (_, a) = self.topd();
                let mut ix = vec![];
                while self.p.peek() == b',' {
                    let save = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        self.p.i = save;
                        break;
                    }
                    ix.push(self.p.num() as u32);
                }
                ExtractV(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, v) = self.topd();
                let mut ix = vec![];
                while self.p.peek() == b',' {
                    let save = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        self.p.i = save;
                        break;
                    }
                    ix.push(self.p.num() as u32);
                }
                InsertV(t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.topd();
                self.p.expect(",");
                let (_, i) = self.topd();
                ExtractE(a, i)
            }
            "insertelement" => {
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, v) = self.topd();
                self.p.expect(",");
                let (_, i) = self.topd();
                InsertE(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, b) = self.topd();
                self.p.expect(",");
                let (_, m) = self.topd();
                Shuffle(t, a, b, m)
            }
            "tail" | "musttail" | "notail" => {
                self.p.expect("call");
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "br" => {
                if self.p.peek_word() == b"label" {
                    Br(self.label())
                } else {
                    let (_, c) = self.topd();
                    self.p.expect(",");
                    let a = self.label();
                    self.p.expect(",");
                    let b = self.label();
                    CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.topd();
                self.p.expect(",");
                let d = self.label();
                self.p.expect("[");
                let mut cs = vec![];
                while self.p.peek() != b']' {
                    let ct = self.p.ty();
                    let k = match self.p.konst(&ct) {
                        V::C(x) => x,
                        _ => panic!("switch const"),
                    };
                    self.p.expect(",");
                    let l = self.label();
                    cs.push((k, l));
                }
                self.p.i += 1;
                Switch(t.bits(), v, d, cs)
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void {
                    Ret(None)
                } else {
                    Ret(Some(self.opd(&t)))
                }
            }
            "unreachable" => Unreachable,
            "fence" => Nop,
            "freeze" => {
                let (_, a) = self.topd();
                Freeze(a)
            }
            "atomicrmw" => {
                let mut w = self.p.word();
                if w == "volatile" {
                    w = self.p.word();
                }
                let (_, p) = self.topd();
                self.p.expect(",");
                let (t, v) = self.topd();
                AtomicRmw(w, t, p, v)
            }
            "cmpxchg" => {
                self.p.skip_to_type();
                let (_, p) = self.topd();
                self.p.expect(",");
                let (t, a) = self.topd();
                self.p.expect(",");
                let (_, b) = self.topd();
                CmpXchg(t, p, a, b)
            }
            "landingpad" | "resume" | "catch" | "cleanup" | "filter" => {
                if op == "landingpad" || op == "resume" {
                    Unsupported(op.into())
                } else {
                    Nop
                }
            }
            _ => Unsupported(op.to_string()),
        }
    }
    fn call(&mut self, invoke: bool) -> K {
        self.p.skip_to_type();
        let t = self.p.ty();
        if self.p.peek() == b'(' {
            self.p.balanced(); // function type
        }
        // return type may be followed by fn type for varargs; callee:
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                let n = self.p.name();
                match self.p.m.sym_id.get(&n) {
                    Some(&s) => Callee::Direct(s),
                    None => return K::Unsupported(format!("call to unknown {}", n)),
                }
            }
            b'%' => {
                self.p.i += 1;
                let n = self.p.name();
                let r = self.reg(n);
                Callee::Indirect(Opd::R(r))
            }
            _ => {
                let w = self.p.word();
                if w == "asm" {
                    self.p.eol();
                    return K::Call(t, Callee::Asm, vec![], None);
                }
                return K::Unsupported(format!("callee {}", w));
            }
        };
        self.p.expect("(");
        let mut args = vec![];
        loop {
            match self.p.peek() {
                b')' => {
                    self.p.i += 1;
                    break;
                }
                b',' => {
                    self.p.i += 1;
                    continue;
                }
                _ => {}
            }
            let at = self.p.ty();
            if at == Ty::Other {
                // metadata
                loop {
                    match self.p.s[self.p.i] {
                        b',' | b')' => break,
                        b'(' => self.p.balanced(),
                        _ => self.p.i += 1,
                    }
                }
                continue;
            }
            // attributes
            loop {
                let c = self.p.peek();
                if matches!(c, b'%' | b'@' | b'{' | b'[' | b'<' | b'-' | b'c' | b'0'..=b'9') {
                    if c != b'c' {
                        break;
                    }
                    if self.p.s[self.p.i + 1] == b'"' {
                        break;
                    }
                }
                let w = self.p.peek_word();
                if matches!(
                    w,
                    b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"splat"
                ) {
                    break;
                }
                self.p.skip_attr();
            }
            let o = self.opd(&at);
            args.push((at, o));
        }
        if invoke {
            // find "to label"
            loop {
                if self.p.eat("to") {
                    break;
                }
                let c = self.p.peek();
                if c == b'[' {
                    // bundle
                    while self.p.s[self.p.i] != b']' {
                        self.p.i += 1;
                    }
                    self.p.i += 1;
                } else {
                    self.p.skip_attr();
                }
            }
            let n = self.label();
            self.p.expect("unwind");
            let _ = self.label();
            return K::Call(t, callee, args, Some(n));
        }
        K::Call(t, callee, args, None)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module {
            text,
            syms: vec![],
            sym_id: HashMap::new(),
            defs: HashMap::new(),
            addr: vec![],
            fn_at: HashMap::new(),
            image: vec![],
            named_types: HashMap::new(),
        };
        let text = std::mem::take(&mut m.text);
        // pass 1: index lines
        let mut globals: Vec<(u32, usize, Ty, bool)> = vec![]; // sym, offset of initializer, type, has init
        let mut i = 0;
        let mut pending: Vec<(String, usize)> = vec![];
        let mut cur_def: Option<(u32, usize)> = None;
        let mut aliases: Vec<(String, String)> = vec![];
        let mut nfun = 0u64;
        let line_end = |i: usize| -> usize {
            let mut e = i;
            while e < text.len() && text[e] != b'\n' {
                e += 1;
            }
            e
        };
        let fname = |s: &[u8]| -> String {
            // name after the first '@' that follows a space
            let mut k = 0;
            let mut depth = 0;
            while k < s.len() {
                match s[k] {
                    b'(' => depth += 1,
                    b')' => depth -= 1,
                    b'@' if depth == 0 => break,
                    _ => {}
                }
                k += 1;
            }
            k += 1;
            if s[k] == b'"' {
                let st = k + 1;
                let mut e = st;
                while s[e] != b'"' {
                    e += 1;
                }
                String::from_utf8_lossy(&s[st..e]).into_owned()
            } else {
                let st = k;
                let mut e = st;
                while e < s.len() && is_word(s[e]) {
                    e += 1;
                }
                String::from_utf8_lossy(&s[st..e]).into_owned()
            }
        };
        while i < text.len() {
            let e = line_end(i);
            let line = &text[i..e];
            if cur_def.is_none() {
                if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                    let n = fname(line);
                    let id = m.syms.len() as u32;
                    m.syms.push(n.clone());
                    m.sym_id.insert(n, id);
                    let weak = line.windows(11).any(|w| w == b"extern_weak");
                    if weak {
                        m.addr.push(0);
                    } else {
                        let a = FN_BASE + nfun * 16;
                        nfun += 1;
                        m.addr.push(a);
                        m.fn_at.insert(a, id);
                    }
                    if line.starts_with(b"define ") {
                        cur_def = Some((id, i));
                    }
                } else if line.starts_with(b"@") {
                    pending.push((String::new(), i));
                } else if line.starts_with(b"%") {
                    let mut p = P::new(&m, &text, i + 1);
                    let n = p.name();
                    p.expect("=");
                    p.expect("type");
                    let t = p.ty();
                    m.named_types.insert(n, t);
                }
            } else if line.starts_with(b"}") {
                let (id, st) = cur_def.take().unwrap();
                m.defs.insert(id, (st, e));
            }
            i = e + 1;
        }
        // globals: parse headers
        let mut next = GLOBAL_BASE;
        for (_, off) in pending {
            let mut p = P::new(&m, &text, off + 1);
            let name = p.name();
            p.expect("=");
            let mut is_alias = false;
            let mut external = false;
            loop {
                let w = p.peek_word().to_vec();
                if w == b"global" || w == b"constant" {
                    p.word();
                    break;
                }
                if w == b"alias" {
                    is_alias = true;
                    break;
                }
                if w == b"external" || w == b"extern_weak" {
                    external = true;
                }
                p.skip_attr();
            }
            if is_alias {
                p.word();
                let _ = p.ty();
                p.expect(",");
                let _ = p.ty();
                p.expect("@");
                let target = p.name();
                aliases.push((name, target));
                continue;
            }
            let t = p.ty();
            let io = p.i;
            drop(p);
            let line = &text[off..line_end(off)];
            let mut al = t.align();
            if let Some(k) = line.windows(8).rposition(|w| w == b", align ") {
                let s: String = line[k + 8..].iter().take_while(|c| c.is_ascii_digit()).map(|c| *c as char).collect();
                al = al.max(s.parse().unwrap_or(1));
            }
            next = (next + al - 1) / al * al;
            let id = m.syms.len() as u32;
            m.syms.push(name.clone());
            m.sym_id.insert(name, id);
            m.addr.push(next);
            next += t.size().max(1);
            globals.push((id, io, t, !external));
        }
        for (n, t) in aliases {
            if let Some(&id) = m.sym_id.get(&t) {
                m.sym_id.insert(n, id);
            }
        }
        // pass 2: initializers
        let mut image = vec![0u8; (next - GLOBAL_BASE) as usize + 4096];
        for (id, io, t, has) in &globals {
            if !*has {
                continue;
            }
            let mut p = P::new(&m, &text, *io);
            let v = if p.peek() == b'c' && p.s[p.i + 1] == b'"' {
                let b = p.cstr();
                let o = (m.addr[*id as usize] - GLOBAL_BASE) as usize;
                image[o..o + b.len()].copy_from_slice(&b);
                continue;
            } else {
                p.konst(t)
            };
            write_const(&mut image, (m.addr[*id as usize] - GLOBAL_BASE) as usize, t, &v);
        }
        m.image = image;
        m.text = text;
        m
    }

    pub fn parse_func(&self, sym: u32) -> Option<Func> {
        let &(st, _en) = self.defs.get(&sym)?;
        let p = P::new(self, &self.text, st);
        let mut f = FP { p, regs: Default::default(), blocks: HashMap::new(), nblocks: 0 };
        // header: find '@name('
        {
            let p = &mut f.p;
            p.expect("define");
            loop {
                match p.peek() {
                    b'@' => break,
                    b'{' | b'[' | b'<' => {
                        p.ty();
                    }
                    _ => p.skip_attr(),
                }
            }
            p.i += 1;
            p.name();
            p.expect("(");
        }
        let mut nargs = 0;
        let mut unnamed = 0u32;
        loop {
            match f.p.peek() {
                b')' => {
                    f.p.i += 1;
                    break;
                }
                b',' => {
                    f.p.i += 1;
                    continue;
                }
                b'.' => {
                    f.p.i += 3;
                    continue;
                }
                _ => {}
            }
            let _t = f.p.ty();
            loop {
                match f.p.peek() {
                    b'%' => {
                        f.p.i += 1;
                        let n = f.p.name();
                        if n.as_bytes()[0].is_ascii_digit() {
                            unnamed += 1;
                        }
                        f.reg(n);
                        break;
                    }
                    b',' | b')' => {
                        f.reg(format!("{}", unnamed));
                        unnamed += 1;
                        break;
                    }
                    _ => f.p.skip_attr(),
                }
            }
            nargs += 1;
        }
        // skip to '{' at end of the header line
        loop {
            let c = f.p.s[f.p.i];
            if c == b'{' && f.p.s[f.p.i + 1] == b'\n' {
                f.p.i += 1;
                break;
            }
            f.p.i += 1;
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let put = |blocks: &mut Vec<Option<Block>>, c: Option<(u32, Block)>| {
            if let Some((i, b)) = c {
                while blocks.len() <= i as usize {
                    blocks.push(None);
                }
                blocks[i as usize] = Some(b);
            }
        };
        loop {
            let c = f.p.peek();
            if c == b'}' {
                break;
            }
            if c == b'#' {
                f.p.eol();
                continue;
            }
            // label?
            let save = f.p.i;
            let lab = if c == b'"' {
                let n = f.p.name();
                if f.p.s[f.p.i] == b':' {
                    Some(n)
                } else {
                    None
                }
            } else {
                let w = f.p.word();
                if !w.is_empty() && f.p.s[f.p.i] == b':' {
                    Some(w)
                } else {
                    None
                }
            };
            if let Some(l) = lab {
                f.p.i += 1;
                let b = f.blk(l);
                put(&mut blocks, cur.take());
                cur = Some((b, Block::default()));
                continue;
            }
            f.p.i = save;
            if cur.is_none() {
                let b = f.blk(format!("{}", unnamed));
                cur = Some((b, Block::default()));
            }
            let mut dst = NONE;
            if c == b'%' {
                f.p.i += 1;
                let n = f.p.name();
                dst = f.reg(n);
                f.p.expect("=");
            }
            let op = f.p.word();
            if op == "phi" {
                f.p.skip_to_type();
                let t = f.p.ty();
                let mut inc = vec![];
                loop {
                    f.p.expect("[");
                    let o = f.opd(&t);
                    f.p.expect(",");
                    f.p.expect("%");
                    let n = f.p.name();
                    let b = f.blk(n);
                    f.p.expect("]");
                    inc.push((b, o));
                    if f.p.peek() == b',' && f.p.s[f.p.i + 1] == b' ' && f.p.s[f.p.i + 2] == b'[' {
                        f.p.i += 1;
                        continue;
                    }
                    break;
                }
                f.p.end_line();
                cur.as_mut().unwrap().1.phis.push((dst, inc));
                continue;
            }
            let k = f.inst(&op);
            f.p.end_line();
            if let K::Nop = k {
                continue;
            }
            cur.as_mut().unwrap().1.insts.push(Inst { dst, k });
        }
        put(&mut blocks, cur.take());
        let nregs = f.regs.len();
        Some(Func {
            sym,
            nargs,
            nregs,
            blocks: blocks.into_iter().map(|b| b.unwrap_or_default()).collect(),
        })
    }
}

fn write_const(img: &mut [u8], off: usize, t: &Ty, v: &V) {
    match (t, v) {
        (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), V::A(a)) => {
            for (i, x) in a.iter().enumerate() {
                write_const(img, off + t.field_offset(i) as usize, t.elem(i), x);
            }
        }
        (_, V::C(x)) => {
            let n = t.store_size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(8) {
                img[off + i] = b[i];
            }
        }
        (_, V::W(x)) => {
            let n = t.store_size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(16) {
                img[off + i] = b[i];
            }
        }
        _ => panic!("write_const {:?} {:?}", t, v),
    }
}

#[allow(dead_code)]
pub type Rcf = Rc<Func>;
#[allow(dead_code)]
type Unused = FxMap<u32, u32>;
