//! Hash-consed bit-vector expressions with a local simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, n: u8) {
        self.write_u64(n as u64)
    }
    fn write_u32(&mut self, n: u32) {
        self.write_u64(n as u64)
    }
    fn write_usize(&mut self, n: usize) {
        self.write_u64(n as u64)
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const NVARW: usize = 8; // up to 512 symbolic bytes
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct VarSet(pub [u64; NVARW]);
impl VarSet {
    pub fn single(v: usize) -> Self {
        let mut s = VarSet::default();
        s.0[v / 64] |= 1 << (v % 64);
        s
    }
    pub fn or(&self, o: &VarSet) -> VarSet {
        let mut r = *self;
        for i in 0..NVARW {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn minus(&self, o: &VarSet) -> VarSet {
        let mut r = *self;
        for i in 0..NVARW {
            r.0[i] &= !o.0[i];
        }
        r
    }
    pub fn set(&mut self, v: usize) {
        self.0[v / 64] |= 1 << (v % 64);
    }
    pub fn has(&self, v: usize) -> bool {
        self.0[v / 64] >> (v % 64) & 1 != 0
    }
    pub fn intersects(&self, o: &VarSet) -> bool {
        for i in 0..NVARW {
            if self.0[i] & o.0[i] != 0 {
                return true;
            }
        }
        false
    }
    pub fn subset_of(&self, o: &VarSet) -> bool {
        for i in 0..NVARW {
            if self.0[i] & !o.0[i] != 0 {
                return false;
            }
        }
        true
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..NVARW).flat_map(move |i| {
            let mut x = self.0[i];
            std::iter::from_fn(move || {
                if x == 0 {
                    None
                } else {
                    let t = x.trailing_zeros() as usize;
                    x &= x - 1;
                    Some(i * 64 + t)
                }
            })
        })
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: FxMap<Node, E>,
    // evaluation memo
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    pub nvars: usize,
    domain_memo: FxMap<E, (usize, [u64; 4])>,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: Vec::new(),
            vars: Vec::new(),
            map: FxMap::default(),
            stamp: Vec::new(),
            memo: Vec::new(),
            cur: 0,
            nvars: 0,
            domain_memo: FxMap::default(),
        }
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => VarSet::default(),
            Op::Var => VarSet::single(n.k as usize),
            Op::Not | Op::Extract | Op::SExt => self.vars[n.a as usize],
            Op::Ite => self.vars[n.a as usize]
                .or(&self.vars[n.b as usize])
                .or(&self.vars[n.c as usize]),
            _ => self.vars[n.a as usize].or(&self.vars[n.b as usize]),
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w: w as u8, a, b, c, k })
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn new_var(&mut self, i: usize) -> E {
        assert!(i < NVARW * 64, "too many symbolic bytes");
        if i >= self.nvars {
            self.nvars = i + 1;
        }
        self.mk(Op::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(0, 1)
    }

    fn pieces(&self, e: E, out: &mut Vec<E>) {
        // most-significant first
        let n = self.n(e);
        if n.op == Op::Concat {
            self.pieces(n.a, out);
            self.pieces(n.b, out);
        } else {
            out.push(e);
        }
    }
    fn from_pieces(&mut self, ps: &[E]) -> E {
        // merge adjacent
        let mut acc: Vec<E> = Vec::with_capacity(ps.len());
        for &p in ps {
            if let Some(&last) = acc.last() {
                let (ln, pn) = (self.n(last), self.n(p));
                if ln.op == Op::Const && pn.op == Op::Const && ln.w as u32 + pn.w as u32 <= 128 {
                    let v = (ln.k << pn.w) | pn.k;
                    let w = ln.w as u32 + pn.w as u32;
                    acc.pop();
                    let k = self.konst(v, w);
                    acc.push(k);
                    continue;
                }
                if ln.op == Op::Extract
                    && pn.op == Op::Extract
                    && ln.a == pn.a
                    && ln.k == pn.k + pn.w as u128
                {
                    acc.pop();
                    let m = self.extract(pn.a, pn.k as u32, ln.w as u32 + pn.w as u32);
                    acc.push(m);
                    continue;
                }
            }
            acc.push(p);
        }
        // right-associated chain
        let mut it = acc.into_iter().rev();
        let mut r = it.next().unwrap();
        for p in it {
            let w = self.w(p) + self.w(r);
            r = self.mk(Op::Concat, w, p, r, 0, 0);
        }
        r
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let mut ps = Vec::new();
        self.pieces(a, &mut ps);
        self.pieces(b, &mut ps);
        self.from_pieces(&ps)
    }
    pub fn concat_many(&mut self, msb_first: &[E]) -> E {
        let mut ps = Vec::new();
        for &x in msb_first {
            self.pieces(x, &mut ps);
        }
        self.from_pieces(&ps)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(v, w);
        }
        let z = self.konst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.konst(sext(n.k, aw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Concat => {
                if let Some(v) = self.cval(n.a) {
                    let tw = self.w(n.a);
                    if v >> (tw - 1) & 1 == 0 {
                        return self.zext(a, w);
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                let hi = self.extract(n.a, 0, lo + w - bw);
                let l = self.extract(n.b, lo, bw - lo);
                return self.concat(hi, l);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let s = self.extract(n.a, iw - 1, 1);
                return self.sext(s, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let (b, c) = (self.n(n.b), self.n(n.c));
                if b.op == Op::Const || c.op == Op::Const {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w as u32;
        match n.op {
            Op::Const => return self.konst(!n.k, w),
            Op::Not => return n.a,
            Op::Ult if w == 1 => return self.mk(Op::Ule, 1, n.b, n.a, 0, 0),
            Op::Ule if w == 1 => return self.mk(Op::Ult, 1, n.b, n.a, 0, 0),
            Op::Slt if w == 1 => return self.mk(Op::Sle, 1, n.b, n.a, 0, 0),
            Op::Sle if w == 1 => return self.mk(Op::Slt, 1, n.b, n.a, 0, 0),
            _ => {}
        }
        self.mk(Op::Not, w, a, 0, 0, 0)
    }

    fn disjoint_merge(&mut self, a: E, b: E) -> Option<E> {
        // if for every bit position at least one operand is constant zero, merge
        let mut pa = Vec::new();
        let mut pb = Vec::new();
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        let mut out = Vec::new();
        let (mut i, mut j) = (0, 0);
        let mut ra = self.w(pa[0]); // remaining (low) bits of the current piece
        let mut rb = self.w(pb[0]);
        loop {
            let t = ra.min(rb);
            let xa = self.extract(pa[i], ra - t, t);
            let xb = self.extract(pb[j], rb - t, t);
            if self.cval(xa) == Some(0) {
                out.push(xb);
            } else if self.cval(xb) == Some(0) {
                out.push(xa);
            } else {
                return None;
            }
            ra -= t;
            rb -= t;
            if ra == 0 {
                i += 1;
                if i == pa.len() {
                    break;
                }
                ra = self.w(pa[i]);
            }
            if rb == 0 {
                j += 1;
                if j == pb.len() {
                    break;
                }
                rb = self.w(pb[j]);
            }
        }
        let mut flat = Vec::new();
        for o in out {
            self.pieces(o, &mut flat);
        }
        Some(self.from_pieces(&flat))
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            let v = eval_op(op, w, na.k, nb.k);
            return self.konst(v, w);
        }
        let (mut a, mut b, mut na, mut nb) = (a, b, na, nb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut na, &mut nb);
        }
        let m = mask(w);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let (Some(k), Op::Add) = (kb, na.op) {
                    if let Some(k2) = self.cval(na.b) {
                        let kk = self.konst(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, na.a, kk);
                    }
                }
                if let Some(x) = self.disjoint_merge(a, b) {
                    return x;
                }
                let t = self.top_zero_bits(a).min(self.top_zero_bits(b));
                if t >= 2 && t < w {
                    let nw = w - t + 1;
                    let x = self.extract(a, 0, nw);
                    let y = self.extract(b, 0, nw);
                    let r = self.bin(Op::Add, x, y);
                    return self.zext(r, w);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    let nk = self.konst(k.wrapping_neg() & m, w);
                    return self.bin(Op::Add, a, nk);
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                let t = self.top_zero_bits(a) + self.top_zero_bits(b);
                if t > w && t < 2 * w {
                    let nw = 2 * w - t;
                    let x = if nw <= w { self.extract(a, 0, nw) } else { a };
                    let y = if nw <= w { self.extract(b, 0, nw) } else { b };
                    let r = self.bin(Op::Mul, x, y);
                    return self.zext(r, w);
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // split into runs
                    if w > 1 {
                        let mut out = Vec::new();
                        let mut hi = w;
                        while hi > 0 {
                            let bit = k >> (hi - 1) & 1;
                            let mut lo = hi - 1;
                            while lo > 0 && (k >> (lo - 1) & 1) == bit {
                                lo -= 1;
                            }
                            if bit == 1 {
                                let x = self.extract(a, lo, hi - lo);
                                self.pieces(x, &mut out);
                            } else {
                                let z = self.konst(0, hi - lo);
                                out.push(z);
                            }
                            hi = lo;
                        }
                        if out.len() <= 12 {
                            return self.from_pieces(&out);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && ((na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)) {
                    return self.konst(1, 1);
                }
                if let Some(x) = self.disjoint_merge(a, b) {
                    return x;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(x, z);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let (mut a, mut b) = (a, b);
        if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        debug_assert_eq!(w, nb.w as u32);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst((na.k == nb.k) as u128, 1);
        }
        if nb.op == Op::Const {
            let k = nb.k;
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Concat => {
                    let bw = self.w(na.b);
                    let k1 = self.konst(k >> bw, w - bw);
                    let k2 = self.konst(k, bw);
                    let x = self.eq(na.a, k1);
                    if self.cval(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, k2);
                    return self.bin(Op::And, x, y);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let low = k & mask(iw);
                    if sext(low, iw) as u128 & mask(w) != k {
                        return self.fls();
                    }
                    let kk = self.konst(low, iw);
                    return self.eq(na.a, kk);
                }
                Op::Add => {
                    if let Some(k2) = self.cval(na.b) {
                        let kk = self.konst(k.wrapping_sub(k2), w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.cval(na.b) {
                        let kk = self.konst(k ^ k2, w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Not => {
                    let kk = self.konst(!k, w);
                    return self.eq(na.a, kk);
                }
                Op::Ite => {
                    let (x, y) = (self.cval(na.b), self.cval(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else if na.op == Op::Concat && nb.op == Op::Concat {
            let (wa, wb) = (self.w(na.b), self.w(nb.b));
            if wa == wb {
                let x = self.eq(na.a, nb.a);
                if self.cval(x) == Some(0) {
                    return x;
                }
                let y = self.eq(na.b, nb.b);
                return self.bin(Op::And, x, y);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn top_zero_bits(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => (n.k << (128 - n.w as u32)).leading_zeros().min(n.w as u32),
            Op::Concat => {
                let aw = self.w(n.a);
                let t = self.top_zero_bits(n.a);
                if t == aw {
                    aw + self.top_zero_bits(n.b)
                } else {
                    t
                }
            }
            _ => 0,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.cmpu(Op::Ult, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        self.cmpu(Op::Ule, a, b)
    }
    fn cmpu(&mut self, op: Op, a: E, b: E) -> E {
        if a == b {
            return self.konst((op == Op::Ule) as u128, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Op::Const && nb.op == Op::Const {
            let r = if op == Op::Ult { na.k < nb.k } else { na.k <= nb.k };
            return self.konst(r as u128, 1);
        }
        if op == Op::Ult {
            if nb.op == Op::Const && nb.k == 0 {
                return self.fls();
            }
            if nb.op == Op::Const && nb.k == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if na.op == Op::Const && na.k == mask(w) {
                return self.fls();
            }
            if na.op == Op::Const && na.k == 0 {
                let z = self.konst(0, w);
                let q = self.eq(b, z);
                return self.not(q);
            }
        } else {
            if na.op == Op::Const && na.k == 0 {
                return self.tru();
            }
            if nb.op == Op::Const && nb.k == mask(w) {
                return self.tru();
            }
            if nb.op == Op::Const && nb.k == 0 {
                return self.eq(a, b);
            }
        }
        let ta = self.top_zero_bits(a);
        let tb = self.top_zero_bits(b);
        if nb.op == Op::Const && ta > tb {
            return self.tru(); // a < 2^(w-ta) <= b
        }
        if na.op == Op::Const && tb > ta {
            return self.fls();
        }
        let t = ta.min(tb);
        if t > 0 && t < w {
            let x = self.extract(a, 0, w - t);
            let y = self.extract(b, 0, w - t);
            return self.cmpu(op, x, y);
        }
        // const vs ite of consts
        self.mk(op, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        self.cmps(Op::Slt, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        self.cmps(Op::Sle, a, b)
    }
    fn cmps(&mut self, op: Op, a: E, b: E) -> E {
        if a == b {
            return self.konst((op == Op::Sle) as u128, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Op::Const && nb.op == Op::Const {
            let (x, y) = (sext(na.k, w), sext(nb.k, w));
            let r = if op == Op::Slt { x < y } else { x <= y };
            return self.konst(r as u128, 1);
        }
        if self.top_zero_bits(a) > 0 && self.top_zero_bits(b) > 0 {
            return self.cmpu(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
        }
        // known signs differ
        let neg = |c: &Self, e: E| -> Option<bool> {
            let n = c.n(e);
            match n.op {
                Op::Const => Some(n.k >> (w - 1) & 1 == 1),
                _ if c.top_zero_bits(e) > 0 => Some(false),
                _ => None,
            }
        };
        if let (Some(x), Some(y)) = (neg(self, a), neg(self, b)) {
            if x != y {
                return self.konst(x as u128, 1);
            }
        }
        // sign-bit test: x <s 0 or x >s -1
        self.mk(op, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    /// replace the boolean term c by the constant v (and its negation by !v)
    pub fn replace(&mut self, e: E, c: E, nc: E, v: bool, memo: &mut FxMap<E, E>) -> E {
        if e == c {
            return self.konst(v as u128, 1);
        }
        if e == nc {
            return self.konst(!v as u128, 1);
        }
        // operands are interned before the terms that use them
        if e < c.min(nc) || !self.vars[c as usize].subset_of(&self.vars[e as usize]) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Not | Op::Extract | Op::SExt => {
                let a = self.replace(n.a, c, nc, v, memo);
                if a == n.a {
                    e
                } else {
                    match n.op {
                        Op::Not => self.not(a),
                        Op::Extract => self.extract(a, n.k as u32, n.w as u32),
                        _ => self.sext(a, n.w as u32),
                    }
                }
            }
            Op::Ite => {
                let a = self.replace(n.a, c, nc, v, memo);
                let b = self.replace(n.b, c, nc, v, memo);
                let d = self.replace(n.c, c, nc, v, memo);
                if (a, b, d) == (n.a, n.b, n.c) {
                    e
                } else {
                    self.ite(a, b, d)
                }
            }
            op => {
                let a = self.replace(n.a, c, nc, v, memo);
                let b = self.replace(n.b, c, nc, v, memo);
                if (a, b) == (n.a, n.b) {
                    e
                } else {
                    match op {
                        Op::Concat => self.concat(a, b),
                        Op::Eq => self.eq(a, b),
                        Op::Ult => self.ult(a, b),
                        Op::Ule => self.ule(a, b),
                        Op::Slt => self.slt(a, b),
                        Op::Sle => self.sle(a, b),
                        _ => self.bin(op, a, b),
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// Evaluate under an assignment of bytes to variables.
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.cur = 1;
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *m.get(n.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if self.stamp[i] == self.cur {
            return self.memo[i];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Not => !self.ev(n.a, m) & mask(w),
            Op::Extract => (self.ev(n.a, m) >> n.k) & mask(w),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.ev(n.a, m), iw) as u128 & mask(w)
            }
            Op::Concat => {
                let bw = self.w(n.b);
                (self.ev(n.a, m) << bw) | self.ev(n.b, m)
            }
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Eq => (self.ev(n.a, m) == self.ev(n.b, m)) as u128,
            Op::Ult => (self.ev(n.a, m) < self.ev(n.b, m)) as u128,
            Op::Ule => (self.ev(n.a, m) <= self.ev(n.b, m)) as u128,
            Op::Slt | Op::Sle => {
                let iw = self.w(n.a);
                let (x, y) = (sext(self.ev(n.a, m), iw), sext(self.ev(n.b, m), iw));
                (if n.op == Op::Slt { x < y } else { x <= y }) as u128
            }
            _ => {
                let (x, y) = (self.ev(n.a, m), self.ev(n.b, m));
                eval_op(n.op, w, x, y)
            }
        };
        self.stamp[i] = self.cur;
        self.memo[i] = r;
        r
    }

    /// For a boolean expression over exactly one byte variable: the set of byte values that satisfy it.
    /// Used only to notice that a variable has become fixed (simplification), never for verdicts.
    pub fn domain(&mut self, c: E) -> (usize, [u64; 4]) {
        if let Some(d) = self.domain_memo.get(&c) {
            return *d;
        }
        let v = self.vars[c as usize].iter().next().unwrap();
        let mut m = vec![0u8; v + 1];
        let mut d = [0u64; 4];
        for x in 0..256usize {
            m[v] = x as u8;
            if self.eval(c, &m) == 1 {
                d[x / 64] |= 1 << (x % 64);
            }
        }
        self.domain_memo.insert(c, (v, d));
        (v, d)
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        let d = depth - 1;
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Not => format!("(not {})", self.show(n.a, d)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d), n.k, n.w),
            Op::SExt => format!("(sext {} {})", self.show(n.a, d), n.w),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}

pub fn eval_op(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 { if a >= 0 { m } else { 1 } } else { a.wrapping_div(b) as u128 & m }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 { x } else { a.wrapping_rem(b) as u128 & m }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => {
            let s = sext(x, w);
            (s >> (y.min(w as u128 - 1) as u32)) as u128 & m
        }
        _ => panic!("eval_op {:?}", op),
    }
}
