//! Symbolic executor for the parsed LLVM IR.
use crate::expr::*;
use crate::ir::{self, Bin, Block, Callee, CastK, Func, Inst, Module, Opd, Pred, Ty, K};
use crate::val::V;
use crate::z3::{Res, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;
const HDR_LIVE: u64 = 0xA110_CA7E_D000_0001;
const HDR_DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

#[derive(Clone)]
struct Page {
    d: [u8; 4096],
    sym: Option<Box<BTreeMap<u16, E>>>,
}
type Chunk = Vec<Option<Rc<Page>>>;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: FxMap<u64, Rc<Chunk>>,
}

impl Mem {
    fn page(&self, a: u64) -> Option<&Page> {
        let c = self.chunks.get(&(a >> 20))?;
        c[(a >> 12 & 255) as usize].as_deref()
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let c = self.chunks.entry(a >> 20).or_insert_with(|| Rc::new(vec![None; 256]));
        let c = Rc::make_mut(c);
        let p = c[(a >> 12 & 255) as usize].get_or_insert_with(|| Rc::new(Page { d: [0; 4096], sym: None }));
        Rc::make_mut(p)
    }
    fn mapped(&self, a: u64, n: u64) -> bool {
        self.page(a).is_some() && (n <= 1 || self.page(a + n - 1).is_some())
    }
    /// fast concrete read (<= 8 bytes); None if symbolic, unmapped or page crossing
    fn read_fast(&self, a: u64, n: usize) -> Option<u64> {
        let o = (a & 4095) as usize;
        if o + n > 4096 {
            return None;
        }
        let p = self.page(a)?;
        if let Some(s) = &p.sym {
            if s.range(o as u16..(o + n) as u16).next().is_some() {
                return None;
            }
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.d[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    fn byte(&self, a: u64) -> Option<Result<u8, E>> {
        let p = self.page(a)?;
        let o = (a & 4095) as u16;
        if let Some(s) = &p.sym {
            if let Some(e) = s.get(&o) {
                return Some(Err(*e));
            }
        }
        Some(Ok(p.d[o as usize]))
    }
    fn write_conc(&mut self, a: u64, b: &[u8]) {
        let o = (a & 4095) as usize;
        if o + b.len() > 4096 {
            let k = 4096 - o;
            self.write_conc(a, &b[..k]);
            self.write_conc(a + k as u64, &b[k..]);
            return;
        }
        let p = self.page_mut(a);
        p.d[o..o + b.len()].copy_from_slice(b);
        if let Some(s) = &mut p.sym {
            let ks: Vec<u16> = s.range(o as u16..(o + b.len()) as u16).map(|x| *x.0).collect();
            for k in ks {
                s.remove(&k);
            }
            if s.is_empty() {
                p.sym = None;
            }
        }
    }
    fn write_sym(&mut self, a: u64, e: E) {
        let p = self.page_mut(a);
        p.sym.get_or_insert_with(Default::default).insert((a & 4095) as u16, e);
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0;
        while i < n {
            let a = src + i;
            let o = a & 4095;
            let k = (4096 - o).min(n - i);
            let p = match self.page(a) {
                Some(p) => p,
                None => return false,
            };
            buf.extend_from_slice(&p.d[o as usize..(o + k) as usize]);
            if let Some(s) = &p.sym {
                for (x, e) in s.range(o as u16..=((o + k - 1) as u16)) {
                    syms.push((i + *x as u64 - o, *e));
                }
            }
            i += k;
        }
        self.write_conc(dst, &buf);
        for (x, e) in syms {
            self.write_sym(dst + x, e);
        }
        true
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    bb: u32,
    ip: usize,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub cons: Vec<E>,
    pub model: Rc<Vec<u8>>,
    pub fixed: VarSet,
    domains: Rc<FxMap<u16, [u64; 4]>>,
    subst: Rc<FxMap<E, u64>>,
    /// unsigned interval known for an expression: (lo, constraint, hi, constraint)
    ranges: Rc<FxMap<E, (u64, E, u64, E)>>,
    heap: u64,
    sp: u64,
    pub live: i64,
    pub insts: u64,
    pub notes: Vec<V>,
    pub covers: Rc<Vec<u32>>,
    pub nvars: usize,
    pub max_depth: usize,
    pub live_mark: i64,
    pub tag: u64,
    th: Option<Box<Threads>>,
}


/// a thread that is not running at the moment
#[derive(Clone, Default)]
struct Parked {
    frames: Vec<Frame>,
    sp: u64,
    done: bool,
    /// the contended call this thread waits in: the word and what must hold of it
    waits: Option<(u64, Wait)>,
    /// the scheduling point at the current instruction has been decided already
    skip: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wait {
    Lock,
    Read,
    Write,
}

/// thread numbers start at 1; 0 is the thread that started them and waits for all of them
pub const MAXT: usize = 4;
const RW_MASK: u64 = 0x3fff_ffff;
const TLS_BASE: u64 = 0x6000_0000_0000;

#[derive(Clone)]
struct Threads {
    t: Vec<Parked>,
    cur: usize,
    preempts: u64,
    bound: u64,
    /// allocations at or above this address were made by the threads themselves
    water: u64,
    clock: [[u32; MAXT]; MAXT],
    sync: FxMap<u64, [u32; MAXT]>,
    /// per byte: last writer and its clock, and the clock of the last read of each thread
    locs: FxMap<u64, ((usize, u32), [u32; MAXT])>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    AssumeFalse,
    Fail(u32),
    Panic(String),
    BigAlloc(String),
    Depth,
    Budget,
    Engine(String),
    /// every thread waits for a lock
    Deadlock,
    /// two threads touch a byte without any order between them
    Race(String),
}

enum X {
    Fork(E),
    Stop(Stop),
}
type R<T> = Result<T, X>;
const NOCON: E = E::MAX;
fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(X::Stop(Stop::Engine(s.into())))
}

pub struct PathEnd {
    pub stop: Stop,
    pub input: Vec<u8>,
    pub notes: Vec<u128>,
    pub stack: Vec<String>,
    pub insts: u64,
    pub live: i64,
    pub max_depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hook {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Panic,
    Format,
    HashOne,
    RandKeys,
    VSym,
    VAssume,
    VFail,
    VNote,
    VCover,
    VLive,
    VMark,
    VFlag,
    VTag,
    Abort,
    Intrinsic,
    NoDef,
    NoopVoid,
    Threads,
    Contended(Wait),
    Yield,
}

pub struct Cfg {
    pub max_depth: usize,
    pub max_insts: u64,
    pub max_alloc: u64,
    pub max_enum: usize,
    pub max_paths: u64,
    pub max_secs: f64,
    /// the range of the first symbolic byte (a job may be one slice of a scenario)
    pub first: (u64, u64),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub insts: u64,
    pub cache_hits: u64,
    pub branches_sym: u64,
    pub max_live: i64,
    pub max_depth: usize,
    pub interval: u64,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub x: Ctx,
    pub sol: Solver,
    funcs: Vec<Option<Rc<Func>>>,
    hooks: Vec<Option<Hook>>,
    cache: FxMap<Vec<u32>, Res>,
    pub st: Stats,
    pub cfg: Cfg,
    base: Mem,
    pub hash_real: bool,
    pub fmt_real: bool,
    pub seen: std::collections::HashSet<u32>,
    pub covers: std::collections::BTreeMap<u32, Vec<u8>>,
    pub unknown: u64,
    pub maxvars: usize,
    deadline: std::time::Instant,
    tick: u32,
    /// addresses that threads do not meet in
    private: Vec<u64>,
    /// addresses that some thread changes atomically: only there an atomic load is a scheduling point
    changed: std::collections::BTreeSet<u64>,
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, cfg: Cfg, timeout_ms: u32) -> Self {
        let mut base = Mem::default();
        let mut o = 0;
        while o < m.image.len() {
            let e = (o + 4096).min(m.image.len());
            base.write_conc(ir::GLOBAL_BASE + o as u64, &m.image[o..e]);
            o = e;
        }
        Engine {
            m,
            x: Ctx::new(),
            sol: Solver::new(timeout_ms),
            funcs: vec![None; m.syms.len()],
            hooks: vec![None; m.syms.len()],
            cache: FxMap::default(),
            st: Stats::default(),
            cfg,
            base,
            hash_real: false,
            fmt_real: false,
            seen: Default::default(),
            covers: Default::default(),
            unknown: 0,
            maxvars: 0,
            deadline: std::time::Instant::now(),
            tick: 0,
            private: vec![],
            changed: Default::default(),
        }
    }
    /// forget everything that belongs to one job (parsed functions are kept)
    pub fn reset(&mut self, cfg: Cfg) {
        self.x = Ctx::new();
        self.sol.forget();
        self.cache.clear();
        self.cfg = cfg;
        self.hash_real = false;
        self.fmt_real = false;
        self.covers.clear();
        self.unknown = 0;
        self.maxvars = 0;
        self.private.clear();
        self.changed.clear();
    }

    fn func(&mut self, s: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.funcs[s as usize] {
            return Some(f.clone());
        }
        let f = Rc::new(self.m.parse_func(s)?);
        self.funcs[s as usize] = Some(f.clone());
        self.seen.insert(s);
        Some(f)
    }

    fn hook(&mut self, s: u32) -> Hook {
        if let Some(h) = self.hooks[s as usize] {
            return h;
        }
        let n = self.m.syms[s as usize].as_str();
        let defined = self.m.defs.contains_key(&s);
        let v0 = n.starts_with("_R");
        let h = match n {
            "verif_sym" => Hook::VSym,
            "verif_assume" => Hook::VAssume,
            "verif_fail" => Hook::VFail,
            "verif_note" => Hook::VNote,
            "verif_cover" => Hook::VCover,
            "verif_live" => Hook::VLive,
            "verif_mark" => Hook::VMark,
            "verif_flag" => Hook::VFlag,
            "verif_tag" => Hook::VTag,
            "malloc" => Hook::Malloc,
            "calloc" => Hook::Calloc,
            "free" => Hook::Free,
            "realloc" => Hook::CRealloc,
            "posix_memalign" => Hook::Memalign,
            "bcmp" => Hook::Bcmp,
            "memcmp" => Hook::Memcmp,
            "strlen" => Hook::Strlen,
            "abort" => Hook::Abort,
            "verif_threads" => Hook::Threads,
            "sched_yield" => Hook::Yield,
            _ if v0 && n.ends_with("14lock_contended") => Hook::Contended(Wait::Lock),
            _ if v0 && n.ends_with("14read_contended") => Hook::Contended(Wait::Read),
            _ if v0 && n.ends_with("15write_contended") => Hook::Contended(Wait::Write),
            _ if v0 && n.ends_with("9yield_now") => Hook::Yield,
            _ if n.starts_with("llvm.") => Hook::Intrinsic,
            _ if v0 && n.contains("12___rust_alloc") && !n.contains("alloc_error") => Hook::Alloc,
            _ if v0 && n.contains("14___rust_dealloc") => Hook::Dealloc,
            _ if v0 && n.contains("14___rust_realloc") => Hook::Realloc,
            _ if v0 && n.contains("19___rust_alloc_zeroed") => Hook::AllocZ,
            _ if v0 && n.contains("no_alloc_shim_is_unstable") => Hook::NoopVoid,
            _ if v0 && n.contains("_4core9panicking") => Hook::Panic,
            _ if v0 && n.contains("rust_begin_unwind") => Hook::Panic,
            _ if v0 && n.contains("handle_alloc_error") => Hook::Panic,
            _ if v0 && n.contains("capacity_overflow") => Hook::Panic,
            _ if v0 && n.contains("_5alloc7raw_vec12handle_error") => Hook::Panic,
            _ if v0 && n.contains("_5alloc3fmt6format12format_inner") => Hook::Format,
            _ if v0 && n.contains("_5alloc3fmt6format") && !n.contains("format_inner") => Hook::Format,
            _ if v0 && n.contains("8hash_one") => Hook::HashOne,
            _ if v0 && n.contains("19hashmap_random_keys") => Hook::RandKeys,
            _ if !defined => Hook::NoDef,
            _ => Hook::None,
        };
        self.hooks[s as usize] = Some(h);
        h
    }

    // ---------- solver ----------
    fn slice(&mut self, st: &State, extra: &[E]) -> (Vec<E>, VarSet) {
        // variables fixed on this path neither propagate nor need their old constraints
        let mut all = VarSet::default();
        for &e in extra {
            all = all.or(&self.x.vars[e as usize]);
        }
        let mut vs = all.minus(&st.fixed);
        let n = st.cons.len();
        let mut used = vec![false; n];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for i in 0..n {
                if !used[i] {
                    let cv = &self.x.vars[st.cons[i] as usize];
                    if cv.intersects(&vs) {
                        used[i] = true;
                        out.push(st.cons[i]);
                        if !cv.subset_of(&all) {
                            all = all.or(cv);
                        }
                        if !cv.minus(&st.fixed).subset_of(&vs) {
                            vs = vs.or(&cv.minus(&st.fixed));
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        if all.intersects(&st.fixed) {
            let l: Vec<usize> = all.iter().filter(|v| st.fixed.has(*v)).collect();
            for v in l {
                let e = self.x.new_var(v);
                let k = st.model.get(v).copied().unwrap_or(0);
                let k = self.x.konst(k as u128, 8);
                let q = self.x.eq(e, k);
                out.push(q);
            }
        }
        (out, all)
    }
    fn bound(&self, c: E) -> Option<(E, bool, u64)> {
        // (e, is_lower, bound) when c bounds an expression by a constant
        let n = self.x.n(c);
        if self.x.n(c).op != Op::Ult && n.op != Op::Ule {
            return None;
        }
        if self.x.w(n.a) > 64 {
            return None;
        }
        if let Some(k) = self.x.cval(n.b) {
            let k = k as u64;
            if n.op == Op::Ult {
                return k.checked_sub(1).map(|k| (n.a, false, k));
            }
            return Some((n.a, false, k));
        }
        if let Some(k) = self.x.cval(n.a) {
            let k = k as u64;
            if n.op == Op::Ult {
                return k.checked_add(1).map(|k| (n.b, true, k));
            }
            return Some((n.b, true, k));
        }
        None
    }
    /// Is path condition /\ extra satisfiable?  Returns the updated model.
    fn feasible(&mut self, st: &State, extra: &[E]) -> Option<Rc<Vec<u8>>> {
        let mut ex: Vec<E> = vec![];
        for &e in extra {
            match self.x.cval(e) {
                Some(0) => return None,
                Some(_) => {}
                None => ex.push(e),
            }
        }
        if ex.is_empty() {
            return Some(st.model.clone());
        }
        for &e in &ex {
            // interval reasoning: the bound contradicts what this path already knows
            if let Some((t, lower, k)) = self.bound(e) {
                if let Some(r) = st.ranges.get(&t) {
                    if if lower { k > r.2 } else { k < r.0 } {
                        self.st.interval += 1;
                        return None;
                    }
                }
            }
        }
        let (mut cs, vs) = self.slice(st, &ex);
        cs.extend_from_slice(&ex);
        cs.sort_unstable();
        cs.dedup();
        let r = if let Some(r) = self.cache.get(&cs) {
            self.st.cache_hits += 1;
            r.clone()
        } else {
            let r = self.sol.check(&self.x, &cs, &vs);
            self.cache.insert(cs, r.clone());
            r
        };
        match r {
            Res::Unsat => None,
            Res::Sat(a) => {
                let mut m = (*st.model).clone();
                for (v, b) in a {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = b;
                }
                Some(Rc::new(m))
            }
            Res::Unknown => {
                self.unknown += 1;
                None
            }
        }
    }
    fn add_con(&mut self, st: &mut State, c: E) {
        match self.x.cval(c) {
            Some(1) => return,
            Some(_) => panic!("adding false constraint"),
            None => {}
        }
        let n = self.x.n(c);
        if n.op == Op::And {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = self.x.n(n.a);
            if i.op == Op::Or {
                let p = self.x.not(i.a);
                let q = self.x.not(i.b);
                self.add_con(st, p);
                self.add_con(st, q);
                return;
            }
        }
        if st.cons.contains(&c) {
            return;
        }
        // e != bound tightens a known interval
        if n.op == Op::Not {
            let i = self.x.n(n.a);
            if i.op == Op::Eq && self.x.w(i.a) <= 64 && self.x.w(i.a) > 1 {
                if let Some(k) = self.x.cval(i.b) {
                    let w = self.x.w(i.a);
                    let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    let r = st.ranges.get(&i.a).copied().unwrap_or((0, NOCON, max, NOCON));
                    let k = k as u64;
                    if k == r.0 && k < r.2 {
                        let kk = self.x.konst(k as u128 + 1, w);
                        let q = self.x.ule(kk, i.a);
                        return self.add_con(st, q);
                    }
                    if k == r.2 && k > r.0 {
                        let kk = self.x.konst(k as u128 - 1, w);
                        let q = self.x.ule(i.a, kk);
                        return self.add_con(st, q);
                    }
                }
            }
        }
        st.cons.push(c);
        if let Some((e, lower, k)) = self.bound(c) {
            let w = self.x.w(e);
            let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let rs = Rc::make_mut(&mut st.ranges);
            let r = rs.entry(e).or_insert((0, NOCON, max, NOCON));
            let mut drop = NOCON;
            if lower && k >= r.0 {
                drop = r.1;
                r.0 = k;
                r.1 = c;
            } else if !lower && k <= r.2 {
                drop = r.3;
                r.2 = k;
                r.3 = c;
            }
            let one = r.0 == r.2;
            if drop != NOCON && drop != c {
                st.cons.retain(|x| *x != drop);
            }
            if one {
                let kk = self.x.konst(k as u128, w);
                let q = self.x.eq(e, kk);
                if self.x.cval(q).is_none() {
                    self.add_con(st, q);
                }
            }
        }
        if self.x.vars[c as usize].count() == 1 {
            let (v, d) = self.x.domain(c);
            let dm = Rc::make_mut(&mut st.domains);
            let e = dm.entry(v as u16).or_insert([u64::MAX; 4]);
            let mut cnt = 0;
            for i in 0..4 {
                e[i] &= d[i];
                cnt += e[i].count_ones();
            }
            if cnt == 1 {
                st.fixed.set(v);
            }
        }
        // equality with a constant: remember the substitution
        if n.op == Op::Eq {
            if let Some(k) = self.x.cval(n.b) {
                if self.x.n(n.a).w <= 64 && self.x.n(n.a).op != Op::Var {
                    Rc::make_mut(&mut st.subst).insert(n.a, k as u64);
                }
            }
        }
    }
    /// enumerate the feasible values of e
    fn enumerate(&mut self, st: &State, e: E) -> R<Vec<(u64, Rc<Vec<u8>>)>> {
        let w = self.x.w(e);
        let mut out = vec![];
        let v0 = self.x.eval(e, &st.model);
        out.push((v0 as u64, st.model.clone()));
        let k = self.x.konst(v0, w);
        let q = self.x.eq(e, k);
        let mut ne = vec![self.x.not(q)];
        while let Some(m) = self.feasible(st, &ne) {
            let v = self.x.eval(e, &m);
            out.push((v as u64, m));
            if std::time::Instant::now() > self.deadline {
                return Err(X::Stop(Stop::Budget));
            }
            if out.len() > self.cfg.max_enum {
                return eng(format!("value enumeration limit for {}", self.x.show(e, 4)));
            }
            let k = self.x.konst(v, w);
            let q = self.x.eq(e, k);
            let n = self.x.not(q);
            ne.push(n);
        }
        Ok(out)
    }

    // ---------- values ----------
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.x.konst(*c as u128, w),
            V::W(c) => self.x.konst(**c, w),
            V::S(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as expr"),
        }
    }
    fn norm(&self, e: E) -> V {
        match self.x.cval(e) {
            Some(k) => V::wide(k, self.x.w(e)),
            None => V::S(e),
        }
    }
    fn resolve(&mut self, st: &State, v: &V) -> V {
        match v {
            V::S(e) => self.res_e(st, *e),
            V::A(a) => {
                if a.iter().any(|x| matches!(x, V::S(_) | V::A(_))) {
                    V::A(a.iter().map(|x| self.resolve(st, x)).collect::<Vec<_>>().into())
                } else {
                    v.clone()
                }
            }
            _ => v.clone(),
        }
    }
    fn res_e(&mut self, st: &State, e: E) -> V {
        if self.x.vars[e as usize].subset_of(&st.fixed) {
            let r = self.x.eval(e, &st.model);
            return V::wide(r, self.x.w(e));
        }
        if !st.subst.is_empty() {
            if let Some(k) = st.subst.get(&e) {
                return V::C(*k);
            }
        }
        V::S(e)
    }
    fn get(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::C(c) => V::C(*c),
            Opd::R(r) => {
                let fr = st.frames.last().unwrap();
                match &fr.regs[*r as usize] {
                    V::C(c) => V::C(*c),
                    V::W(c) => V::W(c.clone()),
                    V::S(e) => {
                        let e = *e;
                        self.res_e(st, e)
                    }
                    v @ V::A(_) => {
                        let v = v.clone();
                        self.resolve(st, &v)
                    }
                }
            }
            Opd::K(v) => v.clone(),
        }
    }
    fn conc(&mut self, st: &State, o: &Opd) -> R<u64> {
        match self.get(st, o) {
            V::C(c) => Ok(c),
            V::S(e) => Err(X::Fork(e)),
            v => eng(format!("conc of {:?}", v)),
        }
    }
    fn concv(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => Err(X::Fork(*e)),
            v => eng(format!("conc of {:?}", v)),
        }
    }

    // ---------- memory ----------
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) if *w <= 64 => self.load_int(st, a, *w),
            Ty::Ptr => self.load_int(st, a, 64),
            Ty::Int(w) => {
                let lo = self.load_int(st, a, 64)?;
                let hi = self.load_int(st, a + 8, w - 64)?;
                let (l, h) = (self.ex(&lo, 64), self.ex(&hi, w - 64));
                let r = self.x.concat(h, l);
                Ok(self.norm(r))
            }
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let tot = n * et.bits();
                let raw = self.load_int(st, a, tot)?;
                self.bitcast(&raw, &Ty::Int(tot), t)
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = Vec::with_capacity(t.count());
                for i in 0..t.count() {
                    v.push(self.load(st, a + t.field_offset(i), t.elem(i))?);
                }
                Ok(V::A(v.into()))
            }
            _ => eng(format!("load of {:?}", t)),
        }
    }
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if let Some(v) = st.mem.read_fast(a, n) {
            let v = if w < 64 { v & ((1u64 << w) - 1) } else { v };
            return Ok(V::C(v));
        }
        let mut ps: Vec<E> = Vec::with_capacity(n);
        let mut allc = true;
        let mut cv = 0u64;
        for i in (0..n).rev() {
            match st.mem.byte(a + i as u64) {
                None => return eng(format!("load from unmapped address {:#x}", a)),
                Some(Ok(b)) => {
                    cv = cv << 8 | b as u64;
                    let k = self.x.konst(b as u128, 8);
                    ps.push(k);
                }
                Some(Err(e)) => {
                    if self.x.vars[e as usize].subset_of(&st.fixed) {
                        let b = self.x.eval(e, &st.model) as u64;
                        cv = cv << 8 | b;
                        let k = self.x.konst(b as u128, 8);
                        ps.push(k);
                    } else {
                        allc = false;
                        ps.push(e);
                    }
                }
            }
        }
        if allc {
            let v = if w < 64 { cv & ((1u64 << w) - 1) } else { cv };
            return Ok(V::C(v));
        }
        let mut r = self.x.concat_many(&ps);
        if w % 8 != 0 {
            r = self.x.extract(r, 0, w);
        }
        Ok(self.norm(r))
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        if a < ir::GLOBAL_BASE {
            return eng(format!("store to bad address {:#x}", a));
        }
        match (t, v) {
            (Ty::Vec(n, et), v) if et.bits() % 8 != 0 => {
                let tot = n * et.bits();
                let raw = self.bitcast(v, t, &Ty::Int(tot))?;
                self.store(st, a, &Ty::Int(tot), &raw)
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), V::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    self.store(st, a + t.field_offset(i), t.elem(i), x)?;
                }
                Ok(())
            }
            (_, V::C(c)) => {
                let n = t.store_size() as usize;
                if n <= 8 {
                    st.mem.write_conc(a, &c.to_le_bytes()[..n]);
                } else {
                    let mut b = [0u8; 16];
                    b[..8].copy_from_slice(&c.to_le_bytes());
                    st.mem.write_conc(a, &b[..n]);
                }
                Ok(())
            }
            (_, V::W(c)) => {
                let n = t.store_size() as usize;
                st.mem.write_conc(a, &c.to_le_bytes()[..n]);
                Ok(())
            }
            (_, V::S(e)) => {
                let w = self.x.w(*e);
                let n = t.store_size() as u32;
                let e = self.x.zext(*e, n * 8);
                let _ = w;
                for i in 0..n {
                    let b = self.x.extract(e, i * 8, 8);
                    match self.x.cval(b) {
                        Some(k) => st.mem.write_conc(a + i as u64, &[k as u8]),
                        None => st.mem.write_sym(a + i as u64, b),
                    }
                }
                Ok(())
            }
            _ => eng(format!("store {:?} {:?}", t, v)),
        }
    }
    /// load through a symbolic address
    fn load_sym(&mut self, st: &State, ae: E, t: &Ty) -> R<V> {
        let small = match t {
            Ty::Int(w) => *w <= 32,
            _ => false,
        };
        if !small {
            return Err(X::Fork(ae));
        }
        let n = t.store_size();
        // only tables of constants become if-then-else terms: a position in the input that
        // depends on symbolic bytes is split into its feasible values
        let here = self.x.eval(ae, &st.model) as u64;
        if here < ir::GLOBAL_BASE || here >= ir::GLOBAL_BASE + self.m.image.len() as u64 {
            return Err(X::Fork(ae));
        }
        // candidate addresses
        let vars: Vec<usize> = self.x.vars[ae as usize].iter().collect();
        let mut cand: Vec<u64> = vec![];
        let mut ok = false;
        if vars.len() == 1 {
            let v = vars[0];
            let dom = st.domains.get(&(v as u16)).copied().unwrap_or([u64::MAX; 4]);
            let mut m = (*st.model).clone();
            if m.len() <= v {
                m.resize(v + 1, 0);
            }
            for b in 0..256usize {
                if dom[b / 64] >> (b % 64) & 1 == 1 {
                    m[v] = b as u8;
                    cand.push(self.x.eval(ae, &m) as u64);
                }
            }
            cand.sort_unstable();
            cand.dedup();
            ok = cand.iter().all(|a| st.mem.mapped(*a, n));
        }
        if !ok {
            cand = self.enumerate(st, ae)?.into_iter().map(|x| x.0).collect();
            if cand.len() == 1 {
                // determined by the path condition: record the equality
                return Err(X::Fork(ae));
            }
            cand.sort_unstable();
        }
        let w = t.bits();
        let mut vals: Vec<(u64, E)> = vec![];
        for a in cand {
            let v = self.load(st, a, t)?;
            let e = self.ex(&v, w);
            match vals.last_mut() {
                Some(l) if l.1 == e => l.0 = a,
                _ => vals.push((a, e)),
            }
        }
        let mut r = vals.last().unwrap().1;
        for (a, e) in vals.iter().rev().skip(1) {
            let k = self.x.konst(*a as u128, 64);
            let c = self.x.ule(ae, k);
            r = self.x.ite(c, *e, r);
        }
        Ok(self.norm(r))
    }

    // ---------- scalar ops ----------
    fn binop(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let r = match op {
                    Bin::Add => x.wrapping_add(y) & m,
                    Bin::Sub => x.wrapping_sub(y) & m,
                    Bin::Mul => x.wrapping_mul(y) & m,
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::UDiv if y != 0 => x / y,
                    Bin::URem if y != 0 => x % y,
                    Bin::AShr => eval_op(Op::AShr, w, x as u128, y as u128) as u64,
                    Bin::SDiv if y != 0 => eval_op(Op::SDiv, w, x as u128, y as u128) as u64,
                    Bin::SRem if y != 0 => eval_op(Op::SRem, w, x as u128, y as u128) as u64,
                    _ => return eng("division by zero"),
                };
                return Ok(V::C(r));
            }
        }
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::URem => Op::URem,
            Bin::SDiv => Op::SDiv,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.x.bin(o, x, y);
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
            };
            return Ok(V::C(r as u64));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match p {
            Pred::Eq => self.x.eq(x, y),
            Pred::Ne => {
                let e = self.x.eq(x, y);
                self.x.not(e)
            }
            Pred::Ugt => self.x.ult(y, x),
            Pred::Uge => self.x.ule(y, x),
            Pred::Ult => self.x.ult(x, y),
            Pred::Ule => self.x.ule(x, y),
            Pred::Sgt => self.x.slt(y, x),
            Pred::Sge => self.x.sle(y, x),
            Pred::Slt => self.x.slt(x, y),
            Pred::Sle => self.x.sle(x, y),
        };
        Ok(self.norm(r))
    }
    fn bitcast(&mut self, v: &V, ft: &Ty, tt: &Ty) -> R<V> {
        // flatten to one integer, then split
        let flat = |s: &mut Self, v: &V, t: &Ty| -> E {
            match (t, v) {
                (Ty::Vec(_, et), V::A(f)) => {
                    let w = et.bits();
                    let es: Vec<E> = f.iter().rev().map(|x| s.ex(x, w)).collect();
                    s.x.concat_many(&es)
                }
                _ => s.ex(v, t.bits()),
            }
        };
        if !matches!(ft, Ty::Vec(..)) && !matches!(tt, Ty::Vec(..)) {
            return Ok(v.clone());
        }
        let e = flat(self, v, ft);
        match tt {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut out = vec![];
                for i in 0..*n {
                    let x = self.x.extract(e, i * w, w);
                    out.push(self.norm(x));
                }
                Ok(V::A(out.into()))
            }
            _ => Ok(self.norm(e)),
        }
    }
    fn cast(&mut self, k: CastK, ft: &Ty, tt: &Ty, v: &V) -> R<V> {
        if k == CastK::Bit {
            return self.bitcast(v, ft, tt);
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), V::A(a)) = (ft, tt, v) {
            let mut out = vec![];
            for x in a.iter() {
                out.push(self.cast(k, fe, te, x)?);
            }
            return Ok(V::A(out.into()));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        if let V::C(c) = v {
            if tw <= 64 {
                let m = mask(tw) as u64;
                return Ok(V::C(match k {
                    CastK::ZExt => *c,
                    CastK::Trunc => *c & m,
                    _ => sext(*c as u128, fw) as u64 & m,
                }));
            }
        }
        let e = self.ex(v, fw);
        let r = match k {
            CastK::ZExt => self.x.zext(e, tw),
            CastK::SExt => self.x.sext(e, tw),
            _ => self.x.extract(e, 0, tw),
        };
        Ok(self.norm(r))
    }
    fn lanes2(&mut self, t: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u32, &V, &V) -> R<V>) -> R<V> {
        match t {
            Ty::Vec(_, et) => {
                let w = et.bits();
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let mut out = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            out.push(f(self, w, p, q)?);
                        }
                        Ok(V::A(out.into()))
                    }
                    _ => eng("vector operands"),
                }
            }
            _ => f(self, t.bits(), a, b),
        }
    }
    fn ite_v(&mut self, c: E, t: &Ty, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    out.push(self.ite_v(c, t.elem(i), p, q)?);
                }
                Ok(V::A(out.into()))
            }
            _ => {
                let w = t.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.x.ite(c, x, y);
                Ok(self.norm(r))
            }
        }
    }

    // ---------- allocation ----------
    fn alloc(&mut self, st: &mut State, size: &V, align: u64) -> R<u64> {
        let al = align.max(16);
        let reserve = match size {
            V::C(c) => {
                if *c > self.cfg.max_alloc {
                    return Err(X::Stop(Stop::BigAlloc(format!("allocation of {} bytes", c))));
                }
                *c
            }
            V::S(e) => {
                let lim = self.x.konst(self.cfg.max_alloc as u128, 64);
                let over = self.x.ult(lim, *e);
                if self.x.cval(over) != Some(0) {
                    // branch: caller forks on the condition expression
                    let v = self.x.eval(over, &st.model);
                    if v == 1 {
                        let n = self.x.eval(*e, &st.model);
                        // is the small side feasible? push it as another path through Fork
                        if !matches!(self.res_e(st, over), V::C(_)) {
                            return Err(X::Fork(over));
                        }
                        return Err(X::Stop(Stop::BigAlloc(format!("allocation of {} bytes", n))));
                    }
                    if !st.cons.is_empty() || true {
                        if let Some(_m) = self.feasible(st, &[over]) {
                            return Err(X::Fork(over));
                        }
                    }
                }
                self.cfg.max_alloc
            }
            _ => return eng("alloc size"),
        };
        let base = (st.heap + 16 + al - 1) / al * al;
        st.heap = base + reserve + 32;
        st.mem.write_conc(base - 16, &HDR_LIVE.to_le_bytes());
        self.store(st, base - 8, &Ty::Int(64), size)?;
        // map the last page so that reads of uninitialised padding stay inside mapped memory
        st.mem.page_mut(base);
        if reserve <= 1 << 20 {
            let mut a = base;
            while a < base + reserve {
                st.mem.page_mut(a);
                a += 4096;
            }
            if reserve > 0 {
                st.mem.page_mut(base + reserve - 1);
            }
        }
        st.live += 1;
        if st.live > self.st.max_live {
            self.st.max_live = st.live;
        }
        Ok(base)
    }
    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match st.mem.read_fast(p - 16, 8) {
            Some(HDR_LIVE) => {}
            Some(HDR_DEAD) => return eng(format!("double free {:#x}", p)),
            _ => return eng(format!("free of a non-heap pointer {:#x}", p)),
        }
        st.mem.write_conc(p - 16, &HDR_DEAD.to_le_bytes());
        st.live -= 1;
        Ok(())
    }
    fn realloc(&mut self, st: &mut State, p: u64, new: &V, align: u64) -> R<u64> {
        let old = self.load_int(st, p - 8, 64)?;
        let old = self.resolve(st, &old);
        let o = self.concv(&old)?;
        let n = self.alloc(st, new, align)?;
        let k = match new {
            V::C(c) => o.min(*c),
            _ => o,
        };
        let mut i = 0;
        while i < k {
            // copy page-wise, skipping unmapped source pages
            let step = (4096 - ((p + i) & 4095)).min(k - i);
            if st.mem.page(p + i).is_some() {
                st.mem.copy(n + i, p + i, step);
            }
            i += step;
        }
        self.dealloc(st, p)?;
        Ok(n)
    }

    // ---------- threads ----------
    fn word(&self, st: &State, a: u64) -> u64 {
        st.mem.read_fast(a, 4).unwrap_or(u64::MAX)
    }
    fn free(&self, st: &State, a: u64, k: Wait) -> bool {
        let w = self.word(st, a);
        match k {
            Wait::Lock => w == 0,
            Wait::Read => w & RW_MASK < RW_MASK - 1,
            Wait::Write => w & RW_MASK == 0,
        }
    }
    /// could another thread know this address?
    fn shared(&self, st: &State, a: u64) -> bool {
        let th = st.th.as_ref().unwrap();
        if a >= STACK_BASE {
            return a < STACK_BASE + (1 << 28);
        }
        if a >= TLS_BASE {
            return false;
        }
        a < th.water && !self.private.contains(&a)
    }
    /// an atomic operation orders what this thread did before what others do after theirs
    fn sync(&mut self, st: &mut State, a: u64) {
        let th = st.th.as_mut().unwrap();
        let c = th.cur;
        let s = th.sync.entry(a).or_insert([0; MAXT]);
        for i in 0..MAXT {
            let m = s[i].max(th.clock[c][i]);
            s[i] = m;
            th.clock[c][i] = m;
        }
        th.clock[c][c] += 1;
    }
    fn touch(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> R<()> {
        let th = st.th.as_mut().unwrap();
        let c = th.cur;
        let me = th.clock[c];
        for i in a..a + n {
            let l = th.locs.entry(i).or_insert(((0, 0), [0; MAXT]));
            let (wt, wc) = l.0;
            let mut bad = wt != c && wc > me[wt];
            if write {
                bad |= (0..MAXT).any(|t| t != c && l.1[t] > me[t]);
                l.0 = (c, me[c]);
            } else {
                l.1[c] = me[c];
            }
            if bad {
                return Err(X::Stop(Stop::Race(if write { "write".into() } else { "read".into() })));
            }
        }
        Ok(())
    }
    fn start_threads(&mut self, st: &mut State, f: u32, n: usize, bound: u64, work: &mut Vec<State>) -> R<()> {
        assert!(n < MAXT && st.th.is_none());
        let func = self.func(f).expect("thread function");
        let mut t = vec![Parked { frames: std::mem::take(&mut st.frames), sp: st.sp, done: true, ..Default::default() }];
        for k in 1..=n {
            let mut regs = vec![V::C(0); func.nregs];
            regs[0] = V::C(k as u64 - 1);
            let sp = STACK_BASE + ((k as u64) << 28);
            t.push(Parked { frames: vec![Frame { f: func.clone(), regs, bb: 0, ip: 0, sp }], sp, ..Default::default() });
        }
        let mut clock = [[0; MAXT]; MAXT];
        for (k, c) in clock.iter_mut().enumerate() {
            c[k] = 1;
        }
        st.th = Some(Box::new(Threads { t, cur: 0, preempts: 0, bound, water: st.heap + 16, clock, sync: FxMap::default(), locs: FxMap::default() }));
        self.switch_thread(st, work)
    }
    fn runnable(&self, st: &State) -> Vec<usize> {
        let th = st.th.as_ref().unwrap();
        (1..th.t.len())
            .filter(|k| {
                let p = &th.t[*k];
                !p.done && p.waits.map(|(a, w)| self.free(st, a, w)).unwrap_or(true)
            })
            .collect()
    }
    fn resume(st: &mut State, k: usize, park: bool) {
        let th = st.th.as_mut().unwrap();
        let c = th.cur;
        if park && c != 0 {
            th.t[c].frames = std::mem::take(&mut st.frames);
            th.t[c].sp = st.sp;
        }
        th.cur = k;
        th.t[k].waits = None;
        st.frames = std::mem::take(&mut th.t[k].frames);
        st.sp = th.t[k].sp;
    }
    /// a symbolic choice between threads: one state per choice, told apart by a fresh variable
    fn choose(&mut self, st: &mut State, ks: &[usize], work: &mut Vec<State>, mut f: impl FnMut(&mut State, usize)) {
        if ks.len() > 1 && st.nvars < NVARW * 64 {
            let v = self.x.new_var(st.nvars);
            st.nvars += 1;
            let mut m = (*st.model).clone();
            m.resize(st.nvars, 0);
            for (i, k) in ks.iter().enumerate().rev() {
                let mut m = m.clone();
                *m.last_mut().unwrap() = *k as u8;
                let kc = self.x.konst(*k as u128, 8);
                let c = self.x.eq(v, kc);
                if i == 0 {
                    st.model = Rc::new(m);
                    self.add_con(st, c);
                    f(st, *k);
                } else {
                    self.st.forks += 1;
                    let mut ns = st.clone();
                    ns.model = Rc::new(m);
                    self.add_con(&mut ns, c);
                    f(&mut ns, *k);
                    work.push(ns);
                }
            }
        } else {
            f(st, ks[0]);
        }
    }
    /// the current thread cannot go on: let another one
    fn switch_thread(&mut self, st: &mut State, work: &mut Vec<State>) -> R<()> {
        let mut ks = self.runnable(st);
        let th = st.th.as_mut().unwrap();
        let c = th.cur;
        if ks.is_empty() {
            if th.t.iter().all(|p| p.done) {
                Self::resume(st, 0, true);
                st.th = None;
                return Ok(());
            }
            return Err(X::Stop(Stop::Deadlock));
        }
        // after a yield another thread goes first
        if ks.len() > 1 {
            ks.retain(|k| *k != c);
        }
        self.choose(st, &ks, work, |s, k| Self::resume(s, k, true));
        Ok(())
    }
    /// a scheduling point in front of the current instruction; true if another thread goes on here
    fn sched(&mut self, st: &mut State, work: &mut Vec<State>) -> bool {
        let th = st.th.as_mut().unwrap();
        let c = th.cur;
        if th.t[c].skip {
            th.t[c].skip = false;
            return false;
        }
        if th.preempts >= th.bound {
            return false;
        }
        let mut ks = self.runnable(st);
        ks.retain(|k| *k != c);
        if ks.is_empty() {
            return false;
        }
        // staying is the first choice
        ks.insert(0, c);
        st.frames.last_mut().unwrap().ip -= 1;
        self.choose(st, &ks, work, |s, k| {
            let th = s.th.as_mut().unwrap();
            th.t[c].skip = true;
            if k != c {
                th.preempts += 1;
                Self::resume(s, k, true);
            }
        });
        true
    }

    // ---------- main loop ----------
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let s = *self.m.sym_id.get(entry).expect("entry symbol");
        let f = self.func(s).expect("entry function");
        let mut st = State {
            mem: self.base.clone(),
            frames: vec![],
            cons: vec![],
            model: Rc::new(vec![]),
            fixed: VarSet::default(),
            domains: Default::default(),
            subst: Default::default(),
            ranges: Default::default(),
            heap: HEAP_BASE,
            sp: STACK_BASE,
            live: 0,
            insts: 0,
            notes: vec![],
            covers: Default::default(),
            nvars: 0,
            max_depth: 0,
            live_mark: 0,
            tag: 0,
            th: None,
        };
        let mut regs = vec![V::C(0); f.nregs];
        for (i, a) in args.iter().enumerate() {
            regs[i] = V::C(*a);
        }
        st.frames.push(Frame { f, regs, bb: 0, ip: 0, sp: STACK_BASE });
        st
    }

    pub fn explore(&mut self, init: State, on_end: &mut dyn FnMut(&mut Self, &State, PathEnd)) -> bool {
        let t0 = std::time::Instant::now();
        self.deadline = t0 + std::time::Duration::from_secs_f64(self.cfg.max_secs.clamp(0.0, 1e6));
        let mut work = vec![init.clone()];
        let mut complete = true;
        let mut known = 0;
        while let Some(mut st) = work.pop() {
            let before = st.insts;
            let stop = self.run(&mut st, &mut work);
            self.st.insts += st.insts - before;
            if let Stop::AssumeFalse = stop {
            } else {
                self.st.paths += 1;
                self.st.max_depth = self.st.max_depth.max(st.max_depth);
                for c in st.covers.iter() {
                    if !self.covers.contains_key(c) {
                        let inp = self.input(&st);
                        self.covers.insert(*c, inp);
                    }
                }
                // the model must satisfy the whole path condition
                self.maxvars = self.maxvars.max(st.nvars);
                let model = st.model.clone();
                for &c in &st.cons.clone() {
                    if self.x.eval(c, &model) != 1 {
                        panic!("internal error: path model does not satisfy the path condition");
                    }
                }
                let notes: Vec<u128> = st
                    .notes
                    .clone()
                    .iter()
                    .map(|v| match v {
                        V::C(c) => *c as u128,
                        V::S(e) => self.x.eval(*e, &model),
                        _ => 0,
                    })
                    .collect();
                let end = PathEnd {
                    stop,
                    input: self.input(&st),
                    notes,
                    stack: st.frames.iter().rev().map(|f| self.m.syms[f.f.sym as usize].clone()).collect(),
                    insts: st.insts,
                    live: st.live,
                    max_depth: st.max_depth,
                };
                on_end(self, &st, end);
            }
            // new places where threads meet: start over with scheduling points there
            if self.changed.len() > known {
                known = self.changed.len();
                work = vec![init.clone()];
            }
            if self.st.paths >= self.cfg.max_paths || t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                if !work.is_empty() {
                    complete = false;
                }
                break;
            }
        }
        complete
    }
    fn input(&self, st: &State) -> Vec<u8> {
        let mut v = (*st.model).clone();
        v.resize(st.nvars, 0);
        v
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b: &Block = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.get(st, o);
                st.frames.last_mut().unwrap().regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push(self.get(st, o));
                }
                let fr = st.frames.last_mut().unwrap();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
    }

    fn run(&mut self, st: &mut State, work: &mut Vec<State>) -> Stop {
        loop {
            st.insts += 1;
            if st.insts > self.cfg.max_insts {
                return Stop::Budget;
            }
            self.tick = self.tick.wrapping_add(1);
            if self.tick % 1024 == 0 && std::time::Instant::now() > self.deadline {
                return Stop::Budget;
            }
            let fr = st.frames.last_mut().unwrap();
            let f = fr.f.clone();
            let ip = fr.ip;
            let inst: &Inst = &f.blocks[fr.bb as usize].insts[ip];
            fr.ip += 1;
            match self.step(st, inst, work) {
                Ok(true) => {}
                Ok(false) => return Stop::Done,
                Err(X::Stop(s)) => return s,
                Err(X::Fork(e)) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let vals = match self.enumerate(st, e) {
                        Ok(v) => v,
                        Err(X::Stop(s)) => return s,
                        Err(_) => unreachable!(),
                    };
                    self.st.forks += vals.len() as u64 - 1;
                    let w = self.x.w(e);
                    for (v, m) in vals.iter().skip(1).rev() {
                        let mut ns = st.clone();
                        ns.model = m.clone();
                        let k = self.x.konst(*v as u128, w);
                        let c = self.x.eq(e, k);
                        self.add_con(&mut ns, c);
                        Rc::make_mut(&mut ns.subst).insert(e, *v);
                        work.push(ns);
                    }
                    let v = vals[0].0;
                    let k = self.x.konst(v as u128, w);
                    let c = self.x.eq(e, k);
                    self.add_con(st, c);
                    Rc::make_mut(&mut st.subst).insert(e, v);
                }
            }
        }
    }

    /// decide a boolean: returns the value on this path, pushing the other side if feasible.
    /// `ip` handling: the other side re-executes the instruction with the constraint known.
    fn branch(&mut self, st: &mut State, c: E, work: &mut Vec<State>) -> bool {
        self.st.branches_sym += 1;
        let v = self.x.eval(c, &st.model) == 1;
        let (here, other) = if v { (c, self.x.not(c)) } else { (self.x.not(c), c) };
        if let Some(m) = self.feasible(st, &[other]) {
            self.st.forks += 1;
            let mut ns = st.clone();
            ns.model = m;
            ns.frames.last_mut().unwrap().ip -= 1;
            self.add_con(&mut ns, other);
            Rc::make_mut(&mut ns.subst).insert(c, !v as u64);
            self.decided(&mut ns, c, !v);
            work.push(ns);
            self.add_con(st, here);
        }
        self.decided(st, c, v);
        v
    }
    /// the boolean c is known on this path: simplify what the current frame holds
    fn decided(&mut self, st: &mut State, c: E, v: bool) {
        let nc = self.x.not(c);
        let mut memo = FxMap::default();
        let lim = c.min(nc);
        for r in st.frames.last_mut().unwrap().regs.iter_mut() {
            if let V::S(e) = r {
                if *e >= lim {
                    let k = self.x.replace(*e, c, nc, v, &mut memo);
                    if k != *e {
                        *r = self.norm(k);
                    }
                }
            }
        }
    }

    fn set(&mut self, st: &mut State, d: u32, v: V) {
        if d != ir::NONE {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn step(&mut self, st: &mut State, inst: &Inst, work: &mut Vec<State>) -> R<bool> {
        let d = inst.dst;
        match &inst.k {
            K::Bin(op, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let Ty::Int(w) = t {
                    self.binop(*op, *w, &x, &y)?
                } else {
                    let op = *op;
                    self.lanes2(t, &x, &y, &mut |s, w, p, q| s.binop(op, w, p, q))?
                };
                self.set(st, d, r);
            }
            K::Icmp(p, t, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let p = *p;
                let r = match t {
                    Ty::Int(w) => self.icmp(p, *w, &x, &y)?,
                    Ty::Ptr => self.icmp(p, 64, &x, &y)?,
                    _ => self.lanes2(t, &x, &y, &mut |s, w, a, b| s.icmp(p, w, a, b))?,
                };
                self.set(st, d, r);
            }
            K::Cast(k, ft, tt, a) => {
                let v = self.get(st, a);
                let r = self.cast(*k, ft, tt, &v)?;
                self.set(st, d, r);
            }
            K::Load(t, p, atomic) => {
                let pv = self.get(st, p);
                let v = match pv {
                    V::C(a) => {
                        if st.th.is_some() && self.shared(st, a) {
                            if *atomic {
                                if self.changed.contains(&a) && self.sched(st, work) {
                                    return Ok(true);
                                }
                                self.sync(st, a);
                            } else {
                                self.touch(st, a, t.size(), false)?;
                            }
                        }
                        self.load(st, a, t)?
                    }
                    V::S(e) => self.load_sym(st, e, t)?,
                    _ => return eng("load pointer"),
                };
                self.set(st, d, v);
            }
            K::Store(t, v, p, atomic) => {
                let val = self.get(st, v);
                let a = self.conc(st, p)?;
                if st.th.is_some() && self.shared(st, a) {
                    if *atomic {
                        self.changed.insert(a);
                        if self.sched(st, work) {
                            return Ok(true);
                        }
                        self.sync(st, a);
                    } else {
                        self.touch(st, a, t.size(), true)?;
                    }
                }
                self.store(st, a, t, &val)?;
            }
            K::Gep(base, off, dynv) => {
                let b = self.get(st, base);
                if dynv.is_empty() {
                    let r = match b {
                        V::C(a) => V::C(a.wrapping_add(*off as u64)),
                        b => self.binop(Bin::Add, 64, &b, &V::C(*off as u64))?,
                    };
                    self.set(st, d, r);
                } else {
                    let mut acc = self.binop(Bin::Add, 64, &b, &V::C(*off as u64))?;
                    for (o, w, scale) in dynv {
                        let v = self.get(st, o);
                        let v = if *w < 64 { self.cast(CastK::SExt, &Ty::Int(*w), &Ty::Int(64), &v)? } else { v };
                        let s = self.binop(Bin::Mul, 64, &v, &V::C(*scale as u64))?;
                        acc = self.binop(Bin::Add, 64, &acc, &s)?;
                    }
                    self.set(st, d, acc);
                }
            }
            K::Select(ct, t, c, a, b) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let Ty::Vec(..) = ct {
                    match (&cv, &x, &y) {
                        (V::A(cs), V::A(xs), V::A(ys)) => {
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    V::C(1) => xs[i].clone(),
                                    V::C(_) => ys[i].clone(),
                                    V::S(e) => self.ite_v(*e, t.elem(i), &xs[i], &ys[i])?,
                                    _ => return eng("select"),
                                });
                            }
                            V::A(out.into())
                        }
                        _ => return eng("vector select"),
                    }
                } else {
                    match cv {
                        V::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        V::S(e) => {
                            let same = matches!((&x, &y), (V::C(p), V::C(q)) if p == q);
                            if same {
                                x
                            } else if *t == Ty::Ptr {
                                if self.branch(st, e, work) {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite_v(e, t, &x, &y)?
                            }
                        }
                        _ => return eng("select cond"),
                    }
                };
                self.set(st, d, r);
            }
            K::Alloca(n, al) => {
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + n;
                let mut p = a;
                while p < a + n {
                    if st.mem.page(p).is_none() {
                        st.mem.page_mut(p);
                    }
                    p = (p & !4095) + 4096;
                }
                self.set(st, d, V::C(a));
            }
            K::ExtractV(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match v {
                        V::A(f) => f[*i as usize].clone(),
                        _ => return eng("extractvalue"),
                    };
                }
                self.set(st, d, v);
            }
            K::InsertV(_, a, v, ix) => {
                let agg = self.get(st, a);
                let val = self.get(st, v);
                fn ins(a: &V, v: V, ix: &[u32]) -> V {
                    match a {
                        V::A(f) => {
                            let mut f: Vec<V> = f.to_vec();
                            let i = ix[0] as usize;
                            f[i] = if ix.len() == 1 { v } else { ins(&f[i], v, &ix[1..]) };
                            V::A(f.into())
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&agg, val, ix);
                self.set(st, d, r);
            }
            K::ExtractE(a, i) => {
                let v = self.get(st, a);
                let i = self.conc(st, i)?;
                match v {
                    V::A(f) => {
                        let r = f.get(i as usize).cloned().unwrap_or(V::C(0));
                        self.set(st, d, r)
                    }
                    _ => return eng("extractelement"),
                }
            }
            K::InsertE(_, a, v, i) => {
                let agg = self.get(st, a);
                let val = self.get(st, v);
                let i = self.conc(st, i)?;
                match agg {
                    V::A(f) => {
                        let mut f = f.to_vec();
                        f[i as usize] = val;
                        self.set(st, d, V::A(f.into()));
                    }
                    _ => return eng("insertelement"),
                }
            }
            K::Shuffle(_, a, b, m) => {
                let (x, y, mk) = (self.get(st, a), self.get(st, b), self.get(st, m));
                match (x, y, mk) {
                    (V::A(x), V::A(y), V::A(mk)) => {
                        let n = x.len();
                        let mut out = vec![];
                        for k in mk.iter() {
                            let k = match k {
                                V::C(k) => *k as usize,
                                _ => return eng("shuffle mask"),
                            };
                            out.push(if k < n {
                                x[k].clone()
                            } else if k < n + y.len() {
                                y[k - n].clone()
                            } else {
                                V::C(0)
                            });
                        }
                        self.set(st, d, V::A(out.into()));
                    }
                    _ => return eng("shufflevector"),
                }
            }
            K::Call(t, c, args, ndest) => {
                return self.call(st, d, t, c, args, *ndest, work);
            }
            K::Br(b) => self.jump(st, *b),
            K::CondBr(c, a, b) => {
                let v = self.get(st, c);
                let taken = match v {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => self.branch(st, e, work),
                    _ => return eng("br"),
                };
                self.jump(st, if taken { *a } else { *b });
            }
            K::Switch(w, v, def, cases) => {
                let val = self.get(st, v);
                let to = match val {
                    V::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    V::S(e) => self.switch(st, *w, e, *def, cases, work),
                    _ => return eng("switch"),
                };
                self.jump(st, to);
            }
            K::Ret(o) => {
                let v = match o {
                    Some(o) => Some(self.get(st, o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    if st.th.is_some() {
                        let th = st.th.as_mut().unwrap();
                        let c = th.cur;
                        th.t[c].done = true;
                        self.switch_thread(st, work)?;
                        return Ok(true);
                    }
                    return Ok(false);
                }
                self.finish_call(st, v);
            }
            K::Unreachable => return eng("reached unreachable"),
            K::AtomicRmw(op, t, p, v) => {
                let a = self.conc(st, p)?;
                if st.th.is_some() && self.shared(st, a) {
                    self.changed.insert(a);
                    // giving a lock back needs no scheduling point: what follows is independent
                    if !(op == "xchg" && matches!(v, Opd::C(0))) && self.sched(st, work) {
                        return Ok(true);
                    }
                    self.sync(st, a);
                }
                let val = self.get(st, v);
                let old = self.load(st, a, t)?;
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => val,
                    "add" => self.binop(Bin::Add, w, &old, &val)?,
                    "sub" => self.binop(Bin::Sub, w, &old, &val)?,
                    "and" => self.binop(Bin::And, w, &old, &val)?,
                    "or" => self.binop(Bin::Or, w, &old, &val)?,
                    "xor" => self.binop(Bin::Xor, w, &old, &val)?,
                    _ => return eng("atomicrmw"),
                };
                self.store(st, a, t, &new)?;
                self.set(st, d, old);
            }
            K::CmpXchg(t, p, cmp, new) => {
                let a = self.conc(st, p)?;
                if st.th.is_some() && self.shared(st, a) {
                    self.changed.insert(a);
                    if self.sched(st, work) {
                        return Ok(true);
                    }
                    self.sync(st, a);
                }
                let c = self.get(st, cmp);
                let n = self.get(st, new);
                let old = self.load(st, a, t)?;
                let eq = self.icmp(Pred::Eq, t.bits(), &old, &c)?;
                let eq = self.concv(&eq)?;
                if eq == 1 {
                    self.store(st, a, t, &n)?;
                }
                self.set(st, d, V::A(vec![old, V::C(eq)].into()));
            }
            K::Freeze(a) => {
                let v = self.get(st, a);
                self.set(st, d, v);
            }
            K::Nop => {}
            K::Unsupported(s) => return eng(format!("unsupported instruction {}", s)),
        }
        Ok(true)
    }

    fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        // the caller's ip points after the call instruction
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip - 1];
        if let Some(v) = v {
            self.set(st, inst.dst, v);
        }
        if let K::Call(_, _, _, Some(n)) = &inst.k {
            self.jump(st, *n);
        }
    }

    fn switch(&mut self, st: &mut State, w: u32, e: E, def: u32, cases: &[(u64, u32)], work: &mut Vec<State>) -> u32 {
        self.st.branches_sym += 1;
        // group case values by target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut any = self.x.fls();
        for (k, b) in cases {
            let kk = self.x.konst(*k as u128, w);
            let c = self.x.eq(e, kk);
            any = self.x.bin(Op::Or, any, c);
            if *b == def {
                continue;
            }
            match groups.iter_mut().find(|g| g.0 == *b) {
                Some(g) => g.1 = self.x.bin(Op::Or, g.1, c),
                None => groups.push((*b, c)),
            }
        }
        let mut dc = self.x.tru();
        for g in &groups {
            let n = self.x.not(g.1);
            dc = self.x.bin(Op::And, dc, n);
        }
        let _ = any;
        groups.push((def, dc));
        let mut here = None;
        let mut others = vec![];
        for (b, c) in &groups {
            if self.x.eval(*c, &st.model) == 1 {
                here = Some((*b, *c));
            } else if let Some(m) = self.feasible(st, &[*c]) {
                others.push((*b, *c, m));
            }
        }
        let here = here.expect("switch target");
        self.st.forks += others.len() as u64;
        let multi = !others.is_empty();
        for (b, c, m) in others.into_iter().rev() {
            let mut ns = st.clone();
            ns.model = m;
            self.add_con(&mut ns, c);
            self.jump(&mut ns, b);
            work.push(ns);
        }
        if multi {
            self.add_con(st, here.1);
        }
        here.0
    }

    fn call(&mut self, st: &mut State, d: u32, t: &Ty, c: &Callee, args: &[(Ty, Opd)], ndest: Option<u32>, work: &mut Vec<State>) -> R<bool> {
        let sym = match c {
            Callee::Direct(s) => *s,
            Callee::Asm => return Ok(true),
            Callee::Indirect(o) => {
                let a = self.conc(st, o)?;
                match self.m.fn_at.get(&a) {
                    Some(s) => *s,
                    None => return eng(format!("indirect call to {:#x}", a)),
                }
            }
        };
        let h = self.hook(sym);
        match h {
            Hook::Threads => {
                if let Some(n) = ndest {
                    self.jump(st, n);
                }
                let (f, n, bound) = (self.conc(st, &args[0].1)?, self.conc(st, &args[1].1)?, self.conc(st, &args[2].1)?);
                let f = match self.m.fn_at.get(&f) {
                    Some(s) => *s,
                    None => return eng("thread function"),
                };
                self.start_threads(st, f, n as usize, bound, work)?;
                return Ok(true);
            }
            Hook::Contended(k) => {
                let a = self.conc(st, &args[0].1)?;
                if st.th.is_some() && self.shared(st, a) && self.sched(st, work) {
                    return Ok(true);
                }
                if self.free(st, a, k) {
                    let w = self.word(st, a);
                    let w = match k {
                        Wait::Lock => 1,
                        Wait::Read => w + 1,
                        Wait::Write => RW_MASK,
                    };
                    st.mem.write_conc(a, &(w as u32).to_le_bytes());
                    if st.th.is_some() && self.shared(st, a) {
                        self.sync(st, a);
                    }
                    if let Some(n) = ndest {
                        self.jump(st, n);
                    }
                } else {
                    match &mut st.th {
                        None => return Err(X::Stop(Stop::Deadlock)),
                        Some(th) => {
                            let c = th.cur;
                            th.t[c].waits = Some((a, k));
                        }
                    }
                    st.frames.last_mut().unwrap().ip -= 1;
                    self.switch_thread(st, work)?;
                }
                return Ok(true);
            }
            Hook::Yield => {
                if let Some(n) = ndest {
                    self.jump(st, n);
                }
                if st.th.is_some() {
                    self.switch_thread(st, work)?;
                }
                return Ok(true);
            }
            _ => {}
        }
        if h != Hook::None && !(h == Hook::HashOne && self.hash_real) && !(h == Hook::Format && self.fmt_real) {
            let r = self.hooked(st, h, sym, t, args, work)?;
            if let Some(v) = r {
                self.set(st, d, v);
            }
            if let Some(n) = ndest {
                self.jump(st, n);
            }
            return Ok(true);
        }
        let f = match self.func(sym) {
            Some(f) => f,
            None => return eng(format!("call to undefined {}", self.m.syms[sym as usize])),
        };
        let mut regs = vec![V::C(0); f.nregs];
        for (i, (_, o)) in args.iter().enumerate() {
            regs[i] = self.get(st, o);
        }
        let sp = st.sp;
        st.frames.push(Frame { f, regs, bb: 0, ip: 0, sp });
        let dep = st.frames.len();
        if dep > st.max_depth {
            st.max_depth = dep;
        }
        if dep > self.cfg.max_depth {
            return Err(X::Stop(Stop::Depth));
        }
        Ok(true)
    }

    fn cstr(&self, st: &State, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(200) {
            match st.mem.byte(a + i) {
                Some(Ok(b)) => v.push(b),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    /// try to read a core::panic::Location passed as the last pointer argument
    fn location(&mut self, st: &State, args: &[(Ty, Opd)]) -> String {
        for (t, o) in args.iter().rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let V::C(a) = self.get(st, o) {
                let (p, n, l) = (st.mem.read_fast(a, 8), st.mem.read_fast(a + 8, 8), st.mem.read_fast(a + 16, 4));
                if let (Some(p), Some(n), Some(l)) = (p, n, l) {
                    if n > 0 && n < 300 {
                        let s = self.cstr(st, p, n);
                        if s.contains(".rs") {
                            return format!("{}:{}", s, l);
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn hooked(&mut self, st: &mut State, h: Hook, sym: u32, t: &Ty, args: &[(Ty, Opd)], work: &mut Vec<State>) -> R<Option<V>> {
        let _ = t;
        Ok(match h {
            Hook::Intrinsic => return self.intrinsic(st, sym, t, args, work),
            Hook::NoopVoid => None,
            Hook::Alloc => {
                let s = self.get(st, &args[0].1);
                let al = self.conc(st, &args[1].1)?;
                Some(V::C(self.alloc(st, &s, al)?))
            }
            Hook::AllocZ => {
                let s = self.get(st, &args[0].1);
                let s = V::C(self.concv(&s)?);
                let al = self.conc(st, &args[1].1)?;
                Some(V::C(self.alloc(st, &s, al)?)) // fresh pages are zero; memory is never reused
            }
            Hook::Malloc => {
                let s = self.get(st, &args[0].1);
                Some(V::C(self.alloc(st, &s, 16)?))
            }
            Hook::Calloc => {
                let a = self.conc(st, &args[0].1)?;
                let b = self.conc(st, &args[1].1)?;
                Some(V::C(self.alloc(st, &V::C(a * b), 16)?))
            }
            Hook::Memalign => {
                let p = self.conc(st, &args[0].1)?;
                let al = self.conc(st, &args[1].1)?;
                let s = self.get(st, &args[2].1);
                let a = self.alloc(st, &s, al)?;
                self.store(st, p, &Ty::Int(64), &V::C(a))?;
                Some(V::C(0))
            }
            Hook::Dealloc | Hook::Free => {
                let p = self.conc(st, &args[0].1)?;
                self.dealloc(st, p)?;
                None
            }
            Hook::Realloc => {
                let p = self.conc(st, &args[0].1)?;
                let al = self.conc(st, &args[2].1)?;
                let n = self.get(st, &args[3].1);
                Some(V::C(self.realloc(st, p, &n, al)?))
            }
            Hook::CRealloc => {
                let p = self.conc(st, &args[0].1)?;
                let n = self.get(st, &args[1].1);
                Some(V::C(self.realloc(st, p, &n, 16)?))
            }
            Hook::Bcmp | Hook::Memcmp => {
                let a = self.conc(st, &args[0].1)?;
                let b = self.conc(st, &args[1].1)?;
                let n = self.conc(st, &args[2].1)?;
                self.compare(st, a, b, n, h == Hook::Memcmp)?
            }
            Hook::Strlen => {
                let a = self.conc(st, &args[0].1)?;
                let mut n = 0;
                loop {
                    match st.mem.byte(a + n) {
                        Some(Ok(0)) => break,
                        Some(Ok(_)) => n += 1,
                        _ => return eng("strlen"),
                    }
                }
                Some(V::C(n))
            }
            Hook::Panic | Hook::Abort => {
                let loc = self.location(st, args);
                return Err(X::Stop(Stop::Panic(format!("{} {}", short(&self.m.syms[sym as usize]), loc))));
            }
            Hook::Format => {
                // returns an empty String through sret: {cap: 0, ptr: 1 (dangling), len: 0}
                let p = self.conc(st, &args[0].1)?;
                let tmpl = match self.m.sym_id.get("VERIF_EMPTY_STRING") {
                    Some(s) => self.m.addr[*s as usize],
                    None => return eng("no VERIF_EMPTY_STRING template"),
                };
                if !st.mem.copy(p, tmpl, 24) {
                    return eng("format template");
                }
                None
            }
            Hook::HashOne => Some(V::C(0)),
            Hook::RandKeys => match t {
                Ty::Void => {
                    let p = self.conc(st, &args[0].1)?;
                    self.store(st, p, &Ty::Int(64), &V::C(0x0123_4567_89ab_cdef))?;
                    self.store(st, p + 8, &Ty::Int(64), &V::C(0xfedc_ba98_7654_3210))?;
                    None
                }
                _ => Some(V::A(vec![V::C(0x0123_4567_89ab_cdef), V::C(0xfedc_ba98_7654_3210)].into())),
            },
            Hook::VSym => {
                let p = self.conc(st, &args[0].1)?;
                let n = self.conc(st, &args[1].1)?;
                for i in 0..n {
                    if st.nvars >= NVARW * 64 {
                        return eng("too many symbolic bytes");
                    }
                    let v = self.x.new_var(st.nvars);
                    st.nvars += 1;
                    st.mem.write_sym(p + i, v);
                }
                let slice = st.nvars == n as usize && n > 0 && self.cfg.first != (0, 255);
                let mut m = (*st.model).clone();
                m.resize(st.nvars, 0);
                if slice {
                    m[0] = self.cfg.first.0 as u8;
                }
                st.model = Rc::new(m);
                if slice {
                    let v = self.x.new_var(0);
                    for (b, up) in [(self.cfg.first.0, false), (self.cfg.first.1, true)] {
                        let k = self.x.konst(b as u128, 8);
                        let c = if up { self.x.ule(v, k) } else { self.x.ule(k, v) };
                        self.add_con(st, c);
                    }
                }
                None
            }
            Hook::VAssume => {
                let v = self.get(st, &args[0].1);
                match v {
                    V::C(k) => {
                        if k & 1 == 0 {
                            return Err(X::Stop(Stop::AssumeFalse));
                        }
                    }
                    V::S(e) => {
                        let w = self.x.w(e);
                        let c = if w == 1 { e } else { self.x.extract(e, 0, 1) };
                        if self.x.eval(c, &st.model) != 1 {
                            match self.feasible(st, &[c]) {
                                Some(m) => st.model = m,
                                None => return Err(X::Stop(Stop::AssumeFalse)),
                            }
                        }
                        self.add_con(st, c);
                    }
                    _ => return eng("assume"),
                }
                None
            }
            Hook::VFail => {
                let c = self.conc(st, &args[0].1)?;
                return Err(X::Stop(Stop::Fail(c as u32)));
            }
            Hook::VNote => {
                let v = self.get(st, &args[0].1);
                st.notes.push(v);
                None
            }
            Hook::VCover => {
                let c = self.conc(st, &args[0].1)? as u32;
                if !st.covers.contains(&c) {
                    Rc::make_mut(&mut st.covers).push(c);
                }
                None
            }
            Hook::VLive => Some(V::C(st.live as u64)),
            Hook::VMark => {
                st.live_mark = st.live;
                None
            }
            Hook::VTag => {
                let c = self.conc(st, &args[0].1)?;
                st.tag = c;
                None
            }
            Hook::VFlag => {
                let k = self.conc(st, &args[0].1)?;
                let v = self.conc(st, &args[1].1)?;
                match k {
                    0 => self.hash_real = v == 1,
                    1 => self.fmt_real = v == 1,
                    2 => self.cfg.max_depth = v as usize,
                    3 => self.cfg.max_alloc = v,
                    4 => self.cfg.max_insts = v,
                    5 => self.private.push(v),
                    _ => return eng("verif_flag"),
                }
                None
            }
            Hook::NoDef => return eng(format!("external function {}", self.m.syms[sym as usize])),
            Hook::None | Hook::Threads | Hook::Contended(_) | Hook::Yield => unreachable!(),
        })
    }

    fn compare(&mut self, st: &State, a: u64, b: u64, n: u64, ordered: bool) -> R<Option<V>> {
        // concrete fast path
        let mut i = 0;
        let mut pre = vec![];
        while i < n {
            match (st.mem.byte(a + i), st.mem.byte(b + i)) {
                (None, _) | (_, None) => return eng("memcmp of unmapped memory"),
                (Some(x), Some(y)) => {
                    let rx = match x {
                        Err(e) => self.res_e(st, e),
                        Ok(b) => V::C(b as u64),
                    };
                    let ry = match y {
                        Err(e) => self.res_e(st, e),
                        Ok(b) => V::C(b as u64),
                    };
                    if let (V::C(p), V::C(q)) = (&rx, &ry) {
                        if p == q {
                            i += 1;
                            continue;
                        }
                        pre.push((rx.clone(), ry.clone()));
                        break;
                    }
                    pre.push((rx, ry));
                }
            }
            i += 1;
        }
        if pre.is_empty() {
            return Ok(Some(V::C(0)));
        }
        if ordered {
            let mut r = self.x.konst(0, 32);
            for (p, q) in pre.iter().rev() {
                let (p, q) = (self.ex(p, 8), self.ex(q, 8));
                let eq = self.x.eq(p, q);
                let lt = self.x.ult(p, q);
                let m1 = self.x.konst(0xffff_ffff, 32);
                let p1 = self.x.konst(1, 32);
                let ne = self.x.ite(lt, m1, p1);
                r = self.x.ite(eq, r, ne);
            }
            Ok(Some(self.norm(r)))
        } else {
            let mut all = self.x.tru();
            for (p, q) in pre.iter().rev() {
                let (p, q) = (self.ex(p, 8), self.ex(q, 8));
                let eq = self.x.eq(p, q);
                all = self.x.bin(Op::And, eq, all);
            }
            let z = self.x.konst(0, 32);
            let o = self.x.konst(1, 32);
            let r = self.x.ite(all, z, o);
            Ok(Some(self.norm(r)))
        }
    }

    fn intrinsic(&mut self, st: &mut State, sym: u32, t: &Ty, args: &[(Ty, Opd)], work: &mut Vec<State>) -> R<Option<V>> {
        let m = self.m;
        let n = &m.syms[sym as usize][5..];
        let head = n.split('.').next().unwrap();
        if matches!(head, "lifetime" | "assume" | "experimental" | "dbg" | "invariant" | "prefetch" | "sideeffect" | "x86") {
            if n.starts_with("x86") && !n.contains("pause") {
                return eng(format!("intrinsic {}", n));
            }
            if n.starts_with("x86") && st.th.is_some() {
                self.switch_thread(st, work)?;
            }
            return Ok(None);
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = self.conc(st, &args[2].1)?;
            if len == 0 {
                return Ok(None);
            }
            let dst = self.conc(st, &args[0].1)?;
            let src = self.conc(st, &args[1].1)?;
            if st.th.is_some() {
                if self.shared(st, src) {
                    self.touch(st, src, len, false)?;
                }
                if self.shared(st, dst) {
                    self.touch(st, dst, len, true)?;
                }
            }
            if !st.mem.copy(dst, src, len) {
                return eng(format!("memcpy from unmapped {:#x}+{}", src, len));
            }
            return Ok(None);
        }
        if n.starts_with("memset") {
            let len = self.conc(st, &args[2].1)?;
            let dst = self.conc(st, &args[0].1)?;
            match self.get(st, &args[1].1) {
                V::C(b) => st.mem.write_conc(dst, &vec![b as u8; len as usize]),
                V::S(e) => {
                    for i in 0..len {
                        st.mem.write_sym(dst + i, e);
                    }
                }
                _ => return eng("memset"),
            }
            return Ok(None);
        }
        if n.starts_with("threadlocal") || n.starts_with("ptr.annotation") || n.starts_with("launder") || n.starts_with("expect") || n.starts_with("ssa.copy") || n.starts_with("ptrmask") {
            if n.starts_with("ptrmask") {
                let (a, b) = (self.get(st, &args[0].1), self.get(st, &args[1].1));
                return Ok(Some(self.binop(Bin::And, 64, &a, &b)?));
            }
            if n.starts_with("threadlocal") {
                if let Some(th) = &st.th {
                    let a = self.conc(st, &args[0].1)?;
                    let c = TLS_BASE + ((th.cur as u64) << 32) + (a - ir::GLOBAL_BASE);
                    if st.mem.page(c).is_none() {
                        // this thread's copy of the initial image around the variable
                        let mut o = a & !4095;
                        for _ in 0..2 {
                            if st.mem.page(o).is_some() {
                                let d = self.base.page(o).map(|p| p.d).unwrap_or([0; 4096]);
                                st.mem.write_conc(TLS_BASE + ((th.cur as u64) << 32) + (o - ir::GLOBAL_BASE), &d);
                            }
                            o += 4096;
                        }
                    }
                    return Ok(Some(V::C(c)));
                }
            }
            return Ok(Some(self.get(st, &args[0].1)));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") {
            return Err(X::Stop(Stop::Panic("llvm.trap".into())));
        }
        let vals: Vec<V> = args.iter().map(|a| self.get(st, &a.1)).collect();
        let at = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        if n.starts_with("vector.reduce") {
            let (et, f) = match (&at, &vals[0]) {
                (Ty::Vec(_, et), V::A(f)) => (et.bits(), f.clone()),
                _ => return eng("vector.reduce"),
            };
            let op = n.split('.').nth(2).unwrap_or("");
            let mut acc = f[0].clone();
            for x in f.iter().skip(1) {
                acc = match op {
                    "add" => self.binop(Bin::Add, et, &acc, x)?,
                    "or" => self.binop(Bin::Or, et, &acc, x)?,
                    "and" => self.binop(Bin::And, et, &acc, x)?,
                    "xor" => self.binop(Bin::Xor, et, &acc, x)?,
                    "umax" | "umin" | "smax" | "smin" => self.scalar_intr(op, et, &[acc.clone(), x.clone()])?,
                    _ => return eng(format!("intrinsic {}", n)),
                };
            }
            return Ok(Some(acc));
        }
        // element-wise
        let _ = t;
        match &at {
            Ty::Vec(cnt, et) => {
                let mut out = vec![];
                for i in 0..*cnt as usize {
                    let lane: Vec<V> = vals
                        .iter()
                        .map(|v| match v {
                            V::A(f) => f[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(self.scalar_intr2(n, et.bits(), &lane)?);
                }
                Ok(Some(V::A(out.into())))
            }
            _ => {
                let w = at.bits();
                if n.starts_with("ucmp") || n.starts_with("scmp") {
                    let rw = t.bits();
                    let s = n.starts_with('s');
                    let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &vals[0], &vals[1])?;
                    let eq = self.icmp(Pred::Eq, w, &vals[0], &vals[1])?;
                    if let (V::C(l), V::C(e)) = (&lt, &eq) {
                        return Ok(Some(V::C(if *e == 1 { 0 } else if *l == 1 { mask(rw) as u64 } else { 1 })));
                    }
                    let (l, e) = (self.ex(&lt, 1), self.ex(&eq, 1));
                    let m1 = self.x.konst(mask(rw), rw);
                    let z = self.x.konst(0, rw);
                    let o = self.x.konst(1, rw);
                    let i = self.x.ite(l, m1, o);
                    let r = self.x.ite(e, z, i);
                    return Ok(Some(self.norm(r)));
                }
                Ok(Some(self.scalar_intr2(n, w, &vals)?))
            }
        }
    }
    fn scalar_intr(&mut self, op: &str, w: u32, v: &[V]) -> R<V> {
        let p = match op {
            "umax" => Pred::Ugt,
            "umin" => Pred::Ult,
            "smax" => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(p, w, &v[0], &v[1])?;
        match c {
            V::C(k) => Ok(if k == 1 { v[0].clone() } else { v[1].clone() }),
            V::S(e) => self.ite_v(e, &Ty::Int(w), &v[0], &v[1]),
            _ => eng("minmax"),
        }
    }
    fn scalar_intr2(&mut self, n: &str, w: u32, v: &[V]) -> R<V> {
        let head = n.split('.').next().unwrap();
        match head {
            "umax" | "umin" | "smax" | "smin" => return self.scalar_intr(head, w, v),
            "abs" => {
                let neg = self.binop(Bin::Sub, w, &V::C(0), &v[0])?;
                let c = self.icmp(Pred::Slt, w, &v[0], &V::C(0))?;
                return match c {
                    V::C(k) => Ok(if k == 1 { neg } else { v[0].clone() }),
                    V::S(e) => self.ite_v(e, &Ty::Int(w), &neg, &v[0]),
                    _ => eng("abs"),
                };
            }
            "fshl" | "fshr" => {
                let s = match &v[2] {
                    V::C(s) => (*s % w as u64) as u32,
                    V::S(e) => return Err(X::Fork(*e)),
                    _ => return eng("fshl"),
                };
                let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let s = if head == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(if head == "fshl" { v[0].clone() } else { v[1].clone() });
                }
                let hi = self.x.extract(a, 0, w - s);
                let lo = self.x.extract(b, w - s, s);
                let r = self.x.concat(hi, lo);
                return Ok(self.norm(r));
            }
            "bswap" => {
                let e = self.ex(&v[0], w);
                let ps: Vec<E> = (0..w / 8).map(|i| self.x.extract(e, i * 8, 8)).collect();
                let r = self.x.concat_many(&ps);
                return Ok(self.norm(r));
            }
            "bitreverse" => {
                let e = self.ex(&v[0], w);
                let ps: Vec<E> = (0..w).map(|i| self.x.extract(e, i, 1)).collect();
                let r = self.x.concat_many(&ps);
                return Ok(self.norm(r));
            }
            "ctlz" | "cttz" | "ctpop" => {
                if let V::C(c) = &v[0] {
                    let r = match head {
                        "ctlz" => if *c == 0 { w as u64 } else { (c.leading_zeros() - (64 - w)) as u64 },
                        "cttz" => if *c == 0 { w as u64 } else { c.trailing_zeros() as u64 },
                        _ => c.count_ones() as u64,
                    };
                    return Ok(V::C(r));
                }
                let e = self.ex(&v[0], w);
                if head == "ctpop" {
                    let mut acc = self.x.konst(0, w);
                    for i in 0..w {
                        let b = self.x.extract(e, i, 1);
                        let z = self.x.zext(b, w);
                        acc = self.x.bin(Op::Add, acc, z);
                    }
                    return Ok(self.norm(acc));
                }
                let mut r = self.x.konst(w as u128, w);
                for i in 0..w {
                    // ctlz: highest set bit decides last; cttz: lowest set bit decides last
                    let bit = if head == "ctlz" { i } else { w - 1 - i };
                    let b = self.x.extract(e, bit, 1);
                    let k = self.x.konst(if head == "ctlz" { w - 1 - bit } else { bit } as u128, w);
                    r = self.x.ite(b, k, r);
                }
                return Ok(self.norm(r));
            }
            _ => {}
        }
        if n.contains(".sat.") {
            let (a, b) = (&v[0], &v[1]);
            return match head {
                "uadd" => {
                    let s = self.binop(Bin::Add, w, a, b)?;
                    let o = self.icmp(Pred::Ult, w, &s, a)?;
                    self.sel(&o, w, &V::C(mask(w) as u64), &s)
                }
                "usub" => {
                    let s = self.binop(Bin::Sub, w, a, b)?;
                    let o = self.icmp(Pred::Ult, w, a, b)?;
                    self.sel(&o, w, &V::C(0), &s)
                }
                _ => eng(format!("intrinsic {}", n)),
            };
        }
        if n.contains(".with.overflow") {
            let (a, b) = (&v[0], &v[1]);
            if let (V::C(x), V::C(y)) = (a, b) {
                let signed = head.starts_with('s');
                let m = mask(w);
                let (r, o) = if signed {
                    let (x, y) = (sext(*x as u128, w), sext(*y as u128, w));
                    let r = match head {
                        "sadd" => x + y,
                        "ssub" => x - y,
                        "smul" => x.wrapping_mul(y),
                        _ => return eng(n),
                    };
                    (r as u128 & m, sext(r as u128 & m, w) != r)
                } else {
                    let (x, y) = (*x as u128, *y as u128);
                    match head {
                        "uadd" => ((x + y) & m, x + y > m),
                        "usub" => (x.wrapping_sub(y) & m, x < y),
                        "umul" => (x.wrapping_mul(y) & m, x * y > m),
                        _ => return eng(n),
                    }
                };
                return Ok(V::A(vec![V::wide(r, w), V::C(o as u64)].into()));
            }
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let (r, o) = match head {
                "uadd" => {
                    let r = self.x.bin(Op::Add, x, y);
                    let o = if self.x.top_zero_bits(x) > 0 && self.x.top_zero_bits(y) > 0 {
                        self.x.fls()
                    } else {
                        self.x.ult(r, x)
                    };
                    (r, o)
                }
                "usub" => (self.x.bin(Op::Sub, x, y), self.x.ult(x, y)),
                "umul" => {
                    let r = self.x.bin(Op::Mul, x, y);
                    let tz = self.x.top_zero_bits(x) + self.x.top_zero_bits(y);
                    let o = if tz >= w {
                        self.x.fls()
                    } else {
                        let (p, q) = (self.x.zext(x, 2 * w), self.x.zext(y, 2 * w));
                        let f = self.x.bin(Op::Mul, p, q);
                        let hi = self.x.extract(f, w, w);
                        let z = self.x.konst(0, w);
                        let e = self.x.eq(hi, z);
                        self.x.not(e)
                    };
                    (r, o)
                }
                "sadd" | "ssub" | "smul" => {
                    let op = match head {
                        "sadd" => Op::Add,
                        "ssub" => Op::Sub,
                        _ => Op::Mul,
                    };
                    let ew = if op == Op::Mul { 2 * w } else { w + 1 };
                    let r = self.x.bin(op, x, y);
                    let (p, q) = (self.x.sext(x, ew), self.x.sext(y, ew));
                    let f = self.x.bin(op, p, q);
                    let rr = self.x.sext(r, ew);
                    let e = self.x.eq(f, rr);
                    (r, self.x.not(e))
                }
                _ => return eng(n),
            };
            return Ok(V::A(vec![self.norm(r), self.norm(o)].into()));
        }
        eng(format!("intrinsic {}", n))
    }
    fn sel(&mut self, c: &V, w: u32, a: &V, b: &V) -> R<V> {
        match c {
            V::C(k) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            V::S(e) => self.ite_v(*e, &Ty::Int(w), a, b),
            _ => eng("sel"),
        }
    }
}

/// crude demangling of v0 names: keep the identifier parts
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() && l < 60 {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref: skip to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.truncate(6);
    out.join("::")
}
