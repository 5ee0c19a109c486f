//! Minimal FFI to libz3 and translation of expressions to QF_BV.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(u16, u8)>),
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    timeout_ms: u32,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub time: std::time::Duration,
    pub dump: Option<(std::path::PathBuf, u64, u64)>, // dir, every n-th query, next file index
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                bv: vec![],
                bl: vec![],
                timeout_ms,
                queries: 0,
                unsat: 0,
                sat: 0,
                time: Default::default(),
                dump: None,
            }
        }
    }
    /// start over with an empty context, keeping the counters
    pub fn forget(&mut self) {
        let n = Solver::new(self.timeout_ms);
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
        self.c = n.c;
        self.s = n.s;
        self.bv.clear();
        self.bl.clear();
    }
    fn bv_const(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn var(&self, i: u128) -> P {
        unsafe {
            let t = CString::new(format!("v{}", i)).unwrap();
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, t.as_ptr()), Z3_mk_bv_sort(self.c, 8))
        }
    }
    fn bool_of(&mut self, x: &Ctx, e: E) -> P {
        let i = e as usize;
        if self.bl.len() <= i {
            self.bl.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let n = x.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => Z3_mk_not(c, self.bool_of(x, n.a)),
                Op::And => {
                    let v = [self.bool_of(x, n.a), self.bool_of(x, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.bool_of(x, n.a), self.bool_of(x, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => Z3_mk_xor(c, self.bool_of(x, n.a), self.bool_of(x, n.b)),
                Op::Ite => Z3_mk_ite(c, self.bool_of(x, n.a), self.bool_of(x, n.b), self.bool_of(x, n.c)),
                Op::Eq => {
                    if x.w(n.a) == 1 {
                        Z3_mk_eq(c, self.bool_of(x, n.a), self.bool_of(x, n.b))
                    } else {
                        Z3_mk_eq(c, self.bv_of(x, n.a), self.bv_of(x, n.b))
                    }
                }
                Op::Ult => Z3_mk_bvult(c, self.bv_of(x, n.a), self.bv_of(x, n.b)),
                Op::Ule => Z3_mk_bvule(c, self.bv_of(x, n.a), self.bv_of(x, n.b)),
                Op::Slt => Z3_mk_bvslt(c, self.bv_of(x, n.a), self.bv_of(x, n.b)),
                Op::Sle => Z3_mk_bvsle(c, self.bv_of(x, n.a), self.bv_of(x, n.b)),
                _ => {
                    let b = self.bv_of(x, e);
                    Z3_mk_eq(c, b, self.bv_const(1, 1))
                }
            };
            self.bl[i] = r;
            r
        }
    }
    fn bv_of(&mut self, x: &Ctx, e: E) -> P {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = x.n(e);
        let c = self.c;
        let w = n.w as u32;
        unsafe {
            let r = match n.op {
                Op::Const => self.bv_const(n.k, w),
                Op::Var => self.var(n.k),
                Op::Concat => Z3_mk_concat(c, self.bv_of(x, n.a), self.bv_of(x, n.b)),
                Op::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, self.bv_of(x, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, w - x.w(n.a), self.bv_of(x, n.a)),
                Op::Ite => Z3_mk_ite(c, self.bool_of(x, n.a), self.bv_of(x, n.b), self.bv_of(x, n.c)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bool_of(x, e);
                    Z3_mk_ite(c, b, self.bv_const(1, 1), self.bv_const(0, 1))
                }
                Op::Not => Z3_mk_bvnot(c, self.bv_of(x, n.a)),
                _ => {
                    let a = self.bv_of(x, n.a);
                    let b = self.bv_of(x, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.bv[i] = r;
            r
        }
    }

    pub fn check(&mut self, x: &Ctx, cs: &[E], vars: &VarSet) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            let c = self.c;
            // build the terms outside the push: their life time is that of the context
            let ts: Vec<P> = cs.iter().map(|&e| self.bool_of(x, e)).collect();
            for v in vars.iter() {
                self.var(v as u128);
            }
            Z3_solver_push(c, self.s);
            for a in ts {
                Z3_solver_assert(c, self.s, a);
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut asg = Vec::new();
                    for v in vars.iter() {
                        let t = self.var(v as u128);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, t, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut val) {
                            asg.push((v as u16, val as u8));
                        } else {
                            asg.push((v as u16, 0));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(asg)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            if let Some((dir, every, idx)) = &mut self.dump {
                if self.queries % *every == 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                    let ans = match out {
                        Res::Unsat => "unsat",
                        Res::Sat(_) => "sat",
                        Res::Unknown => "unknown",
                    };
                    let txt = format!("; z3: {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", ans, s);
                    let _ = std::fs::write(dir.join(format!("q{}.smt2", idx)), txt);
                    *idx += 1;
                }
            }
            Z3_solver_pop(c, self.s, 1);
            let ec = Z3_get_error_code(c);
            if ec != 0 {
                eprintln!("z3 error code {}", ec);
                return Res::Unknown;
            }
            self.time += t0.elapsed();
            out
        }
    }
}
