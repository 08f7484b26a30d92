//! Minimal FFI to libz3 and translation of expressions to bit-vector terms.
use crate::expr::*;
use crate::ir::{Bop, Pred};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut u8;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvuge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvugt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsgt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_is_negative(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,   // per expr: term of its own width (BV)
    bl: Vec<P>,   // per expr: Bool
    fp: std::collections::HashMap<E, P>,
    vars: std::collections::HashMap<E, P>,
    stack: Vec<E>,
    /// linear integer arithmetic, for queries that are linear throughout
    li: P,
    li_stack: Vec<E>,
    /// per expr: null unknown, 1 not linear, else the term (Int or Bool)
    lin: Vec<P>,
    li_vars: std::collections::HashMap<E, P>,
    pub use_lia: bool,
    pub lia_queries: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub dump: Option<std::path::PathBuf>,
    pub dump_every: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum R {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(fp: bool) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let s = if std::env::var("QSYM_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let l = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 60_000);
            Z3_solver_set_params(c, s, p);
            let l = CString::new("QF_LIA").unwrap();
            let li = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, li);
            Z3_solver_set_params(c, li, p);
            Z3 {
                c,
                s,
                li,
                li_stack: vec![],
                lin: vec![],
                li_vars: Default::default(),
                use_lia: !fp && std::env::var("QSYM_BV").is_err(),
                lia_queries: 0,
                bv: vec![],
                bl: vec![],
                fp: Default::default(),
                vars: Default::default(),
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Default::default(),
                dump: None,
                dump_every: 1000,
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe {
            if a.is_null() {
                panic!("z3 error {}", Z3_get_error_code(self.c));
            }
            Z3_inc_ref(self.c, a);
        }
        a
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, so);
            if v <= u64::MAX as u128 {
                self.keep(Z3_mk_unsigned_int64(self.c, v as u64, so))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                self.keep(Z3_mk_numeral(self.c, s.as_ptr(), so))
            }
        }
    }
    fn resize(&self, a: P, from: u32, to: u32) -> P {
        unsafe {
            if from == to {
                a
            } else if from < to {
                self.keep(Z3_mk_zero_ext(self.c, to - from, a))
            } else {
                self.keep(Z3_mk_extract(self.c, to - 1, 0, a))
            }
        }
    }
    /// sum of k*e over terms with one sign, plus constant, in `w` bits
    fn side(&mut self, x: &Exprs, t: &Terms, c: i128, pos: bool, w: u32) -> P {
        let cc = if pos { c.max(0) } else { (-c).max(0) } as u128;
        let mut acc: Option<P> = if cc != 0 { Some(self.num(w, cc)) } else { None };
        for &(e, k) in t {
            if (k > 0) != pos {
                continue;
            }
            let b = self.bv(x, e);
            let mut b = self.resize(b, x.width(e), w);
            let k = k.unsigned_abs();
            unsafe {
                if k != 1 {
                    let n = self.num(w, k as u128);
                    b = self.keep(Z3_mk_bvmul(self.c, n, b));
                }
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.keep(Z3_mk_bvadd(self.c, a, b)),
                });
            }
        }
        acc.unwrap_or_else(|| self.num(w, 0))
    }
    fn sides(&mut self, x: &Exprs, t: Tid, c: i128) -> (P, P) {
        let t = x.terms[t as usize].clone();
        let mut ph: u128 = c.max(0) as u128;
        let mut nh: u128 = (-c).max(0) as u128;
        let mut mw = 1;
        for &(e, k) in &t {
            let (_, h) = x.ivx(X::S(e));
            let q = h as u128 * k.unsigned_abs() as u128;
            if k > 0 {
                ph += q
            } else {
                nh += q
            }
            mw = mw.max(128 - (h as u128).leading_zeros());
        }
        let w = (128 - ph.max(nh).leading_zeros()).max(mw).max(1);
        (self.side(x, &t, c, true, w), self.side(x, &t, c, false, w))
    }
    pub fn bv(&mut self, x: &Exprs, e: E) -> P {
        if self.bv.len() <= e as usize {
            self.bv.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let c = self.c;
        let r = unsafe {
            match x.nodes[e as usize].clone() {
                Node::Const { w, v } => self.num(w, v as u128),
                Node::Var { idx, w, lo, hi } => {
                    let nb = (64 - hi.leading_zeros()).max(1);
                    let so = Z3_mk_bv_sort(c, nb);
                    Z3_inc_ref(c, so);
                    let nm = CString::new(format!("x{idx}_{w}_{lo}_{hi}")).unwrap();
                    let v = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), so));
                    self.vars.insert(e, v);
                    self.resize(v, nb, w)
                }
                Node::Lin { w, t, c: k } => {
                    // value fits in w bits by construction: modular arithmetic in w bits is exact
                    let t = x.terms[t as usize].clone();
                    let p = self.side(x, &t, k, true, w);
                    let n = self.side(x, &t, k, false, w);
                    if k >= 0 && t.iter().all(|y| y.1 > 0) {
                        p
                    } else {
                        self.keep(Z3_mk_bvsub(c, p, n))
                    }
                }
                Node::Bin { op, a, b, .. } => {
                    let a = self.bv(x, a);
                    let b = self.bv(x, b);
                    let f = match op {
                        Bop::Add => Z3_mk_bvadd,
                        Bop::Sub => Z3_mk_bvsub,
                        Bop::Mul => Z3_mk_bvmul,
                        Bop::UDiv => Z3_mk_bvudiv,
                        Bop::SDiv => Z3_mk_bvsdiv,
                        Bop::URem => Z3_mk_bvurem,
                        Bop::SRem => Z3_mk_bvsrem,
                        Bop::And => Z3_mk_bvand,
                        Bop::Or => Z3_mk_bvor,
                        Bop::Xor => Z3_mk_bvxor,
                        Bop::Shl => Z3_mk_bvshl,
                        Bop::LShr => Z3_mk_bvlshr,
                        Bop::AShr => Z3_mk_bvashr,
                    };
                    self.keep(f(c, a, b))
                }
                Node::Ite { c: cd, a, b, .. } => {
                    let cd = self.bl(x, cd);
                    let a = self.bv(x, a);
                    let b = self.bv(x, b);
                    self.keep(Z3_mk_ite(c, cd, a, b))
                }
                Node::ZExt { w, a } => {
                    let wa = x.width(a);
                    let a = self.bv(x, a);
                    self.keep(Z3_mk_zero_ext(c, w - wa, a))
                }
                Node::SExt { w, a } => {
                    let wa = x.width(a);
                    let a = self.bv(x, a);
                    self.keep(Z3_mk_sign_ext(c, w - wa, a))
                }
                Node::Extract { w, lo, a } => {
                    let a = self.bv(x, a);
                    self.keep(Z3_mk_extract(c, lo + w - 1, lo, a))
                }
                Node::Fp { op: Fo::ToUSat, a, .. } => {
                    let f = self.fpt(x, a);
                    let so = self.keep(Z3_mk_fpa_sort_64(c));
                    let z = self.num(64, 0);
                    let mx = self.num(64, u64::MAX as u128);
                    let l = self.num(64, (18446744073709551616.0f64).to_bits() as u128);
                    let l = self.keep(Z3_mk_fpa_to_fp_bv(c, l, so));
                    let rtz = self.keep(Z3_mk_fpa_rtz(c));
                    let u = self.keep(Z3_mk_fpa_to_ubv(c, rtz, f, 64));
                    let big = self.keep(Z3_mk_fpa_leq(c, l, f));
                    let v = [self.keep(Z3_mk_fpa_is_nan(c, f)), self.keep(Z3_mk_fpa_is_negative(c, f))];
                    let low = self.keep(Z3_mk_or(c, 2, v.as_ptr()));
                    let t = self.keep(Z3_mk_ite(c, big, mx, u));
                    self.keep(Z3_mk_ite(c, low, z, t))
                }
                Node::Fp { .. } => {
                    let f = self.fpt(x, e);
                    self.keep(Z3_mk_fpa_to_ieee_bv(c, f))
                }
                Node::Concat { hi, lo, .. } => {
                    let a = self.bv(x, hi);
                    let b = self.bv(x, lo);
                    self.keep(Z3_mk_concat(c, a, b))
                }
                _ => {
                    let b = self.bl(x, e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    self.keep(Z3_mk_ite(c, b, one, zero))
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    /// the expression as an IEEE double term
    fn fpt(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.fp.get(&e) {
            return *p;
        }
        let c = self.c;
        let r = unsafe {
            let so = self.keep(Z3_mk_fpa_sort_64(c));
            let rm = self.keep(Z3_mk_fpa_rne(c));
            match x.nodes[e as usize].clone() {
                Node::Fp { op: Fo::FromU, a, .. } => {
                    let a = self.bv(x, a);
                    self.keep(Z3_mk_fpa_to_fp_unsigned(c, rm, a, so))
                }
                Node::Fp { op: Fo::FromS, a, .. } => {
                    let a = self.bv(x, a);
                    self.keep(Z3_mk_fpa_to_fp_signed(c, rm, a, so))
                }
                Node::Fp { op, a, b } if op != Fo::ToUSat => {
                    let a = self.fpt(x, a);
                    match op {
                        Fo::Neg => self.keep(Z3_mk_fpa_neg(c, a)),
                        Fo::Abs => self.keep(Z3_mk_fpa_abs(c, a)),
                        _ => {
                            let b = self.fpt(x, b);
                            let f = match op {
                                Fo::Add => Z3_mk_fpa_add,
                                Fo::Sub => Z3_mk_fpa_sub,
                                Fo::Mul => Z3_mk_fpa_mul,
                                _ => Z3_mk_fpa_div,
                            };
                            self.keep(f(c, rm, a, b))
                        }
                    }
                }
                Node::Ite { c: cd, a, b, .. } => {
                    let cd = self.bl(x, cd);
                    let a = self.fpt(x, a);
                    let b = self.fpt(x, b);
                    self.keep(Z3_mk_ite(c, cd, a, b))
                }
                _ => {
                    let b = self.bv(x, e);
                    self.keep(Z3_mk_fpa_to_fp_bv(c, b, so))
                }
            }
        };
        self.fp.insert(e, r);
        r
    }
    pub fn bl(&mut self, x: &Exprs, e: E) -> P {
        if self.bl.len() <= e as usize {
            self.bl.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[e as usize].is_null() {
            return self.bl[e as usize];
        }
        let c = self.c;
        let r = unsafe {
            match x.nodes[e as usize].clone() {
                Node::Ge0 { t, c: k } => {
                    let (p, n) = self.sides(x, t, k);
                    self.keep(Z3_mk_bvuge(c, p, n))
                }
                Node::Eq0 { t, c: k } => {
                    let (p, n) = self.sides(x, t, k);
                    self.keep(Z3_mk_eq(c, p, n))
                }
                Node::Not(a) => {
                    let a = self.bl(x, a);
                    self.keep(Z3_mk_not(c, a))
                }
                Node::And(a, b) => {
                    let v = [self.bl(x, a), self.bl(x, b)];
                    self.keep(Z3_mk_and(c, 2, v.as_ptr()))
                }
                Node::Or(a, b) => {
                    let v = [self.bl(x, a), self.bl(x, b)];
                    self.keep(Z3_mk_or(c, 2, v.as_ptr()))
                }
                Node::Cmp { p, a, b, .. } => {
                    let a = self.bv(x, a);
                    let b = self.bv(x, b);
                    let f = match p {
                        Pred::Slt => Z3_mk_bvslt,
                        Pred::Sle => Z3_mk_bvsle,
                        Pred::Sgt => Z3_mk_bvsgt,
                        Pred::Sge => Z3_mk_bvsge,
                        _ => unreachable!(),
                    };
                    self.keep(f(c, a, b))
                }
                Node::FCmp { p, a, b } => {
                    let a = self.fpt(x, a);
                    let b = self.fpt(x, b);
                    match p {
                        Fc::Oeq => self.keep(Z3_mk_fpa_eq(c, a, b)),
                        Fc::Olt => self.keep(Z3_mk_fpa_lt(c, a, b)),
                        Fc::Ole => self.keep(Z3_mk_fpa_leq(c, a, b)),
                        Fc::Uno => {
                            let v = [self.keep(Z3_mk_fpa_is_nan(c, a)), self.keep(Z3_mk_fpa_is_nan(c, b))];
                            self.keep(Z3_mk_or(c, 2, v.as_ptr()))
                        }
                    }
                }
                Node::Dom(v) => {
                    let (lo, hi) = x.ivx(X::S(v));
                    let w = x.width(v);
                    let b = self.bv(x, v);
                    let l = self.num(w, lo as u128);
                    let h = self.num(w, hi as u128);
                    let v = [self.keep(Z3_mk_bvuge(c, b, l)), self.keep(Z3_mk_bvule(c, b, h))];
                    self.keep(Z3_mk_and(c, 2, v.as_ptr()))
                }
                _ => {
                    assert_eq!(x.width(e), 1);
                    let b = self.bv(x, e);
                    let one = self.num(1, 1);
                    self.keep(Z3_mk_eq(c, b, one))
                }
            }
        };
        self.bl[e as usize] = r;
        r
    }
    fn int(&self, v: i128) -> P {
        unsafe {
            let so = Z3_mk_int_sort(self.c);
            let s = CString::new(v.to_string()).unwrap();
            self.keep(Z3_mk_numeral(self.c, s.as_ptr(), so))
        }
    }
    fn lsum(&mut self, x: &Exprs, t: Tid, k: i128) -> Option<P> {
        let t = x.terms[t as usize].clone();
        let mut v = vec![];
        for &(e, f) in &t {
            let a = self.linear(x, e)?;
            v.push(if f == 1 {
                a
            } else {
                let m = [self.int(f as i128), a];
                unsafe { self.keep(Z3_mk_mul(self.c, 2, m.as_ptr())) }
            });
        }
        if k != 0 || v.is_empty() {
            v.push(self.int(k));
        }
        Some(if v.len() == 1 { v[0] } else { unsafe { self.keep(Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr())) } })
    }
    /// the expression as an integer (width > 1) or boolean term of linear arithmetic
    fn linear(&mut self, x: &Exprs, e: E) -> Option<P> {
        const NO: P = 1 as P;
        if self.lin.len() <= e as usize {
            self.lin.resize(x.nodes.len(), std::ptr::null_mut());
        }
        let m = self.lin[e as usize];
        if !m.is_null() {
            return if m == NO { None } else { Some(m) };
        }
        let r = self.linear0(x, e);
        self.lin[e as usize] = r.unwrap_or(NO);
        r
    }
    fn linear0(&mut self, x: &Exprs, e: E) -> Option<P> {
        let c = self.c;
        unsafe {
            Some(match x.nodes[e as usize].clone() {
                Node::Const { w, v } if w > 1 => self.int(v as i128),
                Node::Var { idx, w, .. } if w > 1 => {
                    let nm = CString::new(format!("i{idx}_{e}")).unwrap();
                    let v = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_int_sort(c)));
                    self.li_vars.insert(e, v);
                    v
                }
                Node::Lin { t, c: k, .. } => self.lsum(x, t, k)?,
                Node::ZExt { a, .. } if x.width(a) > 1 => self.linear(x, a)?,
                // possibly wrapping: reduced modulo 2^w
                Node::Bin { op: op @ (Bop::Add | Bop::Sub), w, a, b } if w > 1 => {
                    let (a, mut b) = (self.linear(x, a)?, self.linear(x, b)?);
                    if op == Bop::Sub {
                        let m = [self.int(-1), b];
                        b = self.keep(Z3_mk_mul(c, 2, m.as_ptr()));
                    }
                    let m = 1i128 << w;
                    let v = [a, b];
                    let sum = self.keep(Z3_mk_add(c, 2, v.as_ptr()));
                    let v = [sum, self.int(if op == Bop::Sub { m } else { -m })];
                    let wrapped = self.keep(Z3_mk_add(c, 2, v.as_ptr()));
                    let inside = if op == Bop::Sub {
                        self.keep(Z3_mk_ge(c, sum, self.int(0)))
                    } else {
                        self.keep(Z3_mk_le(c, sum, self.int(m - 1)))
                    };
                    self.keep(Z3_mk_ite(c, inside, sum, wrapped))
                }
                Node::Ite { w, c: cd, a, b } if w > 1 => {
                    let (cd, a, b) = (self.linear(x, cd)?, self.linear(x, a)?, self.linear(x, b)?);
                    self.keep(Z3_mk_ite(c, cd, a, b))
                }
                Node::Ge0 { t, c: k } => {
                    let s = self.lsum(x, t, k)?;
                    let z = self.int(0);
                    self.keep(Z3_mk_ge(c, s, z))
                }
                Node::Eq0 { t, c: k } => {
                    let s = self.lsum(x, t, k)?;
                    let z = self.int(0);
                    self.keep(Z3_mk_eq(c, s, z))
                }
                Node::Not(a) => {
                    let a = self.linear(x, a)?;
                    self.keep(Z3_mk_not(c, a))
                }
                Node::And(a, b) => {
                    let v = [self.linear(x, a)?, self.linear(x, b)?];
                    self.keep(Z3_mk_and(c, 2, v.as_ptr()))
                }
                Node::Or(a, b) => {
                    let v = [self.linear(x, a)?, self.linear(x, b)?];
                    self.keep(Z3_mk_or(c, 2, v.as_ptr()))
                }
                Node::Dom(v) => {
                    let (lo, hi) = x.ivx(X::S(v));
                    let t = self.linear(x, v)?;
                    let (l, h) = (self.int(lo as i128), self.int(hi as i128));
                    let v = [self.keep(Z3_mk_ge(c, t, l)), self.keep(Z3_mk_le(c, t, h))];
                    self.keep(Z3_mk_and(c, 2, v.as_ptr()))
                }
                _ => return None,
            })
        }
    }
    /// is path /\ cond satisfiable?  On Sat, `model` receives the input values.
    pub fn check(&mut self, x: &Exprs, path: &[E], cond: Option<E>, model: &mut Vec<u64>) -> R {
        let t0 = std::time::Instant::now();
        let lia = self.use_lia && cond.iter().chain(path.iter()).all(|&e| self.linear(x, e).is_some());
        self.lia_queries += lia as u64;
        let sv = if lia { self.li } else { self.s };
        unsafe {
            let mut stack = std::mem::take(if lia { &mut self.li_stack } else { &mut self.stack });
            let mut common = 0;
            while common < stack.len() && common < path.len() && stack[common] == path[common] {
                common += 1;
            }
            if common < stack.len() {
                Z3_solver_pop(self.c, sv, (stack.len() - common) as c_uint);
                stack.truncate(common);
            }
            for &e in &path[common..] {
                let b = if lia { self.linear(x, e).unwrap() } else { self.bl(x, e) };
                Z3_solver_push(self.c, sv);
                Z3_solver_assert(self.c, sv, b);
                stack.push(e);
            }
            *(if lia { &mut self.li_stack } else { &mut self.stack }) = stack;
            if let Some(e) = cond {
                let b = if lia { self.linear(x, e).unwrap() } else { self.bl(x, e) };
                Z3_solver_push(self.c, sv);
                Z3_solver_assert(self.c, sv, b);
            }
            self.queries += 1;
            let r = Z3_solver_check(self.c, sv);
            if let Some(d) = &self.dump {
                if self.queries % self.dump_every == 1 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, sv)).to_string_lossy();
                    let _ = std::fs::write(
                        d.join(format!("q{}_{}.smt2", std::process::id(), self.queries)),
                        format!("; expected {}\n(set-logic {})\n{s}\n(check-sat)\n", if r == 1 { "sat" } else { "unsat" }, if lia { "QF_LIA" } else { "QF_BV" }),
                    );
                }
            }
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, sv);
                    Z3_model_inc_ref(self.c, m);
                    // evaluate only variables in this path
                    let mut want: Vec<E> = vec![];
                    for &e in path {
                        if let Node::Dom(v) = x.nodes[e as usize] {
                            want.push(v);
                        }
                    }
                    for v in want {
                        let Node::Var { idx, lo, .. } = x.nodes[v as usize] else { unreachable!() };
                        let z = (if lia { &self.li_vars } else { &self.vars }).get(&v).copied();
                        let mut val = lo;
                        if let Some(z) = z {
                            let mut out: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, m, z, true, &mut out) {
                                Z3_get_numeral_uint64(self.c, out, &mut val);
                            }
                        }
                        if model.len() <= idx as usize {
                            model.resize(idx as usize + 1, 0);
                        }
                        model[idx as usize] = val;
                    }
                    Z3_model_dec_ref(self.c, m);
                    R::Sat
                }
                -1 => {
                    self.unsat += 1;
                    R::Unsat
                }
                _ => {
                    self.unknown += 1;
                    R::Unknown
                }
            };
            if cond.is_some() {
                Z3_solver_pop(self.c, sv, 1);
            }
            self.time += t0.elapsed();
            res
        }
    }
}
