//! Z3 back end (C API).  A query is a conjunction of 1-bit expressions.

use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type Ptr = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Ptr) -> Ptr;
    fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_int)>);
    fn Z3_get_error_msg(c: Ptr, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: Ptr, w: c_uint) -> Ptr;
    fn Z3_mk_int_symbol(c: Ptr, i: c_int) -> Ptr;
    fn Z3_mk_const(c: Ptr, s: Ptr, sort: Ptr) -> Ptr;
    fn Z3_mk_numeral(c: Ptr, s: *const c_char, sort: Ptr) -> Ptr;
    fn Z3_mk_unsigned_int64(c: Ptr, v: u64, sort: Ptr) -> Ptr;
    fn Z3_mk_true(c: Ptr) -> Ptr;
    fn Z3_mk_false(c: Ptr) -> Ptr;
    fn Z3_mk_not(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_xor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_ite(c: Ptr, a: Ptr, b: Ptr, d: Ptr) -> Ptr;
    fn Z3_mk_bvadd(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsub(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvmul(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvudiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsdiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvurem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsrem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvand(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvxor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvshl(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvlshr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvashr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvult(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvslt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_concat(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_sign_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_solver_for_logic(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_solver(c: Ptr) -> Ptr;
    fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    fn Z3_solver_dec_ref(c: Ptr, s: Ptr);
    fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ptr);
    fn Z3_solver_push(c: Ptr, s: Ptr);
    fn Z3_solver_pop(c: Ptr, s: Ptr, n: c_uint);
    fn Z3_solver_check(c: Ptr, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_solver_set_params(c: Ptr, s: Ptr, p: Ptr);
    fn Z3_mk_params(c: Ptr) -> Ptr;
    fn Z3_params_inc_ref(c: Ptr, p: Ptr);
    fn Z3_params_set_uint(c: Ptr, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    fn Z3_model_eval(c: Ptr, m: Ptr, t: Ptr, complete: bool, out: *mut Ptr) -> bool;
    fn Z3_get_numeral_uint64(c: Ptr, a: Ptr, out: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_double(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_sort_single(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_float(c: Ptr, rm: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_rna(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rtp(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rtn(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rne(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rtz(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_bv(c: Ptr, bv: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_ieee_bv(c: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_fpa_add(c: Ptr, rm: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_sub(c: Ptr, rm: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_mul(c: Ptr, rm: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_div(c: Ptr, rm: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_neg(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_fpa_abs(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_fpa_round_to_integral(c: Ptr, rm: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ptr, rm: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_signed(c: Ptr, rm: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_sbv(c: Ptr, rm: Ptr, t: Ptr, w: c_uint) -> Ptr;
    fn Z3_mk_fpa_to_ubv(c: Ptr, rm: Ptr, t: Ptr, w: c_uint) -> Ptr;
    fn Z3_mk_fpa_lt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_gt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_is_nan(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_int_sort(c: Ptr) -> Ptr;
    fn Z3_mk_real_sort(c: Ptr) -> Ptr;
    fn Z3_mk_add(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_mul(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_sub(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_lt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_le(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_int2real(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_div(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_mod(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fresh_const(c: Ptr, p: *const c_char, s: Ptr) -> Ptr;
}

extern "C" fn on_err(c: Ptr, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    LAST_ERR.store(e, std::sync::atomic::Ordering::SeqCst);
}
static LAST_ERR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub fp_queries: u64,
    pub relax_unsat: u64,
}

pub struct Solver {
    c: Ptr,
    simple: Ptr,
    strong: Ptr,
    fpsolver: Ptr,
    bvc: HashMap<E, Ptr>,
    blc: HashMap<E, Ptr>,
    fpc: HashMap<E, Ptr>,
    sorts: HashMap<u16, Ptr>,
    cache: HashMap<Box<[E]>, Res>,
    pub st: Stats,
    pub timeout_ms: u32,
    nq_since: u32,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver {
                c,
                simple: std::ptr::null_mut(),
                strong: std::ptr::null_mut(),
                fpsolver: std::ptr::null_mut(),
                bvc: HashMap::new(),
                blc: HashMap::new(),
                fpc: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                st: Stats::default(),
                timeout_ms,
                nq_since: 0,
            };
            let _ = seed;
            s.make_solvers();
            s
        }
    }
    fn params(&self, s: Ptr, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn make_solvers(&mut self) {
        unsafe {
            if !self.simple.is_null() {
                Z3_solver_dec_ref(self.c, self.simple);
            }
            self.simple = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.simple);
            self.params(self.simple, 300.min(self.timeout_ms));
        }
        self.nq_since = 0;
    }
    fn sort(&mut self, w: u16) -> Ptr {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w.into()) })
    }
    fn num(&mut self, v: u128, w: u16) -> Ptr {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s)
            }
        }
    }
    fn node(e: E) -> (Op, u16, u32, u128, Vec<E>) {
        with(|a| {
            let n = a.n(e);
            (n.op, n.w, n.aux, n.c, n.args.to_vec())
        })
    }
    /// Boolean view of a 1-bit expression
    fn bl(&mut self, e: E) -> Ptr {
        if let Some(&p) = self.blc.get(&e) {
            return p;
        }
        let (op, w, aux, c, a) = Self::node(e);
        debug_assert_eq!(w, 1);
        let cx = self.c;
        let r = unsafe {
            match op {
                Op::Const => {
                    if c == 1 {
                        Z3_mk_true(cx)
                    } else {
                        Z3_mk_false(cx)
                    }
                }
                Op::And => {
                    let v = [self.bl(a[0]), self.bl(a[1])];
                    Z3_mk_and(cx, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.bl(a[0]), self.bl(a[1])];
                    Z3_mk_or(cx, 2, v.as_ptr())
                }
                Op::Xor => {
                    if with(|ar| ar.cval(a[1])) == Some(1) {
                        let x = self.bl(a[0]);
                        Z3_mk_not(cx, x)
                    } else {
                        let (x, y) = (self.bl(a[0]), self.bl(a[1]));
                        Z3_mk_xor(cx, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.bl(a[0]), self.bl(a[1]), self.bl(a[2]));
                    Z3_mk_ite(cx, x, y, z)
                }
                Op::Eq => {
                    if with(|ar| ar.w(a[0])) == 1 {
                        let (x, y) = (self.bl(a[0]), self.bl(a[1]));
                        Z3_mk_eq(cx, x, y)
                    } else {
                        let (x, y) = (self.bv(a[0]), self.bv(a[1]));
                        Z3_mk_eq(cx, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.bv(a[0]), self.bv(a[1]));
                    Z3_mk_bvult(cx, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.bv(a[0]), self.bv(a[1]));
                    Z3_mk_bvslt(cx, x, y)
                }
                Op::FCmp => {
                    let (x, y) = (self.fp(a[0]), self.fp(a[1]));
                    let mut v = vec![];
                    if aux & FP_LT != 0 {
                        v.push(Z3_mk_fpa_lt(cx, x, y));
                    }
                    if aux & FP_EQ != 0 {
                        v.push(Z3_mk_fpa_eq(cx, x, y));
                    }
                    if aux & FP_GT != 0 {
                        v.push(Z3_mk_fpa_gt(cx, x, y));
                    }
                    if aux & FP_UNO != 0 {
                        v.push(Z3_mk_fpa_is_nan(cx, x));
                        v.push(Z3_mk_fpa_is_nan(cx, y));
                    }
                    Z3_mk_or(cx, v.len() as u32, v.as_ptr())
                }
                _ => {
                    let x = self.bv(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(cx, x, one)
                }
            }
        };
        self.blc.insert(e, r);
        r
    }
    fn bv(&mut self, e: E) -> Ptr {
        if let Some(&p) = self.bvc.get(&e) {
            return p;
        }
        let (op, w, aux, c, a) = Self::node(e);
        let cx = self.c;
        let r = unsafe {
            match op {
                Op::Const => self.num(c, w),
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(cx, Z3_mk_int_symbol(cx, aux as c_int), s)
                }
                Op::Eq | Op::Ult | Op::Slt | Op::FCmp => {
                    let b = self.bl(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(cx, b, o, z)
                }
                Op::And | Op::Or | Op::Xor | Op::Ite if w == 1 => {
                    let b = self.bl(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(cx, b, o, z)
                }
                Op::Ite => {
                    let (x, y, z) = (self.bl(a[0]), self.bv(a[1]), self.bv(a[2]));
                    Z3_mk_ite(cx, x, y, z)
                }
                Op::Concat => {
                    let mut r = self.bv(a[0]);
                    for &x in &a[1..] {
                        let y = self.bv(x);
                        r = Z3_mk_concat(cx, r, y);
                    }
                    r
                }
                Op::Extract => {
                    let x = self.bv(a[0]);
                    Z3_mk_extract(cx, aux + u32::from(w) - 1, aux, x)
                }
                Op::SExt => {
                    let x = self.bv(a[0]);
                    let n = w - with(|ar| ar.w(a[0]));
                    Z3_mk_sign_ext(cx, n.into(), x)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FNeg | Op::FAbs | Op::FTrunc | Op::FExt | Op::FNarrow | Op::UToF | Op::SToF => {
                    let x = self.fp(e);
                    Z3_mk_fpa_to_ieee_bv(cx, x)
                }
                Op::FToS | Op::FToU => {
                    // saturating semantics
                    let x = self.fp(a[0]);
                    let rtz = Z3_mk_fpa_rtz(cx);
                    let k = |v: f64, s: &mut Solver| {
                        let b = s.num(u128::from(v.to_bits()), 64);
                        Z3_mk_fpa_to_fp_bv(cx, b, Z3_mk_fpa_sort_double(cx))
                    };
                    let nan = Z3_mk_fpa_is_nan(cx, x);
                    let zero = self.num(0, w);
                    if op == Op::FToS {
                        let lo = k(-(2f64.powi(i32::from(w) - 1)), self);
                        let hi = k(2f64.powi(i32::from(w) - 1), self);
                        let conv = Z3_mk_fpa_to_sbv(cx, rtz, x, w.into());
                        let mn = self.num(1u128 << (w - 1), w);
                        let mx = self.num(mask(w - 1), w);
                        let t = Z3_mk_ite(cx, Z3_mk_fpa_lt(cx, x, lo), mn, conv);
                        let ge = Z3_mk_not(cx, Z3_mk_fpa_lt(cx, x, hi));
                        let t = Z3_mk_ite(cx, ge, mx, t);
                        Z3_mk_ite(cx, nan, zero, t)
                    } else {
                        let lo = k(0.0, self);
                        let hi = k(2f64.powi(i32::from(w)), self);
                        let conv = Z3_mk_fpa_to_ubv(cx, rtz, x, w.into());
                        let mx = self.num(mask(w), w);
                        let t = Z3_mk_ite(cx, Z3_mk_fpa_gt(cx, x, lo), conv, zero);
                        let ge = Z3_mk_not(cx, Z3_mk_fpa_lt(cx, x, hi));
                        let t = Z3_mk_ite(cx, ge, mx, t);
                        Z3_mk_ite(cx, nan, zero, t)
                    }
                }
                _ => {
                    let (x, y) = (self.bv(a[0]), self.bv(a[1]));
                    let f: unsafe extern "C" fn(Ptr, Ptr, Ptr) -> Ptr = match op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr,
                        _ => unreachable!(),
                    };
                    f(cx, x, y)
                }
            }
        };
        self.bvc.insert(e, r);
        r
    }
    fn fp(&mut self, e: E) -> Ptr {
        if let Some(&p) = self.fpc.get(&e) {
            return p;
        }
        let (op, w, aux, _c, a) = Self::node(e);
        let cx = self.c;
        let r = unsafe {
            let rne = Z3_mk_fpa_rne(cx);
            let ds = if w == 32 { Z3_mk_fpa_sort_single(cx) } else { Z3_mk_fpa_sort_double(cx) };
            match op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.fp(a[0]), self.fp(a[1]));
                    match op {
                        Op::FAdd => Z3_mk_fpa_add(cx, rne, x, y),
                        Op::FSub => Z3_mk_fpa_sub(cx, rne, x, y),
                        Op::FMul => Z3_mk_fpa_mul(cx, rne, x, y),
                        _ => Z3_mk_fpa_div(cx, rne, x, y),
                    }
                }
                Op::FNeg => {
                    let x = self.fp(a[0]);
                    Z3_mk_fpa_neg(cx, x)
                }
                Op::FAbs => {
                    let x = self.fp(a[0]);
                    Z3_mk_fpa_abs(cx, x)
                }
                Op::FTrunc => {
                    let x = self.fp(a[0]);
                    let rm = match aux {
                        0 => Z3_mk_fpa_rtz(cx),
                        1 => Z3_mk_fpa_rtn(cx),
                        2 => Z3_mk_fpa_rtp(cx),
                        3 => Z3_mk_fpa_rna(cx),
                        _ => rne,
                    };
                    Z3_mk_fpa_round_to_integral(cx, rm, x)
                }
                Op::FExt | Op::FNarrow => {
                    let x = self.fp(a[0]);
                    Z3_mk_fpa_to_fp_float(cx, rne, x, ds)
                }
                Op::UToF => {
                    let x = self.bv(a[0]);
                    Z3_mk_fpa_to_fp_unsigned(cx, rne, x, ds)
                }
                Op::SToF => {
                    let x = self.bv(a[0]);
                    Z3_mk_fpa_to_fp_signed(cx, rne, x, ds)
                }
                Op::Ite => {
                    let (x, y, z) = (self.bl(a[0]), self.fp(a[1]), self.fp(a[2]));
                    Z3_mk_ite(cx, x, y, z)
                }
                Op::FRem => panic!("frem unsupported"),
                _ => {
                    let x = self.bv(e);
                    Z3_mk_fpa_to_fp_bv(cx, x, ds)
                }
            }
        };
        self.fpc.insert(e, r);
        r
    }

    /// Decide the conjunction of `q`.  `q` must be sorted and deduplicated.
    pub fn check(&mut self, q: &[E]) -> Res {
        if let Some(r) = self.cache.get(q) {
            self.st.cached += 1;
            return r.clone();
        }
        let fp = with(|a| q.iter().any(|&e| a.n(e).fp));
        let t0 = Instant::now();
        LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
        let mut vars: Vec<u32> = vec![];
        with(|a| {
            for &e in q {
                vars.extend_from_slice(&a.n(e).support);
            }
        });
        vars.sort_unstable();
        vars.dedup();
        let res = if fp {
            self.st.fp_queries += 1;
            self.check_fp(q, &vars)
        } else {
            self.check_bv(q, &vars)
        };
        let res = if LAST_ERR.load(std::sync::atomic::Ordering::SeqCst) != 0 { Res::Unknown } else { res };
        let us = t0.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        if std::env::var_os("IRSYM_SLOWQ").is_some() && us > std::env::var("IRSYM_SLOWQ").unwrap().parse().unwrap_or(200_000) {
            eprintln!("slow query {us}us size {} vars {} -> {}", q.len(), vars.len(), match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown => "unknown" });
            for &e in q {
                eprintln!("   {}", with(|a| a.show(e, 6)));
            }
        }
        match res {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(q.into(), res.clone());
        res
    }
    /// The linear translation alone (for the self test).
    pub fn check_lin_only(&mut self, q: &[E]) -> Res {
        let mut vars: Vec<u32> = vec![];
        with(|a| {
            for &e in q {
                vars.extend_from_slice(&a.n(e).support);
            }
        });
        vars.sort_unstable();
        vars.dedup();
        LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
        match self.check_lin(q, &vars, 1000) {
            Some(r) if LAST_ERR.load(std::sync::atomic::Ordering::SeqCst) == 0 => r,
            _ => Res::Unknown,
        }
    }
    unsafe fn model(&mut self, s: Ptr, vars: &[u32]) -> Rc<Vec<(u32, u8)>> {
        let m = Z3_solver_get_model(self.c, s);
        Z3_model_inc_ref(self.c, m);
        let mut out = Vec::with_capacity(vars.len());
        for &v in vars {
            let e = with(|a| a.var(v));
            let t = self.bv(e);
            let mut r: Ptr = std::ptr::null_mut();
            let ok = Z3_model_eval(self.c, m, t, true, &mut r);
            assert!(ok);
            let mut n = 0u64;
            Z3_get_numeral_uint64(self.c, r, &mut n);
            out.push((v, n as u8));
        }
        Z3_model_dec_ref(self.c, m);
        Rc::new(out)
    }
    fn check_bv(&mut self, q: &[E], vars: &[u32]) -> Res {
        unsafe {
            let c = self.c;
            let lia = q.iter().any(|&e| has_div(e));
            if lia {
                if let Some(r) = self.check_lin(q, vars, 2000.min(self.timeout_ms)) {
                    return r;
                }
                LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
            }
            let asts: Vec<Ptr> = q.iter().map(|&e| self.bl(e)).collect();
            self.nq_since += 1;
            if self.nq_since > 2000 {
                self.make_solvers();
            }
            let s = self.simple;
            Z3_solver_push(c, s);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => Some(Res::Sat(self.model(s, vars))),
                -1 => Some(Res::Unsat),
                _ => None,
            };
            Z3_solver_pop(c, s, 1);
            if let Some(o) = out {
                return o;
            }
            LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
            if q.iter().any(|&e| has_arith(e)) {
                if let Some(r) = self.check_lin(q, vars, self.timeout_ms / 2) {
                    return r;
                }
                LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
            }
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, s);
            self.params(s, self.timeout_ms);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => Res::Sat(self.model(s, vars)),
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            out
        }
    }
    fn check_fp(&mut self, q: &[E], vars: &[u32]) -> Res {
        unsafe {
            let c = self.c;
            if let Some(r) = self.check_lin(q, vars, self.timeout_ms / 2) {
                return r;
            }
            LAST_ERR.store(0, std::sync::atomic::Ordering::SeqCst);
            let asts: Vec<Ptr> = q.iter().map(|&e| self.bl(e)).collect();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_FPBV").as_ptr()));
            Z3_solver_inc_ref(c, s);
            self.params(s, self.timeout_ms);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => Res::Sat(self.model(s, vars)),
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            out
        }
    }
}

fn has_op(e: E, ops: &[Op]) -> bool {
    fn rec(e: E, ops: &[Op], seen: &mut std::collections::HashSet<E>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        let (op, args) = with(|a| (a.n(e).op, a.n(e).args.clone()));
        ops.contains(&op) || args.iter().any(|&x| rec(x, ops, seen))
    }
    rec(e, ops, &mut Default::default())
}
fn has_arith(e: E) -> bool {
    has_op(e, &[Op::UDiv, Op::URem, Op::Mul])
}
fn has_div(e: E) -> bool {
    has_op(e, &[Op::UDiv, Op::URem])
}

/// Translation of bit-vector terms to integers (exact) and of IEEE doubles to
/// reals with an absolute rounding-error bound per operation (an
/// over-approximation: `unsat` carries over, models are re-checked).
struct Lin<'a> {
    s: &'a mut Solver,
    iv: HashMap<E, Ptr>,
    bo: HashMap<E, Ptr>,
    re: HashMap<E, (Ptr, f64)>, // term, bound on the absolute value
    dm: HashMap<(Ptr, String), (Ptr, Ptr)>,
    divs: HashMap<Ptr, Vec<u128>>,
    quo: HashMap<Ptr, (Ptr, u128)>, // quotients: dividend, divisor
    side: Vec<Ptr>,
    real: bool,
}

fn pow2(k: u16) -> String {
    if k < 127 {
        (1u128 << k).to_string()
    } else {
        // only reached for widths up to 256
        let mut d = vec![1u8];
        for _ in 0..k {
            let mut c = 0;
            for x in d.iter_mut() {
                let v = *x * 2 + c;
                *x = v % 10;
                c = v / 10;
            }
            if c > 0 {
                d.push(c);
            }
        }
        d.iter().rev().map(|x| (b'0' + x) as char).collect()
    }
}

impl Lin<'_> {
    fn inum(&mut self, v: &str) -> Ptr {
        unsafe { Z3_mk_numeral(self.s.c, cs(v).as_ptr(), Z3_mk_int_sort(self.s.c)) }
    }
    fn rnum(&mut self, v: f64) -> Ptr {
        // exact rational
        let s = if v == 0.0 {
            "0".to_string()
        } else {
            let b = v.abs().to_bits();
            let e = ((b >> 52) as i32).max(1) - 1075;
            let m = if b >> 52 == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | 1 << 52 };
            let sg = if v < 0.0 { "-" } else { "" };
            let (mut m, mut e) = (m, e);
            while m % 2 == 0 && e < 0 {
                m /= 2;
                e += 1;
            }
            if e >= 0 {
                // m * 2^e
                if e < 70 {
                    format!("{sg}{}", u128::from(m) << e)
                } else {
                    format!("{sg}{}", pow2(200))
                }
            } else {
                format!("{sg}{m}/{}", pow2((-e).min(1100) as u16))
            }
        };
        unsafe { Z3_mk_numeral(self.s.c, cs(&s).as_ptr(), Z3_mk_real_sort(self.s.c)) }
    }
    fn fresh(&mut self, real: bool) -> Ptr {
        unsafe {
            let c = self.s.c;
            Z3_mk_fresh_const(c, cs("l").as_ptr(), if real { Z3_mk_real_sort(c) } else { Z3_mk_int_sort(c) })
        }
    }
    fn add(&self, v: &[Ptr]) -> Ptr {
        if v.len() == 1 {
            return v[0];
        }
        unsafe { Z3_mk_add(self.s.c, v.len() as u32, v.as_ptr()) }
    }
    fn sub(&self, a: Ptr, b: Ptr) -> Ptr {
        unsafe { Z3_mk_sub(self.s.c, 2, [a, b].as_ptr()) }
    }
    fn mul(&self, a: Ptr, b: Ptr) -> Ptr {
        unsafe { Z3_mk_mul(self.s.c, 2, [a, b].as_ptr()) }
    }
    fn le(&self, a: Ptr, b: Ptr) -> Ptr {
        unsafe { Z3_mk_le(self.s.c, a, b) }
    }
    fn lt(&self, a: Ptr, b: Ptr) -> Ptr {
        unsafe { Z3_mk_lt(self.s.c, a, b) }
    }
    fn and(&self, v: &[Ptr]) -> Ptr {
        unsafe { Z3_mk_and(self.s.c, v.len() as u32, v.as_ptr()) }
    }
    fn divmod(&mut self, x: Ptr, c: &str, qmax: Option<u128>) -> (Ptr, Ptr) {
        if let Some(r) = self.dm.get(&(x, c.to_string())) {
            return *r;
        }
        // the quotient of a quotient is one of the first dividend
        let shared = match (self.quo.get(&x).cloned(), c.parse::<u128>()) {
            (Some((y, c1)), Ok(c2)) => c1.checked_mul(c2).map(|p| (y, p)),
            _ => None,
        };
        // divisors of the same dividend that divide one another: one division from the other
        if let (None, Ok(k)) = (shared, c.parse::<u128>()) {
            let ds = self.divs.entry(x).or_default().clone();
            self.divs.get_mut(&x).unwrap().push(k);
            if let Some(&m) = ds.iter().filter(|&&m| m % k == 0 && m != k).min() {
                let (q1, r1) = self.dm[&(x, m.to_string())];
                let (q2, r) = self.divmod(r1, c, Some((m - 1) / k));
                let f = self.inum(&(m / k).to_string());
                let t = self.mul(f, q1);
                let q = self.add(&[t, q2]);
                self.quo.insert(q, (x, k));
                self.dm.insert((x, c.to_string()), (q, r));
                return (q, r);
            }
            if let Some(&m) = ds.iter().filter(|&&m| k % m == 0 && m != k).max() {
                let (q1, r1) = self.dm[&(x, m.to_string())];
                let (q, r2) = self.divmod_raw(q1, &(k / m).to_string(), qmax);
                let f = self.inum(&m.to_string());
                let t = self.mul(f, r2);
                let r = self.add(&[t, r1]);
                self.quo.insert(q, (x, k));
                self.dm.insert((x, c.to_string()), (q, r));
                return (q, r);
            }
        }
        let (q, r) = match shared {
            Some((y, p)) => (self.divmod(y, &p.to_string(), qmax).0, self.fresh(false)),
            None => (self.fresh(false), self.fresh(false)),
        };
        if shared.is_none() {
            if let Ok(k) = c.parse::<u128>() {
                self.quo.insert(q, (x, k));
            }
        }
        self.dm_side(x, c, q, r, qmax);
        self.dm.insert((x, c.to_string()), (q, r));
        (q, r)
    }
    fn divmod_raw(&mut self, x: Ptr, c: &str, qmax: Option<u128>) -> (Ptr, Ptr) {
        let (q, r) = (self.fresh(false), self.fresh(false));
        self.dm_side(x, c, q, r, qmax);
        (q, r)
    }
    fn dm_side(&mut self, x: Ptr, c: &str, q: Ptr, r: Ptr, qmax: Option<u128>) {
        let k = self.inum(c);
        let z = self.inum("0");
        let kq = self.mul(k, q);
        let sum = self.add(&[kq, r]);
        unsafe {
            let e = Z3_mk_eq(self.s.c, x, sum);
            self.side.push(e);
        }
        let a = self.le(z, r);
        let b = self.lt(r, k);
        self.side.push(a);
        self.side.push(b);
        if let Some(m) = qmax {
            let mm = self.inum(&m.to_string());
            let a = self.le(z, q);
            let b = self.le(q, mm);
            self.side.push(a);
            self.side.push(b);
        }
    }
    fn int(&mut self, e: E) -> Option<Ptr> {
        if let Some(&p) = self.iv.get(&e) {
            return Some(p);
        }
        let (op, w, aux, c, a) = Solver::node(e);
        let (umin, umax) = with(|ar| (ar.n(e).umin, ar.n(e).umax));
        let rng = |x: E| with(|ar| (ar.n(x).umin, ar.n(x).umax, ar.n(x).ones, ar.w(x)));
        let cv = |x: E| with(|ar| ar.cval(x));
        let cx = self.s.c;
        let r = match op {
            Op::Const => self.inum(&c.to_string()),
            Op::Var => {
                let v = self.fresh(false);
                let (z, m) = (self.inum("0"), self.inum("255"));
                let (x, y) = (self.le(z, v), self.le(v, m));
                self.side.push(x);
                self.side.push(y);
                v
            }
            _ if w == 1 => {
                let b = self.boolean(e)?;
                let (o, z) = (self.inum("1"), self.inum("0"));
                unsafe { Z3_mk_ite(cx, b, o, z) }
            }
            Op::Add => {
                let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                let s = self.add(&[x, y]);
                if rng(a[0]).1.checked_add(rng(a[1]).1).is_some_and(|v| v <= mask(w)) {
                    s
                } else {
                    self.divmod(s, &pow2(w), Some(1)).1
                }
            }
            Op::Sub => {
                let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                let d = self.sub(x, y);
                if rng(a[0]).0 >= rng(a[1]).1 {
                    d
                } else if rng(a[0]).1 < rng(a[1]).0 {
                    let m = self.inum(&pow2(w));
                    self.add(&[d, m])
                } else {
                    let m = self.inum(&pow2(w));
                    let lt = self.lt(x, y);
                    let dm = self.add(&[d, m]);
                    let t = self.fresh(false);
                    unsafe {
                        let i = Z3_mk_ite(cx, lt, dm, d);
                        let q = Z3_mk_eq(cx, t, i);
                        self.side.push(q);
                    }
                    t
                }
            }
            Op::Mul => {
                let k = cv(a[1])?;
                let x = self.int(a[0])?;
                let kk = self.inum(&k.to_string());
                let p = self.mul(kk, x);
                if rng(a[0]).1.checked_mul(k).is_some_and(|v| v <= mask(w)) {
                    p
                } else {
                    self.divmod(p, &pow2(w), None).1
                }
            }
            Op::UDiv | Op::URem => {
                let k = cv(a[1])?;
                if k == 0 {
                    return None;
                }
                let x = self.int(a[0])?;
                let (q, r) = self.divmod(x, &k.to_string(), Some(rng(a[0]).1 / k));
                if op == Op::UDiv {
                    q
                } else {
                    r
                }
            }
            Op::Concat => {
                let mut v = vec![];
                let mut top = w;
                for &p in &a {
                    let pw = with(|ar| ar.w(p));
                    top -= pw;
                    if cv(p) == Some(0) {
                        continue;
                    }
                    let x = self.int(p)?;
                    if top == 0 {
                        v.push(x);
                    } else {
                        let k = self.inum(&pow2(top));
                        let t = self.mul(k, x);
                        v.push(t);
                    }
                }
                if v.is_empty() {
                    self.inum("0")
                } else {
                    self.add(&v)
                }
            }
            Op::Extract => {
                let x = self.int(a[0])?;
                let (_, xmax, _, _) = rng(a[0]);
                let lo = aux as u16;
                let mut t = x;
                if lo > 0 {
                    t = self.divmod(x, &pow2(lo), Some(xmax >> lo)).0;
                }
                if xmax >> lo > mask(w) {
                    t = self.divmod(t, &pow2(w), Some((xmax >> lo) >> w)).1;
                }
                t
            }
            Op::And => {
                let k = cv(a[1])?;
                let tz = k.trailing_zeros() as u16;
                let m = k >> tz;
                if k == 0 || m & (m + 1) != 0 {
                    return None;
                }
                let n = (128 - m.leading_zeros()) as u16;
                let x = with(|ar| ar.extract(a[0], tz, n));
                let t = self.int(x)?;
                if tz > 0 {
                    let kk = self.inum(&pow2(tz));
                    self.mul(kk, t)
                } else {
                    t
                }
            }
            Op::Or | Op::Xor => {
                if op == Op::Xor && cv(a[1]) == Some(mask(w)) {
                    let x = self.int(a[0])?;
                    let m = self.inum(&mask(w).to_string());
                    self.sub(m, x)
                } else if rng(a[0]).2 & rng(a[1]).2 == 0 {
                    let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                    self.add(&[x, y])
                } else {
                    return None;
                }
            }
            Op::Ite => {
                let (c, x, y) = (self.boolean(a[0])?, self.int(a[1])?, self.int(a[2])?);
                let i = unsafe { Z3_mk_ite(cx, c, x, y) };
                let t = self.fresh(false);
                let q = unsafe { Z3_mk_eq(cx, t, i) };
                self.side.push(q);
                let (l, h) = (self.inum(&umin.to_string()), self.inum(&umax.to_string()));
                let (p, q) = (self.le(l, t), self.le(t, h));
                self.side.push(p);
                self.side.push(q);
                t
            }
            Op::SExt => {
                let iw = rng(a[0]).3;
                let x = self.int(a[0])?;
                let h = self.inum(&pow2(iw - 1));
                let neg = self.le(h, x);
                let d = self.inum(&(mask(w) - mask(iw)).to_string());
                let y = self.add(&[x, d]);
                unsafe { Z3_mk_ite(cx, neg, y, x) }
            }
            Op::FToS | Op::FToU => {
                let (x, b) = self.fl(a[0])?;
                if b >= 2f64.powi(i32::from(w) - 2) {
                    return None;
                }
                let t = self.fresh(false);
                self.trunc_rel(x, t);
                if op == Op::FToU {
                    let z = self.inum("0");
                    let n = self.lt(t, z);
                    return Some(unsafe { Z3_mk_ite(cx, n, z, t) });
                }
                let z = self.inum("0");
                let n = self.lt(t, z);
                let m = self.inum(&pow2(w));
                let tm = self.add(&[t, m]);
                unsafe { Z3_mk_ite(cx, n, tm, t) }
            }
            _ => return None,
        };
        self.iv.insert(e, r);
        Some(r)
    }
    /// t = trunc(x)
    fn trunc_rel(&mut self, x: Ptr, t: Ptr) {
        unsafe {
            let cx = self.s.c;
            let tr = Z3_mk_int2real(cx, t);
            let one = self.rnum(1.0);
            let zero = self.rnum(0.0);
            let up = self.add(&[tr, one]);
            let dn = self.sub(tr, one);
            let p = self.and(&[self.le(zero, x), self.le(tr, x), self.lt(x, up)]);
            let n = self.and(&[self.lt(x, zero), self.lt(dn, x), self.le(x, tr)]);
            let o = Z3_mk_or(cx, 2, [p, n].as_ptr());
            self.side.push(o);
        }
    }
    /// exact real `x` (|x| <= b) rounded to double
    fn rounded(&mut self, x: Ptr, b: f64) -> (Ptr, f64) {
        self.near(x, b, b * 2f64.powi(-52) + f64::MIN_POSITIVE)
    }
    /// exact real `x` (|x| <= b <= 1e30) rounded to single
    fn single(&mut self, x: Ptr, b: f64) -> (Ptr, f64) {
        self.near(x, b, b * 2f64.powi(-23) + 1e-37)
    }
    /// a value within `d` of `x`
    fn near(&mut self, x: Ptr, b: f64, d: f64) -> (Ptr, f64) {
        let r = self.fresh(true);
        let dd = self.rnum(d);
        let (lo, hi) = (self.sub(x, dd), self.add(&[x, dd]));
        let (p, q) = (self.le(lo, r), self.le(r, hi));
        self.side.push(p);
        self.side.push(q);
        (r, b + 2.0 * d)
    }
    fn fl(&mut self, e: E) -> Option<(Ptr, f64)> {
        if let Some(&p) = self.re.get(&e) {
            return Some(p);
        }
        self.real = true;
        let (op, w0, aux, c, a) = Solver::node(e);
        let cx = self.s.c;
        let r = match op {
            Op::Const => {
                let v = if w0 == 32 { f64::from(f32::from_bits(c as u32)) } else { f64::from_bits(c as u64) };
                if v.is_nan() {
                    return None;
                }
                if v.is_infinite() || v.abs() > 1e30 {
                    // larger than every bounded value below
                    let p = unsafe { Z3_mk_numeral(cx, cs(&format!("{}{}", if v < 0.0 { "-" } else { "" }, pow2(200))).as_ptr(), Z3_mk_real_sort(cx)) };
                    (p, f64::INFINITY)
                } else {
                    (self.rnum(v), v.abs())
                }
            }
            Op::UToF | Op::SToF => {
                let w = with(|ar| ar.w(a[0]));
                let (umax, x) = (with(|ar| ar.n(a[0]).umax), self.int(a[0])?);
                let signed = op == Op::SToF && umax >> (w - 1) != 0;
                let minus = match Solver::node(a[0]) {
                    (Op::Sub, _, _, _, s) if signed && with(|ar| ar.cval(s[0])) == Some(0) && with(|ar| ar.n(s[1]).umax) <= 1 << (w - 1) => Some(s[1]),
                    _ => None,
                };
                let v = if let Some(y) = minus {
                    let y = self.int(y)?;
                    let z = self.inum("0");
                    self.sub(z, y)
                } else if signed {
                    let h = self.inum(&pow2(w - 1));
                    let n = self.le(h, x);
                    let m = self.inum(&pow2(w));
                    let y = self.sub(x, m);
                    unsafe { Z3_mk_ite(cx, n, y, x) }
                } else {
                    x
                };
                let b = if let Some(y) = minus { with(|ar| ar.n(y).umax) as f64 } else if signed { 2f64.powi(i32::from(w)) } else { umax as f64 };
                let x = unsafe { Z3_mk_int2real(cx, v) };
                if w0 == 32 && b > 1.6e7 {
                    self.single(x, b * 1.01)
                } else if b <= 9e15 {
                    (x, b)
                } else {
                    self.rounded(x, b * 1.01)
                }
            }
            Op::FAdd | Op::FSub => {
                let ((x, bx), (y, by)) = (self.fl(a[0])?, self.fl(a[1])?);
                if bx + by > 1e30 {
                    return None;
                }
                let t = if op == Op::FAdd { self.add(&[x, y]) } else { self.sub(x, y) };
                self.rounded(t, (bx + by) * 1.0001)
            }
            Op::FMul | Op::FDiv => {
                let kc = with(|ar| ar.cval(a[1]));
                let (x, bx) = self.fl(a[0])?;
                let k = f64::from_bits(kc? as u64);
                if !k.is_finite() || k == 0.0 || k.abs() > 1e15 || k.abs() < 1e-15 || bx > 1e15 {
                    return None;
                }
                let kk = self.rnum(k);
                if op == Op::FMul {
                    let t = self.mul(kk, x);
                    self.rounded(t, bx * k.abs() * 1.0001)
                } else {
                    let t = unsafe { Z3_mk_div(cx, x, kk) };
                    self.rounded(t, bx / k.abs() * 1.0001)
                }
            }
            Op::FExt => self.fl(a[0])?,
            Op::FNarrow => {
                let (x, b) = self.fl(a[0])?;
                if b > 1e30 {
                    return None;
                }
                self.single(x, b)
            }
            Op::FNeg => {
                let (x, b) = self.fl(a[0])?;
                let z = self.rnum(0.0);
                (self.sub(z, x), b)
            }
            Op::FAbs => {
                let (x, b) = self.fl(a[0])?;
                let z = self.rnum(0.0);
                let n = self.sub(z, x);
                let l = self.lt(x, z);
                (unsafe { Z3_mk_ite(cx, l, n, x) }, b)
            }
            Op::FTrunc => {
                let (x, b) = self.fl(a[0])?;
                if b > 1e15 {
                    return None;
                }
                let t = self.fresh(false);
                if aux == 0 {
                    self.trunc_rel(x, t);
                } else {
                    let tr = unsafe { Z3_mk_int2real(cx, t) };
                    // t - dn <= x <= t + up, both sides taken as reachable
                    let (dn, up) = [(0.0, 1.0), (1.0, 0.0), (0.5, 0.5), (0.5, 0.5)][aux as usize - 1];
                    let (dn, up) = (self.rnum(dn), self.rnum(up));
                    let p = [self.le(self.sub(tr, dn), x), self.le(x, self.add(&[tr, up]))];
                    self.side.extend_from_slice(&p);
                }
                (unsafe { Z3_mk_int2real(cx, t) }, b + 1.0)
            }
            Op::Ite => {
                let (c, (x, bx), (y, by)) = (self.boolean(a[0])?, self.fl(a[1])?, self.fl(a[2])?);
                (unsafe { Z3_mk_ite(cx, c, x, y) }, bx.max(by))
            }
            _ => return None,
        };
        self.re.insert(e, r);
        Some(r)
    }
    fn boolean(&mut self, e: E) -> Option<Ptr> {
        if let Some(&p) = self.bo.get(&e) {
            return Some(p);
        }
        let (op, _w, aux, c, a) = Solver::node(e);
        let cx = self.s.c;
        let aw = |i: usize| with(|ar| ar.w(a[i]));
        let r = unsafe {
            match op {
                Op::Const => {
                    if c == 1 {
                        Z3_mk_true(cx)
                    } else {
                        Z3_mk_false(cx)
                    }
                }
                Op::And => {
                    let v = [self.boolean(a[0])?, self.boolean(a[1])?];
                    Z3_mk_and(cx, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(a[0])?, self.boolean(a[1])?];
                    Z3_mk_or(cx, 2, v.as_ptr())
                }
                Op::Xor => {
                    let (x, y) = (self.boolean(a[0])?, self.boolean(a[1])?);
                    if with(|ar| ar.cval(a[1])) == Some(1) {
                        Z3_mk_not(cx, x)
                    } else {
                        Z3_mk_xor(cx, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(a[0])?, self.boolean(a[1])?, self.boolean(a[2])?);
                    Z3_mk_ite(cx, x, y, z)
                }
                Op::Eq if aw(0) == 1 => {
                    let (x, y) = (self.boolean(a[0])?, self.boolean(a[1])?);
                    Z3_mk_eq(cx, x, y)
                }
                Op::Eq => {
                    let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                    Z3_mk_eq(cx, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                    self.lt(x, y)
                }
                Op::Slt => {
                    let w = aw(0);
                    let (x, y) = (self.int(a[0])?, self.int(a[1])?);
                    let h = self.inum(&pow2(w - 1));
                    let m = self.inum(&pow2(w));
                    let sg = |l: &Self, t: Ptr| {
                        let n = l.le(h, t);
                        Z3_mk_ite(cx, n, l.sub(t, m), t)
                    };
                    let (p, q) = (sg(self, x), sg(self, y));
                    self.lt(p, q)
                }
                Op::FCmp => {
                    let ((x, bx), (y, by)) = (self.fl(a[0])?, self.fl(a[1])?);
                    if bx.is_infinite() && by.is_infinite() {
                        return None;
                    }
                    let mut v = vec![];
                    if aux & FP_LT != 0 {
                        v.push(self.lt(x, y));
                    }
                    if aux & FP_EQ != 0 {
                        v.push(Z3_mk_eq(cx, x, y));
                    }
                    if aux & FP_GT != 0 {
                        v.push(self.lt(y, x));
                    }
                    // bounded reals are never NaN
                    Z3_mk_or(cx, v.len() as u32, v.as_ptr())
                }
                _ => {
                    let x = match op {
                        Op::Extract | Op::And | Op::UDiv | Op::URem => {
                            // 1-bit slice of a wider term
                            let inner = a[0];
                            if op != Op::Extract {
                                return None;
                            }
                            let t = self.int(inner)?;
                            let xmax = with(|ar| ar.n(inner).umax);
                            let lo = aux as u16;
                            let mut t2 = t;
                            if lo > 0 {
                                t2 = self.divmod(t, &pow2(lo), Some(xmax >> lo)).0;
                            }
                            if xmax >> lo > 1 {
                                t2 = self.divmod(t2, "2", Some((xmax >> lo) >> 1)).1;
                            }
                            t2
                        }
                        _ => return None,
                    };
                    let one = self.inum("1");
                    Z3_mk_eq(cx, x, one)
                }
            }
        };
        self.bo.insert(e, r);
        Some(r)
    }
}

impl Solver {
    fn check_lin(&mut self, q: &[E], vars: &[u32], ms: u32) -> Option<Res> {
        let c = self.c;
        let mut l = Lin {
            s: self,
            iv: HashMap::new(),
            bo: HashMap::new(),
            re: HashMap::new(),
            dm: HashMap::new(),
            quo: HashMap::new(),
            divs: HashMap::new(),
            side: vec![],
            real: false,
        };
        let mut asts = vec![];
        for &e in q {
            asts.push(l.boolean(e)?);
        }
        let ve: Vec<E> = vars.iter().map(|&v| with(|a| a.var(v))).collect();
        let mut vt = vec![];
        for &e in &ve {
            vt.push(l.int(e)?);
        }
        asts.extend_from_slice(&l.side);
        let real = l.real;
        unsafe {
            let s = if real { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_LIA").as_ptr())) };
            Z3_solver_inc_ref(c, s);
            self.params(s, ms);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                -1 => {
                    self.st.relax_unsat += 1;
                    Some(Res::Unsat)
                }
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    let mut bytes = vec![];
                    for (i, &v) in vars.iter().enumerate() {
                        let mut t: Ptr = std::ptr::null_mut();
                        Z3_model_eval(c, m, vt[i], true, &mut t);
                        let mut n = 0u64;
                        Z3_get_numeral_uint64(c, t, &mut n);
                        out.push((v, n as u8));
                        if bytes.len() <= v as usize {
                            bytes.resize(v as usize + 1, 0);
                        }
                        bytes[v as usize] = n as u8;
                    }
                    Z3_model_dec_ref(c, m);
                    let mut memo = HashMap::new();
                    if with(|a| q.iter().all(|&e| a.eval(e, &bytes, &mut memo) == 1)) {
                        Some(Res::Sat(Rc::new(out)))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            Z3_solver_dec_ref(c, s);
            out
        }
    }
}
