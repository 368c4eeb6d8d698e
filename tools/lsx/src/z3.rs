//! Thin binding of libz3, and the translation of expressions to its terms.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_error(c: P, e: c_int) {
    unsafe { eprintln!("z3 error {}: {:?}", e, std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e))); }
    std::process::exit(3);
}
pub struct Z3 { c: P, s: P, bv: Vec<P>, bo: Vec<P>, sorts: FxMap<u16, P>, one: P, zero: P }
pub enum Answer { Unsat, Sat(Vec<(u32, u8)>), Unknown }
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let mut z = Z3 { c, s, bv: vec![], bo: vec![], sorts: FxMap::default(), one: std::ptr::null_mut(), zero: std::ptr::null_mut() };
            z.one = z.num(1, 1);
            z.zero = z.num(0, 1);
            z
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_inc_ref(c, s); s })
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a); } a }
    fn num(&mut self, v: u128, w: u16) -> P { let s = self.sort(w); let t = CString::new(v.to_string()).unwrap(); let r = unsafe { Z3_mk_numeral(self.c, t.as_ptr(), s) }; self.keep(r) }
    /// width-1 expression as a Boolean term
    pub fn bool(&mut self, p: &Pool, i: Id) -> P {
        if self.bo.len() < p.n.len() { self.bo.resize(p.n.len(), std::ptr::null_mut()); }
        let r = self.bo[i as usize];
        if !r.is_null() { return r; }
        let c = self.c;
        debug_assert!(p.w(i) == 1);
        let r = unsafe { match p.e(i) {
            E::Const(k) => if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            E::Bin(op, a, b) if p.w(a) == 1 => {
                let (x, y) = (self.bool(p, a), self.bool(p, b));
                match op {
                    Op::And | Op::Mul => Z3_mk_and(c, 2, [x, y].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                    Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, x, y),
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult | Op::Slt => { let n = Z3_mk_not(c, if op == Op::Ult { x } else { y }); Z3_inc_ref(c, n); Z3_mk_and(c, 2, [n, if op == Op::Ult { y } else { x }].as_ptr()) }
                    Op::Ule | Op::Sle => { let n = Z3_mk_not(c, if op == Op::Ule { x } else { y }); Z3_inc_ref(c, n); Z3_mk_or(c, 2, [n, if op == Op::Ule { y } else { x }].as_ptr()) }
                    _ => { let t = self.bv(p, i); Z3_mk_eq(c, t, self.one) }
                }
            }
            E::Bin(op, a, b) => {
                let (x, y) = (self.bv(p, a), self.bv(p, b));
                match op { Op::Eq => Z3_mk_eq(c, x, y), Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y), _ => unreachable!() }
            }
            E::Ite(x, a, b) => { let (x, a, b) = (self.bool(p, x), self.bool(p, a), self.bool(p, b)); Z3_mk_ite(c, x, a, b) }
            E::Extract(a, lo) => { let x = self.bv(p, a); let t = Z3_mk_extract(c, lo as c_uint, lo as c_uint, x); Z3_inc_ref(c, t); Z3_mk_eq(c, t, self.one) }
            _ => { eprintln!("lsx: width-1 {:?}", p.e(i)); std::process::exit(3) }
        } };
        self.keep(r);
        self.bo[i as usize] = r;
        r
    }
    pub fn bv(&mut self, p: &Pool, i: Id) -> P {
        if self.bv.len() < p.n.len() { self.bv.resize(p.n.len(), std::ptr::null_mut()); }
        let r = self.bv[i as usize];
        if !r.is_null() { return r; }
        let c = self.c;
        let w = p.w(i);
        let r = unsafe {
            let direct1 = matches!(p.e(i), E::Const(_)) || matches!(p.e(i), E::Bin(Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr, _, _));
            if w == 1 && !direct1 { let x = self.bool(p, i); Z3_mk_ite(c, x, self.one, self.zero) } else {
            match p.e(i) {
                E::Const(k) => self.num(k, w),
                E::Var(k) => { let s = CString::new(format!("t{}", k)).unwrap(); let so = self.sort(8); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so) }
                E::Bin(op, a, b) => {
                    let (x, y) = (self.bv(p, a), self.bv(p, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
                E::Ite(x, a, b) => { let (x, a, b) = (self.bool(p, x), self.bv(p, a), self.bv(p, b)); Z3_mk_ite(c, x, a, b) }
                E::Extract(a, lo) => { let x = self.bv(p, a); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x) }
                E::ZExt(a) => { let x = self.bv(p, a); Z3_mk_zero_ext(c, (w - p.w(a)) as c_uint, x) }
                E::SExt(a) => { let x = self.bv(p, a); Z3_mk_sign_ext(c, (w - p.w(a)) as c_uint, x) }
            } }
        };
        self.keep(r);
        self.bv[i as usize] = r;
        r
    }
    pub fn check(&mut self, p: &mut Pool, cs: &[Id], vars: u128) -> Answer {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for i in cs { let t = self.bool(p, *i); Z3_solver_assert(self.c, self.s, t); }
            let r = match Z3_solver_check(self.c, self.s) {
                -1 => Answer::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for k in 0..128u32 {
                        if vars >> k & 1 == 1 {
                            let x = p.var(k);
                            let t = self.bv(p, x);
                            let mut o: P = std::ptr::null_mut();
                            let mut n = 0u64;
                            if Z3_model_eval(self.c, m, t, true, &mut o) { Z3_inc_ref(self.c, o); if Z3_get_numeral_uint64(self.c, o, &mut n) { v.push((k, n as u8)); } }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Answer::Sat(v)
                }
                _ => Answer::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
    #[allow(dead_code)]
    pub fn dump(&self) -> String { unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() } }
}
