//! Minimal binding to the installed libz3 and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, sym: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}
pub struct Z3 {
    c: P, s: P,
    /// bit-vector form and boolean form (for width-1 expressions)
    bv: HashMap<E, P>, bl: HashMap<E, P>, sorts: HashMap<u16, P>, doms: HashMap<(E, BitSet), P>,
    pub queries: u64, pub secs: f64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub slowest: f64,
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Res { Sat, Unsat, Unknown }

impl Z3 {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, std::ptr::null_mut());
            let _ = Z3_mk_solver_for_logic as usize;
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: HashMap::new(), bl: HashMap::new(), sorts: HashMap::new(), doms: HashMap::new(), queries: 0, secs: 0.0, sat: 0, unsat: 0, unknown: 0, slowest: 0.0 }
        }
    }
    fn sort(&mut self, w: u16) -> P { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) }) }
    fn num(&mut self, k: u128, w: u16) -> P {
        let s = self.sort(w);
        if w <= 64 { unsafe { Z3_mk_unsigned_int64(self.c, k as u64, s) } }
        else { let t = CString::new(k.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.c, t.as_ptr(), s) } }
    }
    fn to_bool(&mut self, p: &Pool, e: E) -> P {
        if let Some(&x) = self.bl.get(&e) { return x; }
        let n = p.n(e).clone();
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => { let s = [std::ptr::null_mut(); 1]; if n.k == 0 { Z3_mk_or(c, 0, s.as_ptr()) } else { Z3_mk_and(c, 0, s.as_ptr()) } }
                Op::Eq => { if p.w(n.a) == 1 { let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b)); Z3_mk_eq(c, x, y) } }
                Op::Ult => { let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b)); Z3_mk_bvult(c, x, y) }
                Op::Slt => { let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b)); Z3_mk_bvslt(c, x, y) }
                Op::And => { let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => { let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b)); let q = Z3_mk_eq(c, x, y); Z3_mk_not(c, q) }
                Op::Ite => { let (i, x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b), self.to_bool(p, n.c)); Z3_mk_ite(c, i, x, y) }
                _ => { let x = self.to_bv(p, e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn to_bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&x) = self.bv.get(&e) { return x; }
        let n = p.n(e).clone();
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => { let s = CString::new(format!("v{}", n.k)).unwrap(); let so = self.sort(8); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so) }
                Op::Eq | Op::Ult | Op::Slt => { let b = self.to_bool(p, e); let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, b, o, z) }
                Op::Ite => { let i = self.to_bool(p, n.a); let (x, y) = (self.to_bv(p, n.b), self.to_bv(p, n.c)); Z3_mk_ite(c, i, x, y) }
                Op::Extract => { let x = self.to_bv(p, n.a); Z3_mk_extract(c, (n.k >> 16) as c_uint, (n.k & 0xffff) as c_uint, x) }
                Op::ZExt => { let x = self.to_bv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, x) }
                Op::SExt => { let x = self.to_bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, x) }
                op => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn dom(&mut self, p: &Pool, v: E, d: &BitSet) -> P {
        if let Some(&x) = self.doms.get(&(v, *d)) { return x; }
        let x = self.to_bv(p, v);
        let mut parts: Vec<P> = vec![];
        let mut i = 0usize;
        while i < 256 {
            if !bs_get(d, i) { i += 1; continue; }
            let st = i;
            while i < 256 && bs_get(d, i) { i += 1; }
            let (a, b) = (self.num(st as u128, 8), self.num(i as u128 - 1, 8));
            let r = unsafe { if st == i - 1 { Z3_mk_eq(self.c, x, a) } else { let q = [Z3_mk_bvule(self.c, a, x), Z3_mk_bvule(self.c, x, b)]; Z3_mk_and(self.c, 2, q.as_ptr()) } };
            parts.push(r);
        }
        let r = unsafe { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) };
        self.doms.insert((v, *d), r);
        r
    }
    /// check the conjunction; on Sat fill values of the given variables
    pub fn check(&mut self, p: &Pool, cons: &[E], doms: &[(E, BitSet)], want: &mut [(E, u8)]) -> Res {
        let t = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cons { let a = self.to_bool(p, e); Z3_solver_assert(self.c, self.s, a); }
            for (v, d) in doms { if *d != [u64::MAX; 4] { let a = self.dom(p, *v, d); Z3_solver_assert(self.c, self.s, a); } }
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 && !want.is_empty() {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for (v, out) in want.iter_mut() {
                    let a = self.to_bv(p, *v);
                    let mut o = std::ptr::null_mut();
                    let mut k = 0u64;
                    if Z3_model_eval(self.c, m, a, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut k) { *out = k as u8; }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            if Z3_get_error_code(self.c) != 0 { panic!("z3 error {}", Z3_get_error_code(self.c)); }
            r
        };
        let dt = t.elapsed().as_secs_f64();
        self.queries += 1;
        self.secs += dt;
        if dt > self.slowest { self.slowest = dt; }
        if dt > 3.0 && std::env::var_os("SYMEX_SLOW").is_some() {
            eprintln!("SLOW {:.1}s {}", dt, cons.iter().map(|&e| p.show(e, 14)).collect::<Vec<_>>().join("\n   AND "));
        }
        match r { 1 => { self.sat += 1; Res::Sat } -1 => { self.unsat += 1; Res::Unsat } _ => { self.unknown += 1; Res::Unknown } }
    }
}
