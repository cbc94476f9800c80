//! Minimal FFI to libz3 (C API).  Only quantifier-free bit-vector terms.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, o: *mut u64) -> bool;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
}

extern "C" fn on_err(_c: Ctx, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::abort();
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    pub c: Ctx,
    s: Solver,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"timeout".as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s }
        }
    }
    pub fn var(&self, i: u32, w: u32) -> Ast {
        let n = std::ffi::CString::new(format!("v{i}")).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w)) }
    }
    pub fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w))
            } else {
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    pub fn bin(&self, b: B, x: Ast, y: Ast) -> Ast {
        unsafe {
            match b {
                B::Add => Z3_mk_bvadd(self.c, x, y),
                B::Sub => Z3_mk_bvsub(self.c, x, y),
                B::Mul => Z3_mk_bvmul(self.c, x, y),
                B::UDiv => Z3_mk_bvudiv(self.c, x, y),
                B::SDiv => Z3_mk_bvsdiv(self.c, x, y),
                B::URem => Z3_mk_bvurem(self.c, x, y),
                B::SRem => Z3_mk_bvsrem(self.c, x, y),
                B::And => Z3_mk_bvand(self.c, x, y),
                B::Or => Z3_mk_bvor(self.c, x, y),
                B::Xor => Z3_mk_bvxor(self.c, x, y),
                B::Shl => Z3_mk_bvshl(self.c, x, y),
                B::LShr => Z3_mk_bvlshr(self.c, x, y),
                B::AShr => Z3_mk_bvashr(self.c, x, y),
            }
        }
    }
    /// Comparisons give 1-bit vectors.
    fn b2bv(&self, p: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, p, self.num(1, 1), self.num(0, 1)) }
    }
    pub fn bv2b(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, a, self.num(1, 1)) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        self.b2bv(unsafe { Z3_mk_eq(self.c, a, b) })
    }
    pub fn ult(&self, a: Ast, b: Ast) -> Ast {
        self.b2bv(unsafe { Z3_mk_bvult(self.c, a, b) })
    }
    pub fn ule(&self, a: Ast, b: Ast) -> Ast {
        self.b2bv(unsafe { Z3_mk_bvule(self.c, a, b) })
    }
    pub fn slt(&self, a: Ast, b: Ast) -> Ast {
        self.b2bv(unsafe { Z3_mk_bvslt(self.c, a, b) })
    }
    pub fn sle(&self, a: Ast, b: Ast) -> Ast {
        self.b2bv(unsafe { Z3_mk_bvsle(self.c, a, b) })
    }
    pub fn zext(&self, by: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_zero_ext(self.c, by, a) }
    }
    pub fn sext(&self, by: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_sign_ext(self.c, by, a) }
    }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_extract(self.c, hi, lo, a) }
    }
    pub fn concat(&self, hi: Ast, lo: Ast) -> Ast {
        unsafe { Z3_mk_concat(self.c, hi, lo) }
    }
    pub fn ite(&self, c: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, self.bv2b(c), a, b) }
    }
    pub fn ite_p(&self, p: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, p, a, b) }
    }
    pub fn pnot(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn por(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_or(self.c, v.len() as u32, v.as_ptr()) }
    }
    pub fn pand(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_and(self.c, v.len() as u32, v.as_ptr()) }
    }
    /// lo <= a <= hi as a Z3 predicate
    pub fn range(&self, a: Ast, lo: u64, hi: u64, w: u32) -> Ast {
        unsafe {
            if lo == hi {
                return Z3_mk_eq(self.c, a, self.num(lo as u128, w));
            }
            let x = Z3_mk_bvule(self.c, self.num(lo as u128, w), a);
            let y = Z3_mk_bvule(self.c, a, self.num(hi as u128, w));
            Z3_mk_and(self.c, 2, [x, y].as_ptr())
        }
    }
    /// Decide the conjunction of predicates.
    pub fn check(&self, preds: &[Ast]) -> Sat {
        unsafe {
            Z3_solver_reset(self.c, self.s);
            for p in preds {
                Z3_solver_assert(self.c, self.s, *p);
            }
            match Z3_solver_check(self.c, self.s) {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            }
        }
    }
    pub fn show(&self, preds: &[Ast]) -> String {
        unsafe {
            Z3_solver_reset(self.c, self.s);
            for p in preds {
                Z3_solver_assert(self.c, self.s, *p);
            }
        }
        self.smt2()
    }
    pub fn smt2(&self) -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
    /// Values of vars in the model of the last (sat) check.
    pub fn model(&self, vars: &[Ast]) -> Vec<u64> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut out = vec![];
            for v in vars {
                let mut r: Ast = std::ptr::null_mut();
                let mut n = 0u64;
                if Z3_model_eval(self.c, m, *v, true, &mut r) {
                    Z3_get_numeral_uint64(self.c, r, &mut n);
                }
                out.push(n);
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
}
