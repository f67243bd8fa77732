//! Minimal FFI to libz3, incremental with assumption literals.
#![allow(non_camel_case_types)]
use crate::term::{self, Node, Op, T};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
}

pub struct Smt {
    ctx: P,
    solver: P,
    ast: crate::fx::Map<T, P>,
    proxy: crate::fx::Map<T, P>,
    vars: Vec<(String, u32, P)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    timeout_ms: u32,
    reset_at: usize,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let solver = Self::mk_solver(ctx, timeout_ms);
            Smt {
                timeout_ms,
                reset_at: std::env::var("MIRSYM_RESET").ok().and_then(|s| s.parse().ok()).unwrap_or(120),
                ctx,
                solver,
                ast: Default::default(),
                proxy: Default::default(),
                vars: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
            }
        }
    }

    fn mk_solver(ctx: P, timeout_ms: u32) -> P {
        unsafe {
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            solver
        }
    }
    /// forget what was asserted; assumptions are asserted again when they are used
    fn fresh_solver(&mut self) {
        unsafe { Z3_solver_dec_ref(self.ctx, self.solver) };
        self.solver = Self::mk_solver(self.ctx, self.timeout_ms);
        self.proxy.clear();
    }

    fn ast(&mut self, t: T) -> P {
        if let Some(a) = self.ast.get(&t) {
            return *a;
        }
        let cx = self.ctx;
        let n = term::node(t);
        let w = term::width(t);
        let a = unsafe {
            match n {
                Node::True => Z3_mk_true(cx),
                Node::False => Z3_mk_false(cx),
                Node::Const(w, v) => {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(cx, s.as_ptr(), Z3_mk_bv_sort(cx, w))
                }
                Node::Var(w, name) => {
                    let s = CString::new(name.to_string()).unwrap();
                    let sym = Z3_mk_string_symbol(cx, s.as_ptr());
                    let sort = if w == 0 { Z3_mk_bool_sort(cx) } else { Z3_mk_bv_sort(cx, w) };
                    let a = Z3_mk_const(cx, sym, sort);
                    self.vars.push((name.to_string(), w, a));
                    a
                }
                Node::Not(x) => Z3_mk_not(cx, self.ast(x)),
                Node::And(xs) => {
                    let v: Vec<P> = xs.iter().map(|x| self.ast(*x)).collect();
                    Z3_mk_and(cx, v.len() as c_uint, v.as_ptr())
                }
                Node::IteB(x, y, z) | Node::Ite(x, y, z) => {
                    let (x, y, z) = (self.ast(x), self.ast(y), self.ast(z));
                    Z3_mk_ite(cx, x, y, z)
                }
                Node::Eq(x, y) => Z3_mk_eq(cx, self.ast(x), self.ast(y)),
                Node::Ult(x, y) => Z3_mk_bvult(cx, self.ast(x), self.ast(y)),
                Node::Slt(x, y) => Z3_mk_bvslt(cx, self.ast(x), self.ast(y)),
                Node::Bin(op, x, y) => {
                    let (x, y) = (self.ast(x), self.ast(y));
                    match op {
                        Op::Add => Z3_mk_bvadd(cx, x, y),
                        Op::Sub => Z3_mk_bvsub(cx, x, y),
                        Op::Mul => Z3_mk_bvmul(cx, x, y),
                        Op::UDiv => Z3_mk_bvudiv(cx, x, y),
                        Op::URem => Z3_mk_bvurem(cx, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(cx, x, y),
                        Op::SRem => Z3_mk_bvsrem(cx, x, y),
                        Op::And => Z3_mk_bvand(cx, x, y),
                        Op::Or => Z3_mk_bvor(cx, x, y),
                        Op::Xor => Z3_mk_bvxor(cx, x, y),
                        Op::Shl => Z3_mk_bvshl(cx, x, y),
                        Op::LShr => Z3_mk_bvlshr(cx, x, y),
                        Op::AShr => Z3_mk_bvashr(cx, x, y),
                    }
                }
                Node::ZExt(w, x) => Z3_mk_zero_ext(cx, w - term::width(x), self.ast(x)),
                Node::SExt(w, x) => Z3_mk_sign_ext(cx, w - term::width(x), self.ast(x)),
                Node::Extract(w, x) => Z3_mk_extract(cx, w - 1, 0, self.ast(x)),
            }
        };
        let _ = w;
        self.ast.insert(t, a);
        a
    }

    fn lit(&mut self, t: T) -> P {
        if let Some(p) = self.proxy.get(&t) {
            return *p;
        }
        unsafe {
            let a = self.ast(t);
            let s = CString::new(format!("$p{}", t.0)).unwrap();
            let p = Z3_mk_const(
                self.ctx,
                Z3_mk_string_symbol(self.ctx, s.as_ptr()),
                Z3_mk_bool_sort(self.ctx),
            );
            let imp = Z3_mk_implies(self.ctx, p, a);
            Z3_solver_assert(self.ctx, self.solver, imp);
            self.proxy.insert(t, p);
            p
        }
    }

    /// Satisfiability of a conjunction. On sat, returns the model of all known variables.
    pub fn check(&mut self, ts: &[T]) -> (Res, Option<HashMap<String, u128>>) {
        if ts.contains(&term::FALSE) {
            return (Res::Unsat, None);
        }
        let t0 = Instant::now();
        if self.proxy.len() > self.reset_at {
            self.fresh_solver();
        }
        let lits: Vec<P> = ts.iter().filter(|t| **t != term::TRUE).map(|t| self.lit(*t)).collect();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_check_assumptions(self.ctx, self.solver, lits.len() as c_uint, lits.as_ptr())
        };
        let out = match r {
            1 => {
                self.sat += 1;
                let mut m = HashMap::new();
                unsafe {
                    let model = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, model);
                    for (name, w, a) in &self.vars {
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, model, *a, true, &mut o) {
                            let v = if *w == 0 {
                                (Z3_get_bool_value(self.ctx, o) == 1) as u128
                            } else {
                                let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                                s.to_str().unwrap().parse::<u128>().unwrap_or(0)
                            };
                            m.insert(name.clone(), v);
                        }
                    }
                    Z3_model_dec_ref(self.ctx, model);
                }
                (Res::Sat, Some(m))
            }
            -1 => {
                self.unsat += 1;
                (Res::Unsat, None)
            }
            _ => {
                self.unknown += 1;
                (Res::Unknown, None)
            }
        };
        self.time += t0.elapsed().as_secs_f64();
        out
    }
}
