//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Z3 {
    ctx: P,
    solver: P,
    bv: Vec<Option<P>>,
    bl: Vec<Option<P>>,
    var_ast: HashMap<u32, P>,
    stack: Vec<Id>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_query: f64,
    pub timeout_ms: u32,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
    pub retried: u64,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum R {
    Sat,
    Unsat,
    Unknown,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, std::ptr::null());
            let sym = Z3_mk_string_symbol(ctx, cs("QF_BV").as_ptr());
            let solver = Z3_mk_solver_for_logic(ctx, sym);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, cs("timeout").as_ptr()), timeout_ms.min(3000));
            Z3_solver_set_params(ctx, solver, p);
            Z3 {
                ctx,
                solver,
                bv: vec![],
                bl: vec![],
                var_ast: HashMap::new(),
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_query: 0.0,
                timeout_ms,
                dump_dir: None,
                dump_every: 0,
                dumped: 0,
                retried: 0,
            }
        }
    }
    fn sync(&mut self, x: &Ctx) {
        let n = x.nodes.len();
        if self.bv.len() < n {
            self.bv.resize(n, None);
            self.bl.resize(n, None);
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            Z3_mk_numeral(self.ctx, cs(&v.to_string()).as_ptr(), s)
        }
    }
    unsafe fn var(&mut self, i: u32, w: u32) -> P {
        if let Some(p) = self.var_ast.get(&i) {
            return *p;
        }
        let s = Z3_mk_bv_sort(self.ctx, w);
        let sym = Z3_mk_string_symbol(self.ctx, cs(&format!("v{}", i)).as_ptr());
        let p = Z3_mk_const(self.ctx, sym, s);
        self.var_ast.insert(i, p);
        p
    }
    /// ensure children are translated, iteratively
    fn tr(&mut self, x: &Ctx, root: Id, want_bool: bool) -> P {
        self.sync(x);
        let mut st: Vec<(Id, bool)> = vec![(root, want_bool)];
        while let Some(&(id, b)) = st.last() {
            let done = if b { self.bl[id as usize].is_some() } else { self.bv[id as usize].is_some() };
            if done {
                st.pop();
                continue;
            }
            let n = x.node(id);
            let w = n.w as u32;
            let mut pend: Vec<(Id, bool)> = vec![];
            macro_rules! bvc {
                ($e:expr) => {
                    match self.bv[$e as usize] {
                        Some(p) => p,
                        None => {
                            pend.push(($e, false));
                            std::ptr::null_mut()
                        }
                    }
                };
            }
            macro_rules! blc {
                ($e:expr) => {
                    match self.bl[$e as usize] {
                        Some(p) => p,
                        None => {
                            pend.push(($e, true));
                            std::ptr::null_mut()
                        }
                    }
                };
            }
            let c = self.ctx;
            let r: P = unsafe {
                if b {
                    // boolean form of width 1 expr
                    match n.op {
                        Op::Const => {
                            if x.const_val(id).unwrap() == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        }
                        Op::Eq => {
                            if x.w(n.a) == 1 {
                                let p = blc!(n.a);
                                let q = blc!(n.b);
                                if pend.is_empty() {
                                    Z3_mk_eq(c, p, q)
                                } else {
                                    p
                                }
                            } else {
                                let p = bvc!(n.a);
                                let q = bvc!(n.b);
                                if pend.is_empty() {
                                    Z3_mk_eq(c, p, q)
                                } else {
                                    p
                                }
                            }
                        }
                        Op::Ult | Op::Slt => {
                            let p = bvc!(n.a);
                            let q = bvc!(n.b);
                            if pend.is_empty() {
                                if n.op == Op::Ult {
                                    Z3_mk_bvult(c, p, q)
                                } else {
                                    Z3_mk_bvslt(c, p, q)
                                }
                            } else {
                                p
                            }
                        }
                        Op::And | Op::Or | Op::Xor => {
                            let p = blc!(n.a);
                            let q = blc!(n.b);
                            if pend.is_empty() {
                                match n.op {
                                    Op::And => Z3_mk_and(c, 2, [p, q].as_ptr()),
                                    Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                                    _ => {
                                        if x.const_val(n.b) == Some(1) {
                                            Z3_mk_not(c, p)
                                        } else {
                                            Z3_mk_xor(c, p, q)
                                        }
                                    }
                                }
                            } else {
                                p
                            }
                        }
                        Op::Ite => {
                            let p = blc!(n.a);
                            let q = blc!(n.b);
                            let s = blc!(n.c);
                            if pend.is_empty() {
                                Z3_mk_ite(c, p, q, s)
                            } else {
                                p
                            }
                        }
                        _ => {
                            let p = bvc!(id);
                            if pend.is_empty() {
                                let one = self.num(1, 1);
                                Z3_mk_eq(c, p, one)
                            } else {
                                p
                            }
                        }
                    }
                } else {
                    match n.op {
                        Op::Const => self.num(x.const_val(id).unwrap(), w),
                        Op::Var => self.var(n.a, w),
                        Op::Eq | Op::Ult | Op::Slt => {
                            let p = blc!(id);
                            if pend.is_empty() {
                                let one = self.num(1, 1);
                                let zero = self.num(0, 1);
                                Z3_mk_ite(c, p, one, zero)
                            } else {
                                p
                            }
                        }
                        Op::Extract => {
                            let p = bvc!(n.a);
                            if pend.is_empty() {
                                Z3_mk_extract(c, n.b + w - 1, n.b, p)
                            } else {
                                p
                            }
                        }
                        Op::SExt => {
                            let p = bvc!(n.a);
                            if pend.is_empty() {
                                Z3_mk_sign_ext(c, w - x.w(n.a), p)
                            } else {
                                p
                            }
                        }
                        Op::Ite => {
                            let p = blc!(n.a);
                            let q = bvc!(n.b);
                            let s = bvc!(n.c);
                            if pend.is_empty() {
                                Z3_mk_ite(c, p, q, s)
                            } else {
                                p
                            }
                        }
                        _ => {
                            let p = bvc!(n.a);
                            let q = bvc!(n.b);
                            if pend.is_empty() {
                                match n.op {
                                    Op::Add => Z3_mk_bvadd(c, p, q),
                                    Op::Sub => Z3_mk_bvsub(c, p, q),
                                    Op::Mul => Z3_mk_bvmul(c, p, q),
                                    Op::UDiv => Z3_mk_bvudiv(c, p, q),
                                    Op::URem => Z3_mk_bvurem(c, p, q),
                                    Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                                    Op::SRem => Z3_mk_bvsrem(c, p, q),
                                    Op::Shl => Z3_mk_bvshl(c, p, q),
                                    Op::LShr => Z3_mk_bvlshr(c, p, q),
                                    Op::AShr => Z3_mk_bvashr(c, p, q),
                                    Op::And => Z3_mk_bvand(c, p, q),
                                    Op::Or => Z3_mk_bvor(c, p, q),
                                    Op::Xor => Z3_mk_bvxor(c, p, q),
                                    Op::Concat => Z3_mk_concat(c, p, q),
                                    _ => unreachable!(),
                                }
                            } else {
                                p
                            }
                        }
                    }
                }
            };
            if pend.is_empty() {
                assert!(!r.is_null(), "z3 returned null ast");
                if b {
                    self.bl[id as usize] = Some(r);
                } else {
                    self.bv[id as usize] = Some(r);
                }
                st.pop();
            } else {
                st.extend(pend);
            }
        }
        if want_bool {
            self.bl[root as usize].unwrap()
        } else {
            self.bv[root as usize].unwrap()
        }
    }

    fn align(&mut self, x: &Ctx, pc: &[Id]) {
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
            common += 1;
        }
        if self.stack.len() > common {
            unsafe { Z3_solver_pop(self.ctx, self.solver, (self.stack.len() - common) as u32) };
            self.stack.truncate(common);
        }
        for &c in &pc[common..] {
            let a = self.tr(x, c, true);
            unsafe {
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            self.stack.push(c);
        }
    }

    /// is pc /\ extra satisfiable; when sat returns an assignment of all variables.
    pub fn check(&mut self, x: &Ctx, pc: &[Id], extra: &[Id]) -> (R, Option<Vec<u128>>) {
        let t = Instant::now();
        self.align(x, pc);
        let ex: Vec<P> = extra.iter().map(|e| self.tr(x, *e, true)).collect();
        let r;
        let mut model = None;
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            let again = ex.clone();
            for e in ex {
                Z3_solver_assert(self.ctx, self.solver, e);
            }
            self.queries += 1;
            if let Some(d) = &self.dump_dir {
                if self.dump_every > 0 && self.queries % self.dump_every == 0 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    let f = format!("{}/q{}.smt2", d, self.queries);
                    let _ = std::fs::write(&f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    self.dumped += 1;
                }
            }
            let mut c = Z3_solver_check(self.ctx, self.solver);
            let mut used = self.solver;
            if c == 0 {
                // once more from scratch: without assertions pushed before, all preprocessing applies
                let sym = Z3_mk_string_symbol(self.ctx, cs("QF_BV").as_ptr());
                let fresh = Z3_mk_solver_for_logic(self.ctx, sym);
                Z3_solver_inc_ref(self.ctx, fresh);
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, cs("timeout").as_ptr()), self.timeout_ms);
                Z3_solver_set_params(self.ctx, fresh, p);
                for i in pc {
                    let a = self.tr(x, *i, true);
                    Z3_solver_assert(self.ctx, fresh, a);
                }
                for e in &again {
                    Z3_solver_assert(self.ctx, fresh, *e);
                }
                c = Z3_solver_check(self.ctx, fresh);
                used = fresh;
                self.retried += 1;
            }
            if let Some(d) = &self.dump_dir {
                if self.dump_every > 0 && self.queries % self.dump_every == 0 {
                    let _ = std::fs::write(format!("{}/q{}.res", d, self.queries), match c { 1 => "sat", -1 => "unsat", _ => "unknown" });
                }
            }
            r = match c {
                1 => R::Sat,
                -1 => R::Unsat,
                _ => R::Unknown,
            };
            if r == R::Sat {
                self.sat += 1;
                let m = Z3_solver_get_model(self.ctx, used);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![0u128; x.vars.len()];
                let vs: Vec<(u32, P)> = self.var_ast.iter().map(|(k, v)| (*k, *v)).collect();
                for (i, p) in vs {
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, p, true, &mut o) {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_string_lossy().into_owned();
                        if (i as usize) < out.len() {
                            out[i as usize] = s.parse::<u128>().unwrap_or(0);
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                model = Some(out);
            } else if r == R::Unsat {
                self.unsat += 1;
            }
            Z3_solver_pop(self.ctx, self.solver, 1);
            if used != self.solver {
                Z3_solver_dec_ref(self.ctx, used);
            }
        }
        let e = t.elapsed().as_secs_f64();
        self.time += e;
        if e > self.max_query {
            self.max_query = e;
        }
        (r, model)
    }
}
