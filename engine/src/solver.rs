//! Thin libz3 binding plus the query layer (independence slicing, model reuse, cache).
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, v: *mut c_uint) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sat {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub z3_time: f64,
    pub max_query: f64,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    sorts: Vec<P>,
    cache: FxMap<Vec<E>, Sat>,
    supp: FxMap<E, std::rc::Rc<Vec<u32>>>,
    models: Vec<Vec<u8>>,
    mi: usize,
    pub st: Stats,
    pub dump: Option<(String, usize)>,
    pub stack: Vec<E>,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = if std::env::var("LLSYM_SIMPLE").is_ok() {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=128u32 {
                let so = Z3_mk_bv_sort(ctx, w);
                Z3_inc_ref(ctx, so);
                sorts.push(so);
            }
            Solver {
                ctx,
                s,
                bv: Default::default(),
                bo: Default::default(),
                sorts,
                cache: Default::default(),
                supp: Default::default(),
                models: vec![],
                mi: 0,
                st: Stats::default(),
                dump: None,
                stack: vec![],
            }
        }
    }

    pub fn support(&mut self, a: &Arena, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.supp.get(&e) {
            return s.clone();
        }
        let s = std::rc::Rc::new(a.support(e));
        self.supp.insert(e, s.clone());
        s
    }

    fn bool_of(&mut self, a: &Arena, e: E) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p;
        }
        let n = a.n[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let x = self.bool_of(a, n.a);
                    Z3_mk_not(c, x)
                }
                Op::And | Op::Or => {
                    let x = self.bool_of(a, n.a);
                    let y = self.bool_of(a, n.b);
                    let v = [x, y];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Eq => {
                    if a.w(n.a) == 1 {
                        let x = self.bool_of(a, n.a);
                        let y = self.bool_of(a, n.b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.bv_of(a, n.a);
                        let y = self.bv_of(a, n.b);
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let x = self.bv_of(a, n.a);
                    let y = self.bv_of(a, n.b);
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let x = self.bv_of(a, n.a);
                    let y = self.bv_of(a, n.b);
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite => {
                    let x = self.bool_of(a, n.a);
                    let y = self.bool_of(a, n.b);
                    let z = self.bool_of(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv_of(a, e);
                    let one = Z3_mk_unsigned_int64(c, 1, self.sorts[1]);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bo.insert(e, r);
        r
    }

    fn bv_of(&mut self, a: &Arena, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = a.n[e as usize];
        let c = self.ctx;
        let w = n.w as usize;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k >> 64 == 0 {
                        Z3_mk_unsigned_int64(c, n.k as u64, self.sorts[w])
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), self.sorts[w])
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sorts[8])
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.bool_of(a, e);
                    let one = Z3_mk_unsigned_int64(c, 1, self.sorts[1]);
                    let zero = Z3_mk_unsigned_int64(c, 0, self.sorts[1]);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Not => {
                    let x = self.bv_of(a, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::Extract => {
                    let x = self.bv_of(a, n.a);
                    Z3_mk_extract(c, (n.k >> 16) as u32, (n.k & 0xffff) as u32, x)
                }
                Op::ZExt => {
                    let x = self.bv_of(a, n.a);
                    Z3_mk_zero_ext(c, n.w as u32 - a.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bv_of(a, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - a.w(n.a), x)
                }
                Op::Ite => {
                    let x = self.bool_of(a, n.a);
                    let y = self.bv_of(a, n.b);
                    let z = self.bv_of(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                op => {
                    let x = self.bv_of(a, n.a);
                    let y = self.bv_of(a, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv.insert(e, r);
        r
    }

    /// Constraints of `pc` that share variables (transitively) with `q`.
    fn slice(&mut self, a: &Arena, pc: &[E], q: E) -> (Vec<E>, Vec<u32>) {
        let mut vars: std::collections::HashSet<u32, FxB> = Default::default();
        for v in self.support(a, q).iter() {
            vars.insert(*v);
        }
        let mut used = vec![false; pc.len()];
        let sup: Vec<_> = pc.iter().map(|c| self.support(a, *c)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] {
                    continue;
                }
                if sup[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    for v in sup[i].iter() {
                        vars.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        out.push(q);
        out.dedup();
        let mut vs: Vec<u32> = vars.into_iter().collect();
        vs.sort_unstable();
        (out, vs)
    }

    /// Is pc /\ q satisfiable?  pc itself is known to be satisfiable.
    pub fn check(&mut self, a: &mut Arena, pc: &[E], q: E) -> Sat {
        self.st.queries += 1;
        if let Some(k) = a.is_const(q) {
            return if k == 1 { Sat::Sat(vec![]) } else { Sat::Unsat };
        }
        let (cs, vs) = self.slice(a, pc, q);
        let mut key = cs.clone();
        key.sort_unstable();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        // recent models
        for i in (0..self.models.len()).rev() {
            let m = std::mem::take(&mut self.models[i]);
            let mut ok = a.eval(q, &m) == 1;
            if ok {
                for c in cs.iter().rev() {
                    if a.eval_more(*c, &m) != 1 {
                        ok = false;
                        break;
                    }
                }
            }
            let r = if ok {
                Some(Sat::Sat(vs.iter().map(|v| (*v, m.get(*v as usize).copied().unwrap_or(0))).collect()))
            } else {
                None
            };
            self.models[i] = m;
            if let Some(r) = r {
                self.st.model_hits += 1;
                self.cache.insert(key, r.clone());
                return r;
            }
        }
        let r = self.z3(a, &cs, &vs);
        if let Sat::Sat(m) = &r {
            let n = a.vars as usize;
            let mut full = vec![0u8; n];
            for (v, x) in m {
                full[*v as usize] = *x;
            }
            if self.models.len() < 24 {
                self.models.push(full);
            } else {
                self.models[self.mi % 24] = full;
                self.mi += 1;
            }
        }
        if r != Sat::Unknown {
            self.cache.insert(key, r.clone());
        }
        r
    }

    fn z3(&mut self, a: &mut Arena, cs: &[E], vs: &[u32]) -> Sat {
        let t0 = Instant::now();
        self.st.z3_calls += 1;
        let c = self.ctx;
        let r = unsafe {
            // incremental: keep the common prefix of constraints on the solver stack
            let mut common = 0;
            while common < self.stack.len() && common < cs.len() && self.stack[common] == cs[common] {
                common += 1;
            }
            if common < self.stack.len() {
                let n = self.stack.len() - common;
                if common == 0 {
                    Z3_solver_reset(c, self.s);
                } else {
                    Z3_solver_pop(c, self.s, n as u32);
                }
                self.stack.truncate(common);
            }
            for x in &cs[common..] {
                let b = self.bool_of(a, *x);
                Z3_solver_push(c, self.s);
                Z3_solver_assert(c, self.s, b);
                self.stack.push(*x);
            }
            match Z3_solver_check(c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in vs {
                        let e = a.var(*v);
                        let z = self.bv_of(a, e);
                        let mut r: P = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if Z3_model_eval(c, m, z, true, &mut r) {
                            Z3_inc_ref(c, r);
                            Z3_get_numeral_uint(c, r, &mut u);
                        }
                        out.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    self.st.z3_sat += 1;
                    Sat::Sat(out)
                }
                -1 => {
                    self.st.z3_unsat += 1;
                    Sat::Unsat
                }
                _ => {
                    self.st.z3_unknown += 1;
                    Sat::Unknown
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.z3_time += dt;
        if dt > self.st.max_query {
            self.st.max_query = dt;
        }
        if let Some((dir, left)) = &mut self.dump {
            if *left > 0 {
                *left -= 1;
                let verdict = match &r {
                    Sat::Sat(_) => "sat",
                    Sat::Unsat => "unsat",
                    _ => "unknown",
                };
                let p = format!("{}/q{:06}.{}.smt2", dir, self.st.z3_calls, verdict);
                let _ = std::fs::write(p, a.smt2(cs));
            }
        }
        r
    }
}
