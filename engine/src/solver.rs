//! The deciding step: path feasibility and assertions are handed to Z3 (C API), over the slice
//! of the path condition which shares variables with the question.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sol = *mut c_void;
type Mdl = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_fpa_sort_single(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_double(c: Ctx) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Sol;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> Sol;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol);
    fn Z3_solver_dec_ref(c: Ctx, s: Sol);
    fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int;
    fn Z3_solver_reset(c: Ctx, s: Sol);
    fn Z3_solver_get_model(c: Ctx, s: Sol) -> Mdl;
    fn Z3_solver_get_reason_unknown(c: Ctx, s: Sol) -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: Sol) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Mdl);
    fn Z3_model_dec_ref(c: Ctx, m: Mdl);
    fn Z3_model_eval(c: Ctx, m: Mdl, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Sol, p: *mut c_void);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
}

static IN_CHECK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

extern "C" fn on_error(_c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(_c, e)).to_string_lossy().into_owned() };
    if IN_CHECK.load(std::sync::atomic::Ordering::Relaxed) {
        // resources exhausted: the answer is "unknown"
        IN_CHECK.store(false, std::sync::atomic::Ordering::Relaxed);
        return;
    }
    eprintln!("symex: z3 error {}: {}", e, m);
    std::process::exit(2);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct SolverStats {
    pub asked: u64,
    pub z3: u64,
    pub cached: u64,
    pub folded: u64,
    pub reused_model: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Ctx,
    s: Sol,
    slow: Sol,
    ast: HashMap<E, Ast, BuildFx>,
    fast: HashMap<E, Ast, BuildFx>,
    cache: HashMap<Vec<E>, (Verdict, Rc<Vec<(u32, u64)>>)>,
    cache1: HashMap<(u128, u64, u64), (Verdict, u64)>,
    pub stats: SolverStats,
    pub dump: Option<std::path::PathBuf>,
    pub dumped: u32,
    pub max_dump: u32,
    nasts: usize,
}
use std::rc::Rc;

/// partition of the domain of a variable in classes on which all the tables are constant
struct Quot {
    reps: Vec<u64>,
    vals: HashMap<E, Vec<u64>>,
}
impl Quot {
    fn new(tabs: &[(E, Runs)], lo: u64, hi: u64) -> Option<Quot> {
        let mut cuts: Vec<u64> = vec![lo];
        for (_, t) in tabs {
            for (s, _) in t.iter() {
                if *s as u64 > lo && *s as u64 <= hi {
                    cuts.push(*s as u64);
                }
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut pos = vec![0usize; tabs.len()];
        let mut classes: HashMap<Vec<u64>, usize> = HashMap::new();
        let mut reps = Vec::new();
        for c in cuts {
            let mut sig = Vec::with_capacity(tabs.len());
            for (i, (_, t)) in tabs.iter().enumerate() {
                while pos[i] + 1 < t.len() && t[pos[i] + 1].0 as u64 <= c {
                    pos[i] += 1;
                }
                sig.push(t[pos[i]].1);
            }
            let n = classes.len();
            if *classes.entry(sig).or_insert(n) == n {
                reps.push(c);
            }
            if reps.len() > 1024 {
                return None;
            }
        }
        let mut vals: HashMap<E, Vec<u64>> = tabs.iter().map(|t| (t.0, vec![0; reps.len()])).collect();
        for (sig, i) in classes {
            for (k, (e, _)) in tabs.iter().enumerate() {
                vals.get_mut(e).unwrap()[i] = sig[k];
            }
        }
        Some(Quot { reps, vals })
    }
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let m = CString::new("model").unwrap();
            let t = CString::new("true").unwrap();
            Z3_set_param_value(cfg, m.as_ptr(), t.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let qf = CString::new("QF_FPBV").unwrap();
            let slow = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, qf.as_ptr()));
            Z3_solver_inc_ref(c, slow);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            let k = Z3_mk_string_symbol(c, k.as_ptr());
            Z3_params_set_uint(c, p, k, 3_000_000);
            Z3_solver_set_params(c, s, p);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, k, 800_000_000);
            Z3_solver_set_params(c, slow, p);
            Solver {
                c,
                s,
                slow,
                ast: Default::default(),
                fast: Default::default(),
                cache: HashMap::new(),
                cache1: HashMap::new(),
                stats: SolverStats::default(),
                dump: None,
                dumped: 0,
                max_dump: 0,
                nasts: 0,
            }
        }
    }
    fn reset_ctx(&mut self) {
        let fresh = Solver::new();
        let old = std::mem::replace(self, fresh);
        self.cache = old.cache;
        self.cache1 = old.cache1;
        self.stats = old.stats;
        self.dump = old.dump;
        self.dumped = old.dumped;
        self.max_dump = old.max_dump;
        unsafe {
            for (_, a) in old.ast {
                Z3_dec_ref(old.c, a);
            }
            Z3_solver_dec_ref(old.c, old.s);
            Z3_solver_dec_ref(old.c, old.slow);
            Z3_del_context(old.c);
        }
    }

    /// variables, transitively: the constraints of pc related to the given mask
    pub fn slice(x: &Exprs, pc: &[E], vars: u128) -> (Vec<E>, u128) {
        let mut mask = vars;
        let mut inc = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, c) in pc.iter().enumerate() {
                if !inc[i] {
                    let v = x.meta[*c as usize].vars;
                    if v & mask != 0 {
                        inc[i] = true;
                        if v & !mask != 0 {
                            mask |= v;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let out = pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, c)| *c).collect();
        (out, mask)
    }

    /// is pc && cond satisfiable ? on Sat the values of the variables of the slice are given
    pub fn check(&mut self, x: &mut Exprs, pc: &[E], cond: E) -> (Verdict, Rc<Vec<(u32, u64)>>) {
        self.stats.asked += 1;
        if let Some(k) = x.is_const(cond) {
            if k == 0 {
                return (Verdict::Unsat, Rc::new(vec![]));
            }
        }
        let (mut sl, mask) = Self::slice(x, pc, x.meta[cond as usize].vars);
        sl.push(cond);
        sl.sort();
        sl.dedup();
        let single = if mask.count_ones() == 1 && mask != 1u128 << 127 { Some(mask.trailing_zeros()) } else { None };
        if let Some(v) = single {
            let mut h: Vec<u128> = sl.iter().map(|e| x.meta[*e as usize].ah).collect();
            h.sort();
            let mut k = 7u128;
            for a in h {
                k = (k ^ a).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835).rotate_left(41);
            }
            let vi = &x.vars[v as usize];
            let key = (k ^ vi.w as u128, vi.lo, vi.hi);
            if let Some((r, val)) = self.cache1.get(&key) {
                self.stats.cached += 1;
                return (*r, Rc::new(vec![(v, *val)]));
            }
            let (r, m) = self.z3_check(x, &sl);
            let val = m.iter().find(|p| p.0 == v).map_or(0, |p| p.1);
            self.cache1.insert(key, (r, val));
            return (r, m);
        }
        if let Some((r, m)) = self.cache.get(&sl) {
            self.stats.cached += 1;
            return (*r, m.clone());
        }
        let (r, m) = self.z3_check(x, &sl);
        self.cache.insert(sl, (r, m.clone()));
        (r, m)
    }

    fn z3_check(&mut self, x: &mut Exprs, sl: &[E]) -> (Verdict, Rc<Vec<(u32, u64)>>) {
        let t0 = Instant::now();
        self.stats.z3 += 1;
        if self.nasts > 3_000_000 {
            self.reset_ctx();
        }
        // constraints on one variable with a table form are first merged in one
        let mut merged: Vec<E> = Vec::new();
        let mut tabs: HashMap<u32, E> = HashMap::new();
        for e in sl {
            match (x.single_var(*e), x.as_tab(*e)) {
                (Some(v), Some(_)) => {
                    let c = match tabs.get(&v) {
                        Some(p) => x.and(*p, *e),
                        None => *e,
                    };
                    if x.is_const(c) == Some(0) {
                        self.stats.folded += 1;
                        self.stats.z3 -= 1;
                        self.stats.unsat += 1;
                        return (Verdict::Unsat, Rc::new(vec![]));
                    }
                    tabs.insert(v, c);
                }
                _ => merged.push(*e),
            }
        }
        let mut t: Vec<(u32, E)> = tabs.into_iter().collect();
        t.sort();
        merged.extend(t.into_iter().map(|p| p.1));
        let mut vars: Vec<u32> = Vec::new();
        for e in x.postorder(sl) {
            if let Some(v) = x.var_of(e) {
                vars.push(v);
            }
        }
        vars.sort();
        vars.dedup();
        let sl = &merged;
        // variables only seen through tables are replaced by the index of their class
        let (order, leaves, direct) = Self::leaves(x, sl);
        let mut quot: HashMap<u32, Quot> = HashMap::new();
        for v in &vars {
            if !direct.contains(v) && x.tab_var_ok(*v) {
                let tabs: Vec<(E, Runs)> = leaves.iter().filter(|l| l.1 == *v).map(|l| (l.0, x.as_tab(l.0).unwrap())).collect();
                if !tabs.is_empty() {
                    if let Some(q) = Quot::new(&tabs, x.vars[*v as usize].lo, x.vars[*v as usize].hi) {
                        quot.insert(*v, q);
                    }
                }
            }
        }
        let use_q = !quot.is_empty();
        let mut qvars: HashMap<u32, Ast> = HashMap::new();
        let saved = if use_q { Some((std::mem::take(&mut self.ast), std::mem::take(&mut self.fast))) } else { None };
        let asts: Vec<Ast> = if use_q {
            for (v, q) in &quot {
                let name = CString::new(format!("k{}", v)).unwrap();
                let w = (32 - (q.reps.len() as u32).leading_zeros()).max(1);
                let a = unsafe {
                    let sy = Z3_mk_string_symbol(self.c, name.as_ptr());
                    Z3_mk_const(self.c, sy, Z3_mk_bv_sort(self.c, w))
                };
                qvars.insert(*v, a);
            }
            for (e, v) in &leaves {
                if let Some(q) = quot.get(v) {
                    let vals = &q.vals[e];
                    let a = qvars[v];
                    let w = (32 - (q.reps.len() as u32).leading_zeros()).max(1);
                    let r = self.class_tab(a, w, x.w(*e), vals);
                    self.ast.insert(*e, r);
                } else {
                    self.tr(x, *e);
                }
            }
            for e in &order {
                if !self.ast.contains_key(e) {
                    let a = self.tr1(x, *e);
                    self.ast.insert(*e, a);
                }
            }
            self.nasts += order.len();
            sl.iter().map(|e| self.ast[e]).collect()
        } else {
            sl.iter().map(|e| self.tr(x, *e)).collect()
        };
        if let Some((m, f)) = saved {
            self.ast = m;
            self.fast = f;
        }
        let mut verdict = Verdict::Unknown;
        let mut failed = false;
        let mut out = Vec::new();
        unsafe {
            for round in 0..2 {
                let s = if round == 0 { self.s } else { self.slow };
                for a in &asts {
                    Z3_solver_assert(self.c, s, *a);
                }
                for v in &vars {
                    let b = match quot.get(v) {
                        Some(q) => {
                            let n = q.reps.len() as u32;
                            let w = (32 - n.leading_zeros()).max(1);
                            let k = self.bv(w, n as u64 - 1);
                            Z3_mk_bvule(self.c, qvars[v], k)
                        }
                        None => self.bounds(x, *v),
                    };
                    Z3_solver_assert(self.c, s, b);
                }
                let mut dumped_text = None;
                if round == 0 && self.dump.is_some() && self.dumped < self.max_dump {
                    self.dumped += 1;
                    dumped_text = Some(CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned());
                }
                IN_CHECK.store(true, std::sync::atomic::Ordering::Relaxed);
                let mut r = Z3_solver_check(self.c, s);
                if !IN_CHECK.swap(false, std::sync::atomic::Ordering::Relaxed) {
                    r = 0;
                    failed = true;
                }
                if let (Some(t), Some(d)) = (dumped_text, &self.dump) {
                    if r != 0 {
                        let v = if r == 1 { "sat" } else { "unsat" };
                        let _ = std::fs::write(
                            d.join(format!("q{}_{}.smt2", std::process::id(), self.dumped)),
                            format!("; expected: {}\n(set-logic ALL)\n{}\n(check-sat)\n", v, t),
                        );
                    }
                }
                if r == 1 {
                    verdict = Verdict::Sat;
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    for v in &vars {
                        let ve = x.var_expr(*v);
                        let a = match qvars.get(v) {
                            Some(a) => *a,
                            None => self.tr_var_bv(x, ve),
                        };
                        let mut r: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, a, true, &mut r);
                        assert!(ok);
                        Z3_inc_ref(self.c, r);
                        let mut val = 0u64;
                        let ok = Z3_get_numeral_uint64(self.c, r, &mut val);
                        assert!(ok);
                        Z3_dec_ref(self.c, r);
                        if let Some(q) = quot.get(v) {
                            val = q.reps[val as usize];
                        }
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                } else if r == -1 {
                    verdict = Verdict::Unsat;
                }
                if let (Some(d), true) = (&self.dump, self.dumped <= self.max_dump && round == 0) {
                    let f = d.join(format!("q{}_{}.smt2", std::process::id(), self.dumped));
                    if f.exists() && !d.join(format!("q{}_{}.res", std::process::id(), self.dumped)).exists() {
                        let _ = std::fs::write(d.join(format!("q{}_{}.res", std::process::id(), self.dumped)), format!("{:?}\n", verdict));
                    }
                }
                if failed {
                    break;
                }
                Z3_solver_reset(self.c, s);
                if verdict != Verdict::Unknown {
                    break;
                }
                if round == 1 {
                    let _ = Z3_solver_get_reason_unknown(self.c, s);
                }
            }
        }
        if failed {
            self.reset_ctx();
        }
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        if us > 5000 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("slow {} us {:?} quot {}/{} ", us, verdict, quot.len(), vars.len());
            for e in sl {
                eprintln!("    {}", x.show(*e));
            }
        }
        self.stats.max_us = self.stats.max_us.max(us);
        match verdict {
            Verdict::Sat => self.stats.sat += 1,
            Verdict::Unsat => self.stats.unsat += 1,
            Verdict::Unknown => self.stats.unknown += 1,
        }
        (verdict, Rc::new(out))
    }

    /// nodes to translate in order, maximal table leaves, variables seen directly
    fn leaves(x: &mut Exprs, roots: &[E]) -> (Vec<E>, Vec<(E, u32)>, std::collections::HashSet<u32>) {
        let mut seen = std::collections::HashSet::new();
        let mut order = Vec::new();
        let mut leaves = Vec::new();
        let mut direct = std::collections::HashSet::new();
        let mut stack: Vec<(E, bool)> = roots.iter().map(|r| (*r, false)).collect();
        while let Some((e, done)) = stack.pop() {
            if done {
                order.push(e);
                continue;
            }
            if !seen.insert(e) {
                continue;
            }
            if let Some(v) = x.var_of(e) {
                direct.insert(v);
                order.push(e);
                continue;
            }
            if let Some(v) = x.single_var(e) {
                if x.as_tab(e).is_some() {
                    leaves.push((e, v));
                    continue;
                }
            }
            stack.push((e, true));
            for k in x.kids(e) {
                stack.push((k, false));
            }
        }
        (order, leaves, direct)
    }
    fn class_tab(&mut self, a: Ast, wa: u32, w: u32, vals: &[u64]) -> Ast {
        // by distinct value
        let mut by: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
        for (i, v) in vals.iter().enumerate() {
            by.entry(*v).or_default().push(i as u64);
        }
        let mut acc: Option<Ast> = None;
        let mut groups: Vec<(u64, Vec<u64>)> = by.into_iter().collect();
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        unsafe {
            for (v, idx) in groups {
                let k = if w == 1 {
                    if v == 1 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                } else {
                    self.bv(w, v)
                };
                acc = Some(match acc {
                    None => k,
                    Some(r) => {
                        let eqs: Vec<Ast> = idx
                            .iter()
                            .map(|i| {
                                let b = self.bv(wa, *i);
                                Z3_mk_eq(self.c, a, b)
                            })
                            .collect();
                        let c = Z3_mk_or(self.c, eqs.len() as u32, eqs.as_ptr());
                        Z3_mk_ite(self.c, c, k, r)
                    }
                });
            }
        }
        self.nasts += vals.len() * 2;
        acc.unwrap()
    }
    fn bv(&mut self, w: u32, v: u64) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) }
    }
    fn bounds(&mut self, x: &mut Exprs, v: u32) -> Ast {
        let ve = x.var_expr(v);
        let (w, lo, hi) = {
            let i = &x.vars[v as usize];
            (i.w, i.lo, i.hi)
        };
        let a = self.tr_var_bv(x, ve);
        unsafe {
            let l = self.bv(w, lo);
            let h = self.bv(w, hi);
            let p = [Z3_mk_bvule(self.c, l, a), Z3_mk_bvule(self.c, a, h)];
            Z3_mk_and(self.c, 2, p.as_ptr())
        }
    }
    fn tr_var_bv(&mut self, x: &mut Exprs, e: E) -> Ast {
        // variables are always bit vectors, even of one bit
        let n = x.nodes[e as usize];
        let name = CString::new(format!("v{}", n.a)).unwrap();
        unsafe {
            let s = Z3_mk_string_symbol(self.c, name.as_ptr());
            Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, n.w as u32))
        }
    }
    /// 1 bit expressions are Bool, others are bit vectors
    fn tr(&mut self, x: &mut Exprs, e: E) -> Ast {
        for k in x.postorder(&[e]) {
            if self.ast.contains_key(&k) {
                continue;
            }
            let a = self.tr1(x, k);
            unsafe { Z3_inc_ref(self.c, a) };
            self.ast.insert(k, a);
            self.nasts += 1;
        }
        self.ast[&e]
    }
    fn as_bv(&mut self, x: &Exprs, e: E) -> Ast {
        let a = self.ast[&e];
        if x.w(e) == 1 {
            let one = self.bv(1, 1);
            let zero = self.bv(1, 0);
            unsafe { Z3_mk_ite(self.c, a, one, zero) }
        } else {
            a
        }
    }
    fn to_bool(&mut self, a: Ast) -> Ast {
        let one = self.bv(1, 1);
        unsafe { Z3_mk_eq(self.c, a, one) }
    }
    fn fsort(&self, w: u32) -> Sort {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_single(self.c)
            } else {
                Z3_mk_fpa_sort_double(self.c)
            }
        }
    }
    fn keep_f(&mut self, e: E, f: Ast) {
        // never released before the context: these are few
        unsafe { Z3_inc_ref(self.c, f) };
        self.fast.insert(e, f);
    }
    fn to_f(&mut self, x: &Exprs, e: E) -> Ast {
        let a = self.as_bv(x, e);
        if let Some(f) = self.fast.get(&e) {
            return *f;
        }
        let f = unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(x.w(e))) };
        self.keep_f(e, f);
        f
    }
    fn tr1(&mut self, x: &mut Exprs, e: E) -> Ast {
        let n = x.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => {
                    let v = x.is_const(e).unwrap();
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if w <= 64 {
                        self.bv(w, v as u64)
                    } else {
                        let lo = self.bv(64, v as u64);
                        let hi = self.bv(w - 64, (v >> 64) as u64);
                        Z3_mk_concat(c, hi, lo)
                    }
                }
                Op::Var => {
                    let a = self.tr_var_bv(x, e);
                    if w == 1 {
                        self.to_bool(a)
                    } else {
                        a
                    }
                }
                Op::Eq => Z3_mk_eq(c, self.ast[&n.a], self.ast[&n.b]),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.as_bv(x, n.a);
                    let b = self.as_bv(x, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let p = [self.ast[&n.a], self.ast[&n.b]];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, p.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, p.as_ptr()),
                        _ => {
                            if x.is_const(n.b) == Some(1) {
                                Z3_mk_not(c, p[0])
                            } else {
                                Z3_mk_xor(c, p[0], p[1])
                            }
                        }
                    }
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                    let a = self.as_bv(x, n.a);
                    let b = self.as_bv(x, n.b);
                    // operations staying in a small interval are done on few bits
                    let (ma, mb, mr) = (x.meta[n.a as usize], x.meta[n.b as usize], x.meta[e as usize]);
                    if w <= 64 && w > 16 && matches!(n.op, Op::Add | Op::Sub) {
                        let top = ma.hi.max(mb.hi).max(mr.hi);
                        let ok = match n.op {
                            Op::Add => ma.hi.checked_add(mb.hi).map_or(false, |s| s <= mr.hi),
                            _ => ma.lo >= mb.hi,
                        };
                        let k = (64 - top.leading_zeros()).max(1);
                        if ok && k <= w / 2 {
                            let a = Z3_mk_extract(c, k - 1, 0, a);
                            let b = Z3_mk_extract(c, k - 1, 0, b);
                            let r = if n.op == Op::Add { Z3_mk_bvadd(c, a, b) } else { Z3_mk_bvsub(c, a, b) };
                            return Z3_mk_zero_ext(c, w - k, r);
                        }
                    }
                    if w <= 64 && w > 16 && matches!(n.op, Op::Mul | Op::UDiv | Op::URem) {
                        let k = (64 - ma.hi.max(mb.hi).max(mr.hi).leading_zeros()).max(1);
                        if k <= w / 2 {
                            let a = Z3_mk_extract(c, k - 1, 0, a);
                            let b = Z3_mk_extract(c, k - 1, 0, b);
                            let r = match n.op {
                                Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                                _ => Z3_mk_bvurem(c, a, b),
                            };
                            return Z3_mk_zero_ext(c, w - k, r);
                        }
                    }
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        _ => Z3_mk_bvxor(c, a, b),
                    };
                    if w == 1 {
                        self.to_bool(r)
                    } else {
                        r
                    }
                }
                Op::Ite => Z3_mk_ite(c, self.ast[&n.a], self.ast[&n.b], self.ast[&n.c]),
                Op::Concat => {
                    let a = self.as_bv(x, n.a);
                    let b = self.as_bv(x, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.as_bv(x, n.a);
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    if w == 1 {
                        self.to_bool(r)
                    } else {
                        r
                    }
                }
                Op::ZExt | Op::SExt => {
                    let a = self.as_bv(x, n.a);
                    let d = w - x.w(n.a);
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, d, a)
                    } else {
                        Z3_mk_sign_ext(c, d, a)
                    }
                }
                Op::Tab => {
                    let a = self.as_bv(x, n.a);
                    let va = x.w(n.a);
                    let t = x.tabs[n.b as usize].clone();
                    if w == 1 {
                        // union of ranges
                        let mut parts: Vec<Ast> = Vec::new();
                        for (i, (s, v)) in t.iter().enumerate() {
                            if *v == 0 {
                                continue;
                            }
                            let mut p: Vec<Ast> = Vec::new();
                            if *s > 0 {
                                let k = self.bv(va, *s as u64);
                                p.push(Z3_mk_bvule(c, k, a));
                            }
                            if i + 1 < t.len() {
                                let k = self.bv(va, t[i + 1].0 as u64 - 1);
                                p.push(Z3_mk_bvule(c, a, k));
                            }
                            parts.push(Z3_mk_and(c, p.len() as u32, p.as_ptr()));
                        }
                        Z3_mk_or(c, parts.len() as u32, parts.as_ptr())
                    } else {
                        self.tab_tree(a, va, w, &t)
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.to_f(x, n.a);
                    let b = self.to_f(x, n.b);
                    let r = Z3_mk_fpa_rne(c);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, r, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, r, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, r, a, b),
                        _ => Z3_mk_fpa_div(c, r, a, b),
                    };
                    {
                        self.keep_f(e, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                }
                Op::FOrdLt | Op::FOrdLe | Op::FOrdEq | Op::FUno => {
                    let a = self.to_f(x, n.a);
                    let b = self.to_f(x, n.b);
                    match n.op {
                        Op::FOrdLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FOrdLe => Z3_mk_fpa_leq(c, a, b),
                        Op::FOrdEq => Z3_mk_fpa_eq(c, a, b),
                        _ => {
                            let p = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                            Z3_mk_or(c, 2, p.as_ptr())
                        }
                    }
                }
                Op::FRtz | Op::FRna | Op::FRtp | Op::FRtn => {
                    let a = self.to_f(x, n.a);
                    let r = match n.op {
                        Op::FRtz => Z3_mk_fpa_rtz(c),
                        Op::FRna => Z3_mk_fpa_rna(c),
                        Op::FRtp => Z3_mk_fpa_rtp(c),
                        _ => Z3_mk_fpa_rtn(c),
                    };
                    let f = Z3_mk_fpa_round_to_integral(c, r, a);
                    {
                        self.keep_f(e, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                }
                Op::UiToFp | Op::SiToFp => {
                    let a = self.as_bv(x, n.a);
                    let r = Z3_mk_fpa_rne(c);
                    let f = if n.op == Op::UiToFp {
                        Z3_mk_fpa_to_fp_unsigned(c, r, a, self.fsort(w))
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, r, a, self.fsort(w))
                    };
                    {
                        self.keep_f(e, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                }
                Op::FpToUi | Op::FpToSi => {
                    let a = self.to_f(x, n.a);
                    let r = Z3_mk_fpa_rtz(c);
                    if n.op == Op::FpToUi {
                        Z3_mk_fpa_to_ubv(c, r, a, w)
                    } else {
                        Z3_mk_fpa_to_sbv(c, r, a, w)
                    }
                }
                Op::FpExt | Op::FpTrunc => {
                    let a = self.to_f(x, n.a);
                    let r = Z3_mk_fpa_rne(c);
                    let f = Z3_mk_fpa_to_fp_float(c, r, a, self.fsort(w));
                    {
                        self.keep_f(e, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                }
            }
        }
    }
    fn tab_tree(&mut self, a: Ast, va: u32, w: u32, t: &[(u32, u64)]) -> Ast {
        if t.len() == 1 {
            return self.bv(w, t[0].1);
        }
        let m = t.len() / 2;
        let l = self.tab_tree(a, va, w, &t[..m]);
        let r = self.tab_tree(a, va, w, &t[m..]);
        let k = self.bv(va, t[m].0 as u64);
        unsafe {
            let cnd = Z3_mk_bvult(self.c, a, k);
            Z3_mk_ite(self.c, cnd, l, r)
        }
    }
}
