//! Hash-consed bit-vector expressions with an aggressive simplifier.
//!
//! `Tab(v, t)` is an arbitrary function of one variable, given as a run-length table: it is how
//! reads of constant tables (unicode width, whitespace, ...) at a symbolic index are encoded.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Tab,
    // floating point (on raw bits), f32 only when w==32, f64 when w==64
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOrdLt,
    FOrdLe,
    FOrdEq,
    FUno,
    FRtz,  // round to integral towards zero
    FRna,  // round to integral, ties away
    FRtp,  // ceil
    FRtn,  // floor
    UiToFp, // w = result width, from a's width
    SiToFp,
    FpToUi, // saturating semantics are built around
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
pub struct Meta {
    pub vars: u128,
    /// a table is used somewhere
    pub tab: bool,
    pub lo: u64,
    pub hi: u64,
    pub ah: u128,
}

pub type Runs = Rc<Vec<(u32, u64)>>;

pub struct VarInfo {
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    pub name: String,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, E, BuildFx>,
    consts: Vec<u128>,
    cmap: HashMap<(u128, u8), E, BuildFx>,
    pub vars: Vec<VarInfo>,
    pub tabs: Vec<Runs>,
    tmap: HashMap<Runs, u32>,
    tab_of: HashMap<E, Option<Runs>, BuildFx>,
    tried: HashMap<E, E, BuildFx>,
    // evaluation
    val: Vec<u128>,
    stamp: Vec<u32>,
    cur_stamp: u32,
    cur_model: u64,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0x9e3779b97f4a7c15)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

fn mix(h: u128, x: u128) -> u128 {
    let a = (h ^ x).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
    (a ^ (a >> 61)).wrapping_mul(0xd6e8feb86659fd93a0761d6478bd642f).rotate_left(37)
}

/// concrete semantics of a binary op
pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s.min(127)) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => panic!("cbin {:?}", op),
    }) & if is_cmp(op) { 1 } else { m }
}
pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn cfp(op: Op, w: u32, wa: u32, a: u128, b: u128) -> u128 {
    let f = |x: u128| f32::from_bits(x as u32);
    let d = |x: u128| f64::from_bits(x as u64);
    let single = match op {
        Op::UiToFp | Op::SiToFp => w == 32,
        _ => wa == 32,
    };
    if single {
        let r = |x: f32| x.to_bits() as u128;
        match op {
            Op::FAdd => r(f(a) + f(b)),
            Op::FSub => r(f(a) - f(b)),
            Op::FMul => r(f(a) * f(b)),
            Op::FDiv => r(f(a) / f(b)),
            Op::FOrdLt => (f(a) < f(b)) as u128,
            Op::FOrdLe => (f(a) <= f(b)) as u128,
            Op::FOrdEq => (f(a) == f(b)) as u128,
            Op::FUno => (f(a).is_nan() || f(b).is_nan()) as u128,
            Op::FRtz => r(f(a).trunc()),
            Op::FRna => r(f(a).round()),
            Op::FRtp => r(f(a).ceil()),
            Op::FRtn => r(f(a).floor()),
            Op::UiToFp => r(a as f32),
            Op::SiToFp => r(sext(a, wa) as f32),
            Op::FpToUi => (f(a) as u128) & mask(w),
            Op::FpToSi => ((f(a) as i128) as u128) & mask(w),
            Op::FpExt => (f(a) as f64).to_bits() as u128,
            _ => panic!(),
        }
    } else {
        let r = |x: f64| x.to_bits() as u128;
        match op {
            Op::FAdd => r(d(a) + d(b)),
            Op::FSub => r(d(a) - d(b)),
            Op::FMul => r(d(a) * d(b)),
            Op::FDiv => r(d(a) / d(b)),
            Op::FOrdLt => (d(a) < d(b)) as u128,
            Op::FOrdLe => (d(a) <= d(b)) as u128,
            Op::FOrdEq => (d(a) == d(b)) as u128,
            Op::FUno => (d(a).is_nan() || d(b).is_nan()) as u128,
            Op::FRtz => r(d(a).trunc()),
            Op::FRna => r(d(a).round()),
            Op::FRtp => r(d(a).ceil()),
            Op::FRtn => r(d(a).floor()),
            Op::UiToFp => r(a as f64),
            Op::SiToFp => r(sext(a, wa) as f64),
            Op::FpToUi => (d(a) as u128) & mask(w),
            Op::FpToSi => ((d(a) as i128) as u128) & mask(w),
            Op::FpTrunc => (d(a) as f32).to_bits() as u128,
            _ => panic!(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Sl {
    K(u128),
    X(E, u32), // base expr, lo bit
}

impl Exprs {
    pub fn new() -> Self {
        Self {
            nodes: Vec::new(),
            meta: Vec::new(),
            map: Default::default(),
            consts: Vec::new(),
            cmap: Default::default(),
            vars: Vec::new(),
            tabs: Vec::new(),
            tmap: Default::default(),
            tab_of: Default::default(),
            tried: Default::default(),
            val: Vec::new(),
            stamp: Vec::new(),
            cur_stamp: 1,
            cur_model: 0,
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w as u8)) {
            return *e;
        }
        let k = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: k, b: 0, c: 0 });
        self.meta.push(Meta { vars: 0, tab: false, lo: v as u64, hi: v as u64, ah: mix(mix(1, v), w as u128) });
        self.cmap.insert((v, w as u8), e);
        e
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn new_var(&mut self, name: &str, w: u32, lo: u64, hi: u64) -> E {
        let idx = self.vars.len() as u32;
        self.vars.push(VarInfo { w, lo, hi, name: name.to_string() });
        self.var_expr(idx)
    }
    pub fn var_expr(&mut self, idx: u32) -> E {
        let v = &self.vars[idx as usize];
        let (w, lo, hi) = (v.w, v.lo, v.hi);
        let n = Node { op: Op::Var, w: w as u8, a: idx, b: 0, c: 0 };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        let bit = if idx < 127 { 1u128 << idx } else { 1u128 << 127 };
        self.meta.push(Meta { vars: bit, tab: false, lo, hi, ah: mix(2, w as u128) });
        self.map.insert(n, e);
        e
    }
    pub fn var_of(&self, e: E) -> Option<u32> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Var {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn single_var(&self, e: E) -> Option<u32> {
        let v = self.meta[e as usize].vars;
        if v.count_ones() == 1 && v != 1u128 << 127 {
            Some(v.trailing_zeros())
        } else {
            None
        }
    }
    fn full(w: u32) -> (u64, u64) {
        (0, if w >= 64 { u64::MAX } else { mask(w) as u64 })
    }
    /// create node with no simplification
    pub fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let (k1, k2, k3);
        let w = n.w as u32;
        let mut ah = mix(n.op as u128 + 10, n.w as u128);
        let mut vars = 0;
        {
            k1 = self.meta[n.a as usize];
            vars |= k1.vars;
            ah = mix(ah, k1.ah);
            let nb = match n.op {
                Op::Extract => {
                    k2 = Meta { vars: 0, tab: false, lo: 0, hi: 0, ah: n.b as u128 + 77 };
                    ah = mix(ah, k2.ah);
                    k2
                }
                Op::Tab => {
                    let t = &self.tabs[n.b as usize];
                    for (s, v) in t.iter() {
                        ah = mix(ah, (*s as u128) << 64 | *v as u128);
                    }
                    Meta { vars: 0, tab: false, lo: 0, hi: 0, ah: 0 }
                }
                Op::ZExt | Op::SExt | Op::FRtz | Op::FRna | Op::FRtp | Op::FRtn | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc => Meta { vars: 0, tab: false, lo: 0, hi: 0, ah: 0 },
                _ => {
                    k2 = self.meta[n.b as usize];
                    vars |= k2.vars;
                    ah = mix(ah, k2.ah);
                    k2
                }
            };
            if n.op == Op::Ite {
                k3 = self.meta[n.c as usize];
                vars |= k3.vars;
                ah = mix(ah, k3.ah);
            } else {
                k3 = Meta { vars: 0, tab: false, lo: 0, hi: 0, ah: 0 };
            }
            let (mut lo, mut hi) = Self::full(w);
            if w <= 64 {
                let m = mask(w) as u64;
                match n.op {
                    Op::ZExt => {
                        lo = k1.lo;
                        hi = k1.hi;
                    }
                    Op::Extract => {
                        let wa = self.w(n.a);
                        if wa <= 64 {
                            let l = k1.lo >> n.b;
                            let h = k1.hi >> n.b;
                            if h <= m {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::Concat => {
                        let wl = self.w(n.b);
                        lo = k1.lo << wl | nb.lo;
                        hi = k1.hi << wl | nb.hi;
                    }
                    Op::Add => {
                        if let (Some(l), Some(h)) = (k1.lo.checked_add(nb.lo), k1.hi.checked_add(nb.hi)) {
                            if h <= m {
                                lo = l;
                                hi = h;
                            } else if l > m {
                                // both wrapped
                                if h - l <= m && (l & m) <= (h & m) {
                                    lo = l & m;
                                    hi = h & m;
                                }
                            } else if (l & m) <= (h & m) && h - l <= m {
                                lo = l & m;
                                hi = h & m;
                            }
                        } else {
                            // 64 bit wrap of both
                            let l = k1.lo.wrapping_add(nb.lo);
                            let h = k1.hi.wrapping_add(nb.hi);
                            let (c1, c2) = (k1.lo.checked_add(nb.lo).is_none(), k1.hi.checked_add(nb.hi).is_none());
                            if w == 64 && c1 && c2 && l <= h {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::Sub => {
                        if k1.lo >= nb.hi {
                            lo = k1.lo - nb.hi;
                            hi = k1.hi - nb.lo;
                        }
                    }
                    Op::Mul => {
                        if let (Some(l), Some(h)) = (k1.lo.checked_mul(nb.lo), k1.hi.checked_mul(nb.hi)) {
                            if h <= m {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::UDiv => {
                        if nb.lo > 0 {
                            lo = k1.lo / nb.hi;
                            hi = k1.hi / nb.lo;
                        } else {
                            // a null divisor is always refused before the division
                            hi = k1.hi;
                        }
                    }
                    Op::URem => {
                        if nb.lo > 0 {
                            hi = (nb.hi - 1).min(k1.hi);
                        } else {
                            hi = k1.hi.min(nb.hi);
                        }
                    }
                    Op::And => {
                        hi = k1.hi.min(nb.hi);
                    }
                    Op::Or | Op::Xor => {
                        let mm = k1.hi | nb.hi;
                        hi = if mm == 0 { 0 } else { (u64::MAX >> mm.leading_zeros()).min(m) };
                        if n.op == Op::Or {
                            lo = k1.lo.max(nb.lo);
                        }
                    }
                    Op::LShr => {
                        if nb.lo == nb.hi && nb.lo < 64 {
                            lo = k1.lo >> nb.lo;
                            hi = k1.hi >> nb.lo;
                        } else {
                            hi = k1.hi;
                        }
                    }
                    Op::Ite => {
                        lo = nb.lo.min(k3.lo);
                        hi = nb.hi.max(k3.hi);
                    }
                    Op::Tab => {
                        let t = &self.tabs[n.b as usize];
                        lo = t.iter().map(|x| x.1).min().unwrap();
                        hi = t.iter().map(|x| x.1).max().unwrap();
                    }
                    _ => {}
                }
            }
            let e = self.nodes.len() as E;
            self.nodes.push(n);
            let tab = n.op == Op::Tab || k1.tab || nb.tab || k3.tab;
            self.meta.push(Meta { vars, tab, lo, hi, ah });
            self.map.insert(n, e);
            e
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        self.raw(Node { op, w: w as u8, a, b, c })
    }
    pub fn t(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.konst(0, 1)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.konst(mask(self.w(a)), self.w(a));
        self.bin(Op::Xor, a, one)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    // ---- tables

    pub fn tab(&mut self, var: u32, runs: Vec<(u32, u64)>, w: u32) -> E {
        // clip to the var's domain & merge
        let (lo, hi) = (self.vars[var as usize].lo, self.vars[var as usize].hi);
        let mut r: Vec<(u32, u64)> = Vec::new();
        for (i, (s, v)) in runs.iter().enumerate() {
            let end = if i + 1 < runs.len() { runs[i + 1].0 as u64 - 1 } else { u32::MAX as u64 };
            if end < lo {
                continue;
            }
            if *s as u64 > hi {
                break;
            }
            let s = if r.is_empty() { 0 } else { *s };
            if let Some(l) = r.last() {
                if l.1 == *v {
                    continue;
                }
            }
            r.push((s, *v));
        }
        if r.len() == 1 {
            return self.konst(r[0].1 as u128, w);
        }
        let r = Rc::new(r);
        let id = match self.tmap.get(&r) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(r.clone());
                self.tmap.insert(r.clone(), i);
                i
            }
        };
        let ve = self.var_expr(var);
        self.mk(Op::Tab, w, ve, id, 0)
    }
    pub fn tab_var_ok(&self, var: u32) -> bool {
        self.vars[var as usize].hi <= 0x1FFFFF
    }
    /// the expression as a run table on its single variable, if it's simple
    pub fn as_tab(&mut self, e: E) -> Option<Runs> {
        let n = self.nodes[e as usize];
        if n.op == Op::Tab {
            return Some(self.tabs[n.b as usize].clone());
        }
        if n.op == Op::Const || n.op == Op::Var {
            return None;
        }
        let v = self.single_var(e)?;
        if !self.tab_var_ok(v) {
            return None;
        }
        if let Some(r) = self.tab_of.get(&e) {
            return r.clone();
        }
        let mut r = self.compute_tab(e, n);
        if r.is_none() && n.w == 1 {
            let t = self.force_tab(e);
            if self.nodes[t as usize].op == Op::Tab {
                r = Some(self.tabs[self.nodes[t as usize].b as usize].clone());
            } else if let Some(k) = self.is_const(t) {
                r = Some(Rc::new(vec![(0, k as u64)]));
            }
        }
        self.tab_of.insert(e, r.clone());
        r
    }
    fn compute_tab(&mut self, e: E, n: Node) -> Option<Runs> {
        let _ = e;
        match n.op {
            Op::Eq | Op::Ult | Op::Ule => {
                // var (maybe extended) against a const
                let (va, ka) = (self.plain_var(n.a), self.is_const(n.a));
                let (vb, kb) = (self.plain_var(n.b), self.is_const(n.b));
                let lim = 0x200000u128;
                let build = |cuts: Vec<(u128, u64)>| {
                    let mut r: Vec<(u32, u64)> = Vec::new();
                    for (i, (s, v)) in cuts.iter().enumerate() {
                        if i + 1 < cuts.len() && cuts[i + 1].0 <= *s {
                            continue;
                        }
                        if *s >= lim {
                            break;
                        }
                        if let Some(l) = r.last() {
                            if l.1 == *v {
                                continue;
                            }
                        }
                        r.push((*s as u32, *v));
                    }
                    Some(Rc::new(r))
                };
                match (n.op, va, ka, vb, kb) {
                    (Op::Eq, true, _, _, Some(k)) | (Op::Eq, _, Some(k), true, _) => build(vec![(0, 0), (k, 1), (k.saturating_add(1), 0)]),
                    (Op::Ult, true, _, _, Some(k)) => build(vec![(0, 1), (k, 0)]),
                    (Op::Ule, true, _, _, Some(k)) => build(vec![(0, 1), (k.saturating_add(1), 0)]),
                    (Op::Ult, _, Some(k), true, _) => build(vec![(0, 0), (k.saturating_add(1), 1)]),
                    (Op::Ule, _, Some(k), true, _) => build(vec![(0, 0), (k, 1)]),
                    _ => None,
                }
            }
            Op::And | Op::Or | Op::Xor if n.w == 1 => {
                let ta = self.tab_or_const(n.a)?;
                let tb = self.tab_or_const(n.b)?;
                Some(Rc::new(zip_runs(&ta, &tb, |x, y| cbin(n.op, 1, x as u128, y as u128) as u64)))
            }
            _ => None,
        }
    }
    fn tab_or_const(&mut self, e: E) -> Option<Runs> {
        if let Some(k) = self.is_const(e) {
            return Some(Rc::new(vec![(0, k as u64)]));
        }
        self.as_tab(e)
    }
    fn plain_var(&self, e: E) -> bool {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Var => true,
            Op::ZExt => self.plain_var(n.a),
            Op::Extract if n.b == 0 => {
                // truncation losing nothing
                self.plain_var(n.a) && self.meta[n.a as usize].hi <= mask(n.w as u32) as u64
            }
            _ => false,
        }
    }

    // ---- slices

    fn slices(&self, e: E, out: &mut Vec<(u32, Sl)>) {
        // from low to high
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => out.push((n.w as u32, Sl::K(self.consts[n.a as usize]))),
            Op::Concat => {
                self.slices(n.b, out);
                self.slices(n.a, out);
            }
            Op::ZExt => {
                self.slices(n.a, out);
                let wa = self.w(n.a);
                out.push((n.w as u32 - wa, Sl::K(0)));
            }
            Op::Extract => out.push((n.w as u32, Sl::X(n.a, n.b))),
            _ => out.push((n.w as u32, Sl::X(e, 0))),
        }
    }
    fn split_at(v: &mut Vec<(u32, Sl)>, cuts: &[u32]) {
        let mut out = Vec::new();
        let mut pos = 0;
        for (w, s) in v.iter() {
            let mut w = *w;
            let mut s = *s;
            for c in cuts {
                if *c > pos && *c < pos + w {
                    let first = c - pos;
                    match s {
                        Sl::K(k) => {
                            out.push((first, Sl::K(k & mask(first))));
                            s = Sl::K(k >> first);
                        }
                        Sl::X(e, lo) => {
                            out.push((first, Sl::X(e, lo)));
                            s = Sl::X(e, lo + first);
                        }
                    }
                    w -= first;
                    pos += first;
                }
            }
            out.push((w, s));
            pos += w;
        }
        *v = out;
    }
    fn build(&mut self, v: &[(u32, Sl)]) -> E {
        // merge adjacent
        let mut m: Vec<(u32, Sl)> = Vec::new();
        for (w, s) in v {
            if *w == 0 {
                continue;
            }
            if let Some((lw, ls)) = m.last_mut() {
                match (ls, s) {
                    (Sl::K(k), Sl::K(k2)) => {
                        *k |= *k2 << *lw;
                        *lw += w;
                        continue;
                    }
                    (Sl::X(e, lo), Sl::X(e2, lo2)) if e == e2 && *lo2 == *lo + *lw => {
                        *lw += w;
                        continue;
                    }
                    _ => {}
                }
            }
            m.push((*w, *s));
        }
        let mut acc: Option<E> = None;
        let cnt = m.len();
        for (i, (w, s)) in m.iter().enumerate() {
            if i + 1 == cnt && i > 0 {
                if let Sl::K(0) = s {
                    // zero extension
                    let a = acc.unwrap();
                    let wa = self.w(a);
                    return self.mk(Op::ZExt, wa + w, a, 0, 0);
                }
            }
            let e = match s {
                Sl::K(k) => self.konst(*k, *w),
                Sl::X(e, lo) => {
                    if *lo == 0 && self.w(*e) == *w {
                        *e
                    } else {
                        let r = self.mk(Op::Extract, *w, *e, *lo, 0);
                        self.try_tab(r)
                    }
                }
            };
            acc = Some(match acc {
                None => e,
                Some(a) => {
                    let wt = self.w(a) + w;
                    self.mk(Op::Concat, wt, e, a, 0)
                }
            });
        }
        acc.unwrap()
    }

    // ---- constructors

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(k >> lo, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, wi - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Tab => {
                let runs = self.tabs[n.b as usize].clone();
                let v = self.var_of(n.a).unwrap();
                let r = runs.iter().map(|(s, x)| (*s, (*x >> lo) & mask(w) as u64)).collect();
                return self.tab(v, r, w);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let b = self.extract(n.b, lo, w);
                    let c = self.extract(n.c, lo, w);
                    return self.ite(n.a, b, c);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() || self.is_const(n.a).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncation distributes
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        if wa <= 64 && lo < 64 && (self.meta[a as usize].hi >> lo) == 0 {
            return self.konst(0, w);
        }
        let r = self.mk(Op::Extract, w, a, lo, 0);
        self.try_tab(r)
    }
    /// a narrow function of one variable, computed through a table, as a table itself
    fn try_tab(&mut self, e: E) -> E {
        let m = self.meta[e as usize];
        if !m.tab || self.w(e) > 8 || self.nodes[e as usize].op == Op::Tab {
            return e;
        }
        self.force_tab(e)
    }
    fn force_tab(&mut self, e: E) -> E {
        let Some(v) = self.single_var(e) else { return e };
        if !self.tab_var_ok(v) {
            return e;
        }
        if let Some(r) = self.tried.get(&e) {
            return *r;
        }
        let mut r = e;
        if let Some((_, t)) = self.tabulate(e) {
            let lo = self.vars[v as usize].lo;
            let mut runs: Vec<(u32, u64)> = Vec::new();
            for (i, y) in t.iter().enumerate() {
                if runs.last().map_or(true, |l| l.1 != *y) {
                    runs.push((if i == 0 { 0 } else { lo as u32 + i as u32 }, *y));
                    if runs.len() > 6000 {
                        break;
                    }
                }
            }
            if runs.len() <= 6000 {
                let w = self.w(e);
                r = self.tab(v, runs, w);
            }
        }
        self.tried.insert(e, r);
        r
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        if let Some(k) = self.is_const(hi) {
            if let Some(l) = self.is_const(lo) {
                let wl = self.w(lo);
                return self.konst(k << wl | l, wl + self.w(hi));
            }
            if k == 0 {
                let w = self.w(hi) + self.w(lo);
                return self.zext(lo, w);
            }
        }
        // concat of Ite/Tab bytes of same origin: only through slices
        let mut v = Vec::new();
        self.slices(lo, &mut v);
        self.slices(hi, &mut v);
        // tabs: combine when both are tabs/consts of one var
        if v.len() == 2 {
            if let Some(r) = self.tab_bin(hi, lo, |s, a, b| a << s.w(lo) | b) {
                let w = self.w(hi) + self.w(lo);
                if w <= 64 {
                    let var = self.single_var(hi).or(self.single_var(lo)).unwrap();
                    return self.tab(var, r, w);
                }
            }
        }
        self.build(&v)
    }
    fn tab_bin(&mut self, a: E, b: E, f: impl Fn(&Self, u64, u64) -> u64) -> Option<Vec<(u32, u64)>> {
        let is_t = |s: &Self, e: E| s.nodes[e as usize].op == Op::Tab;
        if !(is_t(self, a) || is_t(self, b)) {
            return None;
        }
        let (va, vb) = (self.meta[a as usize].vars, self.meta[b as usize].vars);
        if va != 0 && vb != 0 && va != vb {
            return None;
        }
        let ta = self.tab_or_const(a)?;
        let tb = self.tab_or_const(b)?;
        if ta.len() + tb.len() > 8192 {
            return None;
        }
        Some(zip_runs(&ta, &tb, |x, y| f(self, x, y)))
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(k, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Tab if w <= 64 => {
                return self.mk(Op::Tab, w, n.a, n.b, 0);
            }
            Op::Ite if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() => {
                let b = self.zext(n.b, w);
                let c = self.zext(n.c, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(sext(k, wa) as u128, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Tab && w <= 64 {
            let runs = self.tabs[n.b as usize].clone();
            let v = self.var_of(n.a).unwrap();
            let r = runs.iter().map(|(s, x)| (*s, (sext(*x as u128, wa) as u128 & mask(w)) as u64)).collect();
            return self.tab(v, r, w);
        }
        if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
            let b = self.sext(n.b, w);
            let c = self.sext(n.c, w);
            return self.ite(n.a, b, c);
        }
        if wa <= 64 && self.meta[a as usize].hi <= (mask(wa) >> 1) as u64 {
            return self.zext(a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let n = self.nodes[c as usize];
        if n.op == Op::Xor {
            // negation
            if self.is_const(n.b) == Some(1) {
                return self.ite(n.a, b, a);
            }
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // tables
        if w <= 64 {
            let (ka, kb) = (self.is_const(a).is_some(), self.is_const(b).is_some());
            let ta = ka || self.nodes[a as usize].op == Op::Tab;
            let tb = kb || self.nodes[b as usize].op == Op::Tab;
            if ta && tb {
                let vc = self.meta[c as usize].vars;
                let va = self.meta[a as usize].vars;
                let vb = self.meta[b as usize].vars;
                if (va == 0 || va == vc) && (vb == 0 || vb == vc) {
                    if let Some(tc) = self.as_tab(c) {
                        let ra = self.tab_or_const(a).unwrap();
                        let rb = self.tab_or_const(b).unwrap();
                        if tc.len() + ra.len() + rb.len() < 8192 {
                            let ab = zip_runs3(&tc, &ra, &rb);
                            let v = self.single_var(c).unwrap();
                            return self.tab(v, ab, w);
                        }
                    }
                }
            }
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.konst(cbin(op, w, x, y), 1);
        }
        if a == b {
            return self.konst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        if op == Op::Eq && self.is_const(a).is_some() {
            return self.cmp(op, b, a);
        }
        if let Some(r) = self.tab_bin(a, b, |_, x, y| cbin(op, w, x as u128, y as u128) as u64) {
            let v = self.single_var(a).or(self.single_var(b)).unwrap();
            return self.tab(v, r, 1);
        }
        // signed compare of non negative values
        if matches!(op, Op::Slt | Op::Sle) && w <= 64 {
            let half = (mask(w) >> 1) as u64;
            let sign = |m: Meta| if m.hi <= half { Some(false) } else if m.lo > half { Some(true) } else { None };
            if let (Some(x), Some(y)) = (sign(self.meta[a as usize]), sign(self.meta[b as usize])) {
                if x == y {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                return self.konst(x as u128, 1);
            }
        }
        if w <= 64 {
            let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
            match op {
                Op::Eq => {
                    if ma.hi < mb.lo || mb.hi < ma.lo {
                        return self.f();
                    }
                }
                Op::Ult => {
                    if ma.hi < mb.lo {
                        return self.t();
                    }
                    if ma.lo >= mb.hi {
                        return self.f();
                    }
                }
                Op::Ule => {
                    if ma.hi <= mb.lo {
                        return self.t();
                    }
                    if ma.lo > mb.hi {
                        return self.f();
                    }
                }
                _ => {}
            }
        }
        if op == Op::Ule {
            // canonical: x <= k  ->  x < k+1 ; k <= x -> !(x < k)
            if let Some(k) = self.is_const(b) {
                if k < mask(w) {
                    let k1 = self.konst(k + 1, w);
                    return self.cmp(Op::Ult, a, k1);
                }
                return self.t();
            }
            if let Some(k) = self.is_const(a) {
                if k == 0 {
                    return self.t();
                }
                let k1 = self.konst(k - 1, w);
                return self.cmp(Op::Ult, k1, b);
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        // constants against structures
        if let Some(k) = self.is_const(b) {
            match na.op {
                Op::ZExt if matches!(op, Op::Eq | Op::Ult) => {
                    let wi = self.w(na.a);
                    if k > mask(wi) {
                        return self.konst((op != Op::Eq) as u128, 1);
                    }
                    let k2 = self.konst(k, wi);
                    return self.cmp(op, na.a, k2);
                }
                Op::Concat if matches!(op, Op::Eq | Op::Ult) => {
                    let wl = self.w(na.b);
                    if let Some(kh) = self.is_const(na.a) {
                        let h = k >> wl;
                        if op == Op::Eq {
                            if h != kh {
                                return self.f();
                            }
                        } else {
                            if kh < h {
                                return self.t();
                            }
                            if kh > h {
                                return self.f();
                            }
                        }
                        let k2 = self.konst(k, wl);
                        return self.cmp(op, na.b, k2);
                    }
                    if op == Op::Eq {
                        let wh = self.w(na.a);
                        let kh = self.konst(k >> wl, wh);
                        let kl = self.konst(k, wl);
                        let x = self.cmp(Op::Eq, na.a, kh);
                        let y = self.cmp(Op::Eq, na.b, kl);
                        return self.and(x, y);
                    }
                }
                Op::Ite => {
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let x = self.cmp(op, na.b, b);
                        let y = self.cmp(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Xor if op == Op::Eq => {
                    if let Some(kk) = self.is_const(na.b) {
                        let k2 = self.konst(k ^ kk, w);
                        return self.cmp(op, na.a, k2);
                    }
                }
                Op::Add if op == Op::Eq => {
                    if let Some(kk) = self.is_const(na.b) {
                        let k2 = self.konst(k.wrapping_sub(kk), w);
                        return self.cmp(op, na.a, k2);
                    }
                }
                Op::Add if op == Op::Ult && w <= 64 => {
                    // (x + c) < k, as used for range checks
                    if let Some(c) = self.is_const(na.b) {
                        let m = self.meta[na.a as usize];
                        let neg = (0u128.wrapping_sub(c)) & mask(w); // x - neg
                        if neg != 0 && c > mask(w) / 2 {
                            // x in [neg, neg + k)
                            if neg + k <= mask(w) {
                                let lo = self.konst(neg, w);
                                let hi = self.konst(neg + k, w);
                                let x = self.cmp(Op::Ule, lo, na.a);
                                let y = self.cmp(Op::Ult, na.a, hi);
                                return self.and(x, y);
                            }
                        } else if (m.hi as u128) + c <= mask(w) {
                            if k <= c {
                                return self.f();
                            }
                            let k2 = self.konst(k - c, w);
                            return self.cmp(Op::Ult, na.a, k2);
                        }
                    }
                }
                _ => {}
            }
            if op == Op::Ult {
                if k == 0 {
                    return self.f();
                }
                if k == 1 {
                    let z = self.konst(0, w);
                    return self.cmp(Op::Eq, a, z);
                }
                // only one value excluded at the upper end of the range
                if w <= 64 && self.meta[a as usize].hi as u128 == k {
                    let x = self.cmp(Op::Eq, a, b);
                    return self.not(x);
                }
            }
            if w == 1 && op == Op::Eq {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        if let Some(k) = self.is_const(a) {
            match nb.op {
                Op::ZExt if op == Op::Ult => {
                    let wi = self.w(nb.a);
                    if k >= mask(wi) {
                        return self.f();
                    }
                    let k2 = self.konst(k, wi);
                    return self.cmp(op, k2, nb.a);
                }
                Op::Concat if op == Op::Ult => {
                    let wl = self.w(nb.b);
                    if let Some(kh) = self.is_const(nb.a) {
                        let h = k >> wl;
                        if h < kh {
                            return self.t();
                        }
                        if h > kh {
                            return self.f();
                        }
                        let k2 = self.konst(k, wl);
                        return self.cmp(op, k2, nb.b);
                    }
                }
                Op::Ite => {
                    if self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some() {
                        let x = self.cmp(op, a, nb.b);
                        let y = self.cmp(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                Op::Add if op == Op::Ult && w <= 64 => {
                    if let Some(c) = self.is_const(nb.b) {
                        let m = self.meta[nb.a as usize];
                        if (m.hi as u128) + c <= mask(w) {
                            if k < c {
                                return self.t();
                            }
                            let k2 = self.konst(k - c, w);
                            return self.cmp(Op::Ult, k2, nb.a);
                        } else if c > mask(w) / 2 {
                            // k < x - neg   <=> x < neg (wrapped, so big) or x > neg + k
                            let neg = (0u128.wrapping_sub(c)) & mask(w);
                            if neg + k <= mask(w) && k < mask(w) - neg {
                                let lo = self.konst(neg, w);
                                let hi = self.konst(neg + k, w);
                                let x = self.cmp(Op::Ult, nb.a, lo);
                                let y = self.cmp(Op::Ult, hi, nb.a);
                                return self.or(x, y);
                            }
                        }
                    }
                }
                _ => {}
            }
            if op == Op::Ult && k == 0 {
                let x = self.cmp(Op::Eq, b, a);
                return self.not(x);
            }
        }
        // both zext from same width
        if na.op == Op::ZExt && nb.op == Op::ZExt && matches!(op, Op::Eq | Op::Ult | Op::Ule) {
            let (wx, wy) = (self.w(na.a), self.w(nb.a));
            let wm = wx.max(wy);
            if wm < w {
                let x = self.zext(na.a, wm);
                let y = self.zext(nb.a, wm);
                return self.cmp(op, x, y);
            }
        }
        if w == 1 {
            match op {
                Op::Eq => {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                Op::Ult => {
                    let x = self.not(a);
                    return self.and(x, b);
                }
                Op::Ule => {
                    let x = self.not(a);
                    return self.or(x, b);
                }
                _ => {}
            }
        }
        // order operands of eq
        if op == Op::Eq && self.is_const(b).is_none() && a > b {
            return self.mk(op, 1, b, a, 0);
        }
        self.mk(op, 1, a, b, 0)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if is_cmp(op) {
            return self.cmp(op, a, b);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(cbin(op, w, x, y), w);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && ka.is_some() {
            return self.bin(op, b, a);
        }
        if w <= 64 {
            if let Some(r) = self.tab_bin(a, b, |_, x, y| cbin(op, w, x as u128, y as u128) as u64) {
                let v = self.single_var(a).or(self.single_var(b)).unwrap();
                return self.tab(v, r, w);
            }
        }
        if let Some(k) = kb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Mul if k == 1 => return a,
                Op::Mul | Op::And if k == 0 => return b,
                Op::And if k == mask(w) => return a,
                Op::Or if k == mask(w) => return b,
                Op::UDiv if k == 1 => return a,
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let m = self.konst(k - 1, w);
                    return self.bin(Op::And, a, m);
                }
                Op::URem if w <= 64 && (self.meta[a as usize].hi as u128) < k => return a,
                Op::UDiv if w <= 64 && (self.meta[a as usize].hi as u128) < k => return self.konst(0, w),
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                Op::Sub => {
                    let nk = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, nk);
                }
                Op::SDiv | Op::SRem if w <= 64 && self.meta[a as usize].hi <= (mask(w) >> 1) as u64 && k <= mask(w) >> 1 => {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                Op::AShr if w <= 64 && self.meta[a as usize].hi <= (mask(w) >> 1) as u64 => return self.bin(Op::LShr, a, b),
                Op::Shl => {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let low = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(low, z);
                }
                Op::LShr => {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
                Op::And => {
                    // contiguous runs of the mask
                    let mut cuts = Vec::new();
                    let mut prev = k & 1;
                    for i in 1..w {
                        let bit = (k >> i) & 1;
                        if bit != prev {
                            cuts.push(i);
                        }
                        prev = bit;
                    }
                    if cuts.len() <= 6 {
                        let mut v = Vec::new();
                        self.slices(a, &mut v);
                        Self::split_at(&mut v, &cuts);
                        let mut pos = 0;
                        for (sw, s) in v.iter_mut() {
                            if (k >> pos) & 1 == 0 {
                                *s = Sl::K(0);
                            }
                            pos += *sw;
                        }
                        return self.build_simpl(&v);
                    }
                }
                Op::Or => {
                    // ones
                    let mut cuts = Vec::new();
                    let mut prev = k & 1;
                    for i in 1..w {
                        let bit = (k >> i) & 1;
                        if bit != prev {
                            cuts.push(i);
                        }
                        prev = bit;
                    }
                    if cuts.len() <= 6 {
                        let mut v = Vec::new();
                        self.slices(a, &mut v);
                        Self::split_at(&mut v, &cuts);
                        let mut pos = 0;
                        for (sw, s) in v.iter_mut() {
                            if (k >> pos) & 1 == 1 {
                                *s = Sl::K(mask(*sw));
                            }
                            pos += *sw;
                        }
                        return self.build_simpl(&v);
                    }
                }
                Op::Xor if w == 1 => {
                    // negation of a negation
                    let n = self.nodes[a as usize];
                    match n.op {
                        Op::Xor => {
                            if self.is_const(n.b) == Some(1) {
                                return n.a;
                            }
                        }
                        Op::Ult | Op::Ule | Op::Slt | Op::Sle => return self.not(a),
                        _ => {}
                    }
                }
                _ => {}
            }
            // reassociate
            let n = self.nodes[a as usize];
            if n.op == op && matches!(op, Op::Add | Op::Xor | Op::And | Op::Or | Op::Mul) {
                if let Some(k2) = self.is_const(n.b) {
                    let kk = self.konst(cbin(op, w, k, k2), w);
                    return self.bin(op, n.a, kk);
                }
            }
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let x = self.bin(op, n.b, b);
                let y = self.bin(op, n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if op == Op::Sub {
            // (x + k) - x ... ; x - (y + k)
            let na = self.nodes[a as usize];
            let nb = self.nodes[b as usize];
            if na.op == Op::Add && na.a == b {
                return na.b;
            }
            if na.op == Op::Add && na.b == b {
                return na.a;
            }
            if nb.op == Op::Add {
                if let Some(k) = self.is_const(nb.b) {
                    let x = self.bin(Op::Sub, a, nb.a);
                    let nk = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, x, nk);
                }
            }
        }
        if op == Op::Add {
            let na = self.nodes[a as usize];
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            let nb = self.nodes[b as usize];
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            // move constants outward
            if na.op == Op::Add {
                if self.is_const(na.b).is_some() {
                    let x = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, x, na.b);
                }
            }
            if nb.op == Op::Add {
                if self.is_const(nb.b).is_some() {
                    let x = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, x, nb.b);
                }
            }
        }
        // disjoint or / xor / add through slices
        if matches!(op, Op::Or | Op::Xor | Op::Add) && w > 1 {
            if let Some(e) = self.disjoint(a, b) {
                return e;
            }
        }
        // absorb
        if w == 1 && matches!(op, Op::And | Op::Or) {
            let na = self.not(a);
            if na == b {
                return self.konst((op == Op::Or) as u128, 1);
            }
            let sv = self.meta[a as usize].vars;
            if sv == self.meta[b as usize].vars {
                if let (Some(x), Some(y)) = (self.as_tab(a), self.as_tab(b)) {
                    let r = zip_runs(&x, &y, |p, q| cbin(op, 1, p as u128, q as u128) as u64);
                    let v = self.single_var(a).unwrap();
                    return self.tab(v, r, 1);
                }
            }
            // x & (x & y)
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if nb.op == op && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == op && (na.a == b || na.b == b) {
                return a;
            }
        }
        let (a, b) = if comm && kb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0)
    }
    fn build_simpl(&mut self, v: &[(u32, Sl)]) -> E {
        // simplify slices individually (extract of extract is already flat), then build
        self.build(v)
    }
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.nodes[a as usize].op, self.nodes[b as usize].op);
        let st = |o: Op| matches!(o, Op::Concat | Op::ZExt | Op::Const);
        if !st(na) && !st(nb) {
            return None;
        }
        let mut va = Vec::new();
        let mut vb = Vec::new();
        self.slices(a, &mut va);
        self.slices(b, &mut vb);
        let cuts = |v: &Vec<(u32, Sl)>| {
            let mut p = 0;
            v.iter()
                .map(|(w, _)| {
                    p += w;
                    p
                })
                .collect::<Vec<_>>()
        };
        let (ca, cb) = (cuts(&va), cuts(&vb));
        Self::split_at(&mut va, &cb);
        Self::split_at(&mut vb, &ca);
        if va.len() != vb.len() {
            return None;
        }
        let mut out = Vec::new();
        for ((w1, s1), (w2, s2)) in va.iter().zip(vb.iter()) {
            if w1 != w2 {
                return None;
            }
            match (s1, s2) {
                (Sl::K(0), s) => out.push((*w1, *s)),
                (s, Sl::K(0)) => out.push((*w1, *s)),
                _ => return None,
            }
        }
        Some(self.build(&out))
    }
    pub fn fp(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        let wa = self.w(a);
        let unary = matches!(op, Op::FRtz | Op::FRna | Op::FRtp | Op::FRtn | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc);
        if let Some(x) = self.is_const(a) {
            if unary {
                return self.konst(cfp(op, w, wa, x, 0), w);
            }
            if let Some(y) = self.is_const(b) {
                return self.konst(cfp(op, w, wa, x, y), w);
            }
        }
        self.mk(op, w, a, if unary { 0 } else { b }, 0)
    }

    // ---- evaluation

    pub fn set_model(&mut self, id: u64) {
        if self.cur_model != id {
            self.cur_model = id;
            self.cur_stamp += 1;
        }
    }
    pub fn eval(&mut self, e: E, model: &[u64], model_id: u64) -> u128 {
        self.set_model(model_id);
        if self.val.len() < self.nodes.len() {
            self.val.resize(self.nodes.len() + 1024, 0);
            self.stamp.resize(self.nodes.len() + 1024, 0);
        }
        let st = self.cur_stamp;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == st {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => {
                    if (n.a as usize) < model.len() {
                        model[n.a as usize] as u128
                    } else {
                        self.vars[n.a as usize].lo as u128
                    }
                }
                Op::Ite => {
                    if self.stamp[n.a as usize] != st {
                        stack.push(n.a);
                        continue;
                    }
                    let k = if self.val[n.a as usize] != 0 { n.b } else { n.c };
                    if self.stamp[k as usize] != st {
                        stack.push(k);
                        continue;
                    }
                    self.val[k as usize]
                }
                Op::Extract | Op::ZExt | Op::SExt | Op::Tab | Op::FRtz | Op::FRna | Op::FRtp | Op::FRtn | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc => {
                    if self.stamp[n.a as usize] != st {
                        stack.push(n.a);
                        continue;
                    }
                    let a = self.val[n.a as usize];
                    match n.op {
                        Op::Extract => (a >> n.b) & mask(n.w as u32),
                        Op::ZExt => a,
                        Op::SExt => sext(a, self.w(n.a)) as u128 & mask(n.w as u32),
                        Op::Tab => lookup(&self.tabs[n.b as usize], a as u32) as u128,
                        op => cfp(op, n.w as u32, self.w(n.a), a, 0),
                    }
                }
                _ => {
                    if self.stamp[n.a as usize] != st {
                        stack.push(n.a);
                        continue;
                    }
                    if self.stamp[n.b as usize] != st {
                        stack.push(n.b);
                        continue;
                    }
                    let (a, b) = (self.val[n.a as usize], self.val[n.b as usize]);
                    match n.op {
                        Op::Concat => a << self.w(n.b) | b,
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOrdLt | Op::FOrdLe | Op::FOrdEq | Op::FUno => cfp(n.op, n.w as u32, self.w(n.a), a, b),
                        op => cbin(op, self.w(n.a), a, b),
                    }
                }
            };
            self.val[xi] = v;
            self.stamp[xi] = st;
            stack.pop();
        }
        self.val[e as usize]
    }
    /// postorder of a DAG
    pub fn postorder(&self, roots: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut out = Vec::new();
        let mut stack: Vec<(E, bool)> = roots.iter().map(|r| (*r, false)).collect();
        while let Some((e, done)) = stack.pop() {
            if done {
                out.push(e);
                continue;
            }
            if !seen.insert(e) {
                continue;
            }
            stack.push((e, true));
            for k in self.kids(e) {
                stack.push((k, false));
            }
        }
        out
    }
    pub fn kids(&self, e: E) -> Vec<E> {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Extract | Op::ZExt | Op::SExt | Op::Tab | Op::FRtz | Op::FRna | Op::FRtp | Op::FRtn | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    /// evaluate a single-variable expression on all values of its domain
    pub fn tabulate(&self, e: E) -> Option<(u32, Vec<u64>)> {
        let v = self.single_var(e)?;
        if !self.tab_var_ok(v) {
            return None;
        }
        let vi = &self.vars[v as usize];
        let order = self.postorder(&[e]);
        if order.len() > 4000 {
            return None;
        }
        let mut idx: HashMap<E, usize> = HashMap::new();
        for (i, x) in order.iter().enumerate() {
            idx.insert(*x, i);
        }
        struct St {
            op: Op,
            w: u32,
            wa: u32,
            wb: u32,
            a: usize,
            b: usize,
            c: usize,
            k: u128,
            t: Option<Runs>,
        }
        let steps: Vec<St> = order
            .iter()
            .map(|x| {
                let n = self.nodes[*x as usize];
                let g = |y: u32| idx.get(&y).copied().unwrap_or(0);
                let mut s = St { op: n.op, w: n.w as u32, wa: 0, wb: 0, a: 0, b: 0, c: 0, k: 0, t: None };
                match n.op {
                    Op::Const => s.k = self.consts[n.a as usize],
                    Op::Var => {}
                    Op::Tab => {
                        s.a = g(n.a);
                        s.t = Some(self.tabs[n.b as usize].clone());
                    }
                    Op::Extract => {
                        s.a = g(n.a);
                        s.k = n.b as u128;
                    }
                    _ => {
                        s.a = g(n.a);
                        s.wa = self.w(n.a);
                        if n.op != Op::ZExt && n.op != Op::SExt {
                            s.b = g(n.b);
                            s.wb = self.w(n.b);
                            if n.op == Op::Ite {
                                s.c = g(n.c);
                            }
                        }
                    }
                }
                s
            })
            .collect();
        let mut vals = vec![0u128; steps.len()];
        let mut out = Vec::with_capacity((vi.hi - vi.lo + 1) as usize);
        for x in vi.lo..=vi.hi {
            for (i, s) in steps.iter().enumerate() {
                let r = match s.op {
                    Op::Const => s.k,
                    Op::Var => x as u128,
                    Op::Extract => (vals[s.a] >> s.k) & mask(s.w),
                    Op::ZExt => vals[s.a],
                    Op::SExt => sext(vals[s.a], s.wa) as u128 & mask(s.w),
                    Op::Tab => lookup(s.t.as_ref().unwrap(), vals[s.a] as u32) as u128,
                    Op::Ite => {
                        if vals[s.a] != 0 {
                            vals[s.b]
                        } else {
                            vals[s.c]
                        }
                    }
                    Op::Concat => vals[s.a] << s.wb | vals[s.b],
                    op if (op as u8) >= (Op::FAdd as u8) => cfp(op, s.w, s.wa, vals[s.a], vals[s.b]),
                    op => cbin(op, s.wa, vals[s.a], vals[s.b]),
                };
                vals[i] = r;
            }
            out.push(vals[steps.len() - 1] as u64);
        }
        Some((v, out))
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 0)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        if d > 8 {
            return "..".to_string();
        }
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("{}:{}", self.vars[n.a as usize].name, n.w),
            Op::Extract => format!("{}[{}+:{}]", self.show_d(n.a, d + 1), n.b, n.w),
            Op::Tab => {
                let t = &self.tabs[n.b as usize];
                let s: Vec<String> = t.iter().take(6).map(|(a, b)| format!("{:x}->{}", a, b)).collect();
                format!("Tab({},#{}[{}..])", self.show_d(n.a, d + 1), t.len(), s.join(","))
            }
            _ => {
                let k: Vec<String> = self.kids(e).iter().map(|k| self.show_d(*k, d + 1)).collect();
                format!("{:?}{}({})", n.op, n.w, k.join(", "))
            }
        }
    }
}

pub fn lookup(t: &[(u32, u64)], x: u32) -> u64 {
    match t.binary_search_by(|p| p.0.cmp(&x)) {
        Ok(i) => t[i].1,
        Err(0) => t[0].1,
        Err(i) => t[i - 1].1,
    }
}

pub fn zip_runs(a: &[(u32, u64)], b: &[(u32, u64)], f: impl Fn(u64, u64) -> u64) -> Vec<(u32, u64)> {
    let (mut i, mut j) = (0, 0);
    let mut out: Vec<(u32, u64)> = Vec::new();
    let mut pos = 0u32;
    loop {
        let v = f(a[i].1, b[j].1);
        if out.last().map_or(true, |l| l.1 != v) {
            out.push((pos, v));
        }
        let na = if i + 1 < a.len() { a[i + 1].0 } else { u32::MAX };
        let nb = if j + 1 < b.len() { b[j + 1].0 } else { u32::MAX };
        if na == u32::MAX && nb == u32::MAX {
            break;
        }
        pos = na.min(nb);
        if na == pos {
            i += 1;
        }
        if nb == pos {
            j += 1;
        }
    }
    out
}
fn zip_runs3(c: &[(u32, u64)], a: &[(u32, u64)], b: &[(u32, u64)]) -> Vec<(u32, u64)> {
    // pick a where c else b; go through positions
    let mut cuts: Vec<u32> = c.iter().chain(a.iter()).chain(b.iter()).map(|x| x.0).collect();
    cuts.sort();
    cuts.dedup();
    let mut out: Vec<(u32, u64)> = Vec::new();
    for p in cuts {
        let v = if lookup(c, p) != 0 { lookup(a, p) } else { lookup(b, p) };
        if out.last().map_or(true, |l| l.1 != v) {
            out.push((p, v));
        }
    }
    out
}
