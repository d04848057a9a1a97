//! Random check of the simplifier against the plain semantics of the operators, and of the Z3
//! encoding against the evaluator (used during development and by setup).

use crate::expr::*;
use crate::solver::*;

struct Rng(u64);
impl Rng {
    fn n(&mut self, k: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % k
    }
}

pub fn run(n: usize) {
    let mut r = Rng(0x9e3779b97f4a7c15);
    let mut bad = 0;
    let mut total = 0;
    for round in 0..n {
        let mut x = Exprs::new();
        x.konst(0, 1);
        let mut sol = if round % 50 == 0 { Some(Solver::new()) } else { None };
        let nv = 1 + r.n(3) as usize;
        let mut pool: Vec<(E, Vec<u128>)> = Vec::new();
        // several models evaluated in parallel, on raw semantics
        const K: usize = 6;
        let mut models: Vec<Vec<u64>> = vec![vec![]; K];
        for i in 0..nv {
            let w = [8u32, 8, 32, 64, 1, 16][r.n(6) as usize];
            let (lo, hi) = match w {
                32 if r.n(2) == 0 => (0x80, 0x7ff),
                8 if r.n(2) == 0 => (3, 9),
                1 => (0, 1),
                _ => (0, mask(w) as u64),
            };
            let e = x.new_var(&format!("v{}", i), w, lo, hi);
            let mut vals = Vec::new();
            for m in models.iter_mut() {
                let span = (hi - lo).wrapping_add(1);
                let v = match r.n(4) {
                    0 => lo,
                    1 => hi,
                    _ => lo + if span == 0 { r.n(u64::MAX) } else { r.n(span.max(1)) },
                };
                m.push(v);
                vals.push(v as u128);
            }
            pool.push((e, vals));
        }
        for step in 0..30 {
            let (a, va) = pool[r.n(pool.len() as u64) as usize].clone();
            let w = x.w(a);
            let same: Vec<usize> = (0..pool.len()).filter(|i| x.w(pool[*i].0) == w).collect();
            let (b, vb) = if r.n(2) == 0 {
                let k = match r.n(5) {
                    0 => r.n(4) as u128,
                    1 => mask(w) - r.n(4) as u128 & mask(w),
                    2 => (1u128 << r.n(w as u64)) & mask(w),
                    3 => ((1u128 << r.n(w as u64)) - 1) & mask(w),
                    _ => r.n(u64::MAX) as u128 & mask(w),
                };
                (x.konst(k, w), vec![k & mask(w); K])
            } else {
                pool[same[r.n(same.len() as u64) as usize]].clone()
            };
            let (e, v): (E, Vec<u128>) = match r.n(22) {
                0..=9 => {
                    let op = [Op::Add, Op::Sub, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Mul, Op::URem][r.n(10) as usize];
                    let (p, q, vp, vq) = if r.n(2) == 0 { (a, b, &va, &vb) } else { (b, a, &vb, &va) };
                    (x.bin(op, p, q), (0..K).map(|i| cbin(op, w, vp[i], vq[i])).collect())
                }
                10..=13 => {
                    let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.n(5) as usize];
                    let (p, q, vp, vq) = if r.n(2) == 0 { (a, b, &va, &vb) } else { (b, a, &vb, &va) };
                    (x.cmp(op, p, q), (0..K).map(|i| cbin(op, w, vp[i], vq[i])).collect())
                }
                14 => {
                    let bs: Vec<usize> = (0..pool.len()).filter(|i| x.w(pool[*i].0) == 1).collect();
                    if bs.is_empty() {
                        continue;
                    }
                    let (c, vc) = pool[bs[r.n(bs.len() as u64) as usize]].clone();
                    (x.ite(c, a, b), (0..K).map(|i| if vc[i] != 0 { va[i] } else { vb[i] }).collect())
                }
                15 => {
                    let nw = [8u32, 16, 32, 64][r.n(4) as usize];
                    if nw <= w {
                        continue;
                    }
                    (x.zext(a, nw), va.clone())
                }
                16 => {
                    let nw = [8u32, 16, 32, 64][r.n(4) as usize];
                    if nw <= w {
                        continue;
                    }
                    (x.sext(a, nw), va.iter().map(|v| sext(*v, w) as u128 & mask(nw)).collect())
                }
                17 | 18 => {
                    let lo = r.n(w as u64) as u32;
                    let nw = 1 + r.n((w - lo) as u64) as u32;
                    if ![1, 8, 16, 32, 64].contains(&nw) && r.n(3) > 0 {
                        continue;
                    }
                    (x.extract(a, lo, nw), va.iter().map(|v| (v >> lo) & mask(nw)).collect())
                }
                19 => {
                    let (c, vc) = pool[r.n(pool.len() as u64) as usize].clone();
                    let wc = x.w(c);
                    if wc + w > 64 {
                        continue;
                    }
                    (x.concat(a, c), (0..K).map(|i| va[i] << wc | vc[i]).collect())
                }
                20 => (x.not(a), va.iter().map(|v| !v & mask(w)).collect()),
                _ => {
                    // a table on the variable
                    let Some((v, t)) = (if x.single_var(a).map_or(false, |v| x.vars[v as usize].hi <= 0xffff) { x.tabulate(a) } else { None }) else { continue };
                    let lo = x.vars[v as usize].lo;
                    let nw = [1u32, 8, 32][r.n(3) as usize];
                    let mut runs: Vec<(u32, u64)> = Vec::new();
                    let f = |y: u64| y.wrapping_mul(0x9E37).rotate_left(7) & mask(nw) as u64 & 5;
                    for (i, y) in t.iter().enumerate() {
                        let z = f(*y);
                        if runs.last().map_or(true, |l| l.1 != z) {
                            runs.push((if i == 0 { 0 } else { lo as u32 + i as u32 }, z));
                        }
                    }
                    if runs.len() > 3000 {
                        continue;
                    }
                    (x.tab(v, runs, nw), va.iter().map(|y| f(*y as u64) as u128).collect())
                }
            };
            for (k, m) in models.iter().enumerate() {
                total += 1;
                let got = x.eval(e, m, (round * 1000 + step * 10 + k + 1) as u64);
                let meta = x.meta[e as usize];
                let inb = x.w(e) > 64 || (got as u64 >= meta.lo && got as u64 <= meta.hi);
                if got != v[k] || !inb {
                    bad += 1;
                    if bad < 10 {
                        println!("BAD round {} step {}: got {} want {} (interval {}..{}) model {:?}: {}", round, step, got, v[k], meta.lo, meta.hi, m, x.show(e));
                    }
                }
            }
            if let Some(s) = &mut sol {
                // e == value must be sat with the model, and the answer must evaluate properly
                if x.w(e) <= 64 {
                    let k = x.konst(v[0], x.w(e));
                    let c = x.raw(Node { op: Op::Eq, w: 1, a: e, b: k, c: 0 });
                    let mut pc = Vec::new();
                    for (i, val) in models[0].iter().enumerate() {
                        let ve = x.var_expr(i as u32);
                        let kk = x.konst(*val as u128, x.w(ve));
                        let q = x.raw(Node { op: Op::Eq, w: 1, a: ve, b: kk, c: 0 });
                        pc.push(q);
                    }
                    let (r1, _) = s.check(&mut x, &pc, c);
                    let nc = x.raw(Node { op: Op::Xor, w: 1, a: c, b: 0, c: 0 });
                    let _ = nc;
                    if r1 == Verdict::Unsat {
                        bad += 1;
                        println!("BAD z3 encoding: {}", x.show(e));
                    }
                    // and a free model has to satisfy the condition in our evaluator
                    let (r2, m2) = s.check(&mut x, &[], c);
                    if r2 == Verdict::Sat {
                        let mut mm: Vec<u64> = (0..nv).map(|i| x.vars[i].lo).collect();
                        for (i, y) in m2.iter() {
                            mm[*i as usize] = *y;
                        }
                        if x.eval(c, &mm, (round * 1000 + step * 10 + 9) as u64) != 1 {
                            bad += 1;
                            println!("BAD z3 model: {}", x.show(e));
                        }
                    } else if r2 == Verdict::Unsat {
                        bad += 1;
                        println!("BAD z3 unsat: {}", x.show(e));
                    }
                }
            }
            pool.push((e, v));
        }
    }
    println!("selftest: {} evaluations, {} mismatches", total, bad);
    if bad > 0 {
        std::process::exit(1);
    }
}
