//! Random tests of the expression simplifier against direct evaluation, and of
//! the solver's answers against enumeration: `irsym selftest SEED ROUNDS`.
use crate::expr::*;
use crate::solver::{Res, Solver};
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
const M: usize = 24;
type V = (E, u16, Vec<u128>);

fn konst(r: &mut Rng, w: u16) -> u128 {
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => mask(w),
        3 => 1u128 << r.below(u64::from(w)),
        4 => mask(w) >> r.below(u64::from(w)),
        5 => [10, 100, 60, 1000, 3, 7, 48, 15, 12, 6][r.below(10) as usize],
        6 => u128::from(r.below(256)),
        _ => u128::from(r.next()) << 64 | u128::from(r.next()),
    };
    k & mask(w)
}

/// One random operation on the values known so far.
fn step(r: &mut Rng, p: &[V], models: &[Vec<u8>]) -> V {
    let m = models.len();
    let pick = |r: &mut Rng| p[(r.below(p.len() as u64)) as usize].clone();
    let (a, w, x) = pick(r);
    // an operand of the same width
    let other = |r: &mut Rng, w: u16| -> V {
        if r.below(3) > 0 {
            for _ in 0..6 {
                let v = pick(r);
                if v.1 == w {
                    return v;
                }
            }
        }
        if r.below(2) == 0 {
            let (e, w0, x) = pick(r);
            if w0 < w {
                return with(|ar| (ar.zext(e, w), w, x));
            }
            return with(|ar| (ar.extract(e, 0, w), w, x.iter().map(|v| v & mask(w)).collect()));
        }
        let k = konst(r, w);
        (with(|ar| ar.k(k, w)), w, vec![k; m])
    };
    let op = r.below(22);
    let bin = |f: &dyn Fn(&mut Arena, E, E) -> E, g: &dyn Fn(u128, u128) -> u128, b: &V, rw: u16| -> V {
        (with(|ar| f(ar, a, b.0)), rw, x.iter().zip(&b.2).map(|(p, q)| g(*p, *q) & mask(rw)).collect())
    };
    match op {
        0 | 1 => bin(&|ar, a, b| ar.add(a, b), &|p, q| p.wrapping_add(q), &other(r, w), w),
        2 | 3 => bin(&|ar, a, b| ar.sub(a, b), &|p, q| p.wrapping_sub(q), &other(r, w), w),
        4 => bin(&|ar, a, b| ar.mul(a, b), &|p, q| p.wrapping_mul(q), &other(r, w), w),
        5..=8 => {
            let k = konst(r, w).max(1);
            let b = (with(|ar| ar.k(k, w)), w, vec![k; m]);
            match op {
                5 => bin(&|ar, a, b| ar.udivrem(false, a, b), &|p, q| p / q, &b, w),
                6 => bin(&|ar, a, b| ar.udivrem(true, a, b), &|p, q| p % q, &b, w),
                7 => bin(&|ar, a, b| ar.sdivrem(false, a, b), &|p, q| sx(p, w).wrapping_div(sx(q, w)) as u128, &b, w),
                _ => bin(&|ar, a, b| ar.sdivrem(true, a, b), &|p, q| sx(p, w).wrapping_rem(sx(q, w)) as u128, &b, w),
            }
        }
        9 => bin(&|ar, a, b| ar.and(a, b), &|p, q| p & q, &other(r, w), w),
        10 => bin(&|ar, a, b| ar.or(a, b), &|p, q| p | q, &other(r, w), w),
        11 => bin(&|ar, a, b| ar.xor(a, b), &|p, q| p ^ q, &other(r, w), w),
        12 => bin(&|ar, a, b| ar.eq(a, b), &|p, q| u128::from(p == q), &other(r, w), 1),
        13 => bin(&|ar, a, b| ar.ult(a, b), &|p, q| u128::from(p < q), &other(r, w), 1),
        14 => bin(&|ar, a, b| ar.slt(a, b), &|p, q| u128::from(sx(p, w) < sx(q, w)), &other(r, w), 1),
        15 | 16 => {
            let (c, _, cx) = other(r, 1);
            let (b, _, y) = other(r, w);
            (with(|ar| ar.ite(c, a, b)), w, (0..m).map(|i| if cx[i] == 1 { x[i] } else { y[i] }).collect())
        }
        17 | 18 => {
            let (b, wb, y) = pick(r);
            if w + wb > 64 {
                return (a, w, x);
            }
            (with(|ar| ar.concat(&[a, b])), w + wb, (0..m).map(|i| x[i] << wb | y[i]).collect())
        }
        19 => {
            let n = 1 + r.below(u64::from(w)) as u16;
            let lo = r.below(u64::from(w - n) + 1) as u16;
            (with(|ar| ar.extract(a, lo, n)), n, x.iter().map(|v| v >> lo & mask(n)).collect())
        }
        20 => {
            let n = [8, 16, 32, 64][r.below(4) as usize];
            if n <= w {
                return (a, w, x);
            }
            if r.below(2) == 0 {
                (with(|ar| ar.zext(a, n)), n, x)
            } else {
                (with(|ar| ar.sext(a, n)), n, x.iter().map(|v| sx(*v, w) as u128 & mask(n)).collect())
            }
        }
        _ => {
            let k = r.below(u64::from(w)) as u16;
            let o = [Op::Shl, Op::LShr, Op::AShr][r.below(3) as usize];
            let b = with(|ar| ar.k(u128::from(k), w));
            if u128::from(k) > mask(w) {
                return (a, w, x);
            }
            let g = |v: u128| match o {
                Op::Shl => v << k,
                Op::LShr => v >> k,
                _ => (sx(v, w) >> k) as u128,
            };
            (with(|ar| ar.shift(o, a, b)), w, x.iter().map(|v| g(*v) & mask(w)).collect())
        }
    }
}

pub fn run(seed: u64, rounds: u64) {
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let mut s = Solver::new(5000, 1);
    let (mut ops, mut sat, mut unsat, mut unk) = (0u64, 0, 0, 0);
    for round in 0..rounds {
        let nv = 4;
        let base = round as u32 % 3 * 4;
        let mut models: Vec<Vec<u8>> = vec![];
        for i in 0..M {
            let mut b = vec![0u8; 12];
            for v in b.iter_mut() {
                *v = match i {
                    0 => 0,
                    1 => 255,
                    _ => [r.next() as u8, r.next() as u8 & 15, 0, 128, 255, 10][r.below(6) as usize],
                };
            }
            models.push(b);
        }
        let mut pool: Vec<V> = vec![];
        for v in base..base + nv {
            pool.push((with(|ar| ar.var(v)), 8, models.iter().map(|m| u128::from(m[v as usize])).collect()));
        }
        for _ in 0..30 {
            let v = step(&mut r, &pool, &models);
            ops += 1;
            let (lo, hi, ones, nw) = with(|ar| {
                let n = ar.n(v.0);
                (n.umin, n.umax, n.ones, n.w)
            });
            assert_eq!(nw, v.1, "width of {}", with(|ar| ar.show(v.0, 8)));
            let (sm, sr) = with(|ar| ar.stride(v.0));
            for (i, m) in models.iter().enumerate() {
                let mut memo = HashMap::new();
                let g = with(|ar| ar.eval(v.0, m, &mut memo));
                assert_eq!(g, v.2[i], "value of {} on {:?}", with(|ar| ar.show(v.0, 12)), &m[base as usize..]);
                assert!(lo <= g && g <= hi && g & !ones == 0, "range of {}", with(|ar| ar.show(v.0, 8)));
                assert!(if sm == 0 { g == sr } else { g % sm == sr % sm }, "stride of {}", with(|ar| ar.show(v.0, 8)));
            }
            pool.push(v);
        }
        // a query with one free byte, against enumeration
        let mut q: Vec<E> = vec![];
        for v in base + 1..base + nv {
            let e = with(|ar| {
                let (x, k) = (ar.var(v), ar.k(u128::from(models[2][v as usize]), 8));
                ar.eq(x, k)
            });
            q.push(e);
        }
        let mut n = 0;
        for v in pool.iter().rev() {
            let e = if v.1 == 1 {
                v.0
            } else {
                let k = v.2[r.below(M as u64) as usize];
                with(|ar| {
                    let k = ar.k(k, v.1);
                    if r.below(2) == 0 {
                        ar.eq(v.0, k)
                    } else {
                        ar.ult(v.0, k)
                    }
                })
            };
            if with(|ar| ar.cval(e)).is_none() {
                q.push(e);
                n += 1;
            }
            if n == 2 {
                break;
            }
        }
        q.sort_unstable();
        q.dedup();
        let mut want = false;
        for b in 0..=255u8 {
            let mut m = models[2].clone();
            m[base as usize] = b;
            let mut memo = HashMap::new();
            want |= q.iter().all(|&e| with(|ar| ar.eval(e, &m, &mut memo)) == 1);
        }
        let text = || q.iter().map(|&e| with(|ar| ar.show(e, 12))).collect::<Vec<_>>().join("\n");
        for lin in [false, true] {
            let res = if lin { s.check_lin_only(&q) } else { s.check(&q) };
            match res {
                Res::Sat(_) => {
                    sat += 1;
                    assert!(want, "sat, lin {lin}: {}", text());
                }
                Res::Unsat => {
                    unsat += 1;
                    assert!(!want, "unsat, lin {lin}: {}", text());
                }
                Res::Unknown => unk += 1,
            }
        }
    }
    println!("selftest ok: {ops} operations, {sat} sat, {unsat} unsat, {unk} undecided");
}

/// The same for floating point, with one free byte.
pub fn run_fp(seed: u64, rounds: u64) {
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let mut s = Solver::new(5000, 1);
    let (mut sat, mut unsat, mut unk) = (0u64, 0, 0);
    for _ in 0..rounds {
        let v = with(|a| a.var(0));
        // an integer of it, up to 64 bits
        let x = with(|a| {
            let z = a.zext(v, 64);
            let k = a.k(u128::from(r.next() >> r.below(64)), 64);
            let m = a.mul(z, k);
            let k = a.k(u128::from(r.next() >> r.below(64)), 64);
            a.add(m, k)
        });
        let w = [32, 64][r.below(2) as usize];
        let mut f = with(|a| a.fop(if r.below(2) == 0 { Op::SToF } else { Op::UToF }, w, 0, &[x]));
        let konst = |r: &mut Rng| match r.below(4) {
            0 => r.below(1000) as f64,
            1 => r.below(1000) as f64 / 8.0,
            2 => 1.0 / (1 + r.below(1000)) as f64,
            _ => -(r.below(100_000) as f64),
        };
        for _ in 0..1 + r.below(4) {
            let w = with(|a| a.w(f));
            let c = konst(&mut r);
            let k = if w == 32 { u128::from((c as f32).to_bits()) } else { u128::from(c.to_bits()) };
            f = with(|a| {
                let k = a.k(k, w);
                match r.below(9) {
                    0 => a.fbin(Op::FAdd, w, f, k),
                    1 => a.fbin(Op::FSub, w, f, k),
                    2 => a.fbin(Op::FMul, w, f, k),
                    3 => a.fbin(Op::FDiv, w, f, k),
                    4 => a.fun(Op::FNeg, 0, f),
                    5 => a.fun(Op::FAbs, 0, f),
                    6 => a.fun(Op::FTrunc, r.below(5) as u32, f),
                    7 if w == 32 => a.wide(f),
                    7 => a.fop(Op::FNarrow, 32, 0, &[f]),
                    _ => a.fbin(Op::FAdd, w, f, f),
                }
            });
        }
        let g = with(|a| a.wide(f));
        let p = r.next() as u8;
        let e = if r.below(2) == 0 {
            let i = with(|a| a.fop(if r.below(2) == 0 { Op::FToS } else { Op::FToU }, 64, 0, &[g]));
            let k = with(|a| {
                let k = a.eval(i, &[p], &mut HashMap::new()).wrapping_add(u128::from(r.below(3)));
                a.k(k, 64)
            });
            with(|a| if r.below(2) == 0 { a.eq(i, k) } else { a.slt(i, k) })
        } else {
            let c = with(|a| a.eval(g, &[p], &mut HashMap::new()));
            let k = with(|a| a.k(c, 64));
            with(|a| a.fop(Op::FCmp, 1, 1 + r.below(7) as u32, &[g, k]))
        };
        let q0 = {
            let k = with(|a| a.k(u128::from(r.below(256)), 8));
            with(|a| if r.below(2) == 0 { a.ult(v, k) } else { a.ult(k, v) })
        };
        let q: Vec<E> = [q0, e].into_iter().filter(|&e| with(|a| a.cval(e)).is_none()).collect();
        let mut q = q;
        q.sort_unstable();
        q.dedup();
        if q.is_empty() {
            continue;
        }
        let want = (0..=255u8).any(|b| {
            let mut memo = HashMap::new();
            q.iter().all(|&e| with(|a| a.eval(e, &[b], &mut memo)) == 1)
        });
        for lin in [false, true] {
            match if lin { s.check_lin_only(&q) } else { s.check(&q) } {
                Res::Sat(_) => {
                    sat += 1;
                    assert!(want, "sat, lin {lin}");
                }
                Res::Unsat => {
                    unsat += 1;
                    assert!(!want, "unsat, lin {lin}: {}", with(|a| q.iter().map(|&e| a.show(e, 12)).collect::<Vec<_>>().join("\n")));
                }
                Res::Unknown => unk += 1,
            }
        }
    }
    println!("selftest fp ok: {sat} sat, {unsat} unsat, {unk} undecided");
}
