//! Hash-consed bit-vector (and f64) expression DAG with local simplification.
//! All variables are 8-bit bytes drawn by the harness (`sym_bytes`).

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
    // IEEE double (64-bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FTrunc, // to an integer; aux: 0 toward zero, 1 down, 2 up, 3 nearest away, 4 nearest even
    FExt,    // single (32-bit pattern) to double
    FNarrow, // double to single
    UToF,    // to double or single, by the width
    SToF,
    FToS, // saturating/poison agnostic (value in range assumed for poison form)
    FToU,
    FCmp, // aux = predicate bits: 1=uno? see FP_*
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub aux: u32,
    pub c: u128,
    pub args: Box<[E]>,
    pub umin: u128,
    pub umax: u128,
    pub ones: u128, // mask of bits that may be one
    pub support: Rc<[u32]>,
    pub fp: bool, // some FP node below
}

#[derive(PartialEq, Eq, Hash, Clone)]
struct Key(Op, u16, u32, u128, Box<[E]>);

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E>,
    ext_memo: HashMap<(E, u16, u16), E>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn bitlen(x: u128) -> u16 {
    (128 - x.leading_zeros()) as u16
}
pub fn sx(c: u128, w: u16) -> i128 {
    if w >= 128 {
        return c as i128;
    }
    let s = 128 - w;
    ((c << s) as i128) >> s
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::new());
}

pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    AR.with(|a| f(&mut a.borrow_mut()))
}

impl Arena {
    fn new() -> Self {
        Arena { nodes: Vec::new(), map: HashMap::new(), ext_memo: HashMap::new() }
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.c)
        } else {
            None
        }
    }
    fn merge_support(&self, args: &[E]) -> Rc<[u32]> {
        let mut best: Rc<[u32]> = Rc::from(Vec::new());
        for &a in args {
            let s = &self.n(a).support;
            if s.is_empty() || Rc::ptr_eq(s, &best) {
                continue;
            }
            if best.is_empty() {
                best = s.clone();
                continue;
            }
            // merge
            let (x, y) = (&best, s);
            let mut out = Vec::with_capacity(x.len() + y.len());
            let (mut i, mut j) = (0, 0);
            while i < x.len() && j < y.len() {
                if x[i] < y[j] {
                    out.push(x[i]);
                    i += 1
                } else if x[i] > y[j] {
                    out.push(y[j]);
                    j += 1
                } else {
                    out.push(x[i]);
                    i += 1;
                    j += 1
                }
            }
            out.extend_from_slice(&x[i..]);
            out.extend_from_slice(&y[j..]);
            if out.len() != best.len() {
                best = if out.len() == s.len() { s.clone() } else { Rc::from(out) };
            }
        }
        best
    }
    fn mk(&mut self, op: Op, w: u16, aux: u32, c: u128, args: &[E]) -> E {
        let key = Key(op, w, aux, c, args.into());
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let m = mask(w);
        let support: Rc<[u32]> = if op == Op::Var { Rc::from(vec![aux]) } else { self.merge_support(args) };
        let (mut lo, mut hi, mut ones) = (0u128, m, m);
        let g = |i: usize| -> &Node { &self.nodes[args[i] as usize] };
        match op {
            Op::Const => {
                lo = c;
                hi = c;
                ones = c;
            }
            Op::Add => {
                if let Some(h) = g(0).umax.checked_add(g(1).umax) {
                    if h <= m {
                        hi = h;
                        lo = g(0).umin + g(1).umin;
                    }
                }
            }
            Op::Sub => {
                if g(0).umin >= g(1).umax {
                    lo = g(0).umin - g(1).umax;
                    hi = g(0).umax - g(1).umin;
                } else if g(0).umax < g(1).umin {
                    lo = m - (g(1).umax - g(0).umin) + 1;
                    hi = m - (g(1).umin - g(0).umax) + 1;
                }
            }
            Op::Mul => {
                if let Some(h) = g(0).umax.checked_mul(g(1).umax) {
                    if h <= m {
                        hi = h;
                        lo = g(0).umin * g(1).umin;
                    }
                }
            }
            Op::UDiv => {
                if g(1).umin > 0 {
                    hi = g(0).umax / g(1).umin;
                    lo = g(0).umin / g(1).umax;
                }
            }
            Op::URem => {
                if g(1).umin > 0 {
                    hi = (g(1).umax - 1).min(g(0).umax);
                }
            }
            Op::And => {
                hi = g(0).umax.min(g(1).umax);
                ones = g(0).ones & g(1).ones;
                hi = hi.min(ones);
            }
            Op::Or | Op::Xor => {
                ones = g(0).ones | g(1).ones;
                hi = ones;
                if op == Op::Or {
                    lo = g(0).umin.max(g(1).umin);
                }
            }
            Op::Ite => {
                lo = g(1).umin.min(g(2).umin);
                hi = g(1).umax.max(g(2).umax);
                ones = g(1).ones | g(2).ones;
            }
            Op::Concat => {
                lo = 0;
                hi = 0;
                ones = 0;
                for i in 0..args.len() {
                    let n = g(i);
                    lo = (lo << n.w) | n.umin;
                    hi = (hi << n.w) | n.umax;
                    ones = (ones << n.w) | n.ones;
                }
            }
            Op::Extract => {
                let n = g(0);
                if n.umax >> aux <= m {
                    hi = n.umax >> aux;
                    lo = n.umin >> aux;
                }
                ones = (n.ones >> aux) & m;
                hi = hi.min(ones);
            }
            Op::LShr => {
                hi = g(0).umax;
            }
            _ => {}
        }
        ones &= m;
        if hi < m {
            ones &= mask(bitlen(hi));
        }
        hi = hi.min(ones);
        let fp = matches!(
            op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FNeg | Op::FAbs | Op::FTrunc | Op::FExt | Op::FNarrow | Op::UToF | Op::SToF | Op::FToS | Op::FToU | Op::FCmp
        ) || args.iter().any(|&a| self.n(a).fp);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op, w, aux, c, args: args.into(), umin: lo, umax: hi, ones, support, fp });
        self.map.insert(key, e);
        if lo == hi && op != Op::Const {
            // interval analysis proves it constant
            let k = self.k(lo, w);
            return k;
        }
        e
    }
    pub fn k(&mut self, c: u128, w: u16) -> E {
        self.mk(Op::Const, w, 0, c & mask(w), &[])
    }
    pub fn var(&mut self, id: u32) -> E {
        self.mk(Op::Var, 8, id, 0, &[])
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.k(1, 1);
        self.xor(a, one)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.k(0, w - wa);
        self.concat(&[z, a])
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.k(sx(c, wa) as u128, w);
        }
        if wa == 1 {
            let t = self.k(mask(w), w);
            let f = self.k(0, w);
            return self.ite(a, t, f);
        }
        if self.n(a).umax >> (wa - 1) == 0 {
            return self.zext(a, w);
        }
        self.mk(Op::SExt, w, 0, 0, &[a])
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, 0, w)
    }

    pub fn concat(&mut self, parts: &[E]) -> E {
        let mut out: Vec<E> = Vec::with_capacity(parts.len() + 2);
        for &p in parts {
            if self.w(p) == 0 {
                continue;
            }
            if self.n(p).op == Op::Concat {
                let a = self.n(p).args.clone();
                for &q in a.iter() {
                    self.cpush(&mut out, q);
                }
            } else {
                self.cpush(&mut out, p);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|&x| self.w(x)).sum();
        // concat of ite with the same condition and otherwise constants
        if out.len() <= 8 {
            let mut cond = None;
            let mut ok = true;
            let mut nit = 0;
            for &p in &out {
                let n = self.n(p);
                match n.op {
                    Op::Const => {}
                    Op::Ite => {
                        nit += 1;
                        match cond {
                            None => cond = Some(n.args[0]),
                            Some(c) if c == n.args[0] => {}
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && nit > 1 {
                let c = cond.unwrap();
                let mut a = vec![];
                let mut b = vec![];
                for &p in &out {
                    if self.n(p).op == Op::Ite {
                        a.push(self.n(p).args[1]);
                        b.push(self.n(p).args[2]);
                    } else {
                        a.push(p);
                        b.push(p);
                    }
                }
                let a = self.concat(&a);
                let b = self.concat(&b);
                return self.ite_raw(c, a, b);
            }
        }
        self.mk(Op::Concat, w, 0, 0, &out)
    }
    fn cpush(&mut self, out: &mut Vec<E>, p: E) {
        if let Some(&l) = out.last() {
            let (ln, pn) = (self.n(l).clone(), self.n(p).clone());
            if ln.op == Op::Const && pn.op == Op::Const && ln.w + pn.w <= 128 {
                let c = (ln.c << pn.w) | pn.c;
                let k = self.k(c, ln.w + pn.w);
                *out.last_mut().unwrap() = k;
                return;
            }
            // adjacent extracts of same base
            let (lb, ll) = if ln.op == Op::Extract { (ln.args[0], ln.aux) } else { (l, 0) };
            let (pb, pl) = if pn.op == Op::Extract { (pn.args[0], pn.aux) } else { (p, 0) };
            if lb == pb && ln.op == Op::Extract && ll == pl + u32::from(pn.w) {
                let m = self.extract(pb, pl as u16, ln.w + pn.w);
                *out.last_mut().unwrap() = m;
                return;
            }
            // the low part of a sum, which `extract` pushes into its operands
            if ln.op == Op::Extract && ll == u32::from(pn.w) && matches!(self.n(lb).op, Op::Add | Op::Sub | Op::Mul) && self.extract(lb, 0, pn.w) == p {
                let m = self.extract(lb, 0, ln.w + pn.w);
                *out.last_mut().unwrap() = m;
                return;
            }
        }
        out.push(p);
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => {
                let c = n.c >> lo;
                return self.k(c, w);
            }
            Op::Extract => {
                let (b, l) = (n.args[0], n.aux as u16);
                return self.extract(b, l + lo, w);
            }
            _ => {}
        }
        if n.ones >> lo & mask(w) == 0 {
            return self.k(0, w);
        }
        if let Some(&r) = self.ext_memo.get(&(a, lo, w)) {
            return r;
        }
        let n = n.clone();
        let r = match n.op {
            Op::Concat => {
                let mut parts = vec![];
                let mut top = n.w;
                for &p in n.args.iter() {
                    let pw = self.w(p);
                    let plo = top - pw;
                    // overlap of [lo, lo+w) with [plo, top)
                    let a0 = lo.max(plo);
                    let a1 = (lo + w).min(top);
                    if a0 < a1 {
                        let x = self.extract(p, a0 - plo, a1 - a0);
                        parts.push(x);
                    }
                    top = plo;
                }
                self.concat(&parts)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.args[0], lo, w);
                let y = self.extract(n.args[1], lo, w);
                match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Op::Ite => {
                let x = self.extract(n.args[1], lo, w);
                let y = self.extract(n.args[2], lo, w);
                self.ite(n.args[0], x, y)
            }
            // sign of 0 - y, y not above the half
            Op::Sub if w == 1 && lo == n.w - 1 && self.cval(n.args[0]) == Some(0) && self.n(n.args[1]).umax <= 1u128 << lo => {
                let z = self.k(0, n.w);
                let q = self.eq(n.args[1], z);
                self.not1(q)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.args[0], 0, w);
                let y = self.extract(n.args[1], 0, w);
                match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                }
            }
            Op::SExt if lo + w <= self.w(n.args[0]) => self.extract(n.args[0], lo, w),
            _ => self.mk(Op::Extract, w, u32::from(lo), 0, &[a]),
        };
        self.ext_memo.insert((a, lo, w), r);
        r
    }

    // cut points induced by concat structure (bit positions, ascending, exclusive of 0 and w)
    fn cuts(&self, e: E, out: &mut Vec<u16>, konst: bool) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                let mut top = n.w;
                for &p in n.args.iter() {
                    let pn = self.n(p);
                    let lo = top - pn.w;
                    if lo > 0 {
                        out.push(lo);
                    }
                    if pn.op == Op::Const && konst {
                        self.kcuts(pn.c, pn.w, lo, out);
                    }
                    top = lo;
                }
            }
            Op::Const if konst => self.kcuts(n.c, n.w, 0, out),
            _ => {}
        }
    }
    fn kcuts(&self, c: u128, w: u16, base: u16, out: &mut Vec<u16>) {
        for i in 1..w {
            if (c >> i) & 1 != (c >> (i - 1)) & 1 {
                out.push(base + i);
            }
        }
    }
    fn bitwise(&mut self, op: Op, a: E, b: E) -> E {
        let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        let m = mask(w);
        let ca = self.cval(a);
        let cb = self.cval(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                Op::And => x & y,
                Op::Or => x | y,
                _ => x ^ y,
            };
            return self.k(r, w);
        }
        if let Some(c) = cb {
            match op {
                Op::And => {
                    if c == 0 {
                        return self.k(0, w);
                    }
                    if c & self.n(a).ones == self.n(a).ones {
                        return a;
                    }
                }
                Op::Or => {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                _ => {
                    if c == 0 {
                        return a;
                    }
                }
            }
        }
        if a == b {
            return match op {
                Op::Xor => self.k(0, w),
                _ => a,
            };
        }
        if w == 1 && op != Op::Xor {
            // x & !x, x | !x
            let na = self.not1(a);
            if na == b {
                return self.k(if op == Op::And { 0 } else { 1 }, 1);
            }
            // absorb: a & (a & y) = a & y
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n(x);
                if n.op == op && (n.args[0] == y || n.args[1] == y) {
                    return x;
                }
            }
        }
        if op == Op::And && self.n(a).ones & self.n(b).ones == 0 {
            return self.k(0, w);
        }
        if w > 1 {
            let has_concat = self.n(a).op == Op::Concat || self.n(b).op == Op::Concat;
            if has_concat || (op != Op::Xor && cb.is_some()) {
                let mut cs = vec![0u16];
                self.cuts(a, &mut cs, true);
                self.cuts(b, &mut cs, true);
                cs.sort_unstable();
                cs.dedup();
                if cs.len() > 1 && cs.len() <= 24 {
                    cs.push(w);
                    let mut parts = vec![];
                    for i in (0..cs.len() - 1).rev() {
                        let (lo, pw) = (cs[i], cs[i + 1] - cs[i]);
                        let x = self.extract(a, lo, pw);
                        let y = self.extract(b, lo, pw);
                        let r = self.bitwise(op, x, y);
                        parts.push(r);
                    }
                    return self.concat(&parts);
                }
            }
        }
        // xor/and/or with const: reassociate
        if let Some(c) = cb {
            let n = self.n(a).clone();
            if n.op == op {
                if let Some(c2) = self.cval(n.args[1]) {
                    let r = match op {
                        Op::And => c & c2,
                        Op::Or => c | c2,
                        _ => c ^ c2,
                    };
                    let k = self.k(r, w);
                    return self.bitwise(op, n.args[0], k);
                }
            }
            if n.op == Op::Ite && (self.cval(n.args[1]).is_some() && self.cval(n.args[2]).is_some()) {
                let x = self.bitwise(op, n.args[1], b);
                let y = self.bitwise(op, n.args[2], b);
                return self.ite(n.args[0], x, y);
            }
        }
        self.mk(op, w, 0, 0, &[a, b])
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::Xor, a, b)
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        let m = mask(w);
        if w == 1 {
            return self.xor(a, b);
        }
        let cb = self.cval(b);
        if let Some(y) = cb {
            if let Some(x) = self.cval(a) {
                return self.k(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            let n = self.n(a).clone();
            match n.op {
                Op::Add => {
                    if let Some(c2) = self.cval(n.args[1]) {
                        let k = self.k(y.wrapping_add(c2), w);
                        return self.add(n.args[0], k);
                    }
                }
                Op::Sub => {
                    if let Some(c2) = self.cval(n.args[0]) {
                        let k = self.k(y.wrapping_add(c2), w);
                        return self.sub(k, n.args[1]);
                    }
                }
                // zext(x + c1) + y where no wrap happened inside: pull out
                Op::Concat if n.args.len() == 2 => {
                    let (z, x) = (n.args[0], n.args[1]);
                    if self.cval(z) == Some(0) && self.n(x).op == Op::Add {
                        let xn = self.n(x).clone();
                        if let Some(c2) = self.cval(xn.args[1]) {
                            let h = self.n(xn.args[0]).umax.checked_add(c2);
                            if h.is_some_and(|h| h <= mask(xn.w)) {
                                let zx = self.zext(xn.args[0], w);
                                let k = self.k(y.wrapping_add(c2), w);
                                return self.add(zx, k);
                            }
                        }
                    }
                }
                Op::Ite if self.cval(n.args[1]).is_some() && self.cval(n.args[2]).is_some() => {
                    let x = self.add(n.args[1], b);
                    let yy = self.add(n.args[2], b);
                    return self.ite(n.args[0], x, yy);
                }
                _ => {}
            }
        }
        if self.n(a).ones & self.n(b).ones == 0 {
            return self.or(a, b);
        }
        // x + (0 - y) etc
        {
            let nb = self.n(b).clone();
            if nb.op == Op::Sub && nb.args[1] == a {
                return nb.args[0];
            }
            let na = self.n(a).clone();
            if na.op == Op::Sub && na.args[1] == b {
                return na.args[0];
            }
            // (x + c) + y -> (x + y) + c
            if cb.is_none() {
                if na.op == Op::Add && self.cval(na.args[1]).is_some() {
                    let s = self.add(na.args[0], b);
                    return self.add(s, na.args[1]);
                }
                if nb.op == Op::Add && self.cval(nb.args[1]).is_some() {
                    let s = self.add(a, nb.args[0]);
                    return self.add(s, nb.args[1]);
                }
            }
        }
        if let Some(h) = self.n(a).umax.checked_add(self.n(b).umax) {
            let k = bitlen(h).max(1);
            if h <= m && k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                let r = self.add_raw(x, y);
                return self.zext(r, w);
            }
        }
        self.add_raw(a, b)
    }
    fn add_raw(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.k(x.wrapping_add(y), w);
        }
        self.mk(Op::Add, w, 0, 0, &[a, b])
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(0, w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.k(x.wrapping_sub(y), w);
            }
            if y == 0 {
                return a;
            }
            // a constant in the low bits
            let n = self.n(a);
            if n.op == Op::Concat {
                let l = *n.args.last().unwrap();
                if self.cval(l).is_some_and(|c| c >= y) {
                    let lw = self.w(l);
                    let c = self.cval(l).unwrap();
                    let hi = self.extract(a, lw, w - lw);
                    let lo = self.k(c - y, lw);
                    return self.concat(&[hi, lo]);
                }
            }
            // keep small subtractions as Sub when they provably don't wrap (nicer intervals)
            let n = self.n(a);
            if n.umin >= y {
                let k = bitlen(n.umax).max(1);
                if n.op == Op::Add {
                    let n = n.clone();
                    if let Some(c2) = self.cval(n.args[1]) {
                        let kk = self.k(c2.wrapping_sub(y), w);
                        return self.add(n.args[0], kk);
                    }
                }
                if k < w {
                    let x = self.extract(a, 0, k);
                    let yy = self.k(y, k);
                    let r = self.sub(x, yy);
                    return self.zext(r, w);
                }
                return self.mk(Op::Sub, w, 0, 0, &[a, b]);
            }
            let kk = self.k(0u128.wrapping_sub(y), w);
            return self.add(a, kk);
        }
        let na = self.n(a).clone();
        let nb = self.n(b).clone();
        if na.op == Op::Const && nb.op == Op::Sub {
            if let Some(c2) = self.cval(nb.args[0]) {
                // c1 - (c2 - y) = y + (c1 - c2)
                let k = self.k(na.c.wrapping_sub(c2), w);
                return self.add(nb.args[1], k);
            }
        }
        // (x + y) - y
        if na.op == Op::Add {
            if na.args[0] == b {
                return na.args[1];
            }
            if na.args[1] == b {
                return na.args[0];
            }
            if self.cval(na.args[1]).is_some() {
                // (x + c) - y -> (x - y) + c
                let s = self.sub(na.args[0], b);
                return self.add(s, na.args[1]);
            }
        }
        if nb.op == Op::Add {
            // x - (x + y) = 0 - y
            if nb.args[0] == a {
                let z = self.k(0, w);
                return self.sub(z, nb.args[1]);
            }
            if nb.args[1] == a {
                let z = self.k(0, w);
                return self.sub(z, nb.args[0]);
            }
            if let Some(c) = self.cval(nb.args[1]) {
                let s = self.sub(a, nb.args[0]);
                let k = self.k(0u128.wrapping_sub(c), w);
                return self.add(s, k);
            }
        }
        if na.umin >= nb.umax {
            let k = bitlen(na.umax).max(1);
            if k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                let r = self.sub(x, y);
                return self.zext(r, w);
            }
        }
        self.mk(Op::Sub, w, 0, 0, &[a, b])
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        let m = mask(w);
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.k(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = y.trailing_zeros() as u16;
                return self.shl_c(a, s);
            }
            let n = self.n(a).clone();
            if n.op == Op::Mul {
                if let Some(c2) = self.cval(n.args[1]) {
                    let k = self.k(y.wrapping_mul(c2), w);
                    return self.mul(n.args[0], k);
                }
            }
            if n.op == Op::Ite && self.cval(n.args[1]).is_some() && self.cval(n.args[2]).is_some() {
                let x = self.mul(n.args[1], b);
                let yy = self.mul(n.args[2], b);
                return self.ite(n.args[0], x, yy);
            }
        }
        if let Some(h) = self.n(a).umax.checked_mul(self.n(b).umax) {
            let k = bitlen(h).max(1);
            if h <= m && k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                let r = self.mul(x, y);
                return self.zext(r, w);
            }
        }
        self.mk(Op::Mul, w, 0, 0, &[a, b])
    }
    pub fn udivrem(&mut self, rem: bool, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return self.k(0, w);
            }
            if let Some(x) = self.cval(a) {
                return self.k(if rem { x % y } else { x / y }, w);
            }
            if y == 1 {
                return if rem { self.k(0, w) } else { a };
            }
            if self.n(a).umax < y {
                return if rem { a } else { self.k(0, w) };
            }
            if y.is_power_of_two() {
                let s = y.trailing_zeros() as u16;
                if rem {
                    let x = self.extract(a, 0, s);
                    return self.zext(x, w);
                }
                return self.lshr_c(a, s);
            }
            // (x % m) % y = x % y and (x % m) / y = (x / y) % (m / y), when y divides m
            {
                let mut inner = self.zpeel(a);
                // digits cut to a smaller width they fit in
                let n = self.n(inner).clone();
                if n.op == Op::Extract && n.aux == 0 && self.n(n.args[0]).umax <= mask(n.w) {
                    inner = n.args[0];
                }
                let n = self.n(inner).clone();
                if n.op == Op::URem {
                    if let Some(c) = self.cval(n.args[1]) {
                        if c % y == 0 {
                            let yk = self.k(y, n.w);
                            let r = if rem {
                                self.udivrem(true, n.args[0], yk)
                            } else {
                                let q = self.udivrem(false, n.args[0], yk);
                                let m = self.k(c / y, n.w);
                                self.udivrem(true, q, m)
                            };
                            return if n.w <= w { self.zext(r, w) } else { self.extract(r, 0, w) };
                        }
                    }
                }
            }
            if !rem {
                // (x / c1) / y = x / (c1*y)
                let n = self.n(a).clone();
                let (inner, iw) = if n.op == Op::Concat && n.args.len() == 2 && self.cval(n.args[0]) == Some(0) {
                    (n.args[1], self.w(n.args[1]))
                } else {
                    (a, w)
                };
                let inn = self.n(inner).clone();
                if inn.op == Op::UDiv {
                    if let Some(c1) = self.cval(inn.args[1]) {
                        if let Some(p) = c1.checked_mul(y) {
                            if p > mask(iw) {
                                return self.k(0, w);
                            }
                            let k = self.k(p, iw);
                            let r = self.udivrem(false, inn.args[0], k);
                            return self.zext(r, w);
                        }
                    }
                }
            }
        }
        let h = self.n(a).umax.max(self.n(b).umax);
        let k = bitlen(h).max(1);
        if k < w && self.n(b).umin > 0 {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            let r = self.mk(if rem { Op::URem } else { Op::UDiv }, k, 0, 0, &[x, y]);
            return self.zext(r, w);
        }
        self.mk(if rem { Op::URem } else { Op::UDiv }, w, 0, 0, &[a, b])
    }
    pub fn sdivrem(&mut self, rem: bool, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y == 0 {
                return self.k(0, w);
            }
            let r = if rem { x.wrapping_rem(y) } else { x.wrapping_div(y) };
            return self.k(r as u128, w);
        }
        let half = 1u128 << (w - 1);
        if self.n(a).umax < half && self.n(b).umax < half {
            return self.udivrem(rem, a, b);
        }
        if self.n(b).op == Op::Const && self.n(b).umin > 0 && self.n(b).umax < half {
            let z = self.k(0, w);
            let na = self.sub(z, a);
            let minus = self.n(a).op == Op::Sub && self.n(na).umax <= half && self.cval(self.n(a).args[0]) == Some(0);
            if minus || self.n(a).umin >= half {
                let q = self.udivrem(rem, na, b);
                return self.sub(z, q);
            }
        }
        self.mk(if rem { Op::SRem } else { Op::SDiv }, w, 0, 0, &[a, b])
    }
    pub fn shl_c(&mut self, a: E, s: u16) -> E {
        let w = self.w(a);
        if s >= w {
            return self.k(0, w);
        }
        if s == 0 {
            return a;
        }
        let x = self.extract(a, 0, w - s);
        let z = self.k(0, s);
        self.concat(&[x, z])
    }
    pub fn lshr_c(&mut self, a: E, s: u16) -> E {
        let w = self.w(a);
        if s >= w {
            return self.k(0, w);
        }
        if s == 0 {
            return a;
        }
        let x = self.extract(a, s, w - s);
        self.zext(x, w)
    }
    pub fn shift(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            let s = s.min(u128::from(w)) as u16;
            match op {
                Op::Shl => return self.shl_c(a, s),
                Op::LShr => return self.lshr_c(a, s),
                _ => {
                    let s = s.min(w - 1);
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
        }
        // few candidate shifts: ite over them
        let nb = self.n(b);
        let ones = nb.ones;
        if nb.umax - nb.umin <= 64 && ones.count_ones() <= 4 {
            let (lo, hi) = (nb.umin, nb.umax);
            let mut r = None;
            for s in (lo..=hi).rev() {
                if s & !ones != 0 {
                    continue;
                }
                let k = self.k(s, w);
                let v = self.shift(op, a, k);
                r = Some(match r {
                    None => v,
                    Some(prev) => {
                        let c = self.eq(b, k);
                        self.ite(c, v, prev)
                    }
                });
            }
            return r.unwrap();
        }
        self.mk(op, w, 0, 0, &[a, b])
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(1, 1);
        }
        let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) };
        let w = self.w(a);
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.umax < nb.umin || nb.umax < na.umin {
            return self.k(0, 1);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not1(x);
        }
        let kb = self.cval(b);
        if let Some(c) = kb {
            if c & !na.ones != 0 {
                return self.k(0, 1);
            }
            match na.op {
                Op::Const => return self.k(u128::from(na.c == c), 1),
                Op::Add => {
                    if let Some(c2) = self.cval(na.args[1]) {
                        let k = self.k(c.wrapping_sub(c2), w);
                        return self.eq(na.args[0], k);
                    }
                }
                Op::Sub => {
                    if let Some(c2) = self.cval(na.args[1]) {
                        let k = self.k(c.wrapping_add(c2), w);
                        return self.eq(na.args[0], k);
                    }
                    if let Some(c2) = self.cval(na.args[0]) {
                        let k = self.k(c2.wrapping_sub(c), w);
                        return self.eq(na.args[1], k);
                    }
                    if c == 0 {
                        return self.eq(na.args[0], na.args[1]);
                    }
                }
                Op::Xor => {
                    if let Some(c2) = self.cval(na.args[1]) {
                        let k = self.k(c ^ c2, w);
                        return self.eq(na.args[0], k);
                    }
                    if c == 0 {
                        return self.eq(na.args[0], na.args[1]);
                    }
                }
                Op::Ite => {
                    let (x, y) = (na.args[1], na.args[2]);
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(na.args[0], p, q);
                    }
                }
                Op::SExt => {
                    let iw = self.w(na.args[0]);
                    let low = c & mask(iw);
                    if sx(low, iw) as u128 & mask(w) == c {
                        let k = self.k(low, iw);
                        return self.eq(na.args[0], k);
                    }
                    return self.k(0, 1);
                }
                _ => {}
            }
        } else {
            // x == x + y  etc
            if na.op == Op::Add && na.args[0] == b {
                let z = self.k(0, w);
                return self.eq(na.args[1], z);
            }
            if nb.op == Op::Add && nb.args[0] == a {
                let z = self.k(0, w);
                return self.eq(nb.args[1], z);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.args[1] == nb.args[1] {
                return self.eq(na.args[0], nb.args[0]);
            }
        }
        // Concat: segmentwise
        if na.op == Op::Concat || nb.op == Op::Concat {
            let mut cs = vec![0u16];
            self.cuts(a, &mut cs, false);
            self.cuts(b, &mut cs, false);
            cs.sort_unstable();
            cs.dedup();
            let both = na.op == Op::Concat && nb.op == Op::Concat;
            if cs.len() > 1 && (kb.is_some() || both) {
                cs.push(w);
                let mut r = self.k(1, 1);
                for i in 0..cs.len() - 1 {
                    let (lo, pw) = (cs[i], cs[i + 1] - cs[i]);
                    let x = self.extract(a, lo, pw);
                    let y = self.extract(b, lo, pw);
                    let q = self.eq(x, y);
                    r = self.and(r, q);
                    if self.cval(r) == Some(0) {
                        return r;
                    }
                }
                return r;
            }
        }
        let k = bitlen(na.ones | nb.ones).max(1);
        if k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            return self.eq(x, y);
        }
        self.mk(Op::Eq, 1, 0, 0, &[a, b])
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if na.umax < nb.umin {
            return self.k(1, 1);
        }
        if na.umin >= nb.umax {
            return self.k(0, 1);
        }
        if w == 1 {
            let na = self.not1(a);
            return self.and(na, b);
        }
        let k = bitlen(na.umax.max(nb.umax)).max(1);
        if k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            return self.ult(x, y);
        }
        if let Some(c) = self.cval(b) {
            if c == 1 {
                let z = self.k(0, w);
                return self.eq(a, z);
            }
            if c == self.n(a).umax {
                // x < max  <=> x != max
                let q = self.eq(a, b);
                return self.not1(q);
            }
            // concat(x, 0s..) / power-of-two bounds: compare the top part
            let na = self.n(a).clone();
            let tz = (c.trailing_zeros() as u16).min(w - 1);
            if tz > 0 && na.op == Op::Concat {
                let x = self.extract(a, tz, w - tz);
                let kk = self.k(c >> tz, w - tz);
                return self.ult(x, kk);
            }
            if na.op == Op::Ite && self.cval(na.args[1]).is_some() && self.cval(na.args[2]).is_some() {
                let p = self.ult(na.args[1], b);
                let q = self.ult(na.args[2], b);
                return self.ite(na.args[0], p, q);
            }
        }
        if let Some(c) = self.cval(a) {
            if c == 0 {
                let q = self.eq(b, a);
                return self.not1(q);
            }
            // c < x  <=> !(x < c+1)
            if c < mask(w) {
                let kk = self.k(c + 1, w);
                let q = self.ult(b, kk);
                return self.not1(q);
            }
        }
        self.mk(Op::Ult, 1, 0, 0, &[a, b])
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.k(u128::from(sx(x, w) < sx(y, w)), 1);
        }
        let half = 1u128 << (w - 1);
        let (na, nb) = (self.n(a), self.n(b));
        let (apos, bpos) = (na.umax < half, nb.umax < half);
        let (aneg, bneg) = (na.umin >= half, nb.umin >= half);
        if (apos && bpos) || (aneg && bneg) {
            return self.ult(a, b);
        }
        if aneg && bpos {
            return self.k(1, 1);
        }
        if apos && bneg {
            return self.k(0, 1);
        }
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cval(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not1(s);
        }
        // narrow sign-extended operands
        {
            let iw = |ar: &Arena, e: E| -> u16 {
                let n = ar.n(e);
                match n.op {
                    Op::SExt => ar.w(n.args[0]),
                    Op::Const => {
                        let v = sx(n.c, n.w);
                        let mut k = 1;
                        while k < n.w && sx(v as u128 & mask(k), k) != v {
                            k += 1;
                        }
                        k
                    }
                    _ => {
                        let k = bitlen(n.umax) + 1;
                        k.min(n.w)
                    }
                }
            };
            let k = iw(self, a).max(iw(self, b));
            if k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                return self.slt(x, y);
            }
        }
        self.mk(Op::Slt, 1, 0, 0, &[a, b])
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.n(c).clone();
        if nc.op == Op::Xor && self.cval(nc.args[1]) == Some(1) {
            return self.ite(nc.args[0], b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        // nested same condition
        let na = self.n(a).clone();
        if na.op == Op::Ite && na.args[0] == c {
            return self.ite(c, na.args[1], b);
        }
        let nb = self.n(b).clone();
        if nb.op == Op::Ite && nb.args[0] == c {
            return self.ite(c, a, nb.args[2]);
        }
        // ite(x == k, k, x) = x
        if nc.op == Op::Eq && ((nc.args[0] == a && nc.args[1] == b) || (nc.args[0] == b && nc.args[1] == a)) {
            return b;
        }
        // y == 0 ? 0 - y : y, and the other way round
        for (m, y) in [(&na, b), (&nb, a)] {
            if m.op == Op::Sub && m.args[1] == y && self.cval(m.args[0]) == Some(0) && nc.op != Op::Ite {
                let z = self.k(0, w);
                if self.eq(y, z) == c {
                    return b;
                }
            }
        }
        let k = bitlen(na.ones | nb.ones).max(1);
        if k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            let r = self.ite(c, x, y);
            return self.zext(r, w);
        }
        // common low/high structure for two concats: split at shared cuts when a part is equal
        if w > 1 && na.op == Op::Concat && nb.op == Op::Concat {
            let mut ca = vec![];
            self.cuts(a, &mut ca, false);
            let mut cb = vec![];
            self.cuts(b, &mut cb, false);
            for &x in &ca {
                if cb.contains(&x) {
                    let (ah, bh) = (self.extract(a, x, w - x), self.extract(b, x, w - x));
                    let (al, bl) = (self.extract(a, 0, x), self.extract(b, 0, x));
                    if ah == bh || al == bl {
                        let h = self.ite(c, ah, bh);
                        let l = self.ite(c, al, bl);
                        return self.concat(&[h, l]);
                    }
                }
            }
        }
        self.ite_raw(c, a, b)
    }
    /// What `e` extends with zeros.
    fn zpeel(&self, e: E) -> E {
        let n = self.n(e);
        if n.op == Op::Concat && n.args.len() == 2 && self.cval(n.args[0]) == Some(0) {
            n.args[1]
        } else {
            e
        }
    }
    fn ite_raw(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        self.mk(Op::Ite, w, 0, 0, &[c, a, b])
    }

    pub fn fop(&mut self, op: Op, w: u16, aux: u32, args: &[E]) -> E {
        if args.iter().all(|&a| self.n(a).op == Op::Const) {
            let v: Vec<(u128, u16)> = args.iter().map(|&a| (self.n(a).c, self.w(a))).collect();
            let c = fp_eval(op, w, aux, &v);
            return self.k(c, w);
        }
        if op == Op::FNarrow && self.n(args[0]).op == Op::FExt {
            return self.n(args[0]).args[0];
        }
        self.mk(op, w, aux, 0, args)
    }

    /// The double of a single, and a double as it is.
    pub fn wide(&mut self, x: E) -> E {
        if self.w(x) == 32 {
            self.fop(Op::FExt, 64, 0, &[x])
        } else {
            x
        }
    }
    fn back(&mut self, w: u16, x: E) -> E {
        if w == 32 {
            self.fop(Op::FNarrow, 32, 0, &[x])
        } else {
            x
        }
    }
    /// Arithmetic on doubles or singles (that of singles is the rounded one of doubles).
    pub fn fbin(&mut self, op: Op, w: u16, x: E, y: E) -> E {
        let (x, y) = (self.wide(x), self.wide(y));
        let r = self.fop(op, 64, 0, &[x, y]);
        self.back(w, r)
    }
    pub fn fun(&mut self, op: Op, aux: u32, x: E) -> E {
        let w = self.w(x);
        let x = self.wide(x);
        let r = self.fop(op, 64, aux, &[x]);
        self.back(w, r)
    }

    /// Rebuild a node of the given operator from (possibly rewritten) arguments.
    pub fn rebuild(&mut self, op: Op, w: u16, aux: u32, a: &[E]) -> E {
        match op {
            Op::Add => self.add(a[0], a[1]),
            Op::Sub => self.sub(a[0], a[1]),
            Op::Mul => self.mul(a[0], a[1]),
            Op::UDiv => self.udivrem(false, a[0], a[1]),
            Op::URem => self.udivrem(true, a[0], a[1]),
            Op::SDiv => self.sdivrem(false, a[0], a[1]),
            Op::SRem => self.sdivrem(true, a[0], a[1]),
            Op::And => self.and(a[0], a[1]),
            Op::Or => self.or(a[0], a[1]),
            Op::Xor => self.xor(a[0], a[1]),
            Op::Shl | Op::LShr | Op::AShr => self.shift(op, a[0], a[1]),
            Op::Eq => self.eq(a[0], a[1]),
            Op::Ult => self.ult(a[0], a[1]),
            Op::Slt => self.slt(a[0], a[1]),
            Op::Ite => self.ite(a[0], a[1], a[2]),
            Op::Concat => self.concat(a),
            Op::Extract => self.extract(a[0], aux as u16, w),
            Op::SExt => self.sext(a[0], w),
            Op::Const | Op::Var => unreachable!(),
            _ => self.fop(op, w, aux, a),
        }
    }

    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", n.c, n.w),
            Op::Var => format!("v{}", n.aux),
            _ if d == 0 => format!("#{e}"),
            _ => {
                let a: Vec<String> = n.args.iter().map(|&x| self.show(x, d - 1)).collect();
                format!("({:?}{} {})", n.op, if n.op == Op::Extract || n.op == Op::FCmp { format!("[{}+{}]", n.aux, n.w) } else { String::new() }, a.join(" "))
            }
        }
    }
    /// (m, r) with e = r (mod m); m = 0 means e is the constant r.
    pub fn stride(&self, e: E) -> (u128, u128) {
        fn gcd(a: u128, b: u128) -> u128 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        fn p2(x: u128) -> u128 {
            if x == 0 {
                0
            } else {
                1u128 << x.trailing_zeros()
            }
        }
        fn red(m: u128, r: u128) -> (u128, u128) {
            if m == 0 {
                (0, r)
            } else {
                (m, r % m)
            }
        }
        let n = self.n(e);
        let mw = mask(n.w);
        match n.op {
            Op::Const => (0, n.c),
            Op::Add | Op::Sub => {
                let (ma, ra) = self.stride(n.args[0]);
                let (mb, rb) = self.stride(n.args[1]);
                let mut m = gcd(ma, mb);
                let (x, y) = (self.n(n.args[0]), self.n(n.args[1]));
                let exact = if n.op == Op::Add { x.umax.checked_add(y.umax).is_some_and(|v| v <= mw) } else { x.umin >= y.umax };
                if !exact {
                    m = p2(m);
                }
                if m == 0 {
                    return (1, 0);
                }
                if m == 1 {
                    return (1, 0);
                }
                let r = if n.op == Op::Add { ra % m + rb % m } else { ra % m + m - rb % m };
                (m, r % m)
            }
            Op::Mul => {
                let k = match self.cval(n.args[1]) {
                    Some(k) => k,
                    None => return (1, 0),
                };
                let (ma, ra) = self.stride(n.args[0]);
                let exact = self.n(n.args[0]).umax.checked_mul(k).is_some_and(|v| v <= mw);
                if exact {
                    if let (Some(m), Some(r)) = (ma.checked_mul(k), ra.checked_mul(k)) {
                        return red(m, r);
                    }
                }
                (p2(k).max(1).min(1 << 20), 0)
            }
            Op::Concat => {
                let mut m = 0u128;
                let mut r = 0u128;
                let mut top = n.w;
                for &p in n.args.iter() {
                    let pw = self.w(p);
                    top -= pw;
                    let (pm, pr) = self.stride(p);
                    if top >= 64 || pm > 1 << 40 || pr > 1 << 60 {
                        if self.cval(p) == Some(0) {
                            continue;
                        }
                        return (1, 0);
                    }
                    m = gcd(m, pm << top);
                    r = r.wrapping_add(pr << top);
                }
                red(m, r)
            }
            Op::Ite => {
                let (ma, ra) = self.stride(n.args[1]);
                let (mb, rb) = self.stride(n.args[2]);
                let m = gcd(gcd(ma, mb), ra.abs_diff(rb));
                red(m, ra)
            }
            Op::And => match self.cval(n.args[1]) {
                Some(k) if k != 0 => (p2(k).min(1 << 20), 0),
                _ => (1, 0),
            },
            _ => (1, 0),
        }
    }

    /// Concrete evaluation under a byte assignment.
    pub fn eval(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.c,
            Op::Var => return u128::from(model.get(n.aux as usize).copied().unwrap_or(0)),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w;
        let m = mask(w);
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.args[0], model, memo) == 1 {
                    self.eval(n.args[1], model, memo)
                } else {
                    self.eval(n.args[2], model, memo)
                }
            }
            Op::Concat => {
                let mut r = 0u128;
                for &a in n.args.iter() {
                    let v = self.eval(a, model, memo);
                    r = (r << self.w(a)) | v;
                }
                r
            }
            _ => {
                let a = self.eval(n.args[0], model, memo);
                let aw = self.w(n.args[0]);
                let b = if n.args.len() > 1 { self.eval(n.args[1], model, memo) } else { 0 };
                match n.op {
                    Op::Add => a.wrapping_add(b),
                    Op::Sub => a.wrapping_sub(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => {
                        if b == 0 {
                            m
                        } else {
                            a / b
                        }
                    }
                    Op::URem => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    Op::SDiv => {
                        if b == 0 {
                            0
                        } else {
                            sx(a, w).wrapping_div(sx(b, w)) as u128
                        }
                    }
                    Op::SRem => {
                        if b == 0 {
                            a
                        } else {
                            sx(a, w).wrapping_rem(sx(b, w)) as u128
                        }
                    }
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => {
                        if b >= u128::from(w) {
                            0
                        } else {
                            a << b
                        }
                    }
                    Op::LShr => {
                        if b >= u128::from(w) {
                            0
                        } else {
                            a >> b
                        }
                    }
                    Op::AShr => {
                        let s = b.min(u128::from(w - 1));
                        (sx(a, w) >> s) as u128
                    }
                    Op::Eq => u128::from(a == b),
                    Op::Ult => u128::from(a < b),
                    Op::Slt => u128::from(sx(a, aw) < sx(b, aw)),
                    Op::Extract => a >> n.aux,
                    Op::SExt => sx(a, aw) as u128,
                    _ => {
                        let bw = if n.args.len() > 1 { self.w(n.args[1]) } else { 0 };
                        fp_eval(n.op, w, n.aux, &[(a, aw), (b, bw)])
                    }
                }
            }
        } & m;
        memo.insert(e, r);
        r
    }
}

pub const FP_LT: u32 = 1;
pub const FP_EQ: u32 = 2;
pub const FP_GT: u32 = 4;
pub const FP_UNO: u32 = 8;

pub fn fp_eval(op: Op, w: u16, aux: u32, a: &[(u128, u16)]) -> u128 {
    let f = |i: usize| f64::from_bits(a[i].0 as u64);
    let r = |x: f64| u128::from(x.to_bits());
    match op {
        Op::FAdd => r(f(0) + f(1)),
        Op::FSub => r(f(0) - f(1)),
        Op::FMul => r(f(0) * f(1)),
        Op::FDiv => r(f(0) / f(1)),
        Op::FRem => r(f(0) % f(1)),
        Op::FNeg => r(-f(0)),
        Op::FAbs => r(f(0).abs()),
        Op::FTrunc => r(match aux {
            0 => f(0).trunc(),
            1 => f(0).floor(),
            2 => f(0).ceil(),
            3 => f(0).round(),
            _ => f(0).round_ties_even(),
        }),
        Op::FExt => r(f64::from(f32::from_bits(a[0].0 as u32))),
        Op::FNarrow => u128::from((f(0) as f32).to_bits()),
        Op::UToF if w == 32 => u128::from((a[0].0 as f32).to_bits()),
        Op::SToF if w == 32 => u128::from((sx(a[0].0, a[0].1) as f32).to_bits()),
        Op::UToF => r(a[0].0 as f64),
        Op::SToF => r(sx(a[0].0, a[0].1) as f64),
        Op::FToS => {
            let x = f(0);
            let lo = -(2f64.powi(i32::from(w) - 1));
            let hi = 2f64.powi(i32::from(w) - 1);
            let v: i128 = if x.is_nan() {
                0
            } else if x < lo {
                -(1i128 << (w - 1))
            } else if x >= hi {
                (1i128 << (w - 1)) - 1
            } else {
                x as i128
            };
            v as u128 & mask(w)
        }
        Op::FToU => {
            let x = f(0);
            let hi = 2f64.powi(i32::from(w));
            if x.is_nan() || x <= 0.0 {
                0
            } else if x >= hi {
                mask(w)
            } else {
                x as u128
            }
        }
        Op::FCmp => {
            let (x, y) = (f(0), f(1));
            let b = if x.is_nan() || y.is_nan() {
                FP_UNO
            } else if x < y {
                FP_LT
            } else if x > y {
                FP_GT
            } else {
                FP_EQ
            };
            u128::from(b & aux != 0)
        }
        _ => unreachable!("fp_eval {op:?}"),
    }
}
