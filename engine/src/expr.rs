//! Hash-consed bit-vector expression DAG with construction-time simplification, unsigned interval
//! analysis, concrete evaluation and SMT-LIB2 printing.  Booleans are width-1 bit-vectors; floats
//! are their IEEE bit patterns.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FCmp,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
    FUn,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type VarSet = Rc<Vec<u32>>;

pub struct Pool {
    pub n: Vec<Node>,
    map: HashMap<Node, E, BuildFx>,
    lo: Vec<u128>,
    hi: Vec<u128>,
    vars: Vec<Option<VarSet>>,
    pub var_names: Vec<String>,
    pub var_w: Vec<u32>,
    pub var_e: Vec<E>,
    // evaluation cache for one model generation
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    cur_model: u64,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}

pub fn ones(w: u32) -> u128 {
    mask(u128::MAX, w)
}

pub struct Model {
    pub id: u64,
    pub v: Vec<u128>,
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            n: vec![],
            map: HashMap::with_hasher(BuildFx),
            lo: vec![],
            hi: vec![],
            vars: vec![],
            var_names: vec![],
            var_w: vec![],
            var_e: vec![],
            stamp: vec![],
            val: vec![],
            cur: 1,
            cur_model: u64::MAX,
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn lo(&self, e: E) -> u128 {
        self.lo[e as usize]
    }
    pub fn hi(&self, e: E) -> u128 {
        self.hi[e as usize]
    }
    pub fn as_k(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w, a, b, c, k };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.n.len() as E;
        self.n.push(n);
        self.map.insert(n, e);
        let (lo, hi) = self.range(&n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars.push(None);
        self.stamp.push(0);
        self.val.push(0);
        e
    }
    fn range(&self, n: &Node) -> (u128, u128) {
        let m = ones(n.w);
        let l = |e: E| self.lo[e as usize];
        let h = |e: E| self.hi[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Add => match (h(n.a).checked_add(h(n.b)), ()) {
                (Some(x), _) if x <= m => (l(n.a) + l(n.b), x),
                _ => (0, m),
            },
            Op::Sub => {
                if l(n.a) >= h(n.b) {
                    (l(n.a) - h(n.b), h(n.a) - l(n.b))
                } else {
                    (0, m)
                }
            }
            Op::Mul => match h(n.a).checked_mul(h(n.b)) {
                Some(x) if x <= m => (l(n.a) * l(n.b), x),
                _ => (0, m),
            },
            Op::UDiv => {
                if l(n.b) > 0 {
                    (l(n.a) / h(n.b), h(n.a) / l(n.b))
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                if l(n.b) > 0 {
                    (0, h(n.a).min(h(n.b) - 1))
                } else {
                    (0, h(n.a).max(0).min(m))
                }
            }
            Op::LShr => {
                if let Some(k) = self.as_k(n.b) {
                    if k < 128 {
                        return (l(n.a) >> k, h(n.a) >> k);
                    }
                }
                (0, h(n.a))
            }
            Op::Shl => {
                if let Some(k) = self.as_k(n.b) {
                    if k < n.w as u128 && h(n.a) <= (m >> k) {
                        return (l(n.a) << k, h(n.a) << k);
                    }
                }
                (0, m)
            }
            Op::And => (0, h(n.a).min(h(n.b))),
            Op::Or => {
                let x = h(n.a) | h(n.b);
                let bits = 128 - x.leading_zeros();
                (l(n.a).max(l(n.b)), ones(bits))
            }
            Op::Xor => {
                let x = h(n.a) | h(n.b);
                let bits = 128 - x.leading_zeros();
                (0, ones(bits))
            }
            Op::Concat => {
                let wb = self.w(n.b);
                ((l(n.a) << wb) | l(n.b), (h(n.a) << wb) | h(n.b))
            }
            Op::Extract => {
                if n.k == 0 && h(n.a) <= m {
                    (l(n.a), h(n.a))
                } else if n.k > 0 {
                    let x = h(n.a) >> n.k;
                    if x <= m {
                        (l(n.a) >> n.k, x)
                    } else {
                        (0, m)
                    }
                } else {
                    (0, m)
                }
            }
            Op::ZExt => (l(n.a), h(n.a)),
            Op::SExt => {
                let wa = self.w(n.a);
                if h(n.a) < (1u128 << (wa - 1)) {
                    (l(n.a), h(n.a))
                } else {
                    (0, m)
                }
            }
            Op::Ite => (l(n.b).min(l(n.c)), h(n.b).max(h(n.c))),
            _ => (0, m),
        }
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, mask(v, w))
    }
    pub fn tt(&mut self) -> E {
        self.k(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.k(0, 1)
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let i = self.var_names.len();
        self.var_names.push(name.to_string());
        self.var_w.push(w);
        let e = self.mk(Op::Var, w, i as u32, 0, 0, 0);
        self.var_e.push(e);
        e
    }
    pub fn vars(&mut self, e: E) -> VarSet {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.vars[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            let kids = self.kids(&n);
            let mut ready = true;
            for k in kids.iter().flatten() {
                if self.vars[*k as usize].is_none() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let vs = if n.op == Op::Var {
                Rc::new(vec![n.a])
            } else {
                let mut out: Option<VarSet> = None;
                for k in kids.iter().flatten() {
                    let kv = self.vars[*k as usize].clone().unwrap();
                    out = Some(match out {
                        None => kv,
                        Some(o) => {
                            if Rc::ptr_eq(&o, &kv) || kv.is_empty() || *o == *kv {
                                o
                            } else if o.is_empty() {
                                kv
                            } else {
                                let mut m: Vec<u32> = o.iter().chain(kv.iter()).cloned().collect();
                                m.sort();
                                m.dedup();
                                Rc::new(m)
                            }
                        }
                    });
                }
                out.unwrap_or_else(|| Rc::new(vec![]))
            };
            self.vars[x as usize] = Some(vs);
        }
        self.vars[e as usize].clone().unwrap()
    }
    pub fn kids(&self, n: &Node) -> [Option<E>; 3] {
        match n.op {
            Op::Const | Op::Var => [None, None, None],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FpToUi | Op::FpToSi | Op::UiToFp | Op::SiToFp | Op::FpExt | Op::FpTrunc | Op::FUn => [Some(n.a), None, None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            _ => [Some(n.a), Some(n.b), None],
        }
    }

    // ---- builders ----
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Add {
                    if let Some(x) = self.as_k(n.b) {
                        let k = self.k(x.wrapping_add(y), w);
                        return self.add(n.a, k);
                    }
                }
                if n.op == Op::Ite && (self.as_k(n.b).is_some() || self.as_k(n.c).is_some()) {
                    let t = self.add(n.b, b);
                    let f = self.add(n.c, b);
                    return self.ite(n.a, t, f);
                }
                return self.mk(Op::Add, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Add && self.as_k(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.as_k(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x + (y - x) = y
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.k(0, w);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.k(0, w);
        }
        if let Some(y) = self.as_k(b) {
            let k = self.k(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.as_k(na.b).is_some() {
                let s = self.sub(na.a, b);
                return self.add(s, na.b);
            }
        }
        if nb.op == Op::Add && self.as_k(nb.b).is_some() {
            let s = self.sub(a, nb.a);
            let k = self.as_k(nb.b).unwrap();
            let k = self.k(k.wrapping_neg(), w);
            return self.add(s, k);
        }
        if nb.op == Op::Sub && self.as_k(a) == Some(0) {
            return self.sub(nb.b, nb.a);
        }
        if nb.op == Op::Ite && self.as_k(a).is_some() && (self.as_k(nb.b).is_some() || self.as_k(nb.c).is_some()) {
            let t = self.sub(a, nb.b);
            let f = self.sub(a, nb.c);
            return self.ite(nb.a, t, f);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Mul {
                    if let Some(x) = self.as_k(n.b) {
                        let k = self.k(x.wrapping_mul(y), w);
                        return self.mul(n.a, k);
                    }
                }
                if n.op == Op::Ite && self.as_k(n.b).is_some() && self.as_k(n.c).is_some() {
                    let t = self.mul(n.b, b);
                    let f = self.mul(n.c, b);
                    return self.ite(n.a, t, f);
                }
                if n.op == Op::ZExt {
                    let wi = self.w(n.a);
                    if wi < w && self.hi(n.a).checked_mul(y).map(|h| h <= ones(wi)).unwrap_or(false) && y <= ones(wi) {
                        let k = self.k(y, wi);
                        let m = self.mul(n.a, k);
                        return self.zext(m, w);
                    }
                }
                return self.mk(Op::Mul, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if w <= 64 {
            let za = self.zext(a, 2 * w);
            let zb = self.zext(b, 2 * w);
            let (za, zb) = if za <= zb { (za, zb) } else { (zb, za) };
            let m = self.mk(Op::Mul, 2 * w, za, zb, 0, 0);
            return self.extract(m, 0, w);
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return if y == 0 { self.k(ones(w), w) } else { self.k(x / y, w) };
        }
        if let Some(y) = self.as_k(b) {
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.k(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            let n = self.n[a as usize];
            if n.op == Op::Mul {
                if let Some(x) = self.as_k(n.b) {
                    if x % y == 0 && self.hi(n.a).checked_mul(x).map(|h| h <= ones(w)).unwrap_or(false) {
                        let k = self.k(x / y, w);
                        return self.mul(n.a, k);
                    }
                }
            }
            if n.op == Op::ZExt && y <= ones(self.w(n.a)) {
                let wi = self.w(n.a);
                let k = self.k(y, wi);
                let d = self.udiv(n.a, k);
                return self.zext(d, w);
            }
            if n.op == Op::Ite && self.as_k(n.b).is_some() && self.as_k(n.c).is_some() {
                let t = self.udiv(n.b, b);
                let f = self.udiv(n.c, b);
                return self.ite(n.a, t, f);
            }
        }
        if self.lo(b) > self.hi(a) {
            return self.k(0, w);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) && self.lo(nb.a) > 0 {
            let d = self.udiv(na.a, nb.a);
            return self.zext(d, w);
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return if y == 0 { a } else { self.k(x % y, w) };
        }
        if let Some(y) = self.as_k(b) {
            if y == 1 {
                return self.k(0, w);
            }
            if y.is_power_of_two() {
                let k = self.k(y - 1, w);
                return self.and(a, k);
            }
            let n = self.n[a as usize];
            if n.op == Op::ZExt && y <= ones(self.w(n.a)) {
                let wi = self.w(n.a);
                let k = self.k(y, wi);
                let d = self.urem(n.a, k);
                return self.zext(d, w);
            }
            if n.op == Op::Ite && (self.as_k(n.b).is_some() || self.as_k(n.c).is_some()) {
                let t = self.urem(n.b, b);
                let f = self.urem(n.c, b);
                return self.ite(n.a, t, f);
            }
        }
        if self.lo(b) > self.hi(a) {
            return a;
        }
        let n = self.n[a as usize];
        if n.op == Op::URem && n.b == b && self.lo(b) > 0 {
            return a;
        }
        let nb = self.n[b as usize];
        if n.op == Op::ZExt && nb.op == Op::ZExt && self.w(n.a) == self.w(nb.a) {
            let d = self.urem(n.a, nb.a);
            return self.zext(d, w);
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            if y != 0 {
                return self.k(sext(x, w).wrapping_div(sext(y, w)) as u128, w);
            }
        }
        if let Some(y) = self.as_k(b) {
            let y = sext(y, w);
            if y == 1 {
                return a;
            }
            if y > 0 && self.hi(a) < (1u128 << (w - 1)) {
                return self.udiv(a, b);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    /// definitional expansion of srem over urem when the divisor is a positive constant
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            if y != 0 {
                return self.k(sext(x, w).wrapping_rem(sext(y, w)) as u128, w);
            }
        }
        if let Some(y) = self.as_k(b) {
            let y = sext(y, w);
            if y > 0 && w > 16 {
                let na = self.n[a as usize];
                if na.op == Op::SExt && (y as u128) < (1u128 << (self.w(na.a) - 1)) {
                    let wi = self.w(na.a);
                    let k = self.k(y as u128, wi);
                    let r = self.srem(na.a, k);
                    return self.sext(r, w);
                }
                if self.hi(a) < (1u128 << (w - 1)) {
                    return self.urem(a, b);
                }
                let z = self.k(0, w);
                let neg = self.slt(a, z);
                let na = self.neg(a);
                let r1 = self.urem(na, b);
                let r1 = self.neg(r1);
                let r2 = self.urem(a, b);
                return self.ite(neg, r1, r2);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            if let Some(x) = self.as_k(a) {
                return self.k(x << s, w);
            }
            // concat(extract(a), 0)
            let s = s as u32;
            let z = self.k(0, s);
            let h = self.extract(a, 0, w - s);
            return self.concat(h, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            let s = s as u32;
            let h = self.extract(a, s, w - s);
            return self.zext(h, w);
        }
        if self.as_k(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_k(b) {
            if s == 0 {
                return a;
            }
            let s = (s.min(w as u128 - 1)) as u32;
            if let Some(x) = self.as_k(a) {
                return self.k((sext(x, w) >> s) as u128, w);
            }
            let h = self.extract(a, s, w - s);
            return self.sext(h, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return self.k(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == ones(w) => return a,
            (None, Some(y)) => {
                // low mask -> zext(extract)
                if (y + 1).is_power_of_two() {
                    let n = (y + 1).trailing_zeros();
                    if self.hi(a) <= y {
                        return a;
                    }
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
                let n = self.n[a as usize];
                if n.op == Op::And {
                    if let Some(x) = self.as_k(n.b) {
                        let k = self.k(x & y, w);
                        return self.and(n.a, k);
                    }
                }
                return self.mk(Op::And, w, a, b, 0, 0);
            }
            _ => {}
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.ff();
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return self.k(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == ones(w) => return b,
            _ => {}
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if w == 1 {
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.tt();
            }
        } else {
            // disjoint or of concat(x,0) and zext(y)
            for (p, q, np) in [(a, b, na), (b, a, nb)] {
                if np.op == Op::Concat && self.as_k(np.b) == Some(0) {
                    let wl = self.w(np.b);
                    if self.hi(q) <= ones(wl) {
                        let l = self.extract(q, 0, wl);
                        let _ = p;
                        return self.concat(np.a, l);
                    }
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(0, w);
        }
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return self.k(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == ones(w) => return self.not(a),
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Xor {
                    if let Some(x) = self.as_k(n.b) {
                        let k = self.k(x ^ y, w);
                        return self.xor(n.a, k);
                    }
                }
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => self.k(!n.k, n.w),
            Op::Not => n.a,
            _ => self.mk(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat width {w}");
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k((x << wb) | y, w);
        }
        if self.as_k(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && nb.k + wb as u128 == na.k {
            return self.extract(na.a, nb.k as u32, w);
        }
        // concat(extract(x,..), concat(extract(x,..), r))
        if nb.op == Op::Concat {
            let nba = self.n[nb.a as usize];
            if na.op == Op::Extract && nba.op == Op::Extract && na.a == nba.a && nba.k + nba.w as u128 == na.k {
                let h = self.extract(na.a, nba.k as u32, na.w + nba.w);
                return self.concat(h, nb.b);
            }
        }
        // right-associate
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => self.k(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    self.extract(n.a, lo - wb, w)
                } else if lo + w <= wb {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, wb - lo);
                    let h = self.extract(n.a, 0, lo + w - wb);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    self.k(0, w)
                } else if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, wi - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    self.sext(x, w)
                } else {
                    let s = self.extract(n.a, wi - 1, 1);
                    if w == 1 {
                        s
                    } else {
                        self.sext(s, w)
                    }
                }
            }
            Op::Ite => {
                if self.as_k(n.b).is_some() || self.as_k(n.c).is_some() || self.n[n.b as usize].op == Op::ZExt {
                    let t = self.extract(n.b, lo, w);
                    let f = self.extract(n.c, lo, w);
                    self.ite(n.a, t, f)
                } else {
                    self.mk(Op::Extract, w, a, 0, 0, lo as u128)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::Add | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                if n.op == Op::Add {
                    self.add(x, y)
                } else {
                    self.sub(x, y)
                }
            }
            Op::Mul if lo == 0 && self.as_k(n.b).is_some() => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.mul(x, y)
            }
            _ => {
                if lo > 0 && self.hi(a) >> lo == 0 {
                    return self.k(0, w);
                }
                self.mk(Op::Extract, w, a, 0, 0, lo as u128)
            }
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.k(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_k(n.b).is_some() && self.as_k(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let f = self.zext(n.c, w);
                self.ite(n.a, t, f)
            }
            // zext(extract(x,0,n)) where x < 2^n  => x (or narrower/wider zext of x)
            Op::Extract if n.k == 0 && self.hi(n.a) <= ones(n.w) => {
                let wx = self.w(n.a);
                if wx == w {
                    n.a
                } else if wx < w {
                    self.zext(n.a, w)
                } else {
                    self.mk(Op::ZExt, w, a, 0, 0, 0)
                }
            }
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.k(sext(n.k, n.w) as u128, w),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_k(n.b).is_some() && self.as_k(n.c).is_some() => {
                let t = self.sext(n.b, w);
                let f = self.sext(n.c, w);
                self.ite(n.a, t, f)
            }
            _ => {
                if self.hi(a) < (1u128 << (n.w - 1)) {
                    return self.zext(a, w);
                }
                if n.w == 1 {
                    let t = self.k(ones(w), w);
                    let f = self.k(0, w);
                    return self.ite(a, t, f);
                }
                self.mk(Op::SExt, w, a, 0, 0, 0)
            }
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_k(a), self.as_k(b)) {
            (Some(x), Some(y)) => return if x == y { self.tt() } else { self.ff() },
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if y < self.lo(a) || y > self.hi(a) {
                    return self.ff();
                }
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                let n = self.n[a as usize];
                match n.op {
                    Op::Add => {
                        if let Some(k) = self.as_k(n.b) {
                            let k2 = self.k(y.wrapping_sub(k), w);
                            return self.eq(n.a, k2);
                        }
                    }
                    Op::Sub => {
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                        if let Some(k) = self.as_k(n.a) {
                            let k2 = self.k(k.wrapping_sub(y), w);
                            return self.eq(n.b, k2);
                        }
                    }
                    Op::Xor => {
                        if let Some(k) = self.as_k(n.b) {
                            let k2 = self.k(y ^ k, w);
                            return self.eq(n.a, k2);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Not => {
                        let k = self.k(!y, w);
                        return self.eq(n.a, k);
                    }
                    Op::ZExt => {
                        let wi = self.w(n.a);
                        let k = self.k(y, wi);
                        return self.eq(n.a, k);
                    }
                    Op::SExt => {
                        let wi = self.w(n.a);
                        let k = self.k(y, wi);
                        if sext(mask(y, wi), wi) as u128 & ones(w) != y {
                            return self.ff();
                        }
                        return self.eq(n.a, k);
                    }
                    Op::Concat => {
                        let wb = self.w(n.b);
                        let wa = self.w(n.a);
                        let kh = self.k(y >> wb, wa);
                        let kl = self.k(y, wb);
                        let h = self.eq(n.a, kh);
                        let l = self.eq(n.b, kl);
                        return self.and(h, l);
                    }
                    Op::Ite => {
                        let (kb, kc) = (self.as_k(n.b), self.as_k(n.c));
                        if kb.is_some() || kc.is_some() {
                            let t = self.eq(n.b, b);
                            let f = self.eq(n.c, b);
                            return self.ite(n.a, t, f);
                        }
                    }
                    Op::Mul => {
                        if let Some(k) = self.as_k(n.b) {
                            if k != 0 && self.hi(n.a).checked_mul(k).map(|h| h <= ones(w)).unwrap_or(false) {
                                if y % k != 0 {
                                    return self.ff();
                                }
                                let q = self.k(y / k, w);
                                return self.eq(n.a, q);
                            }
                        }
                    }
                    _ => {}
                }
                return self.mk(Op::Eq, 1, a, b, 0, 0);
            }
            _ => {}
        }
        if self.lo(a) > self.hi(b) || self.lo(b) > self.hi(a) {
            return self.ff();
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) | (Op::SExt, Op::SExt) if self.w(na.a) == self.w(nb.a) => return self.eq(na.a, nb.a),
            (Op::ZExt, Op::ZExt) => {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                if wa > wb {
                    let x = self.zext(nb.a, wa);
                    return self.eq(na.a, x);
                }
                let x = self.zext(na.a, wb);
                return self.eq(x, nb.a);
            }
            (Op::Add, Op::Add) => {
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.b {
                    return self.eq(na.b, nb.a);
                }
                if na.b == nb.a {
                    return self.eq(na.a, nb.b);
                }
            }
            (Op::Concat, Op::Concat) if self.w(na.a) == self.w(nb.a) => {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            (Op::Not, Op::Not) => return self.eq(na.a, nb.a),
            (Op::Ite, _) if na.b == b || na.c == b => {
                let t = self.eq(na.b, b);
                let f = self.eq(na.c, b);
                return self.ite(na.a, t, f);
            }
            (_, Op::Ite) if nb.b == a || nb.c == a => {
                let t = self.eq(nb.b, a);
                let f = self.eq(nb.c, a);
                return self.ite(nb.a, t, f);
            }
            (Op::Ite, Op::Ite) if na.a == nb.a => {
                let t = self.eq(na.b, nb.b);
                let f = self.eq(na.c, nb.c);
                return self.ite(na.a, t, f);
            }
            _ => {}
        }
        // x + k == x  (k != 0)
        if na.op == Op::Add && na.a == b && self.lo(na.b) > 0 && self.as_k(na.b).is_some() {
            return self.ff();
        }
        if nb.op == Op::Add && nb.a == a && self.as_k(nb.b).is_some() {
            return self.ff();
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        if self.hi(a) < self.lo(b) {
            return self.tt();
        }
        if self.lo(a) >= self.hi(b) {
            return self.ff();
        }
        let w = self.w(a);
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.as_k(b) == Some(1) {
            let z = self.k(0, w);
            return self.eq(a, z);
        }
        if self.as_k(a) == Some(0) {
            let z = self.k(0, w);
            return self.ne(b, z);
        }
        if self.as_k(b) == Some(ones(w)) {
            return self.ne(a, b);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) if self.w(na.a) == self.w(nb.a) => return self.ult(na.a, nb.a),
            (Op::ZExt, Op::Const) => {
                let wi = self.w(na.a);
                // range check above guarantees lo < k <= hi fits
                let k = self.k(nb.k, wi);
                return self.ult(na.a, k);
            }
            (Op::Const, Op::ZExt) => {
                let wi = self.w(nb.a);
                let k = self.k(na.k, wi);
                return self.ult(k, nb.a);
            }
            (Op::Ite, _) if self.as_k(na.b).is_some() && self.as_k(na.c).is_some() => {
                let t = self.ult(na.b, b);
                let f = self.ult(na.c, b);
                return self.ite(na.a, t, f);
            }
            (_, Op::Ite) if self.as_k(nb.b).is_some() && self.as_k(nb.c).is_some() => {
                let t = self.ult(a, nb.b);
                let f = self.ult(a, nb.c);
                return self.ite(nb.a, t, f);
            }
            (Op::Add, Op::Const) => {
                // x + k1 < k2 with no wrap possible
                if let Some(k1) = self.as_k(na.b) {
                    if self.hi(na.a).checked_add(k1).map(|h| h <= ones(w)).unwrap_or(false) && nb.k >= k1 {
                        let k = self.k(nb.k - k1, w);
                        return self.ult(na.a, k);
                    }
                }
            }
            (Op::Const, Op::Add) => {
                if let Some(k1) = self.as_k(nb.b) {
                    if self.hi(nb.a).checked_add(k1).map(|h| h <= ones(w)).unwrap_or(false) && na.k >= k1 {
                        let k = self.k(na.k - k1, w);
                        return self.ult(k, nb.a);
                    }
                }
            }
            (Op::Mul, Op::Const) => {
                if let Some(k) = self.as_k(na.b) {
                    if k != 0 && self.hi(na.a).checked_mul(k).map(|h| h <= ones(w)).unwrap_or(false) {
                        // x*k < c  <=> x < ceil(c/k)
                        let q = self.k((nb.k + k - 1) / k, w);
                        return self.ult(na.a, q);
                    }
                }
            }
            (Op::Const, Op::Mul) => {
                if let Some(k) = self.as_k(nb.b) {
                    if k != 0 && self.hi(nb.a).checked_mul(k).map(|h| h <= ones(w)).unwrap_or(false) {
                        // c < x*k <=> x > floor(c/k)
                        let q = self.k(na.k / k, w);
                        return self.ult(q, nb.a);
                    }
                }
            }
            _ => {}
        }
        // canonical: c < x  ==  !(x < c+1)
        if let Some(k) = self.as_k(a) {
            let k1 = self.k(k + 1, w);
            let n = self.mk(Op::Ult, 1, b, k1, 0, 0);
            return self.not(n);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return if sext(x, w) < sext(y, w) { self.tt() } else { self.ff() };
        }
        if w == 1 {
            let nb = self.not(b);
            return self.and(a, nb);
        }
        let half = 1u128 << (w - 1);
        let cls = |p: &Pool, e: E| -> u8 {
            if p.hi(e) < half {
                0
            } else if p.lo(e) >= half {
                1
            } else {
                2
            }
        };
        match (cls(self, a), cls(self, b)) {
            (0, 0) | (1, 1) => return self.ult(a, b),
            (0, 1) => return self.ff(),
            (1, 0) => return self.tt(),
            _ => {}
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt && nb.op == Op::Const {
            let wi = self.w(na.a);
            let kv = sext(nb.k, w);
            let lo = -(1i128 << (wi - 1));
            let hi = (1i128 << (wi - 1)) - 1;
            if kv <= lo {
                return self.ff();
            }
            if kv > hi {
                return self.tt();
            }
            let k = self.k(kv as u128, wi);
            return self.slt(na.a, k);
        }
        if nb.op == Op::SExt && na.op == Op::Const {
            let wi = self.w(nb.a);
            let kv = sext(na.k, w);
            let lo = -(1i128 << (wi - 1));
            let hi = (1i128 << (wi - 1)) - 1;
            if kv < lo {
                return self.tt();
            }
            if kv >= hi {
                return self.ff();
            }
            let k = self.k(kv as u128, wi);
            return self.slt(k, nb.a);
        }
        if na.op == Op::Ite && (self.as_k(na.b).is_some() && self.as_k(na.c).is_some()) {
            let t = self.slt(na.b, b);
            let f = self.slt(na.c, b);
            return self.ite(na.a, t, f);
        }
        if nb.op == Op::Ite && (self.as_k(nb.b).is_some() && self.as_k(nb.c).is_some()) {
            let t = self.slt(a, nb.b);
            let f = self.slt(a, nb.c);
            return self.ite(nb.a, t, f);
        }
        // canonical: c < x == !(x < c+1), c != max
        if let Some(k) = self.as_k(a) {
            if k == half - 1 {
                return self.ff();
            }
            let k1 = self.k(k.wrapping_add(1), w);
            let n = self.slt(b, k1);
            return self.not(n);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_k(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_k(a), self.as_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k(fbin(op, w, x, y), w);
        }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn fcmp(&mut self, pred: u8, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k(fcmp(pred, w, x, y) as u128, 1);
        }
        match pred {
            0 => return self.ff(),
            15 => return self.tt(),
            _ => {}
        }
        self.mk(Op::FCmp, 1, a, b, 0, pred as u128)
    }
    pub fn fcast(&mut self, op: Op, a: E, w: u32) -> E {
        if let Some(x) = self.as_k(a) {
            let wa = self.w(a);
            return self.k(fcast(op, wa, x, w), w);
        }
        self.mk(op, w, a, 0, 0, 0)
    }
    pub fn fun(&mut self, f: u32, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.as_k(a) {
            return self.k(funary(f, w, x), w);
        }
        self.mk(Op::FUn, w, a, 0, 0, f as u128)
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if let Some(k) = self.as_k(e) {
            return k;
        }
        if self.cur_model != m.id {
            self.cur_model = m.id;
            self.cur += 1;
        }
        let cur = self.cur;
        if self.stamp[e as usize] == cur {
            return self.val[e as usize];
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.stamp[x as usize] == cur {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            let mut ready = true;
            let kids = self.kids(&n);
            for k in kids.iter().flatten() {
                if self.stamp[*k as usize] != cur {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let g = |e: E| self.val[e as usize];
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => mask(m.v.get(n.a as usize).cloned().unwrap_or(0), n.w),
                _ => {
                    let wa = self.w(n.a);
                    eval_op(&n, wa, self.n[n.b as usize].w, g(n.a), kids[1].map(g).unwrap_or(0), kids[2].map(g).unwrap_or(0))
                }
            };
            self.val[x as usize] = v;
            self.stamp[x as usize] = cur;
        }
        self.val[e as usize]
    }

    // ---- SMT ----
    fn bvname(&self, e: E) -> String {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            if n.w == 1 {
                return if n.k == 1 { "true".into() } else { "false".into() };
            }
            return bvlit(n.k, n.w);
        }
        if n.op == Op::Var {
            return format!("v{}", n.a);
        }
        format!("n{}", e)
    }
    /// as bit-vector term even for width 1
    fn asbv(&self, e: E) -> String {
        if self.w(e) == 1 {
            match self.as_k(e) {
                Some(k) => bvlit(k, 1),
                None => format!("(ite {} #b1 #b0)", self.bvname(e)),
            }
        } else {
            self.bvname(e)
        }
    }
    fn asfp(&self, e: E) -> String {
        let (eb, sb) = if self.w(e) == 32 { (8, 24) } else { (11, 53) };
        format!("((_ to_fp {eb} {sb}) {})", self.bvname(e))
    }
    pub fn smt_var_decl(&self, v: u32) -> String {
        let w = self.var_w[v as usize];
        if w == 1 {
            format!("(declare-const v{v} Bool)\n")
        } else {
            format!("(declare-const v{v} (_ BitVec {w}))\n")
        }
    }
    /// collect nodes (post-order) reachable from roots that satisfy `need`
    pub fn post_order(&self, roots: &[E], seen: &mut dyn FnMut(E) -> bool) -> Vec<E> {
        // seen(e) returns true if already emitted (and marks it)
        let mut out = vec![];
        let mut st: Vec<(E, bool)> = roots.iter().rev().map(|e| (*e, false)).collect();
        while let Some((x, done)) = st.pop() {
            if done {
                out.push(x);
                continue;
            }
            if seen(x) {
                continue;
            }
            st.push((x, true));
            let n = self.n[x as usize];
            for k in self.kids(&n).iter().flatten() {
                st.push((*k, false));
            }
        }
        out
    }
    pub fn smt_def(&self, e: E, o: &mut String) {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return,
            Op::Var => {
                o.push_str(&self.smt_var_decl(n.a));
                return;
            }
            _ => {}
        }
        let sort = if n.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
        let _ = write!(o, "(define-fun n{} () {} ", e, sort);
        let b = |x: E| self.asbv(x);
        let p = |x: E| self.bvname(x);
        let body = match n.op {
            Op::Add => format!("(bvadd {} {})", b(n.a), b(n.b)),
            Op::Sub => format!("(bvsub {} {})", b(n.a), b(n.b)),
            Op::Mul => format!("(bvmul {} {})", b(n.a), b(n.b)),
            Op::UDiv => format!("(bvudiv {} {})", b(n.a), b(n.b)),
            Op::URem => format!("(bvurem {} {})", b(n.a), b(n.b)),
            Op::SDiv => format!("(bvsdiv {} {})", b(n.a), b(n.b)),
            Op::SRem => format!("(bvsrem {} {})", b(n.a), b(n.b)),
            Op::Shl => format!("(bvshl {} {})", b(n.a), b(n.b)),
            Op::LShr => format!("(bvlshr {} {})", b(n.a), b(n.b)),
            Op::AShr => format!("(bvashr {} {})", b(n.a), b(n.b)),
            Op::And if n.w == 1 => format!("(and {} {})", p(n.a), p(n.b)),
            Op::Or if n.w == 1 => format!("(or {} {})", p(n.a), p(n.b)),
            Op::Xor if n.w == 1 => format!("(xor {} {})", p(n.a), p(n.b)),
            Op::Not if n.w == 1 => format!("(not {})", p(n.a)),
            Op::And => format!("(bvand {} {})", b(n.a), b(n.b)),
            Op::Or => format!("(bvor {} {})", b(n.a), b(n.b)),
            Op::Xor => format!("(bvxor {} {})", b(n.a), b(n.b)),
            Op::Not => format!("(bvnot {})", b(n.a)),
            Op::Concat => format!("(concat {} {})", b(n.a), b(n.b)),
            Op::Extract => {
                let hi = n.k as u32 + n.w - 1;
                let s = format!("((_ extract {} {}) {})", hi, n.k, b(n.a));
                if n.w == 1 {
                    format!("(= #b1 {s})")
                } else {
                    s
                }
            }
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - self.w(n.a), b(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - self.w(n.a), b(n.a)),
            Op::Eq => format!("(= {} {})", p(n.a), p(n.b)),
            Op::Ult => format!("(bvult {} {})", b(n.a), b(n.b)),
            Op::Slt => format!("(bvslt {} {})", b(n.a), b(n.b)),
            Op::Ite => format!("(ite {} {} {})", p(n.a), p(n.b), p(n.c)),
            Op::FAdd => format!("(fp.to_ieee_bv (fp.add RNE {} {}))", self.asfp(n.a), self.asfp(n.b)),
            Op::FSub => format!("(fp.to_ieee_bv (fp.sub RNE {} {}))", self.asfp(n.a), self.asfp(n.b)),
            Op::FMul => format!("(fp.to_ieee_bv (fp.mul RNE {} {}))", self.asfp(n.a), self.asfp(n.b)),
            Op::FDiv => format!("(fp.to_ieee_bv (fp.div RNE {} {}))", self.asfp(n.a), self.asfp(n.b)),
            Op::FRem => format!("(frem{} {} {})", n.w, b(n.a), b(n.b)),
            Op::FCmp => {
                let (x, y) = (self.asfp(n.a), self.asfp(n.b));
                let un = format!("(or (fp.isNaN {x}) (fp.isNaN {y}))");
                let base = match n.k & 7 {
                    1 => format!("(fp.eq {x} {y})"),
                    2 => format!("(fp.gt {x} {y})"),
                    3 => format!("(fp.geq {x} {y})"),
                    4 => format!("(fp.lt {x} {y})"),
                    5 => format!("(fp.leq {x} {y})"),
                    6 => format!("(and (not {un}) (not (fp.eq {x} {y})))"),
                    7 => format!("(not {un})"),
                    _ => String::new(),
                };
                match n.k {
                    1..=7 => base,
                    8 => un,
                    9 => format!("(or {un} (fp.eq {x} {y}))"),
                    10 => format!("(or {un} (fp.gt {x} {y}))"),
                    11 => format!("(or {un} (fp.geq {x} {y}))"),
                    12 => format!("(or {un} (fp.lt {x} {y}))"),
                    13 => format!("(or {un} (fp.leq {x} {y}))"),
                    _ => format!("(not (fp.eq {x} {y}))"),
                }
            }
            Op::FpToUi => format!("((_ fp.to_ubv {}) RTZ {})", n.w, self.asfp(n.a)),
            Op::FpToSi => format!("((_ fp.to_sbv {}) RTZ {})", n.w, self.asfp(n.a)),
            Op::UiToFp => {
                let (eb, sb) = if n.w == 32 { (8, 24) } else { (11, 53) };
                format!("(fp.to_ieee_bv ((_ to_fp_unsigned {eb} {sb}) RNE {}))", b(n.a))
            }
            Op::SiToFp => {
                let (eb, sb) = if n.w == 32 { (8, 24) } else { (11, 53) };
                format!("(fp.to_ieee_bv ((_ to_fp {eb} {sb}) RNE {}))", b(n.a))
            }
            Op::FpExt => format!("(fp.to_ieee_bv ((_ to_fp 11 53) RNE {}))", self.asfp(n.a)),
            Op::FpTrunc => format!("(fp.to_ieee_bv ((_ to_fp 8 24) RNE {}))", self.asfp(n.a)),
            Op::FUn => format!("(fun{}_{} {})", n.k, n.w, b(n.a)),
            Op::Const | Op::Var => unreachable!(),
        };
        o.push_str(&body);
        o.push_str(")\n");
    }
    pub fn smt_ref(&self, e: E) -> String {
        self.bvname(e)
    }
    pub fn has_fp(&self, e: E) -> bool {
        matches!(
            self.n[e as usize].op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FCmp | Op::FpToUi | Op::FpToSi | Op::UiToFp | Op::SiToFp | Op::FpExt | Op::FpTrunc | Op::FUn
        )
    }
    /// short readable rendering (for diagnostics)
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => self.var_names[n.a as usize].clone(),
            _ => {
                if depth == 0 {
                    return "..".into();
                }
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Extract {
                    let _ = write!(s, "[{}+{}]", n.k, n.w);
                }
                for k in self.kids(&n).iter().flatten() {
                    s.push(' ');
                    s.push_str(&self.show(*k, depth - 1));
                }
                s.push(')');
                s
            }
        }
    }
}

pub fn bvlit(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

fn eval_op(n: &Node, wa: u32, wb: u32, a: u128, b: u128, c: u128) -> u128 {
    let w = n.w;
    let r = match n.op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                ones(w)
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    ones(w)
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => !a,
        Op::Concat => (a << wb) | b,
        Op::Extract => a >> n.k,
        Op::ZExt => a,
        Op::SExt => sext(a, wa) as u128,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => fbin(n.op, w, a, b),
        Op::FCmp => fcmp(n.k as u8, wa, a, b) as u128,
        Op::FpToUi | Op::FpToSi | Op::UiToFp | Op::SiToFp | Op::FpExt | Op::FpTrunc => fcast(n.op, wa, a, w),
        Op::FUn => funary(n.k as u32, w, a),
        Op::Const | Op::Var => unreachable!(),
    };
    mask(r, w)
}

pub fn fbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        (match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => x % y,
        })
        .to_bits() as u128
    }
}
fn asf64(w: u32, a: u128) -> f64 {
    if w == 32 {
        f32::from_bits(a as u32) as f64
    } else {
        f64::from_bits(a as u64)
    }
}
pub fn fcmp(pred: u8, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (asf64(w, a), asf64(w, b));
    let un = x.is_nan() || y.is_nan();
    match pred {
        0 => false,
        1 => x == y,
        2 => x > y,
        3 => x >= y,
        4 => x < y,
        5 => x <= y,
        6 => !un && x != y,
        7 => !un,
        8 => un,
        9 => un || x == y,
        10 => un || x > y,
        11 => un || x >= y,
        12 => un || x < y,
        13 => un || x <= y,
        14 => x != y,
        _ => true,
    }
}
pub fn fcast(op: Op, wa: u32, a: u128, w: u32) -> u128 {
    let f = |x: f64| -> u128 { x.to_bits() as u128 };
    let r = match op {
        Op::FpToUi => {
            let x = asf64(wa, a);
            x as u128
        }
        Op::FpToSi => {
            let x = asf64(wa, a);
            let lo = -(2f64.powi(w as i32 - 1));
            let hi = 2f64.powi(w as i32 - 1);
            if x <= lo {
                1u128 << (w - 1)
            } else if x >= hi {
                ones(w) >> 1
            } else {
                (x as i128) as u128
            }
        }
        Op::UiToFp => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                f(a as f64)
            }
        }
        Op::SiToFp => {
            let x = sext(a, wa);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                f(x as f64)
            }
        }
        Op::FpExt => f(f32::from_bits(a as u32) as f64),
        Op::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        _ => unreachable!(),
    };
    if op == Op::FpToUi && r > ones(w) {
        return ones(w);
    }
    mask(r, w)
}
pub fn funary(f: u32, w: u32, a: u128) -> u128 {
    let x = asf64(w, a);
    let y = match f {
        0 => x.floor(),
        1 => x.ceil(),
        2 => x.trunc(),
        3 => x.round(),
        4 => x.sqrt(),
        5 => x.round_ties_even(),
        _ => x,
    };
    if w == 32 {
        (y as f32).to_bits() as u128
    } else {
        y.to_bits() as u128
    }
}
