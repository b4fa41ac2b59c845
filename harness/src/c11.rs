//! C11: the matrix product against its definition, for all shapes, storage orders and operator
//! forms; element types that record which factors met, in which roles and how often.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Matrix, Order};
use std::num::Wrapping;
use std::ops::{Add, Mul};

/// Left and right factors (distinct types) named by their position.
#[derive(Clone, Copy, PartialEq)]
struct L(u8, u8);
#[derive(Clone, Copy, PartialEq)]
struct R(u8, u8);
const K: usize = 80;
/// A sum of products: which left factors met which right factors.
#[derive(Clone, Copy)]
struct P {
    n: usize,
    terms: [(L, R); K],
    default: bool,
}
impl Default for P {
    fn default() -> P {
        P { n: 0, terms: [(L(99, 99), R(99, 99)); K], default: true }
    }
}
impl Mul<R> for L {
    type Output = P;
    fn mul(self, o: R) -> P {
        let mut p = P::default();
        p.default = false;
        p.terms[0] = (self, o);
        p.n = 1;
        p
    }
}
impl Add for P {
    type Output = P;
    fn add(self, o: P) -> P {
        let mut p = self;
        p.default |= o.default;
        for k in 0..o.n {
            if p.n < K {
                p.terms[p.n] = o.terms[k];
            }
            p.n += 1;
        }
        p
    }
}
fn lefts(r: usize, c: usize, order: Order) -> Matrix<L> {
    build(r, c, order, (0..r * c).map(|k| if order == Order::RowMajor { L((k / c) as u8, (k % c) as u8) } else { L((k % r) as u8, (k / r) as u8) }).collect())
}
fn rights(r: usize, c: usize, order: Order) -> Matrix<R> {
    build(r, c, order, (0..r * c).map(|k| if order == Order::RowMajor { R((k / c) as u8, (k % c) as u8) } else { R((k % r) as u8, (k / r) as u8) }).collect())
}
/// `n` ascending terms must appear exactly once each, in whatever order they were added
fn is_dot(p: &P, i: usize, j: usize, inner: usize) -> bool {
    if inner == 0 {
        return p.default && p.n == 0;
    }
    let mut ok = !p.default && p.n == inner;
    for k in 0..inner {
        let mut hits = 0;
        for t in 0..inner.min(K) {
            if p.terms[t] == (L(i as u8, k as u8), R(k as u8, j as u8)) {
                hits += 1;
            }
        }
        ok &= hits == 1;
    }
    ok
}
struct Case {
    r: usize,
    k: usize,
    k2: usize,
    c: usize,
    oa: Order,
    ob: Order,
}
fn case(max: usize, inner: usize) -> Case {
    let (r, k) = (vt::choose(0, max, "rows"), vt::choose(0, inner, "inner"));
    let c = vt::choose(0, max, "cols");
    // another inner extent of the right operand only to be refused
    let k2 = if vt::choose_bool("misfit") { vt::choose(0, inner, "inner2") } else { k };
    vt::shard((r * 5 + k) * 5 + c);
    Case { r, k, k2, c, oa: choose_order("oa"), ob: choose_order("ob") }
}
/// larger shapes
fn large() -> Case {
    const S: [(usize, usize, usize); 17] = [(5, 1, 5), (9, 2, 1), (1, 2, 9), (1, 18, 1), (2, 17, 2), (5, 5, 5), (4, 9, 3), (1, 0, 17), (17, 3, 2), (1, 67, 1), (9, 2, 9), (70, 1, 4), (9, 9, 9), (2, 20, 3), (20, 2, 3), (33, 1, 2), (16, 4, 4)];
    let k = vt::choose(0, vt::tier(11, S.len() - 1), "large");
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    vt::shard(k * 4 + (oa == Order::ColMajor) as usize * 2 + (ob == Order::ColMajor) as usize);
    Case { r: S[k].0, k: S[k].1, k2: S[k].1 + vt::choose(0, 1, "misfit"), c: S[k].2, oa, ob }
}
/// every form of the product
fn product(case: Case) {
    let Case { r, k, k2, c, oa, ob } = case;
    let (a, b) = (lefts(r, k, oa), rights(k2, c, ob));
    let form = vt::choose(0, 4, "form");
    let fits = k == k2;
    vt::check(a.is_multiplication_like_operation_conformable(&b) == fits, "conformability");
    vt::check(a.ensure_multiplication_like_operation_conformable(&b).err() == if fits { None } else { Some(Error::ShapeNotConformable) }, "conformability error");
    let (ia, ib) = (&a as *const _, &b as *const _);
    let _ = (ia, ib);
    let unchanged = |a: &Matrix<L>, b: &Matrix<R>| {
        let mut ok = a.order() == oa && a.nrows() == r && a.ncols() == k && b.order() == ob && b.nrows() == k2 && b.ncols() == c;
        for i in 0..r {
            for j in 0..k {
                ok &= a.get((i, j)).map(|e| *e == L(i as u8, j as u8)).unwrap_or(false);
            }
        }
        for i in 0..k2 {
            for j in 0..c {
                ok &= b.get((i, j)).map(|e| *e == R(i as u8, j as u8)).unwrap_or(false);
            }
        }
        vt::check(ok, "a borrowed operand changed");
    };
    let res: Result<Matrix<P>, Error> = match form {
        0 => a.multiply(b),
        1 => vt::catches(|| a * b).map_err(|_| Error::ShapeNotConformable),
        2 => {
            let res = vt::catches(|| a * &b).map_err(|_| Error::ShapeNotConformable);
            unchanged(&lefts(r, k, oa), &b);
            res
        }
        3 => {
            let res = vt::catches(|| &a * b).map_err(|_| Error::ShapeNotConformable);
            unchanged(&a, &rights(k2, c, ob));
            res
        }
        _ => {
            let res = vt::catches(|| &a * &b).map_err(|_| Error::ShapeNotConformable);
            unchanged(&a, &b);
            res
        }
    };
    match res {
        Ok(m) => {
            vt::check(fits, "non-conformable operands are accepted");
            vt::check(m.nrows() == r && m.ncols() == c && m.size() == r * c, "shape of the product");
            vt::check(m.order() == oa, "storage order of the product");
            let mut ok = true;
            for i in 0..r {
                for j in 0..c {
                    ok &= m.get((i, j)).map(|p| is_dot(p, i, j, k)).unwrap_or(false);
                }
            }
            vt::check(ok, "an element is not the sum of lhs[i][k] * rhs[k][j], each k once");
            vt::cover(if k == 0 { "no terms" } else { "product" });
        }
        Err(e) => {
            vt::check(!fits && e == Error::ShapeNotConformable, "a product that exists is refused, or another error");
            vt::cover("refused");
        }
    }
}
/// machine integers: all values
fn wrapping(max: usize, inner: usize) {
    let (r, k, c) = (vt::choose(1, max, "rows"), vt::choose(0, inner, "inner"), vt::choose(1, max, "cols"));
    vt::shard(r * 9 + k * 3 + c);
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let va: Vec<Vec<u64>> = grid(r, k, oa, &sym_vals(r * k, "a"));
    let vb: Vec<Vec<u64>> = grid(k, c, ob, &sym_vals(k * c, "b"));
    let w = |g: &Vec<Vec<u64>>, r: usize, c: usize, o: Order| build(r, c, o, (0..r * c).map(|x| if o == Order::RowMajor { Wrapping(g[x / c][x % c]) } else { Wrapping(g[x % r][x / r]) }).collect::<Vec<_>>());
    let m: Matrix<Wrapping<u64>> = w(&va, r, k, oa) * w(&vb, k, c, ob);
    vt::check(m.nrows() == r && m.ncols() == c && m.order() == oa, "shape or order of the product");
    let mut ok = true;
    for i in 0..r {
        for j in 0..c {
            let mut s = 0u64;
            for x in 0..k {
                s = s.wrapping_add(va[i][x].wrapping_mul(vb[x][j]));
            }
            ok &= m.get((i, j)).map(|e| e.0 == s).unwrap_or(false);
        }
    }
    vt::check(ok, "product of integers");
    vt::cover("product");
}
impl Mul<T> for T {
    type Output = T;
    fn mul(self, o: T) -> T {
        vt::check(self.ok() && o.ok(), "a dead element was multiplied");
        T::new(f2(self.v, o.v))
    }
}
impl Add<T> for T {
    type Output = T;
    fn add(self, o: T) -> T {
        vt::check(self.ok() && o.ok(), "a dead element was added");
        T::new(self.v.wrapping_add(o.v))
    }
}
/// elements that own something: nothing leaks, nothing is dropped twice
fn owned(case: Case) {
    let Case { r, k, k2, c, oa, ob } = case;
    let (a, ga) = tracked(r, k, oa, "a");
    let (b, gb) = tracked(k2, c, ob, "b");
    let form = vt::choose(0, 3, "form");
    let ids = |m: &Matrix<T>| m.iter_elements().map(|e| e.id).collect::<Vec<u32>>();
    let (ia, ib) = (ids(&a), ids(&b));
    let before = elem::live();
    let (mut ka, mut kb) = (None, None);
    let res: Result<Matrix<T>, Error> = match form {
        0 => a.multiply(b),
        1 => {
            let res = vt::catches(|| &a * &b).map_err(|_| Error::ShapeNotConformable);
            ka = Some(a);
            kb = Some(b);
            res
        }
        2 => {
            let res = vt::catches(|| a * &b).map_err(|_| Error::ShapeNotConformable);
            kb = Some(b);
            res
        }
        _ => {
            let res = vt::catches(|| &a * b).map_err(|_| Error::ShapeNotConformable);
            ka = Some(a);
            res
        }
    };
    if let Some(a) = &ka {
        vt::check(ids(a) == ia && a.order() == oa && same(a, r, k, &ga), "the borrowed left operand changed");
    }
    if let Some(b) = &kb {
        vt::check(ids(b) == ib && b.order() == ob && same(b, k2, c, &gb), "the borrowed right operand changed");
    }
    let kept = ka.as_ref().map_or(0, |m| m.size()) + kb.as_ref().map_or(0, |m| m.size());
    let _ = before;
    match res {
        Ok(m) => {
            vt::check(k == k2, "non-conformable operands are accepted");
            vt::check(elem::live() == kept + r * c, "elements leaked");
            let mut ok = m.nrows() == r && m.ncols() == c;
            for i in 0..r {
                for j in 0..c {
                    let mut s = 0u64;
                    for x in 0..k {
                        s = s.wrapping_add(f2(ga[i][x], gb[x][j]));
                    }
                    if k == 0 {
                        s = elem::DEFAULT;
                    }
                    ok &= m.get((i, j)).map(|e| e.ok() & (e.v == s)).unwrap_or(false);
                }
            }
            vt::check(ok, "product of owned elements");
            check_coherent(&m);
            vt::cover("product");
        }
        Err(e) => {
            vt::check(k != k2 && e == Error::ShapeNotConformable, "a product that exists is refused, or another error");
            vt::check(elem::live() == kept, "operands of a refused product leaked");
            vt::cover("refused");
        }
    }
    drop((ka, kb));
    elem::check_no_leak();
}
/// the generic operation: what its closure sees
fn like(case: Case) {
    let Case { r, k, k2, c, oa, ob } = case;
    let (a, b) = (lefts(r, k, oa), rights(k2, c, ob));
    let mut seen = vec![0u8; r * c];
    #[derive(Default, PartialEq, Clone, Copy)]
    struct Out(usize);
    let res = a.multiplication_like_operation(b, |x: &[L], y: &[R]| {
        vt::check(x.len() == k && y.len() == k && k > 0, "the closure receives slices of another length");
        if x.len() != k || y.len() != k || k == 0 {
            return Out(0);
        }
        let (i, j) = (x[0].0 as usize, y[0].1 as usize);
        vt::check(i < r && j < c, "the closure receives foreign elements");
        for t in 0..k {
            vt::check(x[t] == L(i as u8, t as u8), "the left slice is not a row of lhs");
            vt::check(y[t] == R(t as u8, j as u8), "the right slice is not a column of rhs");
        }
        seen[i * c + j] += 1;
        Out(1 + i * c + j)
    });
    match res {
        Ok(m) => {
            vt::check(k == k2, "non-conformable operands are accepted");
            vt::check(m.nrows() == r && m.ncols() == c && m.order() == oa && m.size() == r * c, "shape or order of the result");
            let calls = if k == 0 { 0 } else { 1 };
            vt::check(seen.iter().all(|n| *n == calls), "the closure is not called exactly once per position");
            for i in 0..r {
                for j in 0..c {
                    let want = if k == 0 { Out(0) } else { Out(1 + i * c + j) };
                    vt::check(m.get((i, j)).map(|e| *e == want).unwrap_or(false), "a result is stored at another position");
                }
            }
            vt::cover(if k == 0 { "no terms" } else { "product" });
        }
        Err(e) => {
            vt::check(k != k2 && e == Error::ShapeNotConformable, "a product that exists is refused, or another error");
            vt::check(seen.iter().all(|n| *n == 0), "the closure is called for a refused product");
            vt::cover("refused");
        }
    }
}
/// long inner dimension
fn long(max: usize) {
    let k = vt::choose(4, max, "inner");
    vt::shard(k);
    let (r, c) = (vt::choose(1, 2, "rows"), vt::choose(1, 2, "cols"));
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let m: Matrix<P> = lefts(r, k, oa) * rights(k, c, ob);
    let mut ok = m.nrows() == r && m.ncols() == c && m.order() == oa;
    for i in 0..r {
        for j in 0..c {
            ok &= m.get((i, j)).map(|p| is_dot(p, i, j, k)).unwrap_or(false);
        }
    }
    vt::check(ok, "an element is not the sum of lhs[i][k] * rhs[k][j], each k once");
    vt::cover("product");
}
/// operands without elements, of any extent: only the inner extents decide
fn empty() {
    let (n, m) = (vt::sym_usize("inner"), vt::sym_usize("inner2"));
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let mut a: Matrix<L> = Matrix::new();
    let mut b: Matrix<R> = Matrix::new();
    a.set_order(oa);
    b.set_order(ob);
    vt::check(a.reshape((0, n)).is_ok() && b.reshape((m, 0)).is_ok(), "pre-state");
    let fits = n == m;
    vt::check(a.is_multiplication_like_operation_conformable(&b) == fits, "conformability");
    match a.multiply(b) {
        Ok(x) => {
            vt::check(fits, "non-conformable operands are accepted");
            vt::check(x.nrows() == 0 && x.ncols() == 0 && x.size() == 0 && x.order() == oa, "shape of an empty product");
            vt::cover("product");
        }
        Err(e) => {
            vt::check(!fits & (e == Error::ShapeNotConformable), "refused");
            vt::cover("refused");
        }
    }
}

/// Far larger products: the closure's slices, and the sum of products over integers.
fn far() {
    const S: [(usize, usize, usize); 8] = [(17, 18, 19), (33, 34, 3), (3, 5, 130), (130, 5, 3), (2, 513, 2), (33, 34, 35), (65, 2, 66), (1, 1030, 1)];
    let k = vt::choose(0, vt::tier(4, S.len() - 1), "xl");
    let (r, n, c) = S[k];
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    vt::shard(k * 4 + (oa == Order::ColMajor) as usize * 2 + (ob == Order::ColMajor) as usize);
    let (ga, gb) = (grid(r, n, Order::RowMajor, &sym_vals(r * n, "a")), grid(n, c, Order::RowMajor, &sym_vals(n * c, "b")));
    let make = |r: usize, c: usize, o: Order, g: &Vec<Vec<u64>>| -> Matrix<Wrapping<u64>> { build(r, c, o, (0..r * c).map(|k| if o == Order::RowMajor { Wrapping(g[k / c][k % c]) } else { Wrapping(g[k % r][k / r]) }).collect()) };
    let (a, b) = (make(r, n, oa, &ga), make(n, c, ob, &gb));
    if vt::choose_bool("like") {
        let mut calls = 0;
        let m = a
            .multiplication_like_operation(b, |x, y| {
                vt::check(x.len() == n && y.len() == n, "the slices are not as long as the inner extent");
                // which pair it is follows from the order of the calls only through the result
                calls += 1;
                let mut h = 0u64;
                for k in 0..n {
                    h = f2(h, f2(x[k].0, y[k].0));
                }
                h
            })
            .unwrap();
        vt::check(calls == r * c, "the closure is not invoked once per element");
        let mut ok = m.nrows() == r && m.ncols() == c && m.order() == oa;
        for i in 0..r {
            for j in 0..c {
                let mut h = 0u64;
                for k in 0..n {
                    h = f2(h, f2(ga[i][k], gb[k][j]));
                }
                ok &= m.get((i, j)).map(|e| *e == h).unwrap_or(false);
            }
        }
        vt::check(ok, "an element is not f(row i of lhs, column j of rhs)");
    } else {
        let m = a.multiply(b).unwrap();
        let mut ok = m.nrows() == r && m.ncols() == c && m.order() == oa;
        for i in 0..r {
            for j in 0..c {
                let mut h = ga[i][0].wrapping_mul(gb[0][j]);
                for k in 1..n {
                    h = h.wrapping_add(ga[i][k].wrapping_mul(gb[k][j]));
                }
                ok &= m.get((i, j)).map(|e| e.0 == h).unwrap_or(false);
            }
        }
        vt::check(ok, "an element is not the sum of lhs[i][k] * rhs[k][j]");
    }
    vt::cover("product");
}

harnesses! {
    fn h_c11_xl() { far() }
    fn h_c11_product() { product(case(vt::tier(3, 4), vt::tier(3, 5))) }
    fn h_c11_wrapping() { wrapping(vt::tier(2, 3), vt::tier(3, 4)) }
    fn h_c11_owned() { owned(case(vt::tier(2, 3), vt::tier(2, 3))) }
    fn h_c11_like() { like(case(vt::tier(4, 5), vt::tier(4, 5))) }
    fn h_c11_large() {
        match vt::choose(0, 2, "what") {
            0 => product(large()),
            1 => owned(large()),
            _ => like(large()),
        }
    }
    fn h_c11_long() { long(8) }
    fn h_c11_empty() { empty() }
}
