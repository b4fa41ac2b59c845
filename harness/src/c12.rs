//! C12: elementwise operations combine equal positions, once each, exactly when the shapes agree.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Matrix, Order};
use std::cell::{Cell, RefCell};
use std::ops::*;

fn pos(r: usize, c: usize, o: Order, k: usize) -> (usize, usize) {
    if o == Order::RowMajor { (k / c, k % c) } else { (k % r, k / r) }
}
struct Case {
    r: usize,
    c: usize,
    p: usize,
    q: usize,
    oa: Order,
    ob: Order,
}
/// Larger shapes, the right operand the same or a neighbour.
fn large() -> Option<Case> {
    let (r, c, oa) = choose_large();
    let (p, q) = [(r, c), (c, r), (r, c + 1), (r * c, 1)][vt::choose(0, 3, "second")];
    Some(Case { r, c, p, q, oa, ob: choose_order("ob") })
}
fn case(max: usize, size: usize) -> Option<Case> {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    let (p, q) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
    vt::shard(((r * 7 + c) * 5 + p) * 5 + q);
    if r * c > size || p * q > size {
        return None;
    }
    Some(Case { r, c, p, q, oa: choose_order("oa"), ob: choose_order("ob") })
}
fn errs<X>(res: &Result<X, Error>, fits: bool) {
    match res {
        Ok(_) => vt::check(fits, "operands of different shapes are accepted"),
        Err(e) => {
            vt::check(!fits, "operands of equal shape are refused");
            vt::check(*e == Error::ShapeNotConformable, "the error is not ShapeNotConformable");
        }
    }
    vt::cover(if res.is_ok() { "combined" } else { "refused" });
}
fn queries<A, B>(a: &Matrix<A>, b: &Matrix<B>, fits: bool) {
    vt::check(a.is_elementwise_operation_conformable(b) == fits, "conformability is not equality of shapes");
    vt::check(b.is_elementwise_operation_conformable(a) == fits, "conformability is not equality of shapes");
    match a.ensure_elementwise_operation_conformable(b) {
        Ok(x) => vt::check(fits && x as *const Matrix<A> == a as *const Matrix<A>, "ensure accepts operands of different shapes or returns another matrix"),
        Err(e) => vt::check(!fits && e == Error::ShapeNotConformable, "ensure refuses operands of equal shape or with another error"),
    }
}

/// The generic operation in its three ownership variants with recording closures.
fn generic(case: Option<Case>) {
    let Some(Case { r, c, p, q, oa, ob }) = case else { return };
    let (mut a, ga) = tracked(r, c, oa, "a");
    let (b, gb) = tracked(p, q, ob, "b");
    let fits = r == p && c == q;
    queries(&a, &b, fits);
    let n = r * c;
    let form = vt::choose(0, 2, "form");
    // position of an element by its serial number: a was born first, in memory order
    let pa = |t: &T| pos(r, c, oa, t.id as usize);
    let pb = |t: &T| pos(p, q, ob, t.id as usize - n);
    let calls: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
    let meet = |x: &T, y: &T| {
        if x.id as usize >= n || y.id as usize - n >= p * q {
            vt::check(false, "the closure got an element that is not one of the operands'");
            return;
        }
        vt::check(x.ok() && y.ok(), "the closure got a dead element");
        vt::check(pa(x) == pb(y), "elements of different positions are combined");
        vt::check(!calls.borrow().contains(&pa(x)), "a position is combined twice");
        calls.borrow_mut().push(pa(x));
    };
    let out = |m: &Matrix<T>| {
        vt::check(m.order() == oa, "the result is not in the left operand's order");
        let want: Vec<Vec<u64>> = (0..r).map(|i| (0..c).map(|j| f2(ga[i][j], gb[i][j])).collect()).collect();
        vt::check(same(m, r, c, &want), "the result does not hold f(lhs[r][c], rhs[r][c]) at [r][c]");
        check_coherent(m);
        observe_matrix(m);
    };
    let aa = a.iter_elements().next().map_or(0, |e| e as *const T as usize);
    let ba = b.iter_elements().next().map_or(0, |e| e as *const T as usize);
    let mut left = 0; // elements of a that still live afterwards
    match form {
        0 => {
            let res = a.elementwise_operation(&b, |x: &T, y: &T| {
                meet(x, y);
                vt::check(x as *const T as usize == aa + x.id as usize * size_of::<T>(), "the closure got a copy of the left element");
                vt::check(y as *const T as usize == ba + (y.id as usize - n) * size_of::<T>(), "the closure got a copy of the right element");
                T::new(f2(x.v, y.v))
            });
            errs(&res, fits);
            if let Ok(m) = &res {
                out(m);
            }
            vt::check(same(&a, r, c, &ga) && a.order() == oa, "the left operand changed");
            left = n;
        }
        1 => {
            let res = a.elementwise_operation_consume_self(&b, |x: T, y: &T| {
                meet(&x, y);
                vt::check(y as *const T as usize == ba + (y.id as usize - n) * size_of::<T>(), "the closure got a copy of the right element");
                T::new(f2(x.v, y.v))
            });
            errs(&res, fits);
            if let Ok(m) = &res {
                out(m);
            }
            vt::check(elem::live() == p * q + if fits { n } else { 0 }, "elements of the consumed operand leak or die twice");
            drop(res);
            a = Matrix::new();
        }
        _ => {
            let me = &a as *const Matrix<T>;
            let res = a.elementwise_operation_assign(&b, |x: &mut T, y: &T| {
                meet(x, y);
                vt::check(x as *const T as usize == aa + x.id as usize * size_of::<T>(), "the closure got a copy of the left element");
                vt::check(y as *const T as usize == ba + (y.id as usize - n) * size_of::<T>(), "the closure got a copy of the right element");
                x.v = f2(x.v, y.v);
            });
            let res = match res {
                Ok(m) => {
                    vt::check(m as *const Matrix<T> == me, "the assigning form returns another matrix");
                    Ok(())
                }
                Err(e) => Err(e),
            };
            errs(&res, fits);
            if fits {
                out(&a);
            } else {
                vt::check(same(&a, r, c, &ga) && a.order() == oa, "a refused operation changed the left operand");
            }
            left = n;
        }
    }
    vt::check(calls.borrow().len() == if fits { n } else { 0 }, "the closure is not invoked once per position");
    vt::check(same(&b, p, q, &gb) && b.order() == ob, "the right operand changed");
    vt::check(elem::live() == left + p * q && elem::clones() == 0, "elements were leaked, lost or cloned");
    drop(a);
    drop(b);
    elem::check_no_leak();
}

/// Operands of the named forms: four different types, so that no operand can stand in for another.
#[derive(Clone, Debug)]
struct L(u64, u32);
#[derive(Clone, Debug)]
struct R(u64, u32);
#[derive(Clone, Debug)]
struct U(u64, u32, u32);
thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
fn ops() -> usize {
    CALLS.with(|c| c.get())
}
fn mix(op: u64, a: u64, b: u64) -> u64 {
    f2(a, b).wrapping_add(op)
}
macro_rules! ops {
    ($($k:literal $t:ident $f:ident $ta:ident $fa:ident;)*) => {$(
        impl $t<R> for L {
            type Output = U;
            fn $f(self, o: R) -> U {
                CALLS.with(|c| c.set(c.get() + 1));
                U(mix($k, self.0, o.0), self.1, o.1)
            }
        }
        impl $ta<R> for L {
            fn $fa(&mut self, o: R) {
                CALLS.with(|c| c.set(c.get() + 1));
                self.0 = mix($k, self.0, o.0);
                self.1 = self.1 * D + o.1;
            }
        }
    )*};
}
ops! {
    1 Add add AddAssign add_assign;
    2 Sub sub SubAssign sub_assign;
    3 Mul mul MulAssign mul_assign;
    4 Div div DivAssign div_assign;
    5 Rem rem RemAssign rem_assign;
}
/// Tags of left elements start at 1, of right ones at B; W exceeds every extent.
const W: usize = 300;
const B: u32 = 40001;
const D: u32 = 100000;
fn named(case: Option<Case>) {
    let Some(Case { r, c, p, q, oa, ob }) = case else { return };
    let (va, vb) = (sym_vals(r * c, "a"), sym_vals(p * q, "b"));
    let (ga, gb) = (grid(r, c, oa, &va), grid(p, q, ob, &vb));
    let tag = |r: usize, c: usize, o: Order, k: usize, b: u32| {
        let (i, j) = pos(r, c, o, k);
        b + (i * W + j) as u32
    };
    let mut a: Matrix<L> = build(r, c, oa, (0..r * c).map(|k| L(va[k], tag(r, c, oa, k, 1))).collect());
    let b: Matrix<R> = build(p, q, ob, (0..p * q).map(|k| R(vb[k], tag(p, q, ob, k, B))).collect());
    let fits = r == p && c == q;
    let form = vt::choose(0, 26, "form");
    let k;
    let mut fresh: Option<Matrix<U>> = None;
    let mut keep_a = true;
    fn caught<X>(f: impl FnOnce() -> X) -> Result<X, Error> {
        // the operators panic exactly when the methods fail
        vt::catches(f).map_err(|_| Error::ShapeNotConformable)
    }
    let b0 = b.clone();
    let unit = |r: Result<(), Error>| errs(&r, fits);
    let mut keep = |r: Result<Matrix<U>, Error>| {
        errs(&r, fits);
        fresh = r.ok();
    };
    macro_rules! m {
        ($kk:literal, $me:expr) => {{
            k = $kk;
            keep($me);
        }};
    }
    macro_rules! asn {
        ($kk:literal, $me:expr) => {{
            k = $kk;
            keep_a = false;
            unit($me);
        }};
    }
    match form {
        0 => m!(1, a.elementwise_add(&b)),
        1 => m!(2, a.elementwise_sub(&b)),
        2 => m!(3, a.elementwise_mul(&b)),
        3 => m!(4, a.elementwise_div(&b)),
        4 => m!(5, a.elementwise_rem(&b)),
        5 => m!(1, a.clone().elementwise_add_consume_self(&b)),
        6 => m!(2, a.clone().elementwise_sub_consume_self(&b)),
        7 => m!(3, a.clone().elementwise_mul_consume_self(&b)),
        8 => m!(4, a.clone().elementwise_div_consume_self(&b)),
        9 => m!(5, a.clone().elementwise_rem_consume_self(&b)),
        10 => asn!(1, a.elementwise_add_assign(&b).map(|_| ())),
        11 => asn!(2, a.elementwise_sub_assign(&b).map(|_| ())),
        12 => asn!(3, a.elementwise_mul_assign(&b).map(|_| ())),
        13 => asn!(4, a.elementwise_div_assign(&b).map(|_| ())),
        14 => asn!(5, a.elementwise_rem_assign(&b).map(|_| ())),
        15 => m!(1, caught(|| a.clone() + b0)),
        16 => m!(1, caught(|| a.clone() + &b)),
        17 => m!(1, caught(|| &a + b0)),
        18 => m!(1, caught(|| &a + &b)),
        19 => m!(2, caught(|| a.clone() - b0)),
        20 => m!(2, caught(|| a.clone() - &b)),
        21 => m!(2, caught(|| &a - b0)),
        22 => m!(2, caught(|| &a - &b)),
        23 => asn!(1, caught(|| a += b0)),
        24 => asn!(1, caught(|| a += &b)),
        25 => asn!(2, caught(|| a -= b0)),
        _ => asn!(2, caught(|| a -= &b)),
    }
    vt::check(ops() == if fits { r * c } else { 0 }, "the operator is not applied once per position");
    let mut ok = b.nrows() == p && b.ncols() == q && b.order() == ob;
    for i in 0..p {
        for j in 0..q {
            ok &= b.get((i, j)).is_ok_and(|e| (e.0 == gb[i][j]) & (e.1 == B + (i * W + j) as u32));
        }
    }
    vt::check(ok, "the right operand changed");
    vt::check(a.nrows() == r && a.ncols() == c && a.order() == oa, "the left operand changed its shape or order");
    let t = |i: usize, j: usize| 1 + (i * W + j) as u32;
    let mut ok = true;
    for i in 0..r {
        for j in 0..c {
            ok &= a.get((i, j)).is_ok_and(|e| {
                if keep_a || !fits { (e.0 == ga[i][j]) & (e.1 == t(i, j)) } else { (e.0 == mix(k, ga[i][j], gb[i][j])) & (e.1 == t(i, j) * D + t(i, j) + B - 1) }
            });
        }
    }
    vt::check(ok, if keep_a { "the left operand changed" } else { "lhs[r][c] is not lhs[r][c] op rhs[r][c]" });
    if let Some(m) = &fresh {
        vt::check(m.nrows() == r && m.ncols() == c && m.size() == r * c && m.order() == oa, "shape or order of the result");
        let mut ok = true;
        for i in 0..r {
            for j in 0..c {
                ok &= m.get((i, j)).is_ok_and(|e| (e.0 == mix(k, ga[i][j], gb[i][j])) & (e.1 == t(i, j)) & (e.2 == t(i, j) + B - 1));
                if let Ok(e) = m.get((i, j)) {
                    vt::observe(e.0);
                }
            }
        }
        vt::check(ok, "the result does not hold lhs[r][c] op rhs[r][c] at [r][c]");
    }
}
/// Shapes without elements (any extent) and vectors of zero-sized elements: conformability of any
/// two shapes, refusal of all forms on unequal ones.
fn extents() {
    let thin = |n: usize, k: usize| match k {
        0 => (n, 0),
        1 => (0, n),
        2 => (n, 1),
        _ => (1, n),
    };
    let (ka, kb) = (vt::choose(0, 3, "kind"), vt::choose(0, 3, "kind2"));
    let (n, m) = (vt::sym_usize("n"), vt::sym_usize("m"));
    let (r, c) = thin(n, ka);
    let (p, q) = thin(m, kb);
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let mut a: Matrix<()> = crate::c03::zst(r.wrapping_mul(c), r, c, oa);
    let b: Matrix<()> = crate::c03::zst(p.wrapping_mul(q), p, q, ob);
    let fits = (r == p) & (c == q);
    queries(&a, &b, fits);
    // equal shapes with elements are combined element by element: not within reach for any extent
    vt::assume(!fits | (r == 0) | (c == 0));
    let calls = Cell::new(0usize);
    match vt::choose(0, 2, "form") {
        0 => errs(&a.elementwise_operation(&b, |_, _| calls.set(calls.get() + 1)), fits),
        1 => {
            let res = a.elementwise_operation_consume_self(&b, |_, _| calls.set(calls.get() + 1));
            errs(&res, fits);
            std::mem::forget((res, b));
            vt::check(calls.get() == 0, "the closure is invoked");
            return;
        }
        _ => errs(&a.elementwise_operation_assign(&b, |_, _| calls.set(calls.get() + 1)).map(|_| ()), fits),
    }
    vt::check(calls.get() == 0, "the closure is invoked");
    vt::check((a.nrows() == r) & (a.ncols() == c) & (a.order() == oa), "the left operand changed");
    std::mem::forget((a, b));
}
/// Results too large to exist: the methods fail and the operators panic, on the same inputs.
#[derive(Clone, Copy)]
struct Z;
#[derive(Clone, Copy)]
struct Wide([u64; 3]);
impl Add for Z {
    type Output = Wide;
    fn add(self, _: Z) -> Wide {
        vt::check(false, "a result that cannot exist is being computed");
        Wide([0; 3])
    }
}
impl Sub for Z {
    type Output = Wide;
    fn sub(self, _: Z) -> Wide {
        vt::check(false, "a result that cannot exist is being computed");
        Wide([0; 3])
    }
}
fn capacity() {
    let n = vt::sym_usize("n");
    vt::assume(n > isize::MAX as usize / 24);
    let k = vt::choose_bool("row");
    let (r, c) = if k { (1, n) } else { (n, 1) };
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let a: Matrix<Z> = crate::c03::zst(n, r, c, oa);
    let b: Matrix<Z> = crate::c03::zst(n, r, c, ob);
    let over = |r: Result<Matrix<Wide>, Error>| vt::check(r.err() == Some(Error::CapacityOverflow), "an impossible result is not refused");
    match vt::choose(0, 7, "form") {
        0 => over(a.elementwise_add(&b)),
        1 => over(a.elementwise_sub(&b)),
        2 => {
            vt::check(vt::catches(|| std::mem::forget(&a + &b)).is_err(), "an operator succeeds where its method fails");
        }
        3 => vt::check(vt::catches(|| std::mem::forget(&a - &b)).is_err(), "an operator succeeds where its method fails"),
        4 => over(a.elementwise_add_consume_self(&b)),
        5 => over(a.elementwise_sub_consume_self(&b)),
        6 => vt::check(vt::catches(|| std::mem::forget(a + &b)).is_err(), "an operator succeeds where its method fails"),
        _ => vt::check(vt::catches(|| std::mem::forget(a - &b)).is_err(), "an operator succeeds where its method fails"),
    }
    std::mem::forget(b);
    vt::cover("refused");
}
/// Far larger shapes: the generic and the named forms on integers.
fn far() {
    use std::num::Wrapping;
    xl();
    let (r, c, oa) = choose_large();
    let ob = choose_order("ob");
    let (ga, gb) = (sym_vals(r * c, "a"), sym_vals(r * c, "b"));
    let a: Matrix<Wrapping<u64>> = build(r, c, oa, ga.iter().map(|v| Wrapping(*v)).collect());
    let b: Matrix<Wrapping<u64>> = build(r, c, ob, gb.iter().map(|v| Wrapping(*v)).collect());
    let (ga, gb) = (grid(r, c, oa, &ga), grid(r, c, ob, &gb));
    let form = vt::choose(0, 7, "form");
    let m = match form {
        0 => a.elementwise_operation(&b, |x, y| Wrapping(f2(x.0, y.0))).unwrap(),
        1 => a.elementwise_operation_consume_self(&b, |x, y| Wrapping(f2(x.0, y.0))).unwrap(),
        2 => {
            let mut a = a;
            a.elementwise_operation_assign(&b, |x, y| x.0 = f2(x.0, y.0)).unwrap();
            a
        }
        3 => a.elementwise_sub(&b).unwrap(),
        4 => a.elementwise_sub_consume_self(&b).unwrap(),
        5 => {
            let mut a = a;
            a.elementwise_sub_assign(&b).unwrap();
            a
        }
        6 => &a - &b,
        _ => {
            let mut a = a;
            a -= b;
            a
        }
    };
    let mut ok = m.nrows() == r && m.ncols() == c && m.order() == oa;
    for i in 0..r {
        for j in 0..c {
            let v = if form < 3 { f2(ga[i][j], gb[i][j]) } else { ga[i][j].wrapping_sub(gb[i][j]) };
            ok &= m.get((i, j)).map(|e| e.0 == v).unwrap_or(false);
        }
    }
    vt::check(ok, "the result does not hold f(lhs[r][c], rhs[r][c]) at [r][c]");
    vt::cover("combined");
}

harnesses! {
    fn h_c12_xl() { far() }
    fn h_c12_generic() { generic(case(vt::tier(4, 5), vt::tier(12, 25))) }
    fn h_c12_large() { generic(large()) }
    fn h_c12_large_named() { named(large()) }
    fn h_c12_named() { named(case(vt::tier(3, 4), vt::tier(9, 16))) }
    fn h_c12_extents() { extents() }
    fn h_c12_capacity() { capacity() }
}
