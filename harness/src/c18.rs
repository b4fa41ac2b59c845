//! C18: scalar operators and negation against the primitive operators, for every primitive type,
//! operator and operand form; the generic scalar operations with recording closures.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Matrix, Order};
use std::cell::RefCell;

/// Primitive numbers with any bit pattern.
trait Prim: Copy + 'static {
    fn any(name: &str) -> Self;
    /// the same number (bit for bit; every NaN counts as one value)
    fn same(self, o: Self) -> bool;
    fn low(self) -> u64;
    /// a value from 8 to 15, or from 1 to 4 (any float): the operators do not fail on them
    fn mild(name: &str, small: bool) -> Self;
}
macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Prim for $t {
            fn any(name: &str) -> $t {
                if $t::BITS == 128 { (((vt::sym_u64(name) as u128) << 64) | vt::sym_u64(name) as u128) as $t } else { vt::sym($t::BITS, name) as $t }
            }
            fn same(self, o: $t) -> bool {
                self == o
            }
            fn low(self) -> u64 {
                self as u64
            }
            fn mild(name: &str, small: bool) -> $t {
                let v = vt::sym(8, name);
                (if small { 1 + (v & 3) } else { 8 + (v & 7) }) as $t
            }
        }
    )*};
}
ints! {u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize}
macro_rules! floats {
    ($($t:ident $b:literal)*) => {$(
        impl Prim for $t {
            fn any(name: &str) -> $t {
                $t::from_bits(vt::sym($b, name) as _)
            }
            fn same(self, o: $t) -> bool {
                (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan())
            }
            fn mild(name: &str, _: bool) -> $t {
                Self::any(name)
            }
            fn low(self) -> u64 {
                let nan = (self.is_nan() as u64).wrapping_neg();
                (self.to_bits() as u64 & !nan) | (nan & 1)
            }
        }
    )*};
}
floats! {f32 32 f64 64}

/// What an operation gave: the matrix, or a panic.
type Out<P> = Result<Matrix<P>, ()>;
/// The element-by-element oracle: None when the primitive operator panics on some element.
fn expected<P: Prim>(g: &[P], f: impl Fn(P) -> P) -> Option<Vec<P>> {
    let mut v = Vec::new();
    let mut bad = false;
    for x in g {
        match vt::catches(|| f(*x)) {
            Ok(y) => v.push(y),
            Err(()) => bad = true,
        }
    }
    if bad { None } else { Some(v) }
}
fn judge<P: Prim>(out: &Out<P>, want: &Option<Vec<P>>, r: usize, c: usize, o: Order) {
    match (out, want) {
        (Ok(m), Some(w)) => {
            vt::check(m.nrows() == r && m.ncols() == c && m.size() == r * c && m.order() == o, "shape or order of the result");
            let mut ok = true;
            for i in 0..r {
                for j in 0..c {
                    match m.get((i, j)) {
                        Ok(x) => {
                            ok &= x.same(w[flat(r, c, o, i, j)]);
                            vt::observe(x.low());
                        }
                        Err(_) => ok = false,
                    }
                }
            }
            vt::check(ok, "an element is not the primitive operator applied to the operands in order");
            vt::cover("computed");
        }
        (Err(()), None) => vt::cover("panicked"),
        (Ok(_), None) => vt::check(false, "the operator succeeds although the primitive operator panics"),
        (Err(()), Some(_)) => vt::check(false, "the operator panics although the primitive operator does not"),
    }
}
const FORMS: usize = 18;
macro_rules! forms {
    ($t:ty, $op:tt, $opa:tt, $form:expr, $m:ident, $mr:ident, $s:ident) => {
        match $form {
            0 => vt::catches(|| $m.clone() $op $s),
            1 => vt::catches(|| $m.clone() $op &$s),
            2 => vt::catches(|| &$m $op $s),
            3 => vt::catches(|| &$m $op &$s),
            4 => vt::catches(|| $s $op $m.clone()),
            5 => vt::catches(|| &$s $op $m.clone()),
            6 => vt::catches(|| $s $op &$m),
            7 => vt::catches(|| &$s $op &$m),
            8 => vt::catches(|| $mr.clone() $op $s),
            9 => vt::catches(|| $mr.clone() $op &$s),
            10 => vt::catches(|| &$mr $op $s),
            11 => vt::catches(|| &$mr $op &$s),
            12 => vt::catches(|| $s $op $mr.clone()),
            13 => vt::catches(|| &$s $op $mr.clone()),
            14 => vt::catches(|| $s $op &$mr),
            15 => vt::catches(|| &$s $op &$mr),
            16 => {
                let mut x: Matrix<$t> = $m.clone();
                vt::catches(|| {
                    x $opa $s;
                })
                .map(|_| x)
            }
            _ => {
                let mut x: Matrix<$t> = $m.clone();
                vt::catches(|| {
                    x $opa &$s;
                })
                .map(|_| x)
            }
        }
    };
}
/// shapes: a few elements are as good as many, the operators see one element at a time
fn shape() -> (usize, usize, Order) {
    let k = vt::choose(0, vt::tier(3, 6), "shape");
    let (r, c) = [(1, 2), (2, 1), (0, 2), (1, 1), (2, 0), (0, 0), (2, 2)][k];
    (r, c, choose_order("order"))
}
/// larger shapes: one element (at either end or in the middle) is any number, the others are mild
fn sized(large: bool) -> ((usize, usize, Order), usize) {
    if !large {
        return (shape(), usize::MAX);
    }
    let k = vt::choose(0, vt::tier(2, 7), "large");
    let (r, c, o) = [(1, 17, Order::RowMajor), (5, 7, Order::ColMajor), (2, 130, Order::RowMajor), (17, 1, Order::ColMajor), (9, 2, Order::RowMajor), (7, 5, Order::RowMajor), (2, 33, Order::ColMajor), (1, 259, Order::RowMajor)][k];
    let n = r * c;
    ((r, c, o), [0, n - 1, n / 2, 7, n - 2][vt::choose(0, vt::tier(1, 4), "any")])
}
fn values<P: Prim>(n: usize, any: usize) -> Vec<P> {
    (0..n).map(|k| if any == usize::MAX || k == any { P::any("v") } else { P::mild("v", false) }).collect()
}
macro_rules! prims {
    ($($k:literal $t:ident $n:ident;)*) => {
        $(fn $n(op: usize, large: bool) {
            type P = $t;
            vt::shard($k * 5 + op);
            let ((r, c, o), any) = sized(large);
            let form = vt::choose(0, FORMS - 1, "form");
            let vals: Vec<P> = values(r * c, any);
            let s = if large { P::mild("s", true) } else { P::any("s") };
            let right = form % 8 >= 4 && form < 16;
            let f = |x: P| {
                let (a, b) = if right { (s, x) } else { (x, s) };
                match op {
                    0 => a + b,
                    1 => a - b,
                    2 => a * b,
                    3 => a / b,
                    _ => a % b,
                }
            };
            let want = expected(&vals, f);
            let m: Matrix<P> = build(r, c, o, vals.clone());
            let mr: Matrix<&P> = build(r, c, o, vals.iter().collect());
            let out: Out<P> = match op {
                0 => forms!(P, +, +=, form, m, mr, s),
                1 => forms!(P, -, -=, form, m, mr, s),
                2 => forms!(P, *, *=, form, m, mr, s),
                3 => forms!(P, /, /=, form, m, mr, s),
                _ => forms!(P, %, %=, form, m, mr, s),
            };
            judge(&out, &want, r, c, o);
            let keep: Option<Vec<P>> = Some(vals.clone());
            judge(&Ok(m), &keep, r, c, o);
        })*
        fn dispatch(k: usize, op: usize, large: bool) {
            match k {
                $($k => $n(op, large),)*
                _ => {}
            }
        }
    };
}
prims! {
    0 u8 go_u8;
    1 u16 go_u16;
    2 u32 go_u32;
    3 u64 go_u64;
    4 u128 go_u128;
    5 usize go_usize;
    6 i8 go_i8;
    7 i16 go_i16;
    8 i32 go_i32;
    9 i64 go_i64;
    10 i128 go_i128;
    11 isize go_isize;
    12 f32 go_f32;
    13 f64 go_f64;
}
macro_rules! negs {
    ($($k:literal $t:ident;)*) => {
        fn negate(k: usize, large: bool) {
            match k {
                $($k => {
                    type P = $t;
                    let ((r, c, o), any) = sized(large);
                    let vals: Vec<P> = values(r * c, any);
                    let want = expected(&vals, |x| -x);
                    let m: Matrix<P> = build(r, c, o, vals.clone());
                    let mr: Matrix<&P> = build(r, c, o, vals.iter().collect());
                    let out: Out<P> = match vt::choose(0, 3, "form") {
                        0 => vt::catches(|| -m.clone()),
                        1 => vt::catches(|| -&m),
                        2 => vt::catches(|| -mr.clone()),
                        _ => vt::catches(|| -&mr),
                    };
                    judge(&out, &want, r, c, o);
                    judge(&Ok(m), &Some(vals.clone()), r, c, o);
                })*
                _ => {}
            }
        }
    };
}
negs! {
    0 i8;
    1 i16;
    2 i32;
    3 i64;
    4 i128;
    5 isize;
    6 f32;
    7 f64;
}
/// an element type of one's own: negated once each, in place
struct N(u64);
#[derive(Debug)]
struct M(u64);
impl std::ops::Neg for N {
    type Output = M;
    fn neg(self) -> M {
        M(f1(self.0))
    }
}
impl Clone for N {
    fn clone(&self) -> N {
        N(self.0)
    }
}
fn negate_own((r, c, o): (usize, usize, Order)) {
    let vals = sym_vals(r * c, "v");
    let m: Matrix<N> = build(r, c, o, vals.iter().map(|v| N(*v)).collect());
    let out: Matrix<M> = if vt::choose_bool("owned") { -m } else { -&m };
    vt::check(out.nrows() == r && out.ncols() == c && out.order() == o && out.size() == r * c, "shape or order of the negation");
    let g = grid(r, c, o, &vals);
    let mut ok = true;
    for i in 0..r {
        for j in 0..c {
            ok &= out.get((i, j)).is_ok_and(|x| x.0 == f1(g[i][j]));
        }
    }
    vt::check(ok, "an element is not negated");
    vt::cover("computed");
}
/// A scalar that can be recognised.
struct S(u64);
fn generic((r, c, o): (usize, usize, Order)) {
    let n = r * c;
    let (mut m, g) = tracked(r, c, o, "v");
    let s = S(vt::sym_u64("s"));
    let seen: RefCell<Vec<bool>> = RefCell::new(vec![false; n]);
    let calls = RefCell::new(0usize);
    let meet = |t: &T, x: &S| {
        vt::check(t.ok() && (t.id as usize) < n, "the closure got something that is not an element");
        let k = t.id as usize;
        if k < n {
            vt::check(!seen.borrow()[k], "an element is combined twice");
            seen.borrow_mut()[k] = true;
        }
        *calls.borrow_mut() += 1;
        vt::check(x.0 == s.0, "the closure got another scalar");
        f2(t.v, x.0)
    };
    let want: Vec<Vec<u64>> = g.iter().map(|w| w.iter().map(|x| f2(*x, s.0)).collect()).collect();
    let out = |m: &Matrix<T>| {
        vt::check(m.order() == o && same(m, r, c, &want), "the result is not f(element, scalar) everywhere");
        check_coherent(m);
        observe_matrix(m);
    };
    match vt::choose(0, 2, "form") {
        0 => {
            let res = m.scalar_operation(&s, |t, x| T::new(meet(t, x)));
            vt::check(res.is_ok(), "scalar_operation fails");
            if let Ok(x) = &res {
                out(x);
            }
            vt::check(m.order() == o && same(&m, r, c, &g), "the operand changed");
            vt::check(elem::live() == 2 * n, "leak");
        }
        1 => {
            let res = m.scalar_operation_consume_self(&s, |t, x| T::new(meet(&t, x)));
            vt::check(res.is_ok(), "scalar_operation_consume_self fails");
            if let Ok(x) = &res {
                out(x);
            }
            vt::check(elem::live() == n, "leak");
            drop(res);
            m = Matrix::new();
        }
        _ => {
            let me = &m as *const Matrix<T>;
            let res = m.scalar_operation_assign(&s, |t, x| t.v = meet(t, x)) as *const Matrix<T>;
            vt::check(res == me, "scalar_operation_assign returns another matrix");
            out(&m);
            vt::check(elem::live() == n, "leak");
        }
    }
    vt::check(*calls.borrow() == n && seen.borrow().iter().all(|b| *b), "the closure is not invoked once per element");
    vt::check(elem::clones() == 0, "elements were cloned");
    drop(m);
    elem::check_no_leak();
    vt::cover("computed");
}
fn kinds(lo: usize, hi: usize, large: bool) {
    let k = vt::choose(lo, hi, "type");
    let op = vt::choose(0, 4, "op");
    dispatch(k, op, large);
}
/// Far larger shapes: generic forms, and floats with the scalar on either side.
fn far() {
    xl();
    let (r, c, o) = choose_large();
    let s = vt::sym_u64("s");
    let form = vt::choose(0, 7, "form");
    if form < 3 {
        let (mut m, g) = plain(r, c, o, "v");
        let m = match form {
            0 => m.scalar_operation(&s, |x, y| f2(*x, *y)).unwrap(),
            1 => m.scalar_operation_consume_self(&s, |x, y| f2(x, *y)).unwrap(),
            _ => {
                m.scalar_operation_assign(&s, |x, y| *x = f2(*x, *y));
                m
            }
        };
        let want: Vec<Vec<u64>> = g.iter().map(|w| w.iter().map(|x| f2(*x, s)).collect()).collect();
        vt::check(m.order() == o && same(&m, r, c, &want), "the result is not f(element, scalar) everywhere");
    } else {
        let vals = sym_vals(r * c, "v");
        let g = grid(r, c, o, &vals);
        let mut m: Matrix<f64> = build(r, c, o, vals.iter().map(|v| f64::from_bits(*v)).collect());
        let s = f64::from_bits(s);
        let m = match form {
            3 => &m - s,
            4 => m - &s,
            5 => s - &m,
            6 => s - m,
            _ => {
                m -= s;
                m
            }
        };
        let mut ok = m.nrows() == r && m.ncols() == c && m.order() == o;
        for i in 0..r {
            for j in 0..c {
                let x = f64::from_bits(g[i][j]);
                let w = if form == 5 || form == 6 { s - x } else { x - s };
                ok &= m.get((i, j)).map(|e| e.to_bits() == w.to_bits()).unwrap_or(false);
            }
        }
        vt::check(ok, "an element is not (element - scalar) or (scalar - element)");
    }
    vt::cover("computed");
}
harnesses! {
    fn h_c18_xl() { far() }
    fn h_c18_unsigned() { kinds(0, 5, false) }
    fn h_c18_signed() { kinds(6, 11, false) }
    fn h_c18_float() { kinds(12, 13, false) }
    fn h_c18_large() { kinds(0, 13, true) }
    fn h_c18_neg_large() { let k = vt::choose(0, 7, "type"); negate(k, true) }
    fn h_c18_large_own() { if vt::choose_bool("neg") { negate_own(choose_large()) } else { generic(choose_large()) } }
    fn h_c18_neg() { let k = vt::choose(0, 7, "type"); negate(k, false) }
    fn h_c18_neg_own() { negate_own(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c18_generic() { generic(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
}
