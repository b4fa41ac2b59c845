//! C08: size limits, for every pair of 64-bit extents, against 128-bit reference arithmetic.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Matrix, Order, Shape};

/// Element type of a given size, distinguishable by a number.
trait Sized_: Clone + Default + Send + Sync + PartialEq + 'static {
    const SIZE: usize = size_of::<Self>();
    fn of(k: u64) -> Self;
}
macro_rules! prim {
    ($($t:ty)*) => {$(impl Sized_ for $t { fn of(k: u64) -> $t { k as $t } })*};
}
prim! {u8 u16 u32 u64 u128}
impl Sized_ for () {
    fn of(_: u64) {}
}
impl Sized_ for [u64; 3] {
    fn of(k: u64) -> Self {
        [k, k + 1, k + 2]
    }
}
impl Sized_ for [u8; 3] {
    fn of(k: u64) -> Self {
        [k as u8, k as u8 + 1, k as u8 + 2]
    }
}
/// Big elements: every allocation of one or more is beyond the modelled memory.
#[derive(Clone, PartialEq)]
struct Big([u64; 16384]);
impl Default for Big {
    fn default() -> Big {
        vt::check(false, "harness: Big built");
        Big([0; 16384])
    }
}
impl Sized_ for Big {
    fn of(_: u64) -> Big {
        Big::default()
    }
}
const SMALL: usize = 6;
const LIMIT: u128 = 1 << 16;

/// Requested shape: either both extents arbitrary, or one of them from a list of critical values.
/// What the operation must say about it; `None` means success.
fn verdict(r: usize, c: usize, size: usize) -> Option<Error> {
    let n = r as u128 * c as u128;
    if n > usize::MAX as u128 {
        Some(Error::SizeOverflow)
    } else if n * size as u128 > isize::MAX as u128 {
        Some(Error::CapacityOverflow)
    } else {
        None
    }
}
const EDGES: [usize; 17] = [
    0,
    1,
    2,
    3,
    5,
    7,
    8,
    24,
    (1 << 31) - 1,
    1 << 32,
    (1 << 32) + 1,
    isize::MAX as usize / 8,
    isize::MAX as usize / 24,
    isize::MAX as usize,
    1 << 63,
    usize::MAX - 1,
    usize::MAX,
];
fn extents(what: usize) -> (usize, usize) {
    let x = vt::sym_usize("extent");
    match what {
        0 => (x, vt::sym_usize("extent2")),
        k => {
            let e = EDGES[(k - 1) / 2];
            if k % 2 == 0 { (e, x) } else { (x, e) }
        }
    }
}
const SHAPES: usize = 1 + 2 * EDGES.len();
/// A valid request is explored when it is small, or so large that its allocation ends the path.
fn bounded(r: usize, c: usize, size: usize, ok: bool) {
    if ok {
        let n = r.wrapping_mul(c);
        small_or_huge(n, size);
    }
    vt::alloc_rule(ok);
}
fn small_or_huge(n: usize, size: usize) -> usize {
    if size == 0 {
        vt::assume(n <= SMALL);
        return vt::split(n);
    }
    if n <= SMALL {
        vt::split(n)
    } else {
        vt::assume(n as u128 * size as u128 > LIMIT);
        n
    }
}
fn judge<E>(res: Result<Matrix<E>, Error>, r: usize, c: usize, want: Option<Error>) -> Option<Matrix<E>> {
    match (res, want) {
        (Ok(m), None) => {
            vt::check((m.nrows() == r) & (m.ncols() == c), "another shape than requested");
            let n = vt::split(m.size());
            vt::check(n == r.wrapping_mul(c), "size() disagrees with the shape");
            vt::check(m.iter_elements().count() == n, "the element count disagrees with the shape");
            vt::cover("succeeded");
            Some(m)
        }
        (Err(e), Some(w)) => {
            vt::check(e == w, "wrong error");
            vt::cover("failed");
            None
        }
        (Ok(_), Some(_)) => {
            vt::check(false, "an impossible size was accepted");
            None
        }
        (Err(_), None) => {
            vt::check(false, "a possible size was rejected");
            None
        }
    }
}
fn construct<E: Sized_>() {
    let what = vt::choose(0, SHAPES - 1, "what");
    let (r, c) = extents(what);
    let op = vt::choose(0, 4, "op");
    vt::shard(what * 5 + op);
    let want = vt_err(r, c, E::SIZE);
    bounded(r, c, E::SIZE, want.is_none());
    // a caught panic in a failing call is reported as such
    let res = vt::catches(|| match op {
        0 => Matrix::<E>::with_default((r, c)),
        1 => Matrix::<E>::with_default(Shape::new(r, c)),
        2 => Matrix::with_value([r, c], E::of(7)),
        _ => {
            if op == 3 {
                let mut n = 0u64;
                Matrix::with_initializer((r, c), |i| {
                    vt::check((i.row < r) & (i.col < c), "initializer called with a position outside the shape");
                    n += 1;
                    E::of(n)
                })
            } else {
                // resize of a small matrix
                let (a, b) = (vt::choose(0, 2, "old_rows"), vt::choose(0, 2, "old_cols"));
                let order = choose_order("order");
                let mut m = build(a, b, order, (0..a * b).map(|k| E::of(k as u64)).collect());
                let res = m.resize((r, c)).map(|_| ());
                if res.is_err() {
                    vt::check((m.nrows() == a) & (m.ncols() == b) & (m.size() == a * b) & (m.order() == order), "a failed resize changed the matrix");
                    vt::check(m.iter_elements().enumerate().all(|(k, e)| *e == E::of(k as u64)), "a failed resize changed the matrix");
                }
                res.map(|_| m)
            }
        }
    });
    match res {
        Err(()) => vt::check(false, "panic"),
        Ok(res) => {
            if let Some(m) = judge(res, r, c, want) {
                if op == 0 || op == 1 {
                    vt::check(m.iter_elements().all(|e| *e == E::default()), "contents");
                } else if op == 2 {
                    vt::check(m.iter_elements().all(|e| *e == E::of(7)), "contents");
                }
            }
        }
    }
}
fn vt_err(r: usize, c: usize, size: usize) -> Option<Error> {
    verdict(r, c, size)
}
/// A matrix of `n` zero-sized elements in one of the possible shapes.
fn zrow(n: usize, col: bool, order: Order) -> Matrix<()> {
    let mut data: Vec<()> = Vec::new();
    unsafe { data.set_len(n) };
    let mut m = if col { Matrix::from_col(data) } else { Matrix::from_row(data) };
    if order != Order::RowMajor {
        m.switch_order_without_rearrangement();
        m.reshape(if col { (n, 1) } else { (1, n) }).expect("pre-state");
    }
    m
}
/// mapping-style operations on n zero-sized elements
fn mapping<E: Sized_>(par: bool) {
    let n = vt::sym_usize("n");
    let col = vt::choose_bool("col");
    let order = choose_order("order");
    let op = if par { vt::choose(10, 11, "op") } else { vt::choose(0, 7, "op") };
    vt::shard(op * 4 + col as usize * 2 + (order == Order::ColMajor) as usize);
    let mut m = zrow(n, col, order);
    if vt::choose_bool("wide") {
        // the same elements in a shape with no element or, for an even number, two rows
        vt::assume(n % 2 == 0);
        let s = if col { (n / 2, 2) } else { (2, n / 2) };
        vt::check(m.reshape(s).is_ok(), "reshape");
    }
    let (r, c) = (m.nrows(), m.ncols());
    let fits = n as u128 * E::SIZE as u128 <= isize::MAX as u128;
    let want = if fits { None } else { Some(Error::CapacityOverflow) };
    if fits {
        small_or_huge(n, E::SIZE);
    }
    // the other operand of elementwise operations: any storage order
    let other = if op >= 3 && op <= 5 { Some(choose_order("other")) } else { None };
    let rhs = other.map(|o| {
        let mut x = zrow(n, col, o);
        vt::check(x.reshape((r, c)).is_ok(), "reshape");
        x
    });
    vt::alloc_rule(fits);
    let res = vt::catches(|| {
        use matreex::parallel::*;
        match op {
            0 => m.map(|_| E::of(3)),
            1 => m.map_ref(|_| E::of(3)),
            2 => m.scalar_operation(&1u8, |_, _| E::of(3)),
            3 => m.elementwise_operation(rhs.as_ref().unwrap(), |_, _| E::of(3)),
            4 => m.elementwise_operation_consume_self(rhs.as_ref().unwrap(), |_, _| E::of(3)),
            5 => m.elementwise_operation(rhs.as_ref().unwrap(), |_, _| E::of(3)).and_then(|x| x.map(|e| e)),
            6 => m.scalar_operation_consume_self(&1u8, |_, _| E::of(3)),
            7 => m.map_ref(|_| E::of(3)).and_then(|x| x.map_ref(|e| e.clone())),
            10 => m.par_map(|_| E::of(3)),
            _ => m.par_map_ref(|_| E::of(3)),
        }
    });
    match res {
        Err(()) => vt::check(false, "panic"),
        Ok(res) => {
            if let Some(m) = judge(res, r, c, want) {
                vt::check(m.order() == order, "order of the result");
                vt::check(m.iter_elements().all(|e| *e == E::of(3)), "contents");
            }
        }
    }
}
/// Zero-sized operand whose operators yield `E`.
struct Unit<E>(std::marker::PhantomData<E>);
impl<E> Clone for Unit<E> {
    fn clone(&self) -> Self {
        Unit(std::marker::PhantomData)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident),*) => {$(
        impl<E: Sized_> std::ops::$t<()> for Unit<E> {
            type Output = E;
            fn $f(self, _: ()) -> E { E::of(3) }
        }
        impl<E: Sized_> std::ops::$t<Unit<E>> for Unit<E> {
            type Output = E;
            fn $f(self, _: Unit<E>) -> E { E::of(3) }
        }
    )*};
}
ops!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl<E: Sized_> std::ops::Neg for Unit<E> {
    type Output = E;
    fn neg(self) -> E {
        E::of(3)
    }
}
fn units<E>(n: usize, col: bool, order: Order) -> Matrix<Unit<E>> {
    let mut data: Vec<Unit<E>> = Vec::new();
    unsafe { data.set_len(n) };
    let mut m = if col { Matrix::from_col(data) } else { Matrix::from_row(data) };
    if order != Order::RowMajor {
        m.switch_order_without_rearrangement();
        m.reshape(if col { (n, 1) } else { (1, n) }).expect("pre-state");
    }
    m
}
/// named elementwise operations and operators (which panic instead)
fn named<E: Sized_>() {
    let n = vt::sym_usize("n");
    let col = vt::choose_bool("col");
    let order = choose_order("order");
    let op = vt::choose(0, 15, "op");
    vt::shard(op * 2 + col as usize);
    let m = units::<E>(n, col, order);
    let rhs = zrow(n, col, choose_order("other"));
    let (r, c) = (m.nrows(), m.ncols());
    let fits = n as u128 * E::SIZE as u128 <= isize::MAX as u128;
    if fits {
        small_or_huge(n, E::SIZE);
    }
    vt::alloc_rule(fits);
    let res = vt::catches(|| match op {
        0 => m.elementwise_add(&rhs),
        1 => m.elementwise_sub(&rhs),
        2 => m.elementwise_mul(&rhs),
        3 => m.elementwise_div(&rhs),
        4 => m.elementwise_rem(&rhs),
        5 => m.elementwise_add_consume_self(&rhs),
        6 => m.elementwise_sub_consume_self(&rhs),
        7 => m.elementwise_mul_consume_self(&rhs),
        8 => m.elementwise_div_consume_self(&rhs),
        9 => m.elementwise_rem_consume_self(&rhs),
        10 => Ok(m + rhs),
        11 => Ok(&m + &rhs),
        12 => Ok(m - &rhs),
        13 => Ok(&m - rhs),
        14 => Ok(-m),
        _ => Ok(-&m),
    });
    if op >= 10 {
        // an operator fails by panicking
        vt::check(res.is_ok() == fits, "an operator panics on a possible size or accepts an impossible one");
        if let Ok(Ok(x)) = res {
            judge(Ok(x), r, c, None);
        } else {
            vt::cover("failed");
        }
        return;
    }
    match res {
        Err(()) => vt::check(false, "panic"),
        Ok(res) => {
            judge(res, r, c, if fits { None } else { Some(Error::CapacityOverflow) });
        }
    }
}
/// r x 0 times 0 x c: any result shape whatever, no element needed to get there
fn product<E: Sized_ + std::ops::Add<Output = E>>() {
    let what = vt::choose(0, SHAPES - 1, "what");
    let (r, c) = extents(what);
    let op = vt::choose(0, 2, "op");
    vt::shard(what * 3 + op);
    let want = verdict(r, c, E::SIZE);
    bounded(r, c, E::SIZE, want.is_none());
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let mut a: Matrix<Fac<E>> = Matrix::new();
    let mut b: Matrix<Fac<E>> = Matrix::new();
    a.set_order(oa);
    b.set_order(ob);
    vt::check(a.reshape((r, 0)).is_ok() && b.reshape((0, c)).is_ok(), "pre-state");
    let res = vt::catches(|| match op {
        0 => a.multiply(b),
        1 => a.multiplication_like_operation(b, |_, _| E::of(1)),
        _ => Ok(a * b),
    });
    finish(res, op == 2, r, c, want, oa);
}
fn finish<E: Sized_>(res: Result<Result<Matrix<E>, Error>, ()>, operator: bool, r: usize, c: usize, want: Option<Error>, order: Order) {
    match res {
        Err(()) => vt::check(operator && want.is_some(), "panic"),
        Ok(res) => {
            if let Some(m) = judge(res, r, c, want) {
                vt::check(m.order() == order, "order of the product");
                vt::check(m.iter_elements().all(|e| *e == E::default()), "contents of an empty-sum product");
            }
        }
    }
}
/// Factor with a zero-sized representation and an `E` product.
struct Fac<E>(std::marker::PhantomData<E>);
impl<E> Clone for Fac<E> {
    fn clone(&self) -> Self {
        Fac(std::marker::PhantomData)
    }
}
impl<E: Sized_> std::ops::Mul for Fac<E> {
    type Output = E;
    fn mul(self, _: Fac<E>) -> E {
        E::of(2)
    }
}
/// n x 1 times 1 x m, products too large to exist
fn outer<E: Sized_ + std::ops::Add<Output = E>>() {
    let (r, c) = (vt::sym_usize("rows"), vt::sym_usize("cols"));
    let op = vt::choose(0, 2, "op");
    vt::shard(op);
    let want = verdict(r, c, E::SIZE);
    vt::assume(want.is_some());
    vt::alloc_rule(false);
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    let mk = |n: usize, col: bool, o: Order| {
        let mut data: Vec<Fac<E>> = Vec::new();
        unsafe { data.set_len(n) };
        let mut m = if col { Matrix::from_col(data) } else { Matrix::from_row(data) };
        if o != Order::RowMajor {
            m.switch_order_without_rearrangement();
            m.reshape(if col { (n, 1) } else { (1, n) }).expect("pre-state");
        }
        m
    };
    let (a, b) = (mk(r, true, oa), mk(c, false, ob));
    let res = vt::catches(|| match op {
        0 => a.multiply(b),
        1 => a.multiplication_like_operation(b, |_, _| E::of(1)),
        _ => Ok(a * b),
    });
    finish(res, op == 2, r, c, want, oa);
}
/// Conversions from k rows of n zero-sized elements each.
fn rows(k: usize) {
    let n = vt::sym_usize("n");
    let op = vt::choose(0, 2, "op");
    let want = verdict(k, n, 0);
    if want.is_none() {
        vt::assume(n <= SMALL);
    }
    vt::alloc_rule(want.is_none());
    let mk = || {
        let mut v: Vec<Vec<Z>> = Vec::with_capacity(k);
        for _ in 0..k {
            let mut d: Vec<Z> = Vec::new();
            unsafe { d.set_len(n) };
            v.push(d);
        }
        v
    };
    let res = vt::catches(|| match op {
        0 => Matrix::try_from(mk()),
        1 => Matrix::try_from(&mk()[..]),
        _ => {
            let v = mk();
            match k {
                2 => Matrix::try_from(<[Vec<Z>; 2]>::try_from(v).ok().unwrap()),
                3 => Matrix::try_from(<[Vec<Z>; 3]>::try_from(v).ok().unwrap()),
                _ => Matrix::try_from(<[Vec<Z>; 4]>::try_from(v).ok().unwrap()),
            }
        }
    });
    match res {
        Err(()) => vt::check(false, "panic"),
        Ok(res) => {
            judge(res, k, n, want);
        }
    }
}
#[derive(Clone, Copy)]
struct Z;
/// reshape: SizeMismatch for every size other than the current one.
fn reshape() {
    let what = vt::choose(0, SHAPES - 1, "what");
    vt::shard(what);
    let (a, b) = extents(what);
    let kind = vt::choose_bool("kind");
    let order = choose_order("order");
    let big = vt::choose_bool("big");
    let product = a as u128 * b as u128;
    if big {
        let n = if kind { vt::sym_usize("n") } else { usize::MAX - 1 };
        let mut m = zrow(n, false, order);
        match m.reshape((a, b)) {
            Ok(_) => {
                vt::check(product == n as u128, "reshape accepted another size");
                vt::check((m.nrows() == a) & (m.ncols() == b) & (m.size() == n), "shape after reshape");
                vt::cover("succeeded");
            }
            Err(e) => {
                vt::check((product != n as u128) & (e == Error::SizeMismatch), "reshape rejected its own size, or with another error");
                vt::check((m.nrows() == 1) & (m.ncols() == n) & (m.size() == n), "shape after a failed reshape");
                vt::cover("failed");
            }
        }
        vt::check(m.order() == order, "order");
    } else {
        let (r, c) = (vt::choose(0, 3, "rows"), vt::choose(0, 3, "cols"));
        let (mut m, g) = plain(r, c, order, "v");
        let before = memory(&m);
        match m.reshape((a, b)) {
            Ok(_) => {
                vt::check(product == (r * c) as u128, "reshape accepted another size");
                vt::check((m.nrows() == a) & (m.ncols() == b) & (m.size() == r * c), "shape after reshape");
                vt::cover("succeeded");
            }
            Err(e) => {
                vt::check((product != (r * c) as u128) & (e == Error::SizeMismatch), "reshape rejected its own size, or with another error");
                vt::check(same(&m, r, c, &g), "a failed reshape changed the matrix");
                vt::cover("failed");
            }
        }
        vt::check(m.order() == order && memory(&m) == before, "reshape moved elements");
    }
}
/// Shape::size itself.
fn shape_size() {
    let (r, c) = extents(vt::choose(0, SHAPES - 1, "what"));
    let n = r as u128 * c as u128;
    let mut s = Shape::new(r, c);
    match s.size() {
        Ok(k) => {
            vt::check(n == k as u128, "Shape::size");
            vt::cover("succeeded");
        }
        Err(e) => {
            vt::check((n > usize::MAX as u128) & (e == Error::SizeOverflow), "Shape::size");
            vt::cover("failed");
        }
    }
    s.transpose();
    vt::check((s.nrows() == c) & (s.ncols() == r), "Shape::transpose");
}
/// Failing calls release what they were given.
fn ledger() {
    let what = vt::choose(0, SHAPES - 1, "what");
    let (r, c) = extents(what);
    let op = vt::choose(0, 2, "op");
    vt::shard(what);
    let want = verdict(r, c, size_of::<T>());
    vt::assume(want.is_some());
    vt::alloc_rule(false);
    match op {
        0 => {
            vt::check(Matrix::with_value((r, c), T::new(1)).err() == want, "with_value");
        }
        1 => {
            vt::check(Matrix::<T>::with_default((r, c)).err() == want, "with_default");
            vt::check(elem::born() == 0, "elements built for an impossible matrix");
        }
        _ => {
            vt::check(Matrix::<T>::with_initializer((r, c), |_| T::new(0)).err() == want, "with_initializer");
            vt::check(elem::born() == 0, "elements built for an impossible matrix");
        }
    }
    elem::check_no_leak();
    vt::cover("released");
}
/// non-additive types get an Add for `multiply`
macro_rules! wrap {
    ($($n:ident $t:ty),*) => {$(
        #[derive(Clone, Default, PartialEq)]
        struct $n($t);
        impl Sized_ for $n { fn of(k: u64) -> $n { $n(<$t>::of(k)) } }
        impl std::ops::Add for $n {
            type Output = $n;
            fn add(self, o: $n) -> $n { let _ = o; self }
        }
    )*};
}
wrap!(A0 (), A1 u8, A8 u64, A24 [u64; 3]);

harnesses! {
    fn h_c08_size0() { construct::<()>() }
    fn h_c08_size1() { construct::<u8>() }
    fn h_c08_size3() { construct::<[u8; 3]>() }
    fn h_c08_size8() { construct::<u64>() }
    fn h_c08_size16() { construct::<u128>() }
    fn h_c08_size24() { construct::<[u64; 3]>() }
    fn h_c08_big() { construct_big() }
    fn h_c08_map0() { mapping::<()>(false) }
    fn h_c08_map1() { mapping::<u8>(false) }
    fn h_c08_map2() { mapping::<u16>(false) }
    fn h_c08_map8() { mapping::<u64>(false) }
    fn h_c08_map24() { mapping::<[u64; 3]>(false) }
    fn h_c08_par0() { mapping::<()>(true) }
    fn h_c08_par4() { mapping::<u32>(true) }
    fn h_c08_par24() { mapping::<[u64; 3]>(true) }
    fn h_c08_named0() { named::<()>() }
    fn h_c08_named3() { named::<[u8; 3]>() }
    fn h_c08_named16() { named::<u128>() }
    fn h_c08_product0() { product::<A0>() }
    fn h_c08_product1() { product::<A1>() }
    fn h_c08_product24() { product::<A24>() }
    fn h_c08_outer0() { outer::<A0>() }
    fn h_c08_outer8() { outer::<A8>() }
    fn h_c08_rows() { rows(vt::choose(2, 4, "k")) }
    fn h_c08_reshape() { reshape() }
    fn h_c08_shape() { shape_size() }
    fn h_c08_ledger() { ledger() }
}
/// Elements of 128 KiB: no valid request fits the modelled memory.
fn construct_big() {
    let what = vt::choose(0, SHAPES - 1, "what");
    let (r, c) = extents(what);
    vt::shard(what);
    let want = verdict(r, c, Big::SIZE);
    let n = r.wrapping_mul(c);
    let ok = want.is_none();
    vt::alloc_rule(ok);
    let res = Matrix::<Big>::with_default((r, c));
    match res {
        Ok(m) => {
            vt::check(ok, "an impossible size was accepted");
            vt::check((n == 0) & (m.nrows() == r) & (m.ncols() == c), "shape");
            vt::cover("succeeded");
        }
        Err(e) => {
            vt::check(want == Some(e), "wrong error");
            vt::cover("failed");
        }
    }
}
