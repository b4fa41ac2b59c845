//! C07: equality means equal logical contents; results do not depend on the operands' storage
//! orders.  Every order-agnostic operation runs on row-major operands and on operands holding the
//! same contents in every other combination of orders; the two outcomes must agree.
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Order, WrappingIndex};
use std::fmt;

/// Element: compares and prints by payload / tag.  `Debug` is needed by error paths only.
#[derive(Clone, Copy, Debug, PartialEq)]
struct E {
    v: u64,
    tag: u32,
}
impl Payload for E {
    fn payload(&self) -> u64 {
        self.v
    }
}
/// Distinct texts of different widths for every tag.
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = self.tag;
        f.write_str(["", "ab", "c", "\u{e9}f", "ghij"][(t % 5) as usize])?;
        if t % 3 == 0 {
            f.write_str("\n-")?;
        }
        f.write_str(["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"][(t % 16) as usize])
    }
}
macro_rules! op2 {
    ($($t:ident $f:ident $e:expr;)*) => {$(
        impl std::ops::$t for E {
            type Output = E;
            fn $f(self, o: E) -> E {
                let f: fn(u64, u64) -> u64 = $e;
                E { v: f(self.v, o.v), tag: self.tag }
            }
        }
    )*};
}
op2! {
    Add add |a, b| f2(a, b) ^ 1;
    Sub sub |a, b| f2(a, b) ^ 2;
    Mul mul |a, b| f2(a, b) ^ 3;
    Div div |a, b| f2(a, b) ^ 4;
    Rem rem |a, b| f2(a, b) ^ 5;
}
impl std::ops::AddAssign for E {
    fn add_assign(&mut self, o: E) {
        *self = *self + o;
    }
}
impl std::ops::SubAssign for E {
    fn sub_assign(&mut self, o: E) {
        *self = *self - o;
    }
}
impl std::ops::MulAssign for E {
    fn mul_assign(&mut self, o: E) {
        *self = *self * o;
    }
}
impl std::ops::DivAssign for E {
    fn div_assign(&mut self, o: E) {
        *self = *self / o;
    }
}
impl std::ops::RemAssign for E {
    fn rem_assign(&mut self, o: E) {
        *self = *self % o;
    }
}
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E { v: !self.v, tag: self.tag }
    }
}
impl Default for E {
    fn default() -> E {
        E { v: 99, tag: 0 }
    }
}
fn make(r: usize, c: usize, order: Order, g: &[Vec<u64>], t0: u32) -> Matrix<E> {
    let mut data = Vec::new();
    for k in 0..r * c {
        let (i, j) = if order == Order::RowMajor { (k / c, k % c) } else { (k % r, k / r) };
        data.push(E { v: g[i][j], tag: t0 + (i * c + j) as u32 });
    }
    build(r, c, order, data)
}

/// What an operation did, read logically.
#[derive(PartialEq, Default)]
struct Out {
    fail: u8,
    rows: usize,
    cols: usize,
    vals: Vec<u64>,
    text: String,
    /// operands after the operation
    a: Vec<u64>,
    ar: usize,
    ac: usize,
}
struct Res {
    out: Out,
    /// storage order of the result, if it produced a matrix
    order: Option<Order>,
    /// storage order of the left operand after the operation
    left: Order,
    right: Order,
}
fn code(e: Error) -> u8 {
    match e {
        Error::SizeOverflow => 2,
        Error::SizeMismatch => 3,
        Error::CapacityOverflow => 4,
        Error::LengthInconsistent => 5,
        Error::IndexOutOfBounds => 6,
        Error::SquareMatrixRequired => 7,
        Error::ShapeNotConformable => 8,
        _ => 9,
    }
}
fn logical(m: &Matrix<E>) -> Vec<u64> {
    let mut v = Vec::new();
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            match m.get((i, j)) {
                Ok(e) => v.push(e.v),
                Err(_) => vt::check(false, "a result element is unreachable"),
            }
        }
    }
    v
}
const BINARY: usize = 28;
fn binary(op: usize, mut a: Matrix<E>, b: Matrix<E>) -> Res {
    let mut out = Out::default();
    let mut order = None;
    let left0 = a.order();
    let right = b.order();
    let mut keep = |r: Result<Matrix<E>, Error>| match r {
        Ok(m) => {
            out.rows = m.nrows();
            out.cols = m.ncols();
            out.vals = logical(&m);
            order = Some(m.order());
        }
        Err(e) => out.fail = code(e),
    };
    let g = |x: E, y: E| E { v: f2(x.v, y.v), tag: x.tag };
    // operators fail by panicking
    fn caught<R>(f: impl FnOnce() -> R) -> Result<R, Error> {
        vt::catches(f).map_err(|_| Error::ShapeNotConformable)
    }
    let mut unit = 0;
    match op {
        0 => keep(a.elementwise_operation(&b, |x, y| g(*x, *y))),
        1 => keep(a.clone().elementwise_operation_consume_self(&b, |x, y| g(x, *y))),
        2 => unit = a.elementwise_operation_assign(&b, |x, y| *x = g(*x, *y)).err().map_or(0, code),
        3 => keep(a.elementwise_add(&b)),
        4 => keep(a.elementwise_sub(&b)),
        5 => keep(a.elementwise_mul(&b)),
        6 => keep(a.elementwise_div(&b)),
        7 => keep(a.elementwise_rem(&b)),
        8 => keep(a.clone().elementwise_add_consume_self(&b)),
        9 => keep(a.clone().elementwise_sub_consume_self(&b)),
        10 => unit = a.elementwise_add_assign(&b).err().map_or(0, code),
        11 => unit = a.elementwise_sub_assign(&b).err().map_or(0, code),
        12 => unit = a.elementwise_mul_assign(&b).err().map_or(0, code),
        13 => unit = a.elementwise_div_assign(&b).err().map_or(0, code),
        14 => unit = a.elementwise_rem_assign(&b).err().map_or(0, code),
        15 => keep(caught(|| &a + &b)),
        16 => keep(caught(|| a.clone() - b.clone())),
        17 => unit = caught(|| a += &b).err().map_or(0, code),
        18 => unit = caught(|| a -= &b).err().map_or(0, code),
        19 => keep(a.clone().multiply(b.clone())),
        20 => keep(caught(|| &a * &b)),
        21 => keep(a.clone().multiplication_like_operation(b.clone(), |x: &[E], y: &[E]| {
            let mut s = 17;
            for k in 0..x.len() {
                s = f2(s, f2(x[k].v, y[k].v));
            }
            E { v: s, tag: 1 }
        })),
        22 => {
            a.overwrite(&b);
        }
        23 => unit = a.is_elementwise_operation_conformable(&b) as u8,
        24 => unit = a.is_multiplication_like_operation_conformable(&b) as u8,
        25 => unit = a.ensure_elementwise_operation_conformable(&b).err().map_or(0, code),
        26 => unit = a.ensure_multiplication_like_operation_conformable(&b).err().map_or(0, code),
        _ => unit = (a == b) as u8,
    }
    out.fail |= unit;
    out.a = logical(&a);
    out.ar = a.nrows();
    out.ac = a.ncols();
    let left = a.order();
    let _ = left0;
    drop(b);
    Res { out, order, left, right }
}
fn run_binary(max: usize) {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    let (p, q) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
    let op = vt::choose(0, BINARY - 1, "op");
    vt::shard(((r * 5 + c) * 5 + p) * 5 + q);
    if r * c > vt::tier(6, 12) || p * q > vt::tier(6, 12) {
        return;
    }
    let (oa, ob) = (choose_order("oa"), choose_order("ob"));
    compare_binary(op, (r, c, oa), (p, q, ob));
}
fn compare_binary(op: usize, (r, c, oa): (usize, usize, Order), (p, q, ob): (usize, usize, Order)) {
    let ga = grid(r, c, Order::RowMajor, &sym_vals(r * c, "a"));
    let gb = grid(p, q, Order::RowMajor, &sym_vals(p * q, "b"));
    let base = binary(op, make(r, c, Order::RowMajor, &ga, 0), make(p, q, Order::RowMajor, &gb, 40));
    let res = binary(op, make(r, c, oa, &ga, 0), make(p, q, ob, &gb, 40));
    vt::check(base.out == res.out, "the outcome depends on the operands' storage orders");
    vt::check(base.order.is_some() == res.order.is_some(), "the outcome depends on the operands' storage orders");
    vt::check(res.order.is_none_or(|o| o == oa), "the result is not in the left operand's order");
    vt::check(res.left == oa && res.right == ob, "an operand changed its order");
    vt::cover(if res.out.fail == 8 { "failed" } else { "succeeded" });
}
const UNARY: usize = 30;
fn unary(op: usize, mut a: Matrix<E>, x: (usize, usize), y: (usize, usize)) -> Res {
    let mut out = Out::default();
    let mut order = None;
    let o = a.order();
    let mut keep = |r: Result<Matrix<E>, Error>| match r {
        Ok(m) => {
            out.rows = m.nrows();
            out.cols = m.ncols();
            out.vals = logical(&m);
            order = Some(m.order());
        }
        Err(e) => out.fail = code(e),
    };
    let g = |e: E| E { v: f1(e.v), tag: e.tag };
    let s = E { v: 5, tag: 0 };
    let mut unit = 0;
    let mut list: Vec<u64> = Vec::new();
    let mut text = String::new();
    match op {
        0 => {
            a.transpose();
        }
        1 => {
            a.apply(|e| *e = g(*e));
        }
        2 => keep(a.map_ref(|e| g(*e))),
        3 => keep(a.clone().map(g)),
        4 => keep(a.scalar_operation(&s, |e, s| E { v: f2(e.v, s.v), tag: e.tag })),
        5 => keep(a.clone().scalar_operation_consume_self(&s, |e, s| E { v: f2(e.v, s.v), tag: e.tag })),
        6 => {
            a.scalar_operation_assign(&s, |e, s| e.v = f2(e.v, s.v));
        }
        7 => keep(Ok(-a.clone())),
        8 => keep(Ok(-&a)),
        9 => keep(Ok(a.clone())),
        10 => unit = a.swap(x, y).err().map_or(0, code),
        11 => unit = a.swap_rows(x.0, y.0).err().map_or(0, code),
        12 => unit = a.swap_cols(x.1, y.1).err().map_or(0, code),
        13 => match a.get(x) {
            Ok(e) => list.push(e.v),
            Err(e) => unit = code(e),
        },
        14 => match a.get_mut(Index::new(x.0, x.1)) {
            Ok(e) => e.v = 7,
            Err(e) => unit = code(e),
        },
        15 => match a.get(WrappingIndex::new(x.0 as isize - 2, y.1 as isize - 2)) {
            Ok(e) => list.push(e.v),
            Err(e) => unit = code(e),
        },
        16 => match vt::catches(|| a[x].v) {
            Ok(v) => list.push(v),
            Err(_) => unit = 1,
        },
        17 => {
            for v in a.iter_rows() {
                list.push(v.len() as u64);
                list.extend(v.map(|e| e.v));
            }
        }
        18 => {
            for v in a.iter_cols() {
                list.push(v.len() as u64);
                list.extend(v.map(|e| e.v));
            }
        }
        19 => match a.iter_nth_row(x.0) {
            Ok(v) => list.extend(v.map(|e| e.v)),
            Err(e) => unit = code(e),
        },
        20 => match a.iter_nth_col(x.1) {
            Ok(v) => list.extend(v.map(|e| e.v)),
            Err(e) => unit = code(e),
        },
        21 => {
            for (i, v) in a.iter_rows_mut().enumerate() {
                for (j, e) in v.enumerate() {
                    list.push(e.v);
                    e.v = (10 * i + j) as u64;
                }
            }
        }
        22 => {
            for (i, v) in a.iter_cols_mut().enumerate() {
                for (j, e) in v.enumerate() {
                    list.push(e.v);
                    e.v = (10 * i + j) as u64;
                }
            }
        }
        23 => match a.iter_nth_row_mut(x.0) {
            Ok(v) => v.for_each(|e| e.v = 3),
            Err(e) => unit = code(e),
        },
        24 => match a.iter_nth_col_mut(x.1) {
            Ok(v) => v.for_each(|e| e.v = 3),
            Err(e) => unit = code(e),
        },
        25 => {
            unit = a.is_square() as u8 + 2 * a.is_empty() as u8 + 4 * a.ensure_square().is_ok() as u8;
            list.extend([a.nrows() as u64, a.ncols() as u64, a.size() as u64, a.shape().nrows() as u64, a.shape().ncols() as u64]);
        }
        26 => unit = a.contains(&E { v: 3, tag: 0 }) as u8,
        27 => {
            use matreex::parallel::*;
            keep(a.par_map_ref(|e| g(*e)));
            a.par_apply(|e| e.v = f1(e.v));
            let n = a.par_iter_elements().count();
            vt::check(n == a.size(), "par_iter_elements count");
        }
        28 => {
            // items with their indices, in row order
            let mut v: Vec<(usize, usize, u64)> = a.iter_elements_with_index().map(|(i, e)| (i.row, i.col, e.v)).collect();
            v.sort_by_key(|t| (t.0, t.1));
            list.extend(v.iter().map(|t| t.2));
        }
        _ => text = format!("{a}"),
    }
    out.fail |= unit;
    out.text = text;
    if op >= 13 && op <= 28 {
        out.vals.extend(list);
    }
    out.a = logical(&a);
    out.ar = a.nrows();
    out.ac = a.ncols();
    Res { out, order, left: a.order(), right: o }
}
fn run_unary(max: usize, lo: usize, hi: usize) {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    let op = vt::choose(lo, hi, "op");
    vt::shard(r * 8 + c);
    let oa = choose_order("oa");
    let g = grid(r, c, Order::RowMajor, &sym_vals(r * c, "a"));
    let (mut x, mut y) = ((0, 0), (0, 0));
    if op >= 10 && op <= 16 || op == 19 || op == 20 || op == 23 || op == 24 {
        x = (vt::choose(0, r, "x0"), vt::choose(0, c, "x1"));
    }
    if op >= 10 && op <= 12 || op == 15 {
        y = (vt::choose(0, r, "y0"), vt::choose(0, c, "y1"));
    }
    compare_unary(op, r, c, oa, &g, x, y);
}
fn compare_unary(op: usize, r: usize, c: usize, oa: Order, g: &[Vec<u64>], x: (usize, usize), y: (usize, usize)) {
    let base = unary(op, make(r, c, Order::RowMajor, &g, 0), x, y);
    let res = unary(op, make(r, c, oa, &g, 0), x, y);
    vt::check(base.out.text == res.out.text, "the Display text depends on the storage order");
    vt::check(base.out == res.out, "the outcome depends on the storage order");
    vt::check(res.order.is_none_or(|o| o == oa), "the result is not in the operand's order");
    vt::check(res.left == oa, "the operand changed its order");
    vt::cover("compared");
}
/// Larger shapes.
fn large_binary() {
    let (r, c, oa) = choose_large();
    let op = vt::choose(0, BINARY - 1, "op");
    let (p, q) = [(r, c), (c, 2), (r, c + 1)][vt::choose(0, 2, "second")];
    compare_binary(op, (r, c, oa), (p, q, choose_order("ob")));
}
fn large_unary() {
    let (r, c, oa) = choose_large();
    // the texts have their own check; `contains` forks too often
    let op = vt::choose(0, UNARY - 2, "op");
    if op == 26 {
        return;
    }
    let g = grid(r, c, Order::RowMajor, &sym_vals(r * c, "a"));
    let (mut x, mut y) = ((0, 0), (0, 0));
    if op >= 10 && op <= 16 || op == 19 || op == 20 || op == 23 || op == 24 {
        x = (choose_end(r, "x0"), choose_end(c, "x1"));
    }
    if op >= 10 && op <= 12 {
        y = (choose_end(r, "y0"), c / 3);
    }
    compare_unary(op, r, c, oa, &g, x, y);
}
/// Far larger shapes, listed places of the difference.
fn xl_eq() {
    xl();
    let (r, c, oa) = choose_large();
    let ob = choose_order("ob");
    let g = grid(r, c, Order::RowMajor, &sym_vals(r * c, "v"));
    let alike = vt::choose_bool("alike");
    let (x, y) = if alike { [(0, 0), (0, c - 1), (r / 2, c / 3), (r - 1, c - 1)][vt::choose(0, 3, "where")] } else { (0, 0) };
    let by = vt::sym_u64("by");
    let mem = |o: Order, by: u64| {
        let v: Vec<u64> = (0..r * c)
            .map(|k| {
                let (i, j) = if o == Order::RowMajor { (k / c, k % c) } else { (k % r, k / r) };
                if (i, j) == (x, y) { g[i][j] ^ by } else { g[i][j] }
            })
            .collect();
        build(r, c, o, v)
    };
    let (a, mut b) = (mem(oa, 0), mem(ob, by));
    if !alike {
        vt::assume(r != c);
        b.switch_order_without_rearrangement();
    }
    let want = by == 0 && alike;
    vt::check((a == b) == want, "== does not mean equal contents");
    vt::check((b == a) == want, "== is not symmetric");
    vt::cover(if want { "equal" } else { "unequal" });
    if !alike {
        return;
    }
    // operations of two operands, the right one in either order
    let kind = vt::choose(0, 2, "kind");
    let f = |p: &u64, q: &u64| f2(*p, *q);
    let res = match kind {
        0 => a.elementwise_operation(&b, f).unwrap(),
        1 => a.clone().elementwise_operation_consume_self(&b, |p, q| f2(p, *q)).unwrap(),
        _ => {
            let mut m = a.clone();
            m.overwrite(&b);
            m
        }
    };
    let mut ok = res.order() == oa && res.nrows() == r && res.ncols() == c;
    for i in 0..r {
        for j in 0..c {
            let v = if (i, j) == (x, y) { g[i][j] ^ by } else { g[i][j] };
            let v = if kind == 2 { v } else { f2(g[i][j], v) };
            ok &= res.get((i, j)).map(|e| *e == v).unwrap_or(false);
        }
    }
    vt::check(ok, "the result depends on the storage order");
}
/// == on larger shapes: equal contents, or one position (any) that differs.
fn large_eq() {
    let (r, c, oa) = choose_large();
    let ob = choose_order("ob");
    let vals = sym_vals(r * c, "v");
    let g = grid(r, c, Order::RowMajor, &vals);
    let mem = |o: Order, d: usize, by: u8| {
        let v: Vec<u8> = (0..r * c)
            .map(|k| {
                let (i, j) = if o == Order::RowMajor { (k / c, k % c) } else { (k % r, k / r) };
                if i * c + j == d { g[i][j] as u8 ^ by } else { g[i][j] as u8 }
            })
            .collect();
        build(r, c, o, v)
    };
    let d = vt::choose(0, r * c - 1, "where");
    let by = vt::sym(8, "by") as u8;
    let (a, b) = (mem(oa, d, 0), mem(ob, d, by));
    let want = by == 0;
    vt::check((a == b) == want, "== does not mean equal contents");
    vt::check((b == a) == want, "== is not symmetric");
    vt::check((a != b) == !want, "!= is not the negation of ==");
    vt::cover(if want { "equal" } else { "unequal" });
    if d != 0 {
        return;
    }
    if r * c <= vt::tier(36, usize::MAX) {
        let v = vt::sym(8, "sought") as u8;
        // the differing element is not among them: one path per position of the first hit at most
        let mut has = false;
        for w in &g {
            for x in w {
                has |= *x as u8 == v;
            }
        }
        vt::check(a.contains(&v) == has, "contains");
    }
    let n = [(c, r), (r * c, 1), (1, r * c)][vt::choose(0, 2, "shape")];
    if n != (r, c) {
        let e = build(n.0, n.1, oa, vec![0u8; r * c]);
        let z = build(r, c, ob, vec![0u8; r * c]);
        vt::check(e != z && z != e, "matrices of different shapes compare equal");
    }
}
/// == against its definition.
fn eq<V: Copy + PartialEq + 'static>(max: usize, mut val: impl FnMut() -> V) {
    let (r, c, oa) = choose_state(max, max);
    let (p, q) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
    let ob = choose_order("ob");
    let va: Vec<V> = (0..r * c).map(|_| val()).collect();
    let vb: Vec<V> = (0..p * q).map(|_| val()).collect();
    let mut want = r == p && c == q;
    if want {
        for i in 0..r {
            for j in 0..c {
                want &= va[flat(r, c, oa, i, j)] == vb[flat(p, q, ob, i, j)];
            }
        }
    }
    let mut refl = true;
    for v in &va {
        refl &= *v == *v;
    }
    let (a, b) = (build(r, c, oa, va), build(p, q, ob, vb));
    vt::check((a == b) == want, "== does not mean equal contents");
    vt::check((b == a) == want, "== is not symmetric");
    vt::check((a != b) == !want, "!= is not the negation of ==");
    vt::check((a == a) == refl, "a matrix compared with itself");
    if want {
        vt::cover("equal");
    } else {
        vt::cover("unequal");
    }
}
/// Elements that are never, or always, equal (zero-sized).
#[derive(Clone, Copy)]
struct Never;
impl PartialEq for Never {
    fn eq(&self, _: &Never) -> bool {
        false
    }
}
/// Shapes with the same number of elements are not equal shapes.
fn thin() {
    let n = vt::sym_usize("n");
    vt::assume(n >= 2);
    let mut data: Vec<()> = Vec::new();
    unsafe { data.set_len(n) };
    let mut a = Matrix::from_row(data);
    let mut data: Vec<()> = Vec::new();
    unsafe { data.set_len(n) };
    let mut b = Matrix::from_col(data);
    if vt::choose_bool("oa") {
        a = {
            a.switch_order_without_rearrangement();
            a.transpose_free(n, 1)
        };
    }
    if vt::choose_bool("ob") {
        b = {
            b.switch_order_without_rearrangement();
            b.transpose_free(1, n)
        };
    }
    vt::check(a != b && b != a && !(a == b), "matrices of different shapes compare equal");
    vt::check(!a.is_elementwise_operation_conformable(&b), "different shapes are conformable");
    vt::check(a.elementwise_operation(&b, |_, _| ()).is_err(), "different shapes are conformable");
    vt::check(!a.is_square() && !b.is_square(), "square");
    vt::cover("different shapes");
}
trait Free {
    fn transpose_free(self, r: usize, c: usize) -> Self;
}
impl Free for Matrix<()> {
    /// to the transposed shape by reshaping (there is nothing to move)
    fn transpose_free(mut self, c: usize, r: usize) -> Self {
        self.reshape((r, c)).expect("pre-state");
        self
    }
}

harnesses! {
    fn h_c07_xl() { xl_eq() }
    fn h_c07_binary() { run_binary(vt::tier(3, 4)) }
    fn h_c07_unary() { run_unary(vt::tier(3, 4), 0, UNARY - 2) }
    fn h_c07_display() { run_unary(vt::tier(3, 4), UNARY - 1, UNARY - 1) }
    fn h_c07_eq_u64() { eq(vt::tier(3, 4), || vt::sym_u64("v")) }
    fn h_c07_eq_u8() { eq(vt::tier(3, 4), || vt::sym(8, "v") as u8) }
    fn h_c07_eq_f64() { eq(vt::tier(2, 3), || f64::from_bits(vt::sym_u64("v"))) }
    fn h_c07_eq_never() { eq(vt::tier(3, 4), || Never) }
    fn h_c07_eq_unit() { eq(vt::tier(3, 4), || ()) }
    fn h_c07_large_binary() { large_binary() }
    fn h_c07_large_unary() { large_unary() }
    fn h_c07_large_eq() { large_eq() }
    fn h_c07_thin() { thin() }
}
