//! C09: reshape and resize act on the memory-order sequence; failed in-place operations change
//! nothing (same elements, same places, by identity).
use crate::elem::{self, DEFAULT, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Order, Shape, WrappingIndex};

/// Everything observable about a matrix of tracked elements.
struct Snap {
    r: usize,
    c: usize,
    order: Order,
    ids: Vec<u32>,
    vals: Vec<u64>,
    born: usize,
    drops: usize,
}
fn snap(m: &Matrix<T>) -> Snap {
    Snap { r: m.nrows(), c: m.ncols(), order: m.order(), ids: m.iter_elements().map(|e| e.id).collect(), vals: memory(m), born: elem::born(), drops: elem::drops() }
}
fn unchanged(m: &Matrix<T>, s: &Snap) {
    vt::check(m.nrows() == s.r && m.ncols() == s.c, "a failed operation changed the shape");
    vt::check(m.order() == s.order, "a failed operation changed the order");
    vt::check(m.size() == s.ids.len(), "a failed operation changed the size");
    let mut ok = true;
    for (k, e) in m.iter_elements().enumerate() {
        ok &= e.ok() & (e.id == s.ids[k]) & (e.v == s.vals[k]);
    }
    vt::check(ok, "a failed operation changed an element");
    for i in 0..s.r {
        for j in 0..s.c {
            ok &= m.get((i, j)).map(|e| e.id == s.ids[flat(s.r, s.c, s.order, i, j)]).unwrap_or(false);
        }
    }
    vt::check(ok, "a failed operation moved an element");
    vt::check(elem::born() == s.born && elem::drops() == s.drops, "a failed operation created or dropped elements");
}
/// spare capacity of varying size
fn state(max: usize) -> (Matrix<T>, usize, usize, Order) {
    let (r, c, o) = choose_state(max, max);
    let extra = vt::choose(0, 1, "spare") * 3;
    let vals = sym_vals(r * c, "v");
    let mut data = Vec::with_capacity(r * c + extra);
    data.extend(vals.iter().map(|v| T::new(*v)));
    (build(r, c, o, data), r, c, o)
}
/// reshape to any pair of numbers
fn reshape(max: usize) {
    let (mut m, r, c, _) = state(max);
    let s = snap(&m);
    let (a, b) = (vt::sym_usize("rows2"), vt::sym_usize("cols2"));
    let fits = a as u128 * b as u128 == (r * c) as u128;
    let form = vt::choose(0, 2, "form");
    let res = match form {
        0 => m.reshape((a, b)).map(|_| ()),
        1 => m.reshape([a, b]).map(|_| ()),
        _ => m.reshape(Shape::new(a, b)).map(|_| ()),
    };
    match res {
        Ok(()) => {
            vt::check(fits, "reshape accepted another size");
            vt::check((m.nrows() == a) & (m.ncols() == b), "shape after reshape");
            vt::check(m.order() == s.order && m.size() == r * c, "order or size after reshape");
            let ok = m.iter_elements().enumerate().all(|(k, e)| e.ok() & (e.id == s.ids[k]) & (e.v == s.vals[k]));
            vt::check(ok, "reshape touched the memory-order sequence");
            vt::check(elem::born() == s.born && elem::drops() == s.drops, "reshape created or dropped elements");
            if r * c > 0 {
                // logical positions follow the sequence
                let (a, b) = (vt::split(a), vt::split(b));
                for i in 0..a {
                    for j in 0..b {
                        vt::check(m.get((i, j)).map(|e| e.id == s.ids[flat(a, b, s.order, i, j)]).unwrap_or(false), "position after reshape");
                    }
                }
                vt::cover("reshaped");
            } else {
                vt::check(m.get((0, 0)).is_err() & m.get(Index::new(a.wrapping_sub(1), b.wrapping_sub(1))).is_err(), "an empty matrix has an element");
                vt::cover("reshaped, no elements");
            }
        }
        Err(e) => {
            vt::check(!fits, "reshape rejected its own size");
            vt::check(e == Error::SizeMismatch, "reshape error");
            unchanged(&m, &s);
            vt::cover("rejected");
        }
    }
    drop(m);
    elem::check_no_leak();
}
fn check_resized(m: &Matrix<T>, s: &Snap, a: usize, b: usize) {
    let (old, new) = (s.ids.len(), a * b);
    vt::check(m.nrows() == a && m.ncols() == b && m.size() == new, "shape after resize");
    vt::check(m.order() == s.order, "order after resize");
    let mut ok = true;
    for (k, e) in m.iter_elements().enumerate() {
        ok &= e.ok();
        if k < old {
            ok &= (e.id == s.ids[k]) & (e.v == s.vals[k]);
        } else {
            ok &= (e.v == DEFAULT) & (e.id as usize >= s.born);
        }
    }
    vt::check(ok, "memory-order sequence after resize");
    for k in new..old {
        vt::check(!elem::is_live(s.ids[k]), "a surplus element was not dropped");
    }
    check_coherent(m);
}
/// resize between all shapes, twice
fn resize(max: usize, to: usize, n: usize) {
    let (mut m, _, _, _) = state(max);
    let others = elem::live() - m.size();
    vt::check(others == 0, "harness");
    for _ in 0..n {
        let s = snap(&m);
        let (a, b) = (vt::choose(0, to, "rows2"), vt::choose(0, to, "cols2"));
        vt::check(m.resize((a, b)).is_ok(), "resize fails");
        check_resized(&m, &s, a, b);
        vt::check(elem::live() == a * b, "elements leaked or duplicated by resize");
    }
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
    vt::cover("resized");
}
/// resize to a shape without elements of any extent, and to impossible shapes
fn resize_edge(max: usize) {
    let (mut m, _, _, o) = state(max);
    let s = snap(&m);
    let x = vt::sym_usize("extent");
    let kind = vt::choose(0, 2, "kind");
    if kind < 2 {
        let (a, b) = if kind == 0 { (x, 0) } else { (0, x) };
        vt::check(m.resize((a, b)).is_ok(), "resize to a shape without elements fails");
        vt::check((m.nrows() == a) & (m.ncols() == b) & (m.size() == 0), "shape after resize");
        vt::check(m.order() == o, "order after resize");
        vt::check(elem::live() == 0, "elements were not dropped");
        vt::check(m.get((0, 0)).is_err(), "an empty matrix has an element");
        vt::cover("resized");
    } else {
        let y = vt::sym_usize("extent2");
        let n = x as u128 * y as u128;
        let over = n > usize::MAX as u128;
        vt::assume(over | (n > (isize::MAX as usize / size_of::<T>()) as u128));
        vt::alloc_rule(false);
        match m.resize((x, y)) {
            Ok(_) => vt::check(false, "resize accepts an impossible size"),
            Err(e) => vt::check((e == Error::SizeOverflow) == over, "resize error"),
        }
        unchanged(&m, &s);
        vt::cover("rejected");
    }
    drop(m);
    elem::check_no_leak();
}
/// zero-sized elements with drop glue and counted defaults
struct Z;
static mut DROPS: usize = 0;
static mut MADE: usize = 0;
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
impl Default for Z {
    fn default() -> Z {
        unsafe { MADE += 1 }
        Z
    }
}
fn resize_zst(max: usize) {
    let (r, c, o) = choose_state(max, max);
    let mut m: Matrix<Z> = build(r, c, o, (0..r * c).map(|_| Z).collect());
    let (mut old, mut drops, mut made) = (r * c, 0, 0);
    for _ in 0..2 {
        let (a, b) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
        vt::check(m.resize((a, b)).is_ok(), "resize fails");
        let new = a * b;
        drops += old.saturating_sub(new);
        made += new.saturating_sub(old);
        vt::check(m.nrows() == a && m.ncols() == b && m.size() == new && m.order() == o, "shape or order after resize");
        vt::check(unsafe { DROPS } == drops, "elements dropped by resize");
        vt::check(unsafe { MADE } == made, "elements made by resize");
        old = new;
    }
    drop(m);
    vt::check(unsafe { DROPS } == drops + old, "elements dropped in the end");
    vt::cover("resized");
}
/// swaps with at least one bad index
fn bad_swap(max: usize) {
    let (mut m, r, c, _) = state(max);
    let s = snap(&m);
    let (a, b) = (vt::sym_usize("a"), vt::sym_usize("b"));
    let res = match vt::choose(0, 4, "op") {
        0 => {
            let (x, y) = (vt::sym_usize("x"), vt::sym_usize("y"));
            vt::assume((a >= r) | (b >= c) | (x >= r) | (y >= c));
            m.swap((a, b), Index::new(x, y)).map(|_| ())
        }
        1 => {
            vt::assume((a >= r) | (b >= r));
            m.swap_rows(a, b).map(|_| ())
        }
        2 => {
            vt::assume((a >= c) | (b >= c));
            m.swap_cols(a, b).map(|_| ())
        }
        3 => {
            // first index valid and of the wrapping kind, second out of range
            vt::assume((a >= r) | (b >= c));
            m.swap(WrappingIndex::new(vt::choose(0, 2, "p") as isize - 1, vt::choose(0, 2, "q") as isize - 1), [a, b]).map(|_| ())
        }
        _ => {
            vt::assume((a >= r) | (b >= c));
            m.swap([a, b], WrappingIndex::new(-1, 1)).map(|_| ())
        }
    };
    vt::check(res == Err(Error::IndexOutOfBounds), "a swap with an index out of range");
    unchanged(&m, &s);
    drop(m);
    elem::check_no_leak();
    vt::cover("rejected");
}
macro_rules! assign {
    ($($t:ident $f:ident $k:literal),*) => {$(
        impl std::ops::$t<T> for T {
            fn $f(&mut self, o: T) {
                self.v = f2(self.v, o.v) ^ $k;
            }
        }
    )*};
}
assign!(AddAssign add_assign 1, SubAssign sub_assign 2, MulAssign mul_assign 3, DivAssign div_assign 4, RemAssign rem_assign 5);
const ASSIGNS: usize = 10;
/// assigning elementwise operations on operands of different shapes
fn bad_assign(max: usize) {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    let (a, b) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
    vt::shard((r * 4 + c) * 16 + a * 4 + b);
    if (r, c) == (a, b) {
        return;
    }
    let (mut m, _) = tracked(r, c, choose_order("order"), "v");
    let (rhs, _) = tracked(a, b, choose_order("order2"), "w");
    let op = vt::choose(0, ASSIGNS - 1, "op");
    let (s, t) = (snap(&m), snap(&rhs));
    fn code(r: Result<&mut Matrix<T>, Error>) -> Option<Error> {
        r.err()
    }
    let mut calls = 0;
    let e = match op {
        0 => code(m.elementwise_operation_assign(&rhs, |x: &mut T, _| {
            calls += 1;
            x.v = 0
        })),
        1 => code(m.elementwise_add_assign(&rhs)),
        2 => code(m.elementwise_sub_assign(&rhs)),
        3 => code(m.elementwise_mul_assign(&rhs)),
        4 => code(m.elementwise_div_assign(&rhs)),
        5 => code(m.elementwise_rem_assign(&rhs)),
        6 => vt::catches(|| m += &rhs).err().map(|_| Error::ShapeNotConformable),
        7 => vt::catches(|| m -= &rhs).err().map(|_| Error::ShapeNotConformable),
        _ => {
            let drops = elem::drops();
            let res = vt::catches(|| if op == 8 { m += rhs } else { m -= rhs });
            vt::check(res.is_err(), "operands of different shapes are accepted");
            vt::check(elem::drops() == drops + a * b, "the owned right operand was not released");
            unchanged(&m, &Snap { drops: elem::drops(), ..s });
            drop(m);
            elem::check_no_leak();
            vt::cover("rejected");
            return;
        }
    };
    vt::check(calls == 0, "the closure was called");
    vt::check(e == Some(Error::ShapeNotConformable), "operands of different shapes are accepted");
    unchanged(&m, &s);
    unchanged(&rhs, &t);
    drop((m, rhs));
    elem::check_no_leak();
    vt::cover("rejected");
}
/// reshape / resize of plain elements of other sizes
fn plain_resize<E: Default + Copy + PartialEq + From<u8>>(max: usize) {
    let (r, c, o) = choose_state(max, max);
    let mut m: Matrix<E> = build(r, c, o, (0..r * c).map(|k| E::from(k as u8 + 1)).collect());
    let (a, b) = (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2"));
    vt::check(m.resize((a, b)).is_ok(), "resize fails");
    let ok = m.iter_elements().enumerate().all(|(k, e)| *e == if k < r * c { E::from(k as u8 + 1) } else { E::default() });
    vt::check(ok && m.size() == a * b && m.nrows() == a && m.ncols() == b && m.order() == o, "after resize");
    let (x, y) = (vt::choose(0, max, "rows3"), vt::choose(0, max, "cols3"));
    let res = m.reshape((x, y)).is_ok();
    vt::check(res == (x * y == a * b), "reshape");
    let ok = m.iter_elements().enumerate().all(|(k, e)| *e == if k < r * c { E::from(k as u8 + 1) } else { E::default() });
    let (x, y) = if res { (x, y) } else { (a, b) };
    vt::check(ok && m.size() == a * b && m.nrows() == x && m.ncols() == y && m.order() == o, "after reshape");
    vt::cover("resized");
}
/// Shrinking, then growing within the capacity that is left, elements without a destructor.
fn regrow<E: Default + Copy + PartialEq + From<u8> + 'static>(s: (usize, usize, Order), max: usize) {
    let (r, c, o) = s;
    let n = r * c;
    let spare = [0, 1, 9][vt::choose(0, 2, "spare")];
    let val = |k: usize| E::from((k % 250) as u8 + 1);
    let mut data: Vec<E> = Vec::with_capacity(n + spare);
    data.extend((0..n).map(val));
    let mut m = build(r, c, o, data);
    let mut kept = n;
    let listed = [(1, 1), (r, c), (r.saturating_sub(1), c), (r, c.saturating_sub(1)), (r + 1, c), (0, 3), (1, n + 9)];
    for _ in 0..2 {
        let (a, b) = if max > 0 { (vt::choose(0, max, "rows2"), vt::choose(0, max, "cols2")) } else { listed[vt::choose(0, listed.len() - 1, "to")] };
        if vt::choose_bool("clear") {
            m.clear();
            kept = 0;
        }
        vt::check(m.resize((a, b)).is_ok(), "resize fails");
        kept = kept.min(a * b);
        let ok = m.iter_elements().enumerate().all(|(k, e)| *e == if k < kept { val(k) } else { E::default() });
        vt::check(ok && m.size() == a * b && m.nrows() == a && m.ncols() == b && m.order() == o, "after resize");
    }
    vt::cover("resized");
}

/// Larger shapes: shrinking, growing and reinterpreting listed ones.
fn large() {
    let (r, c, o) = choose_large();
    let n = r * c;
    let extra = [0, 7, 64][vt::choose(0, 2, "spare")];
    let vals = sym_vals(n, "v");
    let mut data = Vec::with_capacity(n + extra);
    data.extend(vals.iter().map(|v| T::new(*v)));
    let mut m = build(r, c, o, data);
    let s = snap(&m);
    let to = [(c, r), (1, n), (n, 1), (r, c + 1), (r + 1, c), (r - 1, c), (r, c - 1), (1, 1), (0, 5), (2 * r, c), (r, c), (5, 7), (1, n - 1), (n + 1, 1)];
    let (a, b) = to[vt::choose(0, to.len() - 1, "to")];
    if vt::choose_bool("reshape") {
        let res = m.reshape((a, b)).map(|_| ());
        vt::check(res == if a * b == n { Ok(()) } else { Err(Error::SizeMismatch) }, "reshape");
        let t = Snap { r: if res.is_ok() { a } else { r }, c: if res.is_ok() { b } else { c }, ..s };
        unchanged(&m, &t);
    } else {
        vt::check(m.resize((a, b)).is_ok(), "resize fails");
        check_resized(&m, &s, a, b);
        vt::check(elem::live() == a * b, "elements leaked or duplicated by resize");
    }
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
    vt::cover("resized");
}

harnesses! {
    fn h_c09_reshape() { reshape(vt::tier(4, 6)) }
    fn h_c09_large() { large() }
    fn h_c09_resize() { resize(vt::tier(4, 5), vt::tier(5, 7), 1) }
    fn h_c09_twice() { resize(vt::tier(2, 3), vt::tier(3, 4), 2) }
    fn h_c09_edge() { resize_edge(vt::tier(3, 4)) }
    fn h_c09_zst() { resize_zst(vt::tier(3, 4)) }
    fn h_c09_swap() { bad_swap(vt::tier(3, 4)) }
    fn h_c09_assign() { bad_assign(vt::tier(2, 3)) }
    fn h_c09_regrow() { if vt::choose_bool("wide") { regrow::<u64>(choose_state(3, 3), vt::tier(3, 4)) } else { regrow::<u8>(choose_state(vt::tier(2, 3), 3), vt::tier(3, 4)) } }
    fn h_c09_xl() { xl(); regrow::<u32>(choose_large(), 0) }
    fn h_c09_regrow_large() { if vt::choose_bool("wide") { regrow::<u32>(choose_large(), 0) } else { regrow::<u8>(choose_large(), 0) } }
    fn h_c09_u8() { plain_resize::<u8>(vt::tier(3, 5)) }
    fn h_c09_u64() { plain_resize::<u64>(vt::tier(3, 5)) }
}
