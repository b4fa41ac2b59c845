//! C04: checked indexing for every 64-bit index pair, every public index type, and index types whose
//! accessors answer arbitrarily.
use crate::c03::{zst, El};
use crate::elem::T;
use crate::util::*;
use crate::vt;
use matreex::index::AsIndex;
use matreex::{Error, Index, Matrix, Order};
use std::cell::RefCell;

fn oob<X>(r: &Result<X, Error>) -> bool {
    matches!(r, Err(Error::IndexOutOfBounds))
}
/// The ways to look an element up; the result is its address, or how the call failed.
enum Got {
    At(usize),
    Error(bool),
    Panic,
}
const FORMS: usize = 4;
fn lookup<E, I: matreex::index::MatrixIndex<E, Output = E>>(m: &mut Matrix<E>, form: usize, i: I) -> Got {
    match form {
        0 => match m.get(i) {
            Ok(e) => Got::At(e as *const E as usize),
            Err(e) => Got::Error(e == Error::IndexOutOfBounds),
        },
        1 => match m.get_mut(i) {
            Ok(e) => Got::At(e as *mut E as usize),
            Err(e) => Got::Error(e == Error::IndexOutOfBounds),
        },
        2 => match vt::catches(|| &m[i] as *const E as usize) {
            Ok(a) => Got::At(a),
            Err(()) => Got::Panic,
        },
        _ => match vt::catches(|| &mut m[i] as *mut E as usize) {
            Ok(a) => Got::At(a),
            Err(()) => Got::Panic,
        },
    }
}
fn base<E>(m: &Matrix<E>) -> usize {
    m.iter_elements().next().map(|e| e as *const E as usize).unwrap_or(0)
}
fn judge(form: usize, got: Got, valid: bool, addr: usize) {
    match got {
        Got::At(a) => {
            vt::check(valid, "an out-of-bounds index was accepted");
            vt::check(a == addr, "the reference is not the element at (row, col)");
            vt::cover("element found");
        }
        Got::Error(right) => {
            vt::check(!valid, "an in-bounds index was rejected");
            vt::check(right & (form < 2), "the error is not IndexOutOfBounds");
            vt::cover("error");
        }
        Got::Panic => {
            vt::check(!valid, "[] panics for an in-bounds index");
            vt::check(form >= 2, "get panics");
            vt::cover("panic");
        }
    }
}
fn exact<E: El>((r, c, order): (usize, usize, Order)) {
    let mut m: Matrix<E> = build(r, c, order, (0..r * c).map(|k| E::make(k as u64)).collect());
    let (i, j) = (vt::sym_usize("row"), vt::sym_usize("col"));
    let form = vt::choose(0, FORMS - 1, "form");
    let ty = vt::choose(0, 2, "type");
    let valid = (i < r) & (j < c);
    let b = base(&m);
    let addr = b.wrapping_add(flat(r, c, order, i, j).wrapping_mul(size_of::<E>()));
    let got = match ty {
        0 => lookup(&mut m, form, Index::new(i, j)),
        1 => lookup(&mut m, form, (i, j)),
        _ => lookup(&mut m, form, [i, j]),
    };
    judge(form, got, valid, if size_of::<E>() == 0 { b } else { addr });
    vt::check(m.nrows() == r && m.ncols() == c && m.order() == order, "indexing changed the matrix");
}
/// The contents seen and replaced through an index, with destructors.
fn contents(max: usize) {
    let (r, c, order) = choose_state(max, max);
    let (mut m, mut g) = tracked(r, c, order, "v");
    let (i, j) = (vt::sym_usize("row"), vt::sym_usize("col"));
    let valid = (i < r) & (j < c);
    let n = vt::sym_u64("n");
    let res = m.get_mut(Index::new(i, j));
    vt::check(res.is_ok() == valid, "get_mut: Ok iff in bounds");
    if let Ok(e) = res {
        let (i, j) = (vt::split(i), vt::split(j));
        vt::check(e.v == g[i][j], "get_mut: wrong element");
        *e = T::new(n);
        g[i][j] = n;
        vt::check(m[(i, j)].v == n, "[]: wrong element");
        vt::cover("element replaced");
    } else {
        vt::check(oob(&res), "get_mut: error");
    }
    vt::check(same(&m, r, c, &g), "another element changed");
    observe_matrix(&m);
    drop(m);
    crate::elem::check_no_leak();
}

/// An index whose accessors answer whatever they like, each time anew.
struct Liar {
    rows: RefCell<Vec<usize>>,
    cols: RefCell<Vec<usize>>,
}
impl AsIndex for &Liar {
    fn row(&self) -> usize {
        let x = vt::sym_usize("row");
        self.rows.borrow_mut().push(x);
        x
    }
    fn col(&self) -> usize {
        let x = vt::sym_usize("col");
        self.cols.borrow_mut().push(x);
        x
    }
}
fn liar(max: usize) {
    let (r, c, order) = choose_state(max, max);
    let mut m: Matrix<u64> = build(r, c, order, (0..r * c).map(|k| k as u64).collect());
    let form = vt::choose(0, FORMS - 1, "form");
    let l = Liar { rows: RefCell::new(Vec::new()), cols: RefCell::new(Vec::new()) };
    let b = base(&m);
    let got = lookup(&mut m, form, &l);
    let (rows, cols) = (l.rows.borrow(), l.cols.borrow());
    match got {
        Got::At(a) => {
            // one of the answered positions, in bounds
            let mut ok = false;
            for i in rows.iter() {
                for j in cols.iter() {
                    let addr = b.wrapping_add(flat(r, c, order, *i, *j).wrapping_mul(8));
                    ok |= (*i < r) & (*j < c) & (a == addr);
                }
            }
            vt::check(ok, "inconsistent accessor: the reference is not an answered in-bounds position");
            vt::cover("element found");
        }
        Got::Error(_) | Got::Panic => {
            let mut bad = false;
            for i in rows.iter() {
                bad |= *i >= r;
            }
            for j in cols.iter() {
                bad |= *j >= c;
            }
            vt::check(bad, "inconsistent accessor: rejected although every answer is in bounds");
            if let Got::Error(right) = got {
                vt::check(right, "inconsistent accessor: error");
            }
            vt::cover("rejected");
        }
    }
}
/// Swap takes index types too: an inconsistent accessor must not reach outside.
fn liar_swap(max: usize) {
    let (r, c, order) = choose_state(max, max);
    let (mut m, g) = tracked(r, c, order, "v");
    let a = Liar { rows: RefCell::new(Vec::new()), cols: RefCell::new(Vec::new()) };
    let b = Liar { rows: RefCell::new(Vec::new()), cols: RefCell::new(Vec::new()) };
    if m.swap(&a, &b).is_ok() {
        vt::cover("swapped");
        let mut left: Vec<u64> = memory(&m);
        // still the same elements: the sums over all payload bits agree
        let (mut s, mut t) = (0u64, 0u64);
        for v in left.drain(..) {
            s = s.wrapping_add(v);
        }
        for row in &g {
            for v in row {
                t = t.wrapping_add(*v);
            }
        }
        vt::check(s == t, "swap lost an element");
    } else {
        vt::check(same(&m, r, c, &g), "failed swap changed the matrix");
        vt::cover("not swapped");
    }
    check_coherent(&m);
    drop(m);
    crate::elem::check_no_leak();
}
/// Zero-sized elements: one extent is any 64-bit number.
fn thin(max: usize) {
    let s = vt::choose(0, max, "short");
    vt::shard(s);
    let l = vt::sym_usize("long");
    if s > 0 {
        vt::assume(l <= usize::MAX / s);
    }
    let flip = vt::choose_bool("flip");
    let order = choose_order("order");
    let (r, c) = if flip { (l, s) } else { (s, l) };
    let mut m: Matrix<()> = zst(r.wrapping_mul(c), r, c, order);
    let (i, j) = (vt::sym_usize("row"), vt::sym_usize("col"));
    let form = vt::choose(0, FORMS - 1, "form");
    let valid = (i < r) & (j < c);
    let b = base(&m);
    let got = lookup(&mut m, form, Index::new(i, j));
    judge(form, got, valid, b);
    std::mem::forget(m);
}
fn corners() -> Order {
    choose_order("order")
}
/// Zero-sized elements, both extents extreme.
fn huge() {
    const M: usize = usize::MAX;
    const P: &[(usize, usize)] = &[(1 << 32, (1 << 32) - 1), ((1 << 32) - 1, 1 << 32), (1 << 63, 1), (1, M), (M, 1), (3, M / 3), (M / 3, 3), (M / 2, 2), (0, M), (M, 0)];
    let k = vt::choose(0, P.len() - 1, "pair");
    vt::shard(k);
    let (r, c) = P[k];
    let order = corners();
    let mut m: Matrix<()> = zst(r * c, r, c, order);
    let (i, j) = (vt::sym_usize("row"), vt::sym_usize("col"));
    let form = vt::choose(0, FORMS - 1, "form");
    let valid = (i < r) & (j < c);
    let b = base(&m);
    let got = lookup(&mut m, form, (i, j));
    judge(form, got, valid, b);
    std::mem::forget(m);
}

harnesses! {
    fn h_c04_u64() { exact::<u32>(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c04_large() { exact::<u64>(choose_large()) }
    fn h_c04_xl() { xl(); exact::<u64>(choose_large()) }
    fn h_c04_large_b3() { exact::<[u8; 3]>(choose_large()) }
    fn h_c04_b3() { exact::<[u8; 3]>(choose_state(vt::tier(3, 5), vt::tier(3, 5))) }
    fn h_c04_w3() { exact::<[u64; 3]>(choose_state(vt::tier(3, 5), vt::tier(3, 5))) }
    fn h_c04_zst() { exact::<()>(choose_state(vt::tier(3, 5), vt::tier(3, 5))) }
    fn h_c04_contents() { contents(vt::tier(3, 4)) }
    fn h_c04_liar() { liar(vt::tier(3, 5)) }
    fn h_c04_liar_swap() { liar_swap(vt::tier(2, 3)) }
    fn h_c04_thin() { thin(vt::tier(3, 5)) }
    fn h_c04_huge() { huge() }
}
