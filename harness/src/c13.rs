//! C13: wrapping indices.  Every isize x is q * n + k for exactly one k in 0..n; the expected
//! position is k by construction.
use crate::c03::zst;
use crate::util::*;
use crate::vt;
use matreex::{Error, Matrix, WrappingIndex};

/// Any isize congruent to k modulo n.
fn congruent(n: usize, k: usize, name: &str) -> isize {
    let (n, k) = (n as i128, k as i128);
    let q = vt::sym_u64(name) as isize;
    let lo = -((-(isize::MIN as i128) + k) / n);
    let hi = (isize::MAX as i128 - k) / n;
    vt::assume((q >= lo as isize) & (q <= hi as isize));
    q.wrapping_mul(n as isize).wrapping_add(k as isize)
}
fn at<E>(m: &mut Matrix<E>, form: usize, i: WrappingIndex) -> Result<usize, bool> {
    match form {
        0 => m.get(i).map(|e| e as *const E as usize).map_err(|e| e == Error::IndexOutOfBounds),
        1 => m.get_mut(i).map(|e| e as *mut E as usize).map_err(|e| e == Error::IndexOutOfBounds),
        2 => vt::catches(|| &m[i] as *const E as usize).map_err(|_| true),
        3 => vt::catches(|| &mut m[i] as *mut E as usize).map_err(|_| true),
        4 => vt::catches(|| unsafe { m.get_unchecked(i) as *const E as usize }).map_err(|_| true),
        _ => vt::catches(|| unsafe { m.get_unchecked_mut(i) as *mut E as usize }).map_err(|_| true),
    }
}
fn rows(rmax: usize, cmax: usize, lo: usize) {
    let (r, c) = (vt::choose(lo, rmax, "rows"), vt::choose(1, cmax, "cols"));
    let order = choose_order("order");
    let (i, j) = (vt::choose(0, r - 1, "i"), vt::choose(0, c - 1, "j"));
    vt::shard(r * 7 + c * 3 + i + j);
    let mut m: Matrix<u64> = build(r, c, order, (0..r * c).map(|k| k as u64).collect());
    let b = m.iter_elements().next().unwrap() as *const u64 as usize;
    let form = vt::choose(0, 5, "form");
    let (x, y) = (congruent(r, i, "x"), congruent(c, j, "y"));
    match at(&mut m, form, WrappingIndex::new(x, y)) {
        Ok(a) => vt::check(a == b + flat(r, c, order, i, j) * 8, "not the element at the Euclidean remainder position"),
        Err(_) => vt::check(false, "a wrapping index fails on a non-empty matrix"),
    }
    vt::cover("element found");
}
/// Larger shapes: any index congruent to a corner, the middle or an edge.
fn large() {
    let (r, c, order) = choose_large();
    let (i, j) = (choose_end(r - 1, "i"), choose_end(c - 1, "j"));
    let mut m: Matrix<u64> = build(r, c, order, (0..r * c).map(|k| k as u64).collect());
    let b = m.iter_elements().next().unwrap() as *const u64 as usize;
    let form = vt::choose(0, 5, "form");
    let (x, y) = (congruent(r, i, "x"), congruent(c, j, "y"));
    match at(&mut m, form, WrappingIndex::new(x, y)) {
        Ok(a) => vt::check(a == b + flat(r, c, order, i, j) * 8, "not the element at the Euclidean remainder position"),
        Err(_) => vt::check(false, "a wrapping index fails on a non-empty matrix"),
    }
    vt::cover("element found");
}
fn empty(max: usize) {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    vt::assume(r * c == 0);
    let order = choose_order("order");
    let mut m: Matrix<u64> = build(r, c, order, Vec::new());
    let form = vt::choose(0, 5, "form");
    let i = WrappingIndex::new(vt::sym_usize("x") as isize, vt::sym_usize("y") as isize);
    match at(&mut m, form, i) {
        Ok(_) => vt::check(false, "a wrapping index resolves on a matrix without elements"),
        Err(right) => vt::check(right, "error is not IndexOutOfBounds"),
    }
    vt::cover("no element");
}
/// The same for swap and for zero-sized elements with one extent near the limits.
fn huge() {
    const M: usize = usize::MAX;
    const P: &[(usize, usize)] = &[(1, M), (M, 1), (1 << 63, 1), (1, 1 << 63), (isize::MAX as usize, 2), (2, isize::MAX as usize), ((1 << 63) + 1, 1), (1 << 32, (1 << 32) - 1)];
    let k = vt::choose(0, P.len() - 1, "pair");
    vt::shard(k);
    let (r, c) = P[k];
    let order = choose_order("order");
    let mut m: Matrix<()> = zst(r * c, r, c, order);
    let form = vt::choose(0, 5, "form");
    let i = WrappingIndex::new(vt::sym_usize("x") as isize, vt::sym_usize("y") as isize);
    vt::check(at(&mut m, form, i).is_ok(), "a wrapping index fails on a non-empty matrix");
    vt::cover("huge matrix");
    std::mem::forget(m);
}
fn swaps(max: usize) {
    let (r, c) = (vt::choose(1, max, "rows"), vt::choose(1, max, "cols"));
    let order = choose_order("order");
    let (i, j) = (vt::choose(0, r - 1, "i"), vt::choose(0, c - 1, "j"));
    vt::shard(r * 7 + c * 3 + i + j);
    let (mut m, mut g) = tracked(r, c, order, "v");
    let (x, y) = (congruent(r, i, "x"), congruent(c, j, "y"));
    let res = m.swap(WrappingIndex::new(x, y), (0usize, 0usize));
    vt::check(res.is_ok(), "swap through a wrapping index fails");
    let t = g[i][j];
    g[i][j] = g[0][0];
    g[0][0] = t;
    vt::check(same(&m, r, c, &g), "swap through a wrapping index");
    observe_matrix(&m);
    vt::cover("swap");
}

harnesses! {
    fn h_c13_small() { rows(vt::tier(5, 8), vt::tier(3, 8), 1) }
    fn h_c13_long() { rows(vt::tier(13, 24), 1, vt::tier(6, 9)) }
    fn h_c13_large() { large() }
    fn h_c13_xl() { xl(); large() }
    fn h_c13_empty() { empty(vt::tier(3, 5)) }
    fn h_c13_huge() { huge() }
    fn h_c13_swap() { swaps(vt::tier(2, 3)) }
}
