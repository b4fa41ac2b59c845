//! C14: overwrite copies exactly the overlapping top-left block, by cloning.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Matrix, Order};

fn run((r, c, order): (usize, usize, Order), (a, b): (usize, usize)) {
    let so = choose_order("sorder");
    let (mut m, g) = tracked(r, c, order, "v");
    let (src, sg) = tracked(a, b, so, "w");
    let ids: Vec<u32> = m.iter_elements().map(|e| e.id).collect();
    let sids: Vec<u32> = src.iter_elements().map(|e| e.id).collect();
    let (born, clones, drops) = (elem::born(), elem::clones(), elem::drops());
    let (mr, mc) = (r.min(a), c.min(b));
    m.overwrite(&src);
    let mut ok = m.nrows() == r && m.ncols() == c && m.order() == order;
    vt::check(ok, "shape or order changed");
    for i in 0..r {
        for j in 0..c {
            let e = match m.get((i, j)) {
                Ok(e) => e,
                Err(_) => {
                    vt::check(false, "element unreachable");
                    return;
                }
            };
            let old = ids[flat(r, c, order, i, j)];
            if i < mr && j < mc {
                ok &= e.ok() & (e.v == sg[i][j]) & (e.id != sids[flat(a, b, so, i, j)]);
            } else {
                // untouched, not even replaced by a copy of itself
                ok &= e.ok() & (e.v == g[i][j]) & (e.id == old);
            }
        }
    }
    vt::check(ok, "contents of the destination");
    let mut ok = src.nrows() == a && src.ncols() == b && src.order() == so;
    for (k, e) in src.iter_elements().enumerate() {
        ok &= e.ok() & (e.id == sids[k]);
    }
    vt::check(ok && same(&src, a, b, &sg), "the source changed");
    vt::check(elem::clones() - clones >= mr * mc, "an element was moved instead of cloned");
    vt::check(elem::live() == r * c + a * b, "elements leaked or duplicated");
    let _ = (born, drops);
    check_coherent(&m);
    observe_matrix(&m);
    drop(m);
    check_coherent(&src);
    drop(src);
    elem::check_no_leak();
    vt::cover(if mr * mc > 0 { "block copied" } else { "nothing to copy" });
}
fn plainrun<E: Clone + PartialEq + crate::c03::El>(dmax: usize, smax: usize) {
    let (r, c, order) = choose_state(dmax, dmax);
    let (a, b) = (vt::choose(0, smax, "srows"), vt::choose(0, smax, "scols"));
    let so = choose_order("sorder");
    let mk = |k: usize| {
        let mut e = E::make(0);
        e.mark(k as u64);
        e
    };
    let mut m: Matrix<E> = build(r, c, order, (0..r * c).map(|k| mk(k + 1)).collect());
    let src: Matrix<E> = build(a, b, so, (0..a * b).map(|k| mk(k + 101)).collect());
    m.overwrite(&src);
    let mut ok = m.nrows() == r && m.ncols() == c && m.order() == order;
    for i in 0..r {
        for j in 0..c {
            let want = if i < a && j < b { flat(a, b, so, i, j) + 101 } else { flat(r, c, order, i, j) + 1 };
            ok &= m.get((i, j)).map(|e| e.marked(want as u64)).unwrap_or(false);
        }
    }
    vt::check(ok, "contents of the destination");
    vt::cover("copied");
}
/// Overwriting twice, and a matrix with a copy of itself.
fn twice(max: usize) {
    let (r, c, order) = choose_state(max, max);
    let (mut m, _g) = tracked(r, c, order, "v");
    let mut want: Vec<Vec<u64>> = grid(r, c, order, &memory(&m));
    for k in 0..2 {
        let (a, b) = (vt::choose(0, max, "srows"), vt::choose(0, max, "scols"));
        let (src, sg) = tracked(a, b, choose_order("sorder"), "w");
        m.overwrite(&src);
        for i in 0..r.min(a) {
            for j in 0..c.min(b) {
                want[i][j] = sg[i][j];
            }
        }
        vt::check(same(&m, r, c, &want), "contents after overwriting");
        if k == 0 && vt::choose_bool("self") {
            let mut s = m.clone();
            s.switch_order();
            m.overwrite(&s);
            vt::check(same(&m, r, c, &want), "overwriting with an equal matrix changed the contents");
        }
    }
    vt::check(m.order() == order, "order");
    drop(m);
    elem::check_no_leak();
    vt::cover("twice");
}
#[allow(dead_code)]
fn t(_: T) {}

/// Far larger shapes.
fn far() {
    xl();
    let (r, c, order) = choose_large();
    let (a, b) = [(r, c), (r + 1, c - c.min(2) + 1), (r - r.min(2) + 1, c + 1), (33, 20), (c, r), (1100, 1), (1, 1100)][vt::choose(0, 6, "source")];
    let so = choose_order("sorder");
    let (mut m, mut g) = plain(r, c, order, "v");
    let (src, sg) = plain(a, b, so, "w");
    m.overwrite(&src);
    for i in 0..r.min(a) {
        for j in 0..c.min(b) {
            g[i][j] = sg[i][j];
        }
    }
    vt::check(m.order() == order && same(&m, r, c, &g), "contents of the destination");
    vt::check(src.order() == so && same(&src, a, b, &sg), "the source changed");
    vt::cover("copied");
}

harnesses! {
    fn h_c14_xl() { far() }
    fn h_c14_block() {
        let n = vt::tier(5, 7);
        run(choose_state(vt::tier(5, 6), vt::tier(5, 6)), (vt::choose(0, n, "srows"), vt::choose(0, n, "scols")))
    }
    fn h_c14_large() {
        let (r, c, o) = choose_large();
        // sources: any of the listed shapes, and neighbours of the destination
        let n = LARGES - 1;
        let k = vt::choose(0, n + 4, "source");
        run((r, c, o), if k <= n { LARGE[k] } else { [(r, c), (r + 1, c), (r, c + 1), (r - 1, c + 1)][k - n - 1] })
    }
    fn h_c14_u8() { plainrun::<u8>(vt::tier(5, 7), vt::tier(5, 7)) }
    fn h_c14_w3() { plainrun::<[u64; 3]>(vt::tier(3, 5), vt::tier(4, 6)) }
    fn h_c14_types() {
        let n = vt::tier(3, 5);
        match vt::choose(0, 2, "type") {
            0 => plainrun::<u16>(n, n),
            1 => plainrun::<u128>(n, n),
            _ => plainrun::<crate::c03::Big>(n, n),
        }
    }
    fn h_c14_unit() { plainrun::<()>(vt::tier(3, 5), vt::tier(4, 6)) }
    fn h_c14_twice() { twice(vt::tier(2, 3)) }
}
