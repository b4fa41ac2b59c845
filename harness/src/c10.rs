//! C10: swaps.
use crate::elem;
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Order, WrappingIndex};

fn oob<X>(r: &Result<X, Error>) -> bool {
    matches!(r, Err(Error::IndexOutOfBounds))
}
fn elements((r, c, order): (usize, usize, Order)) {
    let (mut m, mut g) = tracked(r, c, order, "v");
    let (i0, i1, j0, j1) = (vt::sym_usize("i0"), vt::sym_usize("i1"), vt::sym_usize("j0"), vt::sym_usize("j1"));
    let (born, drops) = (elem::born(), elem::drops());
    let res = m.swap((i0, i1), (j0, j1));
    let valid = (i0 < r) & (i1 < c) & (j0 < r) & (j1 < c);
    vt::check(res.is_ok() == valid, "swap: Ok iff both indices are in bounds");
    vt::check(valid | oob(&res), "swap: error is IndexOutOfBounds");
    if valid {
        vt::cover("swap of two elements");
        let (i0, i1, j0, j1) = (vt::split(i0), vt::split(i1), vt::split(j0), vt::split(j1));
        let t = g[i0][i1];
        g[i0][i1] = g[j0][j1];
        g[j0][j1] = t;
    } else {
        vt::cover("swap out of bounds");
    }
    finish(m, r, c, order, g, born, drops);
}
fn finish(m: Matrix<elem::T>, r: usize, c: usize, order: matreex::Order, g: Vec<Vec<u64>>, born: usize, drops: usize) {
    vt::check(m.order() == order, "order changed");
    vt::check(same(&m, r, c, &g), "contents after the call");
    vt::check(elem::born() == born && elem::drops() == drops, "an element was cloned or dropped");
    check_coherent(&m);
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
}
fn vectors(rows: bool, (r, c, order): (usize, usize, Order), all: bool) {
    let (mut m, mut g) = tracked(r, c, order, "v");
    let n = if rows { r } else { c };
    let b = vt::sym_usize("b");
    let a = if all { vt::sym_usize("a") } else { choose_end(n, "a") };
    let (a, b) = if !all && vt::choose_bool("flip") { (b, a) } else { (a, b) };
    let (born, drops) = (elem::born(), elem::drops());
    let res = if rows { m.swap_rows(a, b).map(|_| ()) } else { m.swap_cols(a, b).map(|_| ()) };
    let valid = (a < n) & (b < n);
    vt::check(res.is_ok() == valid, "swap_rows/swap_cols: Ok iff both numbers are in bounds");
    vt::check(valid | oob(&res), "swap_rows/swap_cols: error is IndexOutOfBounds");
    if valid {
        vt::cover("vector swap");
        let (a, b) = (vt::split(a), vt::split(b));
        if a == b {
            vt::cover("vector swap with itself");
        }
        if rows {
            g.swap(a, b);
        } else {
            for row in g.iter_mut() {
                row.swap(a, b);
            }
        }
    } else {
        vt::cover("vector swap out of bounds");
    }
    finish(m, r, c, order, g, born, drops);
}

/// Larger shapes: any row or column against the first, second, middle and last one.
fn large() {
    let s = choose_large();
    match vt::choose(0, 2, "what") {
        0 => vectors(true, s, false),
        1 => vectors(false, s, false),
        _ => {
            let (r, c, order) = s;
            let (mut m, mut g) = tracked(r, c, order, "v");
            let (i, j) = ((choose_end(r, "i0"), choose_end(c, "i1")), (choose_end(r, "j0"), choose_end(c, "j1")));
            let (born, drops) = (elem::born(), elem::drops());
            let valid = i.0 < r && i.1 < c && j.0 < r && j.1 < c;
            vt::check(m.swap(i, j).is_ok() == valid, "swap: Ok iff both indices are in bounds");
            if valid {
                let t = g[i.0][i.1];
                g[i.0][i.1] = g[j.0][j.1];
                g[j.0][j.1] = t;
            }
            finish(m, r, c, order, g, born, drops);
        }
    }
}
/// Far larger shapes.
fn far() {
    xl();
    let (r, c, order) = choose_large();
    let (mut m, mut g) = plain(r, c, order, "v");
    let what = vt::choose(0, 2, "what");
    if what == 0 {
        let (i, j) = ((choose_end(r - 1, "i0"), choose_end(c - 1, "i1")), (choose_end(r - 1, "j0"), c / 3));
        vt::check(m.swap(i, j).is_ok(), "swap: Ok iff both indices are in bounds");
        let t = g[i.0][i.1];
        g[i.0][i.1] = g[j.0][j.1];
        g[j.0][j.1] = t;
    } else {
        let n = if what == 1 { r } else { c };
        let (a, b) = (choose_end(n, "a"), choose_end(n, "b"));
        let res = if what == 1 { m.swap_rows(a, b).is_ok() } else { m.swap_cols(a, b).is_ok() };
        vt::check(res == (a < n && b < n), "swap_rows/swap_cols: Ok iff both numbers are in bounds");
        if res && what == 1 {
            g.swap(a, b);
        } else if res {
            g.iter_mut().for_each(|row| row.swap(a, b));
        }
    }
    vt::check(m.order() == order && same(&m, r, c, &g), "contents after the call");
    vt::cover("swapped");
}
/// Elements of other sizes.
fn sizes<E: crate::c03::El>((r, c, order): (usize, usize, Order)) {
    let mk = |k: usize| {
        let mut e = E::make(0);
        e.mark(k as u64 + 1);
        e
    };
    let mut m: Matrix<E> = build(r, c, order, (0..r * c).map(mk).collect());
    let mut want: Vec<Vec<usize>> = (0..r).map(|i| (0..c).map(|j| flat(r, c, order, i, j) + 1).collect()).collect();
    for _ in 0..vt::tier(1, 2) {
        let what = vt::choose(0, 2, "what");
        match what {
            0 => {
                let (i, j) = ((vt::choose(0, r, "i0"), choose_end(c, "i1")), (choose_end(r, "j0"), vt::choose(0, c, "j1")));
                let valid = i.0 < r && i.1 < c && j.0 < r && j.1 < c;
                vt::check(m.swap(i, j).is_ok() == valid, "swap: Ok iff both indices are in bounds");
                if valid {
                    let t = want[i.0][i.1];
                    want[i.0][i.1] = want[j.0][j.1];
                    want[j.0][j.1] = t;
                }
            }
            _ => {
                let n = if what == 1 { r } else { c };
                let (a, b) = (vt::choose(0, n, "a"), vt::choose(0, n, "b"));
                let res = if what == 1 { m.swap_rows(a, b).is_ok() } else { m.swap_cols(a, b).is_ok() };
                vt::check(res == (a < n && b < n), "swap_rows/swap_cols: Ok iff both numbers are in bounds");
                if res && what == 1 {
                    want.swap(a, b);
                } else if res {
                    want.iter_mut().for_each(|row| row.swap(a, b));
                }
            }
        }
    }
    let mut ok = m.nrows() == r && m.ncols() == c && m.order() == order;
    for i in 0..r {
        for j in 0..c {
            ok &= m.get((i, j)).map(|e| e.marked(want[i][j] as u64)).unwrap_or(false);
        }
    }
    vt::check(ok, "contents after the call");
    vt::cover("swapped");
}
/// Index types may differ between the two positions.
fn mixed((r, c, order): (usize, usize, Order)) {
    let (mut m, mut g) = tracked(r, c, order, "v");
    let (i, j) = ((vt::choose(0, r, "i0"), vt::choose(0, c, "i1")), (vt::choose(0, r, "j0"), vt::choose(0, c, "j1")));
    let (born, drops) = (elem::born(), elem::drops());
    let w = WrappingIndex::new(j.0 as isize - r as isize, j.1 as isize - c as isize);
    let kind = vt::choose(0, 5, "kind");
    let res = match kind {
        0 => m.swap([i.0, i.1], Index::new(j.0, j.1)),
        1 => m.swap(Index::new(i.0, i.1), (j.0, j.1)),
        2 => m.swap((i.0, i.1), [j.0, j.1]),
        3 => m.swap(Index::new(i.0, i.1), w),
        4 => m.swap(w, [i.0, i.1]),
        _ => m.swap(w, w),
    }
    .map(|_| ());
    let fine = |x: (usize, usize)| x.0 < r && x.1 < c;
    let around = r * c > 0;
    let valid = match kind {
        0 | 1 | 2 => fine(i) && fine(j),
        3 | 4 => fine(i) && around,
        _ => around,
    };
    vt::check(res.is_ok() == valid, "swap: Ok iff both indices are in bounds");
    vt::check(valid | oob(&res), "swap: error is IndexOutOfBounds");
    if valid {
        let j = if kind >= 3 { (j.0 % r, j.1 % c) } else { j };
        let i = if kind == 5 { j } else { i };
        let t = g[i.0][i.1];
        g[i.0][i.1] = g[j.0][j.1];
        g[j.0][j.1] = t;
        vt::cover("swap of two elements");
    }
    finish(m, r, c, order, g, born, drops);
}

harnesses! {
    fn h_c10_types() {
        let n = vt::tier(3, 4);
        let s = choose_state(n, n);
        match vt::choose(0, 5, "type") {
            0 => sizes::<u8>(s),
            1 => sizes::<u16>(s),
            2 => sizes::<[u8; 3]>(s),
            3 => sizes::<u128>(s),
            4 => sizes::<crate::c03::Big>(s),
            _ => sizes::<()>(s),
        }
    }
    fn h_c10_mixed() { mixed(choose_state(vt::tier(3, 4), vt::tier(3, 4))) }
    fn h_c10_swap() { elements(choose_state(vt::tier(3, 4), vt::tier(3, 4))) }
    fn h_c10_rows() { vectors(true, choose_state(vt::tier(4, 5), vt::tier(4, 5)), true) }
    fn h_c10_cols() { vectors(false, choose_state(vt::tier(4, 5), vt::tier(4, 5)), true) }
    fn h_c10_xl() { far() }
    fn h_c10_large() { large() }
}
