//! C05: transposition and order changes against the transposed reference, by identity of elements.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Matrix, Order};

const KINDS: usize = 7;
/// Apply operation `op`; `mem` is the memory-order sequence of whatever identifies the elements.
fn apply<E>(m: &mut Matrix<E>, r: &mut usize, c: &mut usize, o: &mut Order, g: &mut Vec<Vec<u64>>, op: usize) {
    let transpose = |g: &Vec<Vec<u64>>, r: usize, c: usize| -> Vec<Vec<u64>> { (0..c).map(|j| (0..r).map(|i| g[i][j]).collect()).collect() };
    match op {
        0 => {
            m.transpose();
            *g = transpose(g, *r, *c);
            std::mem::swap(r, c);
        }
        1 => {
            m.switch_order();
            *o = other(*o);
        }
        2 => {
            m.switch_order_without_rearrangement();
            *g = transpose(g, *r, *c);
            std::mem::swap(r, c);
            *o = other(*o);
        }
        3 | 4 => {
            let to = if op == 3 { Order::RowMajor } else { Order::ColMajor };
            m.set_order(to);
            *o = to;
        }
        _ => {
            let to = if op == 5 { Order::RowMajor } else { Order::ColMajor };
            m.set_order_without_rearrangement(to);
            if to != *o {
                *g = transpose(g, *r, *c);
                std::mem::swap(r, c);
                *o = to;
            }
        }
    }
}
fn run_tracked((mut r, mut c, mut order): (usize, usize, Order), n: usize) {
    let vals = sym_vals(r * c, "v");
    let mut m = build(r, c, order, vals.iter().map(|v| T::new(*v)).collect());
    // identities: serial numbers in memory order
    let first = elem::born() - r * c;
    let ids: Vec<u64> = (0..r * c).map(|k| (first + k) as u64).collect();
    let mut g = grid(r, c, order, &ids);
    let (born, drops) = (elem::born(), elem::drops());
    let mut back = true;
    for k in 0..n {
        let op = vt::choose(0, KINDS - 1, "op");
        back &= op == 0;
        let before: Vec<u32> = m.iter_elements().map(|e| e.id).collect();
        apply(&mut m, &mut r, &mut c, &mut order, &mut g, op);
        let after: Vec<u32> = m.iter_elements().map(|e| e.id).collect();
        vt::check(m.order() == order, "order after the operation");
        vt::check(m.nrows() == r && m.ncols() == c, "shape after the operation");
        if op == 2 || op >= 5 {
            vt::check(before == after, "a *_without_rearrangement operation moved elements");
        }
        let mut ok = true;
        for i in 0..r {
            for j in 0..c {
                match m.get((i, j)) {
                    Ok(e) => ok &= (e.id as u64 == g[i][j]) & e.ok() & (e.v == vals[g[i][j] as usize - first]),
                    Err(_) => ok = false,
                }
            }
        }
        vt::check(ok, "logical contents after the operation");
        let _ = k;
    }
    vt::check(elem::born() == born && elem::drops() == drops, "an element was cloned or dropped");
    check_coherent(&m);
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
    vt::cover("chain completed");
    if back && n == 2 {
        vt::cover("transposed twice");
    }
}
/// Other element types: values tell the elements apart.
fn run_plain<E: crate::c03::El>((mut r, mut c, mut order): (usize, usize, Order)) {
    let ids: Vec<u64> = (0..r * c).map(|k| k as u64 + 1).collect();
    let mut g = grid(r, c, order, &ids);
    let mut m: Matrix<E> = build(
        r,
        c,
        order,
        ids.iter()
            .map(|k| {
                let mut e = E::make(0);
                e.mark(*k);
                e
            })
            .collect(),
    );
    for _ in 0..2 {
        let op = vt::choose(0, KINDS - 1, "op");
        apply(&mut m, &mut r, &mut c, &mut order, &mut g, op);
        vt::check(m.order() == order && m.nrows() == r && m.ncols() == c && m.size() == r * c, "order or shape after the operation");
        let mut ok = true;
        for i in 0..r {
            for j in 0..c {
                match m.get((i, j)) {
                    Ok(e) => ok &= e.marked(g[i][j]),
                    Err(_) => ok = false,
                }
            }
        }
        vt::check(ok, "logical contents after the operation");
    }
    vt::cover("chain completed");
}
/// Zero-sized elements with drop glue: counted.
struct Z;
static mut DROPS: usize = 0;
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
fn run_zst(max: usize) {
    let (mut r, mut c, mut order) = choose_state(max, max);
    let mut m: Matrix<Z> = build(r, c, order, (0..r * c).map(|_| Z).collect());
    let mut g = vec![vec![0; c]; r];
    for _ in 0..2 {
        let op = vt::choose(0, KINDS - 1, "op");
        apply(&mut m, &mut r, &mut c, &mut order, &mut g, op);
        vt::check(m.order() == order && m.nrows() == r && m.ncols() == c && m.size() == r * c, "order or shape after the operation");
        vt::check(unsafe { DROPS } == 0, "an element was dropped");
    }
    drop(m);
    vt::check(unsafe { DROPS } == r * c, "elements dropped with the matrix");
    vt::cover("chain completed");
}
/// One transposition or rearrangement of a larger shape: every permutation-cycle structure.
fn one((r, c, order): (usize, usize, Order)) {
    let what = vt::choose_bool("what");
    let vals = sym_vals(r * c, "v");
    let g = grid(r, c, order, &vals);
    let mut m = build(r, c, order, vals);
    let mut ok = true;
    if what {
        m.transpose();
        vt::check(m.nrows() == c && m.ncols() == r && m.order() == order, "shape or order after transpose");
        for i in 0..r {
            for j in 0..c {
                ok &= m.get((j, i)).map(|v| *v == g[i][j]).unwrap_or(false);
            }
        }
    } else {
        m.switch_order();
        vt::check(m.nrows() == r && m.ncols() == c && m.order() == other(order), "shape or order after switch_order");
        ok &= same(&m, r, c, &g);
    }
    vt::check(ok, "logical contents after the operation");
    // and back
    if what {
        m.transpose();
    } else {
        m.switch_order();
    }
    vt::check(m.order() == order && same(&m, r, c, &g), "the operation applied twice does not restore the matrix");
    vt::cover("larger shape");
}
/// Long thin shapes (1 x n, 2 x n, n x 1, n x 2).
fn line(max: usize) {
    let n = vt::choose(1, max, "n");
    let s = vt::choose(1, 2, "s");
    vt::shard(n);
    let flip = vt::choose_bool("flip");
    let (r, c) = if flip { (n, s) } else { (s, n) };
    let order = choose_order("order");
    let vals = sym_vals(r * c, "v");
    let g = grid(r, c, order, &vals);
    let mut m = build(r, c, order, vals);
    m.transpose();
    let mut ok = m.nrows() == c && m.ncols() == r && m.order() == order;
    for i in 0..r {
        for j in 0..c {
            ok &= m.get((j, i)).map(|v| *v == g[i][j]).unwrap_or(false);
        }
    }
    vt::check(ok, "logical contents after transpose");
    vt::cover("long shape");
}

harnesses! {
    fn h_c05_chain() { run_tracked(choose_state(vt::tier(4, 4), vt::tier(4, 4)), vt::tier(3, 4)) }
    fn h_c05_two() { run_tracked(choose_state(vt::tier(6, 8), vt::tier(6, 8)), 2) }
    fn h_c05_u8() { run_plain::<u8>(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c05_b3() { run_plain::<[u8; 3]>(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c05_w3() { run_plain::<[u64; 3]>(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c05_types() {
        let n = vt::tier(3, 5);
        match vt::choose(0, 2, "type") {
            0 => run_plain::<u16>(choose_state(n, n)),
            1 => run_plain::<u128>(choose_state(n, n)),
            _ => run_plain::<crate::c03::Big>(choose_state(n, n)),
        }
    }
    fn h_c05_unit() { run_plain::<()>(choose_state(vt::tier(4, 6), vt::tier(4, 6))) }
    fn h_c05_large() {
        match vt::choose(0, 7, "type") {
            5 => run_plain::<u16>(choose_large()),
            6 => run_plain::<u128>(choose_large()),
            7 => run_plain::<crate::c03::Big>(choose_large()),
            0 => run_plain::<u8>(choose_large()),
            1 => run_plain::<[u8; 3]>(choose_large()),
            2 => run_plain::<u32>(choose_large()),
            3 => run_plain::<[u64; 3]>(choose_large()),
            _ => run_tracked(choose_large(), 2),
        }
    }
    fn h_c05_zst() { run_zst(vt::tier(4, 6)) }
    fn h_c05_one() {
        let n = vt::tier(16, 30);
        let (r, c) = (vt::choose(0, n, "rows"), vt::choose(0, n, "cols"));
        vt::shard(r * 31 + c);
        one((r, c, choose_order("order")))
    }
    fn h_c05_xl() { xl(); one(choose_large()) }
    fn h_c05_line() { line(vt::tier(40, 100)) }
}
