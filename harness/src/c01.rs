//! C01: coherence over operation histories: one arbitrary operation from an arbitrary valid state,
//! and chains of two (three) operations, against the row-of-rows model, with a drop ledger.
use crate::elem::{self, DEFAULT, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Order, WrappingIndex};

const NOPS: usize = 41;
/// larger shapes, operations with listed arguments
const FAR: usize = usize::MAX;

/// Applies operation `op`; returns the matrix that carries on.
fn step(mut m: Matrix<T>, mut g: Model, op: usize, max: usize) -> (Matrix<T>, Model) {
    let (r, c, order) = (g.r, g.c, g.order);
    let far = max == FAR;
    let dim = |n: &str| if far { [0, 1, 5, 10, 21][vt::choose(0, 4, n)] } else { vt::choose(0, max, n) };
    // an index among `n`, or one past the end
    let ix = |n: usize, name: &str| if far { choose_end(n, name) } else { vt::choose(0, n, name) };
    match op {
        0 => {
            m.transpose();
            g = g.transposed();
        }
        1 => {
            m.switch_order();
            g.order = other(order);
        }
        2 => {
            m.switch_order_without_rearrangement();
            let mem = g.mem();
            g = Model::new(c, r, other(order), &mem);
        }
        3 => {
            let o = choose_order("to");
            m.set_order(o);
            g.order = o;
        }
        4 => {
            let o = choose_order("to");
            m.set_order_without_rearrangement(o);
            if o != order {
                let mem = g.mem();
                g = Model::new(c, r, o, &mem);
            }
        }
        5 => {
            let (a, b) = if far { [(c, r), (1, r * c), (r * c, 1), (r, c + 1), (2 * r, c / 2)][vt::choose(0, 4, "to")] } else { (vt::choose(0, 2 * max, "nr"), vt::choose(0, 2 * max, "nc")) };
            match m.reshape((a, b)) {
                Ok(_) => {
                    vt::check(a * b == r * c, "reshape accepted another size");
                    let mem = g.mem();
                    g = Model::new(a, b, order, &mem);
                }
                Err(e) => vt::check(a * b != r * c && e == Error::SizeMismatch, "reshape error"),
            }
        }
        6 => {
            let (a, b) = (dim("nr"), dim("nc"));
            vt::check(m.resize((a, b)).is_ok(), "resize fails");
            let mut mem = g.mem();
            mem.resize(a * b, DEFAULT);
            g = Model::new(a, b, order, &mem);
        }
        7 => {
            m.shrink_to_fit();
        }
        8 => {
            m.shrink_to(ix(r * c + 1, "cap"));
        }
        9 => {
            let (a, b) = (dim("sr"), dim("sc"));
            let (src, sg) = tracked_model(a, b, choose_order("so"), "w");
            m.overwrite(&src);
            for i in 0..r.min(a) {
                for j in 0..c.min(b) {
                    g.g[i][j] = sg.g[i][j];
                }
            }
            vt::check(sg.is(&src), "overwrite changed its source");
        }
        10 => {
            m.apply(|e| e.v = f1(e.v));
            g = g.map(|_, _, v| f1(v));
        }
        11 => {
            m = m.map(|e| T::new(f1(e.v))).unwrap();
            g = g.map(|_, _, v| f1(v));
        }
        12 => {
            let n = m.map_ref(|e| T::new(f1(e.v))).unwrap();
            vt::check(g.is(&m), "map_ref changed its source");
            g = g.map(|_, _, v| f1(v));
            m = n;
        }
        13 => {
            m.clear();
            vt::check(m.size() == 0 && m.nrows() == 0 && m.ncols() == 0, "clear");
            g = Model::new(0, 0, order, &[]);
        }
        14 => {
            let (a, b, x, y) = (ix(r, "i0"), ix(c, "i1"), if far { r / 2 } else { ix(r, "j0") }, if far { c - 1 } else { ix(c, "j1") });
            let ok = a < r && b < c && x < r && y < c;
            vt::check(m.swap((a, b), (x, y)).is_ok() == ok, "swap result");
            if ok {
                let t = g.g[a][b];
                g.g[a][b] = g.g[x][y];
                g.g[x][y] = t;
            }
        }
        15 => {
            let (a, b) = (ix(r, "a"), ix(r, "b"));
            let ok = a < r && b < r;
            vt::check(m.swap_rows(a, b).is_ok() == ok, "swap_rows result");
            if ok {
                g.g.swap(a, b);
            }
        }
        16 => {
            let (a, b) = (ix(c, "a"), ix(c, "b"));
            let ok = a < c && b < c;
            vt::check(m.swap_cols(a, b).is_ok() == ok, "swap_cols result");
            if ok {
                for row in g.g.iter_mut() {
                    row.swap(a, b);
                }
            }
        }
        17 => {
            // replace one element through get_mut / []
            let (a, b) = if far { (ix(r, "i0"), ix(c, "i1")) } else { (vt::sym_usize("i0"), vt::sym_usize("i1")) };
            let v = vt::sym_u64("n");
            let ok = (a < r) & (b < c);
            let res = m.get_mut((a, b));
            vt::check(res.is_ok() == ok, "get_mut result");
            if let Ok(e) = res {
                *e = T::new(v);
                let (a, b) = (vt::split(a), vt::split(b));
                g.g[a][b] = v;
                m[(a, b)] = T::new(f1(v));
                g.g[a][b] = f1(v);
            }
        }
        18 => {
            for (i, row) in m.iter_rows_mut().enumerate() {
                for (j, e) in row.enumerate() {
                    vt::check(e.v == g.g[i][j], "iter_rows_mut yields the wrong element");
                    *e = T::new(f2(e.v, (i * 300 + j) as u64));
                }
            }
            g = g.map(|i, j, v| f2(v, (i * 300 + j) as u64));
        }
        19 => {
            for (j, col) in m.iter_cols_mut().enumerate() {
                for (i, e) in col.enumerate() {
                    vt::check(e.v == g.g[i][j], "iter_cols_mut yields the wrong element");
                    *e = T::new(f2(e.v, (i * 300 + j) as u64));
                }
            }
            g = g.map(|i, j, v| f2(v, (i * 300 + j) as u64));
        }
        20 => {
            // consume partly from both ends, the rest is dropped
            let mem = g.mem();
            let (f, b) = (if far { choose_end(mem.len() - 1, "front") } else { vt::choose(0, 2.min(mem.len()), "front") }, vt::choose(0, 1, "back"));
            let mut it = m.into_iter_elements();
            let mut out = Vec::new();
            for k in 0..f {
                let e = it.next().unwrap();
                vt::check(e.v == mem[k], "into_iter_elements front");
                out.push(e);
            }
            if b == 1 && f < mem.len() {
                let e = it.next_back().unwrap();
                vt::check(e.v == mem[mem.len() - 1], "into_iter_elements back");
                out.push(e);
            }
            drop(it);
            let vals: Vec<u64> = out.iter().map(|e| e.v).collect();
            let n = out.len();
            m = Matrix::from_col(out);
            g = Model::new(n, 1, m.order(), &vals);
        }
        21 => {
            let n = m.clone();
            vt::check(g.is(&n) && g.is(&m), "clone differs");
            drop(m);
            m = n;
        }
        22 => {
            let (a, b) = if vt::choose_bool("match") { (r, c) } else { (dim("sr"), dim("sc")) };
            let (rhs, rg) = tracked_model(a, b, choose_order("so"), "w");
            let res = m.elementwise_operation(&rhs, |x, y| T::new(f2(x.v, y.v)));
            vt::check(res.is_ok() == (a == r && b == c), "elementwise_operation result");
            vt::check(g.is(&m) && rg.is(&rhs), "elementwise_operation changed an operand");
            if let Ok(n) = res {
                m = n;
                g = g.map(|i, j, v| f2(v, rg.g[i][j]));
            }
        }
        23 => {
            let (a, b) = if vt::choose_bool("match") { (r, c) } else { (dim("sr"), dim("sc")) };
            let (rhs, rg) = tracked_model(a, b, choose_order("so"), "w");
            let res = m.elementwise_operation_consume_self(&rhs, |x, y| T::new(f2(x.v, y.v)));
            vt::check(res.is_ok() == (a == r && b == c), "elementwise_operation_consume_self result");
            match res {
                Ok(n) => {
                    m = n;
                    g = g.map(|i, j, v| f2(v, rg.g[i][j]));
                }
                Err(_) => {
                    m = Matrix::new();
                    g = Model::new(0, 0, m.order(), &[]);
                }
            }
        }
        24 => {
            let (a, b) = if vt::choose_bool("match") { (r, c) } else { (dim("sr"), dim("sc")) };
            let (rhs, rg) = tracked_model(a, b, choose_order("so"), "w");
            let ok = m.elementwise_operation_assign(&rhs, |x, y| *x = T::new(f2(x.v, y.v))).is_ok();
            vt::check(ok == (a == r && b == c), "elementwise_operation_assign result");
            if ok {
                g = g.map(|i, j, v| f2(v, rg.g[i][j]));
            }
        }
        25 => {
            let k = if far { vt::choose(1, 2, "k") } else { dim("k") };
            let inner = if vt::choose_bool("match") { c } else { dim("inner") };
            let (rhs, rg) = tracked_model(inner, k, choose_order("so"), "w");
            let res = m.multiplication_like_operation(rhs, |x, y| {
                vt::check(!x.is_empty() && x.len() == y.len(), "slices");
                T::new(x.iter().zip(y).fold(0, |s, (p, q)| f2(s, f2(p.v, q.v))))
            });
            vt::check(res.is_ok() == (inner == c), "multiplication_like_operation result");
            match res {
                Ok(n) => {
                    let mut h = vec![vec![DEFAULT; k]; r];
                    if c > 0 {
                        for i in 0..r {
                            for j in 0..k {
                                h[i][j] = (0..c).fold(0, |s, x| f2(s, f2(g.g[i][x], rg.g[x][j])));
                            }
                        }
                    }
                    m = n;
                    g = Model { r, c: k, order, g: h };
                }
                Err(_) => {
                    m = Matrix::new();
                    g = Model::new(0, 0, m.order(), &[]);
                }
            }
        }
        26 => {
            let s = vt::sym_u64("s");
            let n = m.scalar_operation(&s, |x, y| T::new(f2(x.v, *y))).unwrap();
            vt::check(g.is(&m), "scalar_operation changed its operand");
            m = n;
            g = g.map(|_, _, v| f2(v, s));
        }
        27 => {
            let s = vt::sym_u64("s");
            m = m.scalar_operation_consume_self(&s, |x, y| T::new(f2(x.v, *y))).unwrap();
            g = g.map(|_, _, v| f2(v, s));
        }
        28 => {
            let s = vt::sym_u64("s");
            m.scalar_operation_assign(&s, |x, y| x.v = f2(x.v, *y));
            g = g.map(|_, _, v| f2(v, s));
        }
        29 => {
            // constructors
            let (a, b) = (dim("nr"), dim("nc"));
            let v = vt::sym_u64("n");
            m = Matrix::with_value((a, b), T::new(v)).unwrap();
            g = Model { r: a, c: b, order: Order::default(), g: vec![vec![v; b]; a] };
        }
        30 => {
            let (a, b) = (dim("nr"), dim("nc"));
            m = Matrix::with_default((a, b)).unwrap();
            g = Model { r: a, c: b, order: Order::default(), g: vec![vec![DEFAULT; b]; a] };
        }
        31 => {
            let (a, b) = (dim("nr"), dim("nc"));
            let vs = sym_vals(a * b, "n");
            m = Matrix::with_initializer((a, b), |i: Index| T::new(vs[i.row * b + i.col])).unwrap();
            g = Model { r: a, c: b, order: Order::default(), g: grid(a, b, Order::RowMajor, &vs) };
        }
        32 => {
            // rows of varying length; ragged input is rejected and dropped once
            let n = vt::choose(0, 2, "rows");
            let lens: Vec<usize> = (0..n).map(|_| vt::choose(0, 2, "len")).collect();
            let vals: Vec<Vec<u64>> = lens.iter().map(|l| sym_vals(*l, "n")).collect();
            let rows: Vec<Vec<T>> = vals.iter().map(|r| r.iter().map(|v| T::new(*v)).collect()).collect();
            let good = lens.iter().all(|l| *l == lens[0]);
            match Matrix::try_from(rows) {
                Ok(x) => {
                    vt::check(good, "ragged rows accepted");
                    m = x;
                    g = Model { r: n, c: if n == 0 { 0 } else { lens[0] }, order: Order::default(), g: vals };
                }
                Err(e) => {
                    vt::check(!good && e == Error::LengthInconsistent, "rows rejected");
                }
            }
        }
        33 => {
            let n = vt::choose(0, 2, "rows");
            let l = vt::choose(0, 2, "len");
            let vals: Vec<Vec<u64>> = (0..n).map(|_| sym_vals(l, "n")).collect();
            m = vals.iter().map(|r| r.iter().map(|v| T::new(*v))).collect();
            g = Model { r: n, c: if n == 0 { 0 } else { l }, order: Order::default(), g: vals };
        }
        34 => {
            let vals = sym_vals(4, "n");
            let t = |i: usize| T::new(vals[i]);
            m = Matrix::from([[t(0), t(1)], [t(2), t(3)]]);
            g = Model { r: 2, c: 2, order: Order::default(), g: vec![vec![vals[0], vals[1]], vec![vals[2], vals[3]]] };
        }
        35 => {
            // wrapping replacement
            if r * c > 0 {
                let (a, b) = (ix(2 * r, "w0") as isize - r as isize, ix(2 * c, "w1") as isize - c as isize);
                let v = vt::sym_u64("n");
                m[WrappingIndex::new(a, b)] = T::new(v);
                g.g[a.rem_euclid(r as isize) as usize][b.rem_euclid(c as isize) as usize] = v;
            }
        }
        36 => {
            // move the elements out with their indices and put them back where they belong
            let mut slots: Vec<Vec<Option<T>>> = (0..r).map(|_| (0..c).map(|_| None).collect()).collect();
            for (i, e) in m.into_iter_elements_with_index() {
                vt::check(i.row < r && i.col < c, "index out of the matrix");
                vt::check(slots[i.row][i.col].is_none(), "index reported twice");
                slots[i.row][i.col] = Some(e);
            }
            let rows: Vec<Vec<T>> = slots.into_iter().map(|r| r.into_iter().map(|x| x.unwrap()).collect()).collect();
            m = Matrix::try_from(rows).unwrap();
            g.order = Order::default();
            if r == 0 {
                g = Model::new(0, 0, g.order, &[]);
            }
        }
        37 => {
            let (a, b) = (dim("sr"), dim("sc"));
            let (src, sg) = tracked_model(a, b, choose_order("so"), "w");
            m.clone_from(&src);
            vt::check(sg.is(&src), "clone_from changed its source");
            g = sg;
        }
        38 => {
            // one row and one column through the nth views, from the back
            let (a, b) = (ix(r, "a"), ix(c, "b"));
            match m.iter_nth_row_mut(a) {
                Ok(it) => {
                    vt::check(a < r, "iter_nth_row_mut result");
                    for (j, e) in it.enumerate() {
                        vt::check(e.v == g.g[a][j], "iter_nth_row_mut yields the wrong element");
                        *e = T::new(f2(e.v, j as u64));
                        g.g[a][j] = f2(g.g[a][j], j as u64);
                    }
                }
                Err(_) => vt::check(a >= r, "iter_nth_row_mut result"),
            }
            match m.iter_nth_col_mut(b) {
                Ok(it) => {
                    vt::check(b < c, "iter_nth_col_mut result");
                    for (k, e) in it.rev().enumerate() {
                        let i = r - 1 - k;
                        vt::check(e.v == g.g[i][b], "iter_nth_col_mut yields the wrong element");
                        *e = T::new(f2(e.v, i as u64));
                        g.g[i][b] = f2(g.g[i][b], i as u64);
                    }
                }
                Err(_) => vt::check(b >= c, "iter_nth_col_mut result"),
            }
        }
        39 => {
            // the matrix is taken out, an empty one stays behind; a vector becomes the next one
            let t = std::mem::take(&mut m);
            vt::check(m.size() == 0 && m.nrows() == 0 && m.ncols() == 0, "Default is not empty");
            vt::check(g.is(&t), "take changed the matrix");
            let vals = g.mem();
            let v: Vec<T> = t.into_iter_elements().collect();
            m = if vt::choose_bool("row") { Matrix::from_row(v) } else { Matrix::from_col(v) };
            let n = vals.len();
            g = if m.nrows() == 1 { Model { r: 1, c: n, order: m.order(), g: vec![vals] } } else { Model { r: n, c: 1, order: m.order(), g: vals.iter().map(|v| vec![*v]).collect() } };
            if n == 1 {
                vt::check(m.nrows() == 1 && m.ncols() == 1, "shape of a single element");
            }
        }
        _ => {
            for (i, e) in m.iter_elements_mut_with_index() {
                vt::check(e.v == g.g[i.row][i.col], "iter_elements_mut_with_index pairs the wrong element");
                e.v = f2(e.v, (i.row * 300 + i.col) as u64);
            }
            for e in m.iter_elements_mut() {
                e.v = f1(e.v);
            }
            g = g.map(|i, j, v| f1(f2(v, (i * 300 + j) as u64)));
        }
    }
    (m, g)
}
fn checkpoint(m: &Matrix<T>, g: &Model) {
    check_coherent(m);
    vt::check(g.is(m), "contents differ from the reference model");
    vt::check(elem::live() == m.size(), "elements leaked or duplicated");
}
fn pre(max: usize) -> (Matrix<T>, Model) {
    let (r, c) = if max == FAR { pick_large() } else { (vt::choose(0, max, "rows"), vt::choose(0, max, "cols")) };
    let order = choose_order("order");
    let spare = vt::choose(0, 1, "spare") * 2;
    let vals = sym_vals(r * c, "v");
    let mut data = Vec::with_capacity(r * c + spare);
    for v in &vals {
        data.push(T::new(*v));
    }
    let m = build(r, c, order, data);
    (m, Model::new(r, c, order, &vals))
}
fn history(n: usize, lo: usize, hi: usize, max: usize) {
    let first = vt::choose(lo, hi, "op");
    let (mut m, mut g) = pre(max);
    vt::shard((first * 8 + g.r) * 8 + g.c + (max == FAR) as usize * first);
    checkpoint(&m, &g);
    (m, g) = step(m, g, first, max);
    checkpoint(&m, &g);
    for _ in 1..n {
        let op = vt::choose(0, NOPS - 1, "op");
        (m, g) = step(m, g, op, max);
        checkpoint(&m, &g);
    }
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
    vt::cover("history completed");
}

harnesses! {
    fn h_c01_step() { history(1, 0, NOPS - 1, vt::tier(3, 4)) }
    fn h_c01_large() { history(1, 0, NOPS - 1, FAR) }
    fn h_c01_xl() { xl(); history(1, 0, NOPS - 1, FAR) }
    fn h_c01_two() { history(2, 0, NOPS - 1, vt::tier(1, 2)) }
}
