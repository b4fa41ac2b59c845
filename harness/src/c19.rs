//! C19: constructors, conversions and macros build exactly the described matrix or fail.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Shape, col_vec, matrix, row_vec};
use std::cell::RefCell;

/// Rows of fresh elements with the given payloads.
fn rows_of(g: &[Vec<u64>]) -> Vec<Vec<T>> {
    g.iter().map(|r| r.iter().map(|v| T::new(*v)).collect()).collect()
}
fn values(lens: &[usize]) -> Vec<Vec<u64>> {
    lens.iter().map(|n| sym_vals(*n, "v")).collect()
}
fn ragged(lens: &[usize]) -> bool {
    lens.iter().any(|n| *n != lens[0])
}
/// The matrix has exactly the given rows.
fn exact(m: &Matrix<T>, g: &[Vec<u64>]) {
    vt::check(m.nrows() == g.len(), "number of rows");
    if let Some(f) = g.first() {
        vt::check(m.ncols() == f.len(), "number of columns");
        vt::check(same(m, g.len(), f.len(), g), "the logical rows are not the given rows");
    }
    check_coherent(m);
    observe_matrix(m);
    vt::cover("built");
}
fn fallible(res: Result<Matrix<T>, Error>, lens: &[usize], g: &[Vec<u64>], originals: usize) {
    match &res {
        Ok(m) => {
            vt::check(!ragged(lens), "ragged input is accepted");
            if ragged(lens) {
                return;
            }
            exact(m, g);
            vt::check(elem::live() == originals + m.size(), "elements were leaked or lost");
        }
        Err(e) => {
            vt::check(ragged(lens), "rows of equal length are refused");
            vt::check(*e == Error::LengthInconsistent, "the error is not LengthInconsistent");
            vt::check(elem::live() == originals, "elements of rejected input were leaked or lost");
            vt::cover("rejected");
        }
    }
    drop(res);
    vt::check(elem::live() == originals, "elements were leaked or dropped twice");
}
/// Row iterator whose size hint says nothing.
struct Plain<I>(I);
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
/// Row iterator whose size hint is a (legal) range.
struct Loose<I>(I, usize);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.1))
    }
}
fn collected(f: impl FnOnce() -> Matrix<T>) -> Result<Matrix<T>, Error> {
    vt::catches(f).map_err(|_| Error::LengthInconsistent)
}
fn tryarray<const R: usize>(rows: Vec<Vec<T>>) -> Result<Matrix<T>, Error> {
    let a: [Vec<T>; R] = match rows.try_into() {
        Ok(a) => a,
        Err(_) => {
            vt::check(false, "harness: rows");
            return Err(Error::IndexOutOfBounds);
        }
    };
    Matrix::try_from(a)
}
/// rows whose lengths are anything
fn conversions(rmax: usize, cmax: usize, forms: (usize, usize)) {
    let form = vt::choose(forms.0, forms.1, "form");
    let n = vt::choose(0, rmax, "rows");
    let lens: Vec<usize> = (0..n).map(|_| vt::choose(0, cmax, "len")).collect();
    vt::shard(lens.iter().fold(form * 7 + n, |a, b| a * 5 + b));
    convert(form, lens);
}
/// more and longer rows; one of them may be shorter or longer, or two of them so that the total fits
fn larger() {
    let k = vt::choose(0, vt::tier(7, 10), "large");
    let (n, c) = [(9, 5), (5, 9), (1, 20), (20, 1), (2, 17), (17, 2), (1, 260), (70, 1), (1, 65), (65, 1), (12, 11)][k];
    let form = vt::choose(0, 6, "form");
    vt::shard(k * 7 + form);
    let mut lens = vec![c; n];
    let at = [0, 1, n / 2, n - 1][vt::choose(0, 3, "where")].min(n - 1);
    match vt::choose(0, 3, "how") {
        0 => {}
        1 => lens[at] = c + 1,
        2 => lens[at] = c - 1,
        _ => {
            lens[at] = c - 1;
            lens[(at + 3) % n] += 1;
        }
    }
    if form != 2 || n <= 20 {
        convert(form, lens);
    }
}
fn convert(form: usize, lens: Vec<usize>) {
    let n = lens.len();
    let g = values(&lens);
    let rows = rows_of(&g);
    let total = elem::born();
    // spare capacity in the rows must not show
    let rows: Vec<Vec<T>> = rows
        .into_iter()
        .enumerate()
        .map(|(k, mut r)| {
            if k % 2 == 1 {
                r.reserve(2);
            }
            r
        })
        .collect();
    match form {
        0 => fallible(Matrix::try_from(rows), &lens, &g, 0),
        1 => {
            fallible(Matrix::try_from(&rows[..]), &lens, &g, total);
            unharmed(&rows, &g);
        }
        2 => fallible(
            match n {
                0 => tryarray::<0>(rows),
                1 => tryarray::<1>(rows),
                2 => tryarray::<2>(rows),
                3 => tryarray::<3>(rows),
                4 => tryarray::<4>(rows),
                9 => tryarray::<9>(rows),
                17 => tryarray::<17>(rows),
                20 => tryarray::<20>(rows),
                12 => tryarray::<12>(rows),
                _ => tryarray::<5>(rows),
            },
            &lens,
            &g,
            0,
        ),
        3 => fallible(collected(|| rows.into_iter().collect()), &lens, &g, 0),
        4 => fallible(collected(|| Plain(rows.into_iter().map(|r| Plain(r.into_iter()))).collect()), &lens, &g, 0),
        5 => fallible(collected(|| Loose(rows.into_iter().map(|r| { let n = r.len() + 1; Loose(r.into_iter(), n) }), n + 3).collect()), &lens, &g, 0),
        _ => {
            fallible(collected(|| Matrix::from_iter(rows.iter().map(|r| r.iter().cloned()))), &lens, &g, total);
            unharmed(&rows, &g);
        }
    }
}
fn unharmed(rows: &[Vec<T>], g: &[Vec<u64>]) {
    let mut ok = true;
    for (r, w) in rows.iter().zip(g) {
        ok &= r.len() == w.len();
        for (x, y) in r.iter().zip(w) {
            ok &= x.ok() & (x.v == *y);
        }
    }
    vt::check(ok, "borrowed input changed");
}
/// Arrays: lengths are part of the type.
fn array<const C: usize>(row: &[u64]) -> [T; C] {
    let mut k = 0;
    [(); C].map(|_| {
        k += 1;
        T::new(row[k - 1])
    })
}
fn nested<const R: usize, const C: usize>(g: &[Vec<u64>]) -> [[T; C]; R] {
    let mut k = 0;
    [(); R].map(|_| {
        k += 1;
        array::<C>(&g[k - 1])
    })
}
fn by_cols<const C: usize>(rmax: usize) {
    let n = vt::choose(0, rmax, "rows");
    let g = values(&vec![C; n]);
    let form = vt::choose(0, 3, "form");
    vt::shard(form * 20 + n * 4 + C);
    let rows: Vec<[T; C]> = g.iter().map(|r| array::<C>(r)).collect();
    match form {
        0 => exact(&Matrix::from(rows), &g),
        1 => {
            let m = Matrix::from(&rows[..]);
            exact(&m, &g);
            vt::check(elem::live() == 2 * n * C, "elements were leaked or lost");
            drop(m);
            vt::check(rows.iter().flatten().all(|t| t.ok()), "borrowed input changed");
        }
        2 => exact(&rows.into_iter().collect(), &g),
        _ => {
            let m: Matrix<T> = rows.iter().cloned().collect();
            exact(&m, &g);
        }
    }
}
fn by_rows<const R: usize, const C: usize>() {
    let g = values(&vec![C; R]);
    let m = Matrix::from(nested::<R, C>(&g));
    exact(&m, &g);
    vt::check(elem::live() == R * C && elem::clones() == 0, "elements were leaked, lost or cloned");
    drop(m);
    elem::check_no_leak();
}
fn arrays(rmax: usize) {
    match vt::choose(0, 4, "cols") {
        0 => by_cols::<0>(rmax),
        1 => by_cols::<1>(rmax),
        2 => by_cols::<2>(rmax),
        3 => by_cols::<3>(rmax),
        _ => by_cols::<5>(rmax),
    }
}
macro_rules! squares {
    ($k:expr; $($n:literal $r:literal $c:literal;)*) => {
        match $k {
            $($n => by_rows::<$r, $c>(),)*
            _ => {}
        }
    };
}
fn nested_arrays() {
    squares! {vt::choose(0, 24, "shape");
        20 9 2; 21 2 9; 22 1 20; 23 20 1; 24 6 7;
        0 0 0; 1 0 1; 2 0 3; 3 1 0; 4 2 0; 5 3 0; 6 1 1; 7 1 2; 8 1 3; 9 2 1; 10 2 2; 11 2 3; 12 3 1; 13 3 2; 14 3 3; 15 1 4; 16 4 1; 17 4 2; 18 2 4; 19 5 3;
    }
}
/// from_row / from_col from everything that converts into a vector
fn vectors(max: usize) {
    let k = vt::choose(0, max + 1, "len");
    let n = if k > max { vt::tier(40, 130) } else { k };
    let form = vt::choose(0, 9, "form");
    vt::shard(n * 10 + form);
    let v = sym_vals(n, "v");
    let mut data: Vec<T> = v.iter().map(|x| T::new(*x)).collect();
    if vt::choose_bool("spare") {
        data.reserve(3);
    }
    let row = vec![v.clone()];
    let col: Vec<Vec<u64>> = v.iter().map(|x| vec![*x]).collect();
    match form {
        0 => exact(&Matrix::from_row(data), &row),
        1 => exact(&Matrix::from_col(data), &col),
        2 => exact(&Matrix::from_row(data.into_boxed_slice()), &row),
        3 => exact(&Matrix::from_col(data.into_boxed_slice()), &col),
        4 => exact(&Matrix::from_row(&data[..]), &row),
        5 => exact(&Matrix::from_col(&data[..]), &col),
        6 if n == 3 => exact(&Matrix::from_row(array::<3>(&v)), &row),
        7 if n == 3 => exact(&Matrix::from_col(array::<3>(&v)), &col),
        8 => {
            let q: std::collections::VecDeque<T> = data.into();
            exact(&Matrix::from_row(q), &row)
        }
        _ => {
            let q: std::collections::BinaryHeap<u64> = Default::default();
            let m: Matrix<u64> = Matrix::from_col(q);
            vt::check(m.nrows() == 0 && m.size() == 0, "a column without elements");
            drop(data);
        }
    }
}
/// the macros, every syntactic form
fn macros() {
    let x = sym_vals(6, "v");
    let t = |k: usize| T::new(x[k]);
    let g = |rows: &[&[usize]]| -> Vec<Vec<u64>> { rows.iter().map(|r| r.iter().map(|k| x[*k]).collect()).collect() };
    let form = vt::choose(0, 19, "form");
    let n = [0, 1, 2, 3, 9][vt::choose(0, 4, "n")];
    let k = [0, 1, 2, 3, 17][vt::choose(0, 4, "k")];
    let rep = |row: Vec<u64>, n: usize| -> Vec<Vec<u64>> { vec![row; n] };
    match form {
        0 => {
            let m: Matrix<T> = matrix![];
            vt::check(m.nrows() == 0 && m.ncols() == 0 && m.size() == 0, "matrix![]");
        }
        1 => exact(&matrix![[t(0); k]; n], &rep(vec![x[0]; k], n)),
        2 => exact(&matrix![[t(0), t(1)]; n], &rep(vec![x[0], x[1]], n)),
        3 => exact(&matrix![[t(0), t(1), t(2),]; n], &rep(vec![x[0], x[1], x[2]], n)),
        4 => exact(&matrix![[t(0), t(1), t(2)], [t(3), t(4), t(5)]], &g(&[&[0, 1, 2], &[3, 4, 5]])),
        5 => exact(&matrix![[t(0), t(1)], [t(2), t(3)], [t(4), t(5)],], &g(&[&[0, 1], &[2, 3], &[4, 5]])),
        6 => exact(&matrix![[t(0)]], &g(&[&[0]])),
        7 => exact(&matrix![[t(0), t(1), t(2), t(3)]], &g(&[&[0, 1, 2, 3]])),
        8 => exact(&matrix![[t(0)], [t(1)], [t(2)]], &g(&[&[0], &[1], &[2]])),
        9 => {
            let m: Matrix<T> = row_vec![];
            vt::check(m.nrows() == 1 && m.ncols() == 0 && m.size() == 0, "row_vec![]");
        }
        10 => {
            let m: Matrix<T> = col_vec![];
            vt::check(m.nrows() == 0 && m.ncols() == 1 && m.size() == 0, "col_vec![]");
        }
        11 => exact(&row_vec![t(0); n], &[vec![x[0]; n]]),
        12 => exact(&col_vec![t(0); n], &rep(vec![x[0]], n)),
        13 => exact(&row_vec![t(0), t(1), t(2)], &g(&[&[0, 1, 2]])),
        14 => exact(&col_vec![t(0), t(1), t(2)], &g(&[&[0], &[1], &[2]])),
        15 => exact(&row_vec![t(0), t(1),], &g(&[&[0, 1]])),
        16 => exact(&col_vec![t(0), t(1),], &g(&[&[0], &[1]])),
        17 => exact(&row_vec![t(5)], &g(&[&[5]])),
        18 => exact(&col_vec![t(5)], &g(&[&[5]])),
        _ => exact(&matrix![[t(0), t(1)], [t(1), t(0)]], &g(&[&[0, 1], &[1, 0]])),
    }
    elem::check_no_leak();
}
/// with_value / with_default / with_initializer
fn filled((r, c): (usize, usize)) {
    let form = vt::choose(0, 2, "form");
    let how = vt::choose(0, 2, "shape");
    vt::shard((r * 7 + c) * 3 + form);
    let mut g: Vec<Vec<u64>> = vec![vec![elem::DEFAULT; c]; r];
    let res = match form {
        0 => {
            let v = vt::sym_u64("v");
            g = vec![vec![v; c]; r];
            let v = T::new(v);
            match how {
                0 => Matrix::with_value((r, c), v),
                1 => Matrix::with_value([r, c], v),
                _ => Matrix::with_value(Shape::new(r, c), v),
            }
        }
        1 => match how {
            0 => Matrix::with_default((r, c)),
            1 => Matrix::with_default([r, c]),
            _ => Matrix::with_default(Shape::new(r, c)),
        },
        _ => {
            // serial number handed out per position
            let log: RefCell<Vec<Option<u32>>> = RefCell::new(vec![None; r * c]);
            let f = |i: Index| {
                let v = vt::sym_u64("v");
                let t = T::new(v);
                if i.row >= r || i.col >= c {
                    vt::check(false, "the initializer is called with a position outside of the shape");
                    return t;
                }
                let mut l = log.borrow_mut();
                vt::check(l[i.row * c + i.col].is_none(), "the initializer is called twice for a position");
                l[i.row * c + i.col] = Some(t.id);
                t
            };
            let m = match how {
                0 => Matrix::with_initializer((r, c), f),
                1 => Matrix::with_initializer([r, c], f),
                _ => Matrix::with_initializer(Shape::new(r, c), f),
            };
            if let Ok(m) = &m {
                let l = log.borrow();
                let mut ok = m.nrows() == r && m.ncols() == c;
                for i in 0..r {
                    for j in 0..c {
                        match (m.get((i, j)), l[i * c + j]) {
                            (Ok(t), Some(id)) => ok &= t.ok() && t.id == id,
                            _ => ok = false,
                        }
                        if let Ok(t) = m.get((i, j)) {
                            g[i][j] = t.v;
                        }
                    }
                }
                vt::check(ok, "a returned value is not stored at the position it was computed for");
            }
            m
        }
    };
    match &res {
        Ok(m) => {
            vt::check(m.nrows() == r && m.ncols() == c, "shape");
            vt::check(same(m, r, c, &g), "the shape is not filled with the value");
            check_coherent(m);
            observe_matrix(m);
            vt::check(elem::live() == r * c, "elements were leaked or lost");
            vt::cover("built");
        }
        Err(_) => vt::check(false, "a small shape is refused"),
    }
    drop(res);
    elem::check_no_leak();
}
/// Rows of zero-sized elements: any lengths at all.
fn units(rmax: usize) {
    let n = vt::choose(1, rmax, "rows");
    let lens: Vec<usize> = (0..n).map(|_| vt::sym_usize("len")).collect();
    let row = |n: usize| -> Vec<()> {
        let mut v = Vec::new();
        unsafe { v.set_len(n) };
        v
    };
    let mut equal = true;
    for k in 1..n {
        equal &= lens[k] == lens[0];
    }
    let fits = lens[0] <= usize::MAX / n;
    let mut rows: Vec<Vec<()>> = Vec::new();
    for k in 0..n {
        rows.push(row(lens[k]));
    }
    let res = match vt::choose(0, 2, "form") {
        0 => Matrix::try_from(rows),
        1 => {
            let res = Matrix::try_from(&rows[..]);
            std::mem::forget(rows);
            res
        }
        _ => match n {
            1 => Matrix::try_from([row(lens[0])]),
            2 => Matrix::try_from([row(lens[0]), row(lens[1])]),
            _ => {
                let last = rows.pop();
                let mid = rows.pop();
                Matrix::try_from([row(lens[0]), mid.unwrap_or_default(), last.unwrap_or_default()])
            }
        },
    };
    match res {
        Ok(m) => {
            vt::check(equal, "ragged input is accepted");
            vt::check(fits & (m.nrows() == n) & (m.ncols() == lens[0]) & (m.size() == n.wrapping_mul(lens[0])), "shape");
            vt::cover("built");
            std::mem::forget(m);
        }
        // rows of equal length whose total cannot be counted are C08's matter
        Err(e) => {
            let (l, s) = (e == Error::LengthInconsistent, e == Error::SizeOverflow);
            vt::check((!equal & l) | (!fits & s), "an existing matrix is refused, or another error");
            vt::cover("rejected");
        }
    }
}
/// Far larger inputs.
fn far() {
    let k = vt::choose(0, vt::tier(2, 4), "xl");
    let (n, c) = [(17, 18), (33, 34), (520, 2), (2, 520), (65, 66)][k];
    let form = vt::choose(0, 6, "form");
    vt::shard(k * 7 + form);
    let mut rows: Vec<Vec<u64>> = (0..n).map(|_| sym_vals(c, "v")).collect();
    let at = [0, 1, n / 2, n - 1][vt::choose(0, 3, "where")];
    let how = vt::choose(0, 2, "how");
    match how {
        1 => rows[at].push(7),
        2 => {
            rows[at].pop();
            let t = (at + 3) % n;
            rows[t].push(9);
        }
        _ => {}
    }
    let good = how == 0;
    let g = rows.clone();
    let res = match form {
        0 => Matrix::try_from(rows),
        1 => Matrix::try_from(&rows[..]),
        2 => vt::catches(|| rows.into_iter().collect::<Matrix<u64>>()).map_err(|_| Error::LengthInconsistent),
        3 => vt::catches(|| rows.iter().map(|w| w.iter().copied()).collect::<Matrix<u64>>()).map_err(|_| Error::LengthInconsistent),
        4 if good => Matrix::with_initializer((n, c), |i: Index| g[i.row][i.col]),
        5 if good => Ok(Matrix::from_row(g[0].clone())),
        6 if good => Ok(Matrix::from_col(g[0].clone())),
        _ => return,
    };
    match res {
        Ok(m) => {
            vt::check(good, "ragged input is accepted");
            let (p, q) = match form {
                5 => (1, c),
                6 => (c, 1),
                _ => (n, c),
            };
            let mut ok = m.nrows() == p && m.ncols() == q && m.size() == p * q;
            for i in 0..p {
                for j in 0..q {
                    let v = match form {
                        5 => g[0][j],
                        6 => g[0][i],
                        _ => g[i][j],
                    };
                    ok &= m.get((i, j)).map(|e| *e == v).unwrap_or(false);
                }
            }
            vt::check(ok, "the matrix does not consist of the given rows");
            vt::cover("built");
        }
        Err(e) => {
            vt::check(!good && e == Error::LengthInconsistent, "an existing matrix is refused, or another error");
            vt::cover("rejected");
        }
    }
}
harnesses! {
    fn h_c19_xl() { far() }
    fn h_c19_owned() { conversions(vt::tier(4, 5), vt::tier(3, 4), (0, 2)) }
    fn h_c19_iter() { conversions(vt::tier(4, 5), vt::tier(3, 4), (3, 6)) }
    fn h_c19_arrays() { arrays(vt::tier(4, 6)); elem::check_no_leak() }
    fn h_c19_nested() { nested_arrays() }
    fn h_c19_vectors() { vectors(vt::tier(5, 9)); elem::check_no_leak() }
    fn h_c19_macros() { macros() }
    fn h_c19_filled() { let n = vt::tier(4, 6); filled((vt::choose(0, n, "rows"), vt::choose(0, n, "cols"))) }
    fn h_c19_large() { larger(); elem::check_no_leak() }
    fn h_c19_large_filled() { let k = vt::choose(0, LARGES - 1, "large"); filled(LARGE[k]) }
    fn h_c19_units() { units(3) }
}
