//! C06: the six row/column view families against the logical matrix, by address, from either end.
use crate::c03::{El, Z8};
use crate::util::*;
use crate::vt;
use matreex::{Error, Index, Matrix, Order};

struct Cx {
    r: usize,
    c: usize,
    order: Order,
    base: usize,
    esize: usize,
    by_rows: bool,
}
impl Cx {
    fn len(&self) -> usize {
        if self.by_rows { self.c } else { self.r }
    }
    fn count(&self) -> usize {
        if self.by_rows { self.r } else { self.c }
    }
    fn addr(&self, vec: usize, k: usize) -> usize {
        let (i, j) = if self.by_rows { (vec, k) } else { (k, vec) };
        self.base + flat(self.r, self.c, self.order, i, j) * self.esize
    }
}
/// Consume one view completely; the direction of each step comes from the bits of `dirs`.
fn view<P, I: ExactSizeIterator<Item = P> + DoubleEndedIterator>(cx: &Cx, it: &mut I, vec: usize, dirs: usize, addr: impl Fn(P) -> usize) {
    let (mut lo, mut hi) = (0, cx.len());
    for k in 0..cx.len() + 2 {
        vt::check(it.len() == hi - lo, "len() of a row/column view");
        vt::check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint() of a row/column view");
        let back = dirs >> (k & 63) & 1 == 1;
        match if back { it.next_back() } else { it.next() } {
            None => vt::check(lo == hi, "a row/column view ends early"),
            Some(p) => {
                if lo == hi {
                    vt::check(false, "a row/column view yields too many elements");
                    return;
                }
                let k = if back { hi - 1 } else { lo };
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                if cx.esize > 0 {
                    vt::check(addr(p) == cx.addr(vec, k), "a row/column view yields the wrong element");
                }
            }
        }
    }
}
fn outer<V, I: ExactSizeIterator<Item = V> + DoubleEndedIterator>(cx: &Cx, mut it: I, dirs: usize, mut f: impl FnMut(V, usize)) {
    let (mut lo, mut hi) = (0, cx.count());
    for k in 0..cx.count() + 2 {
        vt::check(it.len() == hi - lo, "len() of the outer iterator");
        vt::check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint() of the outer iterator");
        let back = dirs >> (k & 63) & 1 == 1;
        match if back { it.next_back() } else { it.next() } {
            None => vt::check(lo == hi, "the outer iterator ends early"),
            Some(v) => {
                if lo == hi {
                    vt::check(false, "the outer iterator yields too many vectors");
                    return;
                }
                let k = if back { hi - 1 } else { lo };
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                f(v, k);
            }
        }
    }
}
fn ctx<E: El>(rmax: usize, cmax: usize) -> (Matrix<E>, Cx) {
    ctx_of(choose_state(rmax, cmax))
}
fn ctx_of<E: El>((r, c, order): (usize, usize, Order)) -> (Matrix<E>, Cx) {
    let m: Matrix<E> = build(r, c, order, (0..r * c).map(|k| E::make(k as u64)).collect());
    let base = m.iter_elements().next().map(|e| e as *const E as usize).unwrap_or(0);
    let by_rows = vt::choose_bool("rows");
    (m, Cx { r, c, order, base, esize: size_of::<E>(), by_rows })
}
fn p<E>(e: &E) -> usize {
    e as *const E as usize
}
fn pm<E>(e: &mut E) -> usize {
    e as *mut E as usize
}
fn families<E: El>(rmax: usize, cmax: usize) {
    let (mut m, cx) = ctx::<E>(rmax, cmax);
    let mutable = vt::choose_bool("mutable");
    // every direction sequence of the outer iterator, and every one of each view
    let od = vt::choose(0, (1 << cx.count()) - 1, "odirs");
    let id = vt::choose(0, (1 << cx.len()) - 1, "idirs");
    let id = id | (od & 1) << cx.len();
    match (mutable, cx.by_rows) {
        (false, true) => outer(&cx, m.iter_rows(), od, |mut v, k| view(&cx, &mut v, k, id, p::<E>)),
        (false, false) => outer(&cx, m.iter_cols(), od, |mut v, k| view(&cx, &mut v, k, id, p::<E>)),
        (true, true) => outer(&cx, m.iter_rows_mut(), od, |mut v, k| view(&cx, &mut v, k, id, pm::<E>)),
        (true, false) => outer(&cx, m.iter_cols_mut(), od, |mut v, k| view(&cx, &mut v, k, id, pm::<E>)),
    }
    vt::cover("views consumed");
}
fn nth<E: El>(rmax: usize, cmax: usize) {
    let (mut m, cx) = ctx::<E>(rmax, cmax);
    let n = vt::sym_usize("n");
    let form = vt::choose_bool("mutable");
    let valid = n < cx.count();
    macro_rules! go {
        ($call:expr, $f:expr) => {{
            match $call {
                Ok(mut v) => {
                    vt::check(valid, "an invalid row/column number was accepted");
                    if valid {
                        let n = vt::split(n);
                        let id = vt::choose(0, (1 << (cx.len() + 1)) - 1, "dirs");
                        view(&cx, &mut v, n, id, $f);
                    }
                    vt::cover("nth view consumed");
                }
                Err(e) => {
                    vt::check(!valid, "a valid row/column number was rejected");
                    vt::check(e == Error::IndexOutOfBounds, "error is not IndexOutOfBounds");
                    vt::cover("nth view rejected");
                }
            }
        }};
    }
    match (form, cx.by_rows) {
        (false, true) => go!(m.iter_nth_row(n), p::<E>),
        (false, false) => go!(m.iter_nth_col(n), p::<E>),
        (true, true) => go!(m.iter_nth_row_mut(n), pm::<E>),
        (true, false) => go!(m.iter_nth_col_mut(n), pm::<E>),
    }
}
/// Iterator adaptor methods that an implementation may override: nth, nth_back, count, last, fold, rev.
fn adaptors((mut m, cx): (Matrix<u64>, Cx), all: bool) {
    let what = vt::choose(0, 6, "what");
    let mutable = vt::choose_bool("mutable");
    let (cnt, len) = (cx.count(), cx.len());
    let k = if all { vt::choose(0, cnt, "k") } else { choose_end(cnt, "k") };
    let q = if all { vt::choose(0, len, "q") } else { choose_end(len, "q") };
    // (outer position, inner position) pairs to be seen
    let mut seen: Vec<(usize, usize)> = Vec::new();
    let mut want: Vec<(usize, usize)> = Vec::new();
    macro_rules! run {
        ($it:expr, $f:expr) => {{
            let mut it = $it;
            match what {
                0 => {
                    if let Some(mut v) = it.nth(k) {
                        if let Some(e) = v.nth(q) {
                            seen.push((0, $f(e)));
                        }
                        for e in v {
                            seen.push((0, $f(e)));
                        }
                        vt::check(it.len() == cnt - k - 1, "len() after nth");
                    }
                    if k < cnt {
                        for x in q..len {
                            want.push((0, cx.addr(k, x)));
                        }
                    }
                }
                1 => {
                    if let Some(mut v) = it.nth_back(k) {
                        if let Some(e) = v.nth_back(q) {
                            seen.push((0, $f(e)));
                        }
                        for e in v.rev() {
                            seen.push((0, $f(e)));
                        }
                        vt::check(it.len() == cnt - k - 1, "len() after nth_back");
                    }
                    if k < cnt {
                        for x in q..len {
                            want.push((0, cx.addr(cnt - 1 - k, len - 1 - x)));
                        }
                    }
                }
                2 => {
                    vt::check(it.count() == cnt, "count()");
                }
                3 => {
                    if let Some(v) = it.last() {
                        if let Some(e) = v.last() {
                            seen.push((0, $f(e)));
                        }
                    }
                    if cnt > 0 && len > 0 {
                        want.push((0, cx.addr(cnt - 1, len - 1)));
                    }
                }
                4 => {
                    it.rev().enumerate().for_each(|(a, v)| {
                        v.rev().for_each(|e| seen.push((a, $f(e))));
                    });
                    for a in 0..cnt {
                        for x in 0..len {
                            want.push((a, cx.addr(cnt - 1 - a, len - 1 - x)));
                        }
                    }
                }
                5 => {
                    it.enumerate().for_each(|(a, v)| {
                        v.fold((), |_, e| seen.push((a, $f(e))));
                    });
                    for a in 0..cnt {
                        for x in 0..len {
                            want.push((a, cx.addr(a, x)));
                        }
                    }
                }
                _ => {
                    for v in it {
                        vt::check(v.count() == len, "count() of a view");
                    }
                }
            }
        }};
    }
    match (mutable, cx.by_rows) {
        (false, true) => run!(m.iter_rows(), p::<u64>),
        (false, false) => run!(m.iter_cols(), p::<u64>),
        (true, true) => run!(m.iter_rows_mut(), pm::<u64>),
        (true, false) => run!(m.iter_cols_mut(), pm::<u64>),
    }
    vt::check(seen == want, "an iterator method skips, repeats or reorders elements");
    vt::cover("method");
}
/// Larger shapes: patterns of directions, nth views, jumps.
fn large<E: El>() {
    let (r, c, order) = choose_large();
    let mut m: Matrix<E> = build(r, c, order, (0..r * c).map(|k| E::make(k as u64)).collect());
    let base = m.iter_elements().next().map(|e| e as *const E as usize).unwrap_or(0);
    let by_rows = vt::choose_bool("rows");
    let cx = Cx { r, c, order, base, esize: size_of::<E>(), by_rows };
    const PAT: [usize; 4] = [0, usize::MAX, 0x5555_5555_5555_5555, 0x3333_3333_3333_3331];
    let mutable = vt::choose_bool("mutable");
    if vt::choose_bool("nth") {
        let n = choose_end(cx.count(), "n");
        let id = PAT[vt::choose(0, 3, "dirs")];
        let valid = n < cx.count();
        macro_rules! go {
            ($call:expr, $f:expr) => {
                match $call {
                    Ok(mut v) => {
                        vt::check(valid, "an invalid row/column number was accepted");
                        view(&cx, &mut v, n, id, $f);
                    }
                    Err(e) => vt::check(!valid && e == Error::IndexOutOfBounds, "a valid row/column number was rejected, or with another error"),
                }
            };
        }
        match (mutable, by_rows) {
            (false, true) => go!(m.iter_nth_row(n), p::<E>),
            (false, false) => go!(m.iter_nth_col(n), p::<E>),
            (true, true) => go!(m.iter_nth_row_mut(n), pm::<E>),
            (true, false) => go!(m.iter_nth_col_mut(n), pm::<E>),
        }
        vt::cover("nth view");
        return;
    }
    let od = PAT[vt::choose(0, 3, "odirs")];
    let id = PAT[vt::choose(0, 3, "idirs")];
    match (mutable, by_rows) {
        (false, true) => outer(&cx, m.iter_rows(), od, |mut v, k| view(&cx, &mut v, k, id, p::<E>)),
        (false, false) => outer(&cx, m.iter_cols(), od, |mut v, k| view(&cx, &mut v, k, id, p::<E>)),
        (true, true) => outer(&cx, m.iter_rows_mut(), od, |mut v, k| view(&cx, &mut v, k, id, pm::<E>)),
        (true, false) => outer(&cx, m.iter_cols_mut(), od, |mut v, k| view(&cx, &mut v, k, id, pm::<E>)),
    }
    vt::cover("views consumed");
}
/// Values, not only addresses: collecting the views gives the logical matrix.
fn values((r, c, order): (usize, usize, Order)) {
    let (mut m, g) = plain(r, c, order, "v");
    let rows: Vec<Vec<u64>> = m.iter_rows().map(|v| v.copied().collect()).collect();
    let cols: Vec<Vec<u64>> = m.iter_cols().map(|v| v.copied().collect()).collect();
    let rowsm: Vec<Vec<u64>> = m.iter_rows_mut().map(|v| v.map(|e| *e).collect()).collect();
    let colsm: Vec<Vec<u64>> = m.iter_cols_mut().map(|v| v.map(|e| *e).collect()).collect();
    vt::check(rows.len() == r && rowsm.len() == r, "number of rows");
    vt::check(cols.len() == c && colsm.len() == c, "number of columns");
    let mut ok = true;
    for i in 0..r {
        vt::check(rows[i].len() == c && rowsm[i].len() == c, "row length");
        for j in 0..c {
            vt::check(cols[j].len() == r && colsm[j].len() == r, "column length");
            ok &= (rows[i][j] == g[i][j]) & (rowsm[i][j] == g[i][j]) & (cols[j][i] == g[i][j]) & (colsm[j][i] == g[i][j]);
            ok &= m.get(Index::new(i, j)).map(|e| *e == g[i][j]).unwrap_or(false);
        }
    }
    vt::check(ok, "a view disagrees with the logical matrix");
    observe_matrix(&m);
    vt::cover("collected");
}

harnesses! {
    fn h_c06_u32() { families::<u32>(vt::tier(4, 5), vt::tier(4, 5)) }
    fn h_c06_b3() { families::<[u8; 3]>(vt::tier(3, 4), vt::tier(3, 4)) }
    fn h_c06_zst() { families::<Z8>(vt::tier(3, 4), vt::tier(3, 4)) }
    fn h_c06_nth() { nth::<u64>(vt::tier(4, 6), vt::tier(4, 6)) }
    fn h_c06_nth_zst() { nth::<()>(vt::tier(3, 4), vt::tier(3, 4)) }
    fn h_c06_methods() { adaptors(ctx(vt::tier(4, 6), vt::tier(4, 6)), true) }
    fn h_c06_large() { large::<u32>() }
    fn h_c06_large_b3() { large::<[u8; 3]>() }
    fn h_c06_large_methods() { adaptors(ctx_of(choose_large()), false) }
    fn h_c06_xl() { xl(); values(choose_large()) }
    fn h_c06_large_values() { values(choose_large()) }
    fn h_c06_values() { values(choose_state(vt::tier(5, 8), vt::tier(5, 8))) }
}
