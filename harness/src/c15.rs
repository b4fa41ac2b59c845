//! C15: element iteration order, reported indices, exactly-once moves.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::{Index, Matrix, Order};

/// A state reached through order/shape changing operations, with its expected layout.
fn state((mut r, mut c, mut o): (usize, usize, Order), ops: usize) -> (Matrix<T>, usize, usize, Order, Vec<u64>, usize) {
    let vals = sym_vals(r * c, "v");
    let mut m = build(r, c, o, vals.iter().map(|v| T::new(*v)).collect());
    let first = elem::born() - r * c;
    // memory-order list of serial numbers
    let mut mem: Vec<usize> = (0..r * c).collect();
    for _ in 0..ops {
        match vt::choose(0, 4, "op") {
            0 => {}
            1 => {
                m.transpose();
                let g: Vec<usize> = (0..r * c).map(|k| mem[k]).collect();
                let mut n = vec![0; r * c];
                for i in 0..r {
                    for j in 0..c {
                        n[flat(c, r, o, j, i)] = g[flat(r, c, o, i, j)];
                    }
                }
                mem = n;
                std::mem::swap(&mut r, &mut c);
            }
            2 => {
                m.switch_order();
                let mut n = vec![0; r * c];
                for i in 0..r {
                    for j in 0..c {
                        n[flat(r, c, other(o), i, j)] = mem[flat(r, c, o, i, j)];
                    }
                }
                mem = n;
                o = other(o);
            }
            3 => {
                m.switch_order_without_rearrangement();
                std::mem::swap(&mut r, &mut c);
                o = other(o);
            }
            _ => {
                vt::check(m.reshape((c, r)).is_ok(), "reshape");
                std::mem::swap(&mut r, &mut c);
            }
        }
    }
    let vals = mem.iter().map(|k| vals[*k]).collect();
    (m, r, c, o, vals, first)
}
/// logical position of the k-th element in memory order
fn pos(r: usize, c: usize, o: Order, k: usize) -> (usize, usize) {
    let _ = (r, c);
    if o == Order::RowMajor { (k / c, k % c) } else { (k % r, k / r) }
}
/// Every direction sequence; `see(item, k)` judges the item at memory position k.
fn drive<P, I: ExactSizeIterator<Item = P> + DoubleEndedIterator>(mut it: I, n: usize, stop: usize, dirs: usize, mut see: impl FnMut(P, usize)) {
    let (mut lo, mut hi) = (0, n);
    let mut k = 0;
    while lo < hi && k < stop {
        vt::check(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "len()");
        let back = dirs >> (k % 64) & 1 == 1;
        match if back { it.next_back() } else { it.next() } {
            None => {
                vt::check(false, "iteration ends early");
                return;
            }
            Some(p) => {
                if back {
                    hi -= 1;
                    see(p, hi);
                } else {
                    see(p, lo);
                    lo += 1;
                }
            }
        }
        k += 1;
    }
    if lo == hi {
        vt::check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "iteration yields too many elements");
    }
    // an unfinished iterator is dropped here: the rest of owned elements goes with it
}
fn run(s: (usize, usize, Order), ops: usize, large: bool) {
    let (mut m, r, c, o, vals, _) = state(s, ops);
    let n = r * c;
    let addrs: Vec<usize> = (0..n)
        .map(|k| {
            let (i, j) = pos(r, c, o, k);
            match m.get((i, j)) {
                Ok(e) => e as *const T as usize,
                Err(_) => 0,
            }
        })
        .collect();
    vt::check(m.nrows() == r && m.ncols() == c && m.order() == o, "state");
    let w = vt::choose(0, 5, "what");
    let (stop, dirs) = if large {
        let k = vt::choose(0, 5, "dirs");
        ([n, n, n, n - 1, n / 2, n][k], [0, usize::MAX, 0x5555_5555_5555_5555, 0x3333_3333_3333_3331, 0x9249_2492_4924_9249, 0xff00_ff00_ff00_ff00][k])
    } else {
        let stop = n - vt::choose(0, n.min(1), "rest");
        let dirs = vt::choose(0, (1 << n.min(5)) - 1, "dirs");
        (stop, dirs | dirs << 5)
    };
    let (born, drops) = (elem::born(), elem::drops());
    let a = |e: &T| e as *const T as usize;
    let is = |x: Index, k: usize| (x.row, x.col) == pos(r, c, o, k);
    match w {
        0 => drive(m.iter_elements(), n, stop, dirs, |e, k| vt::check((a(e) == addrs[k]) & (e.v == vals[k]), "iter_elements: not the element next in memory order")),
        1 => drive(m.iter_elements_mut(), n, stop, dirs, |e, k| vt::check((a(e) == addrs[k]) & (e.v == vals[k]), "iter_elements_mut: not the element next in memory order")),
        2 => drive(m.iter_elements_with_index(), n, stop, dirs, |(i, e), k| vt::check(is(i, k) & (a(e) == addrs[k]) & (e.v == vals[k]), "iter_elements_with_index: wrong pair")),
        3 => drive(m.iter_elements_mut_with_index(), n, stop, dirs, |(i, e), k| vt::check(is(i, k) & (a(e) == addrs[k]) & (e.v == vals[k]), "iter_elements_mut_with_index: wrong pair")),
        4 => {
            let mut kept = Vec::new();
            drive(m.into_iter_elements(), n, stop, dirs, |e, k| {
                vt::check(e.ok() & (e.v == vals[k]), "into_iter_elements: not the element next in memory order");
                kept.push(e);
            });
            vt::check(elem::live() == kept.len(), "into_iter_elements leaked or duplicated elements");
            vt::check(elem::born() == born, "into_iter_elements cloned");
            drop(kept);
            elem::check_no_leak();
            vt::cover("owned");
            return;
        }
        _ => {
            let mut kept = Vec::new();
            drive(m.into_iter_elements_with_index(), n, stop, dirs, |(i, e), k| {
                vt::check(is(i, k) & e.ok() & (e.v == vals[k]), "into_iter_elements_with_index: wrong pair");
                kept.push(e);
            });
            vt::check(elem::live() == kept.len(), "into_iter_elements_with_index leaked or duplicated elements");
            vt::check(elem::born() == born, "into_iter_elements_with_index cloned");
            drop(kept);
            elem::check_no_leak();
            vt::cover("owned");
            return;
        }
    }
    vt::check(elem::born() == born && elem::drops() == drops, "iteration cloned or dropped");
    observe_matrix(&m);
    drop(m);
    elem::check_no_leak();
    vt::cover("borrowed");
}
/// Skipping calls, then the rest through internal iteration.
fn jump<P, I: ExactSizeIterator<Item = P> + DoubleEndedIterator>(mut it: I, n: usize, mut see: impl FnMut(P, usize)) {
    let (mut lo, mut hi) = (0, n);
    for _ in 0..2 {
        let skip = vt::choose(0, 2, "skip");
        let back = vt::choose_bool("back");
        let got = if back { it.nth_back(skip) } else { it.nth(skip) };
        vt::check(got.is_some() == (hi - lo > skip), "nth: an item although fewer are left, or none although enough are");
        match got {
            None => lo = hi,
            Some(p) if back => {
                hi -= skip + 1;
                see(p, hi);
            }
            Some(p) => {
                lo += skip + 1;
                see(p, lo - 1);
            }
        }
        vt::check(it.len() == hi - lo, "len()");
    }
    match vt::choose(0, 5, "rest") {
        0 => it.for_each(|p| {
            see(p, lo);
            lo += 1;
        }),
        1 => it.rev().for_each(|p| {
            hi -= 1;
            see(p, hi);
        }),
        2 => {
            vt::check(it.count() == hi - lo, "count()");
            return;
        }
        3 => {
            let p = it.last();
            vt::check(p.is_some() == (lo < hi), "last()");
            if let Some(p) = p {
                see(p, hi - 1);
            }
            return;
        }
        4 => {
            for p in it.step_by(2) {
                see(p, lo);
                lo += 2;
            }
            vt::check(lo == hi || lo == hi + 1, "step_by() ends elsewhere");
            return;
        }
        _ => {
            let v: Vec<P> = it.collect();
            vt::check(v.len() == hi - lo, "collect()");
            for p in v {
                see(p, lo);
                lo += 1;
            }
        }
    }
    vt::check(lo == hi, "iteration ends early");
}
fn jumps(s: (usize, usize, Order)) {
    let (mut m, r, c, o, vals, _) = state(s, 0);
    let n = r * c;
    let is = |x: Index, k: usize| k < n && (x.row, x.col) == pos(r, c, o, k);
    let val = |k: usize| if k < n { vals[k] } else { 0 };
    match vt::choose(0, 5, "what") {
        0 => jump(m.iter_elements(), n, |e, k| vt::check(k < n && e.v == val(k), "iter_elements: not the element next in memory order")),
        1 => jump(m.iter_elements_mut(), n, |e, k| vt::check(k < n && e.v == val(k), "iter_elements_mut: not the element next in memory order")),
        2 => jump(m.iter_elements_with_index(), n, |(i, e), k| vt::check(is(i, k) && e.v == val(k), "iter_elements_with_index: wrong pair")),
        3 => jump(m.iter_elements_mut_with_index(), n, |(i, e), k| vt::check(is(i, k) && e.v == val(k), "iter_elements_mut_with_index: wrong pair")),
        4 => {
            jump(m.into_iter_elements(), n, |e, k| vt::check(k < n && e.ok() && e.v == val(k), "into_iter_elements: not the element next in memory order"));
            elem::check_no_leak();
            vt::cover("owned");
            return;
        }
        _ => {
            jump(m.into_iter_elements_with_index(), n, |(i, e), k| vt::check(is(i, k) && e.ok() && e.v == val(k), "into_iter_elements_with_index: wrong pair"));
            elem::check_no_leak();
            vt::cover("owned");
            return;
        }
    }
    drop(m);
    elem::check_no_leak();
    vt::cover("borrowed");
}
/// Elements of other sizes.
fn types<E: crate::c03::El>((r, c, o): (usize, usize, Order)) {
    let n = r * c;
    let mk = |k: usize| {
        let mut e = E::make(0);
        e.mark(k as u64 + 1);
        e
    };
    let mut m: Matrix<E> = build(r, c, o, (0..n).map(mk).collect());
    let dirs = [0, usize::MAX, 0b10110][vt::choose(0, 2, "dirs")];
    let is = |x: Index, k: usize| (x.row, x.col) == pos(r, c, o, k);
    let it = |e: &E, k: usize| e.marked(k as u64 + 1);
    match vt::choose(0, 5, "what") {
        0 => drive(m.iter_elements(), n, n, dirs, |e, k| vt::check(it(e, k), "iter_elements: not the element next in memory order")),
        1 => drive(m.iter_elements_mut(), n, n, dirs, |e, k| vt::check(it(e, k), "iter_elements_mut: not the element next in memory order")),
        2 => drive(m.iter_elements_with_index(), n, n, dirs, |(i, e), k| vt::check(is(i, k) & it(e, k), "iter_elements_with_index: wrong pair")),
        3 => drive(m.iter_elements_mut_with_index(), n, n, dirs, |(i, e), k| vt::check(is(i, k) & it(e, k), "iter_elements_mut_with_index: wrong pair")),
        4 => drive(m.into_iter_elements(), n, n, dirs, |e, k| vt::check(it(&e, k), "into_iter_elements: not the element next in memory order")),
        _ => drive(m.into_iter_elements_with_index(), n, n, dirs, |(i, e), k| vt::check(is(i, k) & it(&e, k), "into_iter_elements_with_index: wrong pair")),
    }
    vt::cover("other sizes");
}
/// The parallel variants under the schedules the caller has set up.
fn par(s: (usize, usize, Order), ops: usize) {
    use matreex::parallel::*;
    let (mut m, r, c, o, vals, _) = state(s, ops);
    let n = r * c;
    let mut addrs: Vec<usize> = Vec::new();
    for i in 0..r {
        for j in 0..c {
            addrs.push(m.get((i, j)).map(|e| e as *const T as usize).unwrap_or(0));
        }
    }
    let seen: Vec<std::sync::atomic::AtomicUsize> = (0..n).map(|_| Default::default()).collect();
    let born = elem::born();
    let hit = |i: Index, a: Option<usize>, v: u64| {
        if i.row >= r || i.col >= c {
            vt::check(false, "index out of the matrix");
            return;
        }
        let k = flat(r, c, o, i.row, i.col);
        vt::check(v == vals[k], "parallel iteration pairs an element with another index");
        if let Some(a) = a {
            vt::check(a == addrs[i.row * c + i.col], "parallel iteration pairs a reference with another index");
        }
        vt::check(seen[k].fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 0, "an element was visited twice");
    };
    match vt::choose(0, 2, "what") {
        0 => m.par_iter_elements_with_index().for_each(|(i, e)| hit(i, Some(e as *const T as usize), e.v)),
        1 => m.par_iter_elements_mut_with_index().for_each(|(i, e)| hit(i, Some(e as *mut T as usize), e.v)),
        _ => {
            m.into_par_iter_elements_with_index().for_each(|(i, e)| {
                vt::check(e.ok(), "a dead element was moved out");
                hit(i, None, e.v)
            });
            vt::check(seen.iter().all(|s| s.load(std::sync::atomic::Ordering::Relaxed) == 1), "an element was not visited");
            vt::check(elem::born() == born, "cloned");
            elem::check_no_leak();
            vt::cover("parallel");
            return;
        }
    }
    vt::check(seen.iter().all(|s| s.load(std::sync::atomic::Ordering::Relaxed) == 1), "an element was not visited");
    drop(m);
    elem::check_no_leak();
    vt::cover("parallel");
}
/// Extreme matrices of zero-sized elements: the first and last few indices.
fn huge(steps: usize) {
    let (a, b) = crate::c03::pair();
    let order = choose_order("order");
    let mut m: Matrix<()> = crate::c03::zst(a * b, a, b, order);
    let n = a * b;
    let check = |i: Index, f: usize| vt::check((i.row, i.col) == pos(a, b, order, f), "the index paired with an element is not its position");
    macro_rules! ends {
        ($it:expr) => {{
            let mut it = $it;
            let (mut lo, mut hi) = (0, n);
            for _ in 0..steps {
                let back = vt::choose_bool("back");
                match if back { it.next_back() } else { it.next() } {
                    Some((i, _)) => {
                        vt::check(lo < hi, "an element out of nothing");
                        if back {
                            hi -= 1;
                            check(i, hi);
                        } else {
                            check(i, lo);
                            lo += 1;
                        }
                    }
                    None => vt::check(lo == hi, "iteration ends early"),
                }
                vt::check(it.len() == hi - lo, "len()");
            }
            std::mem::forget(it);
        }};
    }
    match vt::choose(0, 2, "what") {
        0 => ends!(m.iter_elements_with_index()),
        1 => ends!(m.iter_elements_mut_with_index()),
        _ => {
            ends!(m.into_iter_elements_with_index());
            vt::cover("huge matrix");
            return;
        }
    }
    std::mem::forget(m);
    vt::cover("huge matrix");
}
harnesses! {
    fn h_c15_plain() { run(choose_state(vt::tier(4, 5), vt::tier(4, 5)), 0, false) }
    fn h_c15_history() { run(choose_state(3, 3), vt::tier(1, 3), false) }
    fn h_c15_jump() { jumps(choose_state(vt::tier(3, 4), vt::tier(3, 4))) }
    fn h_c15_types() {
        let n = vt::tier(3, 5);
        let s = choose_state(n, n);
        match vt::choose(0, 6, "type") {
            0 => types::<u8>(s),
            1 => types::<u16>(s),
            2 => types::<[u8; 3]>(s),
            3 => types::<u128>(s),
            4 => types::<crate::c03::Big>(s),
            5 => types::<crate::c03::Z64>(s),
            _ => types::<()>(s),
        }
    }
    fn h_c15_large() { run(choose_large(), 0, true) }
    fn h_c15_xl() { xl(); types::<u32>(choose_large()) }
    fn h_c15_large_par() {
        let s = choose_large();
        if s.0 * s.1 <= vt::tier(20, 42) {
            vt::any_level_schedule(vt::tier(2, 5));
            par(s, 0)
        }
    }
    fn h_c15_huge() { huge(vt::tier(5, 8)) }
    fn h_c15_par() {
        let n = vt::tier(4, 6);
        let s = choose_state(n, n);
        if s.0 * s.1 <= vt::tier(6, 9) {
            vt::any_schedule(3);
            par(s, 1)
        }
    }
}
