//! C16: the parallel helpers against their sequential counterparts, for every fork-join schedule.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::parallel::*;
use matreex::{Error, Index, Matrix, Order};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// A matrix of live elements; its logical contents; how often each element (by serial number) was
/// handed to a closure.
struct Case {
    m: Matrix<T>,
    r: usize,
    c: usize,
    o: Order,
    vals: Vec<u64>,
    first: usize,
    seen: Vec<AtomicUsize>,
}
impl Case {
    fn new(r: usize, c: usize, o: Order) -> Case {
        let vals = sym_vals(r * c, "v");
        let first = elem::born();
        let m = build(r, c, o, vals.iter().map(|v| T::new(*v)).collect());
        Case { m, r, c, o, first, seen: (0..r * c).map(|_| Default::default()).collect(), vals }
    }
}
fn hit(seen: &[AtomicUsize], first: usize, t: &T) {
    vt::check(t.ok(), "the closure got a dead element");
    let k = (t.id as usize).wrapping_sub(first);
    if k >= seen.len() {
        vt::check(false, "the closure got something that is not an element");
        return;
    }
    vt::check(seen[k].fetch_add(1, Relaxed) == 0, "an element is visited twice");
}
fn all(seen: &[AtomicUsize]) {
    vt::check(seen.iter().all(|s| s.load(Relaxed) == 1), "an element is not visited exactly once");
}
/// memory-order position of the element reported at logical index i
fn memory_position(r: usize, c: usize, o: Order, i: Index) -> Option<usize> {
    if i.row < r && i.col < c { Some(flat(r, c, o, i.row, i.col)) } else { None }
}
fn helper(c: Case, form: usize) {
    let Case { mut m, r, c, o, vals, first, seen } = c;
    let n = r * c;
    let expect = |m: &Matrix<T>, what: &str| {
        vt::check(m.order() == o, what);
        vt::check(same(m, r, c, &grid(r, c, o, &vals.iter().map(|v| f1(*v)).collect::<Vec<_>>())), what);
        check_coherent(m);
        observe_matrix(m);
    };
    match form {
        0 => {
            let me = &m as *const Matrix<T>;
            let x = m.par_apply(|t| {
                hit(&seen, first, t);
                t.v = f1(t.v);
            }) as *const Matrix<T>;
            vt::check(x == me, "par_apply returns another matrix");
            expect(&m, "par_apply differs from apply");
            vt::check(elem::live() == n, "par_apply creates or loses elements");
        }
        1 => {
            let res = m.par_map(|t| {
                hit(&seen, first, &t);
                T::new(f1(t.v))
            });
            match &res {
                Ok(m) => expect(m, "par_map differs from map"),
                Err(_) => vt::check(false, "par_map fails where map succeeds"),
            }
            vt::check(elem::live() == n, "par_map leaks or loses elements");
        }
        2 => {
            let res = m.par_map_ref(|t| {
                hit(&seen, first, t);
                T::new(f1(t.v))
            });
            match &res {
                Ok(m) => expect(m, "par_map_ref differs from map_ref"),
                Err(_) => vt::check(false, "par_map_ref fails where map_ref succeeds"),
            }
            vt::check(same(&m, r, c, &grid(r, c, o, &vals)) && m.order() == o, "par_map_ref changes its source");
            vt::check(elem::live() == 2 * n, "par_map_ref leaks or loses elements");
        }
        // the iterators, driven by different consumers
        3 => m.par_iter_elements().for_each(|t| hit(&seen, first, t)),
        4 => {
            m.par_iter_elements_mut().for_each(|t| {
                hit(&seen, first, t);
                t.v = f1(t.v);
            });
            expect(&m, "par_iter_elements_mut does not reach the elements in place");
        }
        5 => {
            m.into_par_iter_elements().for_each(|t| hit(&seen, first, &t));
            elem::check_no_leak();
        }
        6 => {
            let v: Vec<&T> = m.par_iter_elements().collect();
            vt::check(v.len() == n, "par_iter_elements: number of items");
            v.iter().for_each(|t| hit(&seen, first, t));
        }
        7 => {
            let v: Vec<T> = m.into_par_iter_elements().collect();
            vt::check(v.len() == n && elem::live() == n, "into_par_iter_elements: number of items");
            v.iter().for_each(|t| hit(&seen, first, t));
        }
        // with indices
        8 | 9 | 10 | 11 | 12 => {
            let items: Mutex<Vec<(Index, u32)>> = Mutex::new(Vec::new());
            let put = |i: Index, t: &T| {
                hit(&seen, first, t);
                items.lock().unwrap().push((i, t.id));
            };
            match form {
                8 => m.par_iter_elements_with_index().for_each(|(i, t)| put(i, t)),
                9 => m.par_iter_elements_mut_with_index().for_each(|(i, t)| put(i, t)),
                10 => m.into_par_iter_elements_with_index().for_each(|(i, t)| put(i, &t)),
                11 => {
                    let v: Vec<(Index, &T)> = m.par_iter_elements_with_index().filter(|(i, _)| i.row + i.col < 100000).collect();
                    v.iter().for_each(|(i, t)| put(*i, t));
                }
                _ => {
                    let v: Vec<(Index, T)> = m.into_par_iter_elements_with_index().filter(|(i, _)| i.row + i.col < 100000).collect();
                    v.iter().for_each(|(i, t)| put(*i, t));
                }
            }
            let items = items.into_inner().unwrap();
            vt::check(items.len() == n, "with_index: number of items");
            for (i, id) in items {
                vt::check(memory_position(r, c, o, i) == Some(id as usize - first), "an element is paired with another element's index");
            }
        }
        // stopping early: nothing twice, nothing lost
        13 => {
            let k = vt::choose(0, n, "target");
            let found = m.par_iter_elements_with_index().find_any(|(_, t)| t.id as usize == first + k);
            match found {
                Some((i, t)) => vt::check(k < n && t.id as usize == first + k && memory_position(r, c, o, i) == Some(k), "find_any"),
                None => vt::check(k == n, "find_any misses an element"),
            }
            drop(m);
            elem::check_no_leak();
            vt::cover("stopped early");
            return;
        }
        _ => {
            let k = vt::choose(0, n, "target");
            let found = m.into_par_iter_elements_with_index().find_any(|(_, t)| t.id as usize == first + k);
            match &found {
                Some((i, t)) => vt::check(k < n && t.ok() && t.id as usize == first + k && memory_position(r, c, o, *i) == Some(k), "find_any"),
                None => vt::check(k == n, "find_any misses an element"),
            }
            drop(found);
            elem::check_no_leak();
            vt::cover("stopped early");
            return;
        }
    }
    all(&seen);
    vt::check(elem::clones() == 0, "elements were cloned");
    vt::cover("compared");
}
/// every schedule
fn small(max: usize, size: usize, threads: usize) {
    let (r, c, o) = choose_state(max, max);
    if r * c > size {
        return;
    }
    let form = vt::choose(0, 14, "form");
    vt::any_schedule(threads);
    helper(Case::new(r, c, o), form);
}
/// larger shapes, the scheduler decides once per level
fn large(sizes: &[(usize, usize)], threads: usize, uniform: bool) {
    let k = vt::choose(0, sizes.len() - 1, "shape");
    let o = choose_order("order");
    let form = vt::choose(0, 12, "form");
    vt::shard(k * 26 + form * 2 + (o == Order::ColMajor) as usize);
    let (r, c) = sizes[k];
    if uniform {
        vt::any_uniform_schedule(threads)
    } else {
        vt::any_level_schedule(threads)
    }
    helper(Case::new(r, c, o), form);
}
/// The size limit: the parallel mappings fail exactly like the sequential ones.
fn overflow<E: Copy + Send + Sync>(e: E) {
    let n = vt::sym_usize("n");
    let unit = size_of::<E>();
    let fits = unit == 0 || n <= isize::MAX as usize / unit;
    // a mapping that exists visits every element: small numbers only
    vt::assume(!fits | (n <= 3));
    let n = if fits { vt::split(n) } else { n };
    let o = choose_order("order");
    let row = vt::choose_bool("row");
    let (r, c) = if row { (1, n) } else { (n, 1) };
    let m: Matrix<()> = crate::c03::zst(n, r, c, o);
    let calls = AtomicUsize::new(0);
    let f = |_: &()| {
        calls.fetch_add(1, Relaxed);
        e
    };
    let seq = m.map_ref(f);
    let seq = seq.map(|m| (m.nrows(), m.ncols(), m.order()));
    calls.store(0, Relaxed);
    let par = match vt::choose(0, 1, "form") {
        0 => {
            let p = m.par_map_ref(f);
            std::mem::forget(m);
            p
        }
        _ => m.par_map(|u| f(&u)),
    };
    let calls = calls.load(Relaxed);
    match (seq, par) {
        (Ok((r, c, o)), Ok(p)) => {
            vt::check(fits && (p.nrows() == r) & (p.ncols() == c) & (p.order() == o), "shape or order");
            vt::check(calls == n, "calls");
            vt::cover("fits");
        }
        (Err(a), Err(b)) => {
            vt::check(a == b && b == Error::CapacityOverflow && !fits, "another error than the sequential counterpart");
            vt::check(calls == 0, "calls");
            vt::cover("too large");
        }
        _ => vt::check(false, "the parallel mapping fails where the sequential one succeeds, or vice versa"),
    }
}
#[cfg(not(feature = "thorough"))]
const SIZES: &[(usize, usize)] = &[(3, 4), (1, 17), (4, 6)];
#[cfg(feature = "thorough")]
const SIZES: &[(usize, usize)] = &[(3, 4), (4, 4), (1, 17), (13, 1), (5, 5), (3, 11), (8, 8), (64, 1), (2, 49), (10, 10), (7, 19)];
#[cfg(not(feature = "thorough"))]
const WIDE: &[(usize, usize)] = &[(5, 7), (1, 71), (11, 12)];
#[cfg(feature = "thorough")]
const WIDE: &[(usize, usize)] = &[(5, 7), (37, 1), (1, 71), (9, 9), (11, 12), (1, 130), (15, 17), (1, 259)];
#[cfg(not(feature = "thorough"))]
const FAR: &[(usize, usize)] = &[(33, 34)];
#[cfg(feature = "thorough")]
const FAR: &[(usize, usize)] = &[(17, 18), (33, 34), (1, 1030), (1030, 1), (3, 342)];
harnesses! {
    fn h_c16_xl() { large(FAR, 2, true) }
    fn h_c16_wide() { large(WIDE, vt::tier(3, 16), true) }
    fn h_c16_small() { small(vt::tier(6, 8), vt::tier(6, 8), vt::tier(3, 4)) }
    fn h_c16_large() { large(SIZES, vt::tier(5, 16), false) }
    fn h_c16_over1() { overflow(1u8) }
    fn h_c16_over8() { overflow(1u64) }
    fn h_c16_over24() { overflow([1u64; 3]) }
    fn h_c16_over0() { overflow(()) }
}
