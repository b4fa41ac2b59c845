//! C17: which thread boundaries the mutable row/column iterators may cross, and what happens when
//! the vectors of one iterator are mutated on several threads.
use crate::util::*;
use crate::vt;
use matreex::{Matrix, Order};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{MutexGuard, mpsc};

/// What the compiler knows about a type, as a value: the inherent methods exist (and win) only
/// when the bound holds.
struct Probe<T>(PhantomData<T>);
fn probe<T>(_: &T) -> Probe<T> {
    Probe(PhantomData)
}
trait No {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
    fn is_clone(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
trait SendYes {
    fn is_send(&self) -> bool {
        true
    }
}
impl<T: Send> SendYes for Probe<T> {}
trait SyncYes {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T: Sync> SyncYes for Probe<T> {}
trait CloneYes {
    fn is_clone(&self) -> bool {
        true
    }
}
impl<T: Clone> CloneYes for Probe<T> {}

/// Copy types of the four classes.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct SendOnly(PhantomData<*const u8>, u32);
unsafe impl Send for SendOnly {}
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct SyncOnly(PhantomData<*const u8>, u32);
unsafe impl Sync for SyncOnly {}
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Neither(PhantomData<*const u8>, u32);
/// Zero-sized members of the classes.
#[derive(Clone, Copy, Default)]
struct ZNeither(PhantomData<*const u8>);
#[derive(Clone, Copy, Default)]
struct ZSend(PhantomData<*const u8>);
unsafe impl Send for ZSend {}
#[derive(Clone, Copy, Default)]
struct ZSync(PhantomData<*const u8>);
unsafe impl Sync for ZSync {}

/// [element, outer rows, inner rows, outer cols, inner cols] as (Send, Sync, Clone)
type Row = [(bool, bool, bool); 5];
macro_rules! look {
    ($t:ty) => {{
        let mut m: Matrix<$t> = Matrix::new();
        fn element(m: &Matrix<$t>) -> Probe<$t> {
            let _ = m;
            Probe(PhantomData)
        }
        let e = element(&m);
        let e = ((&e).is_send(), (&e).is_sync(), false);
        let mut it = m.iter_rows_mut();
        let p = probe(&it);
        let q = match it.next() {
            Some(v) => Some(probe(&v)),
            None => None,
        };
        let q = unsome(q);
        let rows = [((&p).is_send(), (&p).is_sync(), (&p).is_clone()), ((&q).is_send(), (&q).is_sync(), (&q).is_clone())];
        drop(it);
        let mut it = m.iter_cols_mut();
        let p = probe(&it);
        let q = match it.next() {
            Some(v) => Some(probe(&v)),
            None => None,
        };
        let q = unsome(q);
        let cols = [((&p).is_send(), (&p).is_sync(), (&p).is_clone()), ((&q).is_send(), (&q).is_sync(), (&q).is_clone())];
        drop(it);
        let row: Row = [e, rows[0], rows[1], cols[0], cols[1]];
        row
    }};
}
fn unsome<T>(_: Option<Probe<T>>) -> Probe<T> {
    Probe(PhantomData)
}
const TYPES: usize = 22;
fn table() -> [Row; TYPES] {
    [
        look!(u64),
        look!(()),
        look!(String),
        look!(Cell<u64>),
        look!(mpsc::Receiver<u8>),
        look!(SendOnly),
        look!(ZSend),
        look!(Option<Cell<u8>>),
        look!(MutexGuard<'static, u64>),
        look!(SyncOnly),
        look!(ZSync),
        look!(Option<MutexGuard<'static, ()>>),
        look!(Rc<u64>),
        look!(*const u64),
        look!(*mut u64),
        look!(&'static Cell<u64>),
        look!(Neither),
        look!(ZNeither),
        look!(Box<dyn Fn()>),
        look!(Vec<Rc<()>>),
        look!(&'static SyncOnly),
        look!(&'static SendOnly),
    ]
}
/// expected classes of the element types, so that the probe itself is known to work
const CLASS: [(bool, bool); TYPES] = [
    (true, true),
    (true, true),
    (true, true),
    (true, false),
    (true, false),
    (true, false),
    (true, false),
    (true, false),
    (false, true),
    (false, true),
    (false, true),
    (false, true),
    (false, false),
    (false, false),
    (false, false),
    (false, false),
    (false, false),
    (false, false),
    (false, false),
    (false, false),
    (true, true),
    (false, false),
];
fn bounds() {
    let t = table();
    let k = vt::sym_usize("type");
    let which = vt::sym_usize("iterator");
    vt::assume((k < TYPES) & (which >= 1) & (which < 5));
    let e = t[k][0];
    let (send, sync, clone) = t[k][which];
    let c = CLASS[k];
    vt::check((e.0 == c.0) & (e.1 == c.1), "harness: class of an element type");
    vt::check(!send | e.0, "an iterator can be moved to another thread although its elements are not Send");
    vt::check(!sync | e.1, "an iterator can be shared although its elements are not Sync");
    vt::check(!clone, "an iterator over exclusive references can be duplicated");
    // the elements reached through a shared iterator would be reached by exclusive reference: what
    // an iterator that is itself shared hands out is at most its length
    vt::cover(if send { "may be moved" } else { "may not be moved" });
    vt::cover(if sync { "may be shared" } else { "may not be shared" });
}

const MAXV: usize = 8;
/// One vector in flight.
struct Flight<V> {
    it: V,
    owner: u64,
    vec: usize,
    done: usize,
    left: bool,
}
struct World {
    by_rows: bool,
    r: usize,
    c: usize,
    order: Order,
    base: usize,
    n: usize,
    dirs: usize,
    /// thread that reached the element, by memory position
    owner: Vec<u64>,
    /// logical visit number of the element inside its vector
    visit: Vec<usize>,
}
impl World {
    fn step<'a, V: ExactSizeIterator<Item = &'a mut u64> + DoubleEndedIterator>(&mut self, f: &mut Flight<V>) {
        if f.left {
            return;
        }
        let back = self.dirs >> (f.done % 4) & 1 == 1;
        vt::thread(f.owner);
        let e = if back { f.it.next_back() } else { f.it.next() };
        let a = match e {
            None => {
                vt::pause();
                f.left = true;
                vt::check(f.done == self.n, "a vector does not yield each of its elements");
                return;
            }
            Some(e) => {
                *e = f2(*e, (f.vec * 256 + f.done) as u64);
                e as *mut u64 as usize
            }
        };
        vt::pause();
        let k = a.wrapping_sub(self.base) / 8;
        if k >= self.r * self.c || a % 8 != 0 {
            vt::check(false, "a reference outside of the matrix was handed out");
            return;
        }
        vt::check(self.owner[k] == 0, "an element is reachable from two places");
        self.owner[k] = f.owner;
        self.visit[k] = f.vec * 256 + f.done;
        f.done += 1;
    }
}
/// `which[k]` = logical number of the k-th vector taken
fn concurrent<'a, V: ExactSizeIterator<Item = &'a mut u64> + DoubleEndedIterator, I: ExactSizeIterator<Item = V> + DoubleEndedIterator>(w: &mut World, m: usize, mut it: I, threads: usize, pulls: usize, pipeline: bool, large: usize) {
    let mut flights: Vec<Flight<V>> = Vec::with_capacity(MAXV);
    let (mut lo, mut hi) = (0, m);
    let mut top = 0;
    for k in 0..m {
        // a fresh thread only after the ones before it are in use
        let owner = match large {
            0 => vt::choose(1, (top + 1).min(threads), "owner"),
            1 => 1 + k % threads,
            _ => 1 + k * threads / m,
        };
        top = top.max(owner);
        let back = pulls >> (k % 4) & 1 == 1;
        // the outer iterator advances on a thread of its own
        vt::thread(7);
        let v = if back { it.next_back() } else { it.next() };
        vt::pause();
        let Some(v) = v else {
            vt::check(false, "the iterator ends early");
            return;
        };
        let vec = if back {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        flights.push(Flight { it: v, owner: owner as u64, vec, done: 0, left: false });
        if pipeline {
            // the vectors handed out so far are in use while the next one is taken
            for f in flights.iter_mut() {
                w.step(f);
            }
        }
    }
    vt::thread(7);
    let end = it.next().is_none() && it.next_back().is_none();
    vt::pause();
    vt::check(end, "the iterator yields too many vectors");
    // an arbitrary start of the interleaving, the rest in turn
    let mut free = if large > 0 { 0 } else { vt::tier(2, 3) };
    loop {
        let live: usize = flights.iter().filter(|f| !f.left).count();
        if live == 0 {
            break;
        }
        if free > 0 && live > 1 {
            free -= 1;
            let k = vt::choose(0, live - 1, "next");
            let mut i = 0;
            for f in flights.iter_mut().filter(|f| !f.left) {
                if i == k {
                    w.step(f);
                }
                i += 1;
            }
        } else {
            for f in flights.iter_mut() {
                w.step(f);
            }
        }
    }
}
fn race((r, c, order): (usize, usize, Order), threads: usize, large: bool) {
    let by_rows = vt::choose_bool("rows");
    let pipeline = vt::choose_bool("pipeline");
    // on larger shapes the vectors are dealt out in turn or in blocks
    let large = if large { vt::choose(1, 2, "deal") } else { 0 };
    let (m, n) = if by_rows { (r, c) } else { (c, r) };
    let dirs = [0, 0b1111, 0b0110][vt::choose(0, if n > 1 { 2 } else { 0 }, "dirs")];
    let pulls = [0, 0b1111, 0b0110][vt::choose(0, if m > 1 { 2 } else { 0 }, "pulls")];
    let vals = sym_vals(r * c, "v");
    let g = grid(r, c, order, &vals);
    let mut a = build(r, c, order, vals);
    let base = a.iter_elements().next().map_or(0, |e| e as *const u64 as usize);
    let mut w = World { by_rows, r, c, order, base, n, dirs, owner: vec![0; r * c], visit: vec![0; r * c] };
    if by_rows {
        concurrent(&mut w, m, a.iter_rows_mut(), threads, pulls, pipeline, large);
    } else {
        concurrent(&mut w, m, a.iter_cols_mut(), threads, pulls, pipeline, large);
    }
    vt::thread(0);
    // the sequential outcome: vector by vector
    let mut want = g.clone();
    for v in 0..m {
        let (mut lo, mut hi) = (0, n);
        for d in 0..n {
            let k = if w.dirs >> (d % 4) & 1 == 1 {
                hi -= 1;
                hi
            } else {
                lo += 1;
                lo - 1
            };
            let (i, j) = if w.by_rows { (v, k) } else { (k, v) };
            want[i][j] = f2(want[i][j], (v * 256 + d) as u64);
        }
    }
    vt::check(a.order() == w.order && same(&a, r, c, &want), "the outcome differs from the sequential one");
    let mut ok = true;
    for k in 0..r * c {
        ok &= w.owner[k] != 0;
    }
    vt::check(ok, "an element is in no vector");
    observe_matrix(&a);
    vt::cover("mutated concurrently");
}
harnesses! {
    fn h_c17_bounds() { bounds() }
    fn h_c17_race() { race(choose_state(vt::tier(4, 5), vt::tier(4, 5)), vt::tier(3, 4), false) }
    fn h_c17_large() {
        const S: [(usize, usize); 12] = [(2, 9), (9, 2), (6, 7), (7, 6), (1, 20), (20, 1), (8, 9), (2, 65), (8, 8), (3, 17), (17, 3), (40, 1)];
        let k = vt::choose(0, vt::tier(7, 11), "large");
        vt::shard(k);
        race((S[k].0, S[k].1, choose_order("order")), vt::tier(3, 5), true)
    }
    fn h_c17_xl() {
        const S: [(usize, usize); 5] = [(17, 18), (3, 342), (33, 34), (520, 2), (65, 66)];
        let k = vt::choose(0, vt::tier(1, 4), "xl");
        let o = choose_order("order");
        vt::shard(k * 2 + (o == Order::ColMajor) as usize);
        race((S[k].0, S[k].1, o), 3, true)
    }
    fn h_c17_thin() {
        if vt::choose_bool("wide") { race(choose_state(2, vt::tier(6, 7)), vt::tier(2, 3), false) } else { race(choose_state(vt::tier(6, 7), 2), vt::tier(2, 3), false) }
    }
}
