//! Building arbitrary matrix states and reading them back through the public API.
use crate::elem::T;
use crate::vt;
use matreex::{Index, Matrix, Order};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// A matrix with the given order, logical shape and memory-order sequence.
pub fn build<E>(rows: usize, cols: usize, order: Order, data: Vec<E>) -> Matrix<E> {
    let mut m = Matrix::from_row(data);
    if order == Order::RowMajor {
        m.reshape((rows, cols)).expect("pre-state");
    } else {
        m.reshape((cols, rows)).expect("pre-state");
        m.switch_order_without_rearrangement();
    }
    m
}
/// Position in the memory-order sequence of logical (r, c).
pub fn flat(rows: usize, cols: usize, order: Order, r: usize, c: usize) -> usize {
    if order == Order::RowMajor { r.wrapping_mul(cols).wrapping_add(c) } else { c.wrapping_mul(rows).wrapping_add(r) }
}
pub fn choose_order(name: &str) -> Order {
    if vt::choose_bool(name) { Order::ColMajor } else { Order::RowMajor }
}
/// Shape within bounds and a storage order, one path each; the work is shared by shape.
pub fn choose_state(rmax: usize, cmax: usize) -> (usize, usize, Order) {
    let (r, c) = (vt::choose(0, rmax, "rows"), vt::choose(0, cmax, "cols"));
    let o = choose_order("order");
    vt::shard((r * 16 + c) * 2 + (o == Order::ColMajor) as usize);
    (r, c, o)
}
pub fn sym_vals(n: usize, name: &str) -> Vec<u64> {
    (0..n).map(|_| vt::sym_u64(name)).collect()
}
/// Logical model: rows of values.
pub fn grid(rows: usize, cols: usize, order: Order, vals: &[u64]) -> Vec<Vec<u64>> {
    (0..rows).map(|r| (0..cols).map(|c| vals[flat(rows, cols, order, r, c)]).collect()).collect()
}
/// A matrix of instrumented elements plus its model.
pub fn tracked(rows: usize, cols: usize, order: Order, name: &str) -> (Matrix<T>, Vec<Vec<u64>>) {
    let vals = sym_vals(rows * cols, name);
    let m = build(rows, cols, order, vals.iter().map(|v| T::new(*v)).collect());
    (m, grid(rows, cols, order, &vals))
}
/// As `tracked`, with plain `u64` elements.
pub fn plain(rows: usize, cols: usize, order: Order, name: &str) -> (Matrix<u64>, Vec<Vec<u64>>) {
    let vals = sym_vals(rows * cols, name);
    let g = grid(rows, cols, order, &vals);
    (build(rows, cols, order, vals), g)
}

pub trait Payload {
    fn payload(&self) -> u64;
    fn alive(&self) -> bool {
        true
    }
}
impl Payload for u64 {
    fn payload(&self) -> u64 {
        *self
    }
}
impl Payload for T {
    fn payload(&self) -> u64 {
        self.v
    }
    fn alive(&self) -> bool {
        self.ok()
    }
}

/// Shape/size agree, every in-bounds coordinate resolves to its own live element (distinct
/// addresses inside the element buffer in memory order) and out-of-bounds ones to nothing.
pub fn check_coherent<E: Payload>(m: &Matrix<E>) {
    let (r, c) = (m.nrows(), m.ncols());
    let n = r.checked_mul(c);
    vt::check(n == Some(m.size()), "nrows * ncols != size");
    vt::check(m.shape().nrows() == r && m.shape().ncols() == c, "shape() disagrees with nrows()/ncols()");
    vt::check(m.is_empty() == (m.size() == 0), "is_empty disagrees with size");
    vt::check(m.capacity() >= m.size(), "capacity < size");
    let mut seen: Vec<usize> = Vec::new();
    for e in m.iter_elements() {
        vt::check(e.alive(), "a dead or uninitialised element is reachable");
        seen.push(e as *const E as usize);
    }
    vt::check(seen.len() == m.size(), "iter_elements does not yield size() elements");
    let order = m.order();
    let mut ok = true;
    for i in 0..r {
        for j in 0..c {
            match m.get(Index::new(i, j)) {
                Ok(e) => ok &= e as *const E as usize == seen[flat(r, c, order, i, j)],
                Err(_) => ok = false,
            }
        }
    }
    vt::check(ok, "an in-bounds coordinate does not resolve to its own element");
    let mut distinct = true;
    for i in 1..seen.len() {
        distinct &= seen[i] > seen[i - 1];
    }
    vt::check(distinct, "two coordinates share an element");
    vt::check(m.get(Index::new(r, 0)).is_err() & m.get(Index::new(0, c)).is_err(), "an out-of-bounds coordinate resolves");
}
/// Contents equal the model.
pub fn same<E: Payload>(m: &Matrix<E>, rows: usize, cols: usize, g: &[Vec<u64>]) -> bool {
    if m.nrows() != rows || m.ncols() != cols {
        return false;
    }
    let mut ok = true;
    for i in 0..rows {
        for j in 0..cols {
            match m.get(Index::new(i, j)) {
                Ok(e) => ok &= e.payload() == g[i][j],
                Err(_) => return false,
            }
        }
    }
    ok
}
/// Memory-order values.
pub fn memory<E: Payload>(m: &Matrix<E>) -> Vec<u64> {
    m.iter_elements().map(|e| e.payload()).collect()
}
pub fn observe_matrix<E: Payload>(m: &Matrix<E>) {
    vt::observe(m.nrows() as u64);
    vt::observe(m.ncols() as u64);
    vt::observe((m.order() == Order::ColMajor) as u64);
    for v in memory(m) {
        vt::observe(v);
    }
}

/// The row-of-rows reference model.  `order` only matters for operations that are defined on the
/// memory-order sequence.
#[derive(Clone)]
pub struct Model {
    pub r: usize,
    pub c: usize,
    pub order: Order,
    pub g: Vec<Vec<u64>>,
}
impl Model {
    pub fn new(r: usize, c: usize, order: Order, mem: &[u64]) -> Model {
        Model { r, c, order, g: grid(r, c, order, mem) }
    }
    pub fn mem(&self) -> Vec<u64> {
        let mut v = Vec::new();
        if self.order == Order::RowMajor {
            for i in 0..self.r {
                for j in 0..self.c {
                    v.push(self.g[i][j]);
                }
            }
        } else {
            for j in 0..self.c {
                for i in 0..self.r {
                    v.push(self.g[i][j]);
                }
            }
        }
        v
    }
    pub fn transposed(&self) -> Model {
        let g = (0..self.c).map(|j| (0..self.r).map(|i| self.g[i][j]).collect()).collect();
        Model { r: self.c, c: self.r, order: self.order, g }
    }
    pub fn map(&self, f: impl Fn(usize, usize, u64) -> u64) -> Model {
        let g = (0..self.r).map(|i| (0..self.c).map(|j| f(i, j, self.g[i][j])).collect()).collect();
        Model { r: self.r, c: self.c, order: self.order, g }
    }
    pub fn switched(&self) -> Order {
        other(self.order)
    }
    pub fn is<E: Payload>(&self, m: &Matrix<E>) -> bool {
        m.order() == self.order && same(m, self.r, self.c, &self.g)
    }
}
pub fn other(o: Order) -> Order {
    if o == Order::RowMajor { Order::ColMajor } else { Order::RowMajor }
}
pub fn tracked_model(r: usize, c: usize, order: Order, name: &str) -> (Matrix<T>, Model) {
    let (m, g) = tracked(r, c, order, name);
    (m, Model { r, c, order, g })
}
pub fn plain_model(r: usize, c: usize, order: Order, name: &str) -> (Matrix<u64>, Model) {
    let (m, g) = plain(r, c, order, name);
    (m, Model { r, c, order, g })
}
/// Uninterpreted-looking mixers: distinct operand order and position matter.
pub fn f2(a: u64, b: u64) -> u64 {
    a.rotate_left(7) ^ b.wrapping_add(0x1234_5678)
}
pub fn f1(a: u64) -> u64 {
    a.wrapping_mul(3).wrapping_add(1)
}

/// Shapes beyond the exhaustive bounds: long lines, thin strips, blocks around 8, 16 and 32.
pub const LARGE: [(usize, usize); 20] = [(1, 20), (20, 1), (2, 9), (9, 2), (6, 7), (8, 9), (17, 3), (3, 17), (1, 40), (67, 1), (2, 130), (7, 6), (9, 9), (12, 11), (33, 3), (3, 33), (16, 17), (1, 70), (40, 1), (2, 65)];
/// How many of them in this tier.
pub const LARGES: usize = if cfg!(feature = "thorough") { LARGE.len() } else { 11 };
/// Shapes beyond those again: both sides over 16, over 32, over 64, over 128; lines over 512, 1024, 4096.
pub const XL: [(usize, usize); 10] = [(17, 18), (33, 34), (1, 1030), (520, 2), (65, 66), (3, 342), (34, 33), (1030, 1), (130, 131), (1, 4100)];
pub const XLS: usize = if cfg!(feature = "thorough") { XL.len() } else { 5 };
static FURTHER: AtomicBool = AtomicBool::new(false);
/// From here on `choose_large` draws from `XL`.
pub fn xl() {
    FURTHER.store(true, Relaxed);
}
/// One of either list.
pub fn pick_large() -> (usize, usize) {
    if FURTHER.load(Relaxed) { XL[vt::choose(0, vt::tier(0, 1), "xl")] } else { LARGE[vt::choose(0, LARGES - 1, "large")] }
}
/// One of them and an order.
pub fn choose_large() -> (usize, usize, Order) {
    if FURTHER.load(Relaxed) {
        let k = vt::choose(0, XLS - 1, "xl");
        let o = choose_order("order");
        vt::shard(k * 2 + (o == Order::ColMajor) as usize);
        return (XL[k].0, XL[k].1, o);
    }
    let k = vt::choose(0, LARGES - 1, "large");
    let o = choose_order("order");
    vt::shard(k * 2 + (o == Order::ColMajor) as usize);
    (LARGE[k].0, LARGE[k].1, o)
}
/// A position among `n`, or `n` itself: both ends, the middle, one past the end.
pub fn choose_end(n: usize, name: &str) -> usize {
    let v = [0, 1, n / 2, n.wrapping_sub(1), n];
    let k = vt::choose(0, v.len() - 1, name);
    v[k].min(n)
}
