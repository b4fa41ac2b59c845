//! C02: a panic injected at an arbitrary invocation of caller-supplied code.
use crate::elem::{self, T};
use crate::util::*;
use crate::vt;
use matreex::index::AsIndex;
use matreex::shape::Shape;
use matreex::{Index, Matrix, Order, WrappingIndex};
use matreex::parallel::*;
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

struct Fault {
    armed: bool,
    at: u64,
    n: u64,
    fired: bool,
}
struct G(UnsafeCell<Fault>);
unsafe impl Sync for G {}
static FAULT: G = G(UnsafeCell::new(Fault { armed: false, at: 0, n: 0, fired: false }));
fn fault() -> &'static mut Fault {
    unsafe { &mut *FAULT.0.get() }
}
/// Every piece of caller-supplied code passes through here.
fn tick() {
    let f = fault();
    if f.armed {
        f.n += 1;
        if f.n == f.at {
            f.armed = false;
            f.fired = true;
            std::panic::panic_any(());
        }
    }
}
/// A few listed points instead of all of them (long matrices).
static LISTED: AtomicBool = AtomicBool::new(false);
/// Runs `f` with a panic at an arbitrary point; reports whether it fired and what came out.
fn faulty<R>(f: impl FnOnce() -> R) -> Option<R> {
    let at = if LISTED.load(Relaxed) { [1, 17, 34, 65, 72, 2, 16, 64, 71, 131][vt::choose(0, vt::tier(4, 9), "at")] } else { vt::sym_u64("at") };
    *fault() = Fault { armed: true, at, n: 0, fired: false };
    let r = vt::catches(f);
    fault().armed = false;
    vt::check(r.is_err() == fault().fired, "an injected panic was swallowed, or the library panicked by itself");
    if r.is_err() {
        vt::cover("fault injected");
    }
    r.ok()
}

/// Element whose every trait method may panic.
struct P(T);
impl P {
    fn new(v: u64) -> P {
        P(T::new(v))
    }
}
impl Payload for P {
    fn payload(&self) -> u64 {
        self.0.v
    }
    fn alive(&self) -> bool {
        self.0.ok()
    }
}
impl Drop for P {
    fn drop(&mut self) {
        vt::check(self.0.ok(), "drop of a dead or uninitialised element");
        tick();
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        vt::check(self.0.ok(), "clone of a dead or uninitialised element");
        tick();
        P(self.0.clone())
    }
}
impl Default for P {
    fn default() -> P {
        tick();
        P(T::default())
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        vt::check(self.0.ok() && o.0.ok(), "comparison of a dead element");
        tick();
        self.0.v == o.0.v
    }
}
impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        vt::check(self.0.ok(), "display of a dead element");
        tick();
        f.write_str("x")
    }
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        vt::check(self.0.ok(), "debug of a dead element");
        tick();
        f.write_str("x")
    }
}
macro_rules! op {
    ($($t:ident $f:ident $ta:ident $fa:ident),*) => {$(
        impl $t for P {
            type Output = P;
            fn $f(self, o: P) -> P {
                vt::check(self.0.ok() && o.0.ok(), "arithmetic on a dead element");
                tick();
                P::new(f2(self.0.v, o.0.v))
            }
        }
        impl $ta for P {
            fn $fa(&mut self, o: P) {
                vt::check(self.0.ok() && o.0.ok(), "arithmetic on a dead element");
                tick();
                self.0.v = f2(self.0.v, o.0.v);
            }
        }
    )*};
}
op!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        tick();
        P::new(!self.0.v)
    }
}
impl Neg for &P {
    type Output = P;
    fn neg(self) -> P {
        tick();
        P::new(!self.0.v)
    }
}

struct Ix(usize, usize);
impl AsIndex for Ix {
    fn row(&self) -> usize {
        tick();
        self.0
    }
    fn col(&self) -> usize {
        tick();
        self.1
    }
}
struct Sh(usize, usize);
impl From<Sh> for Shape {
    fn from(s: Sh) -> Shape {
        tick();
        Shape::new(s.0, s.1)
    }
}
struct It(usize, usize);
impl Iterator for It {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        tick();
        if self.0 < self.1 {
            self.0 += 1;
            Some(P::new(self.0 as u64))
        } else {
            None
        }
    }
}
struct Rows(usize, usize, usize);
impl Iterator for Rows {
    type Item = It;
    fn next(&mut self) -> Option<It> {
        tick();
        if self.0 < self.1 {
            self.0 += 1;
            Some(It(0, self.2))
        } else {
            None
        }
    }
}

fn mat(r: usize, c: usize, order: Order) -> Matrix<P> {
    let spare = 2;
    let mut data = Vec::with_capacity(r * c + spare);
    for i in 0..r * c {
        data.push(P::new(i as u64));
    }
    build(r, c, order, data)
}
fn mat_state(max: usize) -> Matrix<P> {
    let (r, c) = if max == FAR { fars(1, 3) } else { (vt::choose(0, max, "sr"), vt::choose(0, max, "sc")) };
    mat(r, c, choose_order("so"))
}
/// The matrix is coherent, readable, usable and droppable.
fn survives(m: &mut Matrix<P>) {
    check_coherent(m);
    for (k, row) in m.iter_rows().enumerate() {
        vt::check(k < m.nrows() && row.len() == m.ncols(), "rows after a panic");
    }
    let (r, c) = (m.nrows(), m.ncols());
    m.transpose();
    m.switch_order();
    check_coherent(m);
    vt::check(m.nrows() == c && m.ncols() == r, "shape after follow-up operations");
    m.apply(|e| e.0.v ^= 1);
    vt::check(m.resize((r + 1, c + 1)).is_ok(), "resize after a panic");
    check_coherent(m);
    vt::check(m.resize((1, 1)).is_ok(), "resize after a panic");
    check_coherent(m);
}

const NOPS: usize = 56;
/// larger shapes
const FAR: usize = usize::MAX;
const FARS: [(usize, usize); 7] = [(1, 9), (5, 3), (2, 5), (9, 1), (1, 17), (17, 1), (5, 7)];
const LONG: [(usize, usize); 4] = [(9, 8), (2, 36), (70, 1), (1, 131)];
fn fars(quick: usize, thorough: usize) -> (usize, usize) {
    if LISTED.load(Relaxed) { LONG[vt::choose(0, vt::tier(1, 3), "long")] } else { FARS[vt::choose(0, vt::tier(quick, thorough), "large")] }
}
fn scenario(lo: usize, hi: usize, max: usize) {
    let op = vt::choose(lo, hi, "op");
    let (r, c, order) = if max == FAR {
        let (r, c) = fars(2, FARS.len() - 1);
        let o = choose_order("order");
        vt::shard(op * 7 + r * 2 + (o == Order::ColMajor) as usize);
        (r, c, o)
    } else {
        choose_state(max, max)
    };
    let mut m = mat(r, c, order);
    let mut outs: Vec<Matrix<P>> = Vec::new();
    let dim = |n: &str| if max == FAR { if LISTED.load(Relaxed) { [1, 9, 20][vt::choose(0, 2, n)] } else { [0, 1, 4, 10][vt::choose(0, 3, n)] } } else { vt::choose(0, max + 1, n) };
    let kdim = |n: &str| if max == FAR { vt::choose(0, 3, n) } else { vt::choose(0, max, n) };
    match op {
        0 => {
            let (a, b) = (dim("nr"), dim("nc"));
            faulty(|| {
                let _ = m.resize((a, b));
            });
        }
        1 => {
            let mut src = mat_state(max);
            faulty(|| {
                m.overwrite(&src);
            });
            survives(&mut src);
        }
        2 => {
            faulty(|| {
                m.apply(|e| {
                    tick();
                    *e = P::new(1);
                });
            });
        }
        3 => {
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.map(|e| { tick(); drop(e); P::new(1) }).unwrap()));
        }
        4 => {
            outs.extend(faulty(|| m.map_ref(|_| { tick(); P::new(1) }).unwrap()));
        }
        5 => {
            faulty(|| {
                m.clear();
            });
        }
        6 => {
            let v = P::new(3);
            faulty(|| m.contains(&v));
        }
        7 => {
            let mut o = mat_state(max);
            faulty(|| m == o);
            survives(&mut o);
        }
        8 => {
            faulty(|| format!("{m}"));
        }
        9 => {
            faulty(|| format!("{m:?}"));
        }
        10 => {
            let mut o = mat(r, c, choose_order("so"));
            outs.extend(faulty(|| m.elementwise_operation(&o, |_, _| { tick(); P::new(1) }).unwrap()));
            survives(&mut o);
        }
        11 => {
            let mut o = mat(r, c, choose_order("so"));
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.elementwise_operation_consume_self(&o, |x, _| { tick(); x }).unwrap()));
            survives(&mut o);
        }
        12 => {
            let mut o = mat(r, c, choose_order("so"));
            faulty(|| m.elementwise_operation_assign(&o, |x, y| { tick(); *x = P::new(y.0.v) }).is_ok());
            survives(&mut o);
        }
        13 => {
            let mut o = mat(r, c, choose_order("so"));
            outs.extend(faulty(|| m.elementwise_add(&o).unwrap()));
            survives(&mut o);
        }
        14 => {
            let mut o = mat(r, c, choose_order("so"));
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.elementwise_sub_consume_self(&o).unwrap()));
            survives(&mut o);
        }
        15 => {
            let mut o = mat(r, c, choose_order("so"));
            faulty(|| m.elementwise_mul_assign(&o).is_ok());
            survives(&mut o);
        }
        16 => {
            let mut o = mat(r, c, choose_order("so"));
            outs.extend(faulty(|| &m + &o));
            survives(&mut o);
        }
        17 => {
            let o = mat(r, c, choose_order("so"));
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t - o));
        }
        18 => {
            let o = mat(r, c, choose_order("so"));
            faulty(|| m += o);
        }
        19 => {
            let o = mat(c, kdim("k"), choose_order("so"));
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.multiply(o).unwrap()));
        }
        20 => {
            let mut o = mat(c, kdim("k"), choose_order("so"));
            outs.extend(faulty(|| &m * &o));
            survives(&mut o);
        }
        21 => {
            let o = mat(c, kdim("k"), choose_order("so"));
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.multiplication_like_operation(o, |x, y| {
                tick();
                vt::check(x.iter().chain(y).all(|e| e.0.ok()), "slices contain dead elements");
                P::new(1)
            }).unwrap()));
        }
        22 => {
            let s = P::new(9);
            outs.extend(faulty(|| m.scalar_operation(&s, |_, _| { tick(); P::new(1) }).unwrap()));
        }
        23 => {
            let s = P::new(9);
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.scalar_operation_consume_self(&s, |x, _| { tick(); x }).unwrap()));
        }
        24 => {
            let s = P::new(9);
            faulty(|| {
                m.scalar_operation_assign(&s, |x, y| { tick(); x.0.v = y.0.v });
            });
        }
        25 => {
            outs.extend(faulty(|| Matrix::with_default((r, c)).unwrap()));
        }
        26 => {
            let v = P::new(2);
            outs.extend(faulty(|| Matrix::with_value((r, c), v).unwrap()));
        }
        27 => {
            outs.extend(faulty(|| Matrix::with_initializer((r, c), |_: Index| { tick(); P::new(4) }).unwrap()));
        }
        28 => {
            let rows = [[P::new(1), P::new(2)], [P::new(3), P::new(4)], [P::new(5), P::new(6)]];
            outs.extend(faulty(|| Matrix::from(&rows[..r.min(3)])));
        }
        29 => {
            let l = vt::choose(0, 2, "len");
            let rows: Vec<Vec<P>> = (0..r).map(|i| (0..if i == 1 { l } else { c }).map(|_| P::new(1)).collect()).collect();
            outs.extend(faulty(|| Matrix::try_from(&rows[..]).ok()).flatten());
            drop(rows);
        }
        30 => {
            let l = vt::choose(0, 2, "len");
            let rows: Vec<Vec<P>> = (0..r).map(|i| (0..if i == 1 { l } else { c }).map(|_| P::new(1)).collect()).collect();
            outs.extend(faulty(|| Matrix::try_from(rows).ok()).flatten());
        }
        31 => {
            let l = vt::choose(0, 2, "len");
            let mk = |n: usize| (0..n).map(|_| P::new(1)).collect::<Vec<P>>();
            let rows = [mk(c), mk(l)];
            outs.extend(faulty(|| Matrix::try_from(rows).ok()).flatten());
        }
        32 => {
            outs.extend(faulty(|| Rows(0, r, c).collect::<Matrix<P>>()));
        }
        33 => {
            let (a, b) = if LISTED.load(Relaxed) { (r / 2, choose_end(c, "i1")) } else { (vt::choose(0, r, "i0"), vt::choose(0, c, "i1")) };
            let ok = faulty(|| m.get(Ix(a, b)).is_ok());
            vt::check(ok.is_none() || ok == Some(a < r && b < c), "get");
            let ok = faulty(|| m.get_mut(Ix(a, b)).is_ok());
            vt::check(ok.is_none() || ok == Some(a < r && b < c), "get_mut");
        }
        34 => {
            let (a, b) = if LISTED.load(Relaxed) { (r / 2, choose_end(c, "i1")) } else { (vt::choose(0, r, "i0"), vt::choose(0, c, "i1")) };
            faulty(|| m.swap(Ix(a, b), Ix(0, 0)).is_ok());
        }
        35 => {
            if r * c > 0 {
                let (a, b) = if LISTED.load(Relaxed) { (r / 2, choose_end(c - 1, "i1")) } else { (vt::choose(0, r - 1, "i0"), vt::choose(0, c - 1, "i1")) };
                faulty(|| m[Ix(a, b)] = P::new(8));
            }
        }
        36 => {
            if r * c > 0 {
                faulty(|| m[WrappingIndex::new(-1, 1)] = P::new(8));
            }
        }
        37 => {
            outs.extend(faulty(|| m.clone()));
        }
        38 => {
            let (a, b) = (dim("nr"), dim("nc"));
            faulty(|| m.resize(Sh(a, b)).is_ok());
        }
        39 => {
            let (a, b) = (dim("nr"), dim("nc"));
            faulty(|| m.reshape(Sh(a, b)).is_ok());
        }
        40 => {
            faulty(|| {
                for row in m.iter_rows_mut() {
                    for e in row {
                        tick();
                        *e = P::new(1);
                    }
                }
            });
            faulty(|| {
                for col in m.iter_cols_mut() {
                    for e in col.rev() {
                        *e = P::new(1);
                    }
                }
            });
        }
        41 => {
            let k = vt::choose(0, 2, "front");
            let t = std::mem::take(&mut m);
            faulty(|| {
                let mut it = t.into_iter_elements();
                for _ in 0..k {
                    it.next();
                }
            });
        }
        42 => {
            outs.extend(faulty(|| Matrix::from_row(It(0, r * c).collect::<Vec<_>>())));
            outs.extend(faulty(|| Matrix::from_col(It(0, r * c).collect::<Vec<_>>())));
        }
        43 => {
            let t = std::mem::take(&mut m);
            faulty(|| drop(t));
        }
        44 => {
            faulty(|| {
                m.par_apply(|e| {
                    tick();
                    *e = P::new(1);
                });
            });
        }
        45 => {
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.par_map(|e| { tick(); drop(e); P::new(1) }).unwrap()));
        }
        46 => {
            outs.extend(faulty(|| m.par_map_ref(|_| { tick(); P::new(1) }).unwrap()));
        }
        47 => {
            outs.extend(faulty(|| -&m));
        }
        48 => {
            let mut src = mat_state(max);
            faulty(|| m.clone_from(&src));
            survives(&mut src);
        }
        49 => {
            let kind = vt::choose(0, 2, "ctor");
            outs.extend(faulty(|| match kind {
                0 => Matrix::with_default(Sh(r, c)).unwrap(),
                1 => Matrix::with_value(Sh(r, c), P::new(2)).unwrap(),
                _ => Matrix::with_initializer(Sh(r, c), |_: Index| { tick(); P::new(4) }).unwrap(),
            }));
        }
        50 => {
            let mut o = mat(r, c, choose_order("so"));
            faulty(|| m.elementwise_div_assign(&o).is_ok());
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| t.elementwise_rem_consume_self(&o).unwrap()));
            survives(&mut o);
        }
        51 => {
            let (k, l) = (vt::choose(0, 2, "front"), vt::choose(0, 1, "back"));
            let t = std::mem::take(&mut m);
            faulty(|| {
                let mut it = t.into_iter_elements_with_index();
                for _ in 0..k {
                    it.next();
                }
                for _ in 0..l {
                    it.next_back();
                }
                it.map(|(_, e)| { tick(); e }).count()
            });
        }
        52 => {
            faulty(|| {
                for (_, e) in m.iter_elements_mut_with_index() {
                    tick();
                    *e = P::new(1);
                }
            });
            faulty(|| {
                m.par_iter_elements_mut_with_index().for_each(|(_, e)| {
                    tick();
                    *e = P::new(1);
                });
            });
        }
        53 => {
            let t = std::mem::take(&mut m);
            faulty(|| t.into_par_iter_elements_with_index().for_each(|(_, e)| { tick(); drop(e) }));
        }
        54 => {
            // two faults in a row in the same matrix
            let (a, b) = (dim("nr"), dim("nc"));
            faulty(|| m.resize((a, b)).is_ok());
            check_coherent(&m);
            faulty(|| {
                m.clear();
            });
        }
        _ => {
            let t = std::mem::take(&mut m);
            outs.extend(faulty(|| -t));
        }
    }
    survives(&mut m);
    for o in outs.iter_mut() {
        survives(o);
    }
    if !fault().fired {
        vt::cover("no fault");
    }
    drop(outs);
    drop(m);
    vt::observe(elem::live() as u64);
    if op != 28 && !fault().fired {
        elem::check_no_leak();
    }
}

harnesses! {
    fn h_c02_long() {
        LISTED.store(true, Relaxed);
        scenario(0, NOPS - 1, FAR)
    }
    fn h_c02_large() { scenario(0, NOPS - 1, FAR) }
    fn h_c02_a() { scenario(0, 15, vt::tier(2, 3)) }
    fn h_c02_b() { scenario(16, 31, vt::tier(2, 3)) }
    fn h_c02_c() { scenario(32, NOPS - 1, vt::tier(2, 3)) }
}
