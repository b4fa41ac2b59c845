//! C03: mutable row/column iterators under arbitrary interleavings of next / next_back / len on the
//! outer iterator and on every inner iterator it has produced.
use crate::util::*;
use crate::vt;
use matreex::{Matrix, Order};

/// Element type with a writable mark.
pub trait El: Sized + 'static {
    fn make(k: u64) -> Self;
    fn mark(&mut self, k: u64);
    fn marked(&self, k: u64) -> bool;
}
impl El for u8 {
    fn make(k: u64) -> u8 {
        k as u8
    }
    fn mark(&mut self, k: u64) {
        *self = k as u8;
    }
    fn marked(&self, k: u64) -> bool {
        *self == k as u8
    }
}
impl El for u32 {
    fn make(k: u64) -> u32 {
        k as u32
    }
    fn mark(&mut self, k: u64) {
        *self = k as u32;
    }
    fn marked(&self, k: u64) -> bool {
        *self == k as u32
    }
}
impl El for u16 {
    fn make(k: u64) -> u16 {
        k as u16
    }
    fn mark(&mut self, k: u64) {
        *self = k as u16;
    }
    fn marked(&self, k: u64) -> bool {
        *self == k as u16
    }
}
impl El for u128 {
    fn make(k: u64) -> u128 {
        k as u128
    }
    fn mark(&mut self, k: u64) {
        *self = k as u128 | (k as u128) << 100;
    }
    fn marked(&self, k: u64) -> bool {
        *self == (k as u128 | (k as u128) << 100)
    }
}
/// more than a cache line
pub type Big = [u64; 20];
impl El for Big {
    fn make(k: u64) -> Big {
        [k; 20]
    }
    fn mark(&mut self, k: u64) {
        *self = [k; 20];
        self[19] = k ^ 5;
    }
    fn marked(&self, k: u64) -> bool {
        (self[0] == k) & (self[11] == k) & (self[19] == k ^ 5)
    }
}
impl El for u64 {
    fn make(k: u64) -> u64 {
        k
    }
    fn mark(&mut self, k: u64) {
        *self = k;
    }
    fn marked(&self, k: u64) -> bool {
        *self == k
    }
}
impl El for [u64; 3] {
    fn make(k: u64) -> Self {
        [k, !k, k]
    }
    fn mark(&mut self, k: u64) {
        *self = [k, k.wrapping_add(1), k ^ 5];
    }
    fn marked(&self, k: u64) -> bool {
        (self[0] == k) & (self[1] == k.wrapping_add(1)) & (self[2] == k ^ 5)
    }
}
impl El for [u8; 3] {
    fn make(k: u64) -> Self {
        [k as u8; 3]
    }
    fn mark(&mut self, k: u64) {
        *self = [k as u8, 1, 2];
    }
    fn marked(&self, k: u64) -> bool {
        *self == [k as u8, 1, 2]
    }
}
impl El for () {
    fn make(_: u64) {}
    fn mark(&mut self, _: u64) {}
    fn marked(&self, _: u64) -> bool {
        true
    }
}
#[repr(align(8))]
pub struct Z8;
impl El for Z8 {
    fn make(_: u64) -> Z8 {
        Z8
    }
    fn mark(&mut self, _: u64) {}
    fn marked(&self, _: u64) -> bool {
        true
    }
}
#[repr(align(64))]
pub struct Z64;
impl El for Z64 {
    fn make(_: u64) -> Z64 {
        Z64
    }
    fn mark(&mut self, _: u64) {}
    fn marked(&self, _: u64) -> bool {
        true
    }
}

/// What is left of one vector: logical positions lo..hi.
#[derive(Clone, Copy)]
struct Left {
    vec: usize,
    lo: usize,
    hi: usize,
}
struct Ctx {
    by_rows: bool,
    r: usize,
    c: usize,
    order: Order,
    base: usize,
    esize: usize,
    align: usize,
    taken: Vec<bool>,
}
impl Ctx {
    fn element<E: El>(&mut self, vec: usize, k: usize, e: &mut E) {
        let (i, j) = if self.by_rows { (vec, k) } else { (k, vec) };
        let a = e as *mut E as usize;
        vt::check(a % self.align == 0, "a misaligned reference was handed out");
        if i >= self.r || j >= self.c {
            vt::check(false, "harness: position");
            return;
        }
        let f = flat(self.r, self.c, self.order, i, j);
        if self.esize > 0 {
            vt::check(a == self.base + f * self.esize, "a reference does not point at the element of its logical position");
            vt::check(!self.taken[f], "an element was handed out twice");
            self.taken[f] = true;
            e.mark(f as u64 + 100);
        }
    }
}
fn inner_call<'a, E: El + 'a, I: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator>(cx: &mut Ctx, it: &mut I, l: &mut Left, back: bool, skip: usize) {
    vt::check(it.len() == l.hi - l.lo, "len() of a row/column iterator is not the number of items still to come");
    let h = it.size_hint();
    vt::check((h.0 == l.hi - l.lo) & (h.1 == Some(l.hi - l.lo)), "size_hint() of a row/column iterator");
    let x = match (back, skip) {
        (true, 0) => it.next_back(),
        (true, _) => it.nth_back(skip),
        (false, 0) => it.next(),
        (false, _) => it.nth(skip),
    };
    match x {
        None => {
            vt::check(l.hi - l.lo <= skip, "a row/column iterator ends early");
            l.lo = l.hi; // nth consumes what it skips
        }
        Some(e) => {
            if l.hi - l.lo <= skip {
                vt::check(false, "a row/column iterator yields too many elements");
                return;
            }
            let k = if back { l.hi - 1 - skip } else { l.lo + skip };
            if back {
                l.hi = k;
            } else {
                l.lo = k + 1;
            }
            cx.element(l.vec, k, e);
        }
    }
    vt::check(it.len() == l.hi - l.lo, "len() of a row/column iterator is not the number of items still to come");
}
fn outer_call<'a, E: El + 'a, V: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator, I: ExactSizeIterator<Item = V> + DoubleEndedIterator>(
    it: &mut I,
    lo: &mut usize,
    hi: &mut usize,
    n: usize,
    back: bool,
    skip: usize,
    live: &mut Vec<(V, Left)>,
) {
    vt::check(it.len() == *hi - *lo, "len() of the outer iterator is not the number of items still to come");
    let h = it.size_hint();
    vt::check((h.0 == *hi - *lo) & (h.1 == Some(*hi - *lo)), "size_hint() of the outer iterator");
    let x = match (back, skip) {
        (true, 0) => it.next_back(),
        (true, _) => it.nth_back(skip),
        (false, 0) => it.next(),
        (false, _) => it.nth(skip),
    };
    match x {
        None => {
            vt::check(*hi - *lo <= skip, "the outer iterator ends early");
            *lo = *hi; // nth consumes what it skips
        }
        Some(v) => {
            if *hi - *lo <= skip {
                vt::check(false, "the outer iterator yields too many vectors");
                return;
            }
            let vec = if back { *hi - 1 - skip } else { *lo + skip };
            if back {
                *hi = vec;
            } else {
                *lo = vec + 1;
            }
            vt::check(v.len() == n, "len() of a fresh row/column iterator");
            live.push((v, Left { vec, lo: 0, hi: n }));
        }
    }
    vt::check(it.len() == *hi - *lo, "len() of the outer iterator is not the number of items still to come");
}
/// larger shapes: jumps of listed widths
const FAR: usize = 100;
fn program<'a, E: El + 'a, V: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator, I: ExactSizeIterator<Item = V> + DoubleEndedIterator>(cx: &mut Ctx, mut it: I, calls: usize, jump: usize) {
    let (m, n) = if cx.by_rows { (cx.r, cx.c) } else { (cx.c, cx.r) };
    let (mut lo, mut hi) = (0, m);
    let mut live: Vec<(V, Left)> = Vec::new();
    let mut last = 0;
    for _ in 0..calls {
        // 0/1: outer next / next_back; 2k+2, 2k+3: k-th produced inner iterator
        let w = vt::choose(0, 2 * live.len() + 1, "call");
        last = w;
        let back = w % 2 == 1;
        let skip = if jump >= FAR { [0, 3, 7, 16][vt::choose(0, 3, "skip")] } else if jump > 0 { vt::choose(0, jump, "skip") } else { 0 };
        if w < 2 {
            outer_call(&mut it, &mut lo, &mut hi, n, back, skip, &mut live);
        } else {
            let (v, l) = &mut live[w / 2 - 1];
            inner_call(cx, v, l, back, skip);
        }
    }
    // drain what is left; the direction depends on how the program ended
    let back = last % 2 == 0;
    while lo < hi {
        outer_call(&mut it, &mut lo, &mut hi, n, back, 0, &mut live);
    }
    outer_call(&mut it, &mut lo, &mut hi, n, !back, 0, &mut live);
    outer_call(&mut it, &mut lo, &mut hi, n, back, 0, &mut live);
    drop(it);
    vt::check(jump > 0 || live.len() == m, "number of vectors");
    let mut k = 0;
    loop {
        let mut more = false;
        for (v, l) in live.iter_mut() {
            if l.lo < l.hi {
                more = true;
            }
            k += 1;
            inner_call(cx, v, l, (k % 3 == 0) == back, 0);
        }
        if !more {
            break;
        }
    }
}
fn calls<E: El>((r, c, order): (usize, usize, Order), calls: usize, jump: usize) {
    let by_rows = vt::choose_bool("rows");
    let data: Vec<E> = (0..r * c).map(|k| E::make(k as u64)).collect();
    let mut m = build(r, c, order, data);
    let esize = size_of::<E>();
    let base = m.iter_elements().next().map(|e| e as *const E as usize).unwrap_or(0);
    let mut cx = Ctx { by_rows, r, c, order, base, esize, align: align_of::<E>(), taken: vec![false; r * c] };
    if by_rows {
        program(&mut cx, m.iter_rows_mut(), calls, jump);
    } else {
        program(&mut cx, m.iter_cols_mut(), calls, jump);
    }
    if esize > 0 {
        vt::check(jump > 0 || cx.taken.iter().all(|t| *t), "an element was never handed out");
        let mut f = 0;
        for e in m.iter_elements() {
            vt::check(!cx.taken[f as usize] || e.marked(f + 100), "a write through a handed out reference hit another element");
            f += 1;
        }
    }
    vt::check(m.nrows() == r && m.ncols() == c && m.order() == order, "shape or order changed");
    vt::cover("program completed");
    vt::observe(cx.taken.len() as u64);
}

/// Zero-sized elements in matrices of up to usize::MAX elements.
pub fn zst<E>(n: usize, rows: usize, cols: usize, order: Order) -> Matrix<E> {
    let mut data: Vec<E> = Vec::new();
    vt::check(size_of::<E>() == 0 && data.capacity() == usize::MAX, "harness: zero-sized type");
    unsafe { data.set_len(n) };
    build(rows, cols, order, data)
}
/// `k` calls from a huge iterator, from both ends; the inner ones get `k` calls each.
fn huge<E: El>(k: usize, jump: usize) {
    let (a, b) = pair();
    let order = choose_order("order");
    let by_rows = vt::choose_bool("rows");
    let mut m: Matrix<E> = zst(a * b, a, b, order);
    let mut cx = Ctx { by_rows, r: a, c: b, order, base: 0, esize: 0, align: align_of::<E>(), taken: Vec::new() };
    if by_rows {
        partial(&mut cx, m.iter_rows_mut(), k, jump);
    } else {
        partial(&mut cx, m.iter_cols_mut(), k, jump);
    }
    vt::cover("huge matrix");
    vt::observe(a as u64);
    std::mem::forget(m);
}
fn partial<'a, E: El + 'a, V: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator, I: ExactSizeIterator<Item = V> + DoubleEndedIterator>(cx: &mut Ctx, mut it: I, calls: usize, jump: usize) {
    let (m, n) = if cx.by_rows { (cx.r, cx.c) } else { (cx.c, cx.r) };
    let (mut lo, mut hi) = (0, m);
    let mut live: Vec<(V, Left)> = Vec::new();
    for _ in 0..calls {
        let w = vt::choose(0, 2 * live.len().min(2) + 1, "call");
        let back = w % 2 == 1;
        let skip = if jump > 0 { vt::choose(0, jump, "skip") } else { 0 };
        if w < 2 {
            outer_call(&mut it, &mut lo, &mut hi, n, back, skip, &mut live);
        } else {
            let (v, l) = &mut live[w / 2 - 1];
            inner_call(cx, v, l, back, skip);
        }
    }
}
/// Extreme extents whose product still fits usize.
pub fn pair() -> (usize, usize) {
    const M: usize = usize::MAX;
    const P: &[(usize, usize)] = &[
        (1, M),
        (M, 1),
        (3, M / 3),
        (M / 3, 3),
        (2, M / 2),
        (M / 2, 2),
        (1 << 32, (1 << 32) - 1),
        ((1 << 32) - 1, 1 << 32),
        (1 << 63, 1),
        (1, 1 << 63),
        ((1 << 32) + 1, (1 << 32) - 1),
        (0, M),
        (M, 0),
        (isize::MAX as usize, 1),
        (isize::MAX as usize, 2),
        (6700417, 2753074036095),
    ];
    let k = vt::choose(0, P.len() - 1, "pair");
    vt::shard(k);
    P[k]
}
/// One extent is any 64-bit number, the other one is small.
fn thin<E: El>(max: usize, k: usize) {
    let s = vt::choose(0, max, "short");
    vt::shard(s);
    let l = vt::sym_usize("long");
    // the product must be representable
    if s > 0 {
        vt::assume(l <= usize::MAX / s);
    }
    let flip = vt::choose_bool("flip");
    let order = choose_order("order");
    let by_rows = vt::choose_bool("rows");
    let (a, b) = if flip { (l, s) } else { (s, l) };
    let mut m: Matrix<E> = zst(a * b, a, b, order);
    let mut cx = Ctx { by_rows, r: a, c: b, order, base: 0, esize: 0, align: align_of::<E>(), taken: Vec::new() };
    if by_rows {
        partial(&mut cx, m.iter_rows_mut(), k, 0);
    } else {
        partial(&mut cx, m.iter_cols_mut(), k, 0);
    }
    vt::cover("thin matrix");
    std::mem::forget(m);
}

harnesses! {
    fn h_c03_u32() { calls::<u32>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(5, 6), 0) }
    fn h_c03_u8() { calls::<u8>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(4, 5), 0) }
    fn h_c03_b3() { calls::<[u8; 3]>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(4, 5), 0) }
    fn h_c03_w3() { calls::<[u64; 3]>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(4, 5), 0) }
    fn h_c03_line() { calls::<u32>(choose_state(vt::tier(2, 3), vt::tier(2, 3)), vt::tier(6, 8), 0) }
    fn h_c03_zst() { calls::<()>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(5, 6), 0) }
    fn h_c03_z64() { calls::<Z64>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(4, 5), 0) }
    fn h_c03_jump() { calls::<u32>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(3, 4), vt::tier(2, 3)) }
    fn h_c03_jump_zst() { calls::<Z8>(choose_state(vt::tier(3, 4), vt::tier(3, 4)), vt::tier(3, 4), vt::tier(2, 3)) }
    fn h_c03_jump_huge() { huge::<()>(vt::tier(3, 4), vt::tier(2, 3)) }
    fn h_c03_large() { if vt::choose_bool("odd") { calls::<[u8; 3]>(choose_large(), 2, 0) } else { calls::<u32>(choose_large(), vt::tier(2, 3), 0) } }
    fn h_c03_xl() { xl(); calls::<u32>(choose_large(), 2, 0) }
    fn h_c03_large_jump() { if vt::choose_bool("zst") { calls::<()>(choose_large(), 2, FAR) } else { calls::<u32>(choose_large(), 2, FAR) } }
    fn h_c03_huge() { huge::<()>(vt::tier(5, 6), 0) }
    fn h_c03_huge8() { huge::<Z8>(vt::tier(4, 5), 0) }
    fn h_c03_thin() { thin::<()>(vt::tier(3, 5), vt::tier(3, 4)) }
}
