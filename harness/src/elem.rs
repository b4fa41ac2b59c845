//! Instrumented element types.  The ledger records, per serial number, whether the element is
//! live, moved out of existence (dropped), and how many were created, cloned and dropped.
use crate::vt;
use std::cell::UnsafeCell;

pub const N: usize = 4096;
const UNBORN: u8 = 0;
const LIVE: u8 = 1;
const DEAD: u8 = 2;

pub struct Ledger {
    pub state: [u8; N],
    pub next: usize,
    pub clones: usize,
    pub drops: usize,
}
struct G(UnsafeCell<Ledger>);
unsafe impl Sync for G {}
static LEDGER: G = G(UnsafeCell::new(Ledger { state: [UNBORN; N], next: 0, clones: 0, drops: 0 }));

fn l() -> &'static mut Ledger {
    unsafe { &mut *LEDGER.0.get() }
}
fn birth() -> u32 {
    let g = l();
    let id = g.next;
    vt::check(id < N, "harness: ledger capacity");
    g.next += 1;
    g.state[id] = LIVE;
    id as u32
}
fn death(id: u32) {
    let g = l();
    let id = id as usize;
    vt::check(id < g.next, "an element that never existed was dropped");
    vt::check(g.state[id] == LIVE, "an element was dropped twice");
    g.state[id] = DEAD;
    g.drops += 1;
}
pub fn is_live(id: u32) -> bool {
    let g = l();
    (id as usize) < g.next && g.state[id as usize] == LIVE
}
pub fn clones() -> usize {
    l().clones
}
pub fn drops() -> usize {
    l().drops
}
pub fn born() -> usize {
    l().next
}
pub fn live() -> usize {
    let g = l();
    g.next - g.drops
}
/// Everything created so far has been dropped exactly once.
pub fn check_no_leak() {
    vt::check(live() == 0, "an element was leaked (never dropped)");
}

/// Instrumented element: symbolic payload, concrete identity.
#[derive(Debug)]
pub struct T {
    pub v: u64,
    pub id: u32,
    canary: u32,
}
const CANARY: u32 = 0x5eed_cafe;
impl T {
    pub fn new(v: u64) -> T {
        T { v, id: birth(), canary: CANARY }
    }
    pub fn ok(&self) -> bool {
        self.canary == CANARY && is_live(self.id)
    }
}
impl Drop for T {
    fn drop(&mut self) {
        vt::check(self.canary == CANARY, "a value that is not an element was dropped");
        death(self.id);
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        vt::check(self.ok(), "a dead element was cloned");
        l().clones += 1;
        T { v: self.v, id: birth(), canary: CANARY }
    }
}
pub const DEFAULT: u64 = 0xdefa;
impl Default for T {
    fn default() -> T {
        T::new(DEFAULT)
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.v == o.v
    }
}
