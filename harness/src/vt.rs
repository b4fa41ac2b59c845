//! Interface between the harnesses and whatever runs them: the symbolic executor (the `vt_*`
//! symbols stay undefined and are intrinsics of the engine) or a native run that takes the values
//! of a solver model (feature `replay`, the symbols are defined in `replay.rs`).

unsafe extern "C" {
    fn vt_sym(bits: u32, name: *const u8, len: usize) -> u64;
    fn vt_assume(b: bool);
    fn vt_assert(b: bool, msg: *const u8, len: usize);
    fn vt_split(v: u64) -> u64;
    fn vt_observe(v: u64);
    fn vt_cover(msg: *const u8, len: usize);
    fn vt_alloc_rule(allowed: bool);
    fn vt_thread(t: u64);
    fn vt_shard(k: u64);
    fn vt_shim_symbolic(max: u64);
    fn vt_shim_levels(max: u64);
    fn vt_shim_uniform(max: u64);
}

/// A fresh unconstrained value.
pub fn sym(bits: u32, name: &str) -> u64 {
    unsafe { vt_sym(bits, name.as_ptr(), name.len()) }
}
pub fn sym_u64(name: &str) -> u64 {
    sym(64, name)
}
pub fn sym_usize(name: &str) -> usize {
    sym(64, name) as usize
}
pub fn sym_bool(name: &str) -> bool {
    sym(1, name) != 0
}
/// A value in `lo..=hi`, one path per value.
pub fn choose(lo: usize, hi: usize, name: &str) -> usize {
    if lo == hi {
        return lo;
    }
    let v = sym(16, name) as usize;
    assume((v >= lo) & (v <= hi));
    split(v)
}
pub fn choose_bool(name: &str) -> bool {
    split(sym(1, name) as usize) != 0
}
pub fn assume(b: bool) {
    unsafe { vt_assume(b) }
}
/// The property: an assertion over everything symbolic.
pub fn check(b: bool, msg: &str) {
    unsafe { vt_assert(b, msg.as_ptr(), msg.len()) }
}
/// Fork so that the value is a constant on every path.
pub fn split(v: usize) -> usize {
    unsafe { vt_split(v as u64) as usize }
}
pub fn observe(v: u64) {
    unsafe { vt_observe(v) }
}
pub fn cover(msg: &str) {
    unsafe { vt_cover(msg.as_ptr(), msg.len()) }
}
/// From here on an allocation beyond the modelled memory is legitimate iff `allowed`.
pub fn alloc_rule(allowed: bool) {
    unsafe { vt_alloc_rule(allowed) }
}
/// Accesses from here on belong to thread `t` (0 ends the concurrent section).
pub fn thread(t: u64) {
    unsafe { vt_thread(t) }
}
/// Bookkeeping of the harness, not part of the concurrent section, follows.
pub fn pause() {
    unsafe { vt_thread(99) }
}

/// Parallel operations from here on run under an arbitrary schedule and 1..=max threads.
pub fn any_schedule(max: usize) {
    unsafe { vt_shim_symbolic(max as u64) }
}
/// As `any_schedule`, with the scheduler deciding once per level of the fork-join tree.
pub fn any_level_schedule(max: usize) {
    unsafe { vt_shim_levels(max as u64) }
}
/// One decision for the first join and one for all others.
pub fn any_uniform_schedule(max: usize) {
    unsafe { vt_shim_uniform(max as u64) }
}
/// Work sharing: the path is explored by the process whose share `key` falls in.
pub fn shard(key: usize) {
    unsafe { vt_shard(key as u64) }
}
/// Bound by tier.
pub const fn tier(quick: usize, thorough: usize) -> usize {
    if cfg!(feature = "thorough") { thorough } else { quick }
}

/// Did the closure panic?  (Caught like any caller would.)
pub fn catches<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            std::mem::forget(p);
            Err(())
        }
    }
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $n:ident() $b:block )*) => {
        $(
            $(#[$a])*
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $n() $b
        )*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    };
}
