//! Native runtime: values come from the file named by VT_REPLAY, one `name bits value` per line, in
//! the order in which the harness asks for them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicI8, Ordering};

thread_local! {
    static VALS: RefCell<(Vec<(String, u64)>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}
static RULE: AtomicI8 = AtomicI8::new(-1);

pub fn load(path: &str) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let v = t
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| {
            let mut i = l.split_whitespace();
            let n = i.next().unwrap().to_string();
            let _bits = i.next().unwrap();
            (n, i.next().unwrap().parse::<u128>().unwrap() as u64)
        })
        .collect();
    VALS.with(|x| *x.borrow_mut() = (v, 0));
}
fn s<'a>(p: *const u8, n: usize) -> &'a str {
    unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() }
}
fn leave(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[unsafe(no_mangle)]
extern "C" fn vt_sym(bits: u32, name: *const u8, len: usize) -> u64 {
    let name = s(name, len);
    let v = VALS.with(|x| {
        let mut x = x.borrow_mut();
        let i = x.1;
        x.1 += 1;
        match x.0.get(i) {
            None => 0, // not constrained by the model (created after the violation)
            Some((n, v)) => {
                let n = n.split('#').next().unwrap();
                if n != name {
                    println!("VT-DESYNC wanted {name} got {n}");
                    leave(78);
                }
                *v
            }
        }
    });
    if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
}
#[unsafe(no_mangle)]
extern "C" fn vt_assume(b: bool) {
    if !b {
        println!("VT-ASSUMPTION-FAILED");
        leave(77);
    }
}
#[unsafe(no_mangle)]
extern "C" fn vt_assert(b: bool, msg: *const u8, len: usize) {
    if !b {
        println!("VT-ASSERT-FAILED {}", s(msg, len));
        leave(90);
    }
}
#[unsafe(no_mangle)]
extern "C" fn vt_split(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C" fn vt_observe(v: u64) {
    println!("OBS {v}");
}
#[unsafe(no_mangle)]
extern "C" fn vt_cover(_: *const u8, _: usize) {}
#[unsafe(no_mangle)]
extern "C" fn vt_alloc_rule(allowed: bool) {
    RULE.store(allowed as i8, Ordering::SeqCst);
}
#[unsafe(no_mangle)]
extern "C" fn vt_thread(_: u64) {}
#[unsafe(no_mangle)]
extern "C" fn vt_shard(_: u64) {}

/// Large allocations end the run: 92 when the rule in force forbids them, 79 otherwise.
pub struct A;
const LIMIT: usize = 1 << 16;
fn big(n: usize) {
    if n > LIMIT {
        let r = RULE.load(Ordering::SeqCst);
        if r >= 0 {
            RULE.store(-1, Ordering::SeqCst);
            if r == 0 {
                println!("VT-ALLOC-RULE-FAILED {n} bytes requested");
                leave(92);
            }
            println!("VT-LARGE-ALLOCATION {n}");
            leave(79);
        }
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        big(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        big(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        big(n);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: A = A;
