//! The process environment as the crate sees it: terminals and environment variables chosen by the
//! harness.  These definitions take the place of libc's.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

static TTY: [AtomicBool; 3] = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
/// 0: unset, 1..: index into VALUES
static VARS: [AtomicUsize; NAMES.len()] = [const { AtomicUsize::new(0) }; NAMES.len()];
pub const NAMES: [&[u8]; 10] = [b"NO_COLOR\0", b"TERM\0", b"COLORTERM\0", b"CLICOLOR\0", b"TERM_PROGRAM\0", b"CI\0", b"FORCE_COLOR\0", b"CLICOLOR_FORCE\0", b"IGNORE_IS_TERMINAL\0", b"PREFER_CLICOLOR\0"];
pub const VALUES: [&[u8]; 6] = [b"1\0", b"dumb\0", b"xterm-256color\0", b"truecolor\0", b"0\0", b"iTerm.app\0"];
pub const NO_COLOR: usize = 0;
pub const TERM: usize = 1;
pub const COLORTERM: usize = 2;
pub const CLICOLOR: usize = 3;
pub const CI: usize = 5;

pub fn terminal(fd: usize, yes: bool) {
    TTY[fd].store(yes, Relaxed);
}
pub fn variable(name: usize, value: usize) {
    VARS[name].store(value + 1, Relaxed);
}

#[unsafe(no_mangle)]
pub extern "C" fn isatty(fd: i32) -> i32 {
    (fd >= 0 && fd < 3 && TTY[fd as usize].load(Relaxed)) as i32
}
unsafe fn same(mut a: *const u8, mut b: *const u8) -> bool {
    unsafe {
        loop {
            if *a != *b {
                return false;
            }
            if *a == 0 {
                return true;
            }
            a = a.add(1);
            b = b.add(1);
        }
    }
}
#[cfg(feature = "replay")]
unsafe extern "C" {
    static environ: *const *const u8;
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    for i in 0..NAMES.len() {
        if unsafe { same(name, NAMES[i].as_ptr()) } {
            let v = VARS[i].load(Relaxed);
            return if v == 0 { std::ptr::null() } else { VALUES[v - 1].as_ptr() };
        }
    }
    #[cfg(feature = "replay")]
    unsafe {
        let mut p = environ;
        while !(*p).is_null() {
            let (mut e, mut n) = (*p, name);
            while *n != 0 && *e == *n {
                e = e.add(1);
                n = n.add(1);
            }
            if *n == 0 && *e == b'=' {
                return e.add(1);
            }
            p = p.add(1);
        }
    }
    std::ptr::null()
}
