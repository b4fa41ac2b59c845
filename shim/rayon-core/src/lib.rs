//! Stand-in for rayon-core: sequential fork-join in which everything the scheduler decides is a
//! symbolic choice: which branch of a `join` runs first, whether a branch counts as migrated to
//! another thread, and how many threads the pool has.  Work is run to completion branch by branch;
//! rayon's own lock-free machinery is not modelled.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

extern "C" {
    fn vt_sym(bits: u32, name: *const u8, len: usize) -> u64;
    fn vt_assume(b: bool);
    fn vt_split(v: u64) -> u64;
}
fn pick(bits: u32, name: &str) -> u64 {
    unsafe { vt_split(vt_sym(bits, name.as_ptr(), name.len())) }
}

/// 0: one fixed schedule; 1: symbolic schedule; 2: symbolic schedule, one choice per nesting level.
static MODE: AtomicUsize = AtomicUsize::new(0);
static LEVELS: [AtomicUsize; 32] = [const { AtomicUsize::new(0) }; 32];
static THREADS: AtomicUsize = AtomicUsize::new(2);
static DEPTH: AtomicUsize = AtomicUsize::new(0);

/// Chooses the pool size (1..=max) and turns symbolic scheduling on.
#[no_mangle]
pub extern "C" fn vt_shim_symbolic(max: u64) {
    let n = unsafe {
        let name = "threads";
        let v = vt_sym(16, name.as_ptr(), name.len());
        vt_assume((v >= 1) & (v <= max));
        vt_split(v)
    };
    THREADS.store(n as usize, Ordering::Relaxed);
    MODE.store(1, Ordering::Relaxed);
}

/// As above, but joins at the same nesting level go the same way.
#[no_mangle]
pub extern "C" fn vt_shim_levels(max: u64) {
    vt_shim_symbolic(max);
    MODE.store(2, Ordering::Relaxed);
}

/// As above, but joins of all levels below the first go the same way.
#[no_mangle]
pub extern "C" fn vt_shim_uniform(max: u64) {
    vt_shim_symbolic(max);
    MODE.store(3, Ordering::Relaxed);
}

fn symbolic() -> bool {
    MODE.load(Ordering::Relaxed) != 0
}
/// (b runs first, b was stolen)
fn choice(level: usize, injected: bool) -> (bool, bool) {
    let mode = MODE.load(Ordering::Relaxed);
    let cell = &LEVELS[if mode == 3 { level.min(1) } else { level & 31 }];
    if mode >= 2 {
        let c = cell.load(Ordering::Relaxed);
        if c != 0 {
            return (c & 2 != 0, c & 4 != 0 || injected);
        }
    }
    let first_b = pick(1, "b_first") != 0;
    let stolen = first_b || injected || pick(1, "stolen") != 0;
    cell.store(1 + 2 * first_b as usize + 4 * stolen as usize, Ordering::Relaxed);
    (first_b, stolen)
}

pub fn max_num_threads() -> usize {
    255
}
pub fn current_num_threads() -> usize {
    THREADS.load(Ordering::Relaxed)
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

fn finish<RA, RB>(a: Result<RA, Box<dyn Any + Send>>, b: Result<RB, Box<dyn Any + Send>>) -> (RA, RB) {
    match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), b) => {
            drop(b);
            resume_unwind(p)
        }
        (Ok(a), Err(p)) => {
            drop(a);
            resume_unwind(p)
        }
    }
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    // both closures always run, a panic is propagated once both are done
    if !symbolic() {
        let a = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
        let b = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(false))));
        return finish(a, b);
    }
    // the outermost join may come from outside the pool ("injected"), then both closures count as
    // migrated; b counts as migrated when it is stolen, which is also the only way it can run first
    let level = DEPTH.fetch_add(1, Ordering::Relaxed);
    let injected = level == 0 && pick(1, "injected") != 0;
    let (first_b, stolen) = choice(level, injected);
    let (a, b);
    if first_b {
        b = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(stolen))));
        a = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
    } else {
        a = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
        b = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(stolen))));
    }
    DEPTH.fetch_sub(1, Ordering::Relaxed);
    finish(a, b)
}
pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

type Job<'s> = Box<dyn FnOnce() + Send + 's>;
struct Queue<'s>(Mutex<Vec<Job<'s>>>);
impl<'s> Queue<'s> {
    fn new() -> Self {
        Queue(Mutex::new(Vec::new()))
    }
    fn drain(&self) {
        loop {
            let mut q = self.0.lock().unwrap();
            if q.is_empty() {
                return;
            }
            let i = if symbolic() && q.len() > 1 && pick(1, "spawn_order") != 0 { q.len() - 1 } else { 0 };
            let j = q.remove(i);
            drop(q);
            j();
        }
    }
}

pub struct Scope<'scope> {
    q: Queue<'scope>,
    _m: PhantomData<&'scope mut &'scope ()>,
}
pub struct ScopeFifo<'scope>(Scope<'scope>);
struct P<T>(*const T);
unsafe impl<T> Send for P<T> {}
impl<T> P<T> {
    fn get(&self) -> *const T {
        self.0
    }
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { q: Queue::new(), _m: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let p = P(self as *const Self);
        self.q.0.lock().unwrap().push(Box::new(move || body(unsafe { &*p.get() })));
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let p = P(self as *const Self);
        self.0.q.0.lock().unwrap().push(Box::new(move || body(unsafe { &*p.get() })));
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    let r = op(&s);
    s.q.drain();
    r
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo(Scope::new());
    let r = op(&s);
    s.0.q.drain();
    r
}
pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub struct BroadcastContext<'a> {
    index: usize,
    num: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.num
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let num = current_num_threads();
    (0..num).map(|index| op(BroadcastContext { index, num, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}
impl Error for ThreadPoolBuildError {}
impl From<ThreadPoolBuildError> for io::Error {
    fn from(e: ThreadPoolBuildError) -> io::Error {
        io::Error::other(e)
    }
}
pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn run(self) {}
}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
