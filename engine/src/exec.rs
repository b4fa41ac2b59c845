//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(E),
    U,
    B(Rc<Vec<Byte>>),
    A(Rc<Vec<Val>>),
}

#[derive(Debug)]
pub enum Stop {
    Viol(&'static str, String),
    Incomplete(String),
    /// path ends without a verdict of its own (infeasible assumption, modelled allocation failure)
    Kill(&'static str),
    End,
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub allocas: Vec<u32>,
    pub ret_dst: Option<u32>,
    pub ret_to: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub facts: HashMap<E, bool, BuildFx>,
    pub known: HashMap<E, u128, BuildFx>,
    pub model: Rc<Model>,
    pub syms: Vec<u32>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub tid: u8,
    pub acc: Rc<HashMap<(u32, u32), (u8, u8)>>,
    pub alloc_rule: Option<Val>,
    pub panic_info: Rc<str>,
    pub covers: Rc<HashSet<Rc<str>>>,
    pub enumerated: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum I {
    // runtime
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    NoShim,
    AllocErr,
    BeginUnwind,
    CatchCleanup,
    ResumeUnwind,
    Abort,
    PanicNounwind,
    // vt api
    VtSym,
    VtAssume,
    VtAssert,
    VtSplit,
    VtObserve,
    VtCover,
    VtAllocRule,
    VtThread,
    VtIsSym,
    VtIntro,
    VtShard,
    // libc
    Memcmp,
    Bcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    RetZero,
    RetMinus1,
    // llvm
    LMemcpy,
    LMemmove,
    LMemset,
    LUaddO,
    LSaddO,
    LUsubO,
    LSsubO,
    LUmulO,
    LSmulO,
    LUaddS,
    LUsubS,
    LSaddS,
    LSsubS,
    LCtpop,
    LCtlz,
    LCttz,
    LBswap,
    LBitrev,
    LFshl,
    LFshr,
    LUmin,
    LUmax,
    LSmin,
    LSmax,
    LAbs,
    LExpect,
    LAssume,
    LNop,
    LTrap,
    LTls,
    LFabs,
    LFloor,
    LCeil,
    LTrunc,
    LRound,
    LSqrt,
    LRoundEven,
    LCopysign,
    LIsConst,
    LUcmp,
    LScmp,
    LPtrmask,
    LFpToUiSat,
    LFpToSiSat,
    LMinnum,
    LMaxnum,
    LReduceOr,
    LReduceAnd,
    LReduceAdd,
    LVectorExtract,
    LLoadRel,
    LLifetimeStart,
    LLifetimeEnd,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    Normal,
    Missing,
    I(I),
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u32, u128)>,
}

pub struct Sample {
    pub inputs: Vec<(String, u32, u128)>,
    pub obs: Vec<u128>,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_time: Duration,
    pub max_paths: u64,
    pub max_viol: usize,
    pub alloc_limit: u64,
    pub samples: usize,
    pub verbose: bool,
    pub max_enum: u32,
    pub shard: u64,
    pub shards: u64,
    /// running out of steps is a limit of the exploration, not a finding
    pub long_ok: bool,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub o: Opts,
    pub kinds: Vec<FK>,
    pub ginit: Vec<Option<Rc<Obj>>>,
    pub galign: Vec<u64>,
    kcache: HashMap<usize, Val>,
    pub work: Vec<State>,
    pub next_model: u64,
    // statistics
    pub paths: u64,
    pub killed: BTreeMap<String, u64>,
    pub total_steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub executed: Vec<bool>,
    pub blocks: HashMap<u32, Vec<bool>>,
    pub covers: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    viol_keys: HashSet<String>,
    pub samples: Vec<Sample>,
    pub start: Instant,
    pub max_depth: usize,
    pub any_vtable: u64,
    pub end_steps_max: u64,
    vmap: HashMap<(String, u32), E>,
}

fn fk_of(name: &str, defined: bool) -> FK {
    if let Some(r) = name.strip_prefix("llvm.") {
        let has = |p: &str| r.starts_with(p);
        let i = if has("memcpy.") {
            I::LMemcpy
        } else if has("memmove.") {
            I::LMemmove
        } else if has("memset.") {
            I::LMemset
        } else if has("uadd.with.overflow") {
            I::LUaddO
        } else if has("sadd.with.overflow") {
            I::LSaddO
        } else if has("usub.with.overflow") {
            I::LUsubO
        } else if has("ssub.with.overflow") {
            I::LSsubO
        } else if has("umul.with.overflow") {
            I::LUmulO
        } else if has("smul.with.overflow") {
            I::LSmulO
        } else if has("uadd.sat") {
            I::LUaddS
        } else if has("usub.sat") {
            I::LUsubS
        } else if has("sadd.sat") {
            I::LSaddS
        } else if has("ssub.sat") {
            I::LSsubS
        } else if has("ctpop") {
            I::LCtpop
        } else if has("ctlz") {
            I::LCtlz
        } else if has("cttz.i") {
            I::LCttz
        } else if has("bswap") {
            I::LBswap
        } else if has("bitreverse") {
            I::LBitrev
        } else if has("fshl") {
            I::LFshl
        } else if has("fshr") {
            I::LFshr
        } else if has("umin") {
            I::LUmin
        } else if has("umax") {
            I::LUmax
        } else if has("smin") {
            I::LSmin
        } else if has("smax") {
            I::LSmax
        } else if has("abs.") {
            I::LAbs
        } else if has("expect") {
            I::LExpect
        } else if has("assume") {
            I::LAssume
        } else if has("lifetime.start") {
            I::LLifetimeStart
        } else if has("lifetime.end") {
            I::LLifetimeEnd
        } else if has("dbg.") || has("experimental.noalias") || has("prefetch") || has("donothing") || has("sideeffect") || has("invariant.") {
            I::LNop
        } else if has("trap") || has("debugtrap") || has("ubsantrap") {
            I::LTrap
        } else if has("threadlocal.address") {
            I::LTls
        } else if has("fabs") {
            I::LFabs
        } else if has("floor") {
            I::LFloor
        } else if has("ceil") {
            I::LCeil
        } else if has("trunc") {
            I::LTrunc
        } else if has("roundeven") || has("rint") || has("nearbyint") {
            I::LRoundEven
        } else if has("round") {
            I::LRound
        } else if has("sqrt") {
            I::LSqrt
        } else if has("copysign") {
            I::LCopysign
        } else if has("is.constant") {
            I::LIsConst
        } else if has("ucmp") {
            I::LUcmp
        } else if has("scmp") {
            I::LScmp
        } else if has("ptrmask") {
            I::LPtrmask
        } else if has("fptoui.sat") {
            I::LFpToUiSat
        } else if has("fptosi.sat") {
            I::LFpToSiSat
        } else if has("minnum") || has("minimumnum") {
            I::LMinnum
        } else if has("maxnum") || has("maximumnum") {
            I::LMaxnum
        } else if has("vector.reduce.or") {
            I::LReduceOr
        } else if has("vector.reduce.and") {
            I::LReduceAnd
        } else if has("vector.reduce.add") {
            I::LReduceAdd
        } else if has("load.relative") {
            I::LLoadRel
        } else {
            return FK::Missing;
        };
        return FK::I(i);
    }
    let e = |s: &str| name.ends_with(s);
    let c = |s: &str| name.contains(s);
    let i = match name {
        "vt_sym" => I::VtSym,
        "vt_assume" => I::VtAssume,
        "vt_assert" => I::VtAssert,
        "vt_split" => I::VtSplit,
        "vt_observe" => I::VtObserve,
        "vt_cover" => I::VtCover,
        "vt_alloc_rule" => I::VtAllocRule,
        "vt_thread" => I::VtThread,
        "vt_is_symbolic" => I::VtIsSym,
        "vt_intro" => I::VtIntro,
        "vt_shard" => I::VtShard,
        "memcmp" => I::Memcmp,
        "bcmp" => I::Bcmp,
        "memcpy" => I::Memcpy,
        "memmove" => I::Memmove,
        "memset" => I::Memset,
        "strlen" => I::Strlen,
        "getenv" | "isatty" if defined => return FK::Normal,
        "getenv" | "isatty" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_getspecific" => I::RetZero,
        "abort" | "_exit" | "exit" => I::Abort,
        "open64" | "open" | "ioctl" | "write" | "read" => I::RetMinus1,
        _ => {
            if e("_7___rustc12___rust_alloc") {
                I::Alloc
            } else if e("19___rust_alloc_zeroed") {
                I::AllocZeroed
            } else if e("14___rust_realloc") {
                I::Realloc
            } else if e("14___rust_dealloc") {
                I::Dealloc
            } else if e("___rust_no_alloc_shim_is_unstable_v2") || e("___rust_no_alloc_shim_is_unstable") {
                I::NoShim
            } else if e("26___rust_alloc_error_handler") || e("5alloc18handle_alloc_error") {
                I::AllocErr
            } else if e("17rust_begin_unwind") {
                I::BeginUnwind
            } else if c("9panicking12catch_unwind7cleanup") || c("9panicking3try7cleanup") {
                I::CatchCleanup
            } else if c("5panic13resume_unwind") || c("9panicking11begin_panic") || e("9panicking20rust_panic_with_hook") || e("9panicking26rust_panic_without_hook") || c("5panic9panic_any") {
                I::ResumeUnwind
            } else if c("9panicking14panic_nounwind") || e("9panicking18panic_nounwind_fmt") || e("9panicking16panic_in_cleanup") || e("9panicking19panic_cannot_unwind") || e("29panic_nounwind_nobacktrace") {
                I::PanicNounwind
            } else if c("3std7process5abort") || e("14abort_internal") {
                I::Abort
            } else if defined {
                return FK::Normal;
            } else {
                return FK::Missing;
            }
        }
    };
    FK::I(i)
}

impl Engine {
    pub fn new(m: Module, o: Opts) -> Engine {
        let kinds = m.fn_names.iter().zip(m.fn_range.iter()).map(|(n, r)| fk_of(n, r.is_some())).collect::<Vec<_>>();
        let ng = m.global_names.len();
        let nf = m.fn_names.len();
        Engine {
            m,
            p: Pool::new(),
            s: Solver::new(),
            o,
            kinds,
            ginit: vec![None; ng],
            galign: vec![0; ng],
            kcache: HashMap::new(),
            work: vec![],
            next_model: 1,
            paths: 0,
            killed: BTreeMap::new(),
            total_steps: 0,
            forks: 0,
            branches: 0,
            asserts_trivial: 0,
            asserts_solver: 0,
            executed: vec![false; nf],
            blocks: HashMap::new(),
            covers: BTreeMap::new(),
            incomplete: BTreeMap::new(),
            viols: vec![],
            viol_keys: HashSet::new(),
            samples: vec![],
            start: Instant::now(),
            max_depth: 0,
            any_vtable: 0,
            end_steps_max: 0,
            vmap: HashMap::new(),
        }
    }

    // ---------- globals & constants ----------
    fn gaddr(&mut self, g: u32) -> u64 {
        if self.galign[g as usize] == 0 {
            self.ginit_get(g);
        }
        ((GLOBAL_BASE + g as u64) << 32) | (WIN + self.galign[g as usize])
    }
    fn ginit_get(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.ginit[g as usize] {
            return o.clone();
        }
        let (ty, init, align, is_const) = self.m.global_def(g);
        self.galign[g as usize] = align;
        let sz = match ty {
            Ty::Opaque => 8,
            _ => ty.alloc_size(),
        };
        let mut ob = Obj::new(sz, align, Kind::Global, true);
        ob.ro = is_const;
        if let Some(c) = init {
            self.const_bytes(&ty, &c, &mut ob, 0);
        }
        let r = Rc::new(ob);
        self.ginit[g as usize] = Some(r.clone());
        r
    }
    fn sym_addr(&mut self, name: &str) -> Option<u64> {
        if let Some(g) = self.m.globals.get(name) {
            let g = *g;
            return Some(self.gaddr(g));
        }
        if let Some(f) = self.m.fn_idx.get(name) {
            return Some(((FN_BASE + *f as u64) << 32) | WIN);
        }
        if let Some(a) = self.m.aliases.get(name) {
            let a = a.clone();
            return self.sym_addr(&a);
        }
        None
    }
    fn const_bytes(&mut self, ty: &Ty, c: &Const, o: &mut Obj, off: usize) {
        match c {
            Const::Zero => {}
            Const::Undef => {
                for i in 0..ty.alloc_size() as usize {
                    o.tag[off + i] = 0;
                }
            }
            Const::Int(v, _) => {
                for i in 0..ty.store_size() as usize {
                    o.data[off + i] = (v >> (8 * i)) as u8;
                }
            }
            Const::Str(s) => o.data[off..off + s.len()].copy_from_slice(s),
            Const::Global(n, d) => {
                let a = self.sym_addr(n).unwrap_or(0).wrapping_add(*d as u64);
                o.data[off..off + 8].copy_from_slice(&a.to_le_bytes());
            }
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (_, fo) = ty.field(i);
                    self.const_bytes(t, c, o, off + fo as usize);
                }
            }
            Const::Splat(b) => {
                if let Ty::Vec(_, n) | Ty::Arr(_, n) = ty {
                    for i in 0..*n as usize {
                        let (_, fo) = ty.field(i);
                        self.const_bytes(&b.0, &b.1, o, off + fo as usize);
                    }
                }
            }
            Const::Unsupported(_) => {
                for i in 0..ty.alloc_size() as usize {
                    o.tag[off + i] = 0;
                }
            }
        }
    }
    fn const_val(&mut self, ty: &Ty, c: &Const) -> Val {
        match c {
            Const::Int(v, _) => Val::C(*v),
            Const::Undef => self.undef_of(ty),
            Const::Zero => self.zero_of(ty),
            Const::Global(n, d) => match self.sym_addr(n) {
                Some(a) => Val::C(a.wrapping_add(*d as u64) as u128),
                None => Val::U,
            },
            Const::Agg(v) => {
                let x = v.iter().map(|(t, c)| self.const_val(t, c)).collect();
                Val::A(Rc::new(x))
            }
            Const::Str(s) => Val::A(Rc::new(s.iter().map(|b| Val::C(*b as u128)).collect())),
            Const::Splat(b) => {
                let v = self.const_val(&b.0, &b.1);
                let n = match ty {
                    Ty::Vec(_, n) | Ty::Arr(_, n) => *n,
                    _ => 1,
                };
                Val::A(Rc::new(vec![v; n as usize]))
            }
            Const::Unsupported(_) => Val::U,
        }
    }
    fn undef_of(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.undef_of(f)).collect())),
            Ty::Arr(t, n) | Ty::Vec(t, n) => Val::A(Rc::new(vec![self.undef_of(t); *n as usize])),
            _ => Val::U,
        }
    }
    fn zero_of(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.zero_of(f)).collect())),
            Ty::Arr(t, n) | Ty::Vec(t, n) => Val::A(Rc::new(vec![self.zero_of(t); *n as usize])),
            _ => Val::C(0),
        }
    }
    #[inline]
    fn opd(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::I(v) => Val::C(*v),
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    Val::C(x) => Val::C(*x),
                    Val::E(e) => {
                        if let Some(k) = st.known.get(e) {
                            Val::C(*k)
                        } else {
                            let e = *e;
                            let vs = self.p.vars(e);
                            if vs.len() == 1 && st.known.contains_key(&self.p.var_e[vs[0] as usize]) {
                                let m = st.model.clone();
                                return Val::C(self.p.eval(e, &m));
                            }
                            Val::E(e)
                        }
                    }
                    v => v.clone(),
                }
            }
            Opd::K(k) => {
                let key = Rc::as_ptr(k) as usize;
                if let Some(v) = self.kcache.get(&key) {
                    return v.clone();
                }
                let v = self.const_val(&k.0, &k.1);
                self.kcache.insert(key, v.clone());
                v
            }
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    pub fn val(&self, e: E) -> Val {
        match self.p.as_k(e) {
            Some(k) => Val::C(k),
            None => Val::E(e),
        }
    }
    fn te(&mut self, v: &Val, w: u32) -> Option<E> {
        match v {
            Val::C(k) => Some(self.p.k(*k, w)),
            Val::E(e) => Some(*e),
            Val::B(b) => {
                if b.iter().any(|x| *x == Byte::U) {
                    return None;
                }
                Some(self.bytes_to_e(b))
            }
            _ => None,
        }
    }
    fn bytes_to_e(&mut self, b: &[Byte]) -> E {
        let mut acc: Option<E> = None;
        let mut i = b.len();
        while i > 0 {
            i -= 1;
            let piece = match b[i] {
                Byte::C(v) => self.p.k(v as u128, 8),
                Byte::S(e, k) => self.byte_of(e, k),
                Byte::U => unreachable!(),
            };
            acc = Some(match acc {
                None => piece,
                Some(h) => self.p.concat(h, piece),
            });
        }
        acc.unwrap()
    }
    fn byte_of(&mut self, e: E, k: u8) -> E {
        let w = self.p.w(e);
        let lo = k as u32 * 8;
        if w < 8 {
            return self.p.zext(e, 8);
        }
        if lo + 8 <= w {
            self.p.extract(e, lo, 8)
        } else {
            let x = self.p.extract(e, lo, w - lo);
            self.p.zext(x, 8)
        }
    }

    // ---------- path conditions ----------
    fn assume(&mut self, st: &mut State, c: E) {
        if self.p.as_k(c) == Some(1) {
            return;
        }
        let n = self.p.n[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.assume(st, n.a);
            self.assume(st, n.b);
            return;
        }
        st.facts.insert(c, true);
        let nc = self.p.not(c);
        st.facts.insert(nc, false);
        if n.op == Op::Eq {
            if let Some(k) = self.p.as_k(n.b) {
                st.known.insert(n.a, k);
                let za = self.p.n[n.a as usize];
                if za.op == Op::ZExt {
                    st.known.insert(za.a, k);
                }
            }
        }
        if n.op == Op::Not {
            let m = self.p.n[n.a as usize];
            if m.op == Op::Or && m.w == 1 {
                let x = self.p.not(m.a);
                let y = self.p.not(m.b);
                self.assume(st, x);
                self.assume(st, y);
                return;
            }
            st.known.insert(n.a, 0);
        } else if n.w == 1 {
            st.known.insert(c, 1);
        }
        st.pc.push(c);
    }
    fn slice(&mut self, st: &State, q: &[E]) -> Vec<E> {
        let mut set: HashSet<u32, BuildFx> = HashSet::default();
        let mut todo: Vec<u32> = vec![];
        for e in q {
            for v in self.p.vars(*e).iter() {
                if set.insert(*v) {
                    todo.push(*v);
                }
            }
        }
        let pcv: Vec<VarSet> = st.pc.iter().map(|e| self.p.vars(*e)).collect();
        let mut inc = vec![false; st.pc.len()];
        while let Some(v) = todo.pop() {
            let ve = self.p.var_e[v as usize];
            let fixed = st.known.contains_key(&ve);
            for (i, vs) in pcv.iter().enumerate() {
                if inc[i] || vs.binary_search(&v).is_err() {
                    continue;
                }
                if fixed && vs.len() > 1 {
                    continue;
                }
                inc[i] = true;
                for u in vs.iter() {
                    if set.insert(*u) {
                        todo.push(*u);
                    }
                }
            }
        }
        let mut out: Vec<E> = st.pc.iter().zip(inc).filter(|(_, i)| *i).map(|(e, _)| *e).collect();
        out.extend_from_slice(q);
        out
    }
    fn fresh_model(&mut self, old: &Rc<Model>, upd: &[(u32, u128)]) -> Rc<Model> {
        let mut v = old.v.clone();
        for (i, x) in upd {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *x;
        }
        self.next_model += 1;
        Rc::new(Model { id: self.next_model, v })
    }
    /// Is pc ∧ q satisfiable?  Returns the model if so.
    fn sat(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        let sl = self.slice(st, &[q]);
        match self.s.check(&mut self.p, &sl) {
            Ans::Unsat => Ok(None),
            Ans::Sat(u) => {
                let m = self.fresh_model(&st.model, &u);
                // the model must really satisfy the slice (guards the encoding)
                for e in &sl {
                    if self.p.eval(*e, &m) != 1 {
                        let s = format!("solver model does not satisfy {} (evaluator and encoding disagree)", self.p.show(*e, 4));
                        return Err(Stop::Incomplete(s));
                    }
                }
                Ok(Some(m))
            }
            Ans::Unknown => Err(Stop::Incomplete(format!("solver undecided: {}", self.p.show(q, 5)))),
        }
    }
    fn all_known(&mut self, st: &State, c: E) -> bool {
        let vs = self.p.vars(c);
        for v in vs.iter() {
            let ve = self.p.var_e[*v as usize];
            if !st.known.contains_key(&ve) {
                return false;
            }
        }
        true
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.p.as_k(c) {
            return Ok(k == 1);
        }
        if let Some(b) = st.facts.get(&c) {
            return Ok(*b);
        }
        let v = {
            let m = st.model.clone();
            self.p.eval(c, &m) == 1
        };
        if self.all_known(st, c) {
            st.facts.insert(c, v);
            return Ok(v);
        }
        self.branches += 1;
        let nc = self.p.not(c);
        let (yes, no) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, no) {
            Ok(None) => {
                st.facts.insert(c, v);
                st.facts.insert(nc, !v);
                if self.p.w(c) == 1 {
                    st.known.insert(c, v as u128);
                }
                Ok(v)
            }
            Ok(Some(m)) => {
                self.forks += 1;
                let mut other = st.clone();
                other.model = m;
                self.assume(&mut other, no);
                self.work.push(other);
                self.assume(st, yes);
                Ok(v)
            }
            Err(Stop::Incomplete(s)) => {
                *self.incomplete.entry(format!("branch not explored: {s}")).or_default() += 1;
                self.assume(st, yes);
                Ok(v)
            }
            Err(e) => Err(e),
        }
    }
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.p.as_k(e) {
            return Ok(k);
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let m = st.model.clone();
        let v = self.p.eval(e, &m);
        if self.all_known(st, e) {
            return Ok(v);
        }
        let w = self.p.w(e);
        let k = self.p.k(v, w);
        let c = self.p.eq(e, k);
        st.enumerated += 1;
        if st.enumerated > self.o.max_enum {
            return Err(Stop::Incomplete(format!("more than {} values enumerated for {}", self.o.max_enum, self.p.show(e, 3))));
        }
        let r = self.decide(st, c)?;
        if r {
            st.enumerated = 0;
            Ok(v)
        } else {
            Err(Stop::Incomplete("concretize: inconsistent".into()))
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> R<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::E(e) => self.concretize(st, *e),
            Val::B(_) => match self.te(v, w) {
                Some(e) => self.concretize(st, e),
                None => Err(Stop::Viol("ub", format!("uninitialised value used as {what}"))),
            },
            _ => Err(Stop::Viol("ub", format!("uninitialised value used as {what}"))),
        }
    }
    fn truth(&mut self, st: &mut State, v: &Val, what: &str) -> R<bool> {
        match v {
            Val::C(k) => Ok(*k & 1 == 1),
            Val::E(e) => {
                let e = *e;
                self.decide(st, e)
            }
            _ => Err(Stop::Viol("ub", format!("uninitialised value used as {what}"))),
        }
    }

    // ---------- memory ----------
    fn obj(&mut self, st: &State, a: u64) -> Result<Rc<Obj>, String> {
        let i = a >> 32;
        if i >= FN_BASE && i < FN_BASE + self.m.fn_names.len() as u64 {
            return Err("access to a function address".into());
        }
        if i >= GLOBAL_BASE {
            let g = (i - GLOBAL_BASE) as usize;
            if g >= self.ginit.len() {
                return Err(format!("access through invalid pointer {a:#x}"));
            }
            if let Some(o) = &st.mem.globals[g] {
                return Ok(o.clone());
            }
            return Ok(self.ginit_get(g as u32));
        }
        match st.mem.slot(i) {
            Slot::Live(o) => Ok(o.clone()),
            Slot::Freed => Err(format!("access to freed memory at {a:#x}")),
            Slot::None => Err(format!("access through invalid pointer {a:#x}")),
        }
    }
    fn with_obj_mut<T>(&mut self, st: &mut State, a: u64, f: impl FnOnce(&mut Obj) -> T) -> R<T> {
        let i = a >> 32;
        if i >= GLOBAL_BASE {
            let g = (i - GLOBAL_BASE) as usize;
            if st.mem.globals[g].is_none() {
                let o = self.ginit_get(g as u32);
                Rc::make_mut(&mut st.mem.globals)[g] = Some(o);
            }
            let gs = Rc::make_mut(&mut st.mem.globals);
            return Ok(f(Rc::make_mut(gs[g].as_mut().unwrap())));
        }
        match st.mem.slot_mut(i) {
            Some(Slot::Live(o)) => Ok(f(Rc::make_mut(o))),
            _ => Err(Stop::Viol("ub", "write to dead object".into())),
        }
    }
    #[inline]
    fn base_of(&self, a: u64, o: &Obj) -> u64 {
        (a & !0xffff_ffff) | (WIN + o.align)
    }
    /// resolve an address for an access of n bytes, checking bounds/liveness/alignment
    fn resolve(&mut self, st: &mut State, ptr: &Val, n: u64, align: u64, write: bool) -> R<u64> {
        let a = match ptr {
            Val::C(a) => *a as u64,
            _ => {
                let e = match self.te(ptr, 64) {
                    Some(e) => e,
                    None => return Err(Stop::Viol("ub", "access through an uninitialised pointer".into())),
                };
                let m = st.model.clone();
                let a0 = self.p.eval(e, &m) as u64;
                if n > 0 {
                    if let Ok(o) = self.obj(st, a0) {
                        let base = self.base_of(a0, &o);
                        if o.size >= n {
                            let be = self.p.k(base as u128, 64);
                            let off = self.p.sub(e, be);
                            let lim = self.p.k((o.size - n) as u128, 64);
                            let c = self.p.ule(off, lim);
                            let _ = self.decide(st, c)?;
                        }
                    }
                }
                self.concretize(st, e)? as u64
            }
        };
        if n == 0 {
            return Ok(a);
        }
        if align > 1 && a % align != 0 {
            return Err(Stop::Viol("ub", format!("misaligned access at {a:#x} (align {align})")));
        }
        let o = match self.obj(st, a) {
            Ok(o) => o,
            Err(s) => return Err(Stop::Viol("ub", s)),
        };
        let base = self.base_of(a, &o);
        if a < base || a - base > o.size || n > o.size - (a - base) {
            return Err(Stop::Viol("ub", format!("out-of-bounds {} of {n} bytes at offset {} of a {}-byte {:?} object", if write { "write" } else { "read" }, a.wrapping_sub(base) as i64, o.size, o.kind)));
        }
        if write && o.ro {
            return Err(Stop::Viol("ub", "write to read-only memory".into()));
        }
        if st.tid != 0 && o.kind == Kind::Heap {
            self.race(st, a, base, n, write)?;
        }
        Ok(a)
    }
    fn race(&mut self, st: &mut State, a: u64, base: u64, n: u64, write: bool) -> R<()> {
        let acc = Rc::make_mut(&mut st.acc);
        let bit = 1u8 << (st.tid - 1).min(7);
        for k in 0..n {
            let e = acc.entry(((a >> 32) as u32, (a - base + k) as u32)).or_insert((0, 0));
            let conflict = (e.1 & !bit) != 0 || (write && (e.0 & !bit) != 0);
            if conflict {
                return Err(Stop::Viol("race", format!("data race: byte at offset {} of a {:#x} object is accessed by two threads without synchronisation", a - base + k, a >> 32)));
            }
            if write {
                e.1 |= bit
            } else {
                e.0 |= bit
            }
        }
        Ok(())
    }
    fn read_scalar(&mut self, st: &State, a: u64, n: u64) -> Val {
        let o = self.obj(st, a).unwrap();
        let off = (a - self.base_of(a, &o)) as usize;
        let n = n as usize;
        let tags = &o.tag[off..off + n];
        if tags.iter().all(|t| *t == 1) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Val::C(u128::from_le_bytes(b));
        }
        if tags.iter().all(|t| *t == 0) {
            return Val::U;
        }
        if tags.iter().any(|t| *t == 0) {
            return Val::B(Rc::new((0..n).map(|i| o.byte(off + i)).collect()));
        }
        // fully initialised, at least one symbolic byte
        if tags[0] == 2 {
            let (e, k) = o.sym[off];
            let w = self.p.w(e);
            if k == 0 && (w + 7) / 8 == n as u32 && (0..n).all(|i| tags[i] == 2 && o.sym[off + i] == (e, i as u8)) {
                if w as usize == n * 8 {
                    return Val::E(e);
                }
                let z = self.p.zext(e, n as u32 * 8);
                return self.val(z);
            }
        }
        let bs: Vec<Byte> = (0..n).map(|i| o.byte(off + i)).collect();
        let e = self.bytes_to_e(&bs);
        self.val(e)
    }
    fn fit(&mut self, v: Val, ty: &Ty) -> Val {
        // loads of iN with N not a multiple of 8
        if let Ty::Int(w) = ty {
            if w % 8 != 0 {
                return match v {
                    Val::C(k) => Val::C(mask(k, *w)),
                    Val::E(e) => {
                        let x = self.p.extract(e, 0, *w);
                        self.val(x)
                    }
                    _ => Val::U,
                };
            }
        }
        v
    }
    fn load(&mut self, st: &mut State, ty: &Ty, a: u64) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(_, n) | Ty::Vec(_, n) => *n as usize,
                    _ => 0,
                };
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (ft, fo) = ty.field(i);
                    v.push(self.load(st, &ft, a + fo));
                }
                Val::A(Rc::new(v))
            }
            _ => {
                let n = ty.store_size();
                if n == 0 {
                    return Val::C(0);
                }
                let v = self.read_scalar(st, a, n);
                let v = self.fit(v, ty);
                if let Val::E(e) = &v {
                    if let Some(k) = st.known.get(e) {
                        return Val::C(*k);
                    }
                }
                v
            }
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(_, n) | Ty::Vec(_, n) => *n as usize,
                    _ => 0,
                };
                for i in 0..n {
                    let (ft, fo) = ty.field(i);
                    let x = match v {
                        Val::A(l) => l[i].clone(),
                        _ => Val::U,
                    };
                    self.store(st, &ft, &x, a + fo)?;
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size() as usize;
                if n == 0 {
                    return Ok(());
                }
                let align = match self.obj(st, a) {
                    Ok(o) => o.align,
                    Err(s) => return Err(Stop::Viol("ub", s)),
                };
                let off = (a - ((a & !0xffff_ffff) | (WIN + align))) as usize;
                match v {
                    Val::C(k) => {
                        let b = k.to_le_bytes();
                        self.with_obj_mut(st, a, |o| {
                            o.data[off..off + n].copy_from_slice(&b[..n]);
                            for t in &mut o.tag[off..off + n] {
                                *t = 1;
                            }
                        })
                    }
                    Val::E(e) => {
                        let e = *e;
                        self.with_obj_mut(st, a, |o| {
                            for i in 0..n {
                                o.set_byte(off + i, Byte::S(e, i as u8));
                            }
                        })
                    }
                    Val::B(bs) => {
                        let bs = bs.clone();
                        self.with_obj_mut(st, a, |o| {
                            for i in 0..n {
                                o.set_byte(off + i, bs.get(i).cloned().unwrap_or(Byte::U));
                            }
                        })
                    }
                    _ => self.with_obj_mut(st, a, |o| {
                        for t in &mut o.tag[off..off + n] {
                            *t = 0;
                        }
                    }),
                }
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val, overlap_ok: bool) -> R<()> {
        let n = self.conc(st, n, 64, "copy length")? as u64;
        if n == 0 {
            return Ok(());
        }
        if n > 1 << 28 {
            return Err(Stop::Viol("ub", format!("copy of {n} bytes")));
        }
        let s = self.resolve(st, s, n, 1, false)?;
        let d = self.resolve(st, d, n, 1, true)?;
        if s == d {
            return Ok(());
        }
        if !overlap_ok && s < d + n && d < s + n {
            return Err(Stop::Viol("ub", "memcpy on overlapping ranges".into()));
        }
        let so = self.obj(st, s).unwrap();
        let sb = (s - self.base_of(s, &so)) as usize;
        let n = n as usize;
        let dalign = self.obj(st, d).unwrap().align;
        let db = (d - ((d & !0xffff_ffff) | (WIN + dalign))) as usize;
        if (s >> 32) == (d >> 32) {
            let so = (*so).clone();
            self.with_obj_mut(st, d, |o| copy_bytes(o, db, &so, sb, n))
        } else {
            self.with_obj_mut(st, d, |o| copy_bytes(o, db, &so, sb, n))
        }
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.conc(st, n, 64, "memset length")? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.resolve(st, d, n, 1, true)?;
        let al = self.obj(st, d).unwrap().align;
        let off = (d - ((d & !0xffff_ffff) | (WIN + al))) as usize;
        let b = match v {
            Val::C(k) => Byte::C(*k as u8),
            Val::E(e) => Byte::S(*e, 0),
            _ => Byte::U,
        };
        self.with_obj_mut(st, d, |o| {
            for i in 0..n as usize {
                o.set_byte(off + i, b);
            }
        })
    }
    fn new_heap(&mut self, st: &mut State, size: &Val, align: &Val, zero: bool) -> R<Val> {
        let al = self.conc(st, align, 64, "alignment")? as u64;
        let lim = self.o.alloc_limit;
        let sz = match size {
            Val::C(k) => *k as u64,
            _ => {
                let e = match self.te(size, 64) {
                    Some(e) => e,
                    None => return Err(Stop::Viol("ub", "uninitialised allocation size".into())),
                };
                let l = self.p.k(lim as u128, 64);
                let c = self.p.ule(e, l);
                if !self.decide(st, c)? {
                    return self.huge_alloc(st);
                }
                self.concretize(st, e)? as u64
            }
        };
        if sz > lim {
            return self.huge_alloc(st);
        }
        if al == 0 || !al.is_power_of_two() || al > WIN {
            return Err(Stop::Viol("ub", format!("bad allocation alignment {al}")));
        }
        if sz == 0 {
            return Err(Stop::Viol("ub", "zero-sized allocation request".into()));
        }
        Ok(Val::C(st.mem.alloc(sz, al, Kind::Heap, zero) as u128))
    }
    fn huge_alloc(&mut self, st: &mut State) -> R<Val> {
        if let Some(v) = st.alloc_rule.clone() {
            self.vassert(st, &v, "an allocation was attempted for a request that must be rejected")?;
        }
        Err(Stop::Kill("allocation larger than the modelled memory"))
    }
    fn free(&mut self, st: &mut State, p: &Val, size: &Val, align: &Val) -> R<()> {
        let a = self.conc(st, p, 64, "pointer")? as u64;
        let sz = self.conc(st, size, 64, "size")? as u64;
        let al = self.conc(st, align, 64, "align")? as u64;
        match st.mem.slot(a >> 32) {
            Slot::Live(o) => {
                let base = self.base_of(a, o);
                if o.kind != Kind::Heap || a != base {
                    return Err(Stop::Viol("ub", format!("dealloc of a pointer that was not allocated ({a:#x})")));
                }
                if o.size != sz || o.align != al {
                    return Err(Stop::Viol("ub", format!("dealloc layout mismatch: allocated {}/{} freed as {sz}/{al}", o.size, o.align)));
                }
            }
            Slot::Freed => return Err(Stop::Viol("ub", "double free".into())),
            Slot::None => return Err(Stop::Viol("ub", format!("dealloc of invalid pointer {a:#x}"))),
        }
        st.mem.free(a >> 32);
        Ok(())
    }

    // ---------- assertions ----------
    fn model_inputs(&mut self, st: &State, m: &Model) -> Vec<(String, u32, u128)> {
        st.syms
            .iter()
            .map(|v| {
                let e = self.p.var_e[*v as usize];
                (self.p.var_names[*v as usize].clone(), self.p.var_w[*v as usize], self.p.eval(e, m))
            })
            .collect()
    }
    fn report(&mut self, st: &State, kind: &str, msg: &str, m: &Model) {
        let top = st
            .frames
            .iter()
            .rev()
            .map(|f| f.f.name.to_string())
            .find(|n| n.contains("matreex"))
            .unwrap_or_default();
        let key = format!("{kind}|{msg}|{top}");
        if !self.viol_keys.insert(key) {
            return;
        }
        let stack = st.frames.iter().rev().map(|f| f.f.name.to_string()).collect();
        let inputs = self.model_inputs(st, m);
        let mut msg = msg.to_string();
        if kind == "panic" {
            msg = format!("{msg} {}", st.panic_info);
        }
        self.viols.push(Violation { kind: kind.into(), msg, stack, inputs });
    }
    fn vassert(&mut self, st: &mut State, v: &Val, msg: &str) -> R<()> {
        let c = match v {
            Val::C(k) => {
                if *k & 1 == 1 {
                    self.asserts_trivial += 1;
                    return Ok(());
                }
                return Err(Stop::Viol("assert", msg.to_string()));
            }
            v => match self.te(v, 1) {
                Some(e) => e,
                None => return Err(Stop::Viol("ub", format!("assertion on uninitialised data: {msg}"))),
            },
        };
        if let Some(b) = st.facts.get(&c) {
            self.asserts_trivial += 1;
            return if *b { Ok(()) } else { Err(Stop::Viol("assert", msg.to_string())) };
        }
        self.asserts_solver += 1;
        let nc = self.p.not(c);
        // float terms: try a handful of concrete witnesses first
        if let Some(m) = self.fp_hint(st, nc) {
            let m2 = m.clone();
            self.report(st, "assert", msg, &m2);
            self.assume(st, c);
            return self.refresh_model(st);
        }
        match self.sat(st, nc) {
            Ok(None) => {
                st.facts.insert(c, true);
                st.facts.insert(nc, false);
                Ok(())
            }
            Ok(Some(m)) => {
                self.report(st, "assert", msg, &m);
                self.assume(st, c);
                self.refresh_model(st)
            }
            Err(Stop::Incomplete(s)) => {
                *self.incomplete.entry(format!("assertion undecided [{msg}]: {s}")).or_default() += 1;
                self.assume(st, c);
                self.refresh_model(st)
            }
            Err(e) => Err(e),
        }
    }
    /// make the state's model satisfy its path condition again (after an added assumption)
    fn refresh_model(&mut self, st: &mut State) -> R<()> {
        let m = st.model.clone();
        let bad: Vec<E> = st.pc.iter().cloned().filter(|e| self.p.eval(*e, &m) != 1).collect();
        if bad.is_empty() {
            return Ok(());
        }
        let sl = self.slice(st, &bad);
        match self.s.check(&mut self.p, &sl) {
            Ans::Sat(u) => {
                st.model = self.fresh_model(&st.model, &u);
                Ok(())
            }
            Ans::Unsat => Err(Stop::Kill("infeasible")),
            Ans::Unknown => Err(Stop::Incomplete("solver undecided while refreshing a model".into())),
        }
    }
    fn fp_hint(&mut self, st: &State, nc: E) -> Option<Rc<Model>> {
        let mut seen = HashSet::new();
        let order = self.p.post_order(&[nc], &mut |e| !seen.insert(e));
        if !order.iter().any(|e| self.p.has_fp(*e)) {
            return None;
        }
        let sl = self.slice(st, &[nc]);
        let vs: Vec<u32> = {
            let mut v: Vec<u32> = vec![];
            for e in &sl {
                v.extend(self.p.vars(*e).iter());
            }
            v.sort();
            v.dedup();
            v
        };
        let vals = [5.5f64, 2.25, -3.0, 7.0, 0.3, -0.0, 1e30, 1e-30, 13.0, 0.0, f64::INFINITY, 1.0];
        for round in 0..24usize {
            let mut upd = vec![];
            for (i, v) in vs.iter().enumerate() {
                let ve = self.p.var_e[*v as usize];
                if st.known.contains_key(&ve) {
                    continue;
                }
                let x = vals[(round * 5 + i * (1 + round / vals.len()) + round / 3) % vals.len()];
                let b = match self.p.var_w[*v as usize] {
                    32 => (x as f32).to_bits() as u128,
                    64 => x.to_bits() as u128,
                    _ => continue,
                };
                upd.push((*v, b));
            }
            let m = self.fresh_model(&st.model, &upd);
            if sl.iter().all(|e| self.p.eval(*e, &m) == 1) {
                return Some(m);
            }
        }
        None
    }

    // ---------- control ----------
    fn push_frame(&mut self, st: &mut State, fi: u32, args: Vec<Val>, ret_dst: Option<u32>, ret_to: Option<u32>) -> R<()> {
        let f = match self.m.func(fi) {
            Some(f) => f,
            None => return Err(Stop::Incomplete(format!("call to unmodelled function {}", self.m.fn_names[fi as usize]))),
        };
        if st.frames.len() > 4000 {
            return Err(Stop::Viol("hang", "call depth exceeds 4000".into()));
        }
        self.executed[fi as usize] = true;
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        st.frames.push(Frame { f, fi, regs, blk: 0, ip: 0, prev: 0, allocas: vec![], ret_dst, ret_to });
        self.max_depth = self.max_depth.max(st.frames.len());
        self.mark(fi, 0);
        Ok(())
    }
    #[inline]
    fn mark(&mut self, fi: u32, b: u32) {
        if let Some(v) = self.blocks.get_mut(&fi) {
            v[b as usize] = true;
            return;
        }
        let n = self.m.decoded[fi as usize].as_ref().map(|f| f.blocks.len()).unwrap_or(0);
        let mut v = vec![false; n];
        v[b as usize] = true;
        self.blocks.insert(fi, v);
    }
    fn pop_frame(&mut self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        for a in &f.allocas {
            st.mem.free(*a as u64);
        }
        f
    }
    fn jump(&mut self, st: &mut State, b: u32) {
        let (f, prev) = {
            let fr = st.frames.last_mut().unwrap();
            fr.prev = fr.blk;
            fr.blk = b;
            fr.ip = 0;
            (fr.f.clone(), fr.prev)
        };
        let fi = st.frames.last().unwrap().fi;
        self.mark(fi, b);
        let phis = &f.blocks[b as usize].phis;
        if phis.is_empty() {
            return;
        }
        let mut vals = Vec::with_capacity(phis.len());
        for (d, _, inc) in phis {
            let o = inc.iter().find(|(p, _)| *p == prev).map(|(_, o)| o.clone());
            let v = match o {
                Some(o) => self.opd(st, &o),
                None => Val::U,
            };
            vals.push((*d, v));
        }
        for (d, v) in vals {
            Self::set(st, d, v);
        }
    }
    fn unwind(&mut self, st: &mut State) -> R<()> {
        // the top frame is the one whose call raised; look for an invoke
        loop {
            if st.frames.is_empty() {
                return Err(Stop::Viol("panic", "uncaught panic".into()));
            }
            let lp = {
                let fr = st.frames.last().unwrap();
                match &fr.f.blocks[fr.blk as usize].ins[fr.ip as usize] {
                    Ins::Call(c) => c.invoke.map(|(_, u)| u),
                    _ => None,
                }
            };
            if let Some(u) = lp {
                self.jump(st, u);
                return Ok(());
            }
            if st.frames.len() == 1 {
                return Err(Stop::Viol("panic", "uncaught panic".into()));
            }
            self.pop_frame(st);
        }
    }
    fn panic_location(&mut self, st: &State, info: &Val) -> String {
        // best effort: find a (ptr,len) &str ending in .rs reachable from the PanicInfo
        let a = match info {
            Val::C(a) => *a as u64,
            _ => return String::new(),
        };
        for k in 0..4u64 {
            let p = match self.peek_u64(st, a + 8 * k) {
                Some(p) => p,
                None => continue,
            };
            for (po, lo, no) in [(0u64, 8u64, 16u64)] {
                let (sp, sl) = match (self.peek_u64(st, p + po), self.peek_u64(st, p + lo)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => continue,
                };
                if sl > 300 || sl < 3 {
                    continue;
                }
                if let Some(s) = self.peek_str(st, sp, sl) {
                    if s.contains(".rs") {
                        let line = self.peek_u64(st, p + no).unwrap_or(0) & 0xffff_ffff;
                        let s = s.trim_end_matches('\0').to_string();
                        return format!("at {s}:{line}");
                    }
                }
            }
        }
        String::new()
    }
    fn peek_u64(&mut self, st: &State, a: u64) -> Option<u64> {
        let o = self.obj(st, a).ok()?;
        let base = self.base_of(a, &o);
        if a < base || a + 8 > base + o.size {
            return None;
        }
        match self.read_scalar(st, a, 8) {
            Val::C(k) => Some(k as u64),
            _ => None,
        }
    }
    fn peek_str(&mut self, st: &State, a: u64, n: u64) -> Option<String> {
        let o = self.obj(st, a).ok()?;
        let base = self.base_of(a, &o);
        if a < base || a + n > base + o.size {
            return None;
        }
        let off = (a - base) as usize;
        if o.tag[off..off + n as usize].iter().any(|t| *t != 1) {
            return None;
        }
        String::from_utf8(o.data[off..off + n as usize].to_vec()).ok()
    }
    fn str_arg(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.conc(st, p, 64, "str")? as u64;
        let l = self.conc(st, n, 64, "str len")? as u64;
        if l == 0 {
            return Ok(String::new());
        }
        Ok(self.peek_str(st, a, l).unwrap_or_else(|| "?".into()))
    }

    pub fn initial(&mut self, entry: &str) -> Option<State> {
        let fi = *self.m.fn_idx.get(entry)?;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(self.ginit.len()),
            pc: vec![],
            facts: HashMap::default(),
            known: HashMap::default(),
            model: Rc::new(Model { id: 0, v: vec![] }),
            syms: vec![],
            obs: vec![],
            steps: 0,
            tid: 0,
            acc: Rc::new(HashMap::new()),
            alloc_rule: None,
            panic_info: "".into(),
            covers: Rc::new(HashSet::new()),
            enumerated: 0,
        };
        // vtable of the dummy panic payload: drop=null, size=0, align=1, type_id=null
        let vt = st.mem.alloc(32, 8, Kind::Global, true);
        if let Some(Slot::Live(o)) = st.mem.slot_mut(vt >> 32) {
            Rc::make_mut(o).data[16] = 1;
        }
        self.any_vtable = vt;
        self.push_frame(&mut st, fi, vec![], None, None).ok()?;
        Some(st)
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        self.start = Instant::now();
        self.s.deadline = Some(self.start + self.o.max_time);
        let st = self.initial(entry).ok_or_else(|| format!("no function {entry}"))?;
        self.work.push(st);
        self.drain();
        Ok(())
    }
    pub fn drain(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.viols.len() >= self.o.max_viol {
                *self.incomplete.entry("stopped after the violation limit".into()).or_default() += 1;
                break;
            }
            if self.start.elapsed() > self.o.max_time {
                *self.incomplete.entry("time limit".into()).or_default() += 1;
                break;
            }
            if self.paths >= self.o.max_paths {
                *self.incomplete.entry("path limit".into()).or_default() += 1;
                break;
            }
            let s0 = st.steps;
            let f0 = self.forks;
            let mut parked = false;
            let r = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
                // a path that keeps forking (a loop over an unbounded extent) must not starve the others
                if self.forks - f0 > 200 && !self.work.is_empty() {
                    parked = true;
                    break Stop::End;
                }
                if st.steps & 0xffff == 0 && self.start.elapsed() > self.o.max_time {
                    break Stop::Incomplete("time limit".into());
                }
                if st.steps > self.o.max_steps && self.o.long_ok {
                    break Stop::Incomplete("step limit".into());
                }
                if st.steps > self.o.max_steps {
                    break Stop::Viol("hang", format!("more than {} instructions executed", self.o.max_steps));
                }
            };
            self.total_steps += st.steps - s0;
            if parked {
                self.work.insert(0, st);
                continue;
            }
            self.paths += 1;
            if self.o.verbose && self.paths % 1000 == 0 {
                eprintln!("paths {} pending {} steps {} queries {} t {:?}", self.paths, self.work.len(), self.total_steps, self.s.q_sat + self.s.q_unsat, self.start.elapsed());
            }
            match r {
                Stop::End => {
                    self.end_steps_max = self.end_steps_max.max(st.steps);
                    for c in st.covers.iter() {
                        *self.covers.entry(c.to_string()).or_default() += 1;
                    }
                    let n = self.paths;
                    let take = self.samples.len() < self.o.samples / 2 || (self.samples.len() < self.o.samples && (n & (n - 1) == 0 || n % 97 == 0));
                    if take {
                        let m = st.model.clone();
                        let inputs = self.model_inputs(&st, &m);
                        let obs = st
                            .obs
                            .clone()
                            .iter()
                            .map(|v| match v {
                                Val::C(k) => *k,
                                Val::E(e) => self.p.eval(*e, &m),
                                _ => 0,
                            })
                            .collect();
                        self.samples.push(Sample { inputs, obs });
                    }
                }
                Stop::Kill(s) => *self.killed.entry(s.to_string()).or_default() += 1,
                Stop::Incomplete(s) => {
                    let mut s = s;
                    if self.o.verbose {
                        s = format!("{s} in {:?}", st.frames.iter().rev().take(6).map(|f| f.f.name.to_string()).collect::<Vec<_>>());
                    }
                    *self.incomplete.entry(s).or_default() += 1
                }
                Stop::Viol(k, msg) => {
                    let m = st.model.clone();
                    self.report(&st, k, &msg, &m);
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let (func, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk as usize, fr.ip as usize)
        };
        let ins = &func.blocks[blk].ins[ip];
        match ins {
            Ins::Alloca { dst, size, align, count } => {
                let n = match self.opd(st, count) {
                    Val::C(k) => k as u64,
                    _ => return Err(Stop::Incomplete("symbolic alloca".into())),
                };
                let a = st.mem.alloc(size * n, (*align).max(1), Kind::Stack, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*dst as usize] = Val::C(a as u128);
            }
            Ins::Load { dst, ty, ptr, align } => {
                let p = self.opd(st, ptr);
                let a = self.resolve(st, &p, ty.store_size(), *align, false)?;
                let v = self.load(st, ty, a);
                Self::set(st, *dst, v);
            }
            Ins::Store { ty, val, ptr, align } => {
                let p = self.opd(st, ptr);
                let a = self.resolve(st, &p, ty.store_size(), *align, true)?;
                let v = self.opd(st, val);
                self.store(st, ty, &v, a)?;
            }
            Ins::Gep { dst, base, off, idx, inbounds } => {
                let b = self.opd(st, base);
                let v = self.gep(st, &b, *off, idx, *inbounds)?;
                Self::set(st, *dst, v);
            }
            Ins::Bin { dst, op, ty, a, b, nuw, nsw, exact } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let v = self.bin(st, *op, ty, &x, &y, *nuw, *nsw, *exact)?;
                Self::set(st, *dst, v);
            }
            Ins::FNeg { dst, ty, a } => {
                let x = self.opd(st, a);
                let w = ty.bits();
                let s = 1u128 << (w - 1);
                let v = match x {
                    Val::C(k) => Val::C(k ^ s),
                    Val::E(e) => {
                        let k = self.p.k(s, w);
                        let r = self.p.xor(e, k);
                        self.val(r)
                    }
                    _ => Val::U,
                };
                Self::set(st, *dst, v);
            }
            Ins::Icmp { dst, pred, ty, a, b } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let v = self.icmp(*pred, ty, &x, &y);
                Self::set(st, *dst, v);
            }
            Ins::Fcmp { dst, pred, ty, a, b } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let w = ty.bits();
                let v = match (self.te(&x, w), self.te(&y, w)) {
                    (Some(x), Some(y)) => {
                        let r = self.p.fcmp(*pred, x, y);
                        self.val(r)
                    }
                    _ => Val::U,
                };
                Self::set(st, *dst, v);
            }
            Ins::Select { dst, cty, c, ty, a, b } => {
                let cv = self.opd(st, c);
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let v = if let Ty::Vec(..) = cty {
                    match (&cv, &x, &y) {
                        (Val::A(c), Val::A(x), Val::A(y)) => {
                            let et = match ty {
                                Ty::Vec(t, _) => (**t).clone(),
                                _ => Ty::Int(8),
                            };
                            let mut o = vec![];
                            for i in 0..c.len() {
                                o.push(self.select(st, &c[i], &et, &x[i], &y[i])?);
                            }
                            Val::A(Rc::new(o))
                        }
                        _ => Val::U,
                    }
                } else {
                    self.select(st, &cv, ty, &x, &y)?
                };
                Self::set(st, *dst, v);
            }
            Ins::Cast { dst, op, from, a, to } => {
                let x = self.opd(st, a);
                let v = self.cast(*op, from, &x, to)?;
                Self::set(st, *dst, v);
            }
            Ins::Freeze { dst, ty, a } => {
                let x = self.opd(st, a);
                let v = match x {
                    Val::U => self.zero_of(ty),
                    v => v,
                };
                Self::set(st, *dst, v);
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::ExtractV { dst, a, idx, .. } => {
                let mut v = self.opd(st, a);
                for i in idx {
                    v = match &v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                if let Val::E(e) = &v {
                    if let Some(k) = st.known.get(e) {
                        v = Val::C(*k);
                    }
                }
                Self::set(st, *dst, v);
            }
            Ins::InsertV { dst, ty, a, v, idx, .. } => {
                let mut x = self.opd(st, a);
                let nv = self.opd(st, v);
                if !matches!(x, Val::A(_)) {
                    x = self.undef_of(ty);
                }
                insert_v(&mut x, idx, nv);
                Self::set(st, *dst, x);
            }
            Ins::ExtractE { dst, a, i, .. } => {
                let x = self.opd(st, a);
                let i = self.opd(st, i);
                let i = self.conc(st, &i, 64, "lane")? as usize;
                let v = match &x {
                    Val::A(l) => l.get(i).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                Self::set(st, *dst, v);
            }
            Ins::InsertE { dst, ty, a, v, i } => {
                let mut x = self.opd(st, a);
                let nv = self.opd(st, v);
                let i = self.opd(st, i);
                let i = self.conc(st, &i, 64, "lane")? as u32;
                if !matches!(x, Val::A(_)) {
                    x = self.undef_of(ty);
                }
                insert_v(&mut x, &[i], nv);
                Self::set(st, *dst, x);
            }
            Ins::Shuffle { dst, ty, a, b, mask } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let n = match ty {
                    Ty::Vec(_, n) => *n as i64,
                    _ => 0,
                };
                let lane = |v: &Val, i: usize| match v {
                    Val::A(l) => l[i].clone(),
                    _ => Val::U,
                };
                let o = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            Val::U
                        } else if *m < n {
                            lane(&x, *m as usize)
                        } else {
                            lane(&y, (*m - n) as usize)
                        }
                    })
                    .collect();
                Self::set(st, *dst, Val::A(Rc::new(o)));
            }
            Ins::LandingPad { dst } => {
                Self::set(st, *dst, Val::A(Rc::new(vec![Val::C(0x1000), Val::C(1)])));
            }
            Ins::Resume(_) => {
                if st.frames.len() == 1 {
                    return Err(Stop::Viol("panic", "uncaught panic".into()));
                }
                self.pop_frame(st);
                return self.unwind(st);
            }
            Ins::Ret(v) => {
                let rv = match v {
                    Some((_, o)) => Some(self.opd(st, o)),
                    None => None,
                };
                if st.frames.len() == 1 {
                    return Err(Stop::End);
                }
                let f = self.pop_frame(st);
                if let (Some(d), Some(v)) = (f.ret_dst, rv) {
                    Self::set(st, d, v);
                }
                match f.ret_to {
                    Some(b) => self.jump(st, b),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(());
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let v = self.opd(st, c);
                let t = self.truth(st, &v, "a branch condition")?;
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch { w, v, def, cases } => {
                let x = self.opd(st, v);
                let t = match &x {
                    Val::C(k) => cases.iter().find(|(c, _)| c == k).map(|(_, b)| *b).unwrap_or(*def),
                    _ => {
                        let e = match self.te(&x, *w) {
                            Some(e) => e,
                            None => return Err(Stop::Viol("ub", "uninitialised value used as a switch operand".into())),
                        };
                        let mut t = *def;
                        for (c, b) in cases {
                            let k = self.p.k(*c, *w);
                            let q = self.p.eq(e, k);
                            if self.decide(st, q)? {
                                t = *b;
                                break;
                            }
                        }
                        t
                    }
                };
                self.jump(st, t);
                return Ok(());
            }
            Ins::Unreachable => return Err(Stop::Viol("ub", "unreachable code reached".into())),
            Ins::AtomicRmw { dst, op, ty, ptr, v } => {
                let p = self.opd(st, ptr);
                let a = self.resolve(st, &p, ty.store_size(), ty.align(), true)?;
                let old = self.load(st, ty, a);
                let x = self.opd(st, v);
                let nv = match &**op {
                    "xchg" => x,
                    "add" => self.bin(st, Bin::Add, ty, &old, &x, false, false, false)?,
                    "sub" => self.bin(st, Bin::Sub, ty, &old, &x, false, false, false)?,
                    "and" => self.bin(st, Bin::And, ty, &old, &x, false, false, false)?,
                    "or" => self.bin(st, Bin::Or, ty, &old, &x, false, false, false)?,
                    "xor" => self.bin(st, Bin::Xor, ty, &old, &x, false, false, false)?,
                    "umax" | "umin" => {
                        let c = self.icmp(if &**op == "umax" { Pred::Ugt } else { Pred::Ult }, ty, &old, &x);
                        self.select(st, &c, ty, &old, &x)?
                    }
                    o => return Err(Stop::Incomplete(format!("atomicrmw {o}"))),
                };
                self.store(st, ty, &nv, a)?;
                Self::set(st, *dst, old);
            }
            Ins::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.opd(st, ptr);
                let a = self.resolve(st, &p, ty.store_size(), ty.align(), true)?;
                let old = self.load(st, ty, a);
                let c = self.opd(st, cmp);
                let n = self.opd(st, new);
                let eqv = self.icmp(Pred::Eq, ty, &old, &c);
                let t = self.truth(st, &eqv, "cmpxchg")?;
                if t {
                    self.store(st, ty, &n, a)?;
                }
                Self::set(st, *dst, Val::A(Rc::new(vec![old, Val::C(t as u128)])));
            }
            Ins::Fence => {}
            Ins::VaArg => return Err(Stop::Incomplete("va_arg".into())),
            Ins::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported instruction {s}"))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn gep(&mut self, st: &mut State, b: &Val, off: i64, idx: &[(Opd, i64, u32)], inb: bool) -> R<Val> {
        let mut conc: i64 = off;
        let mut sym: Option<E> = None;
        for (o, scale, w) in idx {
            let v = self.opd(st, o);
            match v {
                Val::C(k) => conc = conc.wrapping_add((sext(k, *w) as i64).wrapping_mul(*scale)),
                v => {
                    if *scale == 0 {
                        continue;
                    }
                    let e = match self.te(&v, *w) {
                        Some(e) => e,
                        None => return Ok(Val::U),
                    };
                    let e = if *w < 64 { self.p.sext(e, 64) } else { e };
                    let k = self.p.k(*scale as u64 as u128, 64);
                    let m = self.p.mul(e, k);
                    sym = Some(match sym {
                        None => m,
                        Some(s) => self.p.add(s, m),
                    });
                }
            }
        }
        match (b, sym) {
            (Val::C(a), None) => {
                let a = *a as u64;
                if conc == 0 {
                    return Ok(Val::C(a as u128));
                }
                let na = a.wrapping_add(conc as u64);
                if inb {
                    self.inbounds(st, a, na)?;
                }
                Ok(Val::C(na as u128))
            }
            (b, sym) => {
                let be = match self.te(b, 64) {
                    Some(e) => e,
                    None => return Ok(Val::U),
                };
                let k = self.p.k(conc as u64 as u128, 64);
                let mut o = k;
                if let Some(s) = sym {
                    o = self.p.add(s, k);
                }
                let e = self.p.add(be, o);
                if inb {
                    if let Val::C(a) = b {
                        let a = *a as u64;
                        match self.obj(st, a) {
                            Ok(ob) => {
                                let base = self.base_of(a, &ob);
                                let bk = self.p.k(base as u128, 64);
                                let d = self.p.sub(e, bk);
                                let sz = self.p.k(ob.size as u128, 64);
                                let c = self.p.ule(d, sz);
                                if !self.decide(st, c)? {
                                    return Err(Stop::Viol("ub", "pointer arithmetic leaves the bounds of the allocation".into()));
                                }
                            }
                            Err(_) => {
                                let z = self.p.k(0, 64);
                                let c = self.p.eq(o, z);
                                if !self.decide(st, c)? {
                                    return Err(Stop::Viol("ub", "in-bounds pointer arithmetic with a non-zero offset on a dangling pointer".into()));
                                }
                                return Ok(Val::C(a as u128));
                            }
                        }
                    }
                }
                Ok(self.val(e))
            }
        }
    }
    fn inbounds(&mut self, st: &State, a: u64, na: u64) -> R<()> {
        let i = a >> 32;
        if i >= FN_BASE && i < FN_BASE + self.m.fn_names.len() as u64 {
            return Ok(());
        }
        let freed = i < GLOBAL_BASE && matches!(st.mem.slot(i), Slot::Freed);
        if freed {
            return Ok(());
        }
        match self.obj(st, a) {
            Ok(o) => {
                let base = self.base_of(a, &o);
                if na < base || na > base + o.size {
                    return Err(Stop::Viol("ub", format!("pointer arithmetic leaves the bounds of the allocation (offset {} of {} bytes)", na.wrapping_sub(base) as i64, o.size)));
                }
                Ok(())
            }
            Err(_) => Err(Stop::Viol("ub", format!("in-bounds pointer arithmetic with a non-zero offset on a dangling pointer {a:#x}"))),
        }
    }

    fn select(&mut self, st: &mut State, c: &Val, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { x.clone() } else { y.clone() }),
            Val::E(ce) => {
                let ce = *ce;
                if let Some(b) = st.facts.get(&ce) {
                    return Ok(if *b { x.clone() } else { y.clone() });
                }
                if let (Val::C(a), Val::C(b)) = (x, y) {
                    if a == b {
                        return Ok(x.clone());
                    }
                }
                if *ty != Ty::Ptr && matches!(ty, Ty::Int(_) | Ty::F32 | Ty::F64) {
                    let w = ty.bits();
                    if let (Some(a), Some(b)) = (self.te(x, w), self.te(y, w)) {
                        let r = self.p.ite(ce, a, b);
                        return Ok(self.val(r));
                    }
                }
                let t = self.decide(st, ce)?;
                Ok(if t { x.clone() } else { y.clone() })
            }
            _ => Err(Stop::Viol("ub", "uninitialised value used as a select condition".into())),
        }
    }

    fn bin(&mut self, st: &mut State, op: Bin, ty: &Ty, x: &Val, y: &Val, nuw: bool, nsw: bool, exact: bool) -> R<Val> {
        if let Ty::Vec(et, n) = ty {
            let (xl, yl) = match (x, y) {
                (Val::A(a), Val::A(b)) => (a.clone(), b.clone()),
                _ => return Ok(Val::U),
            };
            let mut o = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                o.push(self.bin(st, op, et, &xl[i], &yl[i], nuw, nsw, exact)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                Bin::Add => {
                    let r = mask(a.wrapping_add(b), w);
                    if nuw && r < a {
                        return Err(Stop::Viol("ub", "unchecked addition overflows".into()));
                    }
                    if nsw && (sext(a, w) < 0) == (sext(b, w) < 0) && (sext(r, w) < 0) != (sext(a, w) < 0) {
                        return Err(Stop::Viol("ub", "unchecked signed addition overflows".into()));
                    }
                    r
                }
                Bin::Sub => {
                    if nuw && a < b {
                        return Err(Stop::Viol("ub", "unchecked subtraction overflows".into()));
                    }
                    let r = mask(a.wrapping_sub(b), w);
                    if nsw && (sext(a, w) < 0) != (sext(b, w) < 0) && (sext(r, w) < 0) != (sext(a, w) < 0) {
                        return Err(Stop::Viol("ub", "unchecked signed subtraction overflows".into()));
                    }
                    r
                }
                Bin::Mul => {
                    if nuw {
                        let ok = a.checked_mul(b).map(|r| r <= ones(w)).unwrap_or(false);
                        if !ok {
                            return Err(Stop::Viol("ub", "unchecked multiplication overflows".into()));
                        }
                    }
                    if nsw && w <= 64 {
                        let r = sext(a, w) * sext(b, w);
                        if r != sext(mask(r as u128, w), w) {
                            return Err(Stop::Viol("ub", "unchecked signed multiplication overflows".into()));
                        }
                    }
                    mask(a.wrapping_mul(b), w)
                }
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if b == 0 {
                        return Err(Stop::Viol("ub", "division by zero".into()));
                    }
                    match op {
                        Bin::UDiv => {
                            if exact && a % b != 0 {
                                return Err(Stop::Viol("ub", "inexact exact division".into()));
                            }
                            a / b
                        }
                        Bin::URem => a % b,
                        Bin::SDiv => mask(sext(a, w).wrapping_div(sext(b, w)) as u128, w),
                        _ => mask(sext(a, w).wrapping_rem(sext(b, w)) as u128, w),
                    }
                }
                Bin::Shl | Bin::LShr | Bin::AShr => {
                    if b >= w as u128 {
                        return Ok(Val::U);
                    }
                    match op {
                        Bin::Shl => mask(a << b, w),
                        Bin::LShr => a >> b,
                        _ => mask((sext(a, w) >> b) as u128, w),
                    }
                }
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                Bin::FAdd => fbin(Op::FAdd, w, a, b),
                Bin::FSub => fbin(Op::FSub, w, a, b),
                Bin::FMul => fbin(Op::FMul, w, a, b),
                Bin::FDiv => fbin(Op::FDiv, w, a, b),
                Bin::FRem => fbin(Op::FRem, w, a, b),
            };
            return Ok(Val::C(r));
        }
        // mixed bytes
        let part = |v: &Val| matches!(v, Val::B(_) | Val::U);
        if w % 8 == 0 && (part(x) || part(y)) {
            if let Some(v) = self.bin_bytes(op, w, x, y) {
                return Ok(v);
            }
        }
        let (a, b) = match (self.te(x, w), self.te(y, w)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(Val::U),
        };
        let r = match op {
            Bin::Add => {
                let r = self.p.add(a, b);
                if nuw {
                    let c = self.p.ult(r, a);
                    if self.decide(st, c)? {
                        return Err(Stop::Viol("ub", "unchecked addition overflows".into()));
                    }
                }
                if nsw {
                    let o = self.sovf(op, w, a, b, r);
                    if self.decide(st, o)? {
                        return Err(Stop::Viol("ub", "unchecked signed addition overflows".into()));
                    }
                }
                r
            }
            Bin::Sub => {
                if nuw {
                    let c = self.p.ult(a, b);
                    if self.decide(st, c)? {
                        return Err(Stop::Viol("ub", "unchecked subtraction overflows".into()));
                    }
                }
                let r = self.p.sub(a, b);
                if nsw {
                    let o = self.sovf(op, w, a, b, r);
                    if self.decide(st, o)? {
                        return Err(Stop::Viol("ub", "unchecked signed subtraction overflows".into()));
                    }
                }
                r
            }
            Bin::Mul => {
                if nuw {
                    let (_, o) = self.umulo(a, b, w);
                    if self.decide(st, o)? {
                        return Err(Stop::Viol("ub", "unchecked multiplication overflows".into()));
                    }
                }
                if nsw {
                    let (_, o) = self.smulo(a, b, w)?;
                    if self.decide(st, o)? {
                        return Err(Stop::Viol("ub", "unchecked signed multiplication overflows".into()));
                    }
                }
                self.p.mul(a, b)
            }
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                let z = self.p.k(0, w);
                let c = self.p.eq(b, z);
                if self.decide(st, c)? {
                    return Err(Stop::Viol("ub", "division by zero".into()));
                }
                match op {
                    Bin::UDiv => {
                        let r = self.p.udiv(a, b);
                        if exact {
                            let m = self.p.urem(a, b);
                            let c = self.p.eq(m, z);
                            if !self.decide(st, c)? {
                                return Err(Stop::Viol("ub", "inexact exact division".into()));
                            }
                        }
                        r
                    }
                    Bin::URem => self.p.urem(a, b),
                    Bin::SDiv => self.p.sdiv(a, b),
                    _ => self.p.srem(a, b),
                }
            }
            Bin::Shl => self.p.shl(a, b),
            Bin::LShr => self.p.lshr(a, b),
            Bin::AShr => self.p.ashr(a, b),
            Bin::And => self.p.and(a, b),
            Bin::Or => self.p.or(a, b),
            Bin::Xor => self.p.xor(a, b),
            Bin::FAdd => self.p.fbin(Op::FAdd, a, b),
            Bin::FSub => self.p.fbin(Op::FSub, a, b),
            Bin::FMul => self.p.fbin(Op::FMul, a, b),
            Bin::FDiv => self.p.fbin(Op::FDiv, a, b),
            Bin::FRem => self.p.fbin(Op::FRem, a, b),
        };
        Ok(self.val(r))
    }
    fn bin_bytes(&mut self, op: Bin, w: u32, x: &Val, y: &Val) -> Option<Val> {
        let n = (w / 8) as usize;
        let bytes = |p: &Val| -> Option<Vec<Byte>> {
            match p {
                Val::B(b) => Some(b.to_vec()),
                Val::C(k) => Some((0..n).map(|i| Byte::C((k >> (8 * i)) as u8)).collect()),
                Val::E(e) => Some((0..n).map(|i| Byte::S(*e, i as u8)).collect()),
                Val::U => Some(vec![Byte::U; n]),
                _ => None,
            }
        };
        let xb = bytes(x)?;
        let r: Vec<Byte> = match op {
            Bin::LShr | Bin::Shl => {
                let s = match y {
                    Val::C(k) if k % 8 == 0 => (*k / 8) as usize,
                    _ => return None,
                };
                (0..n)
                    .map(|i| {
                        if op == Bin::LShr {
                            xb.get(i + s).cloned().unwrap_or(Byte::C(0))
                        } else if i >= s {
                            xb[i - s]
                        } else {
                            Byte::C(0)
                        }
                    })
                    .collect()
            }
            Bin::Or => {
                let yb = bytes(y)?;
                let mut o = vec![];
                for i in 0..n {
                    o.push(match (xb[i], yb[i]) {
                        (Byte::C(0), b) | (b, Byte::C(0)) => b,
                        (Byte::C(a), Byte::C(b)) => Byte::C(a | b),
                        (Byte::U, _) | (_, Byte::U) => Byte::U,
                        _ => return None,
                    });
                }
                o
            }
            Bin::And => {
                let yb = bytes(y)?;
                let mut o = vec![];
                for i in 0..n {
                    o.push(match (xb[i], yb[i]) {
                        (_, Byte::C(0)) | (Byte::C(0), _) => Byte::C(0),
                        (Byte::C(0xff), b) | (b, Byte::C(0xff)) => b,
                        (Byte::U, _) | (_, Byte::U) => Byte::U,
                        _ => return None,
                    });
                }
                o
            }
            _ => return None,
        };
        Some(self.norm_bytes(r))
    }
    fn norm_bytes(&mut self, r: Vec<Byte>) -> Val {
        if r.iter().all(|b| *b == Byte::U) {
            return Val::U;
        }
        if r.iter().any(|b| *b == Byte::U) {
            return Val::B(Rc::new(r));
        }
        let e = self.bytes_to_e(&r);
        self.val(e)
    }
    fn sovf(&mut self, op: Bin, w: u32, a: E, b: E, r: E) -> E {
        let z = self.p.k(0, w);
        let (sa, sb, sr) = (self.p.slt(a, z), self.p.slt(b, z), self.p.slt(r, z));
        let same = self.p.eq(sa, sb);
        let pre = if op == Bin::Add { same } else { self.p.not(same) };
        let diff = self.p.ne(sa, sr);
        self.p.and(pre, diff)
    }
    fn umulo(&mut self, a: E, b: E, w: u32) -> (E, E) {
        let r = self.p.mul(a, b);
        if self.p.hi(a).checked_mul(self.p.hi(b)).map(|h| h <= ones(w)).unwrap_or(false) {
            let f = self.p.ff();
            return (r, f);
        }
        // constant operand: a * k overflows iff a > MAX / k
        for (x, k) in [(a, b), (b, a)] {
            if let Some(k) = self.p.as_k(k) {
                if k == 0 {
                    let f = self.p.ff();
                    return (r, f);
                }
                let lim = self.p.k(ones(w) / k, w);
                let o = self.p.ult(lim, x);
                return (r, o);
            }
        }
        if w <= 64 {
            let za = self.p.zext(a, 2 * w);
            let zb = self.p.zext(b, 2 * w);
            let m = self.p.mul(za, zb);
            let h = self.p.extract(m, w, w);
            let z = self.p.k(0, w);
            let o = self.p.ne(h, z);
            (r, o)
        } else {
            // a*b overflows iff b != 0 and a > MAX / b
            let mx = self.p.k(ones(w), w);
            let q = self.p.udiv(mx, b);
            let z = self.p.k(0, w);
            let nz = self.p.ne(b, z);
            let gt = self.p.ult(q, a);
            let o = self.p.and(nz, gt);
            (r, o)
        }
    }
    fn smulo(&mut self, a: E, b: E, w: u32) -> R<(E, E)> {
        if w > 64 {
            // sign-extended 64-bit operands never overflow 128 bits
            let fits = |p: &Pool, e: E| {
                let n = p.n[e as usize];
                (n.op == Op::SExt && p.w(n.a) <= 64) || p.hi(e) < (1u128 << 63) || matches!(p.as_k(e), Some(k) if (sext(k, 128) as i64) as i128 == sext(k, 128))
            };
            if fits(&self.p, a) && fits(&self.p, b) {
                let r = self.p.mul(a, b);
                let f = self.p.ff();
                return Ok((r, f));
            }
            // on magnitudes: |a|*|b| overflows unsigned, or exceeds the limit of the result's sign
            let z = self.p.k(0, w);
            let (sa, sb) = (self.p.slt(a, z), self.p.slt(b, z));
            let (na, nb) = (self.p.sub(z, a), self.p.sub(z, b));
            let (ma, mb) = (self.p.ite(sa, na, a), self.p.ite(sb, nb, b));
            let (m, ov) = self.umulo(ma, mb, w);
            let neg = self.p.ne(sa, sb);
            let (ln, lp) = (self.p.k(1u128 << 127, w), self.p.k((1u128 << 127) - 1, w));
            let lim = self.p.ite(neg, ln, lp);
            let big = self.p.ult(lim, m);
            let o = self.p.or(ov, big);
            let r = self.p.mul(a, b);
            return Ok((r, o));
        }
        let sa = self.p.sext(a, 2 * w);
        let sb = self.p.sext(b, 2 * w);
        let m = self.p.mul(sa, sb);
        let r = self.p.extract(m, 0, w);
        let s = self.p.sext(r, 2 * w);
        let o = self.p.ne(s, m);
        Ok((r, o))
    }
    fn icmp(&mut self, pred: Pred, ty: &Ty, x: &Val, y: &Val) -> Val {
        if let Ty::Vec(et, n) = ty {
            if let (Val::A(a), Val::A(b)) = (x, y) {
                let (a, b) = (a.clone(), b.clone());
                let o = (0..*n as usize).map(|i| self.icmp(pred, et, &a[i], &b[i])).collect();
                return Val::A(Rc::new(o));
            }
            return Val::U;
        }
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext(a, w), sext(b, w));
            return Val::C(match pred {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            } as u128);
        }
        let (a, b) = match (self.te(x, w), self.te(y, w)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Val::U,
        };
        let r = match pred {
            Pred::Eq => self.p.eq(a, b),
            Pred::Ne => self.p.ne(a, b),
            Pred::Ult => self.p.ult(a, b),
            Pred::Ule => self.p.ule(a, b),
            Pred::Ugt => self.p.ult(b, a),
            Pred::Uge => self.p.ule(b, a),
            Pred::Slt => self.p.slt(a, b),
            Pred::Sle => self.p.sle(a, b),
            Pred::Sgt => self.p.slt(b, a),
            Pred::Sge => self.p.sle(b, a),
        };
        self.val(r)
    }
    fn cast(&mut self, op: CastOp, from: &Ty, x: &Val, to: &Ty) -> R<Val> {
        // vectors
        match (from, to) {
            (Ty::Vec(ft, n), Ty::Vec(tt, m)) if op != CastOp::Bit || n == m => {
                if let Val::A(l) = x {
                    let l = l.clone();
                    let mut o = vec![];
                    for v in l.iter() {
                        o.push(self.cast(op, ft, v, tt)?);
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
                return Ok(Val::U);
            }
            (Ty::Vec(ft, n), _) => {
                let lw = ft.bits();
                if let Val::A(l) = x {
                    let l = l.clone();
                    let mut acc: Option<E> = None;
                    for i in (0..*n as usize).rev() {
                        let e = match self.te(&l[i], lw) {
                            Some(e) => e,
                            None => return Ok(Val::U),
                        };
                        acc = Some(match acc {
                            None => e,
                            Some(h) => self.p.concat(h, e),
                        });
                    }
                    let e = acc.unwrap();
                    return Ok(self.val(e));
                }
                return Ok(Val::U);
            }
            (_, Ty::Vec(tt, n)) => {
                let lw = tt.bits();
                let fw = from.bits();
                let e = match self.te(x, fw) {
                    Some(e) => e,
                    None => return Ok(self.undef_of(to)),
                };
                let mut o = vec![];
                for i in 0..*n as u32 {
                    let p = self.p.extract(e, i * lw, lw);
                    o.push(self.val(p));
                }
                return Ok(Val::A(Rc::new(o)));
            }
            _ => {}
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(k) = x {
            let k = *k;
            return Ok(Val::C(match op {
                CastOp::ZExt | CastOp::Bit => k,
                CastOp::SExt => mask(sext(k, fw) as u128, tw),
                CastOp::Trunc => mask(k, tw),
                CastOp::FpToUi => fcast(Op::FpToUi, fw, k, tw),
                CastOp::FpToSi => fcast(Op::FpToSi, fw, k, tw),
                CastOp::UiToFp => fcast(Op::UiToFp, fw, k, tw),
                CastOp::SiToFp => fcast(Op::SiToFp, fw, k, tw),
                CastOp::FpExt => fcast(Op::FpExt, fw, k, tw),
                CastOp::FpTrunc => fcast(Op::FpTrunc, fw, k, tw),
            }));
        }
        if let Val::B(b) = x {
            match op {
                CastOp::Bit => return Ok(x.clone()),
                CastOp::Trunc => {
                    let nb = ((tw + 7) / 8) as usize;
                    let bs: Vec<Byte> = b[..nb].to_vec();
                    let v = self.norm_bytes(bs);
                    return Ok(self.fit(v, &Ty::Int(tw)));
                }
                CastOp::ZExt => {
                    let mut bs = b.to_vec();
                    bs.resize((tw / 8) as usize, Byte::C(0));
                    return Ok(self.norm_bytes(bs));
                }
                _ => return Ok(Val::U),
            }
        }
        let e = match x {
            Val::E(e) => *e,
            Val::U if op == CastOp::ZExt && fw % 8 == 0 && tw % 8 == 0 => {
                let mut bs = vec![Byte::U; (fw / 8) as usize];
                bs.resize((tw / 8) as usize, Byte::C(0));
                return Ok(Val::B(Rc::new(bs)));
            }
            _ => return Ok(Val::U),
        };
        let r = match op {
            CastOp::ZExt => self.p.zext(e, tw),
            CastOp::SExt => self.p.sext(e, tw),
            CastOp::Trunc => self.p.extract(e, 0, tw),
            CastOp::Bit => e,
            CastOp::FpToUi => self.p.fcast(Op::FpToUi, e, tw),
            CastOp::FpToSi => self.p.fcast(Op::FpToSi, e, tw),
            CastOp::UiToFp => self.p.fcast(Op::UiToFp, e, tw),
            CastOp::SiToFp => self.p.fcast(Op::SiToFp, e, tw),
            CastOp::FpExt => self.p.fcast(Op::FpExt, e, tw),
            CastOp::FpTrunc => self.p.fcast(Op::FpTrunc, e, tw),
        };
        Ok(self.val(r))
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let fi = match &c.callee {
            Callee::Name(n) => {
                let t = c.target.get();
                if t != 0 {
                    t - 1
                } else {
                    let mut nm: &str = n;
                    if let Some(a) = self.m.aliases.get(nm) {
                        nm = a;
                    }
                    match self.m.fn_idx.get(nm) {
                        Some(f) => {
                            c.target.set(*f + 1);
                            *f
                        }
                        None => {
                            if nm == "$asm" {
                                // empty inline asm (black_box)
                                if let Some((b, _)) = c.invoke {
                                    self.jump(st, b);
                                } else {
                                    st.frames.last_mut().unwrap().ip += 1;
                                }
                                return Ok(());
                            }
                            return Err(Stop::Incomplete(format!("unknown callee {nm}")));
                        }
                    }
                }
            }
            Callee::Ind(o) => {
                let v = self.opd(st, o);
                let a = self.conc(st, &v, 64, "function pointer")? as u64;
                let i = (a >> 32).wrapping_sub(FN_BASE);
                if i >= self.m.fn_names.len() as u64 || a & 0xffff_ffff != WIN {
                    return Err(Stop::Viol("ub", format!("call through invalid function pointer {a:#x}")));
                }
                i as u32
            }
        };
        let mut args = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            args.push(self.opd(st, o));
        }
        match self.kinds[fi as usize] {
            FK::Normal => {
                let to = c.invoke.map(|(n, _)| n);
                self.push_frame(st, fi, args, c.dst, to)
            }
            FK::Missing => Err(Stop::Incomplete(format!("call to unmodelled function {}", self.m.fn_names[fi as usize]))),
            FK::I(i) => {
                if i == I::BeginUnwind || i == I::ResumeUnwind {
                    if i == I::BeginUnwind {
                        let l = self.panic_location(st, &args[0]);
                        st.panic_info = l.into();
                    } else {
                        st.panic_info = "(resumed)".into();
                    }
                    return self.unwind(st);
                }
                let r = self.intrinsic(st, i, c, &args)?;
                if let (Some(d), Some(v)) = (c.dst, r) {
                    Self::set(st, d, v);
                }
                if let Some((b, _)) = c.invoke {
                    self.jump(st, b);
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Ok(())
            }
        }
    }

    fn vec_map2(&mut self, ty: &Ty, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Engine, u32, E, E) -> E) -> Val {
        if let Ty::Vec(et, n) = ty {
            if let (Val::A(a), Val::A(b)) = (x, y) {
                let (a, b) = (a.clone(), b.clone());
                let o = (0..*n as usize).map(|i| self.vec_map2(et, &a[i], &b[i], f)).collect();
                return Val::A(Rc::new(o));
            }
            return Val::U;
        }
        let w = ty.bits();
        match (self.te(x, w), self.te(y, w)) {
            (Some(a), Some(b)) => {
                let r = f(self, w, a, b);
                self.val(r)
            }
            _ => Val::U,
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: I, c: &CallI, a: &[Val]) -> R<Option<Val>> {
        let ty0 = c.args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let w0 = match &ty0 {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        };
        let pair = |v: Val, o: Val| Some(Val::A(Rc::new(vec![v, o])));
        Ok(match i {
            I::Alloc => Some(self.new_heap(st, &a[0], &a[1], false)?),
            I::AllocZeroed => Some(self.new_heap(st, &a[0], &a[1], true)?),
            I::Realloc => {
                // ptr, old_size, align, new_size
                let p = self.conc(st, &a[0], 64, "pointer")? as u64;
                let old = self.conc(st, &a[1], 64, "size")?;
                // resolve the new size before mutating anything
                let nsz = match &a[3] {
                    Val::C(k) => *k as u64,
                    v => {
                        let e = self.te(v, 64).ok_or_else(|| Stop::Viol("ub", "uninitialised realloc size".into()))?;
                        let l = self.p.k(self.o.alloc_limit as u128, 64);
                        let cnd = self.p.ule(e, l);
                        if !self.decide(st, cnd)? {
                            self.huge_alloc(st)?;
                        }
                        self.concretize(st, e)? as u64
                    }
                };
                if nsz > self.o.alloc_limit {
                    self.huge_alloc(st)?;
                }
                let np = self.new_heap(st, &Val::C(nsz as u128), &a[2], false)?;
                let n = old.min(nsz as u128);
                self.memcpy(st, &np, &Val::C(p as u128), &Val::C(n), false)?;
                self.free(st, &Val::C(p as u128), &Val::C(old), &a[2])?;
                Some(np)
            }
            I::Dealloc => {
                self.free(st, &a[0], &a[1], &a[2])?;
                None
            }
            I::NoShim | I::LNop => None,
            I::AllocErr => return Err(Stop::Kill("allocation error handler")),
            I::BeginUnwind | I::ResumeUnwind => unreachable!(),
            I::CatchCleanup => pair(Val::C(1), Val::C(self.any_vtable as u128)),
            I::Abort | I::LTrap => return Err(Stop::Viol("abort", "process abort".into())),
            I::PanicNounwind => {
                let n = st.frames.last().unwrap().f.name.clone();
                return Err(Stop::Viol("ub", format!("non-unwinding panic (aborts): {n}")));
            }
            I::VtSym => {
                let w = self.conc(st, &a[0], 32, "width")? as u32;
                let name = self.str_arg(st, &a[1], &a[2])?;
                let nm = format!("{name}#{}", st.syms.len());
                // reuse the variable a sibling path created at the same position
                let e = self.shared_var(&nm, w);
                let v = self.p.n[e as usize].a;
                st.syms.push(v);
                let z = self.p.zext(e, 64);
                Some(self.val(z))
            }
            I::VtAssume => {
                let v = a[0].clone();
                match &v {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Err(Stop::Kill("assumption"));
                        }
                        None
                    }
                    _ => {
                        let e = self.te(&v, 1).ok_or_else(|| Stop::Viol("ub", "assume on uninitialised data".into()))?;
                        if self.p.w(e) != 1 {
                            return Err(Stop::Incomplete("assume width".into()));
                        }
                        if let Some(b) = st.facts.get(&e) {
                            return if *b { Ok(None) } else { Err(Stop::Kill("assumption")) };
                        }
                        let m = st.model.clone();
                        if self.p.eval(e, &m) == 1 {
                            self.assume(st, e);
                        } else {
                            match self.sat(st, e)? {
                                Some(m) => {
                                    st.model = m;
                                    self.assume(st, e);
                                }
                                None => return Err(Stop::Kill("assumption")),
                            }
                        }
                        None
                    }
                }
            }
            I::VtAssert => {
                let msg = self.str_arg(st, &a[1], &a[2])?;
                self.vassert(st, &a[0], &msg)?;
                None
            }
            I::VtSplit => Some(Val::C(self.conc(st, &a[0], 64, "split")?)),
            I::VtObserve => {
                st.obs.push(a[0].clone());
                None
            }
            I::VtCover => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                Rc::make_mut(&mut st.covers).insert(n.into());
                None
            }
            I::VtAllocRule => {
                st.alloc_rule = Some(a[0].clone());
                None
            }
            I::VtThread => {
                let t = self.conc(st, &a[0], 64, "thread")?;
                st.tid = if t == 99 { 0 } else { t as u8 };
                if t == 0 {
                    st.acc = Rc::new(HashMap::new());
                }
                None
            }
            I::VtIsSym => Some(Val::C(!matches!(a[0], Val::C(_)) as u128)),
            I::VtIntro => Some(Val::C(1)),
            I::VtShard => {
                let v = self.conc(st, &a[0], 64, "shard")? as u64;
                // spread neighbouring keys
                let h = v.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 17;
                if h % self.o.shards != self.o.shard {
                    return Err(Stop::Kill("other shard"));
                }
                None
            }
            I::Memcmp | I::Bcmp => {
                let n = self.conc(st, &a[2], 64, "length")? as u64;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.resolve(st, &a[0], n, 1, false)?;
                let q = self.resolve(st, &a[1], n, 1, false)?;
                let mut acc = self.p.k(0, 32);
                for k in (0..n).rev() {
                    let x = self.read_scalar(st, p + k, 1);
                    let y = self.read_scalar(st, q + k, 1);
                    let (x, y) = match (self.te(&x, 8), self.te(&y, 8)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Err(Stop::Viol("ub", "comparison of uninitialised bytes".into())),
                    };
                    let eq = self.p.eq(x, y);
                    let lt = self.p.ult(x, y);
                    let m1 = self.p.k(u32::MAX as u128, 32);
                    let p1 = self.p.k(1, 32);
                    let d = if i == I::Bcmp { p1 } else { self.p.ite(lt, m1, p1) };
                    acc = self.p.ite(eq, acc, d);
                }
                Some(self.val(acc))
            }
            I::LMemcpy | I::Memcpy => {
                self.memcpy(st, &a[0], &a[1], &a[2], false)?;
                Some(a[0].clone())
            }
            I::LMemmove | I::Memmove => {
                self.memcpy(st, &a[0], &a[1], &a[2], true)?;
                Some(a[0].clone())
            }
            I::LMemset | I::Memset => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Some(a[0].clone())
            }
            I::Strlen => {
                let p = self.conc(st, &a[0], 64, "str")? as u64;
                let mut k = 0;
                loop {
                    let q = self.resolve(st, &Val::C((p + k) as u128), 1, 1, false)?;
                    match self.read_scalar(st, q, 1) {
                        Val::C(0) => break,
                        Val::C(_) => k += 1,
                        _ => return Err(Stop::Incomplete("strlen of symbolic data".into())),
                    }
                }
                Some(Val::C(k as u128))
            }
            I::RetZero => Some(Val::C(0)),
            I::RetMinus1 => Some(Val::C(match &c.ret {
                Ty::Int(w) => ones(*w),
                _ => ones(64),
            })),
            I::LUaddO | I::LSaddO | I::LUsubO | I::LSsubO | I::LUmulO | I::LSmulO => {
                let w = w0;
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let (sx, sy) = (sext(x, w), sext(y, w));
                    let (r, o) = match i {
                        I::LUaddO => {
                            let r = mask(x.wrapping_add(y), w);
                            (r, r < x)
                        }
                        I::LUsubO => (mask(x.wrapping_sub(y), w), x < y),
                        I::LUmulO => (mask(x.wrapping_mul(y), w), x.checked_mul(y).map(|r| r > ones(w)).unwrap_or(true)),
                        I::LSaddO => {
                            let (r, o) = sx.overflowing_add(sy);
                            let m = mask(r as u128, w);
                            (m, o || sext(m, w) != r)
                        }
                        I::LSsubO => {
                            let (r, o) = sx.overflowing_sub(sy);
                            let m = mask(r as u128, w);
                            (m, o || sext(m, w) != r)
                        }
                        _ => {
                            let (r, o) = sx.overflowing_mul(sy);
                            let m = mask(r as u128, w);
                            (m, o || sext(m, w) != r)
                        }
                    };
                    return Ok(pair(Val::C(r), Val::C(o as u128)));
                }
                let (x, y) = match (self.te(&a[0], w), self.te(&a[1], w)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(pair(Val::U, Val::U)),
                };
                let (r, o) = match i {
                    I::LUaddO => {
                        let r = self.p.add(x, y);
                        let o = self.p.ult(r, x);
                        // interval shortcut
                        let o = if self.p.hi(x).checked_add(self.p.hi(y)).map(|h| h <= ones(w)).unwrap_or(false) { self.p.ff() } else { o };
                        (r, o)
                    }
                    I::LUsubO => (self.p.sub(x, y), self.p.ult(x, y)),
                    I::LUmulO => self.umulo(x, y, w),
                    I::LSaddO => {
                        let r = self.p.add(x, y);
                        (r, self.sovf(Bin::Add, w, x, y, r))
                    }
                    I::LSsubO => {
                        let r = self.p.sub(x, y);
                        (r, self.sovf(Bin::Sub, w, x, y, r))
                    }
                    _ => self.smulo(x, y, w)?,
                };
                let (r, o) = (self.val(r), self.val(o));
                pair(r, o)
            }
            I::LUaddS | I::LUsubS | I::LSaddS | I::LSsubS => {
                let w = w0;
                let (x, y) = match (self.te(&a[0], w), self.te(&a[1], w)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let r = match i {
                    I::LUaddS => {
                        let r = self.p.add(x, y);
                        let o = self.p.ult(r, x);
                        let m = self.p.k(ones(w), w);
                        self.p.ite(o, m, r)
                    }
                    I::LUsubS => {
                        let r = self.p.sub(x, y);
                        let o = self.p.ult(x, y);
                        let z = self.p.k(0, w);
                        self.p.ite(o, z, r)
                    }
                    _ => {
                        let op = if i == I::LSaddS { Bin::Add } else { Bin::Sub };
                        let r = if i == I::LSaddS { self.p.add(x, y) } else { self.p.sub(x, y) };
                        let o = self.sovf(op, w, x, y, r);
                        let z = self.p.k(0, w);
                        let neg = self.p.slt(x, z);
                        let mn = self.p.k(1u128 << (w - 1), w);
                        let mx = self.p.k(ones(w) >> 1, w);
                        let s = self.p.ite(neg, mn, mx);
                        self.p.ite(o, s, r)
                    }
                };
                Some(self.val(r))
            }
            I::LCtpop => {
                let e = match self.te(&a[0], w0) {
                    Some(e) => e,
                    None => return Ok(Some(Val::U)),
                };
                let mut s = self.p.k(0, w0);
                for k in 0..w0 {
                    let b = self.p.extract(e, k, 1);
                    let z = self.p.zext(b, w0);
                    s = self.p.add(s, z);
                }
                Some(self.val(s))
            }
            I::LCtlz | I::LCttz => {
                let e = match self.te(&a[0], w0) {
                    Some(e) => e,
                    None => return Ok(Some(Val::U)),
                };
                let mut r = self.p.k(w0 as u128, w0);
                for k in 0..w0 {
                    // the last assignment wins: iterate from least to most significant priority
                    let pos = if i == I::LCtlz { k } else { w0 - 1 - k };
                    let b = self.p.extract(e, pos, 1);
                    let v = if i == I::LCtlz { w0 - 1 - pos } else { pos };
                    let kv = self.p.k(v as u128, w0);
                    r = self.p.ite(b, kv, r);
                }
                Some(self.val(r))
            }
            I::LBswap | I::LBitrev => {
                let e = match self.te(&a[0], w0) {
                    Some(e) => e,
                    None => return Ok(Some(Val::U)),
                };
                let g = if i == I::LBswap { 8 } else { 1 };
                let mut acc = self.p.extract(e, 0, g);
                for k in 1..w0 / g {
                    let b = self.p.extract(e, k * g, g);
                    acc = self.p.concat(acc, b);
                }
                Some(self.val(acc))
            }
            I::LFshl | I::LFshr => {
                let w = w0;
                let (x, y) = match (self.te(&a[0], w), self.te(&a[1], w)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let s = self.conc(st, &a[2], w, "shift")? % w as u128;
                if s == 0 {
                    return Ok(Some(if i == I::LFshl { a[0].clone() } else { a[1].clone() }));
                }
                let s = s as u32;
                let s = if i == I::LFshl { s } else { w - s };
                let h = self.p.extract(x, 0, w - s);
                let l = self.p.extract(y, w - s, s);
                let r = self.p.concat(h, l);
                Some(self.val(r))
            }
            I::LUmin | I::LUmax | I::LSmin | I::LSmax => {
                let (x, y) = (a[0].clone(), a[1].clone());
                let r = self.vec_map2(&ty0, &x, &y, &mut |s, _w, x, y| {
                    let c = match i {
                        I::LUmin => s.p.ult(x, y),
                        I::LUmax => s.p.ult(y, x),
                        I::LSmin => s.p.slt(x, y),
                        _ => s.p.slt(y, x),
                    };
                    s.p.ite(c, x, y)
                });
                Some(r)
            }
            I::LAbs => {
                let e = match self.te(&a[0], w0) {
                    Some(e) => e,
                    None => return Ok(Some(Val::U)),
                };
                let z = self.p.k(0, w0);
                let n = self.p.sub(z, e);
                let c = self.p.slt(e, z);
                let r = self.p.ite(c, n, e);
                Some(self.val(r))
            }
            I::LExpect => Some(a[0].clone()),
            I::LAssume => {
                let t = self.truth(st, &a[0], "an assumption")?;
                if !t {
                    return Err(Stop::Viol("ub", "llvm.assume violated".into()));
                }
                None
            }
            I::LLifetimeStart | I::LLifetimeEnd => {
                // contents become undefined at both ends of the lifetime
                let p = match a.last() {
                    Some(Val::C(p)) => *p as u64,
                    _ => return Ok(None),
                };
                if let Slot::Live(o) = st.mem.slot(p >> 32) {
                    if o.kind == Kind::Stack {
                        if let Some(Slot::Live(o)) = st.mem.slot_mut(p >> 32) {
                            for t in Rc::make_mut(o).tag.iter_mut() {
                                *t = 0;
                            }
                        }
                    }
                }
                None
            }
            I::LTls => Some(a[0].clone()),
            I::LFabs => {
                let m = ones(w0) >> 1;
                Some(match &a[0] {
                    Val::C(k) => Val::C(k & m),
                    Val::E(e) => {
                        let k = self.p.k(m, w0);
                        let r = self.p.and(*e, k);
                        self.val(r)
                    }
                    _ => Val::U,
                })
            }
            I::LCopysign => {
                let (x, y) = match (self.te(&a[0], w0), self.te(&a[1], w0)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let s = self.p.extract(y, w0 - 1, 1);
                let r = self.p.extract(x, 0, w0 - 1);
                let r = self.p.concat(s, r);
                Some(self.val(r))
            }
            I::LFloor | I::LCeil | I::LTrunc | I::LRound | I::LSqrt | I::LRoundEven => {
                let k = match i {
                    I::LFloor => 0,
                    I::LCeil => 1,
                    I::LTrunc => 2,
                    I::LRound => 3,
                    I::LSqrt => 4,
                    _ => 5,
                };
                let e = match self.te(&a[0], w0) {
                    Some(e) => e,
                    None => return Ok(Some(Val::U)),
                };
                let r = self.p.fun(k, e);
                Some(self.val(r))
            }
            I::LIsConst => Some(Val::C(0)),
            I::LUcmp | I::LScmp => {
                let rw = c.ret.bits();
                let (x, y) = match (self.te(&a[0], w0), self.te(&a[1], w0)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let lt = if i == I::LUcmp { self.p.ult(x, y) } else { self.p.slt(x, y) };
                let eq = self.p.eq(x, y);
                let m1 = self.p.k(ones(rw), rw);
                let z = self.p.k(0, rw);
                let p1 = self.p.k(1, rw);
                let t = self.p.ite(eq, z, p1);
                let r = self.p.ite(lt, m1, t);
                Some(self.val(r))
            }
            I::LPtrmask => {
                let (x, y) = match (self.te(&a[0], 64), self.te(&a[1], 64)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let r = self.p.and(x, y);
                Some(self.val(r))
            }
            I::LFpToUiSat | I::LFpToSiSat => {
                let rw = c.ret.bits();
                match &a[0] {
                    Val::C(k) => Some(Val::C(fcast(if i == I::LFpToUiSat { Op::FpToUi } else { Op::FpToSi }, w0, *k, rw))),
                    _ => return Err(Stop::Incomplete("symbolic float-to-int conversion".into())),
                }
            }
            I::LMinnum | I::LMaxnum => {
                let (x, y) = match (self.te(&a[0], w0), self.te(&a[1], w0)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(Some(Val::U)),
                };
                let c = self.p.fcmp(if i == I::LMinnum { 4 } else { 2 }, x, y);
                let ny = self.p.fcmp(8, y, y);
                let t = self.p.or(c, ny);
                let r = self.p.ite(t, x, y);
                Some(self.val(r))
            }
            I::LReduceOr | I::LReduceAnd | I::LReduceAdd => {
                let (et, l) = match (&ty0, &a[0]) {
                    (Ty::Vec(t, _), Val::A(l)) => ((**t).clone(), l.clone()),
                    _ => return Ok(Some(Val::U)),
                };
                let op = match i {
                    I::LReduceOr => Bin::Or,
                    I::LReduceAnd => Bin::And,
                    _ => Bin::Add,
                };
                let mut acc = l[0].clone();
                for v in l.iter().skip(1) {
                    acc = self.bin(st, op, &et, &acc, v, false, false, false)?;
                }
                Some(acc)
            }
            I::LVectorExtract => return Err(Stop::Incomplete("vector.extract".into())),
            I::LLoadRel => return Err(Stop::Incomplete("load.relative".into())),
        })
    }
    fn shared_var(&mut self, nm: &str, w: u32) -> E {
        if let Some(e) = self.vmap.get(&(nm.to_string(), w)) {
            return *e;
        }
        let e = self.p.var(nm, w);
        self.vmap.insert((nm.to_string(), w), e);
        e
    }
}

fn copy_bytes(o: &mut Obj, db: usize, s: &Obj, sb: usize, n: usize) {
    o.data[db..db + n].copy_from_slice(&s.data[sb..sb + n]);
    o.tag[db..db + n].copy_from_slice(&s.tag[sb..sb + n]);
    if !s.sym.is_empty() {
        if o.sym.is_empty() {
            o.sym = vec![(0, 0); o.size as usize];
        }
        o.sym[db..db + n].copy_from_slice(&s.sym[sb..sb + n]);
    }
}

fn insert_v(x: &mut Val, idx: &[u32], nv: Val) {
    if let Val::A(l) = x {
        let l = Rc::make_mut(l);
        let i = idx[0] as usize;
        if idx.len() == 1 {
            l[i] = nv;
        } else {
            insert_v(&mut l[i], &idx[1..], nv);
        }
    }
}
