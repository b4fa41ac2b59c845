//! Parser for the textual LLVM IR emitted by rustc (LLVM 23). Functions are indexed eagerly and
//! decoded lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(Rc<Ty>, u64),
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(t, _) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(t, n) => t.alloc_size() * n,
            Ty::Struct(..) => {
                let (sz, _) = self.struct_layout();
                sz
            }
            Ty::Vec(t, n) => {
                let bits = t.bits() as u64 * n;
                (bits + 7) / 8
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align().max(1);
        (s + a - 1) / a * a
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(t, n) => t.bits() * (*n as u32),
            _ => panic!("bits of {:?}", self),
        }
    }
    /// total size and field offsets
    pub fn struct_layout(&self) -> (u64, Vec<u64>) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut offs = Vec::with_capacity(fs.len());
                let mut al = 1;
                for f in fs.iter() {
                    let a = if *packed { 1 } else { f.align().max(1) };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += f.alloc_size();
                }
                off = (off + al - 1) / al * al;
                (off, offs)
            }
            _ => unreachable!(),
        }
    }
    pub fn field(&self, i: usize) -> (Ty, u64) {
        match self {
            Ty::Struct(fs, _) => {
                let (_, o) = self.struct_layout();
                (fs[i].clone(), o[i])
            }
            Ty::Arr(t, _) => ((**t).clone(), t.alloc_size() * i as u64),
            Ty::Vec(t, _) => ((**t).clone(), t.alloc_size() * i as u64),
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128, u32),
    Undef,
    Zero,
    Agg(Vec<(Ty, Const)>),
    Str(Vec<u8>),
    Global(Rc<str>, i64),
    /// difference or other unsupported constant expression
    Unsupported(String),
    Splat(Box<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Rc<(Ty, Const)>),
    /// scalar constant fast path
    I(u128),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub invoke: Option<(u32, u32)>,
    pub target: std::cell::Cell<u32>, // resolved function index + 1 (cache)
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64, count: Opd },
    Load { dst: u32, ty: Ty, ptr: Opd, align: u64 },
    Store { ty: Ty, val: Opd, ptr: Opd, align: u64 },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, i64, u32)>, inbounds: bool },
    Bin { dst: u32, op: Bin, ty: Ty, a: Opd, b: Opd, nuw: bool, nsw: bool, exact: bool },
    FNeg { dst: u32, ty: Ty, a: Opd },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Opd, b: Opd },
    Fcmp { dst: u32, pred: u8, ty: Ty, a: Opd, b: Opd },
    Select { dst: u32, cty: Ty, c: Opd, ty: Ty, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, from: Ty, a: Opd, to: Ty },
    Freeze { dst: u32, ty: Ty, a: Opd },
    Call(Box<CallI>),
    ExtractV { dst: u32, ty: Ty, a: Opd, idx: Vec<u32> },
    InsertV { dst: u32, ty: Ty, a: Opd, ety: Ty, v: Opd, idx: Vec<u32> },
    ExtractE { dst: u32, ty: Ty, a: Opd, i: Opd },
    InsertE { dst: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<i64> },
    LandingPad { dst: u32 },
    Resume(Opd),
    Ret(Option<(Ty, Opd)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    AtomicRmw { dst: u32, op: Rc<str>, ty: Ty, ptr: Opd, v: Opd },
    CmpXchg { dst: u32, ty: Ty, ptr: Opd, cmp: Opd, new: Opd },
    Fence,
    VaArg,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    S(&'a str),
    CS(&'a str),
    M(&'a str),
    A(&'a str),
    P(u8),
    Ell,
    Eof,
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let (name, ni) = if b.get(st) == Some(&b'"') {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    (&s[st + 1..j], j + 1)
                } else {
                    let mut j = st;
                    while j < b.len() && isw(b[j]) {
                        j += 1
                    }
                    (&s[st..j], j)
                };
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = ni;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                v.push(Tok::S(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                v.push(Tok::CS(&s[i + 2..j]));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (isw(b[j]) || b[j] == b'\\') {
                    j += 1
                }
                v.push(Tok::M(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) {
                    j += 1
                }
                v.push(Tok::A(&s[i + 1..j]));
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(Tok::Ell);
                i += 3;
            }
            _ if isw(c) => {
                let mut j = i;
                while j < b.len() && isw(b[j]) {
                    j += 1
                }
                v.push(Tok::W(&s[i..j]));
                i = j;
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub struct Module {
    pub text: String,
    pub fn_idx: HashMap<Rc<str>, u32>,
    pub fn_names: Vec<Rc<str>>,
    pub fn_range: Vec<Option<(usize, usize)>>,
    pub decoded: Vec<Option<Rc<Func>>>,
    pub globals: HashMap<Rc<str>, u32>,
    pub global_names: Vec<Rc<str>>,
    pub global_range: Vec<(usize, usize)>,
    pub named_types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            fn_idx: HashMap::new(),
            fn_names: vec![],
            fn_range: vec![],
            decoded: vec![],
            globals: HashMap::new(),
            global_names: vec![],
            global_range: vec![],
            named_types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        let n = bytes.len();
        while pos < n {
            let eol = memchr(bytes, b'\n', pos);
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let is_def = line.starts_with("define ");
                let at = find_global_name(line);
                let mut end = eol;
                if is_def {
                    // body ends at a line "}"
                    let mut p = eol + 1;
                    loop {
                        let e = memchr(bytes, b'\n', p);
                        if &text[p..e] == "}" {
                            end = e;
                            break;
                        }
                        p = e + 1;
                        assert!(p < n, "unterminated function");
                    }
                }
                let name: Rc<str> = at.into();
                let idx = m.fn_names.len() as u32;
                m.fn_idx.insert(name.clone(), idx);
                m.fn_names.push(name);
                m.fn_range.push(if is_def { Some((pos, end)) } else { None });
                m.decoded.push(None);
                pos = end + 1;
                continue;
            } else if line.starts_with('@') {
                let at = find_global_name(line);
                if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
                    // @a = ... alias ty, ptr @b
                    let rest = &line[line.find(" alias ").unwrap()..];
                    if let Some(p) = rest.find('@') {
                        m.aliases.insert(at.to_string(), find_global_name(&rest[p..]).to_string());
                    }
                } else {
                    let name: Rc<str> = at.into();
                    m.globals.insert(name.clone(), m.global_names.len() as u32);
                    m.global_names.push(name);
                    m.global_range.push((pos, eol));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let toks = lex(line);
                if let Tok::L(nm) = &toks[0] {
                    let mut p = P { t: toks.clone(), i: 3, m: &m.named_types };
                    let ty = p.ty();
                    m.named_types.insert(nm.to_string(), ty);
                }
            }
            pos = eol + 1;
        }
        m.text = text;
        m
    }

    /// (type, initializer, align, is_const, is_external)
    pub fn global_def(&self, g: u32) -> (Ty, Option<Const>, u64, bool) {
        let (a, b) = self.global_range[g as usize];
        let toks = lex(&self.text[a..b]);
        let mut p = P { t: toks, i: 2, m: &self.named_types };
        let mut external = false;
        let is_const;
        loop {
            match p.peek() {
                Tok::W("global") => {
                    is_const = false;
                    p.i += 1;
                    break;
                }
                Tok::W("constant") => {
                    is_const = true;
                    p.i += 1;
                    break;
                }
                Tok::W("external") | Tok::W("extern_weak") => {
                    external = true;
                    p.i += 1;
                }
                Tok::P(b'(') => p.skip_group(),
                Tok::Eof => panic!("bad global {}", &self.text[a..b]),
                _ => p.i += 1,
            }
        }
        let ty = p.ty();
        let init = if external { None } else { Some(p.konst(&ty)) };
        let mut align = ty.align();
        while p.peek() != Tok::Eof {
            if p.peek() == Tok::W("align") {
                p.i += 1;
                if let Tok::W(n) = p.peek() {
                    align = n.parse().unwrap();
                }
            }
            p.i += 1;
        }
        (ty, init, align.max(1), is_const)
    }

    pub fn func(&mut self, idx: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.decoded[idx as usize] {
            return Some(f.clone());
        }
        let (a, b) = self.fn_range[idx as usize]?;
        let f = decode(&self.text[a..b], self.fn_names[idx as usize].clone(), &self.named_types);
        let f = Rc::new(f);
        self.decoded[idx as usize] = Some(f.clone());
        Some(f)
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    match b[from..].iter().position(|x| *x == c) {
        Some(p) => from + p,
        None => b.len(),
    }
}

fn find_global_name(line: &str) -> &str {
    let p = line.find('@').unwrap() + 1;
    let b = line.as_bytes();
    if b[p] == b'"' {
        let mut j = p + 1;
        while b[j] != b'"' {
            j += 1
        }
        &line[p + 1..j]
    } else {
        let mut j = p;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b"_.$-".contains(&b[j])) {
            j += 1
        }
        &line[p..j]
    }
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    fn peek(&self) -> Tok<'a> {
        self.t.get(self.i).cloned().unwrap_or(Tok::Eof)
    }
    fn peek_at(&self, k: usize) -> Tok<'a> {
        self.t.get(self.i + k).cloned().unwrap_or(Tok::Eof)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.peek();
        self.i += 1;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]);
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Tok::W(x) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    /// skip a balanced () group
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Tok::W(w) => is_ty_word(w),
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            Tok::L(n) => self.m.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let base = match self.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.peek() == Tok::W("addrspace") {
                        self.i += 1;
                        self.skip_group();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "opaque" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Opaque,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            },
            Tok::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(Rc::new(t), n)
            }
            Tok::P(b'{') => {
                let fs = self.ty_list(b'}');
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let fs = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(Rc::new(t), n)
                }
            }
            Tok::L(n) => self.m.get(n).cloned().unwrap_or(Ty::Opaque),
            t => panic!("type expected: {:?} in {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]),
        };
        base
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::W(w) => parse_int(w).unwrap_or_else(|| panic!("num {w}")),
            t => panic!("num {:?}", t),
        }
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::W(w) => match w {
                "null" | "zeroinitializer" | "none" => match ty {
                    Ty::Ptr => Const::Int(0, 64),
                    Ty::Int(w) => Const::Int(0, *w),
                    Ty::F32 => Const::Int(0, 32),
                    Ty::F64 => Const::Int(0, 64),
                    _ => Const::Zero,
                },
                "undef" | "poison" => Const::Undef,
                "true" => Const::Int(1, 1),
                "false" => Const::Int(0, 1),
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.expect(b')');
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while let Tok::W(_) = self.peek() {
                        self.i += 1;
                        if self.peek() == Tok::P(b'(') && matches!(self.t[self.i - 1], Tok::W("inrange")) {
                            self.skip_group();
                        }
                    }
                    self.expect(b'(');
                    let sty = self.ty();
                    self.expect(b',');
                    let bt = self.ty();
                    let base = self.konst(&bt);
                    let mut off: i64 = 0;
                    let mut cur: Option<Ty> = None;
                    let mut bad = false;
                    while self.eat(b',') {
                        let it = self.ty();
                        let k = self.konst(&it);
                        let k = match k {
                            Const::Int(v, w) => sext(v, w) as i64,
                            _ => {
                                bad = true;
                                0
                            }
                        };
                        match cur.take() {
                            None => {
                                off += sty.alloc_size() as i64 * k;
                                cur = Some(sty.clone());
                            }
                            Some(t) => {
                                let (ft, fo) = t.field(k as usize);
                                off += fo as i64;
                                cur = Some(ft);
                            }
                        }
                    }
                    self.expect(b')');
                    if bad {
                        return Const::Unsupported("gep".into());
                    }
                    match base {
                        Const::Global(g, o) => Const::Global(g, o + off),
                        Const::Int(v, w) => Const::Int((v as u64).wrapping_add(off as u64) as u128, w),
                        _ => Const::Unsupported("gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    assert!(self.eatw("to"));
                    let to = self.ty();
                    self.expect(b')');
                    match c {
                        Const::Int(v, _) => Const::Int(mask(v, to.bits()), to.bits()),
                        c => c,
                    }
                }
                "sub" | "add" | "xor" => {
                    while let Tok::W(_) = self.peek() {
                        self.i += 1
                    }
                    let st = self.i;
                    self.skip_group();
                    Const::Unsupported(format!("{} {:?}", w, &self.t[st..self.i]))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                "blockaddress" => {
                    self.skip_group();
                    Const::Unsupported("blockaddress".into())
                }
                _ => match ty {
                    Ty::F32 | Ty::F64 => {
                        let bits = parse_float(w, ty);
                        Const::Int(bits, ty.bits())
                    }
                    Ty::Int(n) => {
                        let v = parse_int(w).unwrap_or_else(|| panic!("int const {w}"));
                        Const::Int(mask(v as u128, *n), *n)
                    }
                    _ => panic!("const {w} of {:?}", ty),
                },
            },
            Tok::CS(s) => Const::Str(unescape(s)),
            Tok::G(g) => Const::Global(g.into(), 0),
            Tok::P(b'{') => Const::Agg(self.const_list(b'}')),
            Tok::P(b'[') => Const::Agg(self.const_list(b']')),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let l = self.const_list(b'}');
                    self.expect(b'>');
                    Const::Agg(l)
                } else {
                    Const::Agg(self.const_list(b'>'))
                }
            }
            t => panic!("const {:?} of {:?}", t, ty),
        }
    }
    fn const_list(&mut self, end: u8) -> Vec<(Ty, Const)> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.konst(&t);
            v.push((t, c));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    /// skip attribute words (with optional groups) until a type starts
    fn skip_attrs_until_ty(&mut self) {
        loop {
            if self.is_ty() {
                return;
            }
            match self.peek() {
                Tok::W("align") => {
                    self.i += 1;
                    if self.peek() == Tok::P(b'(') {
                        self.skip_group()
                    } else {
                        self.i += 1
                    }
                }
                Tok::W(_) | Tok::S(_) | Tok::A(_) => {
                    self.i += 1;
                    if self.peek() == Tok::P(b'(') {
                        self.skip_group()
                    }
                }
                Tok::P(b'=') => self.i += 1,
                t => panic!("attrs: {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]),
            }
        }
    }
    fn skip_param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::W("align") => {
                    self.i += 1;
                    if self.peek() == Tok::P(b'(') {
                        self.skip_group()
                    } else {
                        self.i += 1
                    }
                }
                Tok::W(w) => {
                    // a value keyword ends the attributes
                    if matches!(
                        w,
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "none"
                    ) || w.as_bytes()[0].is_ascii_digit()
                        || w.as_bytes()[0] == b'-'
                        || (w.as_bytes()[0] == b'+')
                        || parse_int(w).is_some()
                    {
                        return;
                    }
                    self.i += 1;
                    if self.peek() == Tok::P(b'(') {
                        self.skip_group()
                    }
                }
                Tok::S(_) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_ty_word(w: &str) -> bool {
    match w {
        "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "opaque" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn parse_int(w: &str) -> Option<i128> {
    if let Some(h) = w.strip_prefix("u0x") {
        return u128::from_str_radix(h, 16).ok().map(|x| x as i128);
    }
    if let Ok(v) = w.parse::<i128>() {
        return Some(v);
    }
    if let Ok(v) = w.parse::<u128>() {
        return Some(v as i128);
    }
    None
}

fn parse_float(w: &str, ty: &Ty) -> u128 {
    // LLVM >= 22 may print f0x... (bit pattern of the type); older forms print 0x<double bits>
    if let Some(h) = w.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).unwrap();
    }
    let d = if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else if w == "+inf" || w == "inf" {
        f64::INFINITY
    } else if w == "-inf" {
        f64::NEG_INFINITY
    } else if w == "+qnan" || w == "qnan" || w == "nan" {
        f64::NAN
    } else {
        w.parse().unwrap_or_else(|_| panic!("float {w}"))
    };
    match ty {
        Ty::F32 => (d as f32).to_bits() as u128,
        _ => d.to_bits() as u128,
    }
}

struct D<'a> {
    p: P<'a>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
}

impl<'a> D<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: &'a str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {n}"))
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if let Tok::L(n) = self.p.peek() {
            self.p.i += 1;
            return Opd::R(self.reg(n));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip
            loop {
                match self.p.peek() {
                    Tok::P(b',') | Tok::P(b')') => return Opd::I(0),
                    Tok::P(b'(') | Tok::P(b'{') => self.p.skip_group(),
                    _ => self.p.i += 1,
                }
            }
        }
        if let Tok::W("asm") = self.p.peek() {
            return Opd::I(0);
        }
        let c = self.p.konst(ty);
        match c {
            Const::Int(v, _) => Opd::I(v),
            c => Opd::K(Rc::new((ty.clone(), c))),
        }
    }
    fn tval(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn lbl(&mut self) -> u32 {
        assert!(self.p.eatw("label"));
        match self.p.next() {
            Tok::L(n) => self.blk(n),
            t => panic!("label {:?}", t),
        }
    }
    fn skip_trailing(&mut self) {
        // ", align 8", ", !dbg !1", ", !noalias !2 ..." , " #12"
        loop {
            match self.p.peek() {
                Tok::A(_) => self.p.i += 1,
                Tok::P(b',') => match self.p.peek_at(1) {
                    Tok::M(_) => {
                        self.p.i += 2;
                        match self.p.peek() {
                            Tok::M(_) => {
                                self.p.i += 1;
                                if self.p.peek() == Tok::P(b'{') {
                                    self.p.skip_group()
                                }
                            }
                            Tok::P(b'{') => self.p.skip_group(),
                            _ => {}
                        }
                    }
                    Tok::W("align") => self.p.i += 3,
                    _ => return,
                },
                _ => return,
            }
        }
    }
    fn align(&mut self, d: u64) -> u64 {
        if self.p.peek() == Tok::P(b',') && self.p.peek_at(1) == Tok::W("align") {
            self.p.i += 2;
            return self.p.num() as u64;
        }
        d
    }
}

fn decode(text: &str, name: Rc<str>, named: &HashMap<String, Ty>) -> Func {
    let toks = lex(text);
    let mut d = D { p: P { t: toks, i: 0, m: named }, regs: HashMap::new(), blocks: HashMap::new() };
    // header: go to @name
    while !matches!(d.p.peek(), Tok::G(_)) {
        d.p.i += 1;
    }
    d.p.i += 1;
    d.p.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0u32;
    let mut own: Vec<String> = vec![];
    if !d.p.eat(b')') {
        loop {
            if d.p.peek() == Tok::Ell {
                d.p.i += 1;
            } else {
                let _t = d.p.ty();
                d.p.skip_param_attrs();
                if let Tok::L(n) = d.p.peek() {
                    d.p.i += 1;
                    params.push(d.reg(n));
                } else {
                    own.push(unnamed.to_string());
                    params.push(u32::MAX);
                }
                unnamed += 1;
            }
            if d.p.eat(b')') {
                break;
            }
            d.p.expect(b',');
        }
    }
    let _ = own;
    while d.p.peek() != Tok::P(b'{') {
        d.p.i += 1;
    }
    d.p.i += 1;
    // pre-scan labels in the text (line based)
    let mut nb = 0u32;
    let mut first = true;
    let body_start = text.find("{\n").unwrap_or(0);
    for line in text[body_start..].lines().skip(1) {
        let b = line.as_bytes();
        if b.is_empty() || b[0] == b' ' || b[0] == b'}' {
            if first && !b.is_empty() {
                // implicit entry label
                nb = 1;
                first = false;
            }
            continue;
        }
        if let Some(c) = line.find(':') {
            let l = line[..c].trim_matches('"');
            if first {
                first = false;
            }
            d.blocks.insert(l, nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    let mut cur = Block { phis: vec![], ins: vec![] };
    let mut started = false;
    loop {
        match d.p.peek() {
            Tok::P(b'}') | Tok::Eof => break,
            _ => {}
        }
        // label?
        let is_label = matches!(d.p.peek(), Tok::W(_) | Tok::S(_)) && d.p.peek_at(1) == Tok::P(b':');
        if is_label {
            d.p.i += 2;
            if started {
                blocks.push(std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![] }));
            }
            started = true;
            continue;
        }
        started = true;
        let mut dst: Option<u32> = None;
        if let Tok::L(n) = d.p.peek() {
            dst = Some(d.reg(n));
            d.p.i += 1;
            d.p.expect(b'=');
        }
        let op = match d.p.next() {
            Tok::W(w) => w,
            t => panic!("instr {:?} in {name} near {:?}", t, &d.p.t[d.p.i.saturating_sub(8)..(d.p.i + 5).min(d.p.t.len())]),
        };
        let r = dst.unwrap_or(u32::MAX);
        let ins = match op {
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    d.p.i += 1;
                }
                call(&mut d, dst, false)
            }
            "invoke" => call(&mut d, dst, true),
            "alloca" => {
                d.p.eatw("inalloca");
                let t = d.p.ty();
                let mut count = Opd::I(1);
                let mut al = t.align();
                while d.p.peek() == Tok::P(b',') {
                    match d.p.peek_at(1) {
                        Tok::W("align") => {
                            d.p.i += 2;
                            al = d.p.num() as u64;
                        }
                        Tok::M(_) => break,
                        _ => {
                            d.p.i += 1;
                            count = d.tval().1;
                        }
                    }
                }
                Ins::Alloca { dst: r, size: t.alloc_size(), align: al, count }
            }
            "load" => {
                let atomic = d.p.eatw("atomic");
                d.p.eatw("volatile");
                let ty = d.p.ty();
                d.p.expect(b',');
                let (_, ptr) = d.tval();
                if atomic {
                    while let Tok::W(w) = d.p.peek() {
                        if matches!(w, "monotonic" | "acquire" | "release" | "seq_cst" | "acq_rel" | "unordered" | "syncscope") {
                            d.p.i += 1;
                            if d.p.peek() == Tok::P(b'(') {
                                d.p.skip_group()
                            }
                        } else {
                            break;
                        }
                    }
                }
                let al = d.align(ty.align());
                Ins::Load { dst: r, ty, ptr, align: al }
            }
            "store" => {
                let atomic = d.p.eatw("atomic");
                d.p.eatw("volatile");
                let (ty, val) = d.tval();
                d.p.expect(b',');
                let (_, ptr) = d.tval();
                if atomic {
                    while let Tok::W(w) = d.p.peek() {
                        if matches!(w, "monotonic" | "acquire" | "release" | "seq_cst" | "acq_rel" | "unordered" | "syncscope") {
                            d.p.i += 1;
                            if d.p.peek() == Tok::P(b'(') {
                                d.p.skip_group()
                            }
                        } else {
                            break;
                        }
                    }
                }
                let al = d.align(ty.align());
                Ins::Store { ty, val, ptr, align: al }
            }
            "getelementptr" => {
                let mut inb = false;
                loop {
                    if d.p.eatw("inbounds") {
                        inb = true;
                    } else if d.p.eatw("nuw") || d.p.eatw("nusw") {
                    } else {
                        break;
                    }
                }
                let sty = d.p.ty();
                d.p.expect(b',');
                let (_, base) = d.tval();
                let mut off = 0i64;
                let mut idx = vec![];
                let mut curt: Option<Ty> = None;
                while d.p.peek() == Tok::P(b',') && !matches!(d.p.peek_at(1), Tok::M(_)) {
                    d.p.i += 1;
                    let (it, v) = d.tval();
                    let w = it.bits();
                    let (scale, nt) = match curt.take() {
                        None => (sty.alloc_size() as i64, sty.clone()),
                        Some(t @ Ty::Struct(..)) => {
                            if let Opd::I(k) = v {
                                let (ft, fo) = t.field(k as usize);
                                off += fo as i64;
                                curt = Some(ft);
                                continue;
                            }
                            panic!("gep struct idx");
                        }
                        Some(Ty::Arr(t, _)) | Some(Ty::Vec(t, _)) => (t.alloc_size() as i64, (*t).clone()),
                        Some(t) => panic!("gep into {:?}", t),
                    };
                    curt = Some(nt);
                    match v {
                        Opd::I(k) => off = off.wrapping_add((sext(k, w) as i64).wrapping_mul(scale)),
                        v => idx.push((v, scale, w)),
                    }
                }
                Ins::Gep { dst: r, base, off, idx, inbounds: inb }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let (mut nuw, mut nsw, mut exact) = (false, false, false);
                while let Tok::W(w) = d.p.peek() {
                    match w {
                        "nuw" => nuw = true,
                        "nsw" => nsw = true,
                        "exact" => exact = true,
                        "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {}
                        _ => break,
                    }
                    d.p.i += 1;
                }
                let ty = d.p.ty();
                let a = d.val(&ty);
                d.p.expect(b',');
                let b = d.val(&ty);
                let bop = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                Ins::Bin { dst: r, op: bop, ty, a, b, nuw, nsw, exact }
            }
            "fneg" => {
                while let Tok::W(w) = d.p.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    d.p.i += 1;
                }
                let (ty, a) = d.tval();
                Ins::FNeg { dst: r, ty, a }
            }
            "icmp" => {
                d.p.eatw("samesign");
                let pred = match d.p.next() {
                    Tok::W("eq") => Pred::Eq,
                    Tok::W("ne") => Pred::Ne,
                    Tok::W("ult") => Pred::Ult,
                    Tok::W("ule") => Pred::Ule,
                    Tok::W("ugt") => Pred::Ugt,
                    Tok::W("uge") => Pred::Uge,
                    Tok::W("slt") => Pred::Slt,
                    Tok::W("sle") => Pred::Sle,
                    Tok::W("sgt") => Pred::Sgt,
                    Tok::W("sge") => Pred::Sge,
                    t => panic!("pred {:?}", t),
                };
                let ty = d.p.ty();
                let a = d.val(&ty);
                d.p.expect(b',');
                let b = d.val(&ty);
                Ins::Icmp { dst: r, pred, ty, a, b }
            }
            "fcmp" => {
                let mut pred = 0u8;
                loop {
                    match d.p.peek() {
                        Tok::W(w) => {
                            if let Some(k) = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"].iter().position(|x| *x == w) {
                                pred = k as u8;
                                d.p.i += 1;
                                break;
                            }
                            d.p.i += 1;
                        }
                        t => panic!("fcmp {:?}", t),
                    }
                }
                let ty = d.p.ty();
                let a = d.val(&ty);
                d.p.expect(b',');
                let b = d.val(&ty);
                Ins::Fcmp { dst: r, pred, ty, a, b }
            }
            "select" => {
                while let Tok::W(w) = d.p.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    d.p.i += 1;
                }
                let (cty, c) = d.tval();
                d.p.expect(b',');
                let (ty, a) = d.tval();
                d.p.expect(b',');
                let (_, b) = d.tval();
                Ins::Select { dst: r, cty, c, ty, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                while let Tok::W(w) = d.p.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    d.p.i += 1;
                }
                let (from, a) = d.tval();
                assert!(d.p.eatw("to"));
                let to = d.p.ty();
                let c = match op {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if from.bits() > to.bits() {
                            CastOp::Trunc
                        } else if from.bits() < to.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Bit
                        }
                    }
                    _ => CastOp::Bit,
                };
                Ins::Cast { dst: r, op: c, from, a, to }
            }
            "freeze" => {
                let (ty, a) = d.tval();
                Ins::Freeze { dst: r, ty, a }
            }
            "phi" => {
                while let Tok::W(w) = d.p.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    d.p.i += 1;
                }
                let ty = d.p.ty();
                let mut v = vec![];
                loop {
                    d.p.expect(b'[');
                    let o = d.val(&ty);
                    d.p.expect(b',');
                    let b = match d.p.next() {
                        Tok::L(n) => {
                            // entry block of unnamed functions has an implicit number
                            match d.blocks.get(n) {
                                Some(b) => *b,
                                None => 0,
                            }
                        }
                        t => panic!("phi {:?}", t),
                    };
                    d.p.expect(b']');
                    v.push((b, o));
                    if d.p.peek() == Tok::P(b',') && d.p.peek_at(1) == Tok::P(b'[') {
                        d.p.i += 1;
                    } else {
                        break;
                    }
                }
                d.skip_trailing();
                cur.phis.push((r, ty, v));
                continue;
            }
            "extractvalue" => {
                let (ty, a) = d.tval();
                let mut idx = vec![];
                while d.p.peek() == Tok::P(b',') && matches!(d.p.peek_at(1), Tok::W(_)) {
                    d.p.i += 1;
                    idx.push(d.p.num() as u32);
                }
                Ins::ExtractV { dst: r, ty, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = d.tval();
                d.p.expect(b',');
                let (ety, v) = d.tval();
                let mut idx = vec![];
                while d.p.peek() == Tok::P(b',') && matches!(d.p.peek_at(1), Tok::W(_)) {
                    d.p.i += 1;
                    idx.push(d.p.num() as u32);
                }
                Ins::InsertV { dst: r, ty, a, ety, v, idx }
            }
            "extractelement" => {
                let (ty, a) = d.tval();
                d.p.expect(b',');
                let (_, i) = d.tval();
                Ins::ExtractE { dst: r, ty, a, i }
            }
            "insertelement" => {
                let (ty, a) = d.tval();
                d.p.expect(b',');
                let (_, v) = d.tval();
                d.p.expect(b',');
                let (_, i) = d.tval();
                Ins::InsertE { dst: r, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = d.tval();
                d.p.expect(b',');
                let (_, b) = d.tval();
                d.p.expect(b',');
                let mt = d.p.ty();
                let n = match &mt {
                    Ty::Vec(_, n) => *n,
                    _ => panic!(),
                };
                let mk = d.p.konst(&mt);
                let mask = match mk {
                    Const::Zero => vec![0; n as usize],
                    Const::Undef => vec![-1; n as usize],
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(v, _) => *v as i64,
                            _ => -1,
                        })
                        .collect(),
                    Const::Splat(b) => match b.1 {
                        Const::Int(v, _) => vec![v as i64; n as usize],
                        _ => vec![-1; n as usize],
                    },
                    _ => panic!("mask"),
                };
                Ins::Shuffle { dst: r, ty, a, b, mask }
            }
            "landingpad" => {
                let _ = d.p.ty();
                loop {
                    if d.p.eatw("cleanup") {
                    } else if d.p.peek() == Tok::W("catch") || d.p.peek() == Tok::W("filter") {
                        d.p.i += 1;
                        let _ = d.tval();
                    } else {
                        break;
                    }
                }
                Ins::LandingPad { dst: r }
            }
            "resume" => {
                let (_, v) = d.tval();
                Ins::Resume(v)
            }
            "ret" => {
                let t = d.p.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let v = d.val(&t);
                    Ins::Ret(Some((t, v)))
                }
            }
            "br" => {
                if d.p.peek() == Tok::W("label") {
                    let b = d.lbl();
                    Ins::Br(b)
                } else {
                    let (_, c) = d.tval();
                    d.p.expect(b',');
                    let a = d.lbl();
                    d.p.expect(b',');
                    let b = d.lbl();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = d.tval();
                d.p.expect(b',');
                let def = d.lbl();
                d.p.expect(b'[');
                let mut cases = vec![];
                while !d.p.eat(b']') {
                    let (_, k) = d.tval();
                    d.p.expect(b',');
                    let b = d.lbl();
                    if let Opd::I(k) = k {
                        cases.push((k, b));
                    }
                }
                Ins::Switch { w: t.bits(), v, def, cases }
            }
            "unreachable" => Ins::Unreachable,
            "atomicrmw" => {
                d.p.eatw("volatile");
                let o: Rc<str> = match d.p.next() {
                    Tok::W(w) => w.into(),
                    t => panic!("rmw {:?}", t),
                };
                let (_, ptr) = d.tval();
                d.p.expect(b',');
                let (ty, v) = d.tval();
                while let Tok::W(w) = d.p.peek() {
                    if matches!(w, "monotonic" | "acquire" | "release" | "seq_cst" | "acq_rel" | "syncscope") {
                        d.p.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::AtomicRmw { dst: r, op: o, ty, ptr, v }
            }
            "cmpxchg" => {
                d.p.eatw("weak");
                d.p.eatw("volatile");
                let (_, ptr) = d.tval();
                d.p.expect(b',');
                let (ty, cmp) = d.tval();
                d.p.expect(b',');
                let (_, new) = d.tval();
                while let Tok::W(w) = d.p.peek() {
                    if matches!(w, "monotonic" | "acquire" | "release" | "seq_cst" | "acq_rel" | "syncscope") {
                        d.p.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::CmpXchg { dst: r, ty, ptr, cmp, new }
            }
            "fence" => {
                while let Tok::W(w) = d.p.peek() {
                    if matches!(w, "monotonic" | "acquire" | "release" | "seq_cst" | "acq_rel" | "syncscope") {
                        d.p.i += 1;
                        if d.p.peek() == Tok::P(b'(') {
                            d.p.skip_group()
                        }
                    } else {
                        break;
                    }
                }
                Ins::Fence
            }
            _ => panic!("unsupported instruction {op} in {name}"),
        };
        d.skip_trailing();
        cur.ins.push(ins);
    }
    blocks.push(cur);
    let mut nregs = d.regs.len() as u32;
    for p in params.iter_mut() {
        if *p == u32::MAX {
            *p = nregs;
            nregs += 1;
        }
    }
    Func { name, params, nregs, blocks }
}

fn call<'a>(d: &mut D<'a>, dst: Option<u32>, invoke: bool) -> Ins {
    // fast-math flags, cconv, ret attrs
    d.p.skip_attrs_until_ty();
    let ret = d.p.ty();
    if d.p.peek() == Tok::P(b'(') {
        // function type
        d.p.skip_group();
    }
    let mut is_asm = false;
    let callee = match d.p.next() {
        Tok::G(g) => Callee::Name(g.into()),
        Tok::L(n) => Callee::Ind(Opd::R(d.reg(n))),
        Tok::W("asm") => {
            is_asm = true;
            while !matches!(d.p.peek(), Tok::P(b'(')) {
                d.p.i += 1;
            }
            Callee::Name("$asm".into())
        }
        Tok::W("inttoptr") => {
            d.p.i -= 1;
            let c = d.p.konst(&Ty::Ptr);
            Callee::Ind(Opd::K(Rc::new((Ty::Ptr, c))))
        }
        t => panic!("callee {:?}", t),
    };
    let _ = is_asm;
    d.p.expect(b'(');
    let mut args = vec![];
    if !d.p.eat(b')') {
        loop {
            let t = d.p.ty();
            if t != Ty::Meta {
                d.p.skip_param_attrs();
            }
            let v = d.val(&t);
            args.push((t, v));
            if d.p.eat(b')') {
                break;
            }
            d.p.expect(b',');
        }
    }
    // fn attrs / operand bundles
    loop {
        match d.p.peek() {
            Tok::A(_) => d.p.i += 1,
            Tok::P(b'[') => d.p.skip_group(),
            Tok::W(w) if !invoke && matches!(w, "nounwind" | "noreturn" | "cold" | "memory" | "willreturn") => {
                d.p.i += 1;
                if d.p.peek() == Tok::P(b'(') {
                    d.p.skip_group()
                }
            }
            Tok::W(w) if invoke && w != "to" => {
                d.p.i += 1;
                if d.p.peek() == Tok::P(b'(') {
                    d.p.skip_group()
                }
            }
            _ => break,
        }
    }
    let inv = if invoke {
        assert!(d.p.eatw("to"));
        let a = d.lbl();
        assert!(d.p.eatw("unwind"));
        let b = d.lbl();
        Some((a, b))
    } else {
        None
    };
    Ins::Call(Box::new(CallI { dst: if ret == Ty::Void { None } else { dst }, ret, callee, args, invoke: inv, target: std::cell::Cell::new(0) }))
}
