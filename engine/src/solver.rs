//! SMT back end: one incremental z3 process for ordinary queries, a portfolio of fresh
//! non-incremental solvers for the ones it does not decide in time.
use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    fn spawn(cmd: &str, args: &[&str]) -> Option<Proc> {
        let mut child = Command::new(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Some(Proc { child, stdin, rx })
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill()
    }
}

pub struct Solver {
    proc: Option<Proc>,
    iproc: Option<Proc>,
    gen: u64,
    defined: Vec<bool>,
    ndef: usize,
    pub t_fast_ms: u64,
    pub t_slow_s: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_fallback: u64,
    pub q_cached: u64,
    pub time: Duration,
    pub max_time: Duration,
    pub errors: Vec<String>,
    cache: HashMap<Vec<E>, Ans>,
    pub primary: String,
    pub dump: Option<String>,
    pub deadline: Option<Instant>,
    pub fallback_wins: HashMap<String, u64>,
}

const PROLOGUE: &str = "(declare-fun frem32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))\n(declare-fun frem64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))\n";
fn fun_prologue() -> String {
    let mut s = String::from(PROLOGUE);
    for k in 0..6 {
        for w in [32, 64] {
            s.push_str(&format!("(declare-fun fun{k}_{w} ((_ BitVec {w})) (_ BitVec {w}))\n"));
        }
    }
    s
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            proc: None,
            iproc: None,
            gen: u64::MAX,
            defined: vec![],
            ndef: 0,
            t_fast_ms: 1500,
            t_slow_s: 60,
            q_sat: 0,
            q_unsat: 0,
            q_unknown: 0,
            q_fallback: 0,
            q_cached: 0,
            time: Duration::ZERO,
            max_time: Duration::ZERO,
            errors: vec![],
            cache: HashMap::new(),
            primary: "z3-new".into(),
            dump: None,
            deadline: None,
            fallback_wins: HashMap::new(),
        }
    }
    fn start(&mut self) {
        self.proc = None;
        let mut p = Proc::spawn(&self.primary, &["-in", "-smt2"]);
        if p.is_none() {
            p = Proc::spawn("z3", &["-in", "-smt2"]);
        }
        let mut p = p.expect("no z3");
        let _ = write!(p.stdin, "(set-option :timeout {})\n(set-option :print-success false)\n{}", self.t_fast_ms, fun_prologue());
        self.proc = Some(p);
        self.defined.clear();
        self.ndef = 0;
    }
    /// satisfiability of the conjunction of `cs` (each width-1 expr)
    pub fn check(&mut self, p: &mut Pool, cs: &[E]) -> Ans {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(a) = self.cache.get(&key) {
            self.q_cached += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        let (div, mul) = crate::lia::wants(p, &key);
        let mut a = Ans::Unknown;
        if div && !mul {
            a = self.check_int(p, &key, 2000);
        }
        if mul {
            a = self.check_prod(p, &key);
        }
        if let Ans::Unknown = a {
            a = self.check_fast(p, &key);
        }
        if mul && matches!(a, Ans::Unknown) {
            a = self.check_int(p, &key, 5000);
        }
        if let Ans::Unknown = a {
            self.q_fallback += 1;
            a = self.check_slow(p, &key);
        }
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &a {
            Ans::Sat(_) => self.q_sat += 1,
            Ans::Unsat => self.q_unsat += 1,
            Ans::Unknown => self.q_unknown += 1,
        }
        self.cache.insert(key, a.clone());
        a
    }
    /// one script to the integer process: Some(Ok(values)) sat, Some(Err(true)) unsat,
    /// Some(Err(false)) undecided, None when the process had to be given up
    fn ask_int(&mut self, body: &str, ms: u64, names: &[String]) -> Option<Result<Vec<u128>, bool>> {
        if self.iproc.is_none() {
            self.iproc = Proc::spawn(&self.primary, &["-in", "-smt2"]).or_else(|| Proc::spawn("z3", &["-in", "-smt2"]));
        }
        let pr = self.iproc.as_mut()?;
        let mut s = format!("(reset)\n(set-option :timeout {ms})\n{body}(check-sat)\n(echo \"done\")\n");
        if let Ok(f) = std::env::var("VT_SMTLOG") {
            use std::fs::OpenOptions;
            let _ = OpenOptions::new().create(true).append(true).open(format!("{f}.int")).map(|mut f| f.write_all(s.as_bytes()));
        }
        let lim = Duration::from_millis(ms + 3000);
        let mut ask = |s: &str| -> Option<String> {
            pr.stdin.write_all(s.as_bytes()).ok()?;
            pr.stdin.flush().ok()?;
            let mut t = String::new();
            loop {
                let l = pr.rx.recv_timeout(lim).ok()?;
                if l.trim().trim_matches('"') == "done" {
                    return Some(t);
                }
                t.push_str(&l);
                t.push('\n');
            }
        };
        let Some(r) = ask(&s) else {
            self.iproc = None;
            return None;
        };
        if r.contains("error") {
            self.errors.push(format!("int: {r}"));
            self.iproc = None;
            return None;
        }
        match r.trim() {
            "unsat" => Some(Err(true)),
            "sat" => {
                if names.is_empty() {
                    return Some(Ok(vec![]));
                }
                s.clear();
                s.push_str(&format!("(get-value ({}))\n(echo \"done\")\n", names.join(" ")));
                let Some(t) = ask(&s) else {
                    self.iproc = None;
                    return None;
                };
                let cleaned: String = t.chars().map(|c| if c == '(' || c == ')' { ' ' } else { c }).collect();
                let mut it = cleaned.split_whitespace();
                let mut vals = vec![];
                for n in names {
                    // the echoed term may be more than one word when it is a literal; names are not
                    if it.next() != Some(n.as_str()) {
                        return Some(Err(false));
                    }
                    vals.push(match it.next() {
                        Some("true") => 1,
                        Some("false") => 0,
                        Some(x) => match x.parse::<u128>() {
                            Ok(k) => k,
                            Err(_) => return Some(Err(false)),
                        },
                        None => return Some(Err(false)),
                    });
                }
                Some(Ok(vals))
            }
            _ => Some(Err(false)),
        }
    }
    /// evaluates before believing
    fn model_ok(&mut self, p: &mut Pool, key: &[E], vs: &[u32], vals: &[u128]) -> bool {
        self.gen -= 1;
        let mut v = vec![0u128; p.var_w.len()];
        for (i, k) in vs.iter().zip(vals) {
            v[*i as usize] = *k;
        }
        let m = Model { id: self.gen, v };
        key.iter().all(|e| p.eval(*e, &m) == 1)
    }
    /// the query over the integers, in a second z3 process; models are checked by evaluation
    fn check_int(&mut self, p: &mut Pool, key: &[E], ms: u64) -> Ans {
        let Some((body, vs)) = crate::lia::script(p, key) else { return Ans::Unknown };
        let names: Vec<String> = vs.iter().map(|v| format!("v{v}")).collect();
        match self.ask_int(&body, ms, &names) {
            Some(Err(true)) => {
                *self.fallback_wins.entry("z3 integers".into()).or_default() += 1;
                Ans::Unsat
            }
            Some(Ok(vals)) => {
                if self.model_ok(p, key, &vs, &vals) {
                    *self.fallback_wins.entry("z3 integers".into()).or_default() += 1;
                    Ans::Sat(vs.into_iter().zip(vals).collect())
                } else {
                    self.errors.push("int: a model of the integer translation does not satisfy the query".into());
                    Ans::Unknown
                }
            }
            _ => Ans::Unknown,
        }
    }
    /// products of unknowns by incremental linearisation: the product is an unknown of its own,
    /// refined by facts about the spurious values found; a model is accepted after evaluation
    fn check_prod(&mut self, p: &mut Pool, key: &[E]) -> Ans {
        let Some((mut body, vs, prods)) = crate::lia::script_abs(p, key, true) else { return Ans::Unknown };
        if prods.is_empty() {
            return Ans::Unknown;
        }
        let mut names: Vec<String> = vs.iter().map(|v| format!("v{v}")).collect();
        for q in &prods {
            names.extend([q.a.clone(), q.b.clone(), format!("n{}", q.e)]);
        }
        let start = Instant::now();
        for _round in 0..12 {
            if start.elapsed() > Duration::from_secs(6) {
                break;
            }
            match self.ask_int(&body, 1000, &names) {
                Some(Err(true)) => {
                    *self.fallback_wins.entry("z3 linearised".into()).or_default() += 1;
                    return Ans::Unsat;
                }
                Some(Ok(vals)) => {
                    let (xs, ps) = vals.split_at(vs.len());
                    if self.model_ok(p, key, &vs, xs) {
                        *self.fallback_wins.entry("z3 linearised".into()).or_default() += 1;
                        return Ans::Sat(vs.into_iter().zip(xs.iter().copied()).collect());
                    }
                    // the same query with one factor of every product fixed
                    for side in 0..2 {
                        let mut fixed = body.clone();
                        for (i, q) in prods.iter().enumerate() {
                            let k = ps[3 * i + side];
                            let (f, o) = if side == 0 { (&q.a, &q.b) } else { (&q.b, &q.a) };
                            fixed.push_str(&format!("(assert (and (= {f} {k}) (= n{} (* {k} {o}))))\n", q.e));
                        }
                        if let Some(Ok(vals)) = self.ask_int(&fixed, 500, &names) {
                            let xs = &vals[..vs.len()];
                            if self.model_ok(p, key, &vs, xs) {
                                *self.fallback_wins.entry("z3 linearised".into()).or_default() += 1;
                                return Ans::Sat(vs.into_iter().zip(xs.iter().copied()).collect());
                            }
                        }
                    }
                    let mut news = false;
                    for (i, q) in prods.iter().enumerate() {
                        let (a0, b0, p0) = (ps[3 * i], ps[3 * i + 1], ps[3 * i + 2]);
                        let Some(r0) = a0.checked_mul(b0) else { return Ans::Unknown };
                        if p0 == r0 {
                            continue;
                        }
                        news = true;
                        let (a, b, n) = (&q.a, &q.b, format!("n{}", q.e));
                        body.push_str(&format!(
                            "(assert (=> (= {a} {a0}) (= {n} (* {a0} {b}))))\n(assert (=> (= {b} {b0}) (= {n} (* {b0} {a}))))\n(assert (let ((t (- (+ (* {a0} {b}) (* {b0} {a})) {r0}))) (and (=> (or (and (> {a} {a0}) (< {b} {b0})) (and (< {a} {a0}) (> {b} {b0}))) (< {n} t)) (=> (or (and (< {a} {a0}) (< {b} {b0})) (and (> {a} {a0}) (> {b} {b0}))) (> {n} t)))))\n"
                        ));
                    }
                    if !news {
                        return Ans::Unknown;
                    }
                }
                _ => return Ans::Unknown,
            }
        }
        Ans::Unknown
    }
    fn vars_of(p: &mut Pool, key: &[E]) -> Vec<u32> {
        let mut vs: Vec<u32> = vec![];
        for e in key {
            vs.extend(p.vars(*e).iter());
        }
        vs.sort();
        vs.dedup();
        vs
    }
    fn check_fast(&mut self, p: &mut Pool, key: &[E]) -> Ans {
        if self.proc.is_none() || self.ndef > 60_000 {
            self.start();
        }
        let vs = Self::vars_of(p, key);
        self.defined.resize(p.n.len(), false);
        let mut s = String::new();
        {
            let d = &mut self.defined;
            let order = p.post_order(key, &mut |e| std::mem::replace(&mut d[e as usize], true));
            self.ndef += order.len();
            for e in order {
                p.smt_def(e, &mut s);
            }
        }
        s.push_str("(push 1)\n");
        for e in key {
            s.push_str(&format!("(assert {})\n", p.smt_ref(*e)));
        }
        s.push_str("(check-sat)\n(echo \"done\")\n");
        if let Ok(f) = std::env::var("VT_SMTLOG") {
            use std::fs::OpenOptions;
            let _ = OpenOptions::new().create(true).append(true).open(f).map(|mut f| f.write_all(format!("{s}(pop 1)\n").as_bytes()));
        }
        let lim = Duration::from_millis(self.t_fast_ms + 3000);
        let pr = self.proc.as_mut().unwrap();
        if pr.stdin.write_all(s.as_bytes()).is_err() || pr.stdin.flush().is_err() {
            self.proc = None;
            return Ans::Unknown;
        }
        let mut res = Ans::Unknown;
        loop {
            match pr.rx.recv_timeout(lim) {
                Ok(l) => {
                    let l = l.trim();
                    match l {
                        "sat" => res = Ans::Sat(vec![]),
                        "unsat" => res = Ans::Unsat,
                        "unknown" | "timeout" => res = Ans::Unknown,
                        "done" | "\"done\"" => break,
                        _ => {
                            if l.contains("error") {
                                self.errors.push(l.to_string());
                                self.proc = None;
                                return Ans::Unknown;
                            }
                        }
                    }
                }
                Err(_) => {
                    self.proc = None;
                    return Ans::Unknown;
                }
            }
        }
        if let Ans::Sat(_) = res {
            if !vs.is_empty() {
                let mut q = String::from("(get-value (");
                for v in &vs {
                    q.push_str(&format!("v{v} "));
                }
                q.push_str("))\n(echo \"done\")\n");
                let _ = pr.stdin.write_all(q.as_bytes());
                let _ = pr.stdin.flush();
                let mut txt = String::new();
                loop {
                    match pr.rx.recv_timeout(lim) {
                        Ok(l) => {
                            if l.trim().trim_matches('"') == "done" {
                                break;
                            }
                            txt.push_str(&l);
                            txt.push(' ');
                        }
                        Err(_) => {
                            self.proc = None;
                            return Ans::Unknown;
                        }
                    }
                }
                if txt.contains("error") {
                    self.errors.push(txt);
                    self.proc = None;
                    return Ans::Unknown;
                }
                res = Ans::Sat(parse_values(&txt));
            }
        }
        let pr = self.proc.as_mut().unwrap();
        let _ = pr.stdin.write_all(b"(pop 1)\n");
        res
    }
    pub fn script(p: &mut Pool, key: &[E], logic: Option<&str>) -> (String, Vec<u32>, bool) {
        let vs = Self::vars_of(p, key);
        let mut seen = std::collections::HashSet::new();
        let order = p.post_order(key, &mut |e| !seen.insert(e));
        let mut fp = false;
        let mut s = String::new();
        for e in &order {
            fp |= p.has_fp(*e);
        }
        s.push_str("(set-option :produce-models true)\n");
        if let (Some(l), false) = (logic, fp) {
            s.push_str(&format!("(set-logic {l})\n"));
        }
        if fp {
            s.push_str(&fun_prologue());
        }
        for e in &order {
            p.smt_def(*e, &mut s);
        }
        for e in key {
            s.push_str(&format!("(assert {})\n", p.smt_ref(*e)));
        }
        s.push_str("(check-sat)\n");
        if !vs.is_empty() {
            s.push_str("(get-value (");
            for v in &vs {
                s.push_str(&format!("v{v} "));
            }
            s.push_str("))\n");
        }
        s.push_str("(exit)\n");
        (s, vs, fp)
    }
    fn check_slow(&mut self, p: &mut Pool, key: &[E]) -> Ans {
        let (s, _vs, fp) = Self::script(p, key, Some("QF_BV"));
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{d}/q{}.smt2", self.q_fallback), &s);
        }
        let mut t = self.t_slow_s;
        if let Some(d) = self.deadline {
            t = t.min(d.saturating_duration_since(Instant::now()).as_secs().max(1));
        }
        let tz = format!("-T:{t}");
        let tc = format!("--tlimit={}", t * 1000);
        let mut cmds: Vec<(&str, Vec<&str>)> = vec![("z3-new", vec!["-in", "-smt2", &tz]), ("z3", vec!["-in", "-smt2", &tz])];
        if !fp {
            cmds.push(("cvc5", vec!["--lang=smt2", &tc, "-"]));
            cmds.push(("cvc5", vec!["--lang=smt2", "--solve-bv-as-int=sum", &tc, "-"]));
        }
        let (tx, rx) = channel::<(usize, Ans)>();
        let mut kids = vec![];
        for (i, (c, a)) in cmds.iter().enumerate() {
            let ch = Command::new(c).args(a).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            let mut ch = match ch {
                Ok(c) => c,
                Err(_) => continue,
            };
            let mut inp = ch.stdin.take().unwrap();
            let out = ch.stdout.take().unwrap();
            let s2 = s.clone();
            std::thread::spawn(move || {
                let _ = inp.write_all(s2.as_bytes());
            });
            let tx = tx.clone();
            std::thread::spawn(move || {
                let mut txt = String::new();
                for l in BufReader::new(out).lines().map_while(Result::ok) {
                    txt.push_str(&l);
                    txt.push('\n');
                }
                let first = txt.lines().next().unwrap_or("").trim().to_string();
                let a = match first.as_str() {
                    "sat" => {
                        let rest = &txt[txt.find('\n').unwrap_or(0)..];
                        if rest.contains("error") {
                            Ans::Unknown
                        } else {
                            Ans::Sat(parse_values(rest))
                        }
                    }
                    "unsat" => Ans::Unsat,
                    _ => Ans::Unknown,
                };
                let _ = tx.send((i, a));
            });
            kids.push(ch);
        }
        drop(tx);
        let end = Instant::now() + Duration::from_secs(t + 5);
        let mut res = Ans::Unknown;
        let mut left = kids.len();
        while left > 0 {
            match rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok((i, a)) => {
                    left -= 1;
                    if !matches!(a, Ans::Unknown) {
                        *self.fallback_wins.entry(format!("{} {}", cmds[i].0, if i == 3 { "int" } else { "" })).or_default() += 1;
                        res = a;
                        break;
                    }
                }
                Err(_) => break,
            }
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        res
    }
}

fn parse_values(t: &str) -> Vec<(u32, u128)> {
    // ((v1 #x00) (v2 true) (v3 (_ bv5 8)))
    let mut out = vec![];
    let cleaned: String = t.chars().map(|c| if c == '(' || c == ')' { ' ' } else { c }).collect();
    let mut it = cleaned.split_whitespace().peekable();
    while let Some(w) = it.next() {
        if let Some(n) = w.strip_prefix('v') {
            if let Ok(v) = n.parse::<u32>() {
                let mut val = it.next().unwrap_or("");
                if val == "_" {
                    val = it.next().unwrap_or("");
                }
                let k = if val == "true" {
                    1
                } else if val == "false" {
                    0
                } else if let Some(h) = val.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).unwrap_or(0)
                } else if let Some(h) = val.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).unwrap_or(0)
                } else if let Some(h) = val.strip_prefix("bv") {
                    h.parse().unwrap_or(0)
                } else {
                    0
                };
                out.push((v, k));
            }
        }
    }
    out
}
