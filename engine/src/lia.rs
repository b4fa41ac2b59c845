//! Translation of a bit-vector query into integer arithmetic.  Every width-w term becomes an
//! integer term whose value is the unsigned reading of the bit-vector; wrap-around is explicit.
//! Division and remainder by constants are hard for bit-blasting and easy here.
use crate::expr::*;
use std::collections::HashSet;
use std::fmt::Write;

fn pow2(w: u32) -> String {
    if w < 128 {
        (1u128 << w).to_string()
    } else {
        "340282366920938463463374607431768211456".into()
    }
}

/// Worth trying: there is a wide division / remainder (`nonlinear`: or a product of two unknowns).
pub fn wants(p: &Pool, key: &[E]) -> (bool, bool) {
    let mut seen = HashSet::new();
    let order = p.post_order(key, &mut |e| !seen.insert(e));
    let (mut div, mut mul) = (false, false);
    for e in order {
        let n = p.n[e as usize];
        match n.op {
            Op::URem | Op::UDiv | Op::SRem | Op::SDiv if n.w >= 16 => {
                div = true;
                if p.as_k(n.b).is_none() {
                    mul = true
                }
            }
            Op::Mul if n.w >= 16 && p.as_k(n.a).is_none() && p.as_k(n.b).is_none() => mul = true,
            _ => {}
        }
    }
    (div, mul)
}

/// A product of two unknowns left abstract: the node and its operands.
pub struct Prod {
    pub e: E,
    pub a: String,
    pub b: String,
}

pub fn script(p: &mut Pool, key: &[E]) -> Option<(String, Vec<u32>)> {
    let (s, vs, _) = script_abs(p, key, false)?;
    Some((s, vs))
}

/// With `abs`, products of two unknowns (at most 64 bits each, in 128 bits) become unknowns
/// themselves, constrained by facts that hold for every product.
pub fn script_abs(p: &mut Pool, key: &[E], abs: bool) -> Option<(String, Vec<u32>, Vec<Prod>)> {
    let mut prods = vec![];
    let mut seen = HashSet::new();
    let order = p.post_order(key, &mut |e| !seen.insert(e));
    let mut s = String::new();
    let mut vs = vec![];
    let nm = |p: &Pool, e: E| -> String {
        let n = &p.n[e as usize];
        match n.op {
            Op::Const if n.w == 1 => (if n.k == 1 { "true" } else { "false" }).into(),
            Op::Const => n.k.to_string(),
            Op::Var => format!("v{}", n.a),
            _ => format!("n{e}"),
        }
    };
    // as integer, even for width 1
    let it = |p: &Pool, e: E| -> String {
        if p.w(e) == 1 {
            format!("(ite {} 1 0)", nm(p, e))
        } else {
            nm(p, e)
        }
    };
    let sg = |p: &Pool, e: E| -> String {
        let w = p.w(e);
        if p.hi(e) < 1u128 << (w - 1) {
            return it(p, e);
        }
        let x = it(p, e);
        format!("(ite (>= {x} {}) (- {x} {}) {x})", pow2(w - 1), pow2(w))
    };
    for e in order {
        let n = p.n[e as usize];
        let w = n.w;
        if w > 128 {
            return None;
        }
        let m = pow2(w);
        let body = match n.op {
            Op::Const => continue,
            Op::Var => {
                vs.push(n.a);
                if w == 1 {
                    let _ = writeln!(s, "(declare-const v{} Bool)", n.a);
                } else {
                    let _ = writeln!(s, "(declare-const v{0} Int)\n(assert (and (<= 0 v{0}) (< v{0} {m})))", n.a);
                }
                continue;
            }
            Op::Add | Op::Sub if w == 1 => format!("(xor {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Mul if w == 1 => format!("(and {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Add => {
                let (a, b) = (nm(p, n.a), nm(p, n.b));
                // adding a "negative" constant is a subtraction
                let neg = [(n.a, n.b), (n.b, n.a)].into_iter().find_map(|(k, x)| p.as_k(k).filter(|k| *k >= 1u128 << (w - 1)).map(|k| (k, x)));
                if let Some((k, x)) = neg {
                    let d = if w < 128 { (1u128 << w) - k } else { k.wrapping_neg() };
                    let x = nm(p, x);
                    format!("(ite (>= {x} {d}) (- {x} {d}) (+ (- {x} {d}) {m}))")
                } else if w < 128 && p.hi(n.a).checked_add(p.hi(n.b)).is_some_and(|h| h < 1u128 << w) {
                    format!("(+ {a} {b})")
                } else {
                    format!("(let ((s (+ {a} {b}))) (ite (>= s {m}) (- s {m}) s))")
                }
            }
            Op::Sub => {
                let (a, b) = (nm(p, n.a), nm(p, n.b));
                if p.lo(n.a) >= p.hi(n.b) {
                    format!("(- {a} {b})")
                } else {
                    format!("(let ((d (- {a} {b}))) (ite (>= d 0) d (+ d {m})))")
                }
            }
            Op::Mul if abs && p.as_k(n.a).is_none() && p.as_k(n.b).is_none() => {
                if w != 128 || p.hi(n.a) > u64::MAX as u128 || p.hi(n.b) > u64::MAX as u128 {
                    return None;
                }
                let (a, b) = (nm(p, n.a), nm(p, n.b));
                let (ha, hb) = (p.hi(n.a), p.hi(n.b));
                let (la, lb) = (p.lo(n.a), p.lo(n.b));
                let _ = writeln!(
                    s,
                    "(declare-const n{e} Int)\n(assert (<= 0 n{e}))\n(assert (= (= n{e} 0) (or (= {a} 0) (= {b} 0))))\n(assert (=> (= {a} 1) (= n{e} {b})))\n(assert (=> (= {b} 1) (= n{e} {a})))\n(assert (=> (>= {a} 2) (>= n{e} (* 2 {b}))))\n(assert (=> (>= {b} 2) (>= n{e} (* 2 {a}))))\n(assert (<= n{e} (* {hb} {a})))\n(assert (<= n{e} (* {ha} {b})))\n(assert (>= n{e} (* {lb} {a})))\n(assert (>= n{e} (* {la} {b})))"
                );
                prods.push(Prod { e, a, b });
                continue;
            }
            Op::Mul => {
                let k = [(n.a, n.b), (n.b, n.a)].into_iter().find_map(|(k, x)| p.as_k(k).map(|k| (k, x)));
                match k {
                    Some((k, x)) if k >= 1u128 << (w - 1) => {
                        let d = if w < 128 { (1u128 << w) - k } else { k.wrapping_neg() };
                        format!("(mod (* (- {d}) {}) {m})", nm(p, x))
                    }
                    Some((k, x)) if w < 128 && p.hi(x).checked_mul(k).is_some_and(|h| h < 1u128 << w) => format!("(* {k} {})", nm(p, x)),
                    Some((k, x)) => format!("(mod (* {k} {}) {m})", nm(p, x)),
                    None if w < 128 && p.hi(n.a).checked_mul(p.hi(n.b)).is_some_and(|h| h < 1u128 << w) => format!("(* {} {})", nm(p, n.a), nm(p, n.b)),
                    None if w == 128 && p.hi(n.a).checked_mul(p.hi(n.b)).is_some() => format!("(* {} {})", nm(p, n.a), nm(p, n.b)),
                    None => format!("(mod (* {} {}) {m})", nm(p, n.a), nm(p, n.b)),
                }
            }
            Op::UDiv | Op::URem => {
                let (a, b) = (it(p, n.a), it(p, n.b));
                let o = if n.op == Op::UDiv { "div" } else { "mod" };
                let d = format!("({o} {a} {b})");
                let r = if p.lo(n.b) > 0 {
                    d
                } else {
                    let z = if n.op == Op::UDiv { format!("(- {m} 1)") } else { a.clone() };
                    format!("(ite (= {b} 0) {z} {d})")
                };
                if w == 1 {
                    format!("(= 1 {r})")
                } else {
                    r
                }
            }
            Op::SDiv | Op::SRem => {
                if w == 1 || p.as_k(n.b).is_none_or(|k| k == 0) {
                    return None;
                }
                let (a, b) = (sg(p, n.a), sg(p, n.b));
                if n.op == Op::SRem {
                    // sign of the dividend
                    format!("(let ((a {a}) (b {b})) (let ((r (mod (abs a) (abs b)))) (ite (and (< a 0) (> r 0)) (- {m} r) r)))")
                } else {
                    format!("(let ((a {a}) (b {b})) (let ((q (div (abs a) (abs b)))) (ite (and (not (= (< a 0) (< b 0))) (> q 0)) (- {m} q) (ite (>= q {m}) (- q {m}) q))))")
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                let k = p.as_k(n.b)? as u32;
                if k >= w || w == 1 {
                    return None;
                }
                match n.op {
                    Op::Shl => format!("(mod (* {} {}) {m})", pow2(k), nm(p, n.a)),
                    Op::LShr => format!("(div {} {})", nm(p, n.a), pow2(k)),
                    _ => format!("(let ((q (div {} {}))) (ite (< q 0) (+ q {m}) q))", sg(p, n.a), pow2(k)),
                }
            }
            Op::And if w == 1 => format!("(and {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Or if w == 1 => format!("(or {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Xor if w == 1 => format!("(xor {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Not if w == 1 => format!("(not {})", nm(p, n.a)),
            Op::Not => format!("(- (- {m} 1) {})", nm(p, n.a)),
            Op::And => {
                let (k, x) = [(n.a, n.b), (n.b, n.a)].into_iter().find_map(|(k, x)| p.as_k(k).map(|k| (k, x)))?;
                if k & (k.wrapping_add(1)) == 0 && k != u128::MAX {
                    format!("(mod {} {})", nm(p, x), k + 1)
                } else {
                    // a mask of high bits
                    let low = !k & ones(w);
                    if low & low.wrapping_add(1) != 0 {
                        return None;
                    }
                    let x = nm(p, x);
                    format!("(- {x} (mod {x} {}))", low + 1)
                }
            }
            Op::Or | Op::Xor => return None,
            Op::Concat => {
                let r = format!("(+ (* {} {}) {})", pow2(p.w(n.b)), it(p, n.a), it(p, n.b));
                r
            }
            Op::Extract => {
                let a = it(p, n.a);
                let q = if n.k == 0 { a } else { format!("(div {a} {})", pow2(n.k as u32)) };
                let r = if n.k as u32 + w == p.w(n.a) { q } else { format!("(mod {q} {m})") };
                if w == 1 {
                    format!("(= 1 {r})")
                } else {
                    r
                }
            }
            Op::ZExt => it(p, n.a),
            Op::SExt => {
                let a = sg(p, n.a);
                if p.w(n.a) == 1 {
                    format!("(ite {} (- {m} 1) 0)", nm(p, n.a))
                } else {
                    format!("(let ((q {a})) (ite (< q 0) (+ q {m}) q))")
                }
            }
            Op::Eq => format!("(= {} {})", nm(p, n.a), nm(p, n.b)),
            Op::Ult => format!("(< {} {})", it(p, n.a), it(p, n.b)),
            Op::Slt => {
                if p.w(n.a) == 1 {
                    return None;
                }
                format!("(< {} {})", sg(p, n.a), sg(p, n.b))
            }
            Op::Ite => format!("(ite {} {} {})", nm(p, n.a), nm(p, n.b), nm(p, n.c)),
            _ => return None,
        };
        let sort = if w == 1 { "Bool" } else { "Int" };
        let _ = writeln!(s, "(define-fun n{e} () {sort} {body})");
    }
    for e in key {
        let _ = writeln!(s, "(assert {})", nm(p, *e));
    }
    Some((s, vs, prods))
}
