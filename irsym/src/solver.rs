//! SMT-LIB back end: one incremental z3 process per task, plus a one-shot portfolio for queries
//! that the incremental solver leaves open.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Res { Sat, Unsat, Unknown }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub portfolio: u64,
    pub pruned: u64,
    pub time: f64,
}

struct Frame {
    lit: Id,
    seen: Vec<Id>,
    ufs: usize,
}

pub struct Solver {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    emitted: HashSet<Id>,
    stack: Vec<Frame>,
    seen: HashSet<Id>,
    ufs: Vec<(Uf, Id)>,
    pub stats: Stats,
    pub log: Option<std::fs::File>,
    timeout_set: u64,
    dead: bool,
}

pub fn real_lit(v: f64) -> String {
    let neg = v < 0.0;
    let a = v.abs();
    let s = if a == 0.0 {
        "0.0".to_string()
    } else if a.fract() == 0.0 && a < 1e18 {
        format!("{}.0", a as u64)
    } else {
        let e = ((a.to_bits() >> 52) & 0x7ff) as i64 - 1023;
        let digits = (52 - e).clamp(1, 1080) as usize;
        let t = format!("{:.*}", digits, a);
        let t = t.trim_end_matches('0');
        if t.ends_with('.') { format!("{t}0") } else { t.to_string() }
    };
    if neg { format!("(- {s})") } else { s }
}
fn int_lit(v: i128) -> String { if v < 0 { format!("(- {})", v.unsigned_abs()) } else { v.to_string() } }

pub fn nm(ar: &Arena, id: Id) -> String {
    match ar.n[id as usize].k {
        K::IConst(v) => int_lit(v),
        K::RConst(b) => real_lit(f64::from_bits(b)),
        K::B(b) => b.to_string(),
        _ => format!("n{id}"),
    }
}

fn body(ar: &Arena, id: Id) -> Option<String> {
    use K::*;
    let n = |x: Id| nm(ar, x);
    Some(match ar.n[id as usize].k {
        IAdd(a, b) | RAdd(a, b) => format!("(+ {} {})", n(a), n(b)),
        ISub(a, b) | RSub(a, b) => format!("(- {} {})", n(a), n(b)),
        IMul(a, b) | RMul(a, b) => format!("(* {} {})", n(a), n(b)),
        RDiv(a, b) => format!("(/ {} {})", n(a), n(b)),
        IDiv(a, m) => format!("(div {} {})", n(a), m),
        IMod(a, m) => format!("(mod {} {})", n(a), m),
        Narrow(a, ..) => n(a),
        IIte(c, a, b) | RIte(c, a, b) => format!("(ite {} {} {})", n(c), n(a), n(b)),
        Floor(a) => format!("(to_int {})", n(a)),
        RNeg(a) => format!("(- {})", n(a)),
        ToReal(a) => format!("(to_real {})", n(a)),
        Not(a) => format!("(not {})", n(a)),
        And(a, b) => format!("(and {} {})", n(a), n(b)),
        Or(a, b) => format!("(or {} {})", n(a), n(b)),
        ILe(a, b) | RLe(a, b) => format!("(<= {} {})", n(a), n(b)),
        ILt(a, b) | RLt(a, b) => format!("(< {} {})", n(a), n(b)),
        IEq(a, b) | REq(a, b) => format!("(= {} {})", n(a), n(b)),
        _ => return None,
    })
}

/// defining text of a node: a declaration or a definition
fn def(ar: &Arena, id: Id) -> String {
    match body(ar, id) {
        Some(b) => {
            let s = match ar.sort(id) { Sort::Bool => "Bool", Sort::Int => "Int", Sort::Real => "Real" };
            format!("(define-fun n{id} () {s} {b})\n")
        }
        None => {
            let s = match ar.sort(id) { Sort::Int => "Int", _ => "Real" };
            format!("(declare-fun n{id} () {s})\n")
        }
    }
}

fn is_const(k: &K) -> bool { matches!(k, K::IConst(_) | K::RConst(_) | K::B(_)) }

/// nodes of the cone of `id` in dependency order, skipping those `done`
fn cone(ar: &Arena, id: Id, done: &mut HashSet<Id>, out: &mut Vec<Id>) {
    let mut st = vec![(id, false)];
    while let Some((x, ex)) = st.pop() {
        let k = ar.n[x as usize].k;
        if is_const(&k) { continue; }
        if ex { out.push(x); continue; }
        if !done.insert(x) { continue; }
        st.push((x, true));
        if matches!(k, K::Err(..)) { continue; }
        for c in Arena::children(&k).into_iter().flatten() {
            st.push((c, false));
        }
    }
}

fn lip(k: Uf, lo: f64, hi: f64) -> Option<f64> {
    Some(match k {
        Uf::Sin | Uf::Cos | Uf::Tanh | Uf::Atan => 1.0,
        Uf::Exp if hi.is_finite() && hi < 600.0 => hi.exp() * 1.0001,
        Uf::Exp2 if hi.is_finite() && hi < 600.0 => hi.exp2() * 0.7,
        Uf::Sinh | Uf::Cosh if lo.is_finite() && hi.is_finite() => lo.abs().max(hi.abs()).cosh() * 1.0001,
        Uf::Ln if lo > 0.0 => 1.0001 / lo,
        Uf::Log10 if lo > 0.0 => 0.4344 / lo,
        Uf::Log2 if lo > 0.0 => 1.4428 / lo,
        _ => return None,
    })
}

/// on a short interval of one curvature the function lies between its tangents and its chord
fn curve(ar: &Arena, k: Uf, b: Id, lo: f64, hi: f64, u: &str, x: &str, o: &mut Vec<String>) {
    if !(lo.is_finite() && hi.is_finite() && hi > lo && hi - lo <= 2.0) { return; }
    let e = ar.rcv(b).unwrap_or(f64::NAN);
    let convex = match k {
        Uf::Exp | Uf::Exp2 | Uf::Cosh => true,
        Uf::Ln | Uf::Log10 | Uf::Log2 if lo > 0.0 && hi <= 4.0 * lo => false,
        Uf::Tanh | Uf::Atan if lo >= 0.0 => false,
        Uf::Tanh | Uf::Atan if hi <= 0.0 => true,
        Uf::Sinh if lo >= 0.0 => true,
        Uf::Sinh if hi <= 0.0 => false,
        Uf::Pow if lo > 0.0 && hi <= 4.0 * lo && e.is_finite() && e.abs() < 50.0 => !(0.0..=1.0).contains(&e),
        _ => return,
    };
    let f = |x: f64| match k {
        Uf::Exp => x.exp(), Uf::Exp2 => x.exp2(), Uf::Cosh => x.cosh(), Uf::Ln => x.ln(), Uf::Log10 => x.log10(), Uf::Log2 => x.log2(),
        Uf::Tanh => x.tanh(), Uf::Atan => x.atan(), Uf::Sinh => x.sinh(), _ => x.powf(e),
    };
    let d = |x: f64| match k {
        Uf::Exp => x.exp(), Uf::Exp2 => x.exp2() * std::f64::consts::LN_2, Uf::Cosh => x.sinh(), Uf::Ln => 1.0 / x, Uf::Log10 => std::f64::consts::LOG10_E / x, Uf::Log2 => std::f64::consts::LOG2_E / x,
        Uf::Tanh => 1.0 - x.tanh() * x.tanh(), Uf::Atan => 1.0 / (1.0 + x * x), Uf::Sinh => x.cosh(), _ => e * x.powf(e - 1.0),
    };
    let big = f(lo).abs().max(f(hi).abs()) + (d(lo).abs().max(d(hi).abs())) * lo.abs().max(hi.abs());
    if !(big < 1e12) { return; }
    let sl = big * 1e-12 + 1e-300;
    let (below, above) = if convex { (">=", "<=") } else { ("<=", ">=") };
    let sg = if convex { -1.0 } else { 1.0 };
    for c in [lo, 0.5 * (lo + hi), hi] {
        o.push(format!("({below} {u} (+ {} (* {} (- {x} {}))))", real_lit(f(c) + sg * sl), real_lit(d(c)), real_lit(c)));
    }
    let m = (f(hi) - f(lo)) / (hi - lo);
    // (the quotient loses digits on very short intervals)
    let sl = sl + 4e-16 * big / (hi - lo) * (hi - lo).max(0.0) + 1e-15 * big;
    if m.is_finite() { o.push(format!("({above} {u} (+ {} (* {} (- {x} {}))))", real_lit(f(lo) - sg * sl), real_lit(m), real_lit(lo))); }
}

pub fn axioms(ar: &Arena, id: Id, prev: &[(Uf, Id)]) -> Vec<String> {
    let mut o = vec![];
    let n = |x: Id| nm(ar, x);
    let u = n(id);
    match ar.n[id as usize].k {
        K::IVar(v) => {
            let i = &ar.vars[v as usize];
            o.push(format!("(and (<= {} {u}) (<= {u} {}))", int_lit(i.ilo), int_lit(i.ihi)));
        }
        K::RVar(v) => {
            let i = &ar.vars[v as usize];
            if i.rlo.is_finite() { o.push(format!("(<= {} {u})", real_lit(i.rlo))); }
            if i.rhi.is_finite() { o.push(format!("(<= {u} {})", real_lit(i.rhi))); }
        }
        K::Err(_, e) => {
            let e = real_lit(f64::from_bits(e));
            o.push(format!("(and (<= (- {e}) {u}) (<= {u} {e}))"));
        }
        K::Uf(k, a, b) => {
            let x = n(a);
            let (alo, ahi) = ar.rr(a);
            let (rlo, rhi) = ar.rr(id);
            let slack = 1e-15;
            if rlo.is_finite() { o.push(format!("(<= {} {u})", real_lit(rlo - rlo.abs() * slack))); }
            if rhi.is_finite() { o.push(format!("(<= {u} {})", real_lit(rhi + rhi.abs() * slack))); }
            let pi = "3.14159265358979323846264338327950288419716939937511";
            match k {
                Uf::Sqrt => o.push(format!("(and (>= {u} 0.0) (= (* {u} {u}) {x}))")),
                Uf::Sin => {
                    o.push(format!("(=> (>= {x} 0.0) (<= {u} {x}))"));
                    o.push(format!("(=> (<= {x} 0.0) (>= {u} {x}))"));
                    o.push(format!("(=> (and (<= 0.0 {x}) (<= {x} {pi})) (>= {u} 0.0))"));
                    o.push(format!("(=> (and (< 0.0 {x}) (< {x} {pi})) (> {u} 0.0))"));
                    o.push(format!("(=> (and (<= (- {pi}) {x}) (<= {x} 0.0)) (<= {u} 0.0))"));
                    // concave on [0, pi/2]: above the chord
                    o.push(format!("(=> (and (<= 0.0 {x}) (<= {x} (/ {pi} 2.0))) (>= {u} (* 0.636619772367581343 {x})))"));
                    o.push(format!("(=> (and (<= (- (/ {pi} 2.0)) {x}) (<= {x} 0.0)) (<= {u} (* 0.636619772367581343 {x})))"));
                }
                Uf::Cos => {
                    o.push(format!("(=> (and (<= (- (/ {pi} 2.0)) {x}) (<= {x} (/ {pi} 2.0))) (>= {u} 0.0))"));
                    o.push(format!("(=> (and (<= (/ {pi} 2.0) {x}) (<= {x} (* 1.5 {pi}))) (<= {u} 0.0))"));
                    o.push(format!("(=> (and (<= (- (* 1.5 {pi})) {x}) (<= {x} (- (/ {pi} 2.0)))) (<= {u} 0.0))"));
                    o.push(format!("(=> (= {x} 0.0) (= {u} 1.0))"));
                }
                Uf::Tanh => {
                    o.push(format!("(and (< (- 1.0) {u}) (< {u} 1.0))"));
                    o.push(format!("(=> (>= {x} 0.0) (and (>= {u} 0.0) (<= {u} {x})))"));
                    o.push(format!("(=> (<= {x} 0.0) (and (<= {u} 0.0) (>= {u} {x})))"));
                    o.push(format!("(=> (> {x} 0.0) (> {u} 0.0))"));
                }
                Uf::Exp => { o.push(format!("(and (> {u} 0.0) (>= {u} (+ 1.0 {x})))")); o.push(format!("(=> (<= {x} 0.0) (<= {u} 1.0))")); o.push(format!("(=> (= {x} 0.0) (= {u} 1.0))")); }
                Uf::Exp2 => { o.push(format!("(> {u} 0.0)")); o.push(format!("(=> (<= {x} 0.0) (<= {u} 1.0))")); o.push(format!("(=> (>= {x} 0.0) (>= {u} 1.0))")); }
                Uf::Ln => { o.push(format!("(<= {u} (- {x} 1.0))")); o.push(format!("(=> (>= {x} 1.0) (>= {u} 0.0))")); }
                Uf::Log10 | Uf::Log2 => { o.push(format!("(= (>= {x} 1.0) (>= {u} 0.0))")); }
                Uf::Cosh => o.push(format!("(>= {u} 1.0)")),
                Uf::Sinh => { o.push(format!("(=> (>= {x} 0.0) (>= {u} {x}))")); o.push(format!("(=> (<= {x} 0.0) (<= {u} {x}))")); }
                Uf::Tan => {
                    o.push(format!("(=> (and (<= 0.0 {x}) (< {x} 1.5707963267948966)) (>= {u} {x}))"));
                    o.push(format!("(=> (and (<= {x} 0.0) (> {x} (- 1.5707963267948966))) (<= {u} {x}))"));
                }
                Uf::Atan => { o.push(format!("(=> (>= {x} 0.0) (and (>= {u} 0.0) (<= {u} {x})))")); o.push(format!("(=> (<= {x} 0.0) (and (<= {u} 0.0) (>= {u} {x})))")); }
                Uf::Asin => { o.push(format!("(=> (>= {x} 0.0) (>= {u} {x}))")); o.push(format!("(=> (<= {x} 0.0) (<= {u} {x}))")); }
                Uf::Acos => { o.push(format!("(=> (>= {x} 0.0) (<= {u} 1.5707963267948968))")); o.push(format!("(=> (<= {x} 0.0) (>= {u} 1.5707963267948966))")); }
                Uf::Atan2 => {
                    let y = n(a);
                    let x = n(b);
                    o.push(format!("(=> (> {y} 0.0) (> {u} 0.0))"));
                    o.push(format!("(=> (< {y} 0.0) (< {u} 0.0))"));
                    o.push(format!("(=> (> {x} 0.0) (and (< (- 1.5707963267948968) {u}) (< {u} 1.5707963267948968)))"));
                    o.push(format!("(=> (< {x} 0.0) (or (< {u} (- 1.5707963267948964)) (> {u} 1.5707963267948964)))"));
                    o.push(format!("(=> (and (= {x} 0.0) (> {y} 0.0)) (and (< 1.5707963267948964 {u}) (< {u} 1.5707963267948968)))"));
                    o.push(format!("(=> (and (= {x} 0.0) (< {y} 0.0)) (and (< (- 1.5707963267948968) {u}) (< {u} (- 1.5707963267948964))))"));
                    o.push(format!("(=> (and (= {y} 0.0) (>= {x} 0.0)) (= {u} 0.0))"));
                    o.push(format!("(=> (and (= {y} 0.0) (< {x} 0.0)) (= {u} {}))", real_lit(std::f64::consts::PI)));
                    // which side of a ray: rays every 15 degrees and 3 degrees off the axes
                    let mut g = String::new();
                    for k in (-59i32..=60).filter(|k| k % 5 == 0 || (k + 61) % 30 == 0 || (k + 59) % 30 == 0) {
                        let p = k as f64 * std::f64::consts::PI / 60.0;
                        let (c, sn) = (real_lit(p.cos()), real_lit(p.sin()));
                        let cr = format!("(- (* {c} {y}) (* {sn} {x}))");
                        let (l, h) = (real_lit(p - 1e-12), real_lit(p + 1e-12));
                        // next to the ray: within 1e-9 of it
                        let dt = format!("(+ (* {c} {x}) (* {sn} {y}))");
                        let near = if k == 60 { format!("(or (>= {u} {}) (<= {u} {}))", real_lit(p - 1.1e-9), real_lit(-p + 1.1e-9)) } else { format!("(and (>= {u} {}) (<= {u} {}))", real_lit(p - 1.1e-9), real_lit(p + 1.1e-9)) };
                        g.push_str(&format!("(let ((cr {cr}) (dt (* 1e-9 {dt}))) (=> (and (> dt 0.0) (<= cr dt) (<= (- dt) cr)) {near}))").replace("1e-9", "0.000000001"));
                        if k >= 0 {
                            let (ol, oh) = (real_lit(p - std::f64::consts::PI - 1e-12), real_lit(p - std::f64::consts::PI + 1e-12));
                            g.push_str(&format!("(=> (>= {cr} 0.0) (or (>= {u} {l}) (<= {u} {oh})))(=> (<= {cr} 0.0) (and (<= {u} {h}) (>= {u} {ol})))"));
                        } else {
                            let (ol, oh) = (real_lit(p + std::f64::consts::PI - 1e-12), real_lit(p + std::f64::consts::PI + 1e-12));
                            g.push_str(&format!("(=> (>= {cr} 0.0) (and (>= {u} {l}) (<= {u} {oh})))(=> (<= {cr} 0.0) (or (<= {u} {h}) (>= {u} {ol})))"));
                        }
                    }
                    o.push(format!("(or (and (= {x} 0.0) (= {y} 0.0)) (and {g}))"));
                }
                Uf::Pow => {
                    let e = n(b);
                    o.push(format!("(=> (> {x} 0.0) (> {u} 0.0))"));
                    o.push(format!("(=> (and (>= {x} 1.0) (>= {e} 0.0)) (>= {u} 1.0))"));
                    o.push(format!("(=> (and (>= {x} 1.0) (>= {e} 1.0)) (>= {u} {x}))"));
                    o.push(format!("(=> (and (> {x} 0.0) (<= {x} 1.0) (>= {e} 0.0)) (<= {u} 1.0))"));
                }
                Uf::Hypot => {
                    let y = n(b);
                    o.push(format!("(and (>= {u} 0.0) (= (* {u} {u}) (+ (* {x} {x}) (* {y} {y}))))"));
                }
                Uf::Cbrt => o.push(format!("(= (* {u} {u} {u}) {x})")),
            }
            if let K::Uf(inv, v, _) = ar.n[a as usize].k {
                // the cosine of an arc sine and the sine of an arc cosine
                if (k == Uf::Cos && inv == Uf::Asin) || (k == Uf::Sin && inv == Uf::Acos) {
                    let v = n(v);
                    o.push(format!("(and (>= {u} 0.0) (= (* {u} {u}) (- 1.0 (* {v} {v}))))"));
                }
            }
            curve(ar, k, b, alo, ahi, &u, &x, &mut o);
            for (pk, p) in prev {
                let K::Uf(_, pa, pb) = ar.n[*p as usize].k else { continue };
                let v = n(*p);
                let (px, py) = (n(pa), n(pb));
                if *pk == k {
                    match k {
                        Uf::Exp | Uf::Exp2 | Uf::Ln | Uf::Log10 | Uf::Log2 | Uf::Tanh | Uf::Atan | Uf::Sinh | Uf::Asin | Uf::Cbrt => {
                            o.push(format!("(= (<= {x} {px}) (<= {u} {v}))"));
                            o.push(format!("(= (>= {x} {px}) (>= {u} {v}))"));
                        }
                        Uf::Acos => {
                            o.push(format!("(= (<= {x} {px}) (>= {u} {v}))"));
                            o.push(format!("(= (>= {x} {px}) (<= {u} {v}))"));
                        }
                        Uf::Pow | Uf::Atan2 | Uf::Hypot => {
                            o.push(format!("(=> (and (= {x} {px}) (= {} {py})) (= {u} {v}))", n(b)));
                            if k == Uf::Pow && b == pb {
                                o.push(format!("(=> (and (> {x} 0.0) (> {px} 0.0) (> {} 0.0)) (= (<= {x} {px}) (<= {u} {v})))", n(b)));
                            }
                            if k == Uf::Pow && a == pa {
                                o.push(format!("(=> (> {x} 1.0) (= (<= {} {py}) (<= {u} {v})))", n(b)));
                            }
                        }
                        Uf::Sqrt => { o.push(format!("(= (<= {x} {px}) (<= {u} {v}))")); }
                        _ => o.push(format!("(=> (= {x} {px}) (= {u} {v}))")),
                    }
                    let (blo, bhi) = ar.rr(pa);
                    if let Some(l) = lip(k, alo.min(blo), ahi.max(bhi)) {
                        let l = real_lit(l);
                        o.push(format!("(let ((d (- {x} {px})) (w (- {u} {v}))) (let ((e (* {l} (ite (>= d 0.0) d (- d))))) (and (<= w e) (<= (- w) e))))"));
                    }
                }
                // periodicity and symmetry of sine and cosine, as bounds on sums and differences
                if *pk == k && matches!(k, Uf::Sin | Uf::Cos) {
                    let (blo, bhi) = ar.rr(pa);
                    let mut sym = |sum: bool, half_turns: i32| {
                        let c = half_turns as f64 * std::f64::consts::PI;
                        let (l, h) = if sum { (alo + blo - c, ahi + bhi - c) } else { (alo - bhi - c, ahi - blo - c) };
                        // only where the shifted arguments can meet
                        if !(l <= 1e-3 && h >= -1e-3) { return; }
                        let odd = half_turns % 2 != 0;
                        // sin(p + n pi) = (-1)^n sin p ; sin(n pi - p) = -(-1)^n sin p ; cos(n pi +- p) = (-1)^n cos p
                        let neg = if k == Uf::Sin { odd != sum } else { odd };
                        let o1 = if sum { "+" } else { "-" };
                        let o2 = if neg { "+" } else { "-" };
                        let sh = match half_turns { 0 => "0.0".to_string(), n if n > 0 => format!("(* {n}.0 {pi})"), n => format!("(- (* {}.0 {pi}))", -n) };
                        o.push(format!("(let ((d (- ({o1} {x} {px}) {sh})) (w ({o2} {u} {v}))) (let ((e (ite (>= d 0.0) d (- d)))) (and (<= w e) (<= (- w) e))))"));
                    };
                    for n in [-2, -1, 1, 2] { sym(false, n); }
                    for n in [-1, 0, 1, 2] { sym(true, n); }
                }
                for (f, g, fu, fx, gu, gx) in [(k, *pk, &u, &x, &v, &px), (*pk, k, &v, &px, &u, &x)] {
                    // inverse functions on the principal branch
                    match (f, g) {
                        (Uf::Sin, Uf::Asin) | (Uf::Cos, Uf::Acos) if { let (r1, r2) = if f == k { (ar.rr(a), ar.rr(*p)) } else { (ar.rr(pa), ar.rr(id)) }; r1.0 <= r2.1 + 0.1 && r2.0 <= r1.1 + 0.1 } => {
                            // (the sine of the arc sine is the argument, and the sine has slope at most one)
                            o.push(format!("(let ((d (- {fx} {gu})) (w (- {fu} {gx}))) (let ((e (ite (>= d 0.0) d (- d)))) (and (<= w e) (<= (- w) e))))"));
                            if f == Uf::Sin {
                                o.push(format!("(=> (and (<= (- (/ {pi} 2.0)) {fx}) (<= {fx} (/ {pi} 2.0))) (and (= (<= {fu} {gx}) (<= {fx} {gu})) (= (>= {fu} {gx}) (>= {fx} {gu}))))"));
                            } else {
                                o.push(format!("(=> (and (<= 0.0 {fx}) (<= {fx} {pi})) (and (= (<= {fu} {gx}) (>= {fx} {gu})) (= (>= {fu} {gx}) (<= {fx} {gu}))))"));
                            }
                        }
                        (Uf::Sin, Uf::Asin) => o.push(format!("(=> (and (<= (- (/ {pi} 2.0)) {fx}) (<= {fx} (/ {pi} 2.0))) (and (= (<= {fu} {gx}) (<= {fx} {gu})) (= (>= {fu} {gx}) (>= {fx} {gu}))))")),
                        (Uf::Cos, Uf::Acos) => o.push(format!("(=> (and (<= 0.0 {fx}) (<= {fx} {pi})) (and (= (<= {fu} {gx}) (>= {fx} {gu})) (= (>= {fu} {gx}) (<= {fx} {gu}))))")),
                        // the sine and cosine of the angle of a point on the unit circle are its coordinates
                        (Uf::Sin, Uf::Atan2) | (Uf::Cos, Uf::Atan2) => {
                            let gy = if f == k { &py } else { &n(b) };
                            let w = if f == Uf::Sin { gx } else { gy };
                            o.push(format!("(=> (= (+ (* {gx} {gx}) (* {gy} {gy})) 1.0) (let ((d (- {fx} {gu})) (w (- {fu} {w}))) (let ((e (ite (>= d 0.0) d (- d)))) (and (<= w e) (<= (- w) e)))))"));
                        }
                        (Uf::Tan, Uf::Atan) => o.push(format!("(=> (and (< (- (/ {pi} 2.0)) {fx}) (< {fx} (/ {pi} 2.0))) (and (= (<= {fu} {gx}) (<= {fx} {gu})) (= (>= {fu} {gx}) (>= {fx} {gu}))))")),
                        (Uf::Exp, Uf::Ln) => o.push(format!("(and (= (<= {fu} {gx}) (<= {fx} {gu})) (= (>= {fu} {gx}) (>= {fx} {gu})))")),
                        _ => {}
                    }
                }
                if ((k == Uf::Sin && *pk == Uf::Cos) || (k == Uf::Cos && *pk == Uf::Sin)) && a == pa {
                    o.push(format!("(= (+ (* {u} {u}) (* {v} {v})) 1.0)"));
                }
            }
        }
        _ => {}
    }
    o
}

/// the end of the run, in milliseconds since the first look at the clock
static LIMIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
static BEGIN: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn ms() -> u64 { BEGIN.get_or_init(Instant::now).elapsed().as_millis() as u64 }
pub fn set_limit(d: Duration) { LIMIT.store(ms() + d.as_millis() as u64, std::sync::atomic::Ordering::Relaxed); }
pub fn over() -> bool { ms() > LIMIT.load(std::sync::atomic::Ordering::Relaxed) }
fn left() -> Duration { Duration::from_millis(LIMIT.load(std::sync::atomic::Ordering::Relaxed).saturating_sub(ms())) }
/// a violation was found and replayed: the run need not go on for long
pub fn found() {
    if std::env::var("IRSYM_STOP").is_ok() { LIMIT.fetch_min(ms() + 45_000, std::sync::atomic::Ordering::Relaxed); }
}
/// a solver that does not answer in time (some of its procedures do not look at the clock) is ended
struct Watch(u32);
static WATCHED: std::sync::Mutex<Vec<(u32, Instant)>> = std::sync::Mutex::new(vec![]);
static WATCHING: std::sync::Once = std::sync::Once::new();
impl Watch {
    fn new(pid: u32, ms: u64) -> Watch {
        WATCHING.call_once(|| {
            std::thread::spawn(|| loop {
                std::thread::sleep(Duration::from_millis(250));
                let now = Instant::now();
                let late: Vec<u32> = { let mut w = WATCHED.lock().unwrap(); let l = w.iter().filter(|x| x.1 < now).map(|x| x.0).collect(); w.retain(|x| x.1 >= now); l };
                for p in late { let _ = Command::new("kill").args(["-9", &p.to_string()]).status(); }
            });
        });
        WATCHED.lock().unwrap().push((pid, Instant::now() + Duration::from_millis(ms)));
        Watch(pid)
    }
}
impl Drop for Watch {
    fn drop(&mut self) { WATCHED.lock().unwrap().retain(|x| x.0 != self.0); }
}

impl Solver {
    pub fn new(log: Option<std::fs::File>) -> Solver {
        let (child, stdin, stdout) = Self::spawn();
        let mut s = Solver { child, stdin, stdout, emitted: HashSet::new(), stack: vec![], seen: HashSet::new(), ufs: vec![], stats: Stats::default(), log, timeout_set: 0, dead: false };
        s.prelude();
        s
    }
    fn spawn() -> (Child, ChildStdin, BufReader<ChildStdout>) {
        let exe = std::env::var("IRSYM_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(exe).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3-new");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        (child, stdin, stdout)
    }
    fn prelude(&mut self) {
        self.send("(set-option :global-declarations true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = Self::spawn();
        self.child = c;
        self.stdin = i;
        self.stdout = o;
        self.emitted.clear();
        self.stack.clear();
        self.seen.clear();
        self.ufs.clear();
        self.timeout_set = 0;
        self.dead = false;
        self.prelude();
    }
    fn send(&mut self, s: &str) {
        if let Some(l) = &mut self.log { let _ = l.write_all(s.as_bytes()); }
        if self.stdin.write_all(s.as_bytes()).is_err() { self.dead = true; }
    }
    fn line(&mut self) -> String {
        let _ = self.stdin.flush();
        let mut s = String::new();
        let _w = Watch::new(self.child.id(), if self.timeout_set == 0 { 60_000 } else { 2 * self.timeout_set + 3000 });
        match self.stdout.read_line(&mut s) {
            Ok(0) | Err(_) => { self.dead = true; }
            _ => {}
        }
        s.trim().to_string()
    }
    fn sexpr(&mut self) -> String {
        let _ = self.stdin.flush();
        let mut s = String::new();
        let mut d = 0i32;
        let _w = Watch::new(self.child.id(), 15_000);
        loop {
            let mut l = String::new();
            match self.stdout.read_line(&mut l) {
                Ok(0) | Err(_) => { self.dead = true; return s; }
                _ => {}
            }
            for c in l.chars() { if c == '(' { d += 1 } else if c == ')' { d -= 1 } }
            s.push_str(&l);
            if d <= 0 { return s; }
        }
    }
    fn emit(&mut self, ar: &Arena, id: Id) {
        let mut out = vec![];
        cone(ar, id, &mut self.emitted, &mut out);
        let mut t = String::new();
        for x in out { t.push_str(&def(ar, x)); }
        if !t.is_empty() { self.send(&t); }
    }
    fn push_lit(&mut self, ar: &Arena, lit: Id) {
        self.emit(ar, lit);
        let mut f = Frame { lit, seen: vec![], ufs: self.ufs.len() };
        let mut t = String::from("(push 1)\n");
        // axioms of the cone
        let mut st = vec![lit];
        let mut order = vec![];
        while let Some(x) = st.pop() {
            let nd = &ar.n[x as usize];
            if !nd.ax || !self.seen.insert(x) { continue; }
            f.seen.push(x);
            if matches!(nd.k, K::IVar(_) | K::RVar(_) | K::Err(..) | K::Uf(..)) { order.push(x); }
            if matches!(nd.k, K::Err(..)) { continue; }
            for c in Arena::children(&nd.k).into_iter().flatten() { st.push(c); }
        }
        for x in order {
            for a in axioms(ar, x, &self.ufs) { t.push_str(&format!("(assert {a})\n")); }
            if let K::Uf(k, _, _) = ar.n[x as usize].k { self.ufs.push((k, x)); }
        }
        t.push_str(&format!("(assert {})\n", nm(ar, lit)));
        self.send(&t);
        self.stack.push(f);
    }
    fn pop(&mut self) {
        let f = self.stack.pop().unwrap();
        for x in f.seen { self.seen.remove(&x); }
        self.ufs.truncate(f.ufs);
        self.send("(pop 1)\n");
    }
    fn sync(&mut self, ar: &Arena, pc: &[Id]) {
        if self.dead { self.restart(); }
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k].lit == pc[k] { k += 1; }
        while self.stack.len() > k { self.pop(); }
        for l in &pc[k..] { self.push_lit(ar, *l); }
    }
    /// satisfiability of pc and the extra literals; with a model on request
    pub fn check(&mut self, ar: &Arena, pc: &[Id], extra: &[Id], timeout_ms: u64, want_model: bool) -> (Res, Option<Vec<InputVal>>) {
        let t0 = Instant::now();
        if over() { return (Res::Unknown, None); }
        if let Some(r) = self.prune(ar, pc, extra, 2, 20000, Duration::from_millis(300)) { return r; }
        self.sync(ar, pc);
        for e in extra { self.push_lit(ar, *e); }
        if self.timeout_set != timeout_ms {
            self.send(&format!("(set-option :timeout {timeout_ms})\n"));
            self.timeout_set = timeout_ms;
        }
        self.send("(check-sat)\n");
        let mut r = self.line();
        while r.starts_with("(error") || r.starts_with("WARNING") || (r.is_empty() && !self.dead) {
            if r.starts_with("(error") { eprintln!("solver: {r}"); self.dead = true; break; }
            r = self.line();
        }
        let res = match r.as_str() { "sat" => Res::Sat, "unsat" => Res::Unsat, _ => Res::Unknown };
        self.stats.queries += 1;
        let mut model = None;
        if res == Res::Sat && want_model && !self.dead { model = self.model(ar); }
        let res = if self.dead { model = None; Res::Unknown } else { res };
        match res { Res::Sat => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        if self.dead { self.restart(); } else { for _ in extra { self.pop(); } }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.5 && std::env::var("IRSYM_SLOW").is_ok() { eprintln!("slow query {dt:.2}s limit {timeout_ms} {res:?} literals {} last {}", pc.len() + extra.len(), extra.last().map(|x| { let s = nm(ar, *x); s.chars().take(200).collect::<String>() }).unwrap_or_default()); }
        self.stats.time += dt;
        (res, model)
    }
    fn model(&mut self, ar: &Arena) -> Option<Vec<InputVal>> {
        let vars: Vec<Id> = ar.vars.iter().map(|v| v.node).filter(|n| self.emitted.contains(n) && self.seen.contains(n)).collect();
        let mut vals: HashMap<Id, String> = HashMap::new();
        if !vars.is_empty() {
            let q: Vec<String> = vars.iter().map(|v| format!("n{v}")).collect();
            self.send(&format!("(get-value ({}))\n", q.join(" ")));
            let s = self.sexpr();
            parse_values(&s, &mut vals);
        }
        fill_model(ar, &vals)
    }
    /// a model whose reals are multiples of 1/den, if there is one
    pub fn nice_model(&mut self, ar: &Arena, pc: &[Id], extra: &[Id], den: u32, timeout_ms: u64) -> Option<Vec<InputVal>> {
        let t0 = Instant::now();
        if over() { return None; }
        self.sync(ar, pc);
        for e in extra { self.push_lit(ar, *e); }
        self.send("(push 1)\n");
        let mut t = String::new();
        for v in &ar.vars {
            if v.real && self.seen.contains(&v.node) {
                t.push_str(&format!("(declare-fun q{0}_{1} () Int)\n(assert (= n{0} (/ (to_real q{0}_{1}) {2}.0)))\n", v.node, self.stats.queries, den));
            }
        }
        self.send(&t);
        self.send(&format!("(set-option :timeout {timeout_ms})\n"));
        self.timeout_set = timeout_ms;
        self.send("(check-sat)\n");
        let r = self.line();
        self.stats.queries += 1;
        let m = if r == "sat" { self.stats.sat += 1; self.model(ar) } else { None };
        let m = if self.dead { None } else { m };
        if self.dead { self.restart(); } else {
            self.send("(pop 1)\n");
            for _ in extra { self.pop(); }
        }
        self.stats.time += t0.elapsed().as_secs_f64();
        m
    }

    /// branch and prune on queries over few inputs
    fn prune(&mut self, ar: &Arena, pc: &[Id], extra: &[Id], vars: usize, boxes: u64, time: Duration) -> Option<(Res, Option<Vec<InputVal>>)> {
        if std::env::var("IRSYM_NOICP").is_ok() || pc.len() > 300 || extra.is_empty() { return None; }
        let t0 = Instant::now();
        let mut lits = extra.to_vec();
        lits.extend(pc.iter().rev());
        let me = crate::icp::Icp::new(ar, &lits, 4000)?;
        if !me.curved || me.vars.is_empty() || me.vars.len() > vars { return None; }
        let r = match me.solve(boxes, time) {
            crate::icp::Out::Unknown => None,
            crate::icp::Out::Unsat => { self.stats.unsat += 1; Some((Res::Unsat, None)) }
            crate::icp::Out::Sat(m) => {
                self.stats.sat += 1;
                let mut v = fill_model(ar, &HashMap::new())?;
                for (x, y) in m {
                    match ar.n[x as usize].k { K::RVar(i) => v[i as usize] = InputVal::F(y), K::IVar(i) => v[i as usize] = InputVal::I(y as i128), _ => {} }
                }
                Some((Res::Sat, Some(v)))
            }
        };
        if r.is_some() { self.stats.queries += 1; self.stats.pruned += 1; }
        self.stats.time += t0.elapsed().as_secs_f64();
        r
    }
    /// one-shot portfolio on the complete query
    pub fn portfolio(&mut self, ar: &Arena, lits: &[Id], timeout: Duration, scratch: &std::path::Path) -> (Res, Option<Vec<InputVal>>) {
        let timeout = timeout.min(left());
        if timeout.is_zero() { return (Res::Unknown, None); }
        let t0 = Instant::now();
        if let [pc @ .., last] = lits {
            if let Some(r) = self.prune(ar, pc, &[*last], 4, 2_000_000, timeout.min(Duration::from_secs(20))) { return r; }
        }
        self.stats.queries += 1;
        self.stats.portfolio += 1;
        let uniq = format!("{}_{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        let mk = |native: bool| dump(ar, lits, native);
        let (text, has_mixed) = mk(false);
        let (ctext, _) = mk(true);
        let vars: Vec<String> = { let mut d = HashSet::new(); let mut o = vec![]; for l in lits { cone(ar, *l, &mut d, &mut o); } o.iter().filter(|x| matches!(ar.n[**x as usize].k, K::IVar(_) | K::RVar(_))).map(|x| format!("n{x}")).collect() };
        let gv = if vars.is_empty() { String::new() } else { format!("(get-value ({}))\n", vars.join(" ")) };
        let mut jobs: Vec<(Vec<String>, String)> = vec![];
        let pre = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
        if !has_mixed {
            jobs.push((vec!["z3-new".into(), "-smt2".into()], format!("{pre}{text}(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify qfnra-nlsat))\n{gv}")));
        }
        jobs.push((vec!["z3-new".into(), "-smt2".into()], format!("{pre}{text}(check-sat)\n{gv}")));
        jobs.push((vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into(), "--nl-ext=full".into()], format!("(set-logic ALL)\n{ctext}(check-sat)\n{gv}")));
        let mut procs = vec![];
        for (i, (cmd, t)) in jobs.iter().enumerate() {
            let f = scratch.join(format!("q_{uniq}_{i}.smt2"));
            if std::fs::write(&f, t).is_err() { continue; }
            if let Ok(c) = Command::new(&cmd[0]).args(&cmd[1..]).arg(&f).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                procs.push((c, f, false));
            }
        }
        let mut result = (Res::Unknown, None);
        'outer: while t0.elapsed() < timeout {
            let mut alive = false;
            for (c, _, done) in procs.iter_mut() {
                if *done { continue; }
                match c.try_wait() {
                    Ok(Some(_)) => {
                        *done = true;
                        let mut s = String::new();
                        if let Some(o) = c.stdout.as_mut() { let _ = o.read_to_string(&mut s); }
                        let first = s.lines().next().unwrap_or("").trim().to_string();
                        if first == "unsat" { result = (Res::Unsat, None); break 'outer; }
                        if first == "sat" {
                            let rest: String = s.lines().skip(1).collect::<Vec<_>>().join("\n");
                            let mut vals = HashMap::new();
                            parse_values(&rest, &mut vals);
                            result = (Res::Sat, fill_model(ar, &vals));
                            break 'outer;
                        }
                    }
                    Ok(None) => alive = true,
                    Err(_) => *done = true,
                }
            }
            if !alive { break; }
            std::thread::sleep(Duration::from_millis(5));
        }
        for (c, f, _) in procs.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
            if std::env::var("IRSYM_KEEP").is_err() { let _ = std::fs::remove_file(f); }
        }
        match result.0 { Res::Sat => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        self.stats.time += t0.elapsed().as_secs_f64();
        result
    }
}

static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// complete text of a query; with `native`, transcendental functions the solver knows are used directly
fn dump(ar: &Arena, lits: &[Id], native: bool) -> (String, bool) {
    let mut done = HashSet::new();
    let mut out = vec![];
    for l in lits { cone(ar, *l, &mut done, &mut out); }
    let mut t = String::new();
    let mut mixed = false;
    let mut ufs: Vec<(Uf, Id)> = vec![];
    let mut ax = String::new();
    for x in &out {
        let k = ar.n[*x as usize].k;
        if matches!(k, K::IVar(_) | K::Floor(_) | K::ToReal(_)) { mixed = true; }
        if native {
            if let K::Uf(u, a, _) = k {
                let f = match u { Uf::Sin => "sin", Uf::Cos => "cos", Uf::Tan => "tan", Uf::Asin => "arcsin", Uf::Acos => "arccos", Uf::Atan => "arctan", Uf::Exp => "exp", Uf::Sqrt => "sqrt", _ => "" };
                if !f.is_empty() {
                    t.push_str(&format!("(define-fun n{x} () Real ({f} {}))\n", nm(ar, a)));
                    ufs.push((u, *x));
                    continue;
                }
            }
        }
        t.push_str(&def(ar, *x));
        if matches!(k, K::IVar(_) | K::RVar(_) | K::Err(..) | K::Uf(..)) {
            for a in axioms(ar, *x, &ufs) { ax.push_str(&format!("(assert {a})\n")); }
            if let K::Uf(u, _, _) = k { ufs.push((u, *x)); }
        }
    }
    t.push_str(&ax);
    for l in lits { t.push_str(&format!("(assert {})\n", nm(ar, *l))); }
    (t, mixed)
}

fn fill_model(ar: &Arena, vals: &HashMap<Id, String>) -> Option<Vec<InputVal>> {
    let mut m = vec![];
    for v in &ar.vars {
        if v.real {
            let x = match vals.get(&v.node) {
                Some(s) => parse_real(s)?,
                None => { if v.rlo <= 1.0 && v.rhi >= 1.0 { 1.0 } else if v.rlo <= 0.0 && v.rhi >= 0.0 { 0.0 } else if v.rlo.is_finite() { v.rlo } else { v.rhi } }
            };
            m.push(InputVal::F(x.clamp(v.rlo, v.rhi)));
        } else {
            let x = match vals.get(&v.node) {
                Some(s) => parse_int(s)?,
                None => if v.ilo <= 0 && v.ihi >= 0 { 0 } else { v.ilo },
            };
            m.push(InputVal::I(x));
        }
    }
    Some(m)
}

fn parse_values(s: &str, out: &mut HashMap<Id, String>) {
    // ((n1 v) (n2 (- 3)) ...)
    let b = s.as_bytes();
    let mut i = 0;
    let mut depth = 0;
    let mut start = 0;
    while i < b.len() {
        match b[i] {
            b'(' => { depth += 1; if depth == 2 { start = i + 1; } }
            b')' => {
                if depth == 2 {
                    let t = s[start..i].trim();
                    if let Some(sp) = t.find(char::is_whitespace) {
                        if let Some(id) = t[1..sp].parse::<Id>().ok() { out.insert(id, t[sp..].trim().to_string()); }
                    }
                }
                depth -= 1;
            }
            _ => {}
        }
        i += 1;
    }
}

fn parse_int(s: &str) -> Option<i128> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("(-") { return parse_int(r.trim_end_matches(')')).map(|v| -v); }
    let s = s.strip_suffix(".0").unwrap_or(s);
    s.parse().ok()
}

fn parse_real(s: &str) -> Option<f64> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('(') {
        let r = r.strip_suffix(')')?;
        let r = r.trim();
        if let Some(x) = r.strip_prefix('-') {
            let x = x.trim();
            return parse_real(x).map(|v| -v);
        }
        if let Some(x) = r.strip_prefix('/') {
            let x = x.trim();
            // two operands
            let (a, b) = split2(x)?;
            let (fa, fb) = (parse_real(a)?, parse_real(b)?);
            if fa.is_finite() && fb.is_finite() { return Some(fa / fb); }
            return None;
        }
        return None;
    }
    let t = s.trim_end_matches('?');
    t.parse().ok()
}
fn split2(x: &str) -> Option<(&str, &str)> {
    let b = x.as_bytes();
    if b.first()? == &b'(' {
        let mut d = 0;
        for (i, c) in b.iter().enumerate() {
            if *c == b'(' { d += 1 }
            if *c == b')' { d -= 1; if d == 0 { return Some((&x[..=i], x[i + 1..].trim())); } }
        }
        None
    } else {
        let sp = x.find(char::is_whitespace)?;
        Some((&x[..sp], x[sp..].trim()))
    }
}
