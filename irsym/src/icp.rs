//! Branch and prune: decides conjunctions of constraints over few bounded variables by interval
//! arithmetic with mean value forms. `Unsat` when every box of the inputs falsifies a literal,
//! `Sat` when all literals are certainly true at some point.
use crate::expr::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub enum Out { Unsat, Sat(Vec<(Id, f64)>), Unknown }

#[derive(Clone, Copy)]
struct V { lo: f64, hi: f64, ilo: i128, ihi: i128, t: u8 }

pub struct Icp<'a> {
    ar: &'a Arena,
    order: Vec<Id>,
    ix: HashMap<Id, usize>,
    kids: Vec<[usize; 3]>,
    pub vars: Vec<Id>,
    lits: Vec<usize>,
    pub curved: bool,
    noise: bool,
}

const NO: usize = usize::MAX;
type D = [(f64, f64); 4];
const FLAT: D = [(0.0, 0.0); 4];
const WILD: D = [(f64::NEG_INFINITY, f64::INFINITY); 4];

fn mul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    if a == (0.0, 0.0) || b == (0.0, 0.0) { return (0.0, 0.0); }
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let c = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    let lo = c.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = c.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    if lo.is_nan() || hi.is_nan() { return (f64::NEG_INFINITY, f64::INFINITY); }
    (lo - lo.abs() * 1e-15 - 1e-320, hi + hi.abs() * 1e-15 + 1e-320)
}
fn add(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let (lo, hi) = (a.0 + b.0, a.1 + b.1);
    if lo.is_nan() || hi.is_nan() { return (f64::NEG_INFINITY, f64::INFINITY); }
    (lo - lo.abs() * 1e-15 - 1e-320, hi + hi.abs() * 1e-15 + 1e-320)
}
fn neg(a: (f64, f64)) -> (f64, f64) { (-a.1, -a.0) }
fn inv(a: (f64, f64)) -> (f64, f64) {
    if a.0 > 0.0 || a.1 < 0.0 { let (x, y) = (1.0 / a.1, 1.0 / a.0); (x - x.abs() * 1e-15, y + y.abs() * 1e-15) } else { (f64::NEG_INFINITY, f64::INFINITY) }
}

impl<'a> Icp<'a> {
    pub fn new(ar: &'a Arena, lits: &[Id], max: usize) -> Option<Icp<'a>> {
        let mut me = Icp { ar, order: vec![], ix: HashMap::new(), kids: vec![], vars: vec![], lits: vec![], curved: false, noise: false };
        for l in lits {
            let mut st = vec![(*l, false)];
            while let Some((x, done)) = st.pop() {
                if me.ix.contains_key(&x) { continue; }
                let k = ar.n[x as usize].k;
                let ch = Arena::children(&k);
                let skip = matches!(k, K::Err(..));
                if done || skip || ch[0].is_none() {
                    let mut kd = [NO; 3];
                    if !skip { for (j, c) in ch.iter().enumerate() { if let Some(c) = c { kd[j] = me.ix[c]; } } }
                    me.ix.insert(x, me.order.len());
                    me.order.push(x);
                    me.kids.push(kd);
                    if me.order.len() > max { return None; }
                    match k {
                        K::IVar(_) | K::RVar(_) => me.vars.push(x),
                        K::Uf(..) => me.curved = true,
                        K::RMul(a, b) | K::RDiv(a, b) if ar.rcv(a).is_none() && ar.rcv(b).is_none() => me.curved = true,
                        K::Err(..) => me.noise = true,
                        _ => {}
                    }
                    continue;
                }
                st.push((x, true));
                for c in ch.into_iter().flatten() { st.push((c, false)); }
            }
            me.lits.push(me.ix[l]);
        }
        Some(me)
    }
    /// values of all nodes; `at` gives the variables
    fn eval(&self, at: &HashMap<Id, (f64, f64)>, v: &mut Vec<V>) {
        v.clear();
        for j in 0..self.order.len() {
            let o = self.value(j, at, v);
            v.push(o);
        }
    }
    /// value of a node from the values of its operands
    fn value(&self, j: usize, at: &HashMap<Id, (f64, f64)>, v: &[V]) -> V {
            let id = &self.order[j];
            let node = &self.ar.n[*id as usize];
            let k = node.k;
            let kd = &self.kids[j];
            let mut o = V { lo: node.rlo, hi: node.rhi, ilo: node.ilo, ihi: node.ihi, t: 0 };
            match k {
                K::RVar(_) => { let x = at[id]; o.lo = x.0; o.hi = x.1; }
                K::IVar(_) => { let x = at[id]; o.ilo = x.0 as i128; o.ihi = x.1 as i128; }
                K::Err(..) | K::IConst(_) | K::RConst(_) => {}
                K::B(b) => o.t = if b { 1 } else { 2 },
                K::Not(_) => o.t = match v[kd[0]].t { 1 => 2, 2 => 1, _ => 0 },
                K::And(..) => { let (a, b) = (v[kd[0]].t, v[kd[1]].t); o.t = if a == 2 || b == 2 { 2 } else if a == 1 && b == 1 { 1 } else { 0 }; }
                K::Or(..) => { let (a, b) = (v[kd[0]].t, v[kd[1]].t); o.t = if a == 1 || b == 1 { 1 } else if a == 2 && b == 2 { 2 } else { 0 }; }
                K::ILe(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.ihi <= b.ilo { 1 } else if a.ilo > b.ihi { 2 } else { 0 }; }
                K::ILt(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.ihi < b.ilo { 1 } else if a.ilo >= b.ihi { 2 } else { 0 }; }
                K::IEq(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.ilo == a.ihi && b.ilo == b.ihi && a.ilo == b.ilo { 1 } else if a.ihi < b.ilo || a.ilo > b.ihi { 2 } else { 0 }; }
                K::RLe(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.hi <= b.lo { 1 } else if a.lo > b.hi { 2 } else { 0 }; }
                K::RLt(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.hi < b.lo { 1 } else if a.lo >= b.hi { 2 } else { 0 }; }
                K::REq(..) => { let (a, b) = (&v[kd[0]], &v[kd[1]]); o.t = if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo { 1 } else if a.hi < b.lo || a.lo > b.hi { 2 } else { 0 }; }
                K::RIte(..) | K::IIte(..) if v[kd[0]].t != 0 => { let x = v[kd[if v[kd[0]].t == 1 { 1 } else { 2 }]]; o.lo = o.lo.max(x.lo); o.hi = o.hi.min(x.hi); o.ilo = o.ilo.max(x.ilo); o.ihi = o.ihi.min(x.ihi); }
                _ => {
                    let mut nd = Node { k, ilo: -IBIG, ihi: IBIG, rlo: f64::NEG_INFINITY, rhi: f64::INFINITY, ax: false };
                    let ch = Arena::children(&k);
                    let pos = |x: Id| if ch[0] == Some(x) { kd[0] } else if ch[1] == Some(x) { kd[1] } else { kd[2] };
                    self.ar.enclose(&mut nd, &|x| { let w = &v[pos(x)]; (w.ilo, w.ihi) }, &|x| { let w = &v[pos(x)]; (w.lo, w.hi) });
                    o.lo = o.lo.max(nd.rlo);
                    o.hi = o.hi.min(nd.rhi);
                    o.ilo = o.ilo.max(nd.ilo);
                    o.ihi = o.ihi.min(nd.ihi);
                }
            }
            // (crossing bounds: rounding, or a node that is not used on this box)
            if o.lo > o.hi { std::mem::swap(&mut o.lo, &mut o.hi); }
            if o.ilo > o.ihi { std::mem::swap(&mut o.ilo, &mut o.ihi); }
            o
    }
    /// an absolute value, minimum or maximum: continuous
    fn magnitude(&self, j: usize) -> bool {
        let K::RIte(c, a, b) = self.ar.n[self.order[j] as usize].k else { return false };
        let zero = |x: Id| self.ar.rcv(x) == Some(0.0);
        let opp = |x: Id, y: Id| matches!(self.ar.n[y as usize].k, K::RNeg(z) if z == x) || matches!(self.ar.n[x as usize].k, K::RNeg(z) if z == y);
        let on = match self.ar.n[c as usize].k { K::RLe(x, y) | K::RLt(x, y) => if zero(x) { Some(y) } else if zero(y) { Some(x) } else { None }, _ => None };
        if let K::RLe(x, y) | K::RLt(x, y) = self.ar.n[c as usize].k { if (x == a && y == b) || (x == b && y == a) { return true; } }
        let on = match on { Some(x) => x, None => return false };
        opp(a, b) && (on == a || on == b)
    }
    /// derivatives by the variables (real ones; integers have none), and sharper values by them
    fn sharpen(&self, at: &HashMap<Id, (f64, f64)>, mid: &[V], v: &mut Vec<V>, d: &mut Vec<D>) {
        d.clear();
        let nv = self.vars.len().min(4);
        let w: Vec<(f64, f64)> = self.vars.iter().take(4).map(|x| { let b = at[x]; let c = 0.5 * (b.0 + b.1); (b.0 - c, b.1 - c) }).collect();
        let w: Vec<(f64, f64)> = w.iter().map(|x| (x.0 - x.0.abs() * 1e-15 - 1e-300, x.1 + x.1.abs() * 1e-15 + 1e-300)).collect();
        for (j, id) in self.order.iter().enumerate() {
            let k = self.ar.n[*id as usize].k;
            let kd = self.kids[j];
            // (the operands are sharper than in the first pass)
            let again = self.value(j, at, v);
            if v[j].t == 0 { v[j].t = again.t; }
            if again.lo <= v[j].hi && again.hi >= v[j].lo { v[j].lo = v[j].lo.max(again.lo); v[j].hi = v[j].hi.min(again.hi); }
            if again.ilo <= v[j].ihi && again.ihi >= v[j].ilo { v[j].ilo = v[j].ilo.max(again.ilo); v[j].ihi = v[j].ihi.min(again.ihi); }
            let iv = |x: usize| (v[x].lo, v[x].hi);
            let scale = |x: usize, s: (f64, f64)| { let mut o = FLAT; for q in 0..nv { o[q] = mul(d[x][q], s); } o };
            let mut g = match k {
                K::RVar(_) => { let mut o = FLAT; for q in 0..nv { if self.vars[q] == *id { o[q] = (1.0, 1.0); } } o }
                K::RConst(_) | K::Err(..) => FLAT,
                K::RAdd(..) => { let mut o = FLAT; for q in 0..nv { o[q] = add(d[kd[0]][q], d[kd[1]][q]); } o }
                K::RSub(..) => { let mut o = FLAT; for q in 0..nv { o[q] = add(d[kd[0]][q], neg(d[kd[1]][q])); } o }
                K::RNeg(_) => { let mut o = FLAT; for q in 0..nv { o[q] = neg(d[kd[0]][q]); } o }
                K::RMul(..) => { let mut o = FLAT; for q in 0..nv { o[q] = add(mul(d[kd[0]][q], iv(kd[1])), mul(d[kd[1]][q], iv(kd[0]))); } o }
                K::RDiv(..) => { let r = inv(iv(kd[1])); let mut o = FLAT; for q in 0..nv { o[q] = mul(add(d[kd[0]][q], neg(mul(d[kd[1]][q], (v[j].lo, v[j].hi)))), r); } o }
                K::RIte(..) => match v[kd[0]].t { 1 => d[kd[1]], 2 => d[kd[2]], _ if self.magnitude(j) => { let mut o = FLAT; for q in 0..nv { let (a, b) = (d[kd[1]][q], d[kd[2]][q]); o[q] = (a.0.min(b.0), a.1.max(b.1)); } o } _ => WILD },
                K::ToReal(_) => if v[j].lo == v[j].hi { FLAT } else { WILD },
                K::Uf(u, ..) => {
                    let x = iv(kd[0]);
                    let ar = self.ar;
                    let e = ar.rcv(match k { K::Uf(_, _, b) => b, _ => 0 });
                    let lip = |f: fn(f64) -> f64| { let (p, q) = (f(x.0), f(x.1)); (p.min(q) - p.min(q).abs() * 1e-14, p.max(q) + p.max(q).abs() * 1e-14) };
                    let s = match u {
                        Uf::Sqrt => if v[j].lo > 0.0 { mul((0.5, 0.5), inv((v[j].lo, v[j].hi))) } else { (0.0, f64::INFINITY) },
                        Uf::Exp => (v[j].lo, v[j].hi),
                        Uf::Ln if x.0 > 0.0 => inv(x),
                        Uf::Sinh => { let m = x.0.abs().max(x.1.abs()).cosh() * (1.0 + 1e-14); let n = if x.0 <= 0.0 && x.1 >= 0.0 { 1.0 } else { x.0.abs().min(x.1.abs()).cosh() * (1.0 - 1e-14) }; (n, m) }
                        Uf::Cosh => lip(f64::sinh),
                        Uf::Tanh => { let sq = mul((v[j].lo, v[j].hi), (v[j].lo, v[j].hi)); let sq = (sq.0.max(0.0), sq.1.min(1.0)); (1.0 - sq.1 - 1e-15, 1.0 - sq.0 + 1e-15) }
                        Uf::Atan => { let sq = mul(x, x); inv((1.0 + sq.0.max(0.0), 1.0 + sq.1)) }
                        Uf::Sin => { let mut nd = Node { k: K::Uf(Uf::Cos, 0, 0), ilo: 0, ihi: 0, rlo: -1.0, rhi: 1.0, ax: false }; ar.enclose(&mut nd, &|_| (0, 0), &|_| x); (nd.rlo, nd.rhi) }
                        Uf::Cos => { let mut nd = Node { k: K::Uf(Uf::Sin, 0, 0), ilo: 0, ihi: 0, rlo: -1.0, rhi: 1.0, ax: false }; ar.enclose(&mut nd, &|_| (0, 0), &|_| x); (-nd.rhi, -nd.rlo) }
                        Uf::Pow if e.is_some() && x.0 > 0.0 => { let e = e.unwrap(); let (p, q) = (x.0.powf(e - 1.0), x.1.powf(e - 1.0)); mul((e, e), (p.min(q) * (1.0 - 1e-14), p.max(q) * (1.0 + 1e-14))) }
                        _ => (f64::NEG_INFINITY, f64::INFINITY),
                    };
                    let s = if s.0.is_nan() || s.1.is_nan() { (f64::NEG_INFINITY, f64::INFINITY) } else { s };
                    if matches!(u, Uf::Atan2 | Uf::Hypot) || (u == Uf::Pow && e.is_none()) { if d[kd[0]] == FLAT && d[kd[1]] == FLAT { FLAT } else { WILD } } else { scale(kd[0], s) }
                }
                _ => WILD,
            };
            for q in nv..4 { g[q] = (0.0, 0.0); }
            // mean value form
            if matches!(k, K::RAdd(..) | K::RSub(..) | K::RMul(..) | K::RDiv(..) | K::RNeg(_) | K::Uf(..) | K::RIte(..)) {
                let mut m = (mid[j].lo, mid[j].hi);
                for q in 0..nv { m = add(m, mul(g[q], w[q])); }
                if m.0 > v[j].lo { v[j].lo = m.0.min(v[j].hi); }
                if m.1 < v[j].hi { v[j].hi = m.1.max(v[j].lo); }
                // operations on sharper operands
            }
            if matches!(k, K::RLe(..) | K::RLt(..)) && v[j].t == 0 {
                let mut m = add((mid[kd[0]].lo, mid[kd[0]].hi), neg((mid[kd[1]].lo, mid[kd[1]].hi)));
                for q in 0..nv { m = add(m, mul(add(d[kd[0]][q], neg(d[kd[1]][q])), w[q])); }
                let strict = matches!(k, K::RLt(..));
                if m.1 < 0.0 || (!strict && m.1 <= 0.0) { v[j].t = 1; } else if m.0 > 0.0 || (strict && m.0 >= 0.0) { v[j].t = 2; }
            }
            match k {
                K::Not(_) => v[j].t = match v[kd[0]].t { 1 => 2, 2 => 1, _ => 0 },
                K::And(..) => { let (a, b) = (v[kd[0]].t, v[kd[1]].t); v[j].t = if a == 2 || b == 2 { 2 } else if a == 1 && b == 1 { 1 } else { 0 }; }
                K::Or(..) => { let (a, b) = (v[kd[0]].t, v[kd[1]].t); v[j].t = if a == 1 || b == 1 { 1 } else if a == 2 && b == 2 { 2 } else { 0 }; }
                _ => {}
            }
            d.push(g);
        }
    }
    pub fn solve(&self, boxes: u64, time: Duration) -> Out {
        let t0 = Instant::now();
        let mut start: HashMap<Id, (f64, f64)> = HashMap::new();
        for x in &self.vars {
            let n = &self.ar.n[*x as usize];
            let real = matches!(n.k, K::RVar(_));
            let b = if real { (n.rlo, n.rhi) } else { if n.ilo.abs() > 1 << 52 || n.ihi.abs() > 1 << 52 { return Out::Unknown; } (n.ilo as f64, n.ihi as f64) };
            if !(b.0.is_finite() && b.1.is_finite()) { return Out::Unknown; }
            start.insert(*x, b);
        }
        let first = start.clone();
        let mut st = vec![start];
        let (mut v, mut mid, mut d) = (vec![], vec![], vec![]);
        let mut n = 0;
        while let Some(b) = st.pop() {
            n += 1;
            if n > boxes || (n % 64 == 0 && t0.elapsed() > time) {
                if std::env::var("IRSYM_ICP").is_ok() {
                    eprintln!("icp gives up after {n} boxes, {:.2}s, {} nodes, {} vars, stack {} widths {:?} noise {}", t0.elapsed().as_secs_f64(), self.order.len(), self.vars.len(), st.len(), self.vars.iter().map(|x| (b[x].0, b[x].1, first[x].0, first[x].1)).collect::<Vec<_>>(), self.noise);
                    self.eval(&b, &mut v);
                    for (j, id) in self.order.iter().enumerate() { eprintln!("  {id} {:?} [{}, {}] t {} d {:?}", self.ar.n[*id as usize].k, v[j].lo, v[j].hi, v[j].t, d.get(j).map(|x: &D| [x[0], x[1]])); }
                }
                return Out::Unknown;
            }
            self.eval(&b, &mut v);
            if self.lits.iter().any(|l| v[*l].t == 2) { continue; }
            let c: HashMap<Id, (f64, f64)> = self.vars.iter().map(|x| { let w = b[x]; let m = 0.5 * (w.0 + w.1); let m = if matches!(self.ar.n[*x as usize].k, K::IVar(_)) { m.floor() } else { m.clamp(w.0, w.1) }; (*x, (m, m)) }).collect();
            self.eval(&c, &mut mid);
            if self.lits.iter().all(|l| mid[*l].t == 1) { return Out::Sat(c.iter().map(|(x, w)| (*x, w.0)).collect()); }
            // (mean value forms need a centre that lies in the box; integers carry no derivative)
            self.sharpen(&b, &mid, &mut v, &mut d);
            if self.lits.iter().any(|l| v[*l].t == 2) { continue; }
            let mut best = (0.0, None);
            for x in &self.vars {
                let (w, f) = (b[x], first[x]);
                let int = matches!(self.ar.n[*x as usize].k, K::IVar(_));
                if w.1 - w.0 <= 0.0 { continue; }
                let rel = (w.1 - w.0) / (f.1 - f.0);
                if !int && rel < 1e-10 { continue; }
                if rel > best.0 { best = (rel, Some((*x, int))); }
            }
            let Some((x, int)) = best.1 else { return Out::Unknown };
            let w = b[&x];
            let m = 0.5 * (w.0 + w.1);
            let (l, h) = if int { (m.floor(), m.floor() + 1.0) } else { (m, m) };
            let (mut p, mut q) = (b.clone(), b);
            p.insert(x, (w.0, l));
            q.insert(x, (h, w.1));
            st.push(q);
            st.push(p);
        }
        Out::Unsat
    }
}
