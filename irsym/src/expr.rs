//! Hash-consed expression arena. Machine integers are represented by their *signed canonical*
//! mathematical value; wrap-around is explicit (`wrap`) and is dropped when interval analysis
//! shows that it cannot occur. Finite doubles are represented by reals; rounding of an operation
//! is an explicit bounded error term (`round`).
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Uf { Sqrt, Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Exp, Ln, Log10, Log2, Pow, Tanh, Sinh, Cosh, Cbrt, Exp2, Hypot }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    IConst(i128),
    IVar(u32),
    IAdd(Id, Id),
    ISub(Id, Id),
    IMul(Id, Id),
    IDiv(Id, i128),
    IMod(Id, i128),
    /// the same value, known to lie in a range on the paths where the node is used
    Narrow(Id, i128, i128),
    IIte(Id, Id, Id),
    Floor(Id),
    RConst(u64),
    RVar(u32),
    RAdd(Id, Id),
    RSub(Id, Id),
    RMul(Id, Id),
    RDiv(Id, Id),
    RNeg(Id),
    RIte(Id, Id, Id),
    ToReal(Id),
    Uf(Uf, Id, Id),
    Err(Id, u64),
    B(bool),
    Not(Id),
    And(Id, Id),
    Or(Id, Id),
    ILe(Id, Id),
    ILt(Id, Id),
    IEq(Id, Id),
    RLe(Id, Id),
    RLt(Id, Id),
    REq(Id, Id),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sort { Bool, Int, Real }

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: K,
    pub ilo: i128,
    pub ihi: i128,
    pub rlo: f64,
    pub rhi: f64,
    /// the cone contains a node that carries axioms (variables, error terms, UF applications)
    pub ax: bool,
}

pub const IBIG: i128 = 1 << 120;

#[derive(Clone, Copy, Debug)]
pub enum InputVal { I(i128), F(f64) }

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub real: bool,
    pub ilo: i128,
    pub ihi: i128,
    pub rlo: f64,
    pub rhi: f64,
    /// id of the node of this variable
    pub node: Id,
}

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<K, Id>,
    pub vars: Vec<VarInfo>,
    /// number of operations whose rounding error could not be bounded by a constant
    pub unrounded: u64,
    pub rounded: u64,
}

fn dn(x: f64) -> f64 {
    if x == 0.0 || !x.is_finite() { return x; }
    x - x.abs() * 4e-16 - 1e-320
}
fn up(x: f64) -> f64 {
    if x == 0.0 || !x.is_finite() { return x; }
    x + x.abs() * 4e-16 + 1e-320
}
/// range of a sine-like function whose maxima are at top + 2 n pi
fn wave(lo: f64, hi: f64, f: fn(f64) -> f64, top: f64) -> (f64, f64) {
    let tau = 2.0 * std::f64::consts::PI;
    if !(lo.is_finite() && hi.is_finite()) || hi - lo >= tau || lo.abs() > 1e6 || hi.abs() > 1e6 { return (-1.0, 1.0); }
    let (a, b) = (f(lo), f(hi));
    let has = |t: f64| { let k = ((lo - 1e-9 - t) / tau).ceil(); t + k * tau <= hi + 1e-9 };
    let l = if has(top + tau / 2.0) { -1.0 } else { dn(dn(a.min(b))) - 1e-16 };
    let h = if has(top) { 1.0 } else { up(up(a.max(b))) + 1e-16 };
    (l.max(-1.0), h.min(1.0))
}
fn mulb(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 { 0.0 } else { a * b }
}

impl Arena {
    pub fn sort(&self, i: Id) -> Sort {
        use K::*;
        match self.n[i as usize].k {
            IConst(_) | IVar(_) | IAdd(..) | ISub(..) | IMul(..) | IDiv(..) | IMod(..) | Narrow(..) | IIte(..) | Floor(_) => Sort::Int,
            RConst(_) | RVar(_) | RAdd(..) | RSub(..) | RMul(..) | RDiv(..) | RNeg(_) | RIte(..) | ToReal(_) | Uf(..) | Err(..) => Sort::Real,
            _ => Sort::Bool,
        }
    }
    fn mk(&mut self, k: K) -> Id {
        if let Some(i) = self.map.get(&k) {
            return *i;
        }
        let mut nd = Node { k, ilo: -IBIG, ihi: IBIG, rlo: f64::NEG_INFINITY, rhi: f64::INFINITY, ax: false };
        self.bounds(&mut nd);
        let id = self.n.len() as Id;
        self.n.push(nd);
        self.map.insert(k, id);
        id
    }
    pub fn children(k: &K) -> [Option<Id>; 3] {
        use K::*;
        match *k {
            IAdd(a, b) | ISub(a, b) | IMul(a, b) | RAdd(a, b) | RSub(a, b) | RMul(a, b) | RDiv(a, b) | And(a, b) | Or(a, b) | ILe(a, b) | ILt(a, b) | IEq(a, b) | RLe(a, b) | RLt(a, b) | REq(a, b) => [Some(a), Some(b), None],
            IDiv(a, _) | IMod(a, _) | Narrow(a, ..) | Floor(a) | RNeg(a) | ToReal(a) | Not(a) | Err(a, _) => [Some(a), None, None],
            Uf(_, a, b) => [Some(a), Some(b), None],
            IIte(a, b, c) | RIte(a, b, c) => [Some(a), Some(b), Some(c)],
            _ => [None, None, None],
        }
    }
    fn bounds(&mut self, nd: &mut Node) {
        let i = |x: Id| (self.n[x as usize].ilo, self.n[x as usize].ihi);
        let r = |x: Id| (self.n[x as usize].rlo, self.n[x as usize].rhi);
        let mut ax = false;
        for c in Self::children(&nd.k).into_iter().flatten() {
            ax |= self.n[c as usize].ax;
        }
        if matches!(nd.k, K::IVar(_) | K::RVar(_) | K::Err(..) | K::Uf(..)) {
            ax = true;
        }
        nd.ax = ax;
        self.enclose(nd, &i, &r);
    }
    /// interval of an operation from the intervals of its operands
    pub fn enclose(&self, nd: &mut Node, i: &dyn Fn(Id) -> (i128, i128), r: &dyn Fn(Id) -> (f64, f64)) {
        use K::*;
        let cl = |a: i128| a.clamp(-IBIG, IBIG);
        match nd.k {
            IConst(v) => { nd.ilo = v; nd.ihi = v; }
            IVar(v) => { nd.ilo = self.vars[v as usize].ilo; nd.ihi = self.vars[v as usize].ihi; }
            IAdd(a, b) => { let (x, y) = (i(a), i(b)); nd.ilo = cl(x.0.saturating_add(y.0)); nd.ihi = cl(x.1.saturating_add(y.1)); }
            ISub(a, b) => { let (x, y) = (i(a), i(b)); nd.ilo = cl(x.0.saturating_sub(y.1)); nd.ihi = cl(x.1.saturating_sub(y.0)); }
            IMul(a, b) => {
                let (x, y) = (i(a), i(b));
                let c = [x.0.saturating_mul(y.0), x.0.saturating_mul(y.1), x.1.saturating_mul(y.0), x.1.saturating_mul(y.1)];
                nd.ilo = cl(*c.iter().min().unwrap());
                nd.ihi = cl(*c.iter().max().unwrap());
            }
            IDiv(a, m) => { let x = i(a); nd.ilo = x.0.div_euclid(m); nd.ihi = x.1.div_euclid(m); }
            IMod(a, m) => { let x = i(a); if x.0.div_euclid(m) == x.1.div_euclid(m) { nd.ilo = x.0.rem_euclid(m); nd.ihi = x.1.rem_euclid(m); } else { nd.ilo = 0; nd.ihi = m - 1; } }
            Narrow(a, l, h) => { let x = i(a); nd.ilo = x.0.max(l); nd.ihi = x.1.min(h).max(nd.ilo); }
            IIte(_, a, b) => { let (x, y) = (i(a), i(b)); nd.ilo = x.0.min(y.0); nd.ihi = x.1.max(y.1); }
            Floor(a) => {
                let x = r(a);
                nd.ilo = if x.0 > -1e30 { x.0.floor() as i128 } else { -IBIG };
                nd.ihi = if x.1 < 1e30 { x.1.floor() as i128 } else { IBIG };
            }
            RConst(b) => { let v = f64::from_bits(b); nd.rlo = v; nd.rhi = v; }
            RVar(v) => { nd.rlo = self.vars[v as usize].rlo; nd.rhi = self.vars[v as usize].rhi; }
            RAdd(a, b) => { let (x, y) = (r(a), r(b)); nd.rlo = dn(x.0 + y.0); nd.rhi = up(x.1 + y.1); }
            RSub(a, b) => { let (x, y) = (r(a), r(b)); nd.rlo = dn(x.0 - y.1); nd.rhi = up(x.1 - y.0); }
            RMul(a, b) => {
                let (x, y) = (r(a), r(b));
                let c = [mulb(x.0, y.0), mulb(x.0, y.1), mulb(x.1, y.0), mulb(x.1, y.1)];
                let mut lo = dn(c.iter().copied().fold(f64::INFINITY, f64::min));
                let hi = up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
                if a == b { lo = if x.0 <= 0.0 && x.1 >= 0.0 { 0.0 } else { dn((x.0 * x.0).min(x.1 * x.1)) }; }
                nd.rlo = lo;
                nd.rhi = hi;
            }
            RDiv(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 > 0.0 || y.1 < 0.0 {
                    let c = [x.0 / y.0, x.0 / y.1, x.1 / y.0, x.1 / y.1];
                    if c.iter().all(|v| !v.is_nan()) {
                        nd.rlo = dn(c.iter().copied().fold(f64::INFINITY, f64::min));
                        nd.rhi = up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
                    }
                } else if y.0 == 0.0 {
                    // the divisor is never zero where this node is used
                    if x.0 >= 0.0 { nd.rlo = 0.0; if y.1.is_finite() { nd.rlo = dn(x.0 / y.1); } }
                    if x.1 <= 0.0 { nd.rhi = 0.0; }
                }
            }
            RNeg(a) => { let x = r(a); nd.rlo = -x.1; nd.rhi = -x.0; }
            RIte(_, a, b) => { let (x, y) = (r(a), r(b)); nd.rlo = x.0.min(y.0); nd.rhi = x.1.max(y.1); }
            ToReal(a) => {
                let x = i(a);
                nd.rlo = if x.0 <= -IBIG { f64::NEG_INFINITY } else { dn(x.0 as f64) };
                nd.rhi = if x.1 >= IBIG { f64::INFINITY } else { up(x.1 as f64) };
                if x.0.abs() < (1 << 53) { nd.rlo = x.0 as f64; }
                if x.1.abs() < (1 << 53) { nd.rhi = x.1 as f64; }
            }
            Err(_, e) => { let e = f64::from_bits(e); nd.rlo = -e; nd.rhi = e; }
            Uf(k, a, b) => {
                let x = r(a);
                let y = r(b);
                let pi = std::f64::consts::PI;
                let mono = |f: fn(f64) -> f64| (dn(dn(f(x.0))), up(up(f(x.1))));
                let (lo, hi) = match k {
                    self::Uf::Sqrt => (if x.0 > 0.0 { dn(x.0.sqrt()) } else { 0.0 }, if x.1 >= 0.0 { up(x.1.sqrt()) } else { 0.0 }),
                    self::Uf::Sin => wave(x.0, x.1, f64::sin, pi / 2.0),
                    self::Uf::Cos => wave(x.0, x.1, f64::cos, 0.0),
                    self::Uf::Tan => if x.0 > -pi / 2.0 + 1e-9 && x.1 < pi / 2.0 - 1e-9 { mono(f64::tan) } else { (f64::NEG_INFINITY, f64::INFINITY) },
                    self::Uf::Asin => (dn(x.0.max(-1.0).asin()), up(x.1.min(1.0).asin())),
                    self::Uf::Acos => (dn(x.1.min(1.0).acos()), up(x.0.max(-1.0).acos())),
                    self::Uf::Atan => mono(f64::atan),
                    self::Uf::Atan2 => if y.0 > 0.0 || x.0 > 0.0 || x.1 < 0.0 {
                        // clear of the origin and of the cut: extreme at the corners
                        let c = [x.0.atan2(y.0), x.0.atan2(y.1), x.1.atan2(y.0), x.1.atan2(y.1)];
                        (dn(dn(c.iter().copied().fold(f64::INFINITY, f64::min))), up(up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max))))
                    } else { (-up(pi), up(pi)) },
                    self::Uf::Exp => mono(f64::exp),
                    self::Uf::Exp2 => mono(f64::exp2),
                    self::Uf::Ln => (if x.0 > 0.0 { dn(x.0.ln()) } else { f64::NEG_INFINITY }, up(x.1.ln())),
                    self::Uf::Log10 => (if x.0 > 0.0 { dn(x.0.log10()) } else { f64::NEG_INFINITY }, up(x.1.log10())),
                    self::Uf::Log2 => (if x.0 > 0.0 { dn(x.0.log2()) } else { f64::NEG_INFINITY }, up(x.1.log2())),
                    self::Uf::Tanh => (dn(x.0.tanh()).max(-1.0), up(x.1.tanh()).min(1.0)),
                    self::Uf::Sinh => mono(f64::sinh),
                    self::Uf::Cosh => (1.0, up(up(x.0.cosh().max(x.1.cosh())))),
                    self::Uf::Cbrt => mono(f64::cbrt),
                    self::Uf::Hypot => (0.0, up(up(x.0.abs().max(x.1.abs()).hypot(y.0.abs().max(y.1.abs()))))),
                    self::Uf::Pow => {
                        if x.0 >= 0.0 && x.1.is_finite() && y.0.is_finite() && y.1.is_finite() {
                            let c = [x.0.powf(y.0), x.0.powf(y.1), x.1.powf(y.0), x.1.powf(y.1), if x.0 <= 1.0 && x.1 >= 1.0 { 1.0 } else { x.1.powf(y.0) }];
                            (dn(dn(c.iter().copied().fold(f64::INFINITY, f64::min))).max(0.0), up(up(c.iter().copied().fold(0.0, f64::max))))
                        } else { (f64::NEG_INFINITY, f64::INFINITY) }
                    }
                };
                nd.rlo = if lo.is_nan() { f64::NEG_INFINITY } else { lo };
                nd.rhi = if hi.is_nan() { f64::INFINITY } else { hi };
            }
            _ => {}
        }
        if nd.rlo.is_nan() { nd.rlo = f64::NEG_INFINITY; }
        if nd.rhi.is_nan() { nd.rhi = f64::INFINITY; }
    }

    // ---------------------------------------------------------------- variables
    /// the value is the second number plus a multiple of the first one
    pub fn stride(&self, x: Id) -> (i128, i128) {
        fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
        match self.n[x as usize].k {
            K::IConst(v) => (0, v),
            K::IAdd(a, b) => { let (p, q) = (self.stride(a), self.stride(b)); (gcd(p.0, q.0), p.1 + q.1) }
            K::ISub(a, b) => { let (p, q) = (self.stride(a), self.stride(b)); (gcd(p.0, q.0), p.1 - q.1) }
            K::IMul(a, b) => match (self.icv(a), self.icv(b)) {
                (Some(c), _) if c.abs() < 1 << 40 => { let p = self.stride(b); (p.0 * c.abs(), p.1 * c) }
                (_, Some(c)) if c.abs() < 1 << 40 => { let p = self.stride(a); (p.0 * c.abs(), p.1 * c) }
                _ => (1, 0),
            },
            K::Narrow(a, _, _) => self.stride(a),
            _ => (1, 0),
        }
    }
    pub fn ivar(&mut self, lo: i128, hi: i128) -> Id {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { real: false, ilo: lo, ihi: hi, rlo: 0.0, rhi: 0.0, node: 0 });
        let id = self.mk(K::IVar(v));
        self.vars[v as usize].node = id;
        id
    }
    pub fn rvar(&mut self, lo: f64, hi: f64) -> Id {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { real: true, ilo: 0, ihi: 0, rlo: lo, rhi: hi, node: 0 });
        let id = self.mk(K::RVar(v));
        self.vars[v as usize].node = id;
        id
    }

    // ---------------------------------------------------------------- integers
    pub fn ic(&mut self, v: i128) -> Id { self.mk(K::IConst(v)) }
    pub fn icv(&self, a: Id) -> Option<i128> {
        let n = &self.n[a as usize];
        match n.k { K::IConst(v) => Some(v), _ => if n.ilo == n.ihi { Some(n.ilo) } else { None } }
    }
    /// the constants a choice is made from, when there are few
    pub fn leaves(&self, a: Id) -> Option<Vec<i128>> {
        fn go(ar: &Arena, a: Id, depth: u32) -> Option<Vec<i128>> {
            if let Some(v) = ar.icv(a) { return Some(vec![v]); }
            if depth > 40 { return None; }
            let bin = |x: Id, y: Id, f: &dyn Fn(i128, i128) -> i128| -> Option<Vec<i128>> {
                let (p, q) = (go(ar, x, depth + 1)?, go(ar, y, depth + 1)?);
                let mut v: Vec<i128> = p.iter().flat_map(|i| q.iter().map(move |j| (*i, *j))).map(|(i, j)| f(i, j)).collect();
                v.sort(); v.dedup();
                if v.len() > 24 { None } else { Some(v) }
            };
            match ar.n[a as usize].k {
                K::IIte(_, x, y) => {
                    let mut v = go(ar, x, depth + 1)?;
                    v.extend(go(ar, y, depth + 1)?);
                    v.sort(); v.dedup();
                    if v.len() > 24 { None } else { Some(v) }
                }
                K::IAdd(x, y) => bin(x, y, &|i, j| i + j),
                K::ISub(x, y) => bin(x, y, &|i, j| i - j),
                K::IMul(x, y) => bin(x, y, &|i, j| i * j),
                K::IMod(x, m) => { let mut v: Vec<i128> = go(ar, x, depth + 1)?.iter().map(|i| i.rem_euclid(m)).collect(); v.sort(); v.dedup(); Some(v) }
                K::Narrow(x, l, h) => { let mut v = go(ar, x, depth + 1)?; v.retain(|i| *i >= l && *i <= h); Some(v) }
                _ => None,
            }
        }
        go(self, a, 0)
    }
    pub fn narrow(&mut self, a: Id, lo: i128, hi: i128) -> Id {
        let a = if let K::Narrow(b, l, h) = self.n[a as usize].k { return self.mk(K::Narrow(b, l.max(lo), h.min(hi))); } else { a };
        self.mk(K::Narrow(a, lo, hi))
    }
    pub fn ir(&self, a: Id) -> (i128, i128) { (self.n[a as usize].ilo, self.n[a as usize].ihi) }
    pub fn rr(&self, a: Id) -> (f64, f64) { (self.n[a as usize].rlo, self.n[a as usize].rhi) }
    // -- linear normal form: sums are kept as sorted coefficient * atom terms plus a constant
    fn lin(&self, id: Id, c: i128, out: &mut Vec<(Id, i128)>, k: &mut i128) -> bool {
        let mut st = vec![(id, c)];
        while let Some((id, c)) = st.pop() {
            if out.len() > 64 { return false; }
            if let Some(v) = self.icv(id) {
                let Some(t) = v.checked_mul(c).and_then(|t| t.checked_add(*k)) else { return false };
                *k = t;
                continue;
            }
            match self.n[id as usize].k {
                K::IAdd(p, q) => { st.push((p, c)); st.push((q, c)); }
                K::ISub(p, q) => { st.push((p, c)); st.push((q, -c)); }
                K::IMul(p, q) if self.icv(q).is_some() => {
                    let Some(d) = c.checked_mul(self.icv(q).unwrap()) else { return false };
                    st.push((p, d));
                }
                _ => out.push((id, c)),
            }
        }
        true
    }
    fn norm(t: &mut Vec<(Id, i128)>) {
        t.sort();
        let mut o: Vec<(Id, i128)> = Vec::with_capacity(t.len());
        for (a, c) in t.drain(..) {
            match o.last_mut() { Some((b, d)) if *b == a => *d += c, _ => o.push((a, c)) }
        }
        o.retain(|x| x.1 != 0);
        *t = o;
    }
    /// rejoin quotients and remainders of the same value
    fn divmod(&mut self, t: &mut Vec<(Id, i128)>, k: &mut i128) {
        for _ in 0..8 {
            let mut hit = None;
            'find: for &(a, c) in t.iter() {
                let (x, m, is_mod) = match self.n[a as usize].k { K::IMod(x, m) => (x, m, true), K::IDiv(x, m) => (x, m, false), _ => continue };
                let (mut xt, mut xk) = (vec![], 0);
                if !self.lin(x, 1, &mut xt, &mut xk) { continue; }
                Self::norm(&mut xt);
                if is_mod {
                    // c * (x mod m) + c * m * (x div m) = c * x
                    if let Some(d) = self.map.get(&K::IDiv(x, m)).copied() {
                        if t.iter().any(|y| y.0 == d && Some(y.1) == c.checked_mul(m)) { hit = Some((a, d, c, xt, xk, 0, m)); break 'find; }
                    }
                    // c * (x mod m) - c * x = -c * m * (x div m)
                    if !xt.is_empty() && xt.iter().all(|(xa, xc)| t.iter().any(|y| y.0 == *xa && y.1 == -c * xc)) { hit = Some((a, x, c, xt, xk, 1, m)); break 'find; }
                } else if c % m == 0 {
                    // c * m * (x div m) - c * x = -c * (x mod m)
                    let e = c / m;
                    if !xt.is_empty() && xt.iter().all(|(xa, xc)| t.iter().any(|y| y.0 == *xa && y.1 == -e * xc)) { hit = Some((a, x, e, xt, xk, 2, m)); break 'find; }
                }
            }
            let Some((a, d, c, xt, xk, rule, m)) = hit else { return };
            t.retain(|y| y.0 != a);
            match rule {
                0 => { t.retain(|y| y.0 != d); for (xa, xc) in xt { t.push((xa, c * xc)); } *k += c * xk; }
                1 => { for (xa, xc) in xt { t.push((xa, c * xc)); } *k += c * xk; let q = self.idiv(d, m); if !self.lin(q, -c * m, t, k) { unreachable!() } }
                _ => { for (xa, xc) in xt { t.push((xa, c * xc)); } *k += c * xk; let q = self.imod(d, m); if !self.lin(q, -c, t, k) { unreachable!() } }
            }
            Self::norm(t);
        }
    }
    fn unlin(&mut self, t: &[(Id, i128)], k: i128) -> Id {
        if let [(a, c)] = t {
            if let K::IIte(cc, x, y) = self.n[*a as usize].k {
                if let (Some(x), Some(y)) = (self.icv(x), self.icv(y)) {
                    let x = self.ic(x * c + k);
                    let y = self.ic(y * c + k);
                    return self.iite(cc, x, y);
                }
            }
        }
        let mut acc: Option<Id> = None;
        let mut neg = vec![];
        for (a, c) in t {
            if *c < 0 { neg.push((*a, -*c)); continue; }
            let x = if *c == 1 { *a } else { let z = self.ic(*c); self.mk(K::IMul(*a, z)) };
            acc = Some(match acc { None => x, Some(y) => self.mk(K::IAdd(y, x)) });
        }
        for (a, c) in neg {
            let x = if c == 1 { a } else { let z = self.ic(c); self.mk(K::IMul(a, z)) };
            let y = match acc { None => self.ic(0), Some(y) => y };
            acc = Some(self.mk(K::ISub(y, x)));
        }
        let kc = self.ic(k);
        match acc { None => kc, Some(y) => if k == 0 { y } else { self.mk(K::IAdd(y, kc)) } }
    }
    /// ca * a + cb * b
    fn combine(&mut self, a: Id, ca: i128, b: Id, cb: i128) -> Option<Id> {
        let (mut t, mut k) = (vec![], 0);
        if !self.lin(a, ca, &mut t, &mut k) || !self.lin(b, cb, &mut t, &mut k) { return None; }
        Self::norm(&mut t);
        if t.len() > 24 { return None; }
        self.divmod(&mut t, &mut k);
        Some(self.unlin(&t, k))
    }
    pub fn iadd(&mut self, a: Id, b: Id) -> Id {
        match (self.icv(a), self.icv(b)) {
            (Some(x), Some(y)) => return self.ic(x.wrapping_add(y)),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if let Some(r) = self.combine(a, 1, b, 1) { return r; }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::IAdd(a, b))
    }
    pub fn isub(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.ic(0); }
        if self.icv(b) == Some(0) { return a; }
        if let Some(r) = self.combine(a, 1, b, -1) { return r; }
        self.mk(K::ISub(a, b))
    }
    pub fn imul(&mut self, a: Id, b: Id) -> Id {
        match (self.icv(a), self.icv(b)) {
            (Some(x), Some(y)) => return self.ic(x.wrapping_mul(y)),
            (Some(_), None) => return self.imul(b, a),
            (None, Some(0)) => return self.ic(0),
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                let z = self.ic(0);
                if let Some(r) = self.combine(a, y, z, 1) { return r; }
                return self.mk(K::IMul(a, b));
            }
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::IMul(a, b))
    }
    pub fn is_mult(&self, a: Id, m: i128) -> bool {
        if m == 1 { return true; }
        match self.n[a as usize].k {
            K::IConst(v) => v % m == 0,
            K::IMul(p, q) => self.is_mult(p, m) || self.is_mult(q, m),
            K::IAdd(p, q) | K::ISub(p, q) => self.is_mult(p, m) && self.is_mult(q, m),
            K::IIte(_, p, q) => self.is_mult(p, m) && self.is_mult(q, m),
            K::IMod(p, k) => k % m == 0 && self.is_mult(p, m),
            _ => false,
        }
    }
    fn terms_range(&self, t: &[(Id, i128)], k: i128) -> (i128, i128) {
        let (mut l, mut h) = (k, k);
        for (a, c) in t {
            let (x, y) = self.ir(*a);
            let (p, q) = (x.saturating_mul(*c), y.saturating_mul(*c));
            l = l.saturating_add(p.min(q));
            h = h.saturating_add(p.max(q));
        }
        (l, h)
    }
    /// floor division by a positive constant
    pub fn idiv(&mut self, a: Id, m: i128) -> Id {
        assert!(m > 0);
        if m == 1 { return a; }
        if let Some(v) = self.icv(a) { return self.ic(v.div_euclid(m)); }
        let (lo, hi) = self.ir(a);
        if lo > -IBIG && hi < IBIG && lo.div_euclid(m) == hi.div_euclid(m) { return self.ic(lo.div_euclid(m)); }
        let (mut t, mut k) = (vec![], 0);
        if self.lin(a, 1, &mut t, &mut k) && t.len() <= 24 {
            Self::norm(&mut t);
            // multiples of m leave the quotient
            let (mut q, mut r): (Vec<(Id, i128)>, Vec<(Id, i128)>) = (vec![], vec![]);
            for (x, c) in &t {
                if c % m == 0 { q.push((*x, c / m)); } else { r.push((*x, *c)); }
            }
            let (kq, kr) = (k.div_euclid(m), k.rem_euclid(m));
            if !q.is_empty() || kq != 0 {
                let rest = self.unlin(&r, kr);
                let d = self.idiv(rest, m);
                let q = self.unlin(&q, kq);
                return self.iadd(q, d);
            }
            // (g * y + r) div (g * n) = y div n for 0 <= r < g
            if let Some((y, n)) = self.scale(&t, k, m) { return if n == 1 { y } else { self.idiv(y, n) }; }
        }
        if let K::IDiv(p, k) = self.n[a as usize].k {
            if let Some(km) = k.checked_mul(m) { return self.idiv(p, km); }
        }
        if let K::IIte(c, t, e) = self.n[a as usize].k {
            if self.icv(t).is_some() && self.icv(e).is_some() {
                let t2 = self.idiv(t, m);
                let e2 = self.idiv(e, m);
                return self.iite(c, t2, e2);
            }
        }
        self.mk(K::IDiv(a, m))
    }
    fn scale(&mut self, t: &[(Id, i128)], k: i128, m: i128) -> Option<(Id, i128)> {
        for (_, c) in t {
            let g = gcd(c.abs(), m);
            if g <= 1 { continue; }
            let (mut y, mut r): (Vec<(Id, i128)>, Vec<(Id, i128)>) = (vec![], vec![]);
            for (x, c) in t { if c % g == 0 { y.push((*x, c / g)); } else { r.push((*x, *c)); } }
            if y.is_empty() { continue; }
            let (ky, kr) = (k.div_euclid(g), k.rem_euclid(g));
            // the rest may itself sit in another block of g
            let (l, h) = self.terms_range(&r, kr);
            if l >= 0 && h < g { return Some((self.unlin(&y, ky), m / g)); }
            let (l2, h2) = self.terms_range(&r, kr - g);
            if l2 >= 0 && h2 < g { return Some((self.unlin(&y, ky + 1), m / g)); }
        }
        None
    }
    pub fn imod(&mut self, a: Id, m: i128) -> Id {
        assert!(m > 0);
        if m == 1 { return self.ic(0); }
        if let Some(v) = self.icv(a) { return self.ic(v.rem_euclid(m)); }
        let (lo, hi) = self.ir(a);
        if lo >= 0 && hi < m { return a; }
        if lo > -IBIG && hi < IBIG && lo.div_euclid(m) == hi.div_euclid(m) {
            let c = self.ic(-(lo.div_euclid(m) * m));
            return self.iadd(a, c);
        }
        let (mut t, mut k) = (vec![], 0);
        if self.lin(a, 1, &mut t, &mut k) && t.len() <= 24 {
            Self::norm(&mut t);
            let mut r: Vec<(Id, i128)> = vec![];
            let mut changed = k < 0 || k >= m;
            let mut k2 = k.rem_euclid(m);
            for (x, c) in &t {
                if c % m == 0 { changed = true; continue; }
                if let K::IMod(p, n) = self.n[*x as usize].k {
                    // c * (p mod n) = c * p modulo m where m divides c * n
                    if c.checked_mul(n).map(|z| z % m == 0) == Some(true) {
                        changed = true;
                        if !self.lin(p, *c, &mut r, &mut k2) { return self.mk(K::IMod(a, m)); }
                        continue;
                    }
                }
                r.push((*x, *c));
            }
            if changed {
                Self::norm(&mut r);
                let k2 = k2.rem_euclid(m);
                let x = self.unlin(&r, k2);
                return self.imod(x, m);
            }
            // (g * y + r) mod (g * n) = g * (y mod n) + r for 0 <= r < g
            if let Some((y, n)) = self.scale(&t, k, m) {
                let g = m / n;
                let ym = if n == 1 { self.ic(0) } else { self.imod(y, n) };
                let gc = self.ic(g);
                let yg = self.imul(y, gc);
                let r = self.isub(a, yg);
                let ymg = self.imul(ym, gc);
                return self.iadd(ymg, r);
            }
        }
        if let K::IIte(c, t, e) = self.n[a as usize].k {
            if self.icv(t).is_some() && self.icv(e).is_some() {
                let t2 = self.imod(t, m);
                let e2 = self.imod(e, m);
                return self.iite(c, t2, e2);
            }
        }
        self.mk(K::IMod(a, m))
    }
    pub fn iite(&mut self, c: Id, a: Id, b: Id) -> Id {
        match self.n[c as usize].k {
            K::B(true) => return a,
            K::B(false) => return b,
            K::Not(d) => return self.iite(d, b, a),
            _ => {}
        }
        if a == b { return a; }
        self.mk(K::IIte(c, a, b))
    }
    /// signed canonical wrap to w bits
    pub fn wrap(&mut self, a: Id, w: u32) -> Id {
        if w >= 128 { return a; }
        let h = 1i128 << (w - 1);
        let (lo, hi) = self.ir(a);
        if lo >= -h && hi < h { return a; }
        if lo >= -h && hi < 3 * h && hi < IBIG {
            // at most one overflow upwards
            if lo >= h { let c = self.ic(-2 * h); return self.iadd(a, c); }
            let hc = self.ic(h);
            let cond = self.ilt(a, hc);
            let c = self.ic(-2 * h);
            let b = self.iadd(a, c);
            return self.iite(cond, a, b);
        }
        let hc = self.ic(h);
        let s = self.iadd(a, hc);
        let m = self.imod(s, 2 * h);
        let c = self.ic(-h);
        self.iadd(m, c)
    }
    /// unsigned value of a signed canonical w-bit integer
    pub fn uns(&mut self, a: Id, w: u32) -> Id {
        let (lo, hi) = self.ir(a);
        if lo >= 0 { return a; }
        let m = 1i128.checked_shl(w).filter(|_| w < 127).unwrap_or(0);
        if m == 0 { return a; }
        let mc = self.ic(m);
        if hi < 0 { return self.iadd(a, mc); }
        let z = self.ic(0);
        let c = self.ilt(a, z);
        let b = self.iadd(a, mc);
        self.iite(c, b, a)
    }
    /// bitwise and with a non-negative constant, on the infinite two's complement value
    pub fn iand_c(&mut self, a: Id, m: i128) -> Id {
        if m < 0 {
            let x = self.iand_c(a, !m);
            return self.isub(a, x);
        }
        let mut acc = self.ic(0);
        let mut m = m;
        let mut s = 0u32;
        while m != 0 {
            let tz = m.trailing_zeros();
            m >>= tz;
            s += tz;
            let ones = (!m).trailing_zeros();
            let d = self.idiv(a, 1i128 << s);
            let r = self.imod(d, 1i128 << ones);
            let c = self.ic(1i128 << s);
            let t = self.imul(r, c);
            acc = self.iadd(acc, t);
            m >>= ones;
            s += ones;
        }
        acc
    }
    /// the bytes of a word assembled from bytes
    fn bytes(&mut self, a: Id) -> Option<Vec<Id>> {
        let (lo, hi) = self.ir(a);
        if lo < 0 || hi >= 1 << 64 { return None; }
        let (mut t, mut k) = (vec![], 0);
        if !self.lin(a, 1, &mut t, &mut k) { return None; }
        Self::norm(&mut t);
        let mut o = vec![];
        for i in 0..8u32 {
            let mut b = self.ic(k & 255);
            k >>= 8;
            for (x, c) in &t {
                if *c == 0 { return None; }
                if c.trailing_zeros() / 8 == i {
                    let c = self.ic(c >> (8 * i));
                    let y = self.imul(*x, c);
                    b = self.iadd(b, y);
                }
            }
            let (l, h) = self.ir(b);
            if l >= 256 && h < 512 {
                // always a carry
                let c = self.ic(256);
                b = self.isub(b, c);
                k += 1;
            } else if l >= -256 && h < 0 {
                let c = self.ic(256);
                b = self.iadd(b, c);
                k -= 1;
            } else if l < 0 || h > 255 { return None; }
            o.push(b);
        }
        Some(o)
    }
    /// the bits one by one, so that those without a choice stay constant
    fn bitop8(&mut self, op: u8, a: Id, b: Id) -> Result<Id, String> {
        if a == b || self.icv(a).is_some() && self.icv(b).is_some() { return self.bitop(op, a, b); }
        let mut acc = self.ic(0);
        for s in 0..8 {
            let x = self.idiv(a, 1 << s);
            let x = self.imod(x, 2);
            let y = self.idiv(b, 1 << s);
            let y = self.imod(y, 2);
            let t = match op {
                0 => self.iadd(x, y),
                1 => self.iadd(x, y),
                _ => self.isub(x, y),
            };
            let cmp = self.ic(match op { 0 => 2, _ => 0 });
            let e = self.ieq(t, cmp);
            let (v, z) = (self.ic(1 << s), self.ic(0));
            let t = if op == 0 { self.iite(e, v, z) } else { self.iite(e, z, v) };
            acc = self.iadd(acc, t);
        }
        Ok(acc)
    }
    pub fn bitop(&mut self, op: u8, a: Id, b: Id) -> Result<Id, String> {
        // 0 and, 1 or, 2 xor
        if let Some(x) = self.icv(a) {
            if self.icv(b).is_none() { return self.bitop(op, b, a); }
            let y = self.icv(b).unwrap();
            return Ok(self.ic(match op { 0 => x & y, 1 => x | y, _ => x ^ y }));
        }
        if a == b { return Ok(if op == 2 { self.ic(0) } else { a }); }
        let and = if let Some(m) = self.icv(b) {
            self.iand_c(a, m)
        } else {
            let (al, ah) = self.ir(a);
            let (bl, bh) = self.ir(b);
            // a multiple of 2^k against a value of fewer than k bits, whatever the sign of the multiple
            for (x, y) in [(a, b), (b, a)] {
                let (yl, yh) = self.ir(y);
                if yl >= 0 {
                    let k = 128 - (yh as u128).leading_zeros();
                    if k < 120 && self.is_mult(x, 1i128 << k) {
                        return Ok(if op == 0 { self.ic(0) } else { self.iadd(x, y) });
                    }
                }
            }
            if al < 0 || bl < 0 || ah.max(bh) >= 2 {
                // a choice between constants, e.g. masks from i1 sign extension
                for (x, y) in [(b, a), (a, b)] {
                    if let K::IIte(c, t, e) = self.n[x as usize].k {
                        if self.icv(t).is_some() || self.icv(e).is_some() {
                            let t = self.bitop(op, y, t);
                            let e = self.bitop(op, y, e);
                            if let (Ok(t), Ok(e)) = (t, e) { return Ok(self.iite(c, t, e)); }
                        }
                    }
                }
            }
            if al < 0 || bl < 0 {
                return Err("bit operation on two symbolic signed operands".into());
            }
            // byte by byte, e.g. words of a text
            if ah.max(bh) >= 1 << 8 {
                if let (Some(x), Some(y)) = (self.bytes(a), self.bytes(b)) {
                    let mut acc = self.ic(0);
                    for i in 0..x.len().max(y.len()) {
                        let z = self.ic(0);
                        let r = self.bitop8(op, x.get(i).copied().unwrap_or(z), y.get(i).copied().unwrap_or(z))?;
                        let c = self.ic(1i128 << (8 * i));
                        let t = self.imul(r, c);
                        acc = self.iadd(acc, t);
                    }
                    return Ok(acc);
                }
            }
            {
                let bits = 128 - (ah.max(bh) as u128).leading_zeros();
                if bits > 16 { return Err(format!("bit operation on two symbolic operands of {bits} bits")); }
                let mut acc = self.ic(0);
                for s in 0..bits {
                    let x = self.idiv(a, 1 << s);
                    let x = self.imod(x, 2);
                    let y = self.idiv(b, 1 << s);
                    let y = self.imod(y, 2);
                    let s2 = self.iadd(x, y);
                    let two = self.ic(2);
                    let c = self.ieq(s2, two);
                    let v = self.ic(1 << s);
                    let z = self.ic(0);
                    let t = self.iite(c, v, z);
                    acc = self.iadd(acc, t);
                }
                acc
            }
        };
        Ok(match op {
            0 => and,
            1 => { let s = self.iadd(a, b); self.isub(s, and) }
            _ => { let s = self.iadd(a, b); let two = self.ic(2); let d = self.imul(and, two); self.isub(s, d) }
        })
    }
    pub fn floor(&mut self, r: Id) -> Id {
        let (lo, hi) = self.rr(r);
        if lo > -1e30 && hi < 1e30 && lo.floor() == hi.floor() { return self.ic(lo.floor() as i128); }
        if let K::ToReal(i) = self.n[r as usize].k { return i; }
        self.mk(K::Floor(r))
    }

    // ---------------------------------------------------------------- booleans
    pub fn b(&mut self, v: bool) -> Id { self.mk(K::B(v)) }
    pub fn bv(&self, a: Id) -> Option<bool> { match self.n[a as usize].k { K::B(v) => Some(v), _ => None } }
    pub fn not(&mut self, a: Id) -> Id {
        match self.n[a as usize].k {
            K::B(v) => self.b(!v),
            K::Not(x) => x,
            K::ILe(x, y) => self.ilt(y, x),
            K::ILt(x, y) => self.ile(y, x),
            K::RLe(x, y) => self.rlt(y, x),
            K::RLt(x, y) => self.rle(y, x),
            _ => self.mk(K::Not(a)),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        match (self.bv(a), self.bv(b)) {
            (Some(true), _) => return b,
            (_, Some(true)) => return a,
            (Some(false), _) | (_, Some(false)) => return self.b(false),
            _ => {}
        }
        if a == b { return a; }
        if self.not(a) == b { return self.b(false); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::And(a, b))
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        match (self.bv(a), self.bv(b)) {
            (Some(false), _) => return b,
            (_, Some(false)) => return a,
            (Some(true), _) | (_, Some(true)) => return self.b(true),
            _ => {}
        }
        if a == b { return a; }
        if self.not(a) == b { return self.b(true); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::Or(a, b))
    }
    pub fn bite(&mut self, c: Id, a: Id, b: Id) -> Id {
        let x = self.and(c, a);
        let nc = self.not(c);
        let y = self.and(nc, b);
        self.or(x, y)
    }
    pub fn bxor(&mut self, a: Id, b: Id) -> Id {
        let nb = self.not(b);
        self.bite(a, nb, b)
    }
    pub fn ile(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(true); }
        let (x, y) = (self.ir(a), self.ir(b));
        if x.1 < IBIG && y.0 > -IBIG && x.1 <= y.0 { return self.b(true); }
        if x.0 > -IBIG && y.1 < IBIG && x.0 > y.1 { return self.b(false); }
        if let Some((c, t, e)) = self.ite_const(a, b) { let t2 = self.ile(t.0, t.1); let e2 = self.ile(e.0, e.1); return self.bite(c, t2, e2); }
        self.mk(K::ILe(a, b))
    }
    pub fn ilt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(false); }
        let (x, y) = (self.ir(a), self.ir(b));
        if x.1 < IBIG && y.0 > -IBIG && x.1 < y.0 { return self.b(true); }
        if x.0 > -IBIG && y.1 < IBIG && x.0 >= y.1 { return self.b(false); }
        if let Some((c, t, e)) = self.ite_const(a, b) { let t2 = self.ilt(t.0, t.1); let e2 = self.ilt(e.0, e.1); return self.bite(c, t2, e2); }
        self.mk(K::ILt(a, b))
    }
    /// comparison of ite(c, k1, k2) (constants) with a constant
    fn ite_const(&self, a: Id, b: Id) -> Option<(Id, (Id, Id), (Id, Id))> {
        let both = |s: &Self, t: Id, e: Id| s.icv(t).is_some() && s.icv(e).is_some();
        if self.icv(b).is_some() {
            if let K::IIte(c, t, e) = self.n[a as usize].k { if both(self, t, e) { return Some((c, (t, b), (e, b))); } }
        } else if self.icv(a).is_some() {
            if let K::IIte(c, t, e) = self.n[b as usize].k { if both(self, t, e) { return Some((c, (a, t), (a, e))); } }
        }
        None
    }
    pub fn ieq(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(true); }
        let (x, y) = (self.ir(a), self.ir(b));
        if x.1 < y.0 || y.1 < x.0 { return self.b(false); }
        if x.0 == x.1 && y.0 == y.1 && x.0 == y.0 { return self.b(true); }
        if let Some((c, t, e)) = self.ite_const(a, b) { let t2 = self.ieq(t.0, t.1); let e2 = self.ieq(e.0, e.1); return self.bite(c, t2, e2); }
        // x + c == d
        if let (K::IAdd(p, q), Some(d)) = (self.n[a as usize].k, self.icv(b)) {
            if let Some(c) = self.icv(q) { let k = self.ic(d - c); return self.ieq(p, k); }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::IEq(a, b))
    }
    /// x with a = c * sqrt(x), c a constant above zero: gives c * c * x
    fn sqrt_squared(&mut self, a: Id) -> Option<Id> {
        match self.n[a as usize].k {
            K::Uf(Uf::Sqrt, x, _) => Some(x),
            K::RMul(u, c) => match (self.n[u as usize].k, self.rcv(c)) {
                (K::Uf(Uf::Sqrt, x, _), Some(v)) if v > 0.0 => { let y = self.rmul(x, c); Some(self.rmul(y, c)) }
                _ => None,
            },
            _ => None,
        }
    }
    /// comparisons of roots are comparisons of squares
    fn squares(&mut self, a: Id, b: Id) -> Option<(Id, Id)> {
        let sq = |s: &mut Self, x: Id, other: bool| -> Option<Id> {
            if let Some(v) = s.rcv(x) { if other && v >= 0.0 { let k = s.mk(K::RMul(x, x)); return Some(k); } return None; }
            s.sqrt_squared(x)
        };
        if self.rcv(a).is_some() && self.rcv(b).is_some() { return None; }
        let y = sq(self, b, self.rcv(a).is_none())?;
        let x = sq(self, a, self.rcv(b).is_none())?;
        Some((x, y))
    }
    pub fn rle(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(true); }
        if let Some((x, y)) = self.squares(a, b) { return self.rle(x, y); }
        let (x, y) = (self.rr(a), self.rr(b));
        if x.1 <= y.0 { return self.b(true); }
        if x.0 > y.1 { return self.b(false); }
        if let Some((i, j)) = self.intcmp(a, b) { return self.ile(i, j); }
        self.mk(K::RLe(a, b))
    }
    pub fn rlt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(false); }
        if let Some((x, y)) = self.squares(a, b) { return self.rlt(x, y); }
        let (x, y) = (self.rr(a), self.rr(b));
        if x.1 < y.0 { return self.b(true); }
        if x.0 >= y.1 { return self.b(false); }
        if let Some((i, j)) = self.intcmp(a, b) { return self.ilt(i, j); }
        self.mk(K::RLt(a, b))
    }
    pub fn req(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.b(true); }
        let (x, y) = (self.rr(a), self.rr(b));
        if x.1 < y.0 || y.1 < x.0 { return self.b(false); }
        if x.0 == x.1 && y.0 == y.1 && x.0 == y.0 { return self.b(true); }
        if let Some((i, j)) = self.intcmp(a, b) { return self.ieq(i, j); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::REq(a, b))
    }
    /// both sides are integers seen as reals
    fn intcmp(&mut self, a: Id, b: Id) -> Option<(Id, Id)> {
        let as_int = |s: &mut Self, x: Id| -> Option<Id> {
            match s.n[x as usize].k {
                K::ToReal(i) => Some(i),
                K::RConst(bits) => { let v = f64::from_bits(bits); if v.fract() == 0.0 && v.abs() < 1e15 { Some(s.ic(v as i128)) } else { None } }
                _ => None,
            }
        };
        if !matches!(self.n[a as usize].k, K::ToReal(_)) && !matches!(self.n[b as usize].k, K::ToReal(_)) { return None; }
        let x = as_int(self, a)?;
        let y = as_int(self, b)?;
        Some((x, y))
    }

    // ---------------------------------------------------------------- reals
    pub fn rc(&mut self, v: f64) -> Id { let v = if v == 0.0 { 0.0 } else { v }; self.mk(K::RConst(v.to_bits())) }
    pub fn rcv(&self, a: Id) -> Option<f64> { match self.n[a as usize].k { K::RConst(b) => Some(f64::from_bits(b)), _ => None } }
    pub fn radd(&mut self, a: Id, b: Id) -> Id {
        if self.rcv(a) == Some(0.0) { return b; }
        if self.rcv(b) == Some(0.0) { return a; }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::RAdd(a, b))
    }
    pub fn rsub(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.rc(0.0); }
        if self.rcv(b) == Some(0.0) { return a; }
        if self.rcv(a) == Some(0.0) { return self.rneg(b); }
        self.mk(K::RSub(a, b))
    }
    pub fn rmul(&mut self, a: Id, b: Id) -> Id {
        if self.rcv(a).is_some() && self.rcv(b).is_none() { return self.rmul(b, a); }
        match self.rcv(b) {
            Some(v) if v == 0.0 => return self.rc(0.0),
            Some(v) if v == 1.0 => return a,
            Some(v) if v == -1.0 => return self.rneg(a),
            _ => {}
        }
        if a == b { if let Some(x) = self.sqrt_squared(a) { return x; } }
        let (a, b) = if self.rcv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::RMul(a, b))
    }
    pub fn rdiv(&mut self, a: Id, b: Id) -> Id {
        if self.rcv(b) == Some(1.0) { return a; }
        if self.rcv(a) == Some(0.0) { return a; }
        if a == b { return self.rc(1.0); }
        self.mk(K::RDiv(a, b))
    }
    pub fn rneg(&mut self, a: Id) -> Id {
        if let Some(v) = self.rcv(a) { return self.rc(-v); }
        if let K::RNeg(x) = self.n[a as usize].k { return x; }
        self.mk(K::RNeg(a))
    }
    pub fn rite(&mut self, c: Id, a: Id, b: Id) -> Id {
        match self.n[c as usize].k {
            K::B(true) => return a,
            K::B(false) => return b,
            K::Not(d) => return self.rite(d, b, a),
            _ => {}
        }
        if a == b { return a; }
        self.mk(K::RIte(c, a, b))
    }
    pub fn toreal(&mut self, i: Id) -> Id {
        if let Some(v) = self.icv(i) { return self.rc(v as f64); }
        self.mk(K::ToReal(i))
    }
    pub fn uf(&mut self, k: Uf, a: Id, b: Id) -> Id {
        match (k, self.n[a as usize].k) {
            (Uf::Sin, K::Uf(Uf::Asin, x, _)) | (Uf::Cos, K::Uf(Uf::Acos, x, _)) | (Uf::Tan, K::Uf(Uf::Atan, x, _)) | (Uf::Exp, K::Uf(Uf::Ln, x, _)) | (Uf::Ln, K::Uf(Uf::Exp, x, _)) => return x,
            (Uf::Sin, K::RNeg(x)) => { let u = self.uf(k, x, x); return self.rneg(u); }
            (Uf::Cos, K::RNeg(x)) => return self.uf(k, x, x),
            (Uf::Tanh, K::RNeg(x)) | (Uf::Atan, K::RNeg(x)) | (Uf::Asin, K::RNeg(x)) | (Uf::Tan, K::RNeg(x)) => { let u = self.uf(k, x, x); return self.rneg(u); }
            // the angle of the point (sqrt(1 - x), sqrt(x)) of the unit circle
            (Uf::Atan2, K::Uf(Uf::Sqrt, x, _)) => if let K::Uf(Uf::Sqrt, y, _) = self.n[b as usize].k {
                let one = self.rc(1.0);
                let z = self.rsub(one, x);
                if z == y { return self.uf(Uf::Asin, a, a); }
            },
            (Uf::Sqrt, K::RMul(x, y)) if x == y => {
                let z = self.rc(0.0);
                let c = self.rle(z, x);
                let n = self.rneg(x);
                return self.rite(c, x, n);
            }
            _ => {}
        }
        self.mk(K::Uf(k, a, b))
    }
    /// the value of node `r` rounded to a double (`f32`: to a float): r + e with |e| bounded
    pub fn round(&mut self, r: Id, f32_: bool) -> Id {
        match self.n[r as usize].k {
            K::RConst(_) | K::RVar(_) | K::RNeg(_) | K::Err(..) | K::RIte(..) => return r,
            K::ToReal(i) => { let (l, h) = self.ir(i); let m = if f32_ { 1 << 24 } else { 1i128 << 53 }; if l >= -m && h <= m { return r; } }
            K::RMul(a, b) => {
                if let Some(v) = self.rcv(b) { if is_pow2(v) { return r; } }
                // product of integers below 2^53
                if self.is_small_int(a) && self.is_small_int(b) && self.rr(r).1.abs().max(self.rr(r).0.abs()) < 9e15 && !f32_ { return r; }
            }
            K::RDiv(_, b) => { if let Some(v) = self.rcv(b) { if is_pow2(v) { return r; } } }
            K::RAdd(a, b) | K::RSub(a, b) => {
                if self.is_small_int(a) && self.is_small_int(b) && !f32_ { return r; }
                // already rounded: (x + e)
                if let K::Err(x, _) = self.n[b as usize].k { if x == a { return r; } }
                if let K::Err(x, _) = self.n[a as usize].k { if x == b { return r; } }
            }
            _ => {}
        }
        let (lo, hi) = self.rr(r);
        let m = lo.abs().max(hi.abs());
        if !m.is_finite() { self.unrounded += 1; return r; }
        self.rounded += 1;
        // libm results are within a few ulps; +,-,*,/ and sqrt are correctly rounded
        let ulps = match self.n[r as usize].k { K::Uf(k, _, _) if k != Uf::Sqrt => 4.0, _ => 0.5 };
        let eps = if f32_ { m * 2f64.powi(-23) * ulps + 1e-44 } else { m * 2f64.powi(-52) * ulps + 5e-324 };
        let eps = up(eps);
        let e = self.mk(K::Err(r, eps.to_bits()));
        self.radd(r, e)
    }
    fn is_small_int(&self, a: Id) -> bool {
        match self.n[a as usize].k {
            K::RConst(b) => { let v = f64::from_bits(b); v.fract() == 0.0 && v.abs() < 4e15 }
            K::ToReal(i) => { let (l, h) = self.ir(i); l > -(1 << 51) && h < (1 << 51) }
            K::RAdd(x, y) | K::RSub(x, y) => { let (l, h) = self.rr(a); l > -2e15 && h < 2e15 && self.is_small_int(x) && self.is_small_int(y) }
            K::RMul(x, y) => { let (l, h) = self.rr(a); l > -2e15 && h < 2e15 && self.is_small_int(x) && self.is_small_int(y) }
            K::RNeg(x) => self.is_small_int(x),
            K::RIte(_, x, y) => self.is_small_int(x) && self.is_small_int(y),
            _ => false,
        }
    }
}

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
pub fn is_pow2(v: f64) -> bool {
    v != 0.0 && v.is_finite() && (v.to_bits() & ((1u64 << 52) - 1)) == 0
}

/// Concrete evaluation of nodes under an assignment of the inputs, in double arithmetic.
#[derive(Default)]
pub struct Witness {
    pub inputs: Vec<InputVal>, // indexed by variable
    memo: RefCell<HashMap<Id, Ev>>,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev { I(i128), F(f64), B(bool) }

pub fn uf_eval(k: Uf, a: f64, b: f64) -> f64 {
    match k {
        Uf::Sqrt => a.sqrt(), Uf::Sin => a.sin(), Uf::Cos => a.cos(), Uf::Tan => a.tan(), Uf::Asin => a.asin(), Uf::Acos => a.acos(),
        Uf::Atan => a.atan(), Uf::Atan2 => a.atan2(b), Uf::Exp => a.exp(), Uf::Ln => a.ln(), Uf::Log10 => a.log10(), Uf::Log2 => a.log2(),
        Uf::Pow => a.powf(b), Uf::Tanh => a.tanh(), Uf::Sinh => a.sinh(), Uf::Cosh => a.cosh(), Uf::Cbrt => a.cbrt(), Uf::Exp2 => a.exp2(), Uf::Hypot => a.hypot(b),
    }
}

impl Witness {
    pub fn new(inputs: Vec<InputVal>) -> Self { Witness { inputs, memo: Default::default() } }
    pub fn i(&self, ar: &Arena, id: Id) -> i128 { match self.ev(ar, id) { Ev::I(v) => v, Ev::B(b) => b as i128, Ev::F(f) => f as i128 } }
    pub fn f(&self, ar: &Arena, id: Id) -> f64 { match self.ev(ar, id) { Ev::F(v) => v, Ev::I(i) => i as f64, Ev::B(b) => b as i32 as f64 } }
    pub fn bo(&self, ar: &Arena, id: Id) -> bool { match self.ev(ar, id) { Ev::B(b) => b, _ => false } }
    pub fn ev(&self, ar: &Arena, id: Id) -> Ev {
        if let Some(v) = self.memo.borrow().get(&id) { return *v; }
        let mut stack = vec![id];
        while let Some(&x) = stack.last() {
            if self.memo.borrow().contains_key(&x) { stack.pop(); continue; }
            let k = ar.n[x as usize].k;
            let mut ready = true;
            for c in Arena::children(&k).into_iter().flatten() {
                if matches!(k, K::Err(..)) { break; }
                if !self.memo.borrow().contains_key(&c) { stack.push(c); ready = false; }
            }
            if !ready { continue; }
            let v = self.step(ar, &k);
            self.memo.borrow_mut().insert(x, v);
            stack.pop();
        }
        let v = self.memo.borrow()[&id];
        v
    }
    fn step(&self, _ar: &Arena, k: &K) -> Ev {
        use K::*;
        let m = self.memo.borrow();
        let i = |x: Id| match m[&x] { Ev::I(v) => v, _ => 0 };
        let f = |x: Id| match m[&x] { Ev::F(v) => v, _ => 0.0 };
        let b = |x: Id| match m[&x] { Ev::B(v) => v, _ => false };
        match *k {
            IConst(v) => Ev::I(v),
            IVar(v) => match self.inputs.get(v as usize) { Some(InputVal::I(x)) => Ev::I(*x), _ => Ev::I(0) },
            RVar(v) => match self.inputs.get(v as usize) { Some(InputVal::F(x)) => Ev::F(*x), _ => Ev::F(0.0) },
            IAdd(x, y) => Ev::I(i(x).wrapping_add(i(y))),
            ISub(x, y) => Ev::I(i(x).wrapping_sub(i(y))),
            IMul(x, y) => Ev::I(i(x).wrapping_mul(i(y))),
            IDiv(x, c) => Ev::I(i(x).div_euclid(c)),
            IMod(x, c) => Ev::I(i(x).rem_euclid(c)),
            Narrow(x, ..) => Ev::I(i(x)),
            IIte(c, x, y) => Ev::I(if b(c) { i(x) } else { i(y) }),
            Floor(x) => Ev::I(f(x).floor() as i128),
            RConst(x) => Ev::F(f64::from_bits(x)),
            RAdd(x, y) => Ev::F(f(x) + f(y)),
            RSub(x, y) => Ev::F(f(x) - f(y)),
            RMul(x, y) => Ev::F(f(x) * f(y)),
            RDiv(x, y) => Ev::F(f(x) / f(y)),
            RNeg(x) => Ev::F(-f(x)),
            RIte(c, x, y) => Ev::F(if b(c) { f(x) } else { f(y) }),
            ToReal(x) => Ev::F(i(x) as f64),
            Uf(u, x, y) => Ev::F(uf_eval(u, f(x), f(y))),
            Err(..) => Ev::F(0.0),
            B(v) => Ev::B(v),
            Not(x) => Ev::B(!b(x)),
            And(x, y) => Ev::B(b(x) && b(y)),
            Or(x, y) => Ev::B(b(x) || b(y)),
            ILe(x, y) => Ev::B(i(x) <= i(y)),
            ILt(x, y) => Ev::B(i(x) < i(y)),
            IEq(x, y) => Ev::B(i(x) == i(y)),
            RLe(x, y) => Ev::B(f(x) <= f(y)),
            RLt(x, y) => Ev::B(f(x) < f(y)),
            REq(x, y) => Ev::B(f(x) == f(y)),
        }
    }
}
