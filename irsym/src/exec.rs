//! The symbolic interpreter: executes one harness (for one choice of its cases) over all paths.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tier: u64,
    pub branch_ms: u64,
    pub check_ms: u64,
    pub portfolio_ms: u64,
    pub max_ins_path: u64,
    pub native: String,
    pub harness: String,
    pub scratch: std::path::PathBuf,
    pub validate: usize,
    pub seed: u64,
    pub log: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub inputs: Vec<(String, String)>,
    pub raw: Vec<String>,
    pub cases: Vec<u64>,
    pub native: String,
    pub reproduced: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub paths: u64,
    pub paths_panic_ok: u64,
    pub paths_dead: u64,
    pub forks: u64,
    pub ins: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub validated: u64,
    pub validated_traces: u64,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub reached: BTreeSet<String>,
    pub funcs: BTreeSet<u32>,
    pub new_cases: Option<(u64, u64)>,
    pub bounds: BTreeSet<String>,
    pub rounded: u64,
    pub unrounded: u64,
    pub samples: Vec<String>,
    pub exact: bool,
    pub check_labels: BTreeMap<String, u64>,
    pub stubs: BTreeSet<String>,
}

enum Flow {
    Dead,
    Panic(String),
    Unsup(String),
    Cases(u64),
    PathEnd,
}
type X<T> = Result<T, Flow>;
impl From<String> for Flow {
    fn from(s: String) -> Self { Flow::Unsup(s) }
}

#[derive(Clone)]
struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret_reg: u32,
    ret_block: u32,
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<Id>,
    known: HashSet<Id>,
    wit: Option<Rc<Witness>>,
    inputs: Vec<u32>,
    ncase: usize,
    panic_ok: bool,
    exact: bool,
    ins: u64,
    trace: Vec<Val>,
    keys: u64,
}

pub struct Task<'m> {
    m: &'m Module,
    base: &'m [Option<Arc<Obj>>],
    natives: &'m HashMap<u32, &'static str>,
    cfg: Cfg,
    ar: Arena,
    sol: Solver,
    work: Vec<State>,
    s: State,
    cases: Vec<u64>,
    pub rep: Report,
    varmap: HashMap<(usize, bool, u64, u64), u32>,
    dead_labels: HashSet<String>,
    rng: u64,
    last_validate: u64,
    unsettled: u32,
    ufs: Vec<(Uf, Id, Id, [f64; 3])>,
}

pub fn native_table(m: &Module) -> HashMap<u32, &'static str> {
    let mut t = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        let n = &f.name;
        let k = if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("17rust_begin_unwind") || n.contains("10rust_panic") {
            "panic"
        } else if n.contains("5stdio6__print") || n.contains("5stdio7__eprint") {
            "nop"
        } else if n.contains("19hashmap_random_keys") {
            "keys"
        } else if n.contains("6memchr14memchr_aligned") && f.params.len() == 3 {
            "memchr"
        } else if n.contains("18handle_alloc_error") {
            "panic"
        } else {
            continue;
        };
        t.insert(i as u32, k);
    }
    t
}

pub fn base_objs(m: &Module) -> Vec<Option<Arc<Obj>>> {
    let mut v = vec![None];
    for g in &m.globals {
        v.push(Some(Arc::new(Obj { data: g.data.clone(), syms: BTreeMap::new(), constant: g.constant })));
    }
    v
}

fn finite(v: &Val) -> bool {
    match v { Val::F64(x) => x.is_finite(), Val::F32(x) => x.is_finite(), _ => true }
}
fn cf(v: &Val) -> Option<f64> {
    match v { Val::F64(x) => Some(*x), Val::F32(x) => Some(*x as f64), _ => None }
}
fn mkf(is32: bool, x: f64) -> Val { if is32 { Val::F32(x as f32) } else { Val::F64(x) } }

impl<'m> Task<'m> {
    pub fn new(m: &'m Module, base: &'m [Option<Arc<Obj>>], natives: &'m HashMap<u32, &'static str>, cfg: Cfg, cases: Vec<u64>) -> Self {
        let log = if cfg.log { std::fs::File::create(cfg.scratch.join(format!("log_{}_{}.smt2", cfg.harness, cases.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("_")))).ok() } else { None };
        let sol = Solver::new(log);
        let st = State { frames: vec![], mem: Mem { objs: base.to_vec(), free: vec![] }, pc: vec![], known: HashSet::new(), wit: Some(Rc::new(Witness::new(vec![]))), inputs: vec![], ncase: 0, panic_ok: false, exact: false, ins: 0, trace: vec![], keys: 0 };
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
        Task { m, base, natives, cfg, ar: Arena::default(), sol, work: vec![], s: st, cases, rep: Report::default(), varmap: HashMap::new(), dead_labels: HashSet::new(), rng, last_validate: 0, unsettled: 0, ufs: vec![] }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: u32) {
        let f = &self.m.funcs[entry as usize];
        self.s.frames.push(Frame { func: entry, block: 0, ip: 0, regs: vec![Val::Undef; f.nregs as usize], allocas: vec![], ret_reg: u32::MAX, ret_block: u32::MAX });
        self.rep.funcs.insert(entry);
        loop {
            let r = self.path();
            match r {
                Flow::PathEnd => { self.rep.paths += 1; self.end_path(); }
                Flow::Dead => self.rep.paths_dead += 1,
                Flow::Panic(msg) => {
                    if self.s.panic_ok { self.rep.paths += 1; self.rep.paths_panic_ok += 1; self.end_path(); } else { self.rep.paths += 1; self.violation_here(&format!("panic: {msg}"), None); }
                }
                Flow::Unsup(msg) => {
                    let w = self.whereami();
                    // is the path feasible at all?
                    let pc = self.s.pc.clone();
                    let (r, _) = self.sol.check(&self.ar, &pc, &[], self.cfg.check_ms, false);
                    if r == Res::Unsat { self.rep.paths_dead += 1; }
                    else if !self.refute_here() { self.rep.inconclusive.push(format!("not encodable: {msg} at {w}")); }
                }
                Flow::Cases(n) => { self.rep.new_cases = Some((self.cases.len() as u64, n)); break; }
            }
            if crate::solver::over() {
                if !self.work.is_empty() { self.rep.inconclusive.push(format!("time limit with {} paths pending", self.work.len())); }
                break;
            }
            if self.rep.violations.iter().filter(|v| v.reproduced).count() >= 4 || self.rep.inconclusive.len() >= 8 { break; }
            match self.work.pop() { Some(s) => self.s = s, None => break }
        }
        self.rep.stats = self.sol.stats.clone();
        self.rep.rounded = self.ar.rounded;
        self.rep.unrounded = self.ar.unrounded;
    }

    fn whereami(&self) -> String {
        let v: Vec<String> = self.s.frames.iter().rev().take(6).map(|f| format!("{}{}", demangle(&self.m.funcs[f.func as usize].name), if std::env::var("IRSYM_VERBOSE").is_ok() { format!("#{}.{} {}", f.block, f.ip, self.m.funcs[f.func as usize].name) } else { String::new() })).collect();
        v.join(" <- ")
    }

    // ------------------------------------------------------------------ path conditions
    fn assume_lit(&mut self, l: Id) {
        self.s.pc.push(l);
        self.learn(l);
    }
    fn learn(&mut self, l: Id) {
        let mut st = vec![l];
        while let Some(x) = st.pop() {
            if !self.s.known.insert(x) { continue; }
            match self.ar.n[x as usize].k {
                K::And(a, b) => { st.push(a); st.push(b); }
                K::Not(y) => if let K::Or(a, b) = self.ar.n[y as usize].k {
                    let (a, b) = (self.ar.not(a), self.ar.not(b));
                    st.push(a);
                    st.push(b);
                },
                _ => {}
            }
        }
    }
    fn valid_wit(&mut self, pc: &[Id], extra: &[Id], m: Option<Vec<InputVal>>) -> Option<Rc<Witness>> {
        let w = Witness::new(m?);
        for l in pc.iter().chain(extra) {
            if !w.bo(&self.ar, *l) { return None; }
        }
        Some(Rc::new(w))
    }
    /// where the current path is (development)
    fn whence(&self) -> String { self.s.frames.iter().rev().take(4).map(|f| format!("{}:{}", demangle(&self.m.funcs[f.func as usize].name), f.block)).collect::<Vec<_>>().join(" < ") }
    fn decide(&mut self, c: Id) -> X<bool> {
        if let Some(b) = self.ar.bv(c) { return Ok(b); }
        let nc = self.ar.not(c);
        if self.s.known.contains(&c) { return Ok(true); }
        if self.s.known.contains(&nc) { return Ok(false); }
        if crate::solver::over() { return Err(Flow::Unsup("time limit".into())); }
        let pc = self.s.pc.clone();
        if self.s.wit.is_none() {
            // find a witness for one side
            let (r, m) = self.sol.check(&self.ar, &pc, &[c], self.cfg.branch_ms, true);
            match r {
                Res::Unsat => {
                    // the other side is the only one; it may be dead as well, later queries find out
                    self.learn(nc);
                    return Ok(false);
                }
                Res::Sat => {
                    if let Some(w) = self.valid_wit(&pc, &[c], m) { self.s.wit = Some(w); }
                }
                Res::Unknown => {}
            }
            if self.s.wit.is_none() {
                let (r2, m2) = self.sol.check(&self.ar, &pc, &[nc], self.cfg.branch_ms, true);
                if r2 == Res::Unsat { self.learn(c); return Ok(true); }
                let w2 = self.valid_wit(&pc, &[nc], m2);
                let mut other = self.s.clone();
                other.pc.push(nc);
                other.known.insert(nc);
                other.wit = w2;
                self.rep.forks += 1;
                if std::env::var("IRSYM_FORKS").is_ok() { eprintln!("FORK2 {} {}", self.whence(), nm_short(&self.ar, nc)); }
                self.work.push(other);
                self.assume_lit(c);
                return Ok(true);
            }
        }
        let w = self.s.wit.clone().unwrap();
        let side = w.bo(&self.ar, c);
        let (mine, other_l) = if side { (c, nc) } else { (nc, c) };
        let (r, m) = self.sol.check(&self.ar, &pc, &[other_l], self.cfg.branch_ms, true);
        match r {
            Res::Unsat => { self.learn(mine); }
            _ => {
                let w2 = self.valid_wit(&pc, &[other_l], m);
                let mut other = self.s.clone();
                other.wit = w2;
                other.pc.push(other_l);
                other.known.insert(other_l);
                self.rep.forks += 1;
                if std::env::var("IRSYM_FORKS").is_ok() { eprintln!("FORK {} {}", self.whence(), nm_short(&self.ar, other_l)); }
                self.work.push(other);
                self.assume_lit(mine);
            }
        }
        Ok(side)
    }
    /// a function application; in real arithmetic an application to an equal argument is reused
    fn mkuf(&mut self, k: Uf, a: Id, b: Id) -> Id {
        let r = self.ar.uf(k, a, b);
        if !self.s.exact || !matches!(self.ar.n[r as usize].k, K::Uf(..)) || self.ufs.iter().any(|u| u.1 == r) { return r; }
        let K::Uf(k, a, b) = self.ar.n[r as usize].k else { return r };
        let fp = |ar: &Arena, x: Id| -> [f64; 3] {
            let mut o = [0.0; 3];
            for (j, v) in o.iter_mut().enumerate() {
                let ins = ar.vars.iter().enumerate().map(|(i, v)| {
                    let h = ((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (j as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03)).wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11;
                    let u = h as f64 / (1u64 << 53) as f64;
                    if v.real { InputVal::F(if v.rlo.is_finite() && v.rhi.is_finite() { v.rlo + u * (v.rhi - v.rlo) } else { u }) } else { InputVal::I(v.ilo + (u * (v.ihi - v.ilo) as f64) as i128) }
                }).collect();
                *v = Witness::new(ins).f(ar, x);
            }
            o
        };
        let fa = fp(&self.ar, a);
        let same = |x: &[f64; 3], y: &[f64; 3], s: f64| (0..3).all(|i| (x[i] - s * y[i]).abs() <= 1e-9 * (1.0 + x[i].abs()));
        // a function of its own inverse
        let inv = match k { Uf::Sin => Some(Uf::Asin), Uf::Cos => Some(Uf::Acos), Uf::Tan => Some(Uf::Atan), Uf::Exp => Some(Uf::Ln), Uf::Ln => Some(Uf::Exp), _ => None };
        if let Some(inv) = inv {
            let c: Vec<(Id, Id)> = self.ufs.iter().filter(|u| u.0 == inv).map(|u| (u.1, u.2)).collect();
            for (u, arg) in c {
                let fu = fp(&self.ar, u);
                if same(&fa, &fu, 1.0) {
                    let e = self.ar.req(a, u);
                    let ne = self.ar.not(e);
                    let t = self.cfg.check_ms;
                    if self.ar.bv(ne) == Some(false) || self.sol.check(&self.ar, &[], &[ne], t, false).0 == Res::Unsat { return arg; }
                }
            }
        }
        let cands: Vec<(Id, Id, [f64; 3])> = self.ufs.iter().filter(|u| u.0 == k).map(|u| (u.1, u.2, u.3)).collect();
        for (u, pa, pf) in cands {
            let K::Uf(_, _, pb) = self.ar.n[u as usize].k else { continue };
            let two = matches!(k, Uf::Pow | Uf::Atan2 | Uf::Hypot) && pb != b;
            if two && !same(&fp(&self.ar, b), &fp(&self.ar, pb), 1.0) { continue; }
            if same(&fa, &pf, 1.0) {
                let mut e = self.ar.req(a, pa);
                if two { let e2 = self.ar.req(b, pb); e = self.ar.and(e, e2); }
                let ne = self.ar.not(e);
                let t = self.cfg.check_ms;
                if self.ar.bv(ne) == Some(false) || self.sol.check(&self.ar, &[], &[ne], t, false).0 == Res::Unsat { return u; }
            } else if matches!(k, Uf::Sin | Uf::Cos | Uf::Tan | Uf::Tanh | Uf::Atan | Uf::Asin | Uf::Sinh | Uf::Cosh) && same(&fa, &pf, -1.0) {
                let n = self.ar.rneg(pa);
                let e = self.ar.req(a, n);
                let ne = self.ar.not(e);
                let t = self.cfg.check_ms;
                if self.ar.bv(ne) == Some(false) || self.sol.check(&self.ar, &[], &[ne], t, false).0 == Res::Unsat {
                    return if matches!(k, Uf::Cos | Uf::Cosh) { u } else { self.ar.rneg(u) };
                }
            }
        }
        if matches!(k, Uf::Sin | Uf::Cos) {
            // arguments that agree to 1e-12 up to sign and half turns are identified
            let cands: Vec<(Id, Id, [f64; 3])> = self.ufs.iter().filter(|u| u.0 == k).map(|u| (u.1, u.2, u.3)).collect();
            for (u, pa, pf) in cands {
                for sum in [false, true] {
                    for n in -3i32..=3 {
                        let c = n as f64 * std::f64::consts::PI;
                        if !(0..3).all(|i| ((if sum { fa[i] + pf[i] } else { fa[i] - pf[i] }) - c).abs() < 1e-12) { continue; }
                        let d = if sum { self.ar.radd(a, pa) } else { self.ar.rsub(a, pa) };
                        let cc = self.ar.rc(c);
                        let d = self.ar.rsub(d, cc);
                        let e = self.ar.rc(1e-12);
                        let ne = self.ar.rc(-1e-12);
                        let (x, y) = (self.ar.rlt(e, d), self.ar.rlt(d, ne));
                        let out = self.ar.or(x, y);
                        let t = self.cfg.check_ms;
                        if self.ar.bv(out) == Some(false) || self.sol.check(&self.ar, &[], &[out], t, false).0 == Res::Unsat {
                            let odd = n % 2 != 0;
                            let neg = if k == Uf::Sin { odd != sum } else { odd };
                            return if neg { self.ar.rneg(u) } else { u };
                        }
                    }
                }
            }
        }
        self.ufs.push((k, r, a, fa));
        r
    }
    /// the same value with a tighter range where the path implies it
    fn settle(&mut self, a: Id, lo: i128, hi: i128) -> Id {
        let (l, h) = self.ar.ir(a);
        if l >= lo && h <= hi { return a; }
        if let Some(w) = &self.s.wit { let v = w.i(&self.ar, a); if v < lo || v > hi { return a; } }
        if self.unsettled > 300 { return a; }
        let (lc, hc) = (self.ar.ic(lo), self.ar.ic(hi));
        let (x, y) = (self.ar.ilt(a, lc), self.ar.ilt(hc, a));
        let out = self.ar.or(x, y);
        if let Some(b) = self.ar.bv(out) { return if b { a } else { self.ar.narrow(a, lo, hi) }; }
        let pc = self.s.pc.clone();
        let (r, _) = self.sol.check(&self.ar, &pc, &[out], 300, false);
        if r == Res::Unsat { return self.ar.narrow(a, lo, hi); }
        self.unsettled += 1;
        a
    }
    fn wrap(&mut self, a: Id, w: u32) -> Id {
        if w >= 8 && w <= 64 {
            let h = 1i128 << (w - 1);
            let a = self.settle(a, -h, h - 1);
            return self.ar.wrap(a, w);
        }
        self.ar.wrap(a, w)
    }
    fn uns(&mut self, a: Id, w: u32) -> Id {
        let (l, h) = self.ar.ir(a);
        if w >= 8 && w <= 64 && l < 0 && h >= 0 {
            let b = self.settle(a, 0, h);
            if b != a { return self.ar.uns(b, w); }
            let neg = match &self.s.wit { Some(x) => x.i(&self.ar, a) < 0, None => true };
            if neg { let b = self.settle(a, l, -1); return self.ar.uns(b, w); }
        }
        self.ar.uns(a, w)
    }
    fn concretize(&mut self, id: Id) -> X<i128> {
        if let Some(v) = self.ar.icv(id) { return Ok(v); }
        // a choice between few constants: one of them it is
        if let Some(mut vs) = self.ar.leaves(id) {
            if let Some(w) = &self.s.wit { let v = w.i(&self.ar, id); if let Some(i) = vs.iter().position(|x| *x == v) { vs.swap(0, i); } }
            for v in vs {
                let c = self.ar.ic(v);
                let e = self.ar.ieq(id, c);
                if self.decide(e)? { return Ok(v); }
            }
            return Err(Flow::Dead);
        }
        let mut n = 0;
        loop {
            if crate::solver::over() { return Err(Flow::Unsup("time limit".into())); }
            // candidate from the witness or from a model
            if self.s.wit.is_none() {
                let pc = self.s.pc.clone();
                let (r, m) = self.sol.check(&self.ar, &pc, &[], self.cfg.check_ms, true);
                match r {
                    Res::Unsat => return Err(Flow::Dead),
                    Res::Sat => { self.s.wit = self.valid_wit(&pc, &[], m.clone()); if self.s.wit.is_none() {
                        // take the value of the model even if it does not evaluate exactly
                        if let Some(m) = m {
                            let w = Witness::new(m);
                            let v = w.i(&self.ar, id);
                            let c = self.ar.ic(v);
                            let e = self.ar.ieq(id, c);
                            if self.decide(e)? { return Ok(v); }
                            n += 1;
                            if n > 4000 { return Err(Flow::Unsup("too many values of a symbolic address or length".into())); }
                            continue;
                        }
                    } }
                    Res::Unknown => return Err(Flow::Unsup("no model for a symbolic address".into())),
                }
            }
            let Some(w) = self.s.wit.clone() else { return Err(Flow::Unsup("no witness for a symbolic address".into())) };
            let v = w.i(&self.ar, id);
            let c = self.ar.ic(v);
            let e = self.ar.ieq(id, c);
            if self.decide(e)? { return Ok(v); }
            n += 1;
            if n > 4000 { return Err(Flow::Unsup("too many values of a symbolic address or length".into())); }
        }
    }

    // ------------------------------------------------------------------ values
    fn int(&mut self, v: &Val, w: u32) -> X<Id> {
        Ok(match v {
            Val::I(x) => self.ar.ic(sext(*x, w)),
            Val::S(s) => match self.ar.sort(*s) {
                Sort::Bool => { let (a, b) = (self.ar.ic(1), self.ar.ic(0)); let r = self.ar.iite(*s, a, b); if w == 1 { self.wrap(r, 1) } else { r } }
                _ => *s,
            },
            Val::Undef => self.ar.ic(0),
            Val::RB(_) => return Err(Flow::Unsup("bit pattern of a symbolic double".into())),
            _ => return Err(Flow::Unsup(format!("integer expected, got {v:?}"))),
        })
    }
    fn boolean(&mut self, v: &Val) -> X<Id> {
        Ok(match v {
            Val::I(x) => self.ar.b(*x & 1 == 1),
            Val::Undef => self.ar.b(false),
            Val::S(s) => match self.ar.sort(*s) {
                Sort::Bool => *s,
                _ => { let m = self.ar.imod(*s, 2); let one = self.ar.ic(1); self.ar.ieq(m, one) }
            },
            _ => return Err(Flow::Unsup("boolean expected".into())),
        })
    }
    fn mkb(&self, c: Id) -> Val { match self.ar.bv(c) { Some(b) => Val::I(b as u128), None => Val::S(c) } }
    fn mki(&self, x: Id, w: u32) -> Val { mkint(&self.ar, x, w) }
    fn real(&mut self, v: &Val) -> X<Id> {
        Ok(match v {
            Val::F64(x) => self.ar.rc(*x),
            Val::F32(x) => self.ar.rc(*x as f64),
            Val::R(r) => *r,
            Val::Undef => self.ar.rc(0.0),
            _ => return Err(Flow::Unsup(format!("float expected, got {v:?}"))),
        })
    }
    fn mkr(&self, r: Id, is32: bool) -> Val { match self.ar.rcv(r) { Some(x) => mkf(is32, x), None => Val::R(r) } }
    fn rnd_r(&mut self, r: Id, is32: bool) -> Val {
        let r = if self.s.exact { r } else { self.ar.round(r, is32) };
        self.mkr(r, is32)
    }
    fn op(&self, o: &Op) -> Val {
        match o {
            Op::C(v) => v.clone(),
            Op::Reg(r) => self.s.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    /// an integer read at a symbolic place of a table, as a choice between a few runs of equal entries
    fn table(&mut self, p: &Val, t: &Ty) -> Option<Val> {
        let (Val::S(s), Ty::Int(w)) = (p, t) else { return None };
        if *w > 64 || self.ar.leaves(*s).is_some() { return None; }
        let (lo, hi) = (self.ar.n[*s as usize].ilo, self.ar.n[*s as usize].ihi);
        if lo < 0 || hi - lo > 8192 { return None; }
        let (step, rest) = self.ar.stride(*s);
        let step = step.max(1);
        let first = lo + (rest - lo).rem_euclid(step);
        if (hi - first) / step > 300 { return None; }
        let mut runs: Vec<(i128, u128)> = vec![];
        let mut a = first;
        while a <= hi {
            let Ok(Val::I(v)) = self.s.mem.load(&mut self.ar, a as u64, t) else { return None };
            match runs.last_mut() {
                Some(r) if r.1 == v => r.0 = a,
                _ => runs.push((a, v)),
            }
            if runs.len() > 6 { return None; }
            a += step;
        }
        let mut r = self.ar.ic(sext(runs.last()?.1, *w));
        for (end, v) in runs.iter().rev().skip(1) {
            let (e, v) = (self.ar.ic(*end), self.ar.ic(sext(*v, *w)));
            let c = self.ar.ile(*s, e);
            r = self.ar.iite(c, v, r);
        }
        Some(self.mki(r, *w))
    }
    fn addr(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::I(x) => Ok(*x as u64),
            Val::Undef => Err(Flow::Unsup("undefined address".into())),
            Val::S(s) => { let v = self.concretize(*s)?; Ok(v as u64) }
            _ => Err(Flow::Unsup("address".into())),
        }
    }
    fn conc(&mut self, v: &Val, w: u32) -> X<u128> {
        match v {
            Val::I(x) => Ok(*x),
            Val::Undef => Ok(0),
            Val::S(_) => { let i = self.int(v, w)?; let x = self.concretize(i)?; Ok(mask(x, w)) }
            _ => Err(Flow::Unsup("concrete integer needed".into())),
        }
    }

    fn bin(&mut self, k: BinK, w: u32, a: &Val, b: &Val) -> X<Val> {
        use BinK::*;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match k {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                UDiv => if y == 0 { return Err(Flow::Unsup("division by zero".into())) } else { x / y },
                URem => if y == 0 { return Err(Flow::Unsup("division by zero".into())) } else { x % y },
                SDiv => { let (p, q) = (sext(x, w), sext(y, w)); if q == 0 { return Err(Flow::Unsup("division by zero".into())) } p.wrapping_div(q) as u128 }
                SRem => { let (p, q) = (sext(x, w), sext(y, w)); if q == 0 { return Err(Flow::Unsup("division by zero".into())) } p.wrapping_rem(q) as u128 }
                Shl => if y >= w as u128 { 0 } else { x << y },
                LShr => if y >= w as u128 { 0 } else { x >> y },
                AShr => (sext(x, w) >> (y.min(w as u128 - 1))) as u128,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                _ => unreachable!(),
            };
            return Ok(Val::I(mask(r as i128, w)));
        }
        // bit patterns of doubles
        if let (Val::RB(r), Val::I(y)) = (a, b) {
            let sign = 1u128 << (w - 1);
            let z = self.ar.rc(0.0);
            match k {
                And if *y == sign - 1 => { let c = self.ar.rle(z, *r); let n = self.ar.rneg(*r); let v = self.ar.rite(c, *r, n); return Ok(Val::RB(v)); }
                Xor if *y == sign => { let v = self.ar.rneg(*r); return Ok(Val::RB(v)); }
                LShr if *y == w as u128 - 1 => { let c = self.ar.rlt(*r, z); let (o, zz) = (self.ar.ic(1), self.ar.ic(0)); let v = self.ar.iite(c, o, zz); return Ok(self.mki(v, w)); }
                AShr if *y == w as u128 - 1 => { let c = self.ar.rlt(*r, z); let (o, zz) = (self.ar.ic(-1), self.ar.ic(0)); let v = self.ar.iite(c, o, zz); return Ok(self.mki(v, w)); }
                And if *y == sign => { let c = self.ar.rlt(*r, z); if self.decide(c)? { return Ok(Val::I(sign)); } else { return Ok(Val::I(0)); } }
                Add | Or | Xor if *y == 0 => return Ok(a.clone()),
                _ => {}
            }
        }
        if w == 1 {
            let (x, y) = (self.boolean(a)?, self.boolean(b)?);
            let r = match k {
                And | Mul => self.ar.and(x, y),
                Or => self.ar.or(x, y),
                Xor | Add | Sub => self.ar.bxor(x, y),
                _ => return Err(Flow::Unsup(format!("{k:?} on i1"))),
            };
            return Ok(self.mkb(r));
        }
        let (x, y) = (self.int(a, w)?, self.int(b, w)?);
        let r = match k {
            Add => { let r = self.ar.iadd(x, y); self.wrap(r, w) }
            Sub => { let r = self.ar.isub(x, y); self.wrap(r, w) }
            Mul => { let r = self.ar.imul(x, y); self.wrap(r, w) }
            UDiv | URem => {
                let (p, q) = (self.uns(x, w), self.uns(y, w));
                let d = self.concretize(q)?;
                if d <= 0 { return Err(Flow::Unsup("division by zero".into())); }
                let r = if k == UDiv { self.ar.idiv(p, d) } else { self.ar.imod(p, d) };
                self.wrap(r, w)
            }
            SDiv | SRem => {
                let d = self.concretize(y)?;
                if d == 0 { return Err(Flow::Unsup("division by zero".into())); }
                let z = self.ar.ic(0);
                let x = {
                    let (lo, hi) = self.ar.ir(x);
                    if lo < 0 && hi > 0 {
                        let c = self.ar.ile(z, x);
                        if self.decide(c)? { self.ar.narrow(x, 0, i128::MAX) } else { self.ar.narrow(x, i128::MIN, -1) }
                    } else { x }
                };
                let nx = self.ar.isub(z, x);
                let c = self.ar.ile(z, x);
                let ad = d.abs();
                if k == SDiv {
                    let p = self.ar.idiv(x, ad);
                    let q = self.ar.idiv(nx, ad);
                    let nq = self.ar.isub(z, q);
                    let t = self.ar.iite(c, p, nq);
                    let t = if d < 0 { self.ar.isub(z, t) } else { t };
                    self.wrap(t, w)
                } else {
                    let p = self.ar.imod(x, ad);
                    let q = self.ar.imod(nx, ad);
                    let nq = self.ar.isub(z, q);
                    self.ar.iite(c, p, nq)
                }
            }
            Shl | LShr if self.ar.icv(y).is_none() && self.ar.icv(x).is_some() && { let (lo, hi) = self.ar.ir(y); lo >= 0 && hi < w as i128 && w <= 64 } => {
                // a constant shifted by an unknown amount: constant on runs of amounts
                let (lo, hi) = self.ar.ir(y);
                let ux = mask(self.ar.icv(x).unwrap(), w);
                let f = |d: i128| sext(if k == Shl { (ux << d) & (u128::MAX >> (128 - w)) } else { ux >> d }, w);
                let mut runs: Vec<(i128, i128)> = vec![];
                for d in lo..=hi {
                    match runs.last_mut() { Some(l) if l.1 == f(d) => l.0 = d, _ => runs.push((d, f(d))) }
                }
                let mut r = self.ar.ic(runs[runs.len() - 1].1);
                for (d, v) in runs[..runs.len() - 1].iter().rev() {
                    let d = self.ar.ic(*d);
                    let c = self.ar.ile(y, d);
                    let v = self.ar.ic(*v);
                    r = self.ar.iite(c, v, r);
                }
                r
            }
            Shl => {
                let d = self.concretize(y)?;
                if d < 0 || d >= w as i128 { return Ok(Val::I(0)); }
                if d >= 120 { return Err(Flow::Unsup("wide shift".into())); }
                let c = self.ar.ic(1i128 << d);
                let r = self.ar.imul(x, c);
                self.wrap(r, w)
            }
            LShr => {
                let d = self.concretize(y)?;
                if d < 0 || d >= w as i128 { return Ok(Val::I(0)); }
                let u = self.uns(x, w);
                let r = self.ar.idiv(u, 1i128 << d);
                self.wrap(r, w)
            }
            AShr => {
                let d = self.concretize(y)?.clamp(0, w as i128 - 1);
                self.ar.idiv(x, 1i128 << d)
            }
            And | Or | Xor => {
                let op = match k { And => 0, Or => 1, _ => 2 };
                let mut r = self.ar.bitop(op, x, y);
                if r.is_err() && (16..=64).contains(&w) {
                    let (a, b) = (self.ar.uns(x, w), self.ar.uns(y, w));
                    r = self.ar.bitop(op, a, b);
                    if let Ok(v) = r { r = Ok(self.wrap(v, w)); }
                }
                match r {
                    Ok(r) => r,
                    Err(_) => {
                        // no formula for it: one path per value of the narrower operand
                        let ((xl, xh), (yl, yh)) = (self.ar.ir(x), self.ar.ir(y));
                        let (c, o) = if xh - xl < yh - yl { (x, y) } else { (y, x) };
                        let v = self.concretize(c)?;
                        let c = self.ar.ic(v);
                        self.ar.bitop(op, o, c)?
                    }
                }
            }
            _ => unreachable!(),
        };
        Ok(self.mki(r, w))
    }

    fn icmp(&mut self, p: IPred, w: u32, a: &Val, b: &Val) -> X<Val> {
        use IPred::*;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { Eq => x == y, Ne => x != y, Ugt => x > y, Uge => x >= y, Ult => x < y, Ule => x <= y, Sgt => sx > sy, Sge => sx >= sy, Slt => sx < sy, Sle => sx <= sy };
            return Ok(Val::I(r as u128));
        }
        if let (Val::RB(r), Val::I(y)) = (a, b) {
            let z = self.ar.rc(0.0);
            let c = match (p, sext(*y, w)) {
                (Slt, 0) | (Sle, -1) => Some(self.ar.rlt(*r, z)),
                (Sgt, -1) | (Sge, 0) => Some(self.ar.rle(z, *r)),
                (Eq, 0) => Some(self.ar.req(*r, z)),
                (Ne, 0) => { let e = self.ar.req(*r, z); Some(self.ar.not(e)) }
                _ => None,
            };
            if let Some(c) = c { return Ok(self.mkb(c)); }
            // compare with the pattern of another double (equality only)
            if matches!(p, Eq | Ne) && w == 64 {
                let f = f64::from_bits(*y as u64);
                if !f.is_finite() { return Ok(Val::I((p == Ne) as u128)); }
                let fc = self.ar.rc(f);
                let e = self.ar.req(*r, fc);
                let e = if p == Eq { e } else { self.ar.not(e) };
                return Ok(self.mkb(e));
            }
        }
        if let (Val::RB(x), Val::RB(y)) = (a, b) {
            if matches!(p, Eq | Ne) {
                let e = self.ar.req(*x, *y);
                let e = if p == Eq { e } else { self.ar.not(e) };
                return Ok(self.mkb(e));
            }
        }
        if w == 1 {
            let (x, y) = (self.boolean(a)?, self.boolean(b)?);
            let e = self.ar.bxor(x, y);
            let ny = self.ar.not(y);
            let nx = self.ar.not(x);
            let r = match p {
                Ne => e,
                Eq => self.ar.not(e),
                Ugt | Slt => self.ar.and(x, ny),
                Ult | Sgt => self.ar.and(nx, y),
                Uge | Sle => self.ar.or(x, ny),
                Ule | Sge => self.ar.or(nx, y),
            };
            return Ok(self.mkb(r));
        }
        let (mut x, mut y) = (self.int(a, w)?, self.int(b, w)?);
        if matches!(p, Ugt | Uge | Ult | Ule) {
            // common idiom: (x + c) <u d  is a range check
            x = self.uns(x, w);
            y = self.uns(y, w);
        }
        let r = match p {
            Eq => self.ar.ieq(x, y),
            Ne => { let e = self.ar.ieq(x, y); self.ar.not(e) }
            Ugt | Sgt => self.ar.ilt(y, x),
            Uge | Sge => self.ar.ile(y, x),
            Ult | Slt => self.ar.ilt(x, y),
            Ule | Sle => self.ar.ile(x, y),
        };
        Ok(self.mkb(r))
    }

    fn fcmp(&mut self, p: FPred, a: &Val, b: &Val) -> X<Val> {
        use FPred::*;
        match p { False => return Ok(Val::I(0)), True => return Ok(Val::I(1)), _ => {} }
        let unord = matches!(p, Ueq | Ugt | Uge | Ult | Ule | Une | Uno);
        let ca = cf(a);
        let cb = cf(b);
        if ca.map_or(false, |x| x.is_nan()) || cb.map_or(false, |x| x.is_nan()) { return Ok(Val::I(unord as u128)); }
        // replace an infinite constant against a finite symbolic value by an ordering
        let conc = match (ca, cb) {
            (Some(x), Some(y)) => Some((x, y)),
            (Some(x), None) if x.is_infinite() => Some((x, 0.0)),
            (None, Some(y)) if y.is_infinite() => Some((0.0, y)),
            _ => None,
        };
        if let Some((x, y)) = conc {
            let r = match p { Oeq | Ueq => x == y, Ogt | Ugt => x > y, Oge | Uge => x >= y, Olt | Ult => x < y, Ole | Ule => x <= y, One | Une => x != y, Ord => true, Uno => false, _ => false };
            return Ok(Val::I(r as u128));
        }
        let (x, y) = (self.real(a)?, self.real(b)?);
        let r = match p {
            Oeq | Ueq => self.ar.req(x, y),
            One | Une => { let e = self.ar.req(x, y); self.ar.not(e) }
            Ogt | Ugt => self.ar.rlt(y, x),
            Oge | Uge => self.ar.rle(y, x),
            Olt | Ult => self.ar.rlt(x, y),
            Ole | Ule => self.ar.rle(x, y),
            Ord => self.ar.b(true),
            _ => self.ar.b(false),
        };
        Ok(self.mkb(r))
    }

    /// -1, 0, 1
    fn sign(&mut self, v: &Val) -> X<i32> {
        if let Some(x) = cf(v) { return Ok(if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }); }
        let r = self.real(v)?;
        let z = self.ar.rc(0.0);
        let e = self.ar.req(r, z);
        if self.decide(e)? { return Ok(0); }
        let p = self.ar.rlt(z, r);
        Ok(if self.decide(p)? { 1 } else { -1 })
    }

    fn fbin(&mut self, k: BinK, is32: bool, a: &Val, b: &Val) -> X<Val> {
        use BinK::*;
        match (a, b) {
            (Val::F64(x), Val::F64(y)) => return Ok(Val::F64(match k { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y })),
            (Val::F32(x), Val::F32(y)) => return Ok(Val::F32(match k { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y })),
            _ => {}
        }
        let (ca, cb) = (cf(a), cf(b));
        if ca.map_or(false, |x| x.is_nan()) || cb.map_or(false, |x| x.is_nan()) { return Ok(mkf(is32, f64::NAN)); }
        if !finite(a) || !finite(b) {
            let inf_left = !finite(a);
            let v = ca.or(cb).unwrap();
            return Ok(match k {
                FAdd => mkf(is32, v),
                FSub => mkf(is32, if inf_left { v } else { -v }),
                FMul => { let s = if inf_left { self.sign(b)? } else { self.sign(a)? }; mkf(is32, if s == 0 { f64::NAN } else { v * s as f64 }) }
                FDiv => if inf_left { let s = self.sign(b)?; mkf(is32, if s < 0 { -v } else { v }) } else { mkf(is32, 0.0) },
                _ => if inf_left { mkf(is32, f64::NAN) } else { a.clone() },
            });
        }
        let (x, y) = (self.real(a)?, self.real(b)?);
        let r = match k {
            FAdd => self.ar.radd(x, y),
            FSub => self.ar.rsub(x, y),
            FMul => self.ar.rmul(x, y),
            FDiv => {
                let z = self.ar.rc(0.0);
                let e = self.ar.req(y, z);
                if self.decide(e)? {
                    let s = self.sign(a)?;
                    return Ok(mkf(is32, match s { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY }));
                }
                self.ar.rdiv(x, y)
            }
            _ => {
                let z = self.ar.rc(0.0);
                let e = self.ar.req(y, z);
                if self.decide(e)? { return Ok(mkf(is32, f64::NAN)); }
                let (ylo, yhi) = self.ar.rr(y);
                let ay = if ylo >= 0.0 { y } else if yhi <= 0.0 { self.ar.rneg(y) } else { let c = self.ar.rle(z, y); let n = self.ar.rneg(y); self.ar.rite(c, y, n) };
                let (xlo, xhi) = self.ar.rr(x);
                let m = self.ar.rr(ay).0;
                if xlo > -m && xhi < m { return Ok(self.mkr(x, is32)); }
                let q = self.ar.rdiv(x, ay);
                let t = self.trunc_int(q);
                let tr = self.ar.toreal(t);
                let p = self.ar.rmul(tr, ay);
                // the remainder of the division is exact in floating point
                let r = self.ar.rsub(x, p);
                return Ok(self.mkr(r, is32));
            }
        };
        Ok(self.rnd_r(r, is32))
    }
    fn trunc_int(&mut self, x: Id) -> Id {
        let z = self.ar.rc(0.0);
        let f = self.ar.floor(x);
        let (lo, hi) = self.ar.rr(x);
        if lo >= 0.0 { return f; }
        let n = self.ar.rneg(x);
        let g = self.ar.floor(n);
        let zi = self.ar.ic(0);
        let ng = self.ar.isub(zi, g);
        if hi <= 0.0 { return ng; }
        let c = self.ar.rle(z, x);
        self.ar.iite(c, f, ng)
    }
    fn ceil_int(&mut self, x: Id) -> Id {
        let n = self.ar.rneg(x);
        let g = self.ar.floor(n);
        let zi = self.ar.ic(0);
        self.ar.isub(zi, g)
    }
    fn round_int(&mut self, x: Id) -> Id {
        // half away from zero
        let h = self.ar.rc(0.5);
        let z = self.ar.rc(0.0);
        let a = self.ar.radd(x, h);
        let f = self.ar.floor(a);
        let b = self.ar.rsub(x, h);
        let g = self.ceil_int(b);
        let c = self.ar.rle(z, x);
        self.ar.iite(c, f, g)
    }
    fn clamp_int(&mut self, t: Id, lo: i128, hi: i128) -> Id {
        let (l, h) = self.ar.ir(t);
        let mut r = t;
        if h > hi { let c = self.ar.ic(hi); let g = self.ar.ilt(c, r); r = self.ar.iite(g, c, r); }
        if l < lo { let c = self.ar.ic(lo); let g = self.ar.ilt(r, c); r = self.ar.iite(g, c, r); }
        // the ite keeps a coarse interval; intersect by hand through wrap-free construction
        r
    }

    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: &Val) -> X<Val> {
        use CastK::*;
        if let (Ty::Vector(fe, n), Val::Agg(a)) = (from, v) {
            if let Ty::Vector(te, n2) = to {
                if n == n2 {
                    let mut o = vec![];
                    for x in a.iter() { o.push(self.cast(k, fe, te, x)?); }
                    return Ok(Val::Agg(Arc::new(o)));
                }
            }
            if k == Bitcast {
                // vector to scalar: assemble
                let ew = fe.width();
                if let Ty::Int(w) = to {
                    let mut acc = self.ar.ic(0);
                    for (i, x) in a.iter().enumerate() {
                        let xi = if ew == 1 { let b = self.boolean(x)?; let (o, z) = (self.ar.ic(1), self.ar.ic(0)); self.ar.iite(b, o, z) } else { let t = self.int(x, ew)?; self.uns(t, ew) };
                        let c = self.ar.ic(1i128 << (i as u32 * ew));
                        let t = self.ar.imul(xi, c);
                        acc = self.ar.iadd(acc, t);
                    }
                    let r = self.wrap(acc, *w);
                    return Ok(self.mki(r, *w));
                }
                if let Ty::Vector(te, n2) = to {
                    let tw = te.width();
                    if !a.iter().all(|x| matches!(x, Val::I(_))) && tw < ew {
                        // the parts of symbolic words
                        let mut o = vec![];
                        for x in a.iter() {
                            let x = self.int(x, ew)?;
                            let x = self.uns(x, ew);
                            for j in 0..ew / tw {
                                let d = self.ar.idiv(x, 1i128 << (j * tw));
                                let d = self.ar.imod(d, 1i128 << tw);
                                let d = self.ar.wrap(d, tw);
                                o.push(self.mki(d, tw));
                            }
                        }
                        return Ok(Val::Agg(Arc::new(o)));
                    }
                    // through concrete bytes
                    let mut big: Vec<u8> = vec![];
                    for x in a.iter() { let Val::I(x) = x else { return Err(Flow::Unsup("symbolic vector bitcast".into())) }; big.extend_from_slice(&x.to_le_bytes()[..(ew / 8) as usize]); }
                    let mut o = vec![];
                    for i in 0..*n2 as usize { let s = i * (tw / 8) as usize; let mut b = [0u8; 16]; b[..(tw / 8) as usize].copy_from_slice(&big[s..s + (tw / 8) as usize]); o.push(Val::I(u128::from_le_bytes(b))); }
                    return Ok(Val::Agg(Arc::new(o)));
                }
            }
        }
        let fw = from.width();
        let tw = to.width();
        Ok(match k {
            Trunc => match v {
                Val::I(x) => Val::I(mask(*x as i128, tw)),
                Val::Undef => Val::Undef,
                _ => {
                    let x = self.int(v, fw)?;
                    if tw == 1 { let m = self.ar.imod(x, 2); let one = self.ar.ic(1); let c = self.ar.ieq(m, one); return Ok(self.mkb(c)); }
                    let r = self.wrap(x, tw);
                    self.mki(r, tw)
                }
            },
            ZExt | SExt => match v {
                Val::I(x) => Val::I(if k == ZExt { *x } else { mask(sext(*x, fw), tw) }),
                Val::Undef => Val::I(0),
                _ => {
                    if fw == 1 {
                        let b = self.boolean(v)?;
                        let (o, z) = (self.ar.ic(if k == ZExt { 1 } else { -1 }), self.ar.ic(0));
                        let r = self.ar.iite(b, o, z);
                        return Ok(self.mki(r, tw));
                    }
                    let x = self.int(v, fw)?;
                    let r = if k == ZExt { self.uns(x, fw) } else { x };
                    self.mki(r, tw)
                }
            },
            PtrToInt | IntToPtr => match v {
                Val::I(x) => Val::I(mask(*x as i128, tw)),
                v => v.clone(),
            },
            Bitcast => match (v, to) {
                (Val::RB(r), Ty::F64) | (Val::RB(r), Ty::F32) => Val::R(*r),
                (Val::R(r), Ty::Int(_)) => Val::RB(*r),
                (Val::I(x), Ty::F64) => Val::F64(f64::from_bits(*x as u64)),
                (Val::I(x), Ty::F32) => Val::F32(f32::from_bits(*x as u32)),
                (Val::F64(x), Ty::Int(_)) => Val::I(x.to_bits() as u128),
                (Val::F32(x), Ty::Int(_)) => Val::I(x.to_bits() as u128),
                (Val::I(x), Ty::Vector(te, n)) => {
                    let ew = te.width();
                    Val::Agg(Arc::new((0..*n).map(|i| Val::I(mask((*x >> (i as u32 * ew)) as i128, ew))).collect()))
                }
                (Val::S(_), Ty::F64) | (Val::S(_), Ty::F32) => {
                    let i = self.int(v, fw)?;
                    // e.g. a select between the patterns of two constants
                    let x = self.concretize(i)?;
                    if fw == 64 { Val::F64(f64::from_bits(x as u64)) } else { Val::F32(f32::from_bits(x as u32)) }
                }
                (v, _) => v.clone(),
            },
            UiToFp | SiToFp => match v {
                Val::I(x) => {
                    let is32 = *to == Ty::F32;
                    if k == UiToFp { if is32 { Val::F32(*x as f32) } else { Val::F64(*x as f64) } } else { let s = sext(*x, fw); if is32 { Val::F32(s as f32) } else { Val::F64(s as f64) } }
                }
                _ => {
                    let x = if fw == 1 { let b = self.boolean(v)?; let (o, z) = (self.ar.ic(if k == UiToFp { 1 } else { -1 }), self.ar.ic(0)); self.ar.iite(b, o, z) } else { self.int(v, fw)? };
                    let x = if k == UiToFp { self.uns(x, fw) } else { x };
                    let r = self.ar.toreal(x);
                    self.rnd_r(r, *to == Ty::F32)
                }
            },
            FpToUi | FpToSi => match cf(v) {
                Some(f) => if k == FpToUi { Val::I(mask(f as u128 as i128, tw)) } else { Val::I(mask(f as i128, tw)) },
                None => {
                    let r = self.real(v)?;
                    let t = self.trunc_int(r);
                    let w = self.wrap(t, tw);
                    self.mki(w, tw)
                }
            },
            FpTrunc => match v {
                Val::F64(x) => Val::F32(*x as f32),
                Val::R(r) => self.rnd_r(*r, true),
                v => v.clone(),
            },
            FpExt => match v {
                Val::F32(x) => Val::F64(*x as f64),
                v => v.clone(),
            },
        })
    }

    fn select(&mut self, t: &Ty, c: &Val, a: Val, b: Val) -> X<Val> {
        match c {
            Val::I(x) => return Ok(if *x & 1 == 1 { a } else { b }),
            Val::Undef => return Ok(b),
            Val::Agg(cs) => {
                // lane-wise
                let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return Err(Flow::Unsup("vector select".into())) };
                let e = t.elem(0);
                let mut o = vec![];
                for i in 0..cs.len() { o.push(self.select(&e, &cs[i], x[i].clone(), y[i].clone())?); }
                return Ok(Val::Agg(Arc::new(o)));
            }
            _ => {}
        }
        let cb = self.boolean(c)?;
        if let Some(v) = self.ar.bv(cb) { return Ok(if v { a } else { b }); }
        if self.s.known.contains(&cb) { return Ok(a); }
        let nb = self.ar.not(cb);
        if self.s.known.contains(&nb) { return Ok(b); }
        match t {
            Ty::Int(1) => {
                let (x, y) = (self.boolean(&a)?, self.boolean(&b)?);
                let r = self.ar.bite(cb, x, y);
                Ok(self.mkb(r))
            }
            Ty::Int(w) if !matches!(a, Val::RB(_)) && !matches!(b, Val::RB(_)) => {
                let (x, y) = (self.int(&a, *w)?, self.int(&b, *w)?);
                let r = self.ar.iite(cb, x, y);
                Ok(self.mki(r, *w))
            }
            Ty::F64 | Ty::F32 if finite(&a) && finite(&b) => {
                let (x, y) = (self.real(&a)?, self.real(&b)?);
                let r = self.ar.rite(cb, x, y);
                Ok(self.mkr(r, *t == Ty::F32))
            }
            _ => Ok(if self.decide(cb)? { a } else { b }),
        }
    }

    // ------------------------------------------------------------------ main loop
    fn path(&mut self) -> Flow {
        loop {
            match self.step() {
                Ok(()) => {}
                Err(f) => return f,
            }
        }
    }
    fn set(&mut self, r: u32, v: Val) {
        if r != u32::MAX { self.s.frames.last_mut().unwrap().regs[r as usize] = v; }
    }
    fn goto(&mut self, b: u32) {
        let m = self.m;
        let fi = self.s.frames.len() - 1;
        let (func, from) = { let f = &self.s.frames[fi]; (f.func, f.block) };
        let bl = &m.funcs[func as usize].blocks[b as usize];
        let mut vals: Vec<(u32, Val)> = Vec::with_capacity(bl.nphi);
        for (d, ins) in bl.ins[..bl.nphi].iter() {
            if let Ins::Phi(v) = ins {
                for (p, o) in v {
                    if *p == from { vals.push((*d, self.op(o))); break; }
                }
            }
        }
        let f = &mut self.s.frames[fi];
        for (d, v) in vals { f.regs[d as usize] = v; }
        f.block = b;
        f.ip = bl.nphi as u32;
    }
    fn step(&mut self) -> X<()> {
        self.rep.ins += 1;
        self.s.ins += 1;
        if self.s.ins > self.cfg.max_ins_path { return Err(Flow::Unsup("instruction limit of a path".into())); }
        if self.rep.ins & 0xffff == 0 && crate::solver::over() { return Err(Flow::Unsup("time limit".into())); }
        let m = self.m;
        let f = self.s.frames.last().unwrap();
        let bl = &m.funcs[f.func as usize].blocks[f.block as usize];
        let (dst, ins) = &bl.ins[f.ip as usize];
        let dst = *dst;
        match ins {
            Ins::Bin(k, t, a, b) => {
                let (x, y) = (self.op(a), self.op(b));
                let v = self.bin_ty(*k, t, &x, &y)?;
                self.set(dst, v);
            }
            Ins::FNeg(t, a) => {
                let x = self.op(a);
                let v = self.fneg(t, &x)?;
                self.set(dst, v);
            }
            Ins::ICmp(p, t, a, b) => {
                let (x, y) = (self.op(a), self.op(b));
                let v = if let Ty::Vector(e, _) = t {
                    let (Val::Agg(x), Val::Agg(y)) = (&x, &y) else { return Err(Flow::Unsup("vector icmp".into())) };
                    let mut o = vec![];
                    for i in 0..x.len() { o.push(self.icmp(*p, e.width(), &x[i], &y[i])?); }
                    Val::Agg(Arc::new(o))
                } else {
                    self.icmp(*p, t.width(), &x, &y)?
                };
                self.set(dst, v);
            }
            Ins::FCmp(p, t, a, b) => {
                let (x, y) = (self.op(a), self.op(b));
                let v = if t.is_vec() {
                    let (Val::Agg(x), Val::Agg(y)) = (&x, &y) else { return Err(Flow::Unsup("vector fcmp".into())) };
                    let mut o = vec![];
                    for i in 0..x.len() { o.push(self.fcmp(*p, &x[i], &y[i])?); }
                    Val::Agg(Arc::new(o))
                } else { self.fcmp(*p, &x, &y)? };
                self.set(dst, v);
            }
            Ins::Cast(k, from, to, a) => {
                let x = self.op(a);
                let v = self.cast(*k, from, to, &x)?;
                self.set(dst, v);
            }
            Ins::Load(t, p) => {
                let pv = self.op(p);
                if let Some(v) = self.table(&pv, t) {
                    self.set(dst, v);
                } else {
                    let a = self.addr(&pv)?;
                    let v = self.s.mem.load(&mut self.ar, a, t)?;
                    self.set(dst, v);
                }
            }
            Ins::Store(t, v, p) => {
                let pv = self.op(p);
                let a = self.addr(&pv)?;
                let v = self.op(v);
                self.s.mem.store(&mut self.ar, a, t, &v)?;
            }
            Ins::Gep(base, off, idx) => {
                let b = self.op(base);
                let mut conc = true;
                let mut acc: i128 = *off as i128;
                if !matches!(b, Val::I(_)) { conc = false; }
                let mut iv = vec![];
                for (sc, o, w) in idx {
                    let v = self.op(o);
                    if let Val::I(x) = v { acc += sext(x, *w) * *sc as i128; } else { conc = false; iv.push((*sc, v, *w)); }
                }
                let v = if conc {
                    let Val::I(x) = b else { unreachable!() };
                    Val::I(mask((x as i128).wrapping_add(acc), 64))
                } else {
                    let mut r = self.int(&b, 64)?;
                    let c = self.ar.ic(acc);
                    r = self.ar.iadd(r, c);
                    for (sc, v, w) in iv {
                        let x = self.int(&v, w)?;
                        let c = self.ar.ic(sc as i128);
                        let t = self.ar.imul(x, c);
                        r = self.ar.iadd(r, t);
                    }
                    let r = self.wrap(r, 64);
                    self.mki(r, 64)
                };
                self.set(dst, v);
            }
            Ins::Alloca(n) => {
                let a = self.s.mem.alloc(*n)?;
                self.s.frames.last_mut().unwrap().allocas.push(a);
                self.set(dst, Val::I(a as u128));
            }
            Ins::Call(c, rt, args) => {
                return self.call(dst, u32::MAX, c, rt, args);
            }
            Ins::Invoke(c, rt, args, l) => {
                return self.call(dst, *l, c, rt, args);
            }
            Ins::Select(_, t, c, a, b) => {
                let (cv, x, y) = (self.op(c), self.op(a), self.op(b));
                let v = self.select(t, &cv, x, y)?;
                self.set(dst, v);
            }
            Ins::Phi(_) => {}
            Ins::Extract(o, ix) => {
                let mut v = self.op(o);
                for i in ix {
                    v = match v { Val::Agg(a) => a[*i as usize].clone(), _ => Val::Undef };
                }
                self.set(dst, v);
            }
            Ins::Insert(t, o, _, e, ix) => {
                let v = self.op(o);
                let e = self.op(e);
                let v = insert(t, v, &e, ix);
                self.set(dst, v);
            }
            Ins::ExtractElem(_, o, i) => {
                let i = self.op(i);
                let k = self.conc(&i, 64)? as usize;
                let v = match self.op(o) { Val::Agg(a) => a.get(k).cloned().unwrap_or(Val::Undef), _ => Val::Undef };
                self.set(dst, v);
            }
            Ins::InsertElem(t, o, e, i) => {
                let i = self.op(i);
                let k = self.conc(&i, 64)? as u32;
                let v = self.op(o);
                let e = self.op(e);
                let v = insert(t, v, &e, &[k]);
                self.set(dst, v);
            }
            Ins::Shuffle(t, a, b, mk) => {
                let n = t.count();
                let z = Parser::zero(t);
                let get = |v: Val| match v { Val::Agg(a) => a, _ => match &z { Val::Agg(a) => a.clone(), _ => unreachable!() } };
                let (x, y) = (get(self.op(a)), get(self.op(b)));
                let o: Vec<Val> = mk.iter().map(|i| if *i < 0 { Val::I(0) } else if (*i as usize) < n { x[*i as usize].clone() } else { y[*i as usize - n].clone() }).collect();
                self.set(dst, Val::Agg(Arc::new(o)));
            }
            Ins::Freeze(o) => {
                let v = self.op(o);
                self.set(dst, v);
            }
            Ins::AtomicRmw(k, t, p, v) => {
                let pv = self.op(p);
                let a = self.addr(&pv)?;
                let old = self.s.mem.load(&mut self.ar, a, t)?;
                let v = self.op(v);
                let w = t.width();
                let nv = match k {
                    0 => v,
                    1 => self.bin(BinK::Add, w, &old, &v)?,
                    2 => self.bin(BinK::Sub, w, &old, &v)?,
                    3 => self.bin(BinK::And, w, &old, &v)?,
                    5 => self.bin(BinK::Or, w, &old, &v)?,
                    6 => self.bin(BinK::Xor, w, &old, &v)?,
                    7 | 8 => { let (Val::I(x), Val::I(y)) = (&old, &v) else { return Err(Flow::Unsup("atomic".into())) }; Val::I(if *k == 7 { *x.max(y) } else { *x.min(y) }) }
                    _ => return Err(Flow::Unsup("atomicrmw".into())),
                };
                self.s.mem.store(&mut self.ar, a, t, &nv)?;
                self.set(dst, old);
            }
            Ins::CmpXchg(t, p, c, n) => {
                let pv = self.op(p);
                let a = self.addr(&pv)?;
                let old = self.s.mem.load(&mut self.ar, a, t)?;
                let (cv, nv) = (self.op(c), self.op(n));
                let eq = self.icmp(IPred::Eq, t.width(), &old, &cv)?;
                let Val::I(e) = eq else { return Err(Flow::Unsup("symbolic cmpxchg".into())) };
                if e == 1 { self.s.mem.store(&mut self.ar, a, t, &nv)?; }
                self.set(dst, Val::Agg(Arc::new(vec![old, Val::I(e)])));
            }
            Ins::Nop => {}
            Ins::Br(b) => {
                self.goto(*b);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let v = self.op(c);
                let side = match v {
                    Val::I(x) => x & 1 == 1,
                    Val::Undef => false,
                    v => { let c = self.boolean(&v)?; self.decide(c)? }
                };
                self.goto(if side { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(t, o, d, cs) => {
                let v = self.op(o);
                let w = t.width();
                let mut to = *d;
                match v {
                    Val::I(x) => { for (c, b) in cs { if *c == x { to = *b; break; } } }
                    Val::Undef => {}
                    v => {
                        let x = if w == 1 { let b = self.boolean(&v)?; let (o, z) = (self.ar.ic(-1), self.ar.ic(0)); self.ar.iite(b, o, z) } else { self.int(&v, w)? };
                        // group the cases by target so that equal targets do not fork
                        let mut groups: Vec<(u32, Id)> = vec![];
                        for (c, b) in cs {
                            if *b == *d { continue; }
                            let k = self.ar.ic(sext(*c, w));
                            let e = self.ar.ieq(x, k);
                            match groups.iter_mut().find(|g| g.0 == *b) {
                                Some(g) => g.1 = self.ar.or(g.1, e),
                                None => groups.push((*b, e)),
                            }
                        }
                        for (b, e) in groups {
                            if self.decide(e)? { to = b; break; }
                        }
                    }
                }
                self.goto(to);
                return Ok(());
            }
            Ins::Ret(_, o) => {
                let v = o.as_ref().map(|o| self.op(o));
                let f = self.s.frames.pop().unwrap();
                for a in f.allocas { self.s.mem.release(a)?; }
                if self.s.frames.is_empty() { return Err(Flow::PathEnd); }
                if let Some(v) = v { self.set(f.ret_reg, v); }
                if f.ret_block != u32::MAX { self.goto(f.ret_block); } else { self.s.frames.last_mut().unwrap().ip += 1; }
                return Ok(());
            }
            Ins::Unreachable => return Err(Flow::Unsup("unreachable code reached".into())),
            Ins::Bad(e) => return Err(Flow::Unsup(e.clone())),
        }
        self.s.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn fneg(&mut self, t: &Ty, x: &Val) -> X<Val> {
        Ok(match x {
            Val::F64(v) => Val::F64(-v),
            Val::F32(v) => Val::F32(-v),
            Val::R(r) => { let n = self.ar.rneg(*r); self.mkr(n, *t == Ty::F32) }
            Val::Agg(a) => { let e = t.elem(0); let mut o = vec![]; for v in a.iter() { o.push(self.fneg(&e, v)?); } Val::Agg(Arc::new(o)) }
            _ => return Err(Flow::Unsup("fneg".into())),
        })
    }
    fn bin_ty(&mut self, k: BinK, t: &Ty, x: &Val, y: &Val) -> X<Val> {
        use BinK::*;
        if let Ty::Vector(e, n) = t {
            let z = Parser::zero(t);
            let get = |v: &Val| match v { Val::Agg(a) => a.clone(), _ => match &z { Val::Agg(a) => a.clone(), _ => unreachable!() } };
            let (x, y) = (get(x), get(y));
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.bin_ty(k, e, &x[i], &y[i])?); }
            return Ok(Val::Agg(Arc::new(o)));
        }
        if matches!(k, FAdd | FSub | FMul | FDiv | FRem) { return self.fbin(k, *t == Ty::F32, x, y); }
        self.bin(k, t.width(), x, y)
    }

    fn ret_native(&mut self, dst: u32, ret_block: u32, v: Val) -> X<()> {
        self.set(dst, v);
        if ret_block != u32::MAX { self.goto(ret_block); } else { self.s.frames.last_mut().unwrap().ip += 1; }
        Ok(())
    }

    fn call(&mut self, dst: u32, ret_block: u32, c: &Callee, rt: &Ty, args: &[(Ty, Op)]) -> X<()> {
        let (fid, eid) = match c {
            Callee::Func(f) => (Some(*f), None),
            Callee::Ext(e) => (None, Some(*e)),
            Callee::Asm => return self.ret_native(dst, ret_block, Parser::zero(rt)),
            Callee::Ptr(o) => {
                let v = self.op(o);
                let a = self.addr(&v)?;
                match self.m.func_at(a) {
                    Some(Ok(f)) => (Some(f), None),
                    Some(Err(e)) => (None, Some(e)),
                    None => return Err(Flow::Unsup(format!("call of invalid address {a:#x}"))),
                }
            }
        };
        if let Some(f) = fid {
            if let Some(k) = self.natives.get(&f) {
                match *k {
                    "panic" => { let msg = self.panic_msg(args); return Err(Flow::Panic(msg)); }
                    "nop" => return self.ret_native(dst, ret_block, Parser::zero(rt)),
                    "keys" => {
                        self.rep.stubs.insert("hash map keys fixed".into());
                        let v = Val::Agg(Arc::new(vec![Val::I(0x0123_4567_89ab_cdef), Val::I(0xfedc_ba98_7654_3210)]));
                        if *rt == Ty::Void {
                            let p = self.op(&args[0].1);
                            let a = self.addr(&p)?;
                            self.s.mem.store(&mut self.ar, a, &Ty::Struct(Arc::new(vec![Ty::Int(64), Ty::Int(64)]), false), &v)?;
                        }
                        return self.ret_native(dst, ret_block, v);
                    }
                    "memchr" => {
                        // byte by byte instead of word by word
                        let (x, p, n) = (self.op(&args[0].1), self.op(&args[1].1), self.op(&args[2].1));
                        let (a, n) = (self.addr(&p)?, self.conc(&n, 64)? as u64);
                        let x = self.int(&x, 8)?;
                        let x = self.uns(x, 8);
                        let mut at = None;
                        for i in 0..n {
                            let y = self.s.mem.load(&mut self.ar, a + i, &Ty::Int(8))?;
                            let y = self.int(&y, 8)?;
                            let y = self.uns(y, 8);
                            let e = self.ar.ieq(x, y);
                            if self.decide(e)? { at = Some(i); break; }
                        }
                        let v = Val::Agg(Arc::new(vec![Val::I(at.is_some() as u128), Val::I(at.unwrap_or(0) as u128)]));
                        return self.ret_native(dst, ret_block, v);
                    }
                    _ => {}
                }
            }
            let fun = &self.m.funcs[f as usize];
            let mut regs = vec![Val::Undef; fun.nregs as usize];
            for (i, p) in fun.params.iter().enumerate() {
                if let Some((_, o)) = args.get(i) { regs[*p as usize] = self.op(o); }
            }
            if self.s.frames.len() > 400 { return Err(Flow::Unsup("call depth".into())); }
            self.rep.funcs.insert(f);
            self.s.frames.push(Frame { func: f, block: 0, ip: 0, regs, allocas: vec![], ret_reg: dst, ret_block });
            return Ok(());
        }
        let name: &'m str = &self.m.ext[eid.unwrap() as usize];
        let av: Vec<Val> = args.iter().map(|(_, o)| self.op(o)).collect();
        let v = self.ext(name, rt, args, &av)?;
        self.ret_native(dst, ret_block, v)
    }

    fn panic_msg(&mut self, args: &[(Ty, Op)]) -> String {
        // location of the caller is usually the last pointer argument: &Location { ptr, len, line, col }
        let mut loc = String::new();
        for (_, o) in args.iter().rev() {
            if let Val::I(a) = self.op(o) {
                let a = a as u64;
                let f = |s: &mut Self, off: u64, t: Ty| s.s.mem.load(&mut s.ar, a + off, &t).ok();
                if let (Some(Val::I(p)), Some(Val::I(l)), Some(Val::I(line))) = (f(self, 0, Ty::Ptr), f(self, 8, Ty::Int(64)), f(self, 16, Ty::Int(32))) {
                    if l < 400 {
                        if let Ok(b) = self.s.mem.bytes(p as u64, l as u64) {
                            if let Ok(s) = String::from_utf8(b) {
                                if s.contains(".rs") { loc = format!("{}:{}", s.trim_end_matches('\0'), line); break; }
                            }
                        }
                    }
                }
            }
        }
        let caller = self.s.frames.iter().rev().map(|f| demangle(&self.m.funcs[f.func as usize].name)).find(|n| !n.contains("core") || n.contains("surfrs")).unwrap_or_default();
        format!("at {loc} in {caller}")
    }

    fn rd_str(&mut self, p: &Val, n: &Val) -> X<String> {
        let a = self.addr(p)?;
        let l = self.conc(n, 64)? as u64;
        Ok(String::from_utf8_lossy(&self.s.mem.bytes(a, l)?).into_owned())
    }

    fn new_input(&mut self, real: bool, ilo: i128, ihi: i128, rlo: f64, rhi: f64) -> Id {
        let key = if real { (self.s.inputs.len(), true, rlo.to_bits(), rhi.to_bits()) } else { (self.s.inputs.len(), false, ilo as u64, ihi as u64) };
        let v = match self.varmap.get(&key) {
            Some(v) => *v,
            None => {
                let v = self.ar.vars.len() as u32;
                if real { self.ar.rvar(rlo, rhi); } else { self.ar.ivar(ilo, ihi); }
                self.varmap.insert(key, v);
                v
            }
        };
        self.s.inputs.push(v);
        // extend the witness
        if let Some(w) = &self.s.wit {
            let mut inp = w.inputs.clone();
            let mut grew = false;
            while inp.len() < self.ar.vars.len() {
                let i = self.ar.vars[inp.len()].clone();
                let r = self.rnd();
                grew = true;
                inp.push(if i.real {
                    let (lo, hi) = (i.rlo.max(-1e6), i.rhi.min(1e6));
                    let x = lo + (hi - lo) * ((r % 1000) as f64 / 1000.0);
                    let y = (x * 64.0).round() / 64.0;
                    InputVal::F(if y >= i.rlo && y <= i.rhi { y } else { x })
                } else {
                    let span = (i.ihi - i.ilo + 1).max(1);
                    InputVal::I(i.ilo + (r as i128).rem_euclid(span))
                });
            }
            if grew { self.s.wit = Some(Rc::new(Witness::new(inp))); }
        }
        self.ar.vars[v as usize].node
    }

    fn unary_uf(&mut self, k: Uf, is32: bool, v: &Val) -> X<Val> {
        if let Some(x) = cf(v) { return Ok(if is32 { Val::F32(uf_eval(k, x, 0.0) as f32) } else { Val::F64(uf_eval(k, x, 0.0)) }); }
        let x = self.real(v)?;
        let z = self.ar.rc(0.0);
        match k {
            Uf::Sqrt => { let c = self.ar.rlt(x, z); if self.decide(c)? { return Ok(mkf(is32, f64::NAN)); } }
            Uf::Ln | Uf::Log10 | Uf::Log2 => {
                let c = self.ar.rle(x, z);
                if self.decide(c)? {
                    let e = self.ar.req(x, z);
                    return Ok(mkf(is32, if self.decide(e)? { f64::NEG_INFINITY } else { f64::NAN }));
                }
            }
            Uf::Asin | Uf::Acos => {
                let (o, n) = (self.ar.rc(1.0), self.ar.rc(-1.0));
                let a = self.ar.rlt(o, x);
                let b = self.ar.rlt(x, n);
                let c = self.ar.or(a, b);
                if self.decide(c)? { return Ok(mkf(is32, f64::NAN)); }
            }
            _ => {}
        }
        let r = self.mkuf(k, x, x);
        Ok(self.rnd_r(r, is32))
    }
    fn pow(&mut self, is32: bool, a: &Val, b: &Val) -> X<Val> {
        if let (Some(x), Some(y)) = (cf(a), cf(b)) { return Ok(mkf(is32, x.powf(y))); }
        if !finite(a) || !finite(b) { return Err(Flow::Unsup("pow with an infinite operand".into())); }
        let x = self.real(a)?;
        let y = self.real(b)?;
        let z = self.ar.rc(0.0);
        let one = self.ar.rc(1.0);
        if let Some(e) = cf(b) {
            if e == 0.0 { return Ok(mkf(is32, 1.0)); }
            if e == 0.5 { return self.unary_uf(Uf::Sqrt, is32, a); }
            if e.fract() == 0.0 && e.abs() <= 8.0 {
                let n = e.abs() as u32;
                let mut r = x;
                for _ in 1..n { r = self.ar.rmul(r, x); if !self.s.exact && n > 2 { r = self.ar.round(r, is32); } }
                if e < 0.0 {
                    let c = self.ar.req(x, z);
                    if self.decide(c)? { return Ok(mkf(is32, f64::INFINITY)); }
                    r = self.ar.rdiv(one, r);
                }
                return Ok(self.rnd_r(r, is32));
            }
        }
        let s = self.sign(a)?;
        if s == 0 {
            let t = self.sign(b)?;
            return Ok(mkf(is32, match t { 0 => 1.0, 1 => 0.0, _ => f64::INFINITY }));
        }
        if s < 0 {
            if let Some(e) = cf(b) { if e.fract() != 0.0 { return Ok(mkf(is32, f64::NAN)); } }
            return Err(Flow::Unsup("pow of a negative base".into()));
        }
        let r = self.mkuf(Uf::Pow, x, y);
        Ok(self.rnd_r(r, is32))
    }
    fn fminmax(&mut self, is32: bool, max: bool, a: &Val, b: &Val) -> X<Val> {
        let (ca, cb) = (cf(a), cf(b));
        if ca.map_or(false, |x| x.is_nan()) { return Ok(b.clone()); }
        if cb.map_or(false, |x| x.is_nan()) { return Ok(a.clone()); }
        if let (Some(x), Some(y)) = (ca, cb) { return Ok(mkf(is32, if max { x.max(y) } else { x.min(y) })); }
        for (c, o) in [(ca, b), (cb, a)] {
            if let Some(x) = c {
                if x.is_infinite() { return Ok(if (x > 0.0) == max { mkf(is32, x) } else { o.clone() }); }
            }
        }
        let (x, y) = (self.real(a)?, self.real(b)?);
        let c = self.ar.rle(x, y);
        let r = if max { self.ar.rite(c, y, x) } else { self.ar.rite(c, x, y) };
        Ok(self.mkr(r, is32))
    }

    fn ext(&mut self, name: &str, rt: &Ty, args: &[(Ty, Op)], av: &[Val]) -> X<Val> {
        if let Some(r) = name.strip_prefix("llvm.") { return self.intrinsic(r, rt, args, av); }
        if let Some(r) = name.strip_prefix("irs_") { return self.irs(r, av); }
        let f64u = |k: Uf| Some(k);
        let uf = match name {
            "sin" | "sinf" => f64u(Uf::Sin), "cos" | "cosf" => f64u(Uf::Cos), "tan" | "tanf" => f64u(Uf::Tan), "asin" => f64u(Uf::Asin), "acos" => f64u(Uf::Acos), "atan" => f64u(Uf::Atan),
            "exp" | "expf" => f64u(Uf::Exp), "log" | "logf" => f64u(Uf::Ln), "log10" => f64u(Uf::Log10), "log2" => f64u(Uf::Log2), "tanh" => f64u(Uf::Tanh), "sinh" => f64u(Uf::Sinh), "cosh" => f64u(Uf::Cosh),
            "cbrt" => f64u(Uf::Cbrt), "exp2" => f64u(Uf::Exp2), "sqrt" => f64u(Uf::Sqrt), _ => None,
        };
        if let Some(k) = uf { return self.unary_uf(k, *rt == Ty::F32, &av[0]); }
        match name {
            "pow" | "powf" => self.pow(*rt == Ty::F32, &av[0], &av[1]),
            "fmod" | "fmodf" => self.fbin(BinK::FRem, *rt == Ty::F32, &av[0], &av[1]),
            "atan2" => {
                if let (Some(x), Some(y)) = (cf(&av[0]), cf(&av[1])) { return Ok(Val::F64(x.atan2(y))); }
                let (a, b) = (self.real(&av[0])?, self.real(&av[1])?);
                let r = self.mkuf(Uf::Atan2, a, b);
                Ok(self.rnd_r(r, false))
            }
            "hypot" => {
                if let (Some(x), Some(y)) = (cf(&av[0]), cf(&av[1])) { return Ok(Val::F64(x.hypot(y))); }
                let (a, b) = (self.real(&av[0])?, self.real(&av[1])?);
                let r = self.mkuf(Uf::Hypot, a, b);
                Ok(self.rnd_r(r, false))
            }
            "malloc" => { let n = self.conc(&av[0], 64)? as u64; Ok(Val::I(self.s.mem.alloc(n)? as u128)) }
            "calloc" => { let n = self.conc(&av[0], 64)? as u64; let k = self.conc(&av[1], 64)? as u64; Ok(Val::I(self.s.mem.alloc(n * k)? as u128)) }
            "aligned_alloc" => { let n = self.conc(&av[1], 64)? as u64; Ok(Val::I(self.s.mem.alloc(n)? as u128)) }
            "posix_memalign" => {
                let n = self.conc(&av[2], 64)? as u64;
                let a = self.s.mem.alloc(n)?;
                let p = self.addr(&av[0])?;
                self.s.mem.store(&mut self.ar, p, &Ty::Ptr, &Val::I(a as u128))?;
                Ok(Val::I(0))
            }
            "realloc" => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)? as u64;
                let a = self.s.mem.alloc(n)?;
                if p != 0 {
                    let old = self.s.mem.objs[(p >> OBJ_SHIFT) as usize].as_ref().map(|o| o.data.len() as u64).unwrap_or(0);
                    self.s.mem.copy(&mut self.ar, a, p, old.min(n))?;
                    self.s.mem.release(p)?;
                }
                Ok(Val::I(a as u128))
            }
            "free" => { let p = self.addr(&av[0])?; if p != 0 { self.s.mem.release(p)?; } Ok(Val::Undef) }
            "memcpy" | "memmove" => { let (d, s) = (self.addr(&av[0])?, self.addr(&av[1])?); let n = self.conc(&av[2], 64)? as u64; self.s.mem.copy(&mut self.ar, d, s, n)?; Ok(av[0].clone()) }
            "memset" => { let d = self.addr(&av[0])?; let b = self.conc(&av[1], 32)? as u8; let n = self.conc(&av[2], 64)? as u64; self.s.mem.set(&mut self.ar, d, b, n)?; Ok(av[0].clone()) }
            "bcmp" | "memcmp" => {
                let (a, b) = (self.addr(&av[0])?, self.addr(&av[1])?);
                let n = self.conc(&av[2], 64)? as u64;
                if let (Ok(x), Ok(y)) = (self.s.mem.bytes(a, n), self.s.mem.bytes(b, n)) {
                    let r = match x.cmp(&y) { std::cmp::Ordering::Less => -1i128, std::cmp::Ordering::Equal => 0, _ => 1 };
                    return Ok(Val::I(mask(r, 32)));
                }
                let mut res = self.ar.ic(0);
                for i in (0..n).rev() {
                    let x = self.s.mem.load(&mut self.ar, a + i, &Ty::Int(8))?;
                    let y = self.s.mem.load(&mut self.ar, b + i, &Ty::Int(8))?;
                    let (x, y) = (self.int(&x, 8)?, self.int(&y, 8)?);
                    let e = self.ar.ieq(x, y);
                    if name == "bcmp" {
                        let one = self.ar.ic(1);
                        res = self.ar.iite(e, res, one);
                    } else {
                        let (xu, yu) = (self.uns(x, 8), self.uns(y, 8));
                        let l = self.ar.ilt(xu, yu);
                        let (m1, p1) = (self.ar.ic(-1), self.ar.ic(1));
                        let d = self.ar.iite(l, m1, p1);
                        res = self.ar.iite(e, res, d);
                    }
                }
                // equality as one decision: nested ites are collapsed into a boolean first
                if name == "bcmp" {
                    let z = self.ar.ic(0);
                    let mut all = self.ar.b(true);
                    for i in 0..n {
                        let x = self.s.mem.load(&mut self.ar, a + i, &Ty::Int(8))?;
                        let y = self.s.mem.load(&mut self.ar, b + i, &Ty::Int(8))?;
                        let (x, y) = (self.int(&x, 8)?, self.int(&y, 8)?);
                        let e = self.ar.ieq(x, y);
                        all = self.ar.and(all, e);
                    }
                    let one = self.ar.ic(1);
                    let r = self.ar.iite(all, z, one);
                    return Ok(self.mki(r, 32));
                }
                Ok(self.mki(res, 32))
            }
            "strlen" => { let a = self.addr(&av[0])?; let mut n = 0; loop { let b = self.s.mem.bytes(a + n, 1)?; if b[0] == 0 { break; } n += 1; } Ok(Val::I(n as u128)) }
            "abort" => Err(Flow::Panic("abort".into())),
            "getenv" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "sched_yield" => Ok(Val::I(0)),
            "pthread_key_create" => { self.s.keys += 1; let p = self.addr(&av[0])?; let k = self.s.keys; self.s.mem.store(&mut self.ar, p, &Ty::Int(32), &Val::I(k as u128))?; Ok(Val::I(0)) }
            "pthread_self" | "gettid" => Ok(Val::I(1)),
            "write" => { Ok(av[2].clone()) }
            "clock_gettime" => {
                self.rep.stubs.insert("clock fixed at 2024-01-01T00:00:00Z".into());
                let p = self.addr(&av[1])?;
                self.s.mem.store(&mut self.ar, p, &Ty::Int(64), &Val::I(1704067200))?;
                self.s.mem.store(&mut self.ar, p + 8, &Ty::Int(64), &Val::I(0))?;
                Ok(Val::I(0))
            }
            "__errno_location" => Ok(Val::I(self.s.mem.alloc(8)? as u128)),
            "syscall" => { Ok(Val::I(mask(-1, 64))) }
            _ => Err(Flow::Unsup(format!("external function {name}"))),
        }
    }

    fn intrinsic(&mut self, n: &str, rt: &Ty, args: &[(Ty, Op)], av: &[Val]) -> X<Val> {
        let base = n.split('.').next().unwrap_or("");
        // lane-wise
        if let Ty::Vector(e, cnt) = rt {
            if args.iter().all(|(t, _)| t == rt) && !args.is_empty() && !matches!(base, "vector") {
                let mut o = vec![];
                for i in 0..*cnt as usize {
                    let a2: Vec<Val> = av.iter().map(|v| match v { Val::Agg(a) => a[i].clone(), _ => Val::I(0) }).collect();
                    let t2: Vec<(Ty, Op)> = args.iter().map(|(_, o)| ((**e).clone(), o.clone())).collect();
                    o.push(self.intrinsic(n, e, &t2, &a2)?);
                }
                return Ok(Val::Agg(Arc::new(o)));
            }
        }
        let is32 = *rt == Ty::F32;
        let w = args.get(0).map(|a| a.0.width()).unwrap_or(0);
        match base {
            "assume" | "lifetime" | "donothing" | "prefetch" | "invariant" | "dbg" | "fake" | "pseudoprobe" | "instrprof" => return Ok(Val::Undef),
            "trap" | "ubsantrap" | "debugtrap" => return Err(Flow::Panic("trap".into())),
            "expect" => return Ok(av[0].clone()),
            "threadlocal" | "launder" | "strip" | "ptrmask" if base != "ptrmask" => return Ok(av[0].clone()),
            "is" => {
                if n.starts_with("is.constant") { return Ok(Val::I(0)); }
                // is.fpclass
                let Val::I(mask_) = av[1] else { return Err(Flow::Unsup("fpclass".into())) };
                return self.fpclass(&av[0], mask_ as u32);
            }
            "memcpy" | "memmove" => { let k = self.conc(&av[2], 64)? as u64; if k == 0 { return Ok(Val::Undef); } let (d, s) = (self.addr(&av[0])?, self.addr(&av[1])?); self.s.mem.copy(&mut self.ar, d, s, k)?; return Ok(Val::Undef); }
            "memset" => { let k = self.conc(&av[2], 64)? as u64; if k == 0 { return Ok(Val::Undef); } let d = self.addr(&av[0])?; let b = self.conc(&av[1], 8)? as u8; self.s.mem.set(&mut self.ar, d, b, k)?; return Ok(Val::Undef); }
            "experimental" => return Ok(Val::Undef),
            "x86" => {
                if n.starts_with("x86.sse2.pause") || n.contains("fence") { return Ok(Val::Undef); }
                if n.starts_with("x86.sse2.pmovmskb") {
                    let Val::Agg(a) = &av[0] else { return Ok(Val::I(0)) };
                    let mut acc = self.ar.ic(0);
                    for (i, x) in a.iter().enumerate() {
                        let x = self.int(x, 8)?;
                        let z = self.ar.ic(0);
                        let c = self.ar.ilt(x, z);
                        let v = self.ar.ic(1 << i);
                        let t = self.ar.iite(c, v, z);
                        acc = self.ar.iadd(acc, t);
                    }
                    return Ok(self.mki(acc, 32));
                }
                return Err(Flow::Unsup(format!("intrinsic {n}")));
            }
            "vector" => {
                // vector.reduce.*
                let Val::Agg(a) = &av[av.len() - 1] else { return Err(Flow::Unsup(format!("intrinsic {n}"))) };
                let e = args[av.len() - 1].0.elem(0);
                let k = if n.contains("reduce.or") { BinK::Or } else if n.contains("reduce.and") { BinK::And } else if n.contains("reduce.add") { BinK::Add } else if n.contains("reduce.xor") { BinK::Xor } else { return Err(Flow::Unsup(format!("intrinsic {n}"))) };
                let mut acc = a[0].clone();
                for x in &a[1..] { acc = self.bin_ty(k, &e, &acc, x)?; }
                return Ok(acc);
            }
            "sqrt" => return self.unary_uf(Uf::Sqrt, is32, &av[0]),
            "sin" => return self.unary_uf(Uf::Sin, is32, &av[0]),
            "cos" => return self.unary_uf(Uf::Cos, is32, &av[0]),
            "tan" => return self.unary_uf(Uf::Tan, is32, &av[0]),
            "asin" => return self.unary_uf(Uf::Asin, is32, &av[0]),
            "acos" => return self.unary_uf(Uf::Acos, is32, &av[0]),
            "atan" => return self.unary_uf(Uf::Atan, is32, &av[0]),
            "sinh" => return self.unary_uf(Uf::Sinh, is32, &av[0]),
            "cosh" => return self.unary_uf(Uf::Cosh, is32, &av[0]),
            "tanh" => return self.unary_uf(Uf::Tanh, is32, &av[0]),
            "atan2" => return self.ext("atan2", rt, args, av),
            "exp" => return self.unary_uf(Uf::Exp, is32, &av[0]),
            "exp2" => return self.unary_uf(Uf::Exp2, is32, &av[0]),
            "log" => return self.unary_uf(Uf::Ln, is32, &av[0]),
            "log10" => return self.unary_uf(Uf::Log10, is32, &av[0]),
            "log2" => return self.unary_uf(Uf::Log2, is32, &av[0]),
            "pow" => return self.pow(is32, &av[0], &av[1]),
            "powi" => {
                let Val::I(e) = av[1] else { return Err(Flow::Unsup("symbolic powi".into())) };
                let e = sext(e, 32) as i32;
                if let Some(x) = cf(&av[0]) { return Ok(mkf(is32, x.powi(e))); }
                return self.pow(is32, &av[0], &mkf(is32, e as f64));
            }
            "fabs" => {
                if let Some(x) = cf(&av[0]) { return Ok(mkf(is32, x.abs())); }
                let x = self.real(&av[0])?;
                let (lo, hi) = self.ar.rr(x);
                if lo >= 0.0 { return Ok(av[0].clone()); }
                let nx = self.ar.rneg(x);
                if hi <= 0.0 { return Ok(self.mkr(nx, is32)); }
                let z = self.ar.rc(0.0);
                let c = self.ar.rle(z, x);
                let r = self.ar.rite(c, x, nx);
                return Ok(self.mkr(r, is32));
            }
            "copysign" => {
                if let (Some(x), Some(y)) = (cf(&av[0]), cf(&av[1])) { return Ok(mkf(is32, x.copysign(y))); }
                let m = self.intrinsic("fabs.f64", rt, &args[..1], &av[..1])?;
                let neg = match cf(&av[1]) {
                    Some(y) => { let b = y.is_sign_negative(); self.ar.b(b) }
                    None => { let y = self.real(&av[1])?; let z = self.ar.rc(0.0); self.ar.rlt(y, z) }
                };
                let nm = self.fneg(rt, &m)?;
                let c = self.mkb(neg);
                return self.select(rt, &c, nm, m);
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" => {
                if let Some(x) = cf(&av[0]) {
                    return Ok(mkf(is32, match base { "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), _ => x.round_ties_even() }));
                }
                let x = self.real(&av[0])?;
                let i = match base {
                    "floor" => self.ar.floor(x),
                    "ceil" => self.ceil_int(x),
                    "trunc" => self.trunc_int(x),
                    "round" => self.round_int(x),
                    _ => {
                        let h = self.ar.rc(0.5);
                        let a = self.ar.radd(x, h);
                        let f = self.ar.floor(a);
                        let fr = self.ar.toreal(f);
                        let tie = self.ar.req(fr, a);
                        let odd = self.ar.imod(f, 2);
                        let one = self.ar.ic(1);
                        let o = self.ar.ieq(odd, one);
                        let c = self.ar.and(tie, o);
                        let g = self.ar.isub(f, one);
                        self.ar.iite(c, g, f)
                    }
                };
                let r = self.ar.toreal(i);
                return Ok(self.mkr(r, is32));
            }
            "fma" | "fmuladd" => {
                if let (Some(x), Some(y), Some(z)) = (cf(&av[0]), cf(&av[1]), cf(&av[2])) { return Ok(mkf(is32, if base == "fma" { x.mul_add(y, z) } else { x * y + z })); }
                let p = self.fbin(BinK::FMul, is32, &av[0], &av[1])?;
                return self.fbin(BinK::FAdd, is32, &p, &av[2]);
            }
            "minnum" | "minimumnum" | "minimum" => return self.fminmax(is32, false, &av[0], &av[1]),
            "maxnum" | "maximumnum" | "maximum" => return self.fminmax(is32, true, &av[0], &av[1]),
            "fptosi" | "fptoui" => {
                let signed = base == "fptosi";
                let tw = rt.width();
                let (lo, hi) = if signed { (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) } else { (0, if tw >= 127 { i128::MAX } else { (1i128 << tw) - 1 }) };
                if let Some(x) = cf(&av[0]) {
                    let v = if x.is_nan() { 0 } else if x >= hi as f64 { hi } else if x <= lo as f64 { lo } else { x as i128 };
                    return Ok(Val::I(mask(v, tw)));
                }
                let x = self.real(&av[0])?;
                let t = self.trunc_int(x);
                let c = self.clamp_int(t, lo, hi);
                let r = self.wrap(c, tw);
                return Ok(self.mki(r, tw));
            }
            "abs" => {
                if let Val::I(x) = av[0] { let s = sext(x, w); return Ok(Val::I(mask(s.wrapping_abs(), w))); }
                let x = self.int(&av[0], w)?;
                let z = self.ar.ic(0);
                let nx = self.ar.isub(z, x);
                let c = self.ar.ile(z, x);
                let r = self.ar.iite(c, x, nx);
                let r = self.wrap(r, w);
                return Ok(self.mki(r, w));
            }
            "smin" | "smax" | "umin" | "umax" => {
                let (mut x, mut y) = (self.int(&av[0], w)?, self.int(&av[1], w)?);
                if base.starts_with('u') { x = self.uns(x, w); y = self.uns(y, w); }
                let c = self.ar.ile(x, y);
                let r = if base.ends_with("min") { self.ar.iite(c, x, y) } else { self.ar.iite(c, y, x) };
                let r = self.wrap(r, w);
                return Ok(self.mki(r, w));
            }
            "scmp" | "ucmp" => {
                let (mut x, mut y) = (self.int(&av[0], w)?, self.int(&av[1], w)?);
                if base.starts_with('u') { x = self.uns(x, w); y = self.uns(y, w); }
                let l = self.ar.ilt(x, y);
                let e = self.ar.ieq(x, y);
                let (m1, z, p1) = (self.ar.ic(-1), self.ar.ic(0), self.ar.ic(1));
                let t = self.ar.iite(e, z, p1);
                let r = self.ar.iite(l, m1, t);
                return Ok(self.mki(r, rt.width()));
            }
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
                let k = &base[1..];
                let uns = base.starts_with('u');
                let (mut x, mut y) = (self.int(&av[0], w)?, self.int(&av[1], w)?);
                if uns { x = self.uns(x, w); y = self.uns(y, w); }
                let r = match k { "add" => self.ar.iadd(x, y), "sub" => self.ar.isub(x, y), _ => {
                    if w > 64 { if let (Some(a), Some(b)) = (self.ar.icv(x), self.ar.icv(y)) { if a.checked_mul(b).is_none() { return Err(Flow::Unsup("wide multiplication".into())); } } }
                    self.ar.imul(x, y)
                } };
                let (lo, hi) = if uns { (0, if w >= 127 { IBIG } else { (1i128 << w) - 1 }) } else { (-(1i128 << (w.min(126) - 1)), (1i128 << (w.min(126) - 1)) - 1) };
                let (lc, hc) = (self.ar.ic(lo), self.ar.ic(hi));
                let a = self.ar.ilt(r, lc);
                let b = self.ar.ilt(hc, r);
                let o = self.ar.or(a, b);
                if n.contains("with.overflow") {
                    let v = self.wrap(r, w);
                    let v = if self.ar.bv(o) == Some(false) || uns { v } else { v };
                    return Ok(Val::Agg(Arc::new(vec![self.mki(v, w), self.mkb(o)])));
                }
                // saturating
                let c = self.clamp_int(r, lo, hi);
                let v = self.wrap(c, w);
                return Ok(self.mki(v, w));
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "fshl" | "fshr" => {
                let x = if let Val::I(x) = av[0] { x } else {
                    if base == "fshl" || base == "fshr" {
                        if let Val::I(s) = av[2] {
                            // rotate / funnel shift by a constant
                            let s = (s % w as u128) as u32;
                            let s = if base == "fshl" { s } else { (w - s) % w };
                            let (a, b) = (self.int(&av[0], w)?, self.int(&av[1], w)?);
                            if s == 0 { return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() }); }
                            let c = self.ar.ic(1i128 << s);
                            let hi = self.ar.imul(a, c);
                            let hi = self.wrap(hi, w);
                            let hi = self.uns(hi, w);
                            let bu = self.uns(b, w);
                            let lo = self.ar.idiv(bu, 1i128 << (w - s));
                            let r = self.ar.iadd(hi, lo);
                            let r = self.wrap(r, w);
                            return Ok(self.mki(r, w));
                        }
                    }
                    self.conc(&av[0], w)?
                };
                let v: u128 = match base {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    "bswap" => { let b = x.to_le_bytes(); let k = (w / 8) as usize; let mut o = [0u8; 16]; for i in 0..k { o[i] = b[k - 1 - i]; } u128::from_le_bytes(o) }
                    "bitreverse" => x.reverse_bits() >> (128 - w),
                    _ => {
                        let y = self.conc(&av[1], w)?;
                        let s = (self.conc(&av[2], w)? % w as u128) as u32;
                        if base == "fshl" { if s == 0 { x } else { mask(((x << s) | (y >> (w - s))) as i128, w) } } else if s == 0 { y } else { mask(((x << (w - s)) | (y >> s)) as i128, w) }
                    }
                };
                return Ok(Val::I(mask(v as i128, w)));
            }
            _ => {}
        }
        Err(Flow::Unsup(format!("intrinsic llvm.{n}")))
    }
    fn fpclass(&mut self, v: &Val, m: u32) -> X<Val> {
        // 0x1 snan 0x2 qnan 0x4 -inf 0x8 -normal 0x10 -subnormal 0x20 -0 0x40 +0 0x80 +subnormal 0x100 +normal 0x200 +inf
        if let Some(x) = cf(v) {
            let bit = if x.is_nan() { 2 } else if x == f64::NEG_INFINITY { 4 } else if x == f64::INFINITY { 0x200 } else if x == 0.0 { if x.is_sign_negative() { 0x20 } else { 0x40 } } else if x < 0.0 { if x.is_normal() { 8 } else { 0x10 } } else if x.is_normal() { 0x100 } else { 0x80 };
            let bit2 = if x.is_nan() { 3 } else { bit };
            return Ok(Val::I((m & bit2 != 0) as u128));
        }
        let x = self.real(v)?;
        let z = self.ar.rc(0.0);
        let neg = self.ar.rlt(x, z);
        let zer = self.ar.req(x, z);
        let pos = self.ar.rlt(z, x);
        let mut r = self.ar.b(false);
        if m & 0x8 != 0 { r = self.ar.or(r, neg); }
        if m & 0x60 != 0 { r = self.ar.or(r, zer); }
        if m & 0x100 != 0 { r = self.ar.or(r, pos); }
        Ok(self.mkb(r))
    }

    fn irs(&mut self, n: &str, av: &[Val]) -> X<Val> {
        match n {
            "f64" => {
                let (Some(lo), Some(hi)) = (cf(&av[0]), cf(&av[1])) else { return Err(Flow::Unsup("symbolic bounds".into())) };
                self.rep.bounds.insert(format!("input {}: double in [{lo}, {hi}]", self.s.inputs.len()));
                if lo == hi { return Ok(Val::F64(lo)); }
                let v = self.new_input(true, 0, 0, lo, hi);
                Ok(Val::R(v))
            }
            "i64" => {
                let (Val::I(lo), Val::I(hi)) = (&av[0], &av[1]) else { return Err(Flow::Unsup("symbolic bounds".into())) };
                let (lo, hi) = (sext(*lo, 64), sext(*hi, 64));
                self.rep.bounds.insert(format!("input {}: integer in [{lo}, {hi}]", self.s.inputs.len()));
                if lo == hi { return Ok(Val::I(mask(lo, 64))); }
                let v = self.new_input(false, lo, hi, 0.0, 0.0);
                Ok(Val::S(v))
            }
            "case" => {
                let Val::I(k) = av[0] else { return Err(Flow::Unsup("case".into())) };
                if self.s.ncase < self.cases.len() {
                    let v = self.cases[self.s.ncase];
                    self.s.ncase += 1;
                    return Ok(Val::I(v as u128));
                }
                Err(Flow::Cases(k as u64))
            }
            "tier" => Ok(Val::I(self.cfg.tier as u128)),
            "symbolic" => Ok(Val::I(1)),
            "exact" => { let b = self.conc(&av[0], 1)?; self.s.exact = b == 1; if b == 1 { self.rep.exact = true; } Ok(Val::Undef) }
            "panic_ok" => { let b = self.conc(&av[0], 1)?; self.s.panic_ok = b == 1; Ok(Val::Undef) }
            "assume" => {
                let c = self.boolean(&av[0])?;
                if let Some(b) = self.ar.bv(c) { return if b { Ok(Val::Undef) } else { Err(Flow::Dead) }; }
                if self.s.known.contains(&c) { return Ok(Val::Undef); }
                let ok = self.s.wit.as_ref().map_or(false, |w| w.bo(&self.ar, c));
                if !ok {
                    let pc = self.s.pc.clone();
                    let (r, m) = self.sol.check(&self.ar, &pc, &[c], self.cfg.check_ms, true);
                    if r == Res::Unsat { return Err(Flow::Dead); }
                    self.s.wit = self.valid_wit(&pc, &[c], m);
                }
                self.assume_lit(c);
                Ok(Val::Undef)
            }
            "concretize" => { let v = self.conc(&av[0], 64)?; Ok(Val::I(v)) }
            "reach" => { let s = self.rd_str(&av[0], &av[1])?; self.reach(s); Ok(Val::Undef) }
            "trace" => { self.s.trace.push(av[0].clone()); Ok(Val::Undef) }
            "check" => {
                let label = self.rd_str(&av[1], &av[2])?;
                self.rep.checks += 1;
                *self.rep.check_labels.entry(label.clone()).or_insert(0) += 1;
                let c = self.boolean(&av[0])?;
                match self.ar.bv(c) {
                    Some(true) => { return Ok(Val::Undef); }
                    Some(false) => { self.violation_here(&label, None); return Err(Flow::Dead); }
                    None => {}
                }
                if self.s.known.contains(&c) { return Ok(Val::Undef); }
                self.rep.checks_solver += 1;
                let nc = self.ar.not(c);
                let pc = self.s.pc.clone();
                let (mut r, mut m) = self.sol.check(&self.ar, &pc, &[nc], self.cfg.check_ms, true);
                if r == Res::Unknown {
                    let mut l = pc.clone();
                    l.push(nc);
                    let (r2, m2) = self.sol.portfolio(&self.ar, &l, Duration::from_millis(self.cfg.portfolio_ms), &self.cfg.scratch);
                    r = r2;
                    m = m2;
                }
                match r {
                    Res::Unsat => { self.learn(c); Ok(Val::Undef) }
                    Res::Sat => {
                        self.violation_here(&label, Some((nc, m)));
                        // go on with the part of the path where it holds
                        let ok = self.s.wit.as_ref().map_or(false, |w| w.bo(&self.ar, c));
                        if !ok {
                            let (r, m) = self.sol.check(&self.ar, &pc, &[c], self.cfg.branch_ms, true);
                            if r == Res::Unsat { return Err(Flow::Dead); }
                            self.s.wit = self.valid_wit(&pc, &[c], m);
                        }
                        self.assume_lit(c);
                        Ok(Val::Undef)
                    }
                    Res::Unknown => {
                        // last resort for a refutation: the query with some of the inputs fixed, the models of the path
                        if let Some(m) = self.partial(&pc, nc) { self.violation_here(&label, Some((nc, Some(m)))); }
                        else if !self.refute_here() { self.rep.inconclusive.push(format!("check {label:?}: solvers gave no answer within the limits")); }
                        self.assume_lit(c);
                        Ok(Val::Undef)
                    }
                }
            }
            _ => Err(Flow::Unsup(format!("intrinsic irs_{n}"))),
        }
    }

    fn reach(&mut self, label: String) {
        if self.rep.reached.contains(&label) { return; }
        if self.s.wit.is_none() {
            let pc = self.s.pc.clone();
            let (r, m) = self.sol.check(&self.ar, &pc, &[], self.cfg.check_ms, true);
            if r == Res::Sat { self.s.wit = self.valid_wit(&pc, &[], m); }
        }
        if self.s.wit.is_some() { self.rep.reached.insert(label); }
    }

    // ------------------------------------------------------------------ replay
    fn raw_inputs(&self, w: &Witness) -> (Vec<String>, Vec<(String, String)>) {
        let mut raw = vec![];
        let mut shown = vec![];
        for (i, v) in self.s.inputs.iter().enumerate() {
            match w.inputs.get(*v as usize) {
                Some(InputVal::I(x)) => { raw.push(format!("i{x}")); shown.push((format!("in{i}"), x.to_string())); }
                Some(InputVal::F(x)) => { raw.push(format!("f{:016x}", x.to_bits())); shown.push((format!("in{i}"), format!("{x:?}"))); }
                None => { raw.push("i0".into()); }
            }
        }
        (raw, shown)
    }
    fn native(&mut self, raw: &[String]) -> (i32, String) {
        let cases: Vec<String> = self.cases.iter().map(|c| c.to_string()).collect();
        let mut c = std::process::Command::new(&self.cfg.native);
        c.env("IRS_INPUTS", raw.join(",")).env("IRS_CASES", cases.join(",")).env("IRS_TIER", self.cfg.tier.to_string()).arg(&self.cfg.harness).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
        let Ok(mut ch) = c.spawn() else { return (-2, "cannot run the native program".into()) };
        let t0 = Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    let mut s = String::new();
                    if let Some(o) = ch.stdout.as_mut() { use std::io::Read; let mut b = vec![]; let _ = o.read_to_end(&mut b); s = String::from_utf8_lossy(&b).into_owned(); }
                    return (st.code().unwrap_or(-1), s);
                }
                Ok(None) => {
                    if t0.elapsed() > Duration::from_secs(10) { let _ = ch.kill(); let _ = ch.wait(); return (-3, "native run timed out".into()); }
                    std::thread::sleep(Duration::from_micros(300));
                }
                Err(_) => return (-2, "wait".into()),
            }
        }
    }
    fn violation_here(&mut self, label: &str, extra: Option<(Id, Option<Vec<InputVal>>)>) {
        let stem = label.split(" at ").next().unwrap_or(label).to_string();
        let key = if label.starts_with("panic") { label.to_string() } else { stem };
        if self.dead_labels.contains(&key) { return; }
        let pc = self.s.pc.clone();
        let ex: Vec<Id> = extra.iter().map(|e| e.0).collect();
        let mut cands: Vec<Vec<InputVal>> = vec![];
        if let Some((_, Some(m))) = &extra { cands.push(m.clone()); }
        if extra.is_none() { if let Some(w) = &self.s.wit { cands.push(w.inputs.clone()); } }
        let mut tried = 0;
        let mut last = (0, String::new());
        let mut lastc: Vec<InputVal> = vec![];
        let mut phase = 0;
        let t0 = Instant::now();
        loop {
            if let Some(c) = cands.pop() {
                tried += 1;
                let w = Witness::new(c.clone());
                let (raw, shown) = self.raw_inputs(&w);
                let (code, out) = self.native(&raw);
                let is_v = (code == 3) || (code == 5 && label.starts_with("panic")) || (code == 5 && (extra.is_some() || out.lines().any(|l| l.starts_with("IRS-VIOLATION"))));
                if is_v {
                    let want = format!("IRS-VIOLATION {}", label.split(" at ").next().unwrap_or(label));
                    let mut ls = out.lines().filter(|l| l.starts_with("IRS-VIOLATION") || l.starts_with("IRS-PANIC"));
                    let native_label = ls.clone().find(|l| **l == want || (label.starts_with("panic") && l.starts_with("IRS-PANIC"))).or(ls.next()).unwrap_or("").to_string();
                    self.dead_labels.insert(key);
                    // reported under what fails natively
                    let label = match native_label.strip_prefix("IRS-VIOLATION ") { Some(l) if native_label != want => l, _ if native_label.starts_with("IRS-PANIC") && !label.starts_with("panic") => native_label.as_str(), _ => label };
                    self.rep.violations.push(Violation { label: label.to_string(), inputs: shown, raw, cases: self.cases.clone(), native: native_label, reproduced: true });
                    return;
                }
                last = (code, out);
                lastc = c;
                continue;
            }
            if tried > 24 || t0.elapsed() > Duration::from_secs(25) { break; }
            phase += 1;
            match phase {
                1 => if let Some(m) = self.sol.nice_model(&self.ar, &pc, &ex, 64, 3000) { cands.push(m); },
                2 => {
                    let (r, m) = self.sol.check(&self.ar, &pc, &ex, self.cfg.check_ms, true);
                    match r {
                        Res::Unsat => { self.rep.paths_dead += 1; return; }
                        Res::Unknown => {
                            let mut l = pc.clone();
                            l.extend(&ex);
                            let (r2, m2) = self.sol.portfolio(&self.ar, &l, Duration::from_millis(self.cfg.portfolio_ms), &self.cfg.scratch);
                            if r2 == Res::Unsat { return; }
                            if let Some(m) = m2 { cands.push(m); }
                        }
                        Res::Sat => if let Some(m) = m { cands.push(m); },
                    }
                }
                3..=14 => {
                    // other models: push a random input to a random half of its range
                    if self.s.inputs.is_empty() { break; }
                    let r = self.rnd() as usize;
                    let v = self.s.inputs[r % self.s.inputs.len()];
                    let i = self.ar.vars[v as usize].clone();
                    let lit = if i.real {
                        let (lo, hi) = (i.rlo.max(-1e9), i.rhi.min(1e9));
                        let t = lo + (hi - lo) * ((r >> 8) % 100) as f64 / 100.0;
                        let c = self.ar.rc(t);
                        if (r >> 20) & 1 == 0 { self.ar.rle(i.node, c) } else { self.ar.rle(c, i.node) }
                    } else {
                        let t = i.ilo + (i.ihi - i.ilo) * ((r >> 8) % 100) as i128 / 100;
                        let c = self.ar.ic(t);
                        if (r >> 20) & 1 == 0 { self.ar.ile(i.node, c) } else { self.ar.ile(c, i.node) }
                    };
                    let mut ex2 = ex.clone();
                    ex2.push(lit);
                    if phase % 2 == 0 {
                        if let Some(m) = self.sol.nice_model(&self.ar, &pc, &ex2, 64, 1000) { cands.push(m); continue; }
                    }
                    let (_, m) = self.sol.check(&self.ar, &pc, &ex2, self.cfg.branch_ms, true);
                    if let Some(m) = m { cands.push(m); }
                }
                _ => break,
            }
        }
        self.dead_labels.insert(key);
        let w = Witness::new(lastc);
        let (raw, shown) = self.raw_inputs(&w);
        self.rep.violations.push(Violation { label: label.to_string(), inputs: shown, raw, cases: self.cases.clone(), native: format!("exit {} {}", last.0, last.1.trim()), reproduced: false });
    }

    /// a query the solvers do not answer, with some of the inputs fixed to a model of the path
    fn partial(&mut self, pc: &[Id], nc: Id) -> Option<Vec<InputVal>> {
        for round in 0..8 {
            let base = match &self.s.wit { Some(w) if round < 4 => w.inputs.clone(), _ => self.other_model(pc)? };
            let ins = self.s.inputs.clone();
            let keep = match round % 4 { 0 => 2, 1 => 1, 2 => ins.len() / 2, _ => 3 };
            let mut ex = vec![nc];
            let n = ins.len().max(1);
            let free: Vec<usize> = (0..keep).map(|_| self.rnd() as usize % n).collect();
            for (i, v) in ins.iter().enumerate() {
                if free.contains(&i) { continue; }
                let node = self.ar.vars[*v as usize].node;
                let l = match base.get(*v as usize) { Some(InputVal::F(x)) => { let k = self.ar.rc(*x); self.ar.req(node, k) } Some(InputVal::I(x)) => { let k = self.ar.ic(*x); self.ar.ieq(node, k) } None => continue };
                ex.push(l);
            }
            if let (Res::Sat, Some(m)) = self.sol.check(&self.ar, pc, &ex, self.cfg.branch_ms, true) { return Some(m); }
        }
        None
    }
    /// some other model of the path: a random input in a random half of its range
    fn other_model(&mut self, pc: &[Id]) -> Option<Vec<InputVal>> {
        let mut ex = vec![];
        for _ in 0..2 {
            if self.s.inputs.is_empty() { break; }
            let r = self.rnd() as usize;
            let v = self.s.inputs[r % self.s.inputs.len()];
            let i = self.ar.vars[v as usize].clone();
            ex.push(if i.real {
                let (lo, hi) = (i.rlo.max(-1e9), i.rhi.min(1e9));
                let c = self.ar.rc(lo + (hi - lo) * ((r >> 8) % 100) as f64 / 100.0);
                if (r >> 20) & 1 == 0 { self.ar.rle(i.node, c) } else { self.ar.rle(c, i.node) }
            } else {
                let c = self.ar.ic(i.ilo + (i.ihi - i.ilo) * ((r >> 8) % 100) as i128 / 100);
                if (r >> 20) & 1 == 0 { self.ar.ile(i.node, c) } else { self.ar.ile(c, i.node) }
            });
        }
        self.sol.check(&self.ar, pc, &ex, self.cfg.branch_ms, true).1
    }
    /// where the solver cannot decide a path: does a model of it break the property natively?
    fn refute_here(&mut self) -> bool {
        let pc = self.s.pc.clone();
        let t0 = Instant::now();
        for k in 0..6 {
            if k > 0 && t0.elapsed() > Duration::from_secs(25) { break; }
            let m = if k == 0 { self.s.wit.as_ref().map(|w| w.inputs.clone()) } else { self.other_model(&pc) };
            let Some(m) = m else { continue };
            let w = Witness::new(m);
            let (raw, shown) = self.raw_inputs(&w);
            let (code, out) = self.native(&raw);
            let label = match code {
                3 | 5 => out.lines().find(|l| l.starts_with("IRS-VIOLATION") || l.starts_with("IRS-PANIC")).unwrap_or("").trim_start_matches("IRS-VIOLATION ").to_string(),
                -1 => "the program is ended by a signal".to_string(),
                -3 => "does not terminate".to_string(),
                _ => continue,
            };
            if label.is_empty() || !self.dead_labels.insert(label.clone()) { continue; }
            self.rep.violations.push(Violation { native: format!("exit {code} {label}"), label, inputs: shown, raw, cases: self.cases.clone(), reproduced: true });
            return true;
        }
        false
    }

    /// replay a completed path natively and compare outcome and trace
    fn end_path(&mut self) {
        let want = self.rep.validated < self.cfg.validate as u64 && (self.rep.validated < 4 || self.rep.paths >= self.last_validate * 2);
        if !want { return; }
        if self.s.wit.is_none() {
            let pc = self.s.pc.clone();
            let (r, m) = self.sol.check(&self.ar, &pc, &[], self.cfg.branch_ms, true);
            if r == Res::Sat { self.s.wit = self.valid_wit(&pc, &[], m); }
        }
        let Some(w) = self.s.wit.clone() else { return };
        self.last_validate = self.rep.paths;
        let (raw, shown) = self.raw_inputs(&w);
        let (code, out) = self.native(&raw);
        self.rep.validated += 1;
        if self.rep.samples.len() < 3 {
            self.rep.samples.push(format!("path {} cases {:?} inputs [{}] native exit {}", self.rep.paths, self.cases, shown.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(", "), code));
        }
        match code {
            0 => {
                // compare the traces
                let tr: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix("IRS-TRACE ")).collect();
                if tr.len() != self.s.trace.len() {
                    self.rep.inconclusive.push(format!("translator validation: {} trace values natively, {} in the engine", tr.len(), self.s.trace.len()));
                    return;
                }
                let trace = self.s.trace.clone();
                for (t, v) in tr.iter().zip(trace) {
                    let n = f64::from_bits(u64::from_str_radix(t, 16).unwrap_or(0));
                    let e = match v { Val::F64(x) => x, Val::R(r) => w.f(&self.ar, r), _ => f64::NAN };
                    if !(n == e || (n.is_nan() && e.is_nan()) || (n - e).abs() <= 1e-6 * (1.0 + n.abs())) {
                        self.rep.inconclusive.push(format!("translator validation: trace value {n} natively, {e} in the engine ({:?})", shown));
                        return;
                    }
                }
                self.rep.validated_traces += tr.len() as u64;
            }
            3 | 5 => {
                let native_label = out.lines().find(|l| l.starts_with("IRS-VIOLATION") || l.starts_with("IRS-PANIC")).unwrap_or("").to_string();
                let label = native_label.trim_start_matches("IRS-VIOLATION ").to_string();
                self.rep.violations.push(Violation { label: format!("{label} (seen while replaying a path)"), inputs: shown, raw, cases: self.cases.clone(), native: native_label, reproduced: true });
            }
            4 => {}
            -1 | -3 => { if !self.refute_here() { self.rep.inconclusive.push(format!("native replay of a path ended with {code}")); } }
            c => self.rep.inconclusive.push(format!("native replay of a path ended with {c}: {}", out.trim())),
        }
    }
    pub fn base_len(&self) -> usize { self.base.len() }
}

fn insert(t: &Ty, v: Val, e: &Val, ix: &[u32]) -> Val {
    let a = match v { Val::Agg(a) => a, _ => match Parser::zero(t) { Val::Agg(a) => a, _ => return e.clone() } };
    let mut a = (*a).clone();
    let i = ix[0] as usize;
    if ix.len() == 1 { a[i] = e.clone(); } else { let x = a[i].clone(); a[i] = insert(&t.elem(i), x, e, &ix[1..]); }
    Val::Agg(Arc::new(a))
}

/// readable form of a v0 mangled name: the identifiers in order
fn nm_short(ar: &Arena, x: Id) -> String {
    fn go(ar: &Arena, x: Id, d: u32, o: &mut String) {
        if o.len() > 700 { return; }
        let k = ar.n[x as usize].k;
        let two = |n: &str, a: Id, b: Id, o: &mut String| { o.push_str(&format!("({n} ")); go(ar, a, d + 1, o); o.push(' '); go(ar, b, d + 1, o); o.push(')'); };
        match k {
            K::IAdd(a, b) => two("+", a, b, o),
            K::ISub(a, b) => two("-", a, b, o),
            K::IMul(a, b) => two("*", a, b, o),
            K::ILe(a, b) => two("<=", a, b, o),
            K::ILt(a, b) => two("<", a, b, o),
            K::IEq(a, b) => two("=", a, b, o),
            K::Not(a) => two("not", a, a, o),
            K::IDiv(a, m) => { o.push_str(&format!("(/{m} ")); go(ar, a, d + 1, o); o.push(')'); }
            K::IMod(a, m) => { o.push_str(&format!("(%{m} ")); go(ar, a, d + 1, o); o.push(')'); }
            _ => o.push_str(&crate::solver::nm(ar, x)),
        }
    }
    let mut o = String::new();
    go(ar, x, 0, &mut o);
    o
}
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut parts: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i > 0 {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' { st += 1; }
            if l > 0 && st + l <= b.len() {
                parts.push(n[st..st + l].to_string());
                i = st + l;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    parts.join("::")
}
