//! In-memory form of the LLVM IR that rustc emits, and a parser for its text form.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Array(Arc<Ty>, u64),
    Vector(Arc<Ty>, u64),
    Struct(Arc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    /// bytes a scalar takes when stored (odd integers take no padding)
    pub fn stored(&self) -> u64 { match self { Ty::Int(w) => ((*w as u64 + 7) / 8).max(1), _ => self.size() } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().max(1)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => match **t {
                Ty::Int(w) if w < 8 => (w as u64 * n + 7) / 8,
                _ => t.size() * n,
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(t, _) => t.align(),
            Ty::Vector(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Array(t, _) | Ty::Vector(t, _) => t.size() * i as u64,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Array(t, _) | Ty::Vector(t, _) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i].clone(),
            t => t.clone(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Array(_, n) | Ty::Vector(_, n) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_vec(&self) -> bool {
        matches!(self, Ty::Vector(..))
    }
}

/// A run-time value. Symbolic parts are node ids of the task's expression arena.
#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    F64(f64),
    F32(f32),
    /// symbolic integer (signed canonical value of its width) or, for i1, a boolean node
    S(u32),
    /// symbolic real standing for a finite double/float
    R(u32),
    /// the bit pattern of a symbolic double, held in an integer register
    RB(u32),
    Agg(Arc<Vec<Val>>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ptr(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinK, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(IPred, Ty, Op, Op),
    FCmp(FPred, Ty, Op, Op),
    Cast(CastK, Ty, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    /// base, constant byte offset, scaled (signed) indices with their width
    Gep(Op, i64, Vec<(i64, Op, u32)>),
    Alloca(u64),
    Call(Callee, Ty, Vec<(Ty, Op)>),
    Select(Ty, Ty, Op, Op, Op),
    Phi(Vec<(u32, Op)>),
    Extract(Op, Vec<u32>),
    Insert(Ty, Op, Ty, Op, Vec<u32>),
    ExtractElem(Ty, Op, Op),
    InsertElem(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<i64>),
    Freeze(Op),
    AtomicRmw(u8, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Bad(String),
    Invoke(Callee, Ty, Vec<(Ty, Op)>, u32),
}

#[derive(Debug, Default)]
pub struct Block {
    pub ins: Vec<(u32, Ins)>, // destination register (u32::MAX: none)
    pub nphi: usize,
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub nins: usize,
}

#[derive(Debug, Clone)]
pub struct GlobalObj {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub const OBJ_SHIFT: u32 = 32;
pub const FUNC_BASE: u64 = 0x7000_0000_0000;

#[derive(Debug, Default)]
pub struct Module {
    pub globals: Vec<GlobalObj>, // object id = index + 1
    pub funcs: Vec<Func>,
    pub func_ids: HashMap<String, u32>,
    pub ext: Vec<String>,
    pub ext_ids: HashMap<String, u32>,
    pub sym_addr: HashMap<String, u64>,
}

impl Module {
    pub fn func_at(&self, addr: u64) -> Option<Result<u32, u32>> {
        if addr < FUNC_BASE || (addr - FUNC_BASE) % 16 != 0 {
            return None;
        }
        let i = (addr - FUNC_BASE) / 16;
        if (i as usize) < self.funcs.len() {
            Some(Ok(i as u32))
        } else if ((i as usize) - self.funcs.len()) < self.ext.len() {
            Some(Err(i as u32 - self.funcs.len() as u32))
        } else {
            None
        }
    }
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

type R<T> = Result<T, String>;

fn isname(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { Err(format!("expected {t:?} at {:?}", self.rest(60))) }
    }
    fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + n).min(self.s.len())]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'.' || self.s[self.p] == b'-') {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn kw(&mut self, t: &str) -> bool {
        let p = self.p;
        if self.word() == t {
            true
        } else {
            self.p = p;
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> R<String> {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut e = st;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.p = e + 1;
            return Ok(String::from_utf8_lossy(&self.s[st..e]).into_owned());
        }
        let st = self.p;
        while self.p < self.s.len() && isname(self.s[self.p]) {
            self.p += 1;
        }
        if st == self.p {
            return Err(format!("name expected at {:?}", self.rest(40)));
        }
        Ok(std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string())
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.p < self.s.len() && self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "float" | "double" | "ptr" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "token")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let st = self.p;
        if self.p < self.s.len() && self.s[self.p] == b'-' {
            self.p += 1;
        }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            self.p += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
        if let Ok(v) = t.parse::<i128>() {
            return Ok(v);
        }
        t.parse::<u128>().map(|v| v as i128).map_err(|_| format!("number expected at {:?}", self.rest(40)))
    }
    fn skip_attrs(&mut self) {
        // attribute words up to a type
        loop {
            if self.at_type() {
                return;
            }
            self.attr_word();
        }
    }
    fn attr_word(&mut self) {
        let c = self.peek();
        if c == b'"' {
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            if self.p < self.s.len() && self.s[self.p] == b'=' {
                self.p += 1;
                self.attr_word();
            }
            return;
        }
        if c == b'#' {
            self.p += 1;
            self.word();
            return;
        }
        let w = self.word();
        if w.is_empty() {
            self.p += 1;
            return;
        }
        if w == "align" || w == "cc" || w == "alignstack" {
            let p = self.p;
            if self.peek().is_ascii_digit() {
                let _ = self.num();
            } else {
                self.p = p;
            }
        }
        if self.p < self.s.len() && self.s[self.p] == b'(' {
            self.balanced();
        }
    }
}

pub struct Parser {
    pub m: Module,
    named: HashMap<String, Ty>,
}

struct FCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
}

pub fn mask(v: i128, w: u32) -> u128 {
    if w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) }
}

impl Parser {
    fn ty(&self, c: &mut Cur) -> R<Ty> {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n = c.num()? as u64;
                c.expect("x")?;
                let t = self.ty(c)?;
                c.expect("]")?;
                Ty::Array(Arc::new(t), n)
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let t = self.structbody(c, true)?;
                    c.expect(">")?;
                    t
                } else {
                    let n = c.num()? as u64;
                    c.expect("x")?;
                    let t = self.ty(c)?;
                    c.expect(">")?;
                    Ty::Vector(Arc::new(t), n)
                }
            }
            b'{' => self.structbody(c, false)?,
            b'%' => {
                c.p += 1;
                let n = c.name()?;
                self.named.get(&n).cloned().ok_or_else(|| format!("unknown type %{n}"))?
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "ptr" => {
                        if c.peek() == b'a' && c.eat("addrspace") {
                            c.balanced();
                        }
                        Ty::Ptr
                    }
                    "label" | "metadata" | "half" | "x86_fp80" | "fp128" | "token" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w.starts_with('i') {
                            Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?)
                        } else {
                            return Err(format!("type expected at {:?} {:?}", w, c.rest(40)));
                        }
                    }
                }
            }
        };
        Ok(t)
    }
    fn structbody(&self, c: &mut Cur, packed: bool) -> R<Ty> {
        c.expect("{")?;
        let mut v = vec![];
        if c.peek() != b'}' {
            loop {
                v.push(self.ty(c)?);
                if !c.eat(",") {
                    break;
                }
            }
        }
        c.expect("}")?;
        Ok(Ty::Struct(Arc::new(v), packed))
    }

    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::F64 => Val::F64(0.0),
            Ty::F32 => Val::F32(0.0),
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => Val::Agg(Arc::new((0..t.count()).map(|i| Self::zero(&t.elem(i))).collect())),
            _ => Val::I(0),
        }
    }

    fn cval(&mut self, c: &mut Cur, t: &Ty) -> R<Val> {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name()?;
                let a = *self.m.sym_addr.get(&n).ok_or_else(|| format!("unknown symbol @{n}"))?;
                return Ok(Val::I(a as u128));
            }
            b'c' if c.s.get(c.p + 1) == Some(&b'"') => {
                c.p += 2;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' {
                        v.push(Val::I(b'\\' as u128));
                        c.p += 2;
                    } else if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        v.push(Val::I(u8::from_str_radix(h, 16).unwrap() as u128));
                        c.p += 3;
                    } else {
                        v.push(Val::I(c.s[c.p] as u128));
                        c.p += 1;
                    }
                }
                c.p += 1;
                return Ok(Val::Agg(Arc::new(v)));
            }
            b'[' => {
                c.p += 1;
                let mut v = vec![];
                if c.peek() != b']' {
                    loop {
                        let t = self.ty(c)?;
                        v.push(self.cval(c, &t)?);
                        if !c.eat(",") {
                            break;
                        }
                    }
                }
                c.expect("]")?;
                return Ok(Val::Agg(Arc::new(v)));
            }
            b'<' | b'{' => {
                let angle = c.eat("<");
                let brace = c.eat("{");
                let mut v = vec![];
                if c.peek() != b'}' && c.peek() != b'>' {
                    loop {
                        let t = self.ty(c)?;
                        v.push(self.cval(c, &t)?);
                        if !c.eat(",") {
                            break;
                        }
                    }
                }
                if brace {
                    c.expect("}")?;
                }
                if angle {
                    c.expect(">")?;
                }
                return Ok(Val::Agg(Arc::new(v)));
            }
            ch if ch == b'-' || ch.is_ascii_digit() || ch == b'+' => {
                if matches!(t, Ty::F64 | Ty::F32) {
                    let st = c.p;
                    while c.p < c.s.len() && (c.s[c.p].is_ascii_alphanumeric() || matches!(c.s[c.p], b'.' | b'+' | b'-' | b'(' | b')')) {
                        if c.s[c.p] == b')' { break; }
                        c.p += 1;
                    }
                    let w = std::str::from_utf8(&c.s[st..c.p]).unwrap();
                    return Ok(fconst(w, t)?);
                }
                let v = c.num()?;
                return Ok(Val::I(mask(v, t.width())));
            }
            _ => {}
        }
        if matches!(t, Ty::F64 | Ty::F32) {
            let w = c.peek_word();
            if w.starts_with("0x") || w.starts_with("f0x") {
                let w = c.word();
                return fconst(w, t);
            }
        }
        let w = c.word();
        Ok(match w {
            "true" => Val::I(1),
            "false" => Val::I(0),
            "null" => Val::I(0),
            "undef" | "poison" => match t {
                Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => Self::zero(t),
                _ => Val::Undef,
            },
            "zeroinitializer" => Self::zero(t),
            "none" => Val::I(0),
            "splat" => {
                c.expect("(")?;
                let et = self.ty(c)?;
                let v = self.cval(c, &et)?;
                c.expect(")")?;
                Val::Agg(Arc::new(vec![v; t.count()]))
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.attr_word();
                    if c.s[c.p.saturating_sub(1)] == b')' { /* inrange(...) */ }
                }
                c.expect("(")?;
                let bt = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let base = self.cval(c, &pt)?;
                let mut off: i128 = match base {
                    Val::I(a) => a as i128,
                    _ => return Err("gep base".into()),
                };
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    let it = self.ty(c)?;
                    let v = self.cval(c, &it)?;
                    let Val::I(iv) = v else { return Err("gep idx".into()) };
                    let iv = sext(iv, it.width());
                    if first {
                        off += iv * cur.size() as i128;
                        first = false;
                    } else {
                        off += cur.field_offset(iv as usize) as i128;
                        cur = cur.elem(iv as usize);
                    }
                }
                c.expect(")")?;
                Val::I(mask(off, 64))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                c.expect("(")?;
                let ft = self.ty(c)?;
                let v = self.cval(c, &ft)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                c.expect(")")?;
                match v {
                    Val::I(x) => Val::I(mask(x as i128, tt.width().max(1))),
                    v => v,
                }
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect("(")?;
                let ft = self.ty(c)?;
                let a = self.cval(c, &ft)?;
                c.expect(",")?;
                let gt = self.ty(c)?;
                let b = self.cval(c, &gt)?;
                c.expect(")")?;
                match (a, b) {
                    (Val::I(a), Val::I(b)) => {
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        };
                        Val::I(mask(r as i128, ft.width()))
                    }
                    _ => return Err("const expr".into()),
                }
            }
            "icmp" => return Err("icmp const expr".into()),
            _ => {
                if matches!(t, Ty::F64 | Ty::F32) {
                    return fconst(w, t);
                }
                return Err(format!("constant {w:?} of {t:?} at {:?}", c.rest(40)));
            }
        })
    }

    fn op(&mut self, c: &mut Cur, t: &Ty, f: &mut FCtx) -> R<Op> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name()?;
            return Ok(Op::Reg(f.reg(&n)));
        }
        if *t == Ty::Other {
            // metadata operand
            while c.p < c.s.len() && c.s[c.p] != b',' && c.s[c.p] != b')' {
                if c.s[c.p] == b'(' { c.balanced(); } else { c.p += 1; }
            }
            return Ok(Op::C(Val::Undef));
        }
        Ok(Op::C(self.cval(c, t)?))
    }
    fn tyop(&mut self, c: &mut Cur, f: &mut FCtx) -> R<(Ty, Op)> {
        let t = self.ty(c)?;
        let o = self.op(c, &t, f)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur, f: &mut FCtx) -> R<u32> {
        c.expect("label")?;
        c.expect("%")?;
        let n = c.name()?;
        f.blocks.get(&n).copied().ok_or_else(|| format!("unknown block {n}"))
    }

    fn at_operand(c: &mut Cur) -> bool {
        let ch = c.peek();
        if matches!(ch, b'%' | b'@' | b'-' | b'+' | b'[' | b'{' | b'<') || ch.is_ascii_digit() || (ch == b'c' && c.s.get(c.p + 1) == Some(&b'"')) {
            return true;
        }
        let w = c.peek_word();
        matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "trunc" | "bitcast" | "xor" | "none" | "ptrtoaddr" | "nan" | "inf" | "pinf" | "ninf")
            || w.starts_with("0x") || w.starts_with("f0x")
    }

    fn call(&mut self, c: &mut Cur, f: &mut FCtx) -> R<(Callee, Ty, Vec<(Ty, Op)>)> {
        c.skip_attrs();
        let rt = self.ty(c)?;
        if c.peek() == b'(' {
            // function type of a variadic callee
            c.balanced();
        }
        let callee = match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name()?;
                if let Some(i) = self.m.func_ids.get(&n) {
                    Callee::Func(*i)
                } else {
                    let l = self.m.ext.len() as u32;
                    let id = match self.m.ext_ids.get(&n) {
                        Some(i) => *i,
                        None => {
                            self.m.ext.push(n.clone());
                            self.m.ext_ids.insert(n.clone(), l);
                            l
                        }
                    };
                    Callee::Ext(id)
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name()?;
                Callee::Ptr(Op::Reg(f.reg(&n)))
            }
            _ => {
                let w = c.peek_word();
                if w == "asm" {
                    while c.peek() != b'"' {
                        c.word();
                    }
                    c.attr_word();
                    c.expect(",")?;
                    c.attr_word();
                    Callee::Asm
                } else {
                    let v = self.cval(c, &Ty::Ptr)?;
                    Callee::Ptr(Op::C(v))
                }
            }
        };
        c.expect("(")?;
        let mut args = vec![];
        if c.peek() != b')' {
            loop {
                let t = self.ty(c)?;
                if t == Ty::Other {
                    while c.p < c.s.len() && c.s[c.p] != b',' && c.s[c.p] != b')' {
                        if c.s[c.p] == b'(' { c.balanced(); } else { c.p += 1; }
                    }
                    args.push((t, Op::C(Val::Undef)));
                } else {
                    while !Self::at_operand(c) {
                        c.attr_word();
                    }
                    let o = self.op(c, &t, f)?;
                    args.push((t, o));
                }
                if !c.eat(",") {
                    break;
                }
            }
        }
        c.expect(")")?;
        Ok((callee, rt, args))
    }

    fn ins(&mut self, line: &str, f: &mut FCtx) -> R<(u32, Ins)> {
        let mut cur = Cur::new(line);
        let c = &mut cur;
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name()?;
            dst = f.reg(&n);
            c.expect("=")?;
        }
        let w = c.word();
        let bin = |k| Some(k);
        let bk = match w {
            "add" => bin(BinK::Add), "sub" => bin(BinK::Sub), "mul" => bin(BinK::Mul),
            "udiv" => bin(BinK::UDiv), "sdiv" => bin(BinK::SDiv), "urem" => bin(BinK::URem), "srem" => bin(BinK::SRem),
            "shl" => bin(BinK::Shl), "lshr" => bin(BinK::LShr), "ashr" => bin(BinK::AShr),
            "and" => bin(BinK::And), "or" => bin(BinK::Or), "xor" => bin(BinK::Xor),
            "fadd" => bin(BinK::FAdd), "fsub" => bin(BinK::FSub), "fmul" => bin(BinK::FMul), "fdiv" => bin(BinK::FDiv), "frem" => bin(BinK::FRem),
            _ => None,
        };
        if let Some(k) = bk {
            c.skip_attrs();
            let t = self.ty(c)?;
            let a = self.op(c, &t, f)?;
            c.expect(",")?;
            let b = self.op(c, &t, f)?;
            return Ok((dst, Ins::Bin(k, t, a, b)));
        }
        let ck = match w {
            "trunc" => bin_c(CastK::Trunc), "zext" => bin_c(CastK::ZExt), "sext" => bin_c(CastK::SExt),
            "fptoui" => bin_c(CastK::FpToUi), "fptosi" => bin_c(CastK::FpToSi), "uitofp" => bin_c(CastK::UiToFp), "sitofp" => bin_c(CastK::SiToFp),
            "fptrunc" => bin_c(CastK::FpTrunc), "fpext" => bin_c(CastK::FpExt), "ptrtoint" | "ptrtoaddr" => bin_c(CastK::PtrToInt), "inttoptr" => bin_c(CastK::IntToPtr), "bitcast" | "addrspacecast" => bin_c(CastK::Bitcast),
            _ => None,
        };
        if let Some(k) = ck {
            c.skip_attrs();
            let t = self.ty(c)?;
            let a = self.op(c, &t, f)?;
            c.expect("to")?;
            let t2 = self.ty(c)?;
            return Ok((dst, Ins::Cast(k, t, t2, a)));
        }
        let i = match w {
            "fneg" => {
                c.skip_attrs();
                let (t, o) = self.tyop(c, f)?;
                Ins::FNeg(t, o)
            }
            "icmp" => {
                let mut p = c.word();
                while p == "samesign" {
                    p = c.word();
                }
                let p = match p {
                    "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule,
                    "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle,
                    _ => return Err(format!("icmp {p}")),
                };
                let t = self.ty(c)?;
                let a = self.op(c, &t, f)?;
                c.expect(",")?;
                let b = self.op(c, &t, f)?;
                Ins::ICmp(p, t, a, b)
            }
            "fcmp" => {
                let mut p;
                let pr = loop {
                    p = c.word();
                    break match p {
                        "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord,
                        "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True,
                        "" => return Err("fcmp".into()),
                        _ => continue,
                    };
                };
                let t = self.ty(c)?;
                let a = self.op(c, &t, f)?;
                c.expect(",")?;
                let b = self.op(c, &t, f)?;
                Ins::FCmp(pr, t, a, b)
            }
            "load" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = self.ty(c)?;
                c.expect(",")?;
                let (_, p) = self.tyop(c, f)?;
                Ins::Load(t, p)
            }
            "store" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let (t, v) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, p) = self.tyop(c, f)?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                c.skip_attrs();
                let bt = self.ty(c)?;
                c.expect(",")?;
                let (pt, base) = self.tyop(c, f)?;
                if pt.is_vec() {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut curt = bt;
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let (it, o) = self.tyop(c, f)?;
                    if first {
                        match &o {
                            Op::C(Val::I(v)) => off += (sext(*v, it.width()) as i64).wrapping_mul(curt.size() as i64),
                            _ => dynv.push((curt.size() as i64, o, it.width())),
                        }
                        first = false;
                    } else {
                        match &o {
                            Op::C(Val::I(v)) => {
                                let iv = sext(*v, it.width());
                                match &curt {
                                    Ty::Struct(..) => off += curt.field_offset(iv as usize) as i64,
                                    t => off += t.elem(0).size() as i64 * iv as i64,
                                }
                                curt = curt.elem(iv.max(0) as usize);
                            }
                            _ => {
                                let e = curt.elem(0);
                                dynv.push((e.size() as i64, o, it.width()));
                                curt = e;
                            }
                        }
                    }
                }
                Ins::Gep(base, off, dynv)
            }
            "alloca" => {
                let t = self.ty(c)?;
                let mut n = 1u64;
                if c.eat(",") {
                    if c.at_type() {
                        let (_, o) = self.tyop(c, f)?;
                        if let Op::C(Val::I(v)) = o { n = v as u64 } else { return Err("dynamic alloca".into()) }
                    }
                }
                Ins::Alloca(t.size() * n)
            }
            "tail" | "musttail" | "notail" => {
                c.expect("call")?;
                let (a, b, d) = self.call(c, f)?;
                Ins::Call(a, b, d)
            }
            "call" => {
                let (a, b, d) = self.call(c, f)?;
                Ins::Call(a, b, d)
            }
            "invoke" => {
                let (a, b, d) = self.call(c, f)?;
                // skip to "to label"
                let txt = std::str::from_utf8(&c.s[c.p..]).unwrap();
                let at = txt.find("to label %").ok_or("invoke")?;
                c.p += at + 2;
                let l = self.label(c, f)?;
                Ins::Invoke(a, b, d, l)
            }
            "select" => {
                c.skip_attrs();
                let (ct, co) = self.tyop(c, f)?;
                c.expect(",")?;
                let (t, a) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, b) = self.tyop(c, f)?;
                Ins::Select(ct, t, co, a, b)
            }
            "phi" => {
                c.skip_attrs();
                let t = self.ty(c)?;
                let mut v = vec![];
                loop {
                    c.expect("[")?;
                    let o = self.op(c, &t, f)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let n = c.name()?;
                    c.expect("]")?;
                    let b = *f.blocks.get(&n).ok_or_else(|| format!("phi block {n}"))?;
                    v.push((b, o));
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() != b'[' {
                        break;
                    }
                }
                Ins::Phi(v)
            }
            "extractvalue" => {
                let (_, o) = self.tyop(c, f)?;
                let mut v = vec![];
                while c.eat(",") {
                    if !c.peek().is_ascii_digit() { break; }
                    v.push(c.num()? as u32);
                }
                Ins::Extract(o, v)
            }
            "insertvalue" => {
                let (t, o) = self.tyop(c, f)?;
                c.expect(",")?;
                let (t2, o2) = self.tyop(c, f)?;
                let mut v = vec![];
                while c.eat(",") {
                    if !c.peek().is_ascii_digit() { break; }
                    v.push(c.num()? as u32);
                }
                Ins::Insert(t, o, t2, o2, v)
            }
            "extractelement" => {
                let (t, o) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, i) = self.tyop(c, f)?;
                Ins::ExtractElem(t, o, i)
            }
            "insertelement" => {
                let (t, o) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, v) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, i) = self.tyop(c, f)?;
                Ins::InsertElem(t, o, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, b) = self.tyop(c, f)?;
                c.expect(",")?;
                let mt = self.ty(c)?;
                let m = self.cval(c, &mt)?;
                let mv = match m {
                    Val::Agg(v) => v.iter().map(|x| match x { Val::I(i) => sext(*i, 32) as i64, _ => -1 }).collect(),
                    _ => vec![-1; mt.count()],
                };
                Ins::Shuffle(t, a, b, mv)
            }
            "freeze" => {
                let (_, o) = self.tyop(c, f)?;
                Ins::Freeze(o)
            }
            "atomicrmw" => {
                if c.peek_word() == "volatile" { c.word(); }
                let k = match c.word() { "xchg" => 0u8, "add" => 1, "sub" => 2, "and" => 3, "or" => 5, "xor" => 6, "umax" => 7, "umin" => 8, k => return Err(format!("atomicrmw {k}")) };
                let (_, p) = self.tyop(c, f)?;
                c.expect(",")?;
                let (t, v) = self.tyop(c, f)?;
                Ins::AtomicRmw(k, t, p, v)
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") { c.word(); }
                let (_, p) = self.tyop(c, f)?;
                c.expect(",")?;
                let (t, a) = self.tyop(c, f)?;
                c.expect(",")?;
                let (_, b) = self.tyop(c, f)?;
                Ins::CmpXchg(t, p, a, b)
            }
            "fence" => Ins::Nop,
            "landingpad" | "resume" | "cleanupret" => Ins::Unreachable,
            "unreachable" => Ins::Unreachable,
            "br" => {
                if c.peek_word() == "label" {
                    Ins::Br(self.label(c, f)?)
                } else {
                    let (_, o) = self.tyop(c, f)?;
                    c.expect(",")?;
                    let a = self.label(c, f)?;
                    c.expect(",")?;
                    let b = self.label(c, f)?;
                    Ins::CondBr(o, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.tyop(c, f)?;
                c.expect(",")?;
                let d = self.label(c, f)?;
                c.expect("[")?;
                let mut v = vec![];
                while c.peek() != b']' {
                    let t = self.ty(c)?;
                    let Val::I(x) = self.cval(c, &t)? else { return Err("switch".into()) };
                    c.expect(",")?;
                    let l = self.label(c, f)?;
                    v.push((x, l));
                }
                Ins::Switch(t, o, d, v)
            }
            "ret" => {
                if c.peek_word() == "void" {
                    Ins::Ret(Ty::Void, None)
                } else {
                    let (t, o) = self.tyop(c, f)?;
                    Ins::Ret(t, Some(o))
                }
            }
            "va_arg" => Ins::Unreachable,
            _ => return Err(format!("instruction {w:?}")),
        };
        Ok((dst, i))
    }

    pub fn parse(text: &str) -> R<Module> {
        let mut p = Parser { m: Module::default(), named: HashMap::new() };
        let lines: Vec<&str> = text.split('\n').collect();
        // pass 1: names
        let mut glines = vec![];
        let mut funs = vec![];
        let mut decls = vec![];
        let mut aliases = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('%') {
                if let Some(at) = l.find(" = type ") {
                    let mut c = Cur::new(&l[1..at]);
                    let n = c.name()?;
                    let mut c = Cur::new(&l[at + 8..]);
                    let t = if c.eat("opaque") { Ty::Other } else { p.ty(&mut c)? };
                    p.named.insert(n, t);
                }
            } else if l.starts_with('@') {
                let mut c = Cur::new(&l[1..]);
                let n = c.name()?;
                let is_alias = l.contains(" alias ") && !l.contains("constant") && !l.contains("global ");
                if is_alias { aliases.push((n, i)); } else { glines.push((n, i)); }
            } else if l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let mut c = Cur::new(&l[at + 1..]);
                let n = c.name()?;
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                funs.push((n, st, i));
            } else if l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut c = Cur::new(&l[at + 1..]);
                decls.push(c.name()?);
            }
            i += 1;
        }
        for (k, (n, _, _)) in funs.iter().enumerate() {
            p.m.func_ids.insert(n.clone(), k as u32);
            p.m.sym_addr.insert(n.clone(), FUNC_BASE + 16 * k as u64);
        }
        for n in decls {
            let k = p.m.ext.len();
            p.m.ext_ids.insert(n.clone(), k as u32);
            p.m.sym_addr.insert(n.clone(), FUNC_BASE + 16 * (funs.len() + k) as u64);
            p.m.ext.push(n);
        }
        for (k, (n, _)) in glines.iter().enumerate() {
            p.m.sym_addr.insert(n.clone(), ((k + 1) as u64) << OBJ_SHIFT);
        }
        for (n, i) in aliases {
            let l = lines[i];
            let at = l.rfind('@').unwrap();
            let mut c = Cur::new(&l[at + 1..]);
            let t = c.name()?;
            if let Some(a) = p.m.sym_addr.get(&t).copied() {
                p.m.sym_addr.insert(n.clone(), a);
                if let Some(f) = p.m.func_ids.get(&t).copied() {
                    p.m.func_ids.insert(n, f);
                }
            }
        }
        // globals
        for (n, i) in &glines {
            let l = lines[*i];
            let at = l.find(" = ").unwrap();
            let mut c = Cur::new(&l[at + 3..]);
            let mut constant = false;
            let mut external = false;
            loop {
                let w = c.peek_word();
                match w {
                    "constant" => { c.word(); constant = true; break; }
                    "global" => { c.word(); break; }
                    "external" | "extern_weak" => { c.word(); external = true; }
                    _ => c.attr_word(),
                }
                if c.p >= c.s.len() { break; }
            }
            let t = p.ty(&mut c)?;
            let size = t.size();
            let mut data = vec![0u8; size as usize];
            if !external {
                let v = p.cval(&mut c, &t).map_err(|e| format!("global {n}: {e}"))?;
                put_const(&mut data, 0, &t, &v)?;
            }
            p.m.globals.push(GlobalObj { name: n.clone(), size, data, constant });
        }
        // functions
        for (n, st, en) in funs {
            let f = p.func(&n, &lines[st..en]).map_err(|e| format!("in @{n}: {e}"))?;
            p.m.funcs.push(f);
        }
        Ok(p.m)
    }

    fn func(&mut self, name: &str, lines: &[&str]) -> R<Func> {
        let mut f = FCtx { regs: HashMap::new(), blocks: HashMap::new() };
        let head = lines[0];
        let at = head.find('@').unwrap();
        let mut c = Cur::new(&head[at + 1..]);
        c.name()?;
        c.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        if c.peek() != b')' {
            loop {
                if c.eat("...") { break; }
                let _t = self.ty(&mut c)?;
                while c.peek() != b'%' && c.peek() != b',' && c.peek() != b')' {
                    c.attr_word();
                }
                if c.peek() == b'%' {
                    c.p += 1;
                    let n = c.name()?;
                    if n.parse::<u32>().is_ok() { unnamed += 1; }
                    params.push(f.reg(&n));
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    params.push(f.reg(&n));
                }
                if !c.eat(",") { break; }
            }
        }
        // collect logical lines and block labels
        let mut blocks: Vec<Vec<String>> = vec![];
        let mut i = 1;
        let mut first_label: Option<String> = None;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(l);
                let n = c.name()?;
                if blocks.is_empty() { first_label = Some(n.clone()); }
                f.blocks.insert(n, blocks.len() as u32);
                blocks.push(vec![]);
                continue;
            }
            let t = l.trim_start();
            if t.starts_with("#dbg") || t.starts_with(';') { continue; }
            if blocks.is_empty() { blocks.push(vec![]); }
            let mut s = t.to_string();
            while let (Some(a), Some(b)) = (s.find("/* "), s.find(" */")) { if a < b { s.replace_range(a..b + 3, ""); } else { break; } }
            if t.starts_with("switch ") && !t.contains(']') {
                while !lines[i].trim_start().starts_with(']') {
                    s.push(' ');
                    s.push_str(lines[i].trim());
                    i += 1;
                }
                s.push_str(" ]");
                i += 1;
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                if !t.contains("to label %") {
                    s.push(' ');
                    s.push_str(lines[i].trim());
                    i += 1;
                }
            } else if t.contains("landingpad ") {
                while i < lines.len() && (lines[i].starts_with("          ")) { i += 1; }
            }
            blocks.last_mut().unwrap().push(s);
        }
        if first_label.is_none() {
            // the entry block has the next unnamed number
            f.blocks.entry(unnamed.to_string()).or_insert(0);
            f.blocks.insert("start".into(), 0);
        }
        let mut out = vec![];
        let mut nins = 0;
        for b in &blocks {
            let mut bl = Block::default();
            for l in b {
                let (d, ins) = match self.ins(l, &mut f) {
                    Ok(x) => x,
                    // what the engine cannot read ends a path only where it is executed
                    Err(e) => { bl.ins.push((u32::MAX, Ins::Bad(format!("{e} in line {l:?}")))); nins += 1; break; }
                };
                if matches!(ins, Ins::Phi(_)) { bl.nphi += 1; }
                nins += 1;
                let un = matches!(ins, Ins::Unreachable);
                bl.ins.push((d, ins));
                if un { break; }
            }
            out.push(bl);
        }
        Ok(Func { name: name.to_string(), params, nregs: f.regs.len() as u32, blocks: out, nins })
    }
}

fn bin_c(k: CastK) -> Option<CastK> { Some(k) }

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 { return v as i128; }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

fn fconst(w: &str, t: &Ty) -> R<Val> {
    let v: f64 = if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
    } else if let Some(h) = w.strip_prefix("f0x") {
        let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        if *t == Ty::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }
    } else {
        match w {
            "nan" | "+nan" | "+qnan" | "qnan" => f64::NAN,
            "-nan" | "-qnan" => -f64::NAN,
            "inf" | "+inf" | "pinf" => f64::INFINITY,
            "-inf" | "ninf" => f64::NEG_INFINITY,
            _ => w.parse().map_err(|_| format!("float {w:?}"))?,
        }
    };
    Ok(if *t == Ty::F32 { Val::F32(v as f32) } else { Val::F64(v) })
}

fn put_const(d: &mut [u8], off: usize, t: &Ty, v: &Val) -> R<()> {
    match (t, v) {
        (_, Val::Undef) => {}
        (Ty::F64, Val::F64(x)) => d[off..off + 8].copy_from_slice(&x.to_bits().to_le_bytes()),
        (Ty::F32, Val::F32(x)) => d[off..off + 4].copy_from_slice(&x.to_bits().to_le_bytes()),
        (_, Val::I(x)) => {
            let n = t.size() as usize;
            d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Val::Agg(a)) => {
            for (i, e) in a.iter().enumerate() {
                put_const(d, off + t.field_offset(i) as usize, &t.elem(i), e)?;
            }
        }
        _ => return Err("constant".into()),
    }
    Ok(())
}
