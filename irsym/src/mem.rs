//! Memory: an address is (object id << 32) + offset. Objects carry concrete bytes plus an overlay
//! of symbolic cells. Objects are shared between forked states and copied on write.
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
pub enum SymV { Int(Id), Real(Id) }

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub syms: BTreeMap<u32, (u8, SymV)>,
    pub constant: bool,
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: Vec<Option<Arc<Obj>>>,
    pub free: Vec<u32>,
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn alloc(&mut self, size: u64) -> MR<u64> {
        if size > 1 << 30 { return Err(format!("allocation of {size} bytes")); }
        let o = Arc::new(Obj { data: vec![0; size as usize], syms: BTreeMap::new(), constant: false });
        let id = match self.free.pop() {
            Some(i) => { self.objs[i as usize] = Some(o); i }
            None => { self.objs.push(Some(o)); (self.objs.len() - 1) as u32 }
        };
        Ok((id as u64) << OBJ_SHIFT)
    }
    pub fn release(&mut self, addr: u64) -> MR<()> {
        let id = (addr >> OBJ_SHIFT) as usize;
        if id >= self.objs.len() || self.objs[id].is_none() { return Err(format!("free of invalid address {addr:#x}")); }
        self.objs[id] = None;
        self.free.push(id as u32);
        Ok(())
    }
    fn at(&self, addr: u64, n: u64) -> MR<(usize, u32)> {
        let id = (addr >> OBJ_SHIFT) as usize;
        let off = addr & 0xffff_ffff;
        match self.objs.get(id) {
            Some(Some(o)) if off + n <= o.data.len() as u64 => Ok((id, off as u32)),
            Some(Some(o)) => Err(format!("out-of-bounds access: offset {off} size {n} of object of {} bytes", o.data.len())),
            _ => Err(format!("access to invalid address {addr:#x}")),
        }
    }
    fn obj(&self, id: usize) -> &Obj { self.objs[id].as_ref().unwrap() }
    fn obj_mut(&mut self, id: usize) -> MR<&mut Obj> {
        let o = Arc::make_mut(self.objs[id].as_mut().unwrap());
        if o.constant { return Err("write to constant memory".into()); }
        Ok(o)
    }
    pub fn bytes(&self, addr: u64, n: u64) -> MR<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = self.at(addr, n)?;
        let o = self.obj(id);
        if overlaps(o, off, n as u32).next().is_some() { return Err("symbolic bytes where concrete bytes are needed".into()); }
        Ok(o.data[off as usize..(off as u64 + n) as usize].to_vec())
    }
    pub fn load(&self, ar: &mut Arena, addr: u64, ty: &Ty) -> MR<Val> {
        match ty {
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                if let Ty::Vector(e, n) = ty {
                    if matches!(**e, Ty::Int(1)) {
                        let v = self.load(ar, addr, &Ty::Int(*n as u32))?;
                        let Val::I(x) = v else { return Err("symbolic bit vector load".into()) };
                        return Ok(Val::Agg(Arc::new((0..*n).map(|i| Val::I((x >> i) & 1)).collect())));
                    }
                }
                let mut v = Vec::with_capacity(ty.count());
                for i in 0..ty.count() { v.push(self.load(ar, addr + ty.field_offset(i), &ty.elem(i))?); }
                return Ok(Val::Agg(Arc::new(v)));
            }
            _ => {}
        }
        let n = ty.stored();
        let (id, off) = self.at(addr, n)?;
        let o = self.obj(id);
        if !o.syms.is_empty() && overlaps(o, off, n as u32).next().is_some() {
            return load_sym(o, ar, off, n as u32, ty);
        }
        let d = &o.data[off as usize..off as usize + n as usize];
        Ok(match ty {
            Ty::F64 => Val::F64(f64::from_le_bytes(d.try_into().unwrap())),
            Ty::F32 => Val::F32(f32::from_le_bytes(d.try_into().unwrap())),
            _ => {
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(d);
                Val::I(mask(u128::from_le_bytes(b) as i128, ty.width()))
            }
        })
    }
    pub fn store(&mut self, ar: &mut Arena, addr: u64, ty: &Ty, v: &Val) -> MR<()> {
        match ty {
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let Val::Agg(a) = v else { return Ok(()) };
                if let Ty::Vector(e, n) = ty {
                    if matches!(**e, Ty::Int(1)) {
                        let mut x = 0u128;
                        for (i, b) in a.iter().enumerate() { let Val::I(b) = b else { return Err("symbolic bit vector store".into()) }; x |= b << i; }
                        return self.store(ar, addr, &Ty::Int(*n as u32), &Val::I(x));
                    }
                }
                for i in 0..ty.count() { self.store(ar, addr + ty.field_offset(i), &ty.elem(i), &a[i])?; }
                return Ok(());
            }
            _ => {}
        }
        let n = ty.stored();
        let (id, off) = self.at(addr, n)?;
        let o = self.obj_mut(id)?;
        clear(o, ar, off, n as u32)?;
        let r = off as usize..off as usize + n as usize;
        match v {
            Val::I(x) => o.data[r].copy_from_slice(&x.to_le_bytes()[..n as usize]),
            Val::F64(x) => o.data[r].copy_from_slice(&x.to_bits().to_le_bytes()),
            Val::F32(x) => o.data[r].copy_from_slice(&x.to_bits().to_le_bytes()),
            Val::S(s) => {
                let s = match ar.sort(*s) {
                    Sort::Bool => { let (a, b) = (ar.ic(1), ar.ic(0)); ar.iite(*s, a, b) }
                    _ => *s,
                };
                o.syms.insert(off, (n as u8, SymV::Int(s)));
            }
            Val::R(s) | Val::RB(s) => { o.syms.insert(off, (n as u8, SymV::Real(*s))); }
            Val::Undef => {}
            Val::Agg(_) => return Err("aggregate stored as scalar".into()),
        }
        Ok(())
    }
    pub fn set(&mut self, ar: &mut Arena, addr: u64, byte: u8, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let (id, off) = self.at(addr, n)?;
        let o = self.obj_mut(id)?;
        clear(o, ar, off, n as u32)?;
        o.data[off as usize..(off as u64 + n) as usize].fill(byte);
        Ok(())
    }
    pub fn copy(&mut self, ar: &mut Arena, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let (sid, soff) = self.at(src, n)?;
        let (did, doff) = self.at(dst, n)?;
        let (bytes, cells) = {
            let so = self.obj(sid);
            let mut cells = vec![];
            let ov: Vec<(u32, u8, SymV)> = overlaps(so, soff, n as u32).collect();
            for (o, sz, v) in ov {
                if o >= soff && o + sz as u32 <= soff + n as u32 {
                    cells.push((o - soff, sz, v));
                } else {
                    let SymV::Int(x) = v else { return Err("partial copy of a symbolic double".into()) };
                    for k in 0..sz as u32 {
                        if o + k >= soff && o + k < soff + n as u32 {
                            let b = byte_of(ar, x, sz, k);
                            cells.push((o + k - soff, 1, SymV::Int(b)));
                        }
                    }
                }
            }
            (so.data[soff as usize..(soff as u64 + n) as usize].to_vec(), cells)
        };
        let d = self.obj_mut(did)?;
        clear(d, ar, doff, n as u32)?;
        d.data[doff as usize..(doff as u64 + n) as usize].copy_from_slice(&bytes);
        for (o, sz, v) in cells { d.syms.insert(doff + o, (sz, v)); }
        Ok(())
    }
}

fn overlaps(o: &Obj, off: u32, n: u32) -> impl Iterator<Item = (u32, u8, SymV)> + '_ {
    let lo = off.saturating_sub(15);
    o.syms.range(lo..off + n).filter(move |(k, (s, _))| **k + *s as u32 > off).map(|(k, (s, v))| (*k, *s, *v))
}

/// k-th byte (signed canonical i8) of an integer cell
fn byte_of(ar: &mut Arena, x: Id, _sz: u8, k: u32) -> Id {
    let d = ar.idiv(x, 1i128 << (8 * k));
    let m = ar.imod(d, 256);
    ar.wrap(m, 8)
}

fn clear(o: &mut Obj, ar: &mut Arena, off: u32, n: u32) -> MR<()> {
    if o.syms.is_empty() { return Ok(()); }
    let ov: Vec<(u32, u8, SymV)> = overlaps(o, off, n).collect();
    for (k, sz, v) in ov {
        o.syms.remove(&k);
        if k < off || k + sz as u32 > off + n {
            match v {
                SymV::Int(x) => {
                    for i in 0..sz as u32 {
                        if k + i < off || k + i >= off + n {
                            let b = byte_of(ar, x, sz, i);
                            o.syms.insert(k + i, (1, SymV::Int(b)));
                        }
                    }
                }
                SymV::Real(_) => return Err("partial overwrite of a symbolic double".into()),
            }
        }
    }
    Ok(())
}

fn load_sym(o: &Obj, ar: &mut Arena, off: u32, n: u32, ty: &Ty) -> MR<Val> {
    if let Some((sz, v)) = o.syms.get(&off) {
        if *sz as u32 == n {
            return Ok(match (v, ty) {
                (SymV::Real(r), Ty::F64) | (SymV::Real(r), Ty::F32) => Val::R(*r),
                (SymV::Real(r), Ty::Int(64)) | (SymV::Real(r), Ty::Ptr) | (SymV::Real(r), Ty::Int(32)) => Val::RB(*r),
                (SymV::Int(x), Ty::Int(1)) => { let m = ar.imod(*x, 2); let one = ar.ic(1); mkbool(ar, m, one) }
                (SymV::Int(x), Ty::Int(w)) if *w < n * 8 => { let y = ar.wrap(*x, *w); mkint(ar, y, *w) }
                (SymV::Int(x), Ty::Int(w)) => mkint(ar, *x, *w),
                (SymV::Int(x), Ty::Ptr) => mkint(ar, *x, 64),
                _ => return Err("symbolic integer reinterpreted as a float".into()),
            });
        }
    }
    // assemble bytes
    let w = match ty { Ty::Int(w) => w, Ty::Ptr => &64, _ => return Err("mixed symbolic load of a non-integer".into()) };
    let mut acc = ar.ic(0);
    let mut k = 0;
    while k < n {
        let a = off + k;
        let hit = overlaps(o, a, 1).next();
        match hit {
            None => {
                let c = ar.ic((o.data[a as usize] as i128) << (8 * k));
                acc = ar.iadd(acc, c);
                k += 1;
            }
            Some((p, sz, SymV::Int(x))) => {
                let skip = a - p;
                let take = (sz as u32 - skip).min(n - k);
                let u = ar.uns(x, sz as u32 * 8);
                let d = ar.idiv(u, 1i128 << (8 * skip));
                let m = ar.imod(d, 1i128 << (8 * take));
                let c = ar.ic(1i128 << (8 * k));
                let t = ar.imul(m, c);
                acc = ar.iadd(acc, t);
                k += take;
            }
            Some(_) => return Err("partial load of a symbolic double".into()),
        }
    }
    if *w == 1 { let m = ar.imod(acc, 2); let one = ar.ic(1); return Ok(mkbool(ar, m, one)); }
    let y = ar.wrap(acc, *w);
    Ok(mkint(ar, y, *w))
}

fn mkbool(ar: &mut Arena, a: Id, b: Id) -> Val {
    let c = ar.ieq(a, b);
    match ar.bv(c) { Some(v) => Val::I(v as u128), None => Val::S(c) }
}
pub fn mkint(ar: &Arena, x: Id, w: u32) -> Val {
    match ar.icv(x) { Some(v) => Val::I(mask(v, w)), None => Val::S(x) }
}
