//! Symbolic executor.
use crate::flt::{FO, FU};
use crate::ir::*;
use crate::lower::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    /// empty if fully concrete; else per byte: 0 concrete, 1 undefined, or kind<<60|byte<<48|id
    pub t: Vec<u64>,
    pub kind: u8, // 0 heap 1 stack 2 global const 3 global mutable
    pub live: bool,
}
const UNDEF: u64 = 1;
const KT: u64 = 1 << 60;
const KF: u64 = 2 << 60;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: Option<u32>,
    pub next: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub gov: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    pub asserts: Vec<(T, Rc<str>)>,
    pub inputs: Vec<T>,
    pub obs: Vec<(T, u16)>,
    pub panic_ok: Option<T>,
    pub nassert: u32,
    pub covers: Vec<Rc<str>>,
    pub subst: HashMap<T, u64>,
    /// conditions implied by the path condition (it only grows, so they stay implied)
    pub implied: std::collections::HashSet<T>,
    pub steps: u64,
    pub alive: std::cell::RefCell<crate::tt::Alive>,
}
#[derive(Debug)]
pub enum Stop {
    /// path ends quietly (infeasible or assumption false)
    End,
    Done,
    Panic(String),
    Viol(String),
    Err(String),
}
type R<X> = Result<X, Stop>;

#[derive(Default)]
pub struct JobOut {
    pub paths: u64,
    pub completed: u64,
    pub asserting: u64,
    pub panics_ok: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub rewritten: u64,
    pub viol: Option<(String, Vec<u128>)>,
    pub error: Option<String>,
    pub traces: Vec<(Vec<u128>, Vec<u128>)>,
    pub funcs: std::collections::BTreeSet<usize>,
    pub covers: std::collections::BTreeSet<String>,
    pub concretized: u64,
    pub inconclusive: u64,
}
pub struct Exec {
    pub lo: Lower,
    pub ts: Terms,
    pub sv: Solver,
    pub gobj: HashMap<u32, Rc<Obj>>,
    pub avx2: bool,
    pub cfg: Vec<i64>,
    pub out: JobOut,
    pub work: Vec<State>,
    pub max_paths: u64,
    pub deadline: Instant,
    pub chunk: usize,
    pub trace_every: u64,
    pub trace: bool,
    pub tt: crate::tt::Tables,
}

fn mk64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn optr(id: u32) -> u64 {
    ((id as u64) << 32) | OFF
}

impl Exec {
    // ------------------------------------------------------------ values
    pub fn t(&mut self, v: &V, w: u16) -> T {
        match v {
            V::I(x) => self.ts.c(*x as u128, w),
            V::T(t) => *t,
            V::U => self.ts.c(0, w),
            V::F32(b) => self.ts.c(*b as u128, w),
            V::F64(b) => self.ts.c(*b as u128, w),
            V::F(f) => self.ts.bits_of(*f),
            V::A(_) => self.ts.c(0, w),
        }
    }
    pub fn f(&mut self, v: &V, w: u16) -> u32 {
        match v {
            V::F32(b) => self.ts.fc(*b as u64, 32),
            V::F64(b) => self.ts.fc(*b, 64),
            V::F(f) => *f,
            V::I(x) => self.ts.fc(*x, w),
            V::T(t) => self.ts.fbits(*t),
            _ => self.ts.fc(0, w),
        }
    }
    pub fn vt(&self, t: T) -> V {
        let e = &self.ts.e[t as usize];
        if e.w <= 64 {
            if let N::Const(v) = e.n {
                return V::I(v as u64);
            }
        }
        V::T(t)
    }
    pub fn vf(&self, f: u32) -> V {
        match self.ts.fconst(f) {
            Some(b) => {
                if self.ts.fl.w(f) == 32 {
                    V::F32(b as u32)
                } else {
                    V::F64(b)
                }
            }
            None => V::F(f),
        }
    }
    pub fn ty(&self, t: TyId) -> Ty {
        self.lo.p.types.ty(t).clone()
    }

    // ------------------------------------------------------------ memory
    pub fn alloc(&mut self, s: &mut State, size: u64, kind: u8, zero: bool) -> u64 {
        let id = s.mem.len() as u32;
        let t = if zero || size == 0 { vec![] } else { vec![UNDEF; size as usize] };
        s.mem.push(Some(Rc::new(Obj { b: vec![0; size as usize], t, kind, live: true })));
        optr(id)
    }
    pub fn obj(&mut self, s: &State, p: u64, n: u64, what: &str) -> R<(Rc<Obj>, usize)> {
        let id = (p >> 32) as u32;
        let off = (p & 0xffff_ffff) as i64 - OFF as i64;
        let o: Option<Rc<Obj>> = if id as u64 >= FBASE {
            None
        } else if id as u64 >= GBASE {
            match s.gov.get(&id) {
                Some(o) => Some(o.clone()),
                None => self.gload(id)?,
            }
        } else {
            s.mem.get(id as usize).cloned().flatten()
        };
        match o {
            None => Err(Stop::Viol(format!("memory: {} of {} bytes through invalid pointer {:#x}", what, n, p))),
            Some(o) => {
                if !o.live {
                    return Err(Stop::Viol(format!("memory: {} of freed object", what)));
                }
                if off < 0 || off as u64 + n > o.b.len() as u64 {
                    return Err(Stop::Viol(format!("memory: {} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.b.len())));
                }
                Ok((o, off as usize))
            }
        }
    }
    pub fn in_bounds(&mut self, s: &State, p: u64, n: u64) -> bool {
        self.obj(s, p, n, "").is_ok()
    }
    fn gload(&mut self, id: u32) -> R<Option<Rc<Obj>>> {
        if let Some(o) = self.gobj.get(&id) {
            return Ok(Some(o.clone()));
        }
        let gi = (id as u64 - GBASE) as usize;
        let (m, name, size, constant) = match self.lo.globals.get(gi) {
            Some(g) => (g.module, g.name.clone(), g.size, g.constant),
            None => return Ok(None),
        };
        let g = self.lo.p.modules[m].globals[&name].clone();
        let mut o = Obj { b: vec![0; size as usize], t: vec![], kind: if constant { 2 } else { 3 }, live: true };
        if name.contains("std_detect") && name.ends_with("CACHE") || name.contains("6detect5cache5CACHE") {
            // first cache word: initialised, AVX2 as configured
            let v: u64 = (1u64 << 63) | if self.avx2 { 1 << 15 } else { 0 };
            o.b[..8].copy_from_slice(&v.to_le_bytes());
        } else if name.contains("11RandomState3new4KEYS") {
            // thread-local hash keys, not yet drawn: all zeroes
        } else if let Some(init) = &g.init {
            let toks = tokenize(init);
            let mut p = Pos { t: &toks, i: 0 };
            let named = self.lo.p.modules[m].named.clone();
            let ty = parse_ty(&mut p, &mut self.lo.p.types, &named).map_err(Stop::Err)?;
            let c = parse_val(&mut p, ty, &mut self.lo.p.types, &named).map_err(Stop::Err)?;
            let mut buf = std::mem::take(&mut o.b);
            self.ginit(m, ty, &c, &mut buf, 0).map_err(Stop::Err)?;
            o.b = buf;
        } else {
            return Err(Stop::Err(format!("external global {}", name)));
        }
        let r = Rc::new(o);
        self.gobj.insert(id, r.clone());
        Ok(Some(r))
    }
    fn ginit(&mut self, m: usize, ty: TyId, c: &C, b: &mut Vec<u8>, off: usize) -> Result<(), String> {
        let sz = self.lo.p.types.size(ty) as usize;
        match (c, self.ty(ty)) {
            (C::Zero, _) | (C::Undef, _) => {}
            (C::Bytes(v), _) => b[off..off + v.len()].copy_from_slice(v),
            (C::Agg(v), Ty::Struct(fs, pk)) => {
                for (i, (et, e)) in v.iter().enumerate() {
                    let o = self.lo.p.types.field_off(&fs, pk, i) as usize;
                    self.ginit(m, *et, e, b, off + o)?;
                }
            }
            (C::Agg(v), _) => {
                let mut o = off;
                for (et, e) in v {
                    self.ginit(m, *et, e, b, o)?;
                    o += self.lo.p.types.size(*et) as usize;
                }
            }
            (C::Int(v), _) if sz > 8 => {
                b[off..off + sz].copy_from_slice(&v.to_le_bytes()[..sz]);
            }
            // an entry of a relative lookup table (read by llvm.load.relative): the distance between two objects,
            // kept as the difference of their numbers
            (C::Cast(op, from, x, _), _) if op == "trunc" && sz == 4 => {
                let d = match self.lo.cval(m, *from, x)? {
                    V::I(x) => x,
                    _ => return Err("relative initialiser".into()),
                };
                if d & 0xffff_ffff != 0 || (d as i64 >> 32) as i32 as i64 != d as i64 >> 32 {
                    return Err("relative initialiser".into());
                }
                b[off..off + 4].copy_from_slice(&((d as i64 >> 32) as i32).to_le_bytes());
            }
            _ => {
                let v = self.lo.cval(m, ty, c)?;
                let x = match v {
                    V::I(x) => x,
                    V::F32(x) => x as u64,
                    V::F64(x) => x,
                    _ => return Err("global initialiser".into()),
                };
                b[off..off + sz].copy_from_slice(&x.to_le_bytes()[..sz]);
            }
        }
        Ok(())
    }
    fn objm<'a>(&mut self, s: &'a mut State, p: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (o, off) = self.obj(s, p, n, "write")?;
        if o.kind == 2 {
            return Err(Stop::Viol("memory: write to read-only data".into()));
        }
        let id = (p >> 32) as u32;
        drop(o);
        if id as u64 >= GBASE {
            if !s.gov.contains_key(&id) {
                let o = self.gobj[&id].clone();
                s.gov.insert(id, o);
            }
            Ok((Rc::make_mut(s.gov.get_mut(&id).unwrap()), off))
        } else {
            Ok((Rc::make_mut(s.mem[id as usize].as_mut().unwrap()), off))
        }
    }
    fn load_bytes_int(&mut self, o: &Obj, off: usize, n: usize, w: u16) -> V {
        if o.t.is_empty() || o.t[off..off + n].iter().all(|t| *t == 0) {
            if n <= 8 {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = x << 8 | o.b[off + i] as u64;
                }
                return V::I(x & mk64(w));
            }
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = x << 8 | o.b[off + i] as u128;
            }
            let t = self.ts.c(x, w);
            return V::T(t);
        }
        let tg = &o.t[off..off + n];
        if tg.iter().all(|t| *t == UNDEF) {
            return V::U;
        }
        // whole term
        let k = tg[0] >> 60;
        if k == 1 {
            let id = (tg[0] & 0xffff_ffff) as T;
            let tw = self.ts.w(id);
            if (tw as usize + 7) / 8 == n && tg.iter().enumerate().all(|(i, t)| *t == KT | (i as u64) << 48 | id as u64) {
                let r = if tw == w { id } else { self.ts.zext_to(id, w) };
                return self.vt(r);
            }
        }
        if k == 2 {
            let id = (tg[0] & 0xffff_ffff) as u32;
            if self.ts.fl.w(id) as usize == n * 8 && tg.iter().enumerate().all(|(i, t)| *t == KF | (i as u64) << 48 | id as u64) {
                let t = self.ts.bits_of(id);
                return self.vt(t);
            }
        }
        // byte-wise assembly
        let mut acc: Option<T> = None;
        for i in 0..n {
            let tag = tg[i];
            let bt = match tag >> 60 {
                0 => self.ts.c(if tag == UNDEF { 0 } else { o.b[off + i] as u128 }, 8),
                k => {
                    let id = (tag & 0xffff_ffff) as u32;
                    let bi = ((tag >> 48) & 0xfff) as u16;
                    let t = if k == 1 { id } else { self.ts.bits_of(id) };
                    let tw = self.ts.w(t);
                    if tw < 8 * (bi + 1) {
                        let x = self.ts.ext(8 * bi, t, tw - 8 * bi);
                        self.ts.zext(x, 8)
                    } else {
                        self.ts.ext(8 * bi, t, 8)
                    }
                }
            };
            acc = Some(match acc {
                None => bt,
                Some(a) => self.ts.concat(bt, a),
            });
        }
        let r = self.ts.zext_to(acc.unwrap(), w);
        self.vt(r)
    }
    pub fn load_obj(&mut self, o: &Obj, off: usize, ty: TyId) -> V {
        match self.ty(ty) {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                self.load_bytes_int(o, off, n, w as u16)
            }
            Ty::Ptr => self.load_bytes_int(o, off, 8, 64),
            Ty::F32 | Ty::F64 => {
                let w = if matches!(self.ty(ty), Ty::F32) { 32 } else { 64 };
                match self.load_bytes_int(o, off, w / 8, w as u16) {
                    V::I(x) => {
                        if w == 32 {
                            V::F32(x as u32)
                        } else {
                            V::F64(x)
                        }
                    }
                    V::T(t) => {
                        let f = self.ts.fbits(t);
                        self.vf(f)
                    }
                    v => v,
                }
            }
            Ty::Arr(n, e) => {
                let sz = self.lo.p.types.size(e) as usize;
                let v = (0..n as usize).map(|i| self.load_obj(o, off + i * sz, e)).collect();
                V::A(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.ty(e) {
                    if w % 8 != 0 {
                        let tot = (n as u32 * w) as u16;
                        let x = self.load_bytes_int(o, off, (tot as usize + 7) / 8, tot);
                        let t = self.t(&x, tot);
                        let v = (0..n as u16)
                            .map(|i| {
                                let b = self.ts.ext(i * w as u16, t, w as u16);
                                self.vt(b)
                            })
                            .collect();
                        return V::A(Rc::new(v));
                    }
                }
                let sz = self.lo.p.types.size(e) as usize;
                let v = (0..n as usize).map(|i| self.load_obj(o, off + i * sz, e)).collect();
                V::A(Rc::new(v))
            }
            Ty::Struct(fs, pk) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let fo = self.lo.p.types.field_off(&fs, pk, i) as usize;
                    v.push(self.load_obj(o, off + fo, fs[i]));
                }
                V::A(Rc::new(v))
            }
            _ => V::U,
        }
    }
    pub fn load(&mut self, s: &State, p: u64, ty: TyId) -> R<V> {
        let n = self.lo.p.types.store_size(ty);
        let (o, off) = self.obj(s, p, n, "read")?;
        Ok(self.load_obj(&o, off, ty))
    }
    fn put(&mut self, o: &mut Obj, off: usize, n: usize, w: u16, v: &V) {
        let tags = |o: &mut Obj| {
            if o.t.is_empty() {
                o.t = vec![0; o.b.len()];
            }
        };
        match v {
            V::I(x) => {
                o.b[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.t.is_empty() {
                    o.t[off..off + n].fill(0);
                }
            }
            V::F32(x) => self.put(o, off, n, w, &V::I(*x as u64)),
            V::F64(x) => self.put(o, off, n, w, &V::I(*x)),
            V::T(t) => {
                if let Some(c) = self.ts.cv(*t) {
                    o.b[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if !o.t.is_empty() {
                        o.t[off..off + n].fill(0);
                    }
                    return;
                }
                tags(o);
                // reduce extracts so that bytes of a larger term keep their identity
                let (base, lo) = match self.ts.e[*t as usize].n {
                    N::Ext(lo, b) if lo % 8 == 0 && w % 8 == 0 => (b, lo / 8),
                    _ => (*t, 0),
                };
                for i in 0..n {
                    o.t[off + i] = KT | ((i as u64 + lo as u64) << 48) | base as u64;
                }
            }
            V::F(f) => {
                tags(o);
                for i in 0..n {
                    o.t[off + i] = KF | (i as u64) << 48 | *f as u64;
                }
            }
            _ => {
                tags(o);
                o.t[off..off + n].fill(UNDEF);
            }
        }
    }
    fn store_obj(&mut self, o: &mut Obj, off: usize, ty: TyId, v: &V) {
        let n = self.lo.p.types.store_size(ty) as usize;
        match (self.ty(ty), v) {
            (Ty::Int(w), V::T(t)) if self.ts.w(*t) % 8 != 0 => {
                let k = ((w + 7) / 8 * 8) as u16;
                let x = self.ts.zext_to(*t, k);
                let x = self.vt(x);
                self.put(o, off, (k / 8) as usize, k, &x);
            }
            (Ty::Int(w), _) => self.put(o, off, ((w + 7) / 8) as usize, w as u16, v),
            (Ty::Ptr, _) => self.put(o, off, 8, 64, v),
            (Ty::F32, _) => self.put(o, off, 4, 32, v),
            (Ty::F64, _) => self.put(o, off, 8, 64, v),
            (Ty::Vec(cnt, e), V::A(a)) if matches!(self.ty(e), Ty::Int(w) if w % 8 != 0) => {
                let w = self.lo.width(e);
                let mut acc: Option<T> = None;
                for i in 0..cnt as usize {
                    let x = self.t(&a[i], w);
                    acc = Some(match acc {
                        None => x,
                        Some(y) => self.ts.concat(x, y),
                    });
                }
                let tot = w * cnt as u16;
                let k = (tot + 7) / 8 * 8;
                let x = self.ts.zext_to(acc.unwrap(), k);
                let x = if k <= 64 { self.vt(x) } else { V::T(x) };
                self.put(o, off, (k / 8) as usize, k, &x);
            }
            (Ty::Arr(_, e), V::A(a)) | (Ty::Vec(_, e), V::A(a)) => {
                let sz = self.lo.p.types.size(e) as usize;
                for (i, x) in a.iter().enumerate() {
                    self.store_obj(o, off + i * sz, e, x);
                }
            }
            (Ty::Struct(fs, pk), V::A(a)) => {
                for i in 0..fs.len() {
                    let fo = self.lo.p.types.field_off(&fs, pk, i) as usize;
                    self.store_obj(o, off + fo, fs[i], &a[i]);
                }
            }
            _ => self.put(o, off, n, 0, &V::U),
        }
    }
    pub fn store(&mut self, s: &mut State, p: u64, ty: TyId, v: &V) -> R<()> {
        let n = self.lo.p.types.store_size(ty);
        if n == 0 {
            return Ok(());
        }
        let o: *mut Obj;
        let off;
        {
            let (oo, of) = self.objm(s, p, n)?;
            o = oo;
            off = of;
        }
        // the object is uniquely owned by `s`, which is not touched by store_obj
        unsafe { self.store_obj(&mut *o, off, ty, v) };
        Ok(())
    }
    pub fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(s, src, n, "read")?;
        let b = so.b[soff..soff + n as usize].to_vec();
        let t = if so.t.is_empty() { vec![] } else { so.t[soff..soff + n as usize].to_vec() };
        drop(so);
        let (o, off) = self.objm(s, d, n)?;
        o.b[off..off + n as usize].copy_from_slice(&b);
        if t.is_empty() {
            if !o.t.is_empty() {
                o.t[off..off + n as usize].fill(0);
            }
        } else {
            if o.t.is_empty() {
                o.t = vec![0; o.b.len()];
            }
            o.t[off..off + n as usize].copy_from_slice(&t);
        }
        Ok(())
    }
    pub fn fill(&mut self, s: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let tag = match v {
            V::T(t) => KT | *t as u64,
            V::U => UNDEF,
            _ => 0,
        };
        let (o, off) = self.objm(s, d, n)?;
        if let V::I(x) = v {
            o.b[off..off + n as usize].fill(*x as u8);
        }
        if tag != 0 && o.t.is_empty() {
            o.t = vec![0; o.b.len()];
        }
        if !o.t.is_empty() {
            o.t[off..off + n as usize].fill(tag);
        }
        Ok(())
    }
    /// c ? a : b, structurally
    pub fn sel(&mut self, c: T, a: &V, b: &V, ty: TyId) -> V {
        if let Some(x) = self.ts.cv(c) {
            return if x != 0 { a.clone() } else { b.clone() };
        }
        match (a, b) {
            (V::I(x), V::I(y)) if x == y => return a.clone(),
            (V::U, _) => return b.clone(),
            (_, V::U) => return a.clone(),
            _ => {}
        }
        match self.ty(ty) {
            Ty::Int(w) => {
                let x = self.t(a, w as u16);
                let y = self.t(b, w as u16);
                let r = self.ts.ite(c, x, y);
                self.vt(r)
            }
            Ty::Ptr => {
                let x = self.t(a, 64);
                let y = self.t(b, 64);
                let r = self.ts.ite(c, x, y);
                self.vt(r)
            }
            Ty::F32 | Ty::F64 => {
                let w = self.lo.width(ty);
                let x = self.f(a, w);
                let y = self.f(b, w);
                let r = self.ts.fite(c, x, y);
                self.vf(r)
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let v = (0..x.len()).map(|i| self.sel(c, &x[i], &y[i], e)).collect();
                    V::A(Rc::new(v))
                } else {
                    a.clone()
                }
            }
            Ty::Struct(fs, _) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let v = (0..x.len()).map(|i| self.sel(c, &x[i], &y[i], fs[i])).collect();
                    V::A(Rc::new(v))
                } else {
                    a.clone()
                }
            }
            _ => a.clone(),
        }
    }
}
