//! Instruction stepping and path exploration.
use crate::exec::*;
use crate::flt::{FO, FU};
use crate::ir::*;
use crate::lower::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

type R<X> = Result<X, Stop>;
fn mk64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Exec {
    pub fn get(&self, s: &State, o: &O) -> V {
        match o {
            O::R(r) => s.fr.last().unwrap().regs[*r as usize].clone(),
            O::C(v) => v.clone(),
        }
    }
    pub fn set(&self, s: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            s.fr.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    pub fn ev(&mut self, s: &State, t: T) -> u128 {
        let m = s.model.clone();
        self.ts.eval(t, &m)
    }
    /// other direction feasible?
    pub fn feasible(&mut self, s: &State, c: T) -> R<Option<Model>> {
        if let Some(v) = self.ts.cv(c) {
            return Ok(if v != 0 { Some(self.ts.new_model(s.model.vals.clone())) } else { None });
        }
        let n = self.ts.not(c);
        if s.implied.contains(&n) {
            return Ok(None);
        }
        if let Some(r) = self.tt_feasible(s, c) {
            return Ok(r);
        }
        match self.sv.check(&s.pc, c, &mut self.ts) {
            (Ans::Sat, Some(m)) => Ok(Some(m)),
            (Ans::Unsat, _) => Ok(None),
            _ => Err(Stop::Err(format!("solver gave no answer: {:?}", self.sv.errors))),
        }
    }
    /// decide a condition, forking if both sides are feasible; the other side re-executes from
    /// the state as it is now with `c` negated
    pub fn decide(&mut self, s: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.ts.cv(c) {
            return Ok(v != 0);
        }
        let dir = self.ev(s, c) != 0;
        let (mine, other) = if dir { (c, self.ts.not(c)) } else { (self.ts.not(c), c) };
        if s.implied.contains(&mine) {
            return Ok(dir);
        }
        if let Some(m) = self.feasible(s, other)? {
            let mut o = s.clone();
            o.pc.push(other);
            o.implied.insert(other);
            o.model = Rc::new(m);
            self.out.forks += 1;
            self.work.push(o);
            s.pc.push(mine);
        }
        s.implied.insert(mine);
        Ok(dir)
    }
    /// pick a concrete value for a term, forking over the alternatives
    pub fn concretize(&mut self, s: &mut State, v: &V, w: u16) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::U => Err(Stop::Viol("uninitialised value used as an address or size".into())),
            V::T(t) => {
                let t = *t;
                if let Some(x) = s.subst.get(&t) {
                    return Ok(*x);
                }
                // peel off constant arithmetic
                let k = match self.ts.e[t as usize].n.clone() {
                    N::Bin(op @ (Op::Add | Op::Mul | Op::Shl), a, b) if self.ts.cv(b).is_some() => {
                        let aw = self.ts.w(a);
                        let av = self.vt(a);
                        let x = self.concretize(s, &av, aw)?;
                        let kb = self.ts.cv(b).unwrap();
                        Some(eval_bin(op, x as u128, kb, aw) as u64)
                    }
                    N::ZExt(a) => {
                        let aw = self.ts.w(a);
                        let av = self.vt(a);
                        Some(self.concretize(s, &av, aw)?)
                    }
                    N::SExt(a) => {
                        let aw = self.ts.w(a);
                        let av = self.vt(a);
                        let x = self.concretize(s, &av, aw)?;
                        Some(sgn(x as u128, aw) as u64 & mk64(w))
                    }
                    _ => None,
                };
                let k = match k {
                    Some(k) => k,
                    None => {
                        let k = self.ev(s, t) as u64;
                        let kc = self.ts.c(k as u128, w);
                        let c = self.ts.eq(t, kc);
                        self.out.concretized += 1;
                        let r = self.decide(s, c)?;
                        debug_assert!(r);
                        k
                    }
                };
                s.subst.insert(t, k);
                Ok(k)
            }
            _ => Err(Stop::Err("concretize".into())),
        }
    }
    /// restrict the path to `c` (must be decided); violation if its negation is feasible
    pub fn require(&mut self, s: &mut State, c: T, msg: &str) -> R<()> {
        let n = self.ts.not(c);
        if let Some(m) = self.feasible(s, n)? {
            s.pc.push(n);
            s.model = Rc::new(m);
            return Err(Stop::Viol(msg.to_string()));
        }
        s.implied.insert(c);
        Ok(())
    }
    /// possible concrete values of a symbolic pointer with the conditions selecting them
    fn ptr_targets(&mut self, s: &mut State, p: T, n: u64, what: &str) -> R<Option<Vec<(T, u64)>>> {
        if let Some(x) = s.subst.get(&p) {
            return Ok(Some(vec![(1, *x)]));
        }
        let vals = match self.ts.value_set(p, 300) {
            Some(v) => v,
            None => return Ok(None),
        };
        let mut ok = vec![];
        let mut bad = 0;
        for v in vals {
            let k = self.ts.c(v, 64);
            let c = self.ts.eq(p, k);
            if self.in_bounds(s, v as u64, n) {
                ok.push((c, v as u64));
            } else {
                bad = self.ts.or(bad, c);
            }
        }
        if bad != 0 {
            let nb = self.ts.not(bad);
            let m = format!("memory: {} of {} bytes at an out-of-bounds symbolic address", what, n);
            self.require(s, nb, &m)?;
        }
        if ok.len() > 8 {
            // keep the feasible ones only when many
            let keep = ok;
            return Ok(Some(keep));
        }
        Ok(Some(ok))
    }
    pub fn load_v(&mut self, s: &mut State, p: &V, ty: TyId) -> R<V> {
        let n = self.lo.p.types.store_size(ty);
        if n == 0 {
            return self.lo.cval(0, ty, &C::Zero).map_err(Stop::Err);
        }
        match p {
            V::I(a) => self.load(s, *a, ty),
            V::T(t) => {
                let tg = self.ptr_targets(s, *t, n, "read")?;
                match tg {
                    None => {
                        let a = self.concretize(s, p, 64)?;
                        self.load(s, a, ty)
                    }
                    Some(v) => {
                        // table over a single index when everything is constant
                        let mut vals = vec![];
                        for (_, a) in &v {
                            vals.push(self.load(s, *a, ty)?);
                        }
                        if vals.is_empty() {
                            return Err(Stop::End);
                        }
                        if let Some((idx, pt)) = self.ptr_table(*t) {
                            let w = self.lo.width(ty);
                            let isf = matches!(self.lo.p.types.ty(ty), Ty::F32 | Ty::F64);
                            let scal = matches!(self.lo.p.types.ty(ty), Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) && w <= 64;
                            let mut m: HashMap<u64, u128> = HashMap::new();
                            let mut all = scal;
                            for ((_, a), x) in v.iter().zip(vals.iter()) {
                                match x {
                                    V::I(x) => {
                                        m.insert(*a, *x as u128);
                                    }
                                    V::F32(x) => {
                                        m.insert(*a, *x as u128);
                                    }
                                    V::F64(x) => {
                                        m.insert(*a, *x as u128);
                                    }
                                    _ => all = false,
                                }
                            }
                            if all {
                                let any = *m.values().next().unwrap();
                                let tb: Vec<u128> = pt.iter().map(|a| m.get(&(*a as u64)).copied().unwrap_or(any)).collect();
                                return Ok(if isf {
                                    let f = self.ts.ftab(idx, tb, w);
                                    self.vf(f)
                                } else {
                                    let t = self.ts.tab(idx, tb, w);
                                    self.vt(t)
                                });
                            }
                        }
                        let mut r = vals[vals.len() - 1].clone();
                        for i in (0..vals.len() - 1).rev() {
                            r = self.sel(v[i].0, &vals[i], &r, ty);
                        }
                        Ok(r)
                    }
                }
            }
            V::U => Err(Stop::Viol("memory: read through an uninitialised pointer".into())),
            _ => Err(Stop::Err("pointer value".into())),
        }
    }
    fn ptr_table(&mut self, t: T) -> Option<(T, Vec<u128>)> {
        if let Some((i, v)) = self.ts.as_tab(t) {
            return Some((i, (*v).clone()));
        }
        let sup = self.ts.e[t as usize].sup;
        if (sup.0 as usize) < self.ts.vars.len() && (sup.1 as usize) >= self.ts.vars.len() && sup.1 != MANY {
            let vi = self.ts.vars[sup.0 as usize].clone();
            if vi.hi > 1024 {
                return None;
            }
            let mut vals = vec![0u128; self.ts.vars.len()];
            let mut out = vec![];
            for k in 0..=vi.hi {
                vals[sup.0 as usize] = k;
                let m = self.ts.new_model(vals.clone());
                out.push(self.ts.eval(t, &m));
            }
            return Some((vi.term, out));
        }
        None
    }
    pub fn store_v(&mut self, s: &mut State, p: &V, ty: TyId, v: &V) -> R<()> {
        let n = self.lo.p.types.store_size(ty);
        if n == 0 {
            return Ok(());
        }
        match p {
            V::I(a) => self.store(s, *a, ty, v),
            V::T(t) => {
                let tg = self.ptr_targets(s, *t, n, "write")?;
                match tg {
                    Some(tv) if tv.len() <= 300 => {
                        if tv.len() == 1 && tv[0].0 == 1 {
                            return self.store(s, tv[0].1, ty, v);
                        }
                        for (c, a) in tv {
                            let old = self.load(s, a, ty)?;
                            let nv = self.sel(c, v, &old, ty);
                            self.store(s, a, ty, &nv)?;
                        }
                        Ok(())
                    }
                    _ => {
                        let a = self.concretize(s, p, 64)?;
                        self.store(s, a, ty, v)
                    }
                }
            }
            V::U => Err(Stop::Viol("memory: write through an uninitialised pointer".into())),
            _ => Err(Stop::Err("pointer value".into())),
        }
    }
    // ------------------------------------------------------------ arithmetic
    pub fn bin(&mut self, s: &mut State, op: Op, w: u16, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *y == 0 {
                    return Err(Stop::Err("division by zero reached".into()));
                }
                return Ok(V::I(match op {
                    Op::Add => x.wrapping_add(*y) & mk64(w),
                    Op::Sub => x.wrapping_sub(*y) & mk64(w),
                    Op::Mul => x.wrapping_mul(*y) & mk64(w),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    _ => eval_bin(op, *x as u128, *y as u128, w) as u64,
                }));
            }
            (V::A(x), V::A(y)) => {
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(self.bin(s, op, w, &x[i], &y[i])?);
                }
                return Ok(V::A(Rc::new(o)));
            }
            (V::U, V::I(0)) | (V::I(0), V::U) if op == Op::And => return Ok(V::I(0)),
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let x = self.t(a, w);
        let y = self.t(b, w);
        let r = self.ts.bin(op, x, y);
        Ok(self.vt(r))
    }
    pub fn icmp(&mut self, k: u8, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                let (sx, sy) = (sgn(*x as u128, w), sgn(*y as u128, w));
                return V::I(match k {
                    0 => x == y,
                    1 => x != y,
                    2 => x > y,
                    3 => x >= y,
                    4 => x < y,
                    5 => x <= y,
                    6 => sx > sy,
                    7 => sx >= sy,
                    8 => sx < sy,
                    _ => sx <= sy,
                } as u64);
            }
            (V::A(x), V::A(y)) => {
                let v = (0..x.len()).map(|i| self.icmp(k, w, &x[i], &y[i])).collect();
                return V::A(Rc::new(v));
            }
            (V::U, _) | (_, V::U) => return V::U,
            _ => {}
        }
        let x = self.t(a, w);
        let y = self.t(b, w);
        let r = match k {
            0 => self.ts.cmp(Cm::Eq, x, y),
            1 => {
                let e = self.ts.cmp(Cm::Eq, x, y);
                self.ts.not(e)
            }
            2 => self.ts.cmp(Cm::Ult, y, x),
            3 => self.ts.cmp(Cm::Ule, y, x),
            4 => self.ts.cmp(Cm::Ult, x, y),
            5 => self.ts.cmp(Cm::Ule, x, y),
            6 => self.ts.cmp(Cm::Slt, y, x),
            7 => self.ts.cmp(Cm::Sle, y, x),
            8 => self.ts.cmp(Cm::Slt, x, y),
            _ => self.ts.cmp(Cm::Sle, x, y),
        };
        self.vt(r)
    }
    pub fn fbin(&mut self, op: FO, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return V::F32(crate::flt::nat_bin(op, *x as u64, *y as u64, 32) as u32),
            (V::F64(x), V::F64(y)) => return V::F64(crate::flt::nat_bin(op, *x, *y, 64)),
            (V::A(x), V::A(y)) => {
                let v = (0..x.len()).map(|i| self.fbin(op, w, &x[i], &y[i])).collect();
                return V::A(Rc::new(v));
            }
            (V::U, _) | (_, V::U) => return V::U,
            _ => {}
        }
        let x = self.f(a, w);
        let y = self.f(b, w);
        let r = self.ts.fbin(op, x, y);
        self.vf(r)
    }
    pub fn fun(&mut self, op: FU, w: u16, a: &V) -> V {
        match a {
            V::A(x) => {
                let v = (0..x.len()).map(|i| self.fun(op, w, &x[i])).collect();
                V::A(Rc::new(v))
            }
            V::U => V::U,
            _ => {
                let x = self.f(a, w);
                let r = self.ts.fun(op, x);
                self.vf(r)
            }
        }
    }
    pub fn fcmp(&mut self, k: u8, w: u16, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) {
            let v = (0..x.len()).map(|i| self.fcmp(k, w, &x[i], &y[i])).collect();
            return V::A(Rc::new(v));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return V::U;
        }
        use crate::term::FCm::*;
        let x = self.f(a, w);
        let y = self.f(b, w);
        let ts = &mut self.ts;
        // 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 ueq,9 ugt,10 uge,11 ult,12 ule,13 une,14 uno,15 true
        let r = match k {
            0 => 0,
            1 => ts.fcmp(Eq, x, y),
            2 => ts.fcmp(Lt, y, x),
            3 => ts.fcmp(Le, y, x),
            4 => ts.fcmp(Lt, x, y),
            5 => ts.fcmp(Le, x, y),
            6 => {
                let a = ts.fcmp(Lt, x, y);
                let b = ts.fcmp(Lt, y, x);
                ts.or(a, b)
            }
            7 => {
                let u = ts.fcmp(Uno, x, y);
                ts.not(u)
            }
            8 => {
                let e = ts.fcmp(Eq, x, y);
                let u = ts.fcmp(Uno, x, y);
                ts.or(e, u)
            }
            9 => {
                let e = ts.fcmp(Le, x, y);
                ts.not(e)
            }
            10 => {
                let e = ts.fcmp(Lt, x, y);
                ts.not(e)
            }
            11 => {
                let e = ts.fcmp(Le, y, x);
                ts.not(e)
            }
            12 => {
                let e = ts.fcmp(Lt, y, x);
                ts.not(e)
            }
            13 => {
                let e = ts.fcmp(Eq, x, y);
                ts.not(e)
            }
            14 => ts.fcmp(Uno, x, y),
            _ => 1,
        };
        self.vt(r)
    }
    pub fn cast(&mut self, k: CK, from: TyId, to: TyId, a: &V) -> R<V> {
        if k == CK::Bit {
            return self.bitcast(from, to, a);
        }
        if let V::A(x) = a {
            let (fe, te) = (self.elem(from), self.elem(to));
            let mut o = vec![];
            for e in x.iter() {
                o.push(self.cast(k, fe, te, e)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if matches!(a, V::U) {
            return Ok(V::U);
        }
        let (fw, tw) = (self.lo.width(from), self.lo.width(to));
        Ok(match k {
            CK::Trunc | CK::ZExt | CK::Ptr => match a {
                V::I(x) if tw <= 64 => V::I(x & mk64(tw)),
                _ => {
                    let t = self.t(a, fw);
                    let r = self.ts.zext_to(t, tw);
                    self.vt(r)
                }
            },
            CK::SExt => match a {
                V::I(x) if tw <= 64 => V::I(sgn(*x as u128, fw) as u64 & mk64(tw)),
                _ => {
                    let t = self.t(a, fw);
                    let r = self.ts.sext_to(t, tw);
                    self.vt(r)
                }
            },
            CK::FPTrunc | CK::FPExt => {
                let f = self.f(a, fw);
                let r = self.ts.fcast(f, tw);
                self.vf(r)
            }
            CK::FPToUI | CK::FPToSI => {
                let f = self.f(a, fw);
                let r = self.ts.ftoi(f, k == CK::FPToSI, tw);
                self.vt(r)
            }
            CK::UIToFP | CK::SIToFP => {
                let t = self.t(a, fw);
                let r = if self.ts.cv(t).is_some() {
                    let b = crate::flt::itof_nat(self.ts.cv(t).unwrap(), fw, k == CK::SIToFP, tw);
                    self.ts.fc(b, tw)
                } else {
                    self.ts.itof(t, k == CK::SIToFP, tw)
                };
                self.vf(r)
            }
            CK::Bit => unreachable!(),
        })
    }
    pub fn elem(&self, t: TyId) -> TyId {
        match self.lo.p.types.ty(t) {
            Ty::Vec(_, e) => *e,
            _ => t,
        }
    }
    fn bitcast(&mut self, from: TyId, to: TyId, a: &V) -> R<V> {
        let fv = matches!(self.lo.p.types.ty(from), Ty::Vec(..));
        let tv = matches!(self.lo.p.types.ty(to), Ty::Vec(..));
        let ff = matches!(self.lo.p.types.ty(from), Ty::F32 | Ty::F64);
        let tf = matches!(self.lo.p.types.ty(to), Ty::F32 | Ty::F64);
        if !fv && !tv {
            if matches!(a, V::U) {
                return Ok(V::U);
            }
            if ff && !tf {
                let w = self.lo.width(from);
                let t = self.t(a, w);
                return Ok(self.vt(t));
            }
            if tf && !ff {
                let w = self.lo.width(to);
                let f = self.f(a, w);
                return Ok(self.vf(f));
            }
            return Ok(a.clone());
        }
        // flatten to (bits) list
        let (fe, te) = (self.elem(from), self.elem(to));
        let (fw, tw) = (self.lo.width(fe), self.lo.width(te));
        let src: Vec<V> = match a {
            V::A(v) => (**v).clone(),
            v => vec![v.clone()],
        };
        let n_to = match self.lo.p.types.ty(to) {
            Ty::Vec(n, _) => *n as usize,
            _ => 1,
        };
        let mut out = vec![];
        let tef = matches!(self.lo.p.types.ty(te), Ty::F32 | Ty::F64);
        for i in 0..n_to {
            let lo = i * tw as usize;
            let v = if fw == tw {
                src[i].clone()
            } else if fw > tw {
                let e = &src[lo / fw as usize];
                match e {
                    V::U => V::U,
                    V::I(x) => V::I((x >> (lo % fw as usize)) & mk64(tw)),
                    _ => {
                        let t = self.t(e, fw);
                        let r = self.ts.ext((lo % fw as usize) as u16, t, tw);
                        self.vt(r)
                    }
                }
            } else {
                let k = (tw / fw) as usize;
                let mut acc: Option<T> = None;
                let mut und = 0;
                for j in 0..k {
                    let e = &src[i * k + j];
                    if matches!(e, V::U) {
                        und += 1;
                    }
                    let t = self.t(e, fw);
                    acc = Some(match acc {
                        None => t,
                        Some(a) => self.ts.concat(t, a),
                    });
                }
                if und == k {
                    V::U
                } else {
                    let t = acc.unwrap();
                    if tw <= 64 {
                        self.vt(t)
                    } else {
                        V::T(t)
                    }
                }
            };
            let v = if tef && !matches!(v, V::U) {
                let f = self.f(&v, tw);
                self.vf(f)
            } else if !tef && matches!(v, V::F(_) | V::F32(_) | V::F64(_)) {
                let t = self.t(&v, tw);
                self.vt(t)
            } else {
                v
            };
            out.push(v);
        }
        Ok(if tv { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }
    // ------------------------------------------------------------ control flow
    fn phis(&mut self, s: &mut State, from: u32, to: u32) -> R<Vec<(u32, TyId, V)>> {
        let f = s.fr.last().unwrap().f.clone();
        let mut vals = vec![];
        for (d, t, inc) in &f.blocks[to as usize].phis {
            let o = inc.iter().find(|(b, _)| *b == from).ok_or_else(|| Stop::Err(format!("phi without predecessor in {}", f.name)))?;
            vals.push((*d, *t, self.get(s, &o.1)));
        }
        Ok(vals)
    }
    pub fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let from = s.fr.last().unwrap().blk;
        let vals = self.phis(s, from, to)?;
        let fr = s.fr.last_mut().unwrap();
        for (d, _, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    /// execute both sides of a short branch and merge; true if done
    pub fn merge(&mut self, s: &mut State, c: T, a: u32, b: u32) -> R<bool> {
        let f = s.fr.last().unwrap().f.clone();
        let cur = s.fr.last().unwrap().blk;
        let (sa, sb) = (f.blocks[a as usize].spec, f.blocks[b as usize].spec);
        let join;
        let (ra, rb);
        if sa == Some(b) {
            join = b;
            ra = true;
            rb = false;
        } else if sb == Some(a) {
            join = a;
            ra = false;
            rb = true;
        } else if sa.is_some() && sa == sb {
            join = sa.unwrap();
            ra = true;
            rb = true;
        } else {
            return Ok(false);
        }
        if join == cur || a == cur || b == cur {
            return Ok(false);
        }
        // a join without phis would gain nothing but is still fine
        let side = |me: &mut Exec, s: &mut State, run: bool, blk: u32| -> R<Vec<(u32, TyId, V)>> {
            if !run {
                return me.phis(s, cur, join);
            }
            let vals = me.phis(s, cur, blk)?;
            {
                let fr = s.fr.last_mut().unwrap();
                for (d, _, v) in vals {
                    fr.regs[d as usize] = v;
                }
                fr.blk = blk;
                fr.ip = 0;
            }
            let n = f.blocks[blk as usize].ins.len();
            for i in 0..n - 1 {
                s.fr.last_mut().unwrap().ip = i as u32;
                me.step(s)?;
            }
            me.phis(s, blk, join)
        };
        let save_ip = s.fr.last().unwrap().ip;
        let va = side(self, s, ra, a);
        let vb = if va.is_ok() { side(self, s, rb, b) } else { Err(Stop::End) };
        {
            let fr = s.fr.last_mut().unwrap();
            fr.blk = cur;
            fr.ip = save_ip;
        }
        let (va, vb) = match (va, vb) {
            (Ok(x), Ok(y)) => (x, y),
            _ => return Ok(false),
        };
        let mut out = vec![];
        for ((d, t, x), (_, _, y)) in va.into_iter().zip(vb.into_iter()) {
            out.push((d, self.sel(c, &x, &y, t)));
        }
        let fr = s.fr.last_mut().unwrap();
        for (d, v) in out {
            fr.regs[d as usize] = v;
        }
        fr.blk = join;
        fr.ip = 0;
        Ok(true)
    }
}
