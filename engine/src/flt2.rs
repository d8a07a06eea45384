//! Floating-point constructors, comparison, conversion, evaluation, closeness.
use crate::flt::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rnd {
    Trunc,
    Floor,
    Ceil,
    HalfAway,
    HalfEven,
}

impl Terms {
    fn pol(&self, f: F) -> Option<Rc<Poly>> {
        match self.fl.e[f as usize].n {
            FN::Poly(p) => Some(self.fl.polys[p as usize].clone()),
            FN::C(b) => Poly::cst(b, self.fl.e[f as usize].w).map(Rc::new),
            _ => None,
        }
    }
    pub fn fite(&mut self, c: T, a: F, b: F) -> F {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(d) = self.e[c as usize].n {
            return self.fite(d, b, a);
        }
        let w = self.fl.w(a);
        if let Some((i, _)) = self.as_tab(c) {
            let n = FN::Ite(c, a, b);
            let tmp = self.fmk_pub(n, w);
            if let Some((_, v)) = self.tabview(tmp) {
                return self.ftab(i, v, w);
            }
        }
        if let (Some(p), Some(q)) = (self.pol(a), self.pol(b)) {
            let e = p.e.max(q.e);
            // numerators at a common exponent
            let s = |p: &Poly| p.mul(&Poly { e: 0, c: 1i128 << (e - p.e), t: vec![] });
            if e < 64 {
                if let (Some(mut p2), Some(mut q2)) = (s(&p), s(&q)) {
                    // factor common exponent
                    p2.e = 0;
                    q2.e = 0;
                    let (k1, k2) = (p2.clone(), q2.clone());
                    let _ = (&k1, &k2);
                    if let (Some(x), Some(y)) = (self.poly_bv_scaled(&p, e), self.poly_bv_scaled(&q, e)) {
                        let w1 = self.w(x).max(self.w(y));
                        if w1 <= 64 {
                            let x = self.sext_to(x, w1);
                            let y = self.sext_to(y, w1);
                            let t = self.ite(c, x, y);
                            let mut r = self.intview(t, true);
                            r.e += e;
                            if let Some(f) = self.mkpoly_pub(norm(r), w) {
                                return f;
                            }
                        }
                    }
                }
            }
        }
        let f = self.fmk_pub(FN::Ite(c, a, b), w);
        self.flat(f)
    }
    fn poly_bv_scaled(&mut self, p: &Poly, e: u32) -> Option<T> {
        let s = 1i128.checked_shl(e - p.e)?;
        let mut q = Poly { e: 0, c: p.c.checked_mul(s)?, t: vec![] };
        for (k, v) in &p.t {
            q.t.push((k.clone(), v.checked_mul(s)?));
        }
        self.poly_bv(&q)
    }
    pub fn fbin(&mut self, op: FO, a: F, b: F) -> F {
        let w = self.fl.w(a);
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            return self.fc(nat_bin(op, x, y, w), w);
        }
        // identities valid up to the sign of zero
        let cb = self.fconst(b).map(|x| to_f64(x, w));
        let ca = self.fconst(a).map(|x| to_f64(x, w));
        match op {
            FO::Add if cb == Some(0.0) => return a,
            FO::Add if ca == Some(0.0) => return b,
            FO::Sub if cb == Some(0.0) => return a,
            FO::Mul | FO::Div if cb == Some(1.0) => return a,
            FO::Mul if ca == Some(1.0) => return b,
            FO::Pow if cb == Some(1.0) => return a,
            FO::Sub if a == b && self.fl.range(a).map_or(false, |r| r.0.is_finite() && r.1.is_finite()) => return self.fc(0, w),
            FO::Mul if cb == Some(0.0) && self.fl.range(a).map_or(false, |r| r.0.is_finite() && r.1.is_finite()) => return self.fc(0, w),
            FO::Mul if ca == Some(0.0) && self.fl.range(b).map_or(false, |r| r.0.is_finite() && r.1.is_finite()) => return self.fc(0, w),
            _ => {}
        }
        if matches!(op, FO::Min | FO::Max) {
            let nn = self.fl.e[a as usize].nn && self.fl.e[b as usize].nn;
            if nn {
                let c = self.fcmp(FCm::Lt, a, b);
                return if op == FO::Min { self.fite(c, a, b) } else { self.fite(c, b, a) };
            }
            // NaN-aware: min(a,b) = if a is NaN then b, else if b is NaN or a<b then a else b
            let una = self.fcmp(FCm::Uno, a, a);
            let unb = self.fcmp(FCm::Uno, b, b);
            let c = if op == FO::Min { self.fcmp(FCm::Lt, a, b) } else { self.fcmp(FCm::Lt, b, a) };
            let c = self.or(c, unb);
            let r = self.fite(c, a, b);
            return self.fite(una, b, r);
        }
        if matches!(op, FO::Add | FO::Sub | FO::Mul) {
            if let (Some(p), Some(q)) = (self.pol(a), self.pol(b)) {
                let r = match op {
                    FO::Add => p.add(&q, false),
                    FO::Sub => p.add(&q, true),
                    _ => p.mul(&q),
                };
                if let Some(r) = r {
                    if let Some(f) = self.mkpoly_pub(r, w) {
                        self.tighten(f, op, a, b);
                        return f;
                    }
                }
            }
        }
        if op == FO::Div {
            if let Some(d) = cb {
                let inv = 1.0 / d;
                if d != 0.0 && d.is_finite() && (d.to_bits() & ((1 << 52) - 1)) == 0 && inv.is_finite() && inv.abs() > 1e-30 {
                    let k = self.fc(of_f64(inv, w), w);
                    return self.fbin(FO::Mul, a, k);
                }
            }
        }
        // tables
        if let Some(f) = self.ftab2(op, a, b, w) {
            return f;
        }
        let (a, b) = if matches!(op, FO::Add | FO::Mul) && a > b { (b, a) } else { (a, b) };
        let f = self.fmk_pub(FN::Bin(op, a, b), w);
        self.flat(f)
    }
    /// a residual operation over one or two small inputs becomes a table, by evaluation
    pub fn flat(&mut self, f: F) -> F {
        if matches!(self.fl.e[f as usize].n, FN::C(_) | FN::Tab(..) | FN::Poly(_)) {
            return f;
        }
        if let Some(&g) = self.fl.flats.get(&f) {
            return g;
        }
        let g = match self.flat_tab(f) {
            Some((i, v)) => {
                let w = self.fl.w(f);
                let g = self.ftab(i, v, w);
                if matches!(self.fl.e[g as usize].n, FN::Tab(..)) && !self.fl.lins.contains_key(&g) {
                    let n = self.fl.e[f as usize].n.clone();
                    if let Some(l) = self.lin_bin(&n, w) {
                        let (lo, hi) = (self.fl.e[g as usize].lo, self.fl.e[g as usize].hi);
                        let l = self.rounded(l, lo.abs().max(hi.abs()), w);
                        self.fl.lins.insert(g, Rc::new(l));
                    }
                }
                g
            }
            None => f,
        };
        self.fl.flats.insert(f, g);
        g
    }
    /// the inputs a term depends on, if they are at most two with few combinations
    fn flat_bases(&self, sup: (u32, u32)) -> Option<Vec<T>> {
        let mut n = 1u128;
        let mut r = vec![];
        for v in [sup.0, sup.1] {
            if v == MANY {
                return None;
            }
            if let Some(i) = self.vars.get(v as usize) {
                n = n.checked_mul(i.hi + 1)?;
                r.push(i.term);
            }
        }
        r.sort();
        if r.is_empty() || n > self.fl.jcap as u128 {
            return None;
        }
        Some(r)
    }
    pub fn flat_tab(&mut self, f: F) -> Option<(T, Vec<u128>)> {
        let bs = self.flat_bases(self.fl.sup(f))?;
        let idx = self.joint_pub(&bs)?;
        let v = self.flat_vals(&bs, &mut |t, m| t.feval(f, m) as u128);
        Some((idx, v))
    }
    fn flat_vals(&mut self, bs: &[T], g: &mut dyn FnMut(&mut Terms, &Model) -> u128) -> Vec<u128> {
        let mut vals = vec![0u128; self.vars.len()];
        let dims: Vec<(usize, u128)> = bs
            .iter()
            .map(|b| match self.e[*b as usize].n {
                N::Var(v) => (v as usize, self.vars[v as usize].hi),
                _ => unreachable!(),
            })
            .collect();
        let mut out = vec![];
        loop {
            let m = self.new_model(vals.clone());
            out.push(g(self, &m));
            let mut k = dims.len();
            loop {
                if k == 0 {
                    return out;
                }
                k -= 1;
                let (v, hi) = dims[k];
                if vals[v] < hi {
                    vals[v] += 1;
                    break;
                }
                vals[v] = 0;
            }
        }
    }
    fn flat_cmp(&mut self, c: T) -> T {
        if self.cv(c).is_some() || self.as_tab(c).is_some() {
            return c;
        }
        let bs = match self.flat_bases(self.e[c as usize].sup) {
            Some(b) => b,
            None => return c,
        };
        let idx = match self.joint_pub(&bs) {
            Some(i) => i,
            None => return c,
        };
        let w = self.w(c);
        let v = self.flat_vals(&bs, &mut |t, m| t.eval(c, m));
        self.tab(idx, v, w)
    }
    fn small(&self, f: F) -> bool {
        // cheap test before building a table view
        match self.fl.e[f as usize].n {
            FN::C(_) | FN::Tab(..) | FN::Poly(_) => true,
            FN::Ite(c, _, _) => self.as_tab(c).is_some(),
            _ => false,
        }
    }
    fn ftab2(&mut self, op: FO, a: F, b: F, w: u16) -> Option<F> {
        if !self.small(a) || !self.small(b) {
            return None;
        }
        let va = if let Some(c) = self.fconst(a) { None.or(Some((0, vec![c as u128]))).map(|x: (T, Vec<u128>)| (None, x.1)) } else { self.tabview(a).map(|(i, v)| (Some(i), v)) }?;
        let vb = if let Some(c) = self.fconst(b) { Some((None, vec![c as u128])) } else { self.tabview(b).map(|(i, v)| (Some(i), v)) }?;
        let (idx, xa, xb) = self.align(va, vb)?;
        let v: Vec<u128> = xa.iter().zip(xb.iter()).map(|(x, y)| nat_bin(op, *x as u64, *y as u64, w) as u128).collect();
        let f = self.ftab(idx, v, w);
        // remember a linear derivation
        if !self.fl.lins.contains_key(&f) && matches!(self.fl.e[f as usize].n, FN::Tab(..)) {
            let tmp = FN::Bin(op, a, b);
            if let Some(l) = self.lin_bin(&tmp, w) {
                let (lo, hi) = (self.fl.e[f as usize].lo, self.fl.e[f as usize].hi);
                let l = self.rounded(l, lo.abs().max(hi.abs()), w);
                self.fl.lins.insert(f, Rc::new(l));
            }
        }
        Some(f)
    }
    fn align(&mut self, a: (Option<T>, Vec<u128>), b: (Option<T>, Vec<u128>)) -> Option<(T, Vec<u128>, Vec<u128>)> {
        match (a.0, b.0) {
            (Some(i), Some(j)) if i == j => {
                let n = a.1.len().min(b.1.len());
                Some((i, a.1[..n].to_vec(), b.1[..n].to_vec()))
            }
            (Some(i), None) => {
                let n = a.1.len();
                Some((i, a.1, vec![b.1[0]; n]))
            }
            (None, Some(i)) => {
                let n = b.1.len();
                Some((i, vec![a.1[0]; n], b.1))
            }
            (Some(i), Some(j)) => {
                let (bi, bj) = (self.bases_pub(i), self.bases_pub(j));
                let mut all = bi.clone();
                for x in &bj {
                    if !all.contains(x) {
                        all.push(*x);
                    }
                }
                all.sort();
                let idx = self.joint_pub(&all)?;
                let xa = self.lift_pub(&a.1, &bi, &all);
                let xb = self.lift_pub(&b.1, &bj, &all);
                Some((idx, xa, xb))
            }
            _ => None,
        }
    }
    /// the expanded polynomial `f` equals `a op b` exactly, so the operands' ranges bound it as well
    fn tighten(&mut self, f: F, op: FO, a: F, b: F) {
        let (x, y) = (self.fl.e[a as usize].clone(), self.fl.e[b as usize].clone());
        if !(x.lo.is_finite() && x.hi.is_finite() && y.lo.is_finite() && y.hi.is_finite()) {
            return;
        }
        let (mut lo, hi) = match op {
            FO::Add => (x.lo + y.lo, x.hi + y.hi),
            FO::Sub => (x.lo - y.hi, x.hi - y.lo),
            _ => {
                let c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi];
                (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
            }
        };
        if op == FO::Mul && a == b {
            lo = lo.max(0.0);
        }
        let e = &mut self.fl.e[f as usize];
        if matches!(e.n, FN::Poly(_)) {
            e.lo = e.lo.max(lo);
            e.hi = e.hi.min(hi);
        }
    }
    pub fn fun(&mut self, op: FU, a: F) -> F {
        let w = self.fl.w(a);
        if let Some(x) = self.fconst(a) {
            return self.fc(nat_un(op, x, w), w);
        }
        let ent = self.fl.e[a as usize].clone();
        match op {
            FU::Neg => {
                if let Some(p) = self.pol(a) {
                    let q = Poly { e: p.e, c: -p.c, t: p.t.iter().map(|(k, v)| (k.clone(), -*v)).collect() };
                    if let Some(f) = self.mkpoly_pub(q, w) {
                        return f;
                    }
                }
                if let FN::Un(FU::Neg, x) = ent.n {
                    return x;
                }
            }
            FU::Abs => {
                if ent.nn && ent.lo >= 0.0 {
                    return a;
                }
                if let FN::Poly(_) = ent.n {
                    let z = self.fc(0, w);
                    let c = self.fcmp(FCm::Lt, a, z);
                    let n = self.fun(FU::Neg, a);
                    return self.fite(c, n, a);
                }
            }
            FU::Round | FU::Floor | FU::Ceil | FU::Trunc | FU::RoundEven => {
                if let FN::Poly(p) = ent.n {
                    let p = self.fl.polys[p as usize].clone();
                    if p.e == 0 {
                        return a;
                    }
                    let r = match op {
                        FU::Round => Rnd::HalfAway,
                        FU::Floor => Rnd::Floor,
                        FU::Ceil => Rnd::Ceil,
                        FU::RoundEven => Rnd::HalfEven,
                        _ => Rnd::Trunc,
                    };
                    if let Some(t) = self.poly_round(&p, r) {
                        let q = self.intview(t, true);
                        if let Some(f) = self.mkpoly_pub(q, w) {
                            return f;
                        }
                    }
                }
                if let FN::Un(FU::Round | FU::Floor | FU::Ceil | FU::Trunc | FU::RoundEven, _) = ent.n {
                    return a;
                }
            }
            _ => {}
        }
        if self.small(a) {
            if let Some((i, v)) = self.tabview(a) {
                let v = v.iter().map(|x| nat_un(op, *x as u64, w) as u128).collect();
                let f = self.ftab(i, v, w);
                if op == FU::Neg && !self.fl.lins.contains_key(&f) {
                    if let Some(l) = self.lin(a) {
                        let mut l = (*l).clone();
                        l.c = -l.c;
                        for v in l.t.values_mut() {
                            *v = -*v;
                        }
                        self.fl.lins.insert(f, Rc::new(l));
                    }
                }
                return f;
            }
        }
        let f = self.fmk_pub(FN::Un(op, a), w);
        self.flat(f)
    }
    /// round the value of p to an integer; result is a signed BV
    fn poly_round(&mut self, p: &Poly, r: Rnd) -> Option<T> {
        let n = self.poly_bv(p)?;
        let w = self.w(n);
        if w > 64 || p.e as u16 + 1 >= w {
            return None;
        }
        if p.e == 0 {
            return Some(n);
        }
        let (lo, hi) = self.poly_range(p)?;
        // widen if adding the half would overflow
        let half = 1i128 << (p.e - 1);
        let (n, w) = if hi + half >= 1i128 << (w - 1) || lo - half < -(1i128 << (w - 1)) {
            if w >= 64 {
                return None;
            }
            (self.sext(n, w * 2), w * 2)
        } else {
            (n, w)
        };
        let sh = self.c(p.e as u128, w);
        let z = self.c(0, w);
        let neg = self.cmp(Cm::Slt, n, z);
        let neg = if lo >= 0 { 0 } else { neg };
        Some(match r {
            Rnd::Floor => self.bin(Op::AShr, n, sh),
            Rnd::Ceil => {
                let k = self.c(((1u128 << p.e) - 1) as u128, w);
                let s = self.bin(Op::Add, n, k);
                self.bin(Op::AShr, s, sh)
            }
            Rnd::Trunc | Rnd::HalfAway => {
                let h = self.c(if r == Rnd::Trunc { 0 } else { half as u128 }, w);
                let pos = self.bin(Op::Add, n, h);
                let pos = self.bin(Op::AShr, pos, sh);
                if neg == 0 {
                    return Some(pos);
                }
                let m = self.bin(Op::Sub, z, n);
                let m = self.bin(Op::Add, m, h);
                let m = self.bin(Op::AShr, m, sh);
                let m = self.bin(Op::Sub, z, m);
                self.ite(neg, m, pos)
            }
            Rnd::HalfEven => {
                let h1 = self.c((half - 1) as u128, w);
                let odd = self.bin(Op::AShr, n, sh);
                let one = self.c(1, w);
                let odd = self.bin(Op::And, odd, one);
                let s = self.bin(Op::Add, n, h1);
                let s = self.bin(Op::Add, s, odd);
                self.bin(Op::AShr, s, sh)
            }
        })
    }
    pub fn fcast(&mut self, a: F, w: u16) -> F {
        let aw = self.fl.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.fconst(a) {
            return self.fc(of_f64(to_f64(x, aw), w), w);
        }
        match self.fl.e[a as usize].n.clone() {
            FN::Poly(p) => {
                let p = (*self.fl.polys[p as usize]).clone();
                if let Some(f) = self.mkpoly_pub(p, w) {
                    return f;
                }
            }
            FN::Cast(b) if w < aw && self.fl.w(b) == w => return b,
            FN::Ite(c, x, y) => {
                let x = self.fcast(x, w);
                let y = self.fcast(y, w);
                return self.fite(c, x, y);
            }
            FN::IToF(t, sg) if w < aw => {
                // double rounding only matters if the first conversion is inexact
                let tw = self.w(t);
                if aw == 64 && tw <= 53 {
                    return self.itof(t, sg, w);
                }
            }
            _ => {}
        }
        if self.small(a) {
            if let Some((i, v)) = self.tabview(a) {
                let v = v.iter().map(|x| of_f64(to_f64(*x as u64, aw), w) as u128).collect();
                let f = self.ftab(i, v, w);
                if !self.fl.lins.contains_key(&f) {
                    if let Some(l) = self.lin(a) {
                        let e = &self.fl.e[f as usize];
                        let m = e.lo.abs().max(e.hi.abs());
                        let l = self.rounded((*l).clone(), m, w);
                        self.fl.lins.insert(f, Rc::new(l));
                    }
                }
                return f;
            }
        }
        let f = self.fmk_pub(FN::Cast(a), w);
        self.flat(f)
    }
    /// comparison; false if unordered
    pub fn fcmp(&mut self, c: FCm, a: F, b: F) -> T {
        let w = self.fl.w(a);
        let (ea, eb) = (self.fl.e[a as usize].clone(), self.fl.e[b as usize].clone());
        let nn = ea.nn && eb.nn;
        if c == FCm::Uno {
            if nn {
                return 0;
            }
            if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
                return (to_f64(x, w).is_nan() || to_f64(y, w).is_nan()) as T;
            }
            let (a, b) = if ea.nn {
                (b, b)
            } else if eb.nn {
                (a, a)
            } else {
                (a, b)
            };
            return self.mk_pub(N::FCmp(c, a, b), 1);
        }
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            let (x, y) = (to_f64(x, w), to_f64(y, w));
            return (match c {
                FCm::Eq => x == y,
                FCm::Lt => x < y,
                _ => x <= y,
            }) as T;
        }
        if nn {
            if a == b {
                return (c != FCm::Lt) as T;
            }
            match c {
                FCm::Eq => {
                    if ea.hi < eb.lo || eb.hi < ea.lo {
                        return 0;
                    }
                }
                FCm::Lt => {
                    if ea.hi < eb.lo {
                        return 1;
                    }
                    if ea.lo >= eb.hi {
                        return 0;
                    }
                }
                _ => {
                    if ea.hi <= eb.lo {
                        return 1;
                    }
                    if ea.lo > eb.hi {
                        return 0;
                    }
                }
            }
        }
        // polynomials
        if let (Some(p), Some(q)) = (self.pol(a), self.pol(b)) {
            let d = if q.t.is_empty() && q.e > p.e {
                // compare the numerator with an integer threshold
                let sh = q.e - p.e;
                let fl = q.c >> sh;
                let exact = (fl << sh) == q.c;
                match c {
                    FCm::Eq if !exact => return 0,
                    // N < q  <=>  N <= ceil(q)-1 <=> N < ceil(q)
                    FCm::Lt => Some((norm2(&p, -(if exact { fl } else { fl + 1 })), FCm::Lt)),
                    // N <= q <=> N <= floor(q)
                    _ => Some((norm2(&p, -fl), c)),
                }
            } else if p.t.is_empty() && p.e > q.e {
                let sh = p.e - q.e;
                let fl = p.c >> sh;
                let exact = (fl << sh) == p.c;
                match c {
                    FCm::Eq if !exact => return 0,
                    // p < N <=> floor(p) < N ; d = floor - N < 0
                    FCm::Lt => Some((neg2(&q, fl), FCm::Lt)),
                    // p <= N <=> ceil(p) <= N
                    _ => Some((neg2(&q, if exact { fl } else { fl + 1 }), c)),
                }
            } else {
                p.add(&q, true).map(|mut d| {
                    d.e = 0;
                    (d, c)
                })
            };
            if let Some((d, c)) = d {
                // divide by the common content
                let d = content(d, c);
                if let Some((lo, hi)) = self.poly_range(&d) {
                    match c {
                        FCm::Eq if lo > 0 || hi < 0 => return 0,
                        FCm::Lt if hi < 0 => return 1,
                        FCm::Lt if lo >= 0 => return 0,
                        FCm::Le if hi <= 0 => return 1,
                        FCm::Le if lo > 0 => return 0,
                        _ => {}
                    }
                }
                if d.t.is_empty() {
                    return (match c {
                        FCm::Eq => d.c == 0,
                        FCm::Lt => d.c < 0,
                        _ => d.c <= 0,
                    }) as T;
                }
                // sum of the positive terms against the negative ones keeps comparisons simple
                let mut pos = Poly { e: 0, c: d.c.max(0), t: vec![] };
                let mut neg = Poly { e: 0, c: (-d.c).max(0), t: vec![] };
                for (k, v) in &d.t {
                    if *v > 0 {
                        pos.t.push((k.clone(), *v));
                    } else {
                        neg.t.push((k.clone(), -*v));
                    }
                }
                if let (Some(x), Some(y)) = (self.poly_bv(&pos), self.poly_bv(&neg)) {
                    let ww = self.w(x).max(self.w(y));
                    let x = self.sext_to(x, ww);
                    let y = self.sext_to(y, ww);
                    return match c {
                        FCm::Eq => self.cmp(Cm::Eq, x, y),
                        FCm::Lt => self.cmp(Cm::Slt, x, y),
                        _ => self.cmp(Cm::Sle, x, y),
                    };
                }
            }
        }
        if self.small(a) && self.small(b) {
            let va = match self.fconst(a) {
                Some(c) => Some((None, vec![c as u128])),
                None => self.tabview(a).map(|(i, v)| (Some(i), v)),
            };
            let vb = match self.fconst(b) {
                Some(c) => Some((None, vec![c as u128])),
                None => self.tabview(b).map(|(i, v)| (Some(i), v)),
            };
            if let (Some(va), Some(vb)) = (va, vb) {
                // same strictly increasing table over two indices
                if let (Some(i), Some(j)) = (va.0, vb.0) {
                    if i != j && va.1 == vb.1 && va.1.windows(2).all(|p| to_f64(p[0] as u64, w) < to_f64(p[1] as u64, w)) {
                        let k = self.w(i).max(self.w(j));
                        let x = self.zext_to(i, k);
                        let y = self.zext_to(j, k);
                        return match c {
                            FCm::Eq => self.cmp(Cm::Eq, x, y),
                            FCm::Lt => self.cmp(Cm::Ult, x, y),
                            _ => self.cmp(Cm::Ule, x, y),
                        };
                    }
                }
                if let Some((idx, x, y)) = self.align(va, vb) {
                    let v: Vec<u128> = x
                        .iter()
                        .zip(y.iter())
                        .map(|(x, y)| {
                            let (x, y) = (to_f64(*x as u64, w), to_f64(*y as u64, w));
                            (match c {
                                FCm::Eq => x == y,
                                FCm::Lt => x < y,
                                _ => x <= y,
                            }) as u128
                        })
                        .collect();
                    return self.tab(idx, v, 1);
                }
            }
        }
        if let FN::Ite(cc, x, y) = ea.n {
            if self.fconst(b).is_some() || self.fconst(x).is_some() || self.fconst(y).is_some() {
                let x = self.fcmp(c, x, b);
                let y = self.fcmp(c, y, b);
                return self.ite(cc, x, y);
            }
        }
        if let FN::Ite(cc, x, y) = eb.n {
            if self.fconst(a).is_some() || self.fconst(x).is_some() || self.fconst(y).is_some() {
                let x = self.fcmp(c, a, x);
                let y = self.fcmp(c, a, y);
                return self.ite(cc, x, y);
            }
        }
        let (a, b) = if c == FCm::Eq && a > b { (b, a) } else { (a, b) };
        let r = self.mk_pub(N::FCmp(c, a, b), 1);
        self.flat_cmp(r)
    }
    /// saturating conversion to an integer of width w
    pub fn ftoi(&mut self, f: F, sg: bool, w: u16) -> T {
        let fw = self.fl.w(f);
        if let Some(b) = self.fconst(f) {
            let v = sat_conv(to_f64(b, fw), sg, w);
            return self.c(v, w);
        }
        match self.fl.e[f as usize].n.clone() {
            FN::Poly(p) => {
                let p = self.fl.polys[p as usize].clone();
                if let Some(t) = self.poly_round(&p, Rnd::Trunc) {
                    if w <= 64 {
                        return self.clamp_to(t, sg, w);
                    }
                    if self.e[t as usize].slo >= 0 {
                        return self.zext_to(t, w);
                    }
                }
            }
            FN::Ite(c, a, b) => {
                let x = self.ftoi(a, sg, w);
                let y = self.ftoi(b, sg, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        if self.small(f) {
            if let Some((i, v)) = self.tabview(f) {
                let v = v.iter().map(|x| sat_conv(to_f64(*x as u64, fw), sg, w)).collect();
                return self.tab(i, v, w);
            }
        }
        self.mk_pub(N::FToI(sg, f), w)
    }
    fn clamp_to(&mut self, t: T, sg: bool, w: u16) -> T {
        let tw = self.w(t);
        let (lo, hi) = if sg { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
        let ww = tw.max(w + 1);
        let mut x = self.sext_to(t, ww);
        let (slo, shi) = (self.e[t as usize].slo, self.e[t as usize].shi);
        if slo < lo {
            let k = self.c(lo as u128, ww);
            let c = self.cmp(Cm::Slt, x, k);
            x = self.ite(c, k, x);
        }
        if shi > hi {
            let k = self.c(hi as u128, ww);
            let c = self.cmp(Cm::Slt, k, x);
            x = self.ite(c, k, x);
        }
        self.ext(0, x, w)
    }
    pub fn feval(&mut self, f: F, m: &Model) -> u64 {
        if let FN::C(b) = self.fl.e[f as usize].n {
            return b;
        }
        let n = self.fl.e.len();
        if self.fl.cache.len() < n {
            self.fl.cache.resize(n + 1024, (0, 0));
        }
        let (id, v) = self.fl.cache[f as usize];
        if id == m.id {
            return v;
        }
        let ent = self.fl.e[f as usize].clone();
        let w = ent.w;
        let r = match ent.n {
            FN::C(b) => b,
            FN::Poly(p) => {
                let p = self.fl.polys[p as usize].clone();
                let mut s = p.c;
                for (k, v) in &p.t {
                    let mut q = *v;
                    for a in k {
                        let t = a / 2;
                        let tw = self.w(t);
                        let x = self.eval(t, m);
                        let x = if a % 2 == 1 { sgn(x, tw) } else { x as i128 };
                        q = q.wrapping_mul(x);
                    }
                    s = s.wrapping_add(q);
                }
                of_f64(s as f64 * (2f64).powi(-(p.e as i32)), w)
            }
            FN::Tab(i, k) => {
                let x = self.eval(i, m) as usize;
                let tb = &self.tabs[k as usize];
                tb[x.min(tb.len() - 1)] as u64
            }
            FN::Bits(t) => self.eval(t, m) as u64,
            FN::Ite(c, a, b) => {
                if self.eval(c, m) != 0 {
                    self.feval(a, m)
                } else {
                    self.feval(b, m)
                }
            }
            FN::Bin(op, a, b) => {
                let x = self.feval(a, m);
                let y = self.feval(b, m);
                nat_bin(op, x, y, w)
            }
            FN::Un(op, a) => {
                let x = self.feval(a, m);
                nat_un(op, x, w)
            }
            FN::IToF(t, sg) => {
                let tw = self.w(t);
                let x = self.eval(t, m);
                itof_nat(x, tw, sg, w)
            }
            FN::Cast(a) => {
                let aw = self.fl.w(a);
                let x = self.feval(a, m);
                of_f64(to_f64(x, aw), w)
            }
        };
        let n = self.fl.e.len();
        if self.fl.cache.len() < n {
            self.fl.cache.resize(n + 1024, (0, 0));
        }
        self.fl.cache[f as usize] = (m.id, r);
        r
    }

    // ------------------------------------------------------------ linear views

    fn rounded(&self, mut l: Lin, mag: f64, w: u16) -> Lin {
        let u = if w == 32 { 6.0e-8 } else { 1.2e-16 };
        l.err += u * mag + if w == 32 { 1e-44 } else { 1e-300 };
        l
    }
    fn atom_iv(&self, a: u64) -> Option<(f64, f64)> {
        if a >= FATOM {
            let e = &self.fl.e[(a - FATOM) as usize];
            if e.nn && e.lo.is_finite() && e.hi.is_finite() {
                Some((e.lo, e.hi))
            } else {
                None
            }
        } else {
            let e = &self.e[(a / 2) as usize];
            Some(if a % 2 == 1 { (e.slo as f64, e.shi as f64) } else { (e.ulo as f64, e.uhi as f64) })
        }
    }
    fn mono_iv(&self, k: &[u64]) -> Option<(f64, f64)> {
        let (mut l, mut h) = (1.0, 1.0);
        for a in k {
            let (x, y) = self.atom_iv(*a)?;
            let c: [f64; 4] = [l * x, l * y, h * x, h * y];
            l = c.iter().cloned().fold(f64::INFINITY, f64::min);
            h = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        Some((l, h))
    }
    fn lin_mag(&self, l: &Lin) -> Option<f64> {
        let mut s = l.c.abs() + l.err;
        for (k, v) in &l.t {
            let (a, b) = self.mono_iv(k)?;
            s += v.abs() * a.abs().max(b.abs());
        }
        Some(s)
    }
    fn fatom(&self, f: F) -> Option<Lin> {
        let e = &self.fl.e[f as usize];
        if !(e.nn && e.lo.is_finite() && e.hi.is_finite()) {
            return None;
        }
        let mut t = BTreeMap::new();
        t.insert(vec![FATOM + f as u64], 1.0);
        Some(Lin { c: 0.0, t, err: 0.0 })
    }
    pub fn lin(&mut self, f: F) -> Option<Rc<Lin>> {
        if let Some(l) = self.fl.lins.get(&f) {
            return Some(l.clone());
        }
        let e = self.fl.e[f as usize].clone();
        let w = e.w;
        let r: Option<Lin> = match &e.n {
            FN::C(b) => {
                let v = to_f64(*b, w);
                if v.is_finite() {
                    Some(Lin { c: v, t: BTreeMap::new(), err: 0.0 })
                } else {
                    None
                }
            }
            FN::Poly(p) => {
                let p = self.fl.polys[*p as usize].clone();
                let s = (2f64).powi(-(p.e as i32));
                let mut t = BTreeMap::new();
                for (k, v) in &p.t {
                    t.insert(k.iter().map(|a| *a as u64).collect::<Vec<_>>(), *v as f64 * s);
                }
                Some(Lin { c: p.c as f64 * s, t, err: 0.0 })
            }
            FN::IToF(t, sg) => {
                let p = self.intview(*t, *sg);
                let mut m = BTreeMap::new();
                for (k, v) in &p.t {
                    m.insert(k.iter().map(|a| *a as u64).collect::<Vec<_>>(), *v as f64);
                }
                let l = Lin { c: p.c as f64, t: m, err: 0.0 };
                Some(self.rounded(l, e.lo.abs().max(e.hi.abs()), w))
            }
            FN::Cast(a) => {
                let l = self.lin(*a);
                l.map(|l| self.rounded((*l).clone(), e.lo.abs().max(e.hi.abs()), w))
            }
            FN::Un(FU::Neg, a) => self.lin(*a).map(|l| {
                let mut l = (*l).clone();
                l.c = -l.c;
                for v in l.t.values_mut() {
                    *v = -*v;
                }
                l
            }),
            FN::Bin(FO::Add | FO::Sub | FO::Mul | FO::Div, _, _) => {
                let l = self.lin_bin(&e.n, w);
                match l {
                    Some(l) => {
                        let mag = if e.nn && e.lo.is_finite() && e.hi.is_finite() { Some(e.lo.abs().max(e.hi.abs())) } else { self.lin_mag(&l) };
                        mag.map(|m| self.rounded(l, m, w))
                    }
                    None => self.fatom(f),
                }
            }
            FN::Ite(c, a, b) => {
                let c = *c;
                match (self.lin(*a), self.lin(*b)) {
                    (Some(x), Some(y)) if x.t.len() + y.t.len() <= 64 => {
                        let mut d = lin_add(&x, &y, -1.0);
                        d.err = 0.0;
                        let ca = Lin { c: 0.0, t: [(vec![c as u64 * 2], 1.0)].into_iter().collect(), err: 0.0 };
                        let p = self.lin_mul(&d, &ca);
                        p.map(|p| {
                            let mut r = lin_add(&y, &p, 1.0);
                            r.err = x.err.max(y.err);
                            r
                        })
                    }
                    _ => self.fatom(f),
                }
            }
            _ => self.fatom(f),
        };
        let r = r.map(Rc::new);
        if let Some(l) = &r {
            self.fl.lins.insert(f, l.clone());
        }
        r
    }
    fn lin_mul(&self, a: &Lin, b: &Lin) -> Option<Lin> {
        if (a.t.len() + 1) * (b.t.len() + 1) > 3000 {
            return None;
        }
        let mut r = Lin { c: a.c * b.c, t: BTreeMap::new(), err: 0.0 };
        for (k, v) in &a.t {
            *r.t.entry(k.clone()).or_insert(0.0) += v * b.c;
        }
        for (k, v) in &b.t {
            *r.t.entry(k.clone()).or_insert(0.0) += v * a.c;
        }
        for (k, v) in &a.t {
            for (k2, v2) in &b.t {
                let mut kk = k.clone();
                kk.extend_from_slice(k2);
                if kk.len() > 6 {
                    return None;
                }
                kk.sort();
                *r.t.entry(kk).or_insert(0.0) += v * v2;
            }
        }
        // sqrt(x)*sqrt(x) = x and boolean squares
        let keys: Vec<Vec<u64>> = r.t.keys().filter(|k| k.len() >= 2).cloned().collect();
        let mut extra = vec![];
        for k in keys {
            for i in 0..k.len() - 1 {
                if k[i] == k[i + 1] {
                    if k[i] >= FATOM {
                        if let FN::Un(FU::Sqrt, x) = self.fl.e[(k[i] - FATOM) as usize].n {
                            let c = r.t.remove(&k).unwrap();
                            let mut rest = k.clone();
                            rest.drain(i..i + 2);
                            extra.push((rest, c, x));
                            break;
                        }
                    } else if self.e[(k[i] / 2) as usize].w == 1 && k[i] % 2 == 0 {
                        let c = r.t.remove(&k).unwrap();
                        let mut kk = k.clone();
                        kk.remove(i);
                        *r.t.entry(kk).or_insert(0.0) += c;
                        break;
                    }
                }
            }
        }
        for (rest, c, x) in extra {
            let l = self.fl.lins.get(&x).cloned().or_else(|| match &self.fl.e[x as usize].n {
                FN::Poly(p) => {
                    let p = &self.fl.polys[*p as usize];
                    let s = (2f64).powi(-(p.e as i32));
                    Some(Rc::new(Lin { c: p.c as f64 * s, t: p.t.iter().map(|(k, v)| (k.iter().map(|a| *a as u64).collect(), *v as f64 * s)).collect(), err: 0.0 }))
                }
                _ => None,
            });
            let l = l?;
            if !rest.is_empty() {
                return None;
            }
            let e = &self.fl.e[x as usize];
            let u = if e.w == 32 { 1.3e-7 } else { 3e-16 };
            r = lin_add(&r, &l, c);
            r.err += c.abs() * u * e.hi.abs();
        }
        let ma = self.lin_mag(a)?;
        let mb = self.lin_mag(b)?;
        r.err += ma * b.err + mb * a.err + a.err * b.err + 1e-15 * ma * mb;
        Some(r)
    }
    fn lin_bin(&mut self, n: &FN, w: u16) -> Option<Lin> {
        let _ = w;
        if let FN::Bin(op, a, b) = n {
            match op {
                FO::Add | FO::Sub => {
                    let x = self.lin(*a)?;
                    let y = self.lin(*b)?;
                    if x.t.len() + y.t.len() > 4000 {
                        return None;
                    }
                    Some(lin_add(&x, &y, if *op == FO::Add { 1.0 } else { -1.0 }))
                }
                FO::Mul => {
                    let x = self.lin(*a)?;
                    let y = self.lin(*b)?;
                    self.lin_mul(&x, &y)
                }
                FO::Div => {
                    let c = self.fconst(*b)?;
                    let bw = self.fl.w(*b);
                    let v = to_f64(c, bw);
                    if v == 0.0 || !v.is_finite() {
                        return None;
                    }
                    let x = self.lin(*a)?;
                    let k = Lin { c: 1.0 / v, t: BTreeMap::new(), err: 0.0 };
                    self.lin_mul(&x, &k)
                }
                _ => None,
            }
        } else {
            None
        }
    }
    /// |a - b| <= tol as a boolean term; None if it cannot be expressed
    pub fn close(&mut self, a: F, b: F, tol: f64) -> Result<T, String> {
        if a == b && self.fl.e[a as usize].nn {
            return Ok(1);
        }
        let (wa, wb) = (self.fl.w(a), self.fl.w(b));
        if let (Some(x), Some(y)) = (self.fconst(a), self.fconst(b)) {
            let (x, y) = (to_f64(x, wa), to_f64(y, wb));
            return Ok(((x - y).abs() <= tol || x == y) as T);
        }
        // tables over a common index
        if self.small(a) && self.small(b) {
            let va = match self.fconst(a) {
                Some(c) => Some((None, vec![c as u128])),
                None => self.tabview(a).map(|(i, v)| (Some(i), v)),
            };
            let vb = match self.fconst(b) {
                Some(c) => Some((None, vec![c as u128])),
                None => self.tabview(b).map(|(i, v)| (Some(i), v)),
            };
            if let (Some(va), Some(vb)) = (va, vb) {
                let same = va.0.is_none() || vb.0.is_none() || va.0 == vb.0;
                if same {
                    if let Some((idx, x, y)) = self.align(va, vb) {
                        let v = x.iter().zip(y.iter()).map(|(x, y)| ((to_f64(*x as u64, wa) - to_f64(*y as u64, wb)).abs() <= tol) as u128).collect();
                        return Ok(self.tab(idx, v, 1));
                    }
                }
            }
        }
        let la = self.lin(a);
        let lb = self.lin(b);
        let (la, lb) = match (la, lb) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                // may be undefined (NaN): branch-free residual encoding
                return self.close_fp(a, b, tol);
            }
        };
        let mut d = lin_add(&la, &lb, -1.0);
        // drop negligible terms
        let n = d.t.len().max(1) as f64;
        let mut keep = BTreeMap::new();
        for (k, v) in std::mem::take(&mut d.t) {
            let (l, h) = self.mono_iv(&k).ok_or("unbounded atom")?;
            let m = v.abs() * l.abs().max(h.abs());
            if m <= tol * 1e-3 / n {
                d.err += m;
            } else {
                keep.insert(k, v);
            }
        }
        d.t = keep;
        if d.err > tol * 0.5 {
            return Err(format!("closeness error bound {} too large for tolerance {}", d.err, tol));
        }
        if d.t.is_empty() {
            return Ok((d.c.abs() + d.err <= tol) as T);
        }
        // fixed-point encoding: quantisation error below tol/64
        let mut mags = 0.0;
        for (k, _) in &d.t {
            let (l, h) = self.mono_iv(k).unwrap();
            mags += l.abs().max(h.abs()) + 1.0;
        }
        let k = ((64.0 * mags / tol).log2().ceil() as i32).max(0);
        // every float atom is quantised at 2^-q
        let q = 20;
        let mut total = d.c.abs();
        let mut p = Poly { e: 0, c: 0, t: vec![] };
        let maxdeg = d.t.keys().map(|k| k.iter().filter(|a| **a >= FATOM).count()).max().unwrap_or(0) as i32;
        let s = (2f64).powi(k);
        let sq = |c: usize| (2f64).powi(q * (maxdeg - c as i32));
        p.c = (d.c * s * sq(0)) as i128;
        for (m, v) in &d.t {
            let nf = m.iter().filter(|a| **a >= FATOM).count();
            let mut kk = vec![];
            for a in m {
                if *a >= FATOM {
                    let f = (*a - FATOM) as F;
                    kk.push(self.fixed(f, q)? * 2 + 1);
                } else {
                    kk.push(*a as u32);
                }
            }
            kk.sort();
            let (l, h) = self.mono_iv(m).unwrap();
            total += v.abs() * l.abs().max(h.abs());
            p.t.push((kk, (v * s * sq(nf)).round() as i128));
        }
        let full = s * sq(0);
        if total * full > 1e36 {
            return Err("closeness encoding too wide".into());
        }
        let lim = ((tol - d.err) * full) as i128;
        let t = self.poly_bv(&p).ok_or("closeness encoding")?;
        let w = self.w(t);
        if lim >= 1i128 << (w - 2) {
            return Ok(1);
        }
        let hi = self.c(lim as u128, w);
        let lo = self.c((-lim) as u128, w);
        let x = self.cmp(Cm::Sle, t, hi);
        let y = self.cmp(Cm::Sle, lo, t);
        Ok(self.and(x, y))
    }
    fn close_fp(&mut self, a: F, b: F, tol: f64) -> Result<T, String> {
        let x = self.fcast(a, 64);
        let y = self.fcast(b, 64);
        let d = self.fbin(FO::Sub, x, y);
        let k = self.fc(tol.to_bits(), 64);
        let nk = self.fc((-tol).to_bits(), 64);
        let c1 = self.fcmp(FCm::Le, d, k);
        let c2 = self.fcmp(FCm::Le, nk, d);
        Ok(self.and(c1, c2))
    }
    /// signed fixed-point BV (2^-q) of a float atom
    fn fixed(&mut self, f: F, q: i32) -> Result<T, String> {
        let w = self.fl.w(f);
        if let Some((i, v)) = self.tabview(f) {
            let v = v.iter().map(|x| (to_f64(*x as u64, w) * (2f64).powi(q)).round() as i128 as u128).collect();
            return Ok(self.tab(i, v, 64));
        }
        // unconstrained within its interval (over-approximation)
        let (lo, hi) = self.fl.range(f).ok_or("unbounded float atom")?;
        let l = (lo * (2f64).powi(q)).floor() as i128;
        let h = (hi * (2f64).powi(q)).ceil() as i128;
        let v = self.var(f, 64, (h - l) as u128, 1);
        let k = self.c(l as u128, 64);
        Ok(self.bin(Op::Add, v, k))
    }
}
fn lin_add(a: &Lin, b: &Lin, s: f64) -> Lin {
    let mut r = a.clone();
    r.c += s * b.c;
    for (k, v) in &b.t {
        let e = r.t.entry(k.clone()).or_insert(0.0);
        *e += s * v;
        if *e == 0.0 {
            r.t.remove(k);
        }
    }
    r.err += b.err * s.abs() + 1e-300;
    r
}
fn norm(mut p: Poly) -> Poly {
    while p.e > 0 && p.c % 2 == 0 && p.t.iter().all(|(_, v)| v % 2 == 0) {
        p.e -= 1;
        p.c /= 2;
        for (_, v) in p.t.iter_mut() {
            *v /= 2;
        }
    }
    p
}
fn norm2(p: &Poly, add: i128) -> Poly {
    Poly { e: 0, c: p.c + add, t: p.t.clone() }
}
fn neg2(p: &Poly, add: i128) -> Poly {
    Poly { e: 0, c: add - p.c, t: p.t.iter().map(|(k, v)| (k.clone(), -*v)).collect() }
}
fn content(mut d: Poly, c: FCm) -> Poly {
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let mut g = 0;
    for (_, v) in &d.t {
        g = gcd(g, *v);
    }
    if g <= 1 {
        return d;
    }
    if d.c % g == 0 {
        d.c /= g;
    } else {
        // g*S + c  (c not divisible): S < -c/g etc.
        match c {
            FCm::Eq => return Poly { e: 0, c: 1, t: vec![] },
            // g*S + c < 0  <=> S + floor(c/g) < 0 when c/g not integral: S < -c/g <=> S <= floor(-c/g) <=> S - floor(-c/g) <= 0 <=> S - floor(-c/g) - 1 < 0
            FCm::Lt => d.c = -((-d.c).div_euclid(g)) - 1,
            // g*S + c <= 0 <=> S <= floor(-c/g)
            _ => d.c = -((-d.c).div_euclid(g)),
        }
    }
    for (_, v) in d.t.iter_mut() {
        *v /= g;
    }
    d
}
