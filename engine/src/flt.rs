//! Floating-point terms: exact polynomials, tables over small indices, residual operations.
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FO {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
    Pow,
    Atan2,
    Hypot,
    CopySign,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU {
    Neg,
    Abs,
    Sqrt,
    Round,
    RoundEven,
    Floor,
    Ceil,
    Trunc,
    Exp,
    Exp2,
    Ln,
    Log2,
    Log10,
    Sin,
    Cos,
    Tan,
    Atan,
    Acos,
    Asin,
    Cbrt,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FN {
    C(u64),
    Poly(u32),
    Tab(T, u32),
    Bits(T),
    Ite(T, F, F),
    Bin(FO, F, F),
    Un(FU, F),
    IToF(T, bool),
    Cast(F),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    /// value = (c + sum t) / 2^e ; atoms are term*2+signed
    pub e: u32,
    pub c: i128,
    pub t: Vec<(Vec<u32>, i128)>,
}
#[derive(Clone, Debug)]
pub struct Lin {
    pub c: f64,
    pub t: BTreeMap<Vec<u64>, f64>,
    pub err: f64,
}
#[derive(Clone, Debug)]
pub struct FEnt {
    pub n: FN,
    pub w: u16,
    pub lo: f64,
    pub hi: f64,
    pub nn: bool,
    pub sup: (u32, u32),
}
#[derive(Default)]
pub struct Floats {
    pub e: Vec<FEnt>,
    map: HashMap<(FN, u16), F>,
    pub polys: Vec<Rc<Poly>>,
    polymap: HashMap<Rc<Poly>, u32>,
    pub lins: HashMap<F, Rc<Lin>>,
    pub joints: HashMap<T, Rc<Vec<T>>>,
    pub model_ctr: u32,
    pub cache: Vec<(u32, u64)>,
    pub jcap: usize,
    pub flats: HashMap<F, F>,
}
pub const FATOM: u64 = 1 << 40;

pub fn to_f64(bits: u64, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(bits as u32) as f64
    } else {
        f64::from_bits(bits)
    }
}
pub fn of_f64(v: f64, w: u16) -> u64 {
    if w == 32 {
        (v as f32).to_bits() as u64
    } else {
        v.to_bits()
    }
}
pub fn sat_conv(x: f64, sg: bool, w: u16) -> u128 {
    if x.is_nan() {
        return 0;
    }
    if sg {
        let lo = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) };
        let hi = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
        ((x as i128).clamp(lo, hi) as u128) & mask(w)
    } else {
        (x as u128).min(mask(w))
    }
}
pub fn nat_bin(op: FO, a: u64, b: u64, w: u16) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            FO::Add => x + y,
            FO::Sub => x - y,
            FO::Mul => x * y,
            FO::Div => x / y,
            FO::Rem => x % y,
            FO::Min => x.min(y),
            FO::Max => x.max(y),
            FO::Pow => x.powf(y),
            FO::Atan2 => x.atan2(y),
            FO::Hypot => x.hypot(y),
            FO::CopySign => x.copysign(y),
        };
        r.to_bits() as u64
    } else {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        let r = match op {
            FO::Add => x + y,
            FO::Sub => x - y,
            FO::Mul => x * y,
            FO::Div => x / y,
            FO::Rem => x % y,
            FO::Min => x.min(y),
            FO::Max => x.max(y),
            FO::Pow => x.powf(y),
            FO::Atan2 => x.atan2(y),
            FO::Hypot => x.hypot(y),
            FO::CopySign => x.copysign(y),
        };
        r.to_bits()
    }
}
macro_rules! nun {
    ($op:expr, $x:expr) => {
        match $op {
            FU::Neg => -$x,
            FU::Abs => $x.abs(),
            FU::Sqrt => $x.sqrt(),
            FU::Round => $x.round(),
            FU::RoundEven => $x.round_ties_even(),
            FU::Floor => $x.floor(),
            FU::Ceil => $x.ceil(),
            FU::Trunc => $x.trunc(),
            FU::Exp => $x.exp(),
            FU::Exp2 => $x.exp2(),
            FU::Ln => $x.ln(),
            FU::Log2 => $x.log2(),
            FU::Log10 => $x.log10(),
            FU::Sin => $x.sin(),
            FU::Cos => $x.cos(),
            FU::Tan => $x.tan(),
            FU::Atan => $x.atan(),
            FU::Acos => $x.acos(),
            FU::Asin => $x.asin(),
            FU::Cbrt => $x.cbrt(),
        }
    };
}
pub fn nat_un(op: FU, a: u64, w: u16) -> u64 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        (nun!(op, x) as f32).to_bits() as u64
    } else {
        let x = f64::from_bits(a);
        (nun!(op, x) as f64).to_bits()
    }
}

impl Floats {
    pub fn w(&self, f: F) -> u16 {
        self.e[f as usize].w
    }
    pub fn sup(&self, f: F) -> (u32, u32) {
        self.e[f as usize].sup
    }
    /// range if never NaN
    pub fn range(&self, f: F) -> Option<(f64, f64)> {
        let e = &self.e[f as usize];
        if e.nn {
            Some((e.lo, e.hi))
        } else {
            None
        }
    }
}

fn padd(a: &mut BTreeMap<Vec<u32>, i128>, k: &[u32], v: i128) -> Option<()> {
    let e = a.entry(k.to_vec()).or_insert(0);
    *e = e.checked_add(v)?;
    Some(())
}

impl Poly {
    fn norm(c: i128, t: BTreeMap<Vec<u32>, i128>, e: u32) -> Poly {
        let mut p = Poly { e, c, t: t.into_iter().filter(|(_, v)| *v != 0).collect() };
        while p.e > 0 && p.c % 2 == 0 && p.t.iter().all(|(_, v)| v % 2 == 0) {
            p.e -= 1;
            p.c /= 2;
            for (_, v) in p.t.iter_mut() {
                *v /= 2;
            }
        }
        p
    }
    fn scaled(&self, e: u32) -> Option<(i128, BTreeMap<Vec<u32>, i128>)> {
        let k = e - self.e;
        if k > 100 {
            return None;
        }
        let s = 1i128 << k;
        let mut m = BTreeMap::new();
        for (a, v) in &self.t {
            m.insert(a.clone(), v.checked_mul(s)?);
        }
        Some((self.c.checked_mul(s)?, m))
    }
    pub fn add(&self, o: &Poly, neg: bool) -> Option<Poly> {
        let e = self.e.max(o.e);
        let (c1, mut m) = self.scaled(e)?;
        let (c2, m2) = o.scaled(e)?;
        let sg = if neg { -1 } else { 1 };
        for (k, v) in m2 {
            padd(&mut m, &k, v * sg)?;
        }
        Some(Poly::norm(c1.checked_add(c2 * sg)?, m, e))
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        let na = self.t.len() + 1;
        let nb = o.t.len() + 1;
        if na * nb > 600 {
            return None;
        }
        let mut m = BTreeMap::new();
        for (k, v) in &self.t {
            padd(&mut m, k, v.checked_mul(o.c)?)?;
        }
        for (k, v) in &o.t {
            padd(&mut m, k, v.checked_mul(self.c)?)?;
        }
        for (k, v) in &self.t {
            for (k2, v2) in &o.t {
                let mut kk = k.clone();
                kk.extend_from_slice(k2);
                if kk.len() > 6 {
                    return None;
                }
                kk.sort();
                padd(&mut m, &kk, v.checked_mul(*v2)?)?;
            }
        }
        Some(Poly::norm(self.c.checked_mul(o.c)?, m, self.e + o.e))
    }
    pub fn cst(bits: u64, w: u16) -> Option<Poly> {
        let v = to_f64(bits, w);
        if !v.is_finite() {
            return None;
        }
        if v == 0.0 {
            return Some(Poly { e: 0, c: 0, t: vec![] });
        }
        let b = v.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i32;
        if ex == 0 {
            return None;
        }
        let mut m = ((b & ((1 << 52) - 1)) | (1 << 52)) as i128;
        let mut e = 1075 - ex; // v = m * 2^-e
        while m % 2 == 0 {
            m /= 2;
            e -= 1;
        }
        if e < 0 {
            if -e > 60 {
                return None;
            }
            m <<= -e;
            e = 0;
        }
        if e > 90 {
            return None;
        }
        Some(Poly { e: e as u32, c: if v < 0.0 { -m } else { m }, t: vec![] })
    }
}

impl Terms {
    fn atom_range(&self, a: u32) -> (i128, i128) {
        let e = &self.e[(a / 2) as usize];
        if a % 2 == 1 {
            (e.slo, e.shi)
        } else if e.w <= 64 {
            (e.ulo as i128, e.uhi as i128)
        } else {
            (0, i128::MAX)
        }
    }
    pub fn poly_range(&self, p: &Poly) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (p.c, p.c);
        for (k, v) in &p.t {
            let (mut l, mut h) = (1i128, 1i128);
            for (i, a) in k.iter().enumerate() {
                let (al, ah) = self.atom_range(*a);
                // squares
                if i + 1 < k.len() && k[i + 1] == *a && k.len() == 2 {
                    let m = al.checked_abs()?.max(ah.checked_abs()?);
                    let z = if al <= 0 && ah >= 0 { 0 } else { al.abs().min(ah.abs()) };
                    l = z.checked_mul(z)?;
                    h = m.checked_mul(m)?;
                    break;
                }
                let c = [l.checked_mul(al)?, l.checked_mul(ah)?, h.checked_mul(al)?, h.checked_mul(ah)?];
                l = *c.iter().min().unwrap();
                h = *c.iter().max().unwrap();
            }
            let (x, y) = (l.checked_mul(*v)?, h.checked_mul(*v)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// integer value of a BV term as a polynomial (e = 0)
    pub fn intview(&self, t: T, signed: bool) -> Poly {
        self.intview_d(t, signed, 0)
    }
    fn intview_d(&self, t: T, signed: bool, d: u32) -> Poly {
        let e = &self.e[t as usize];
        let signed = signed && e.w <= 64 && e.slo < 0;
        let atom = || Poly { e: 0, c: 0, t: vec![(vec![t * 2 + signed as u32], 1)] };
        if e.w > 64 {
            if let N::Const(v) = e.n {
                if v < (1 << 100) {
                    return Poly { e: 0, c: v as i128, t: vec![] };
                }
            }
            if let N::ZExt(a) = e.n {
                return self.intview_d(a, false, d + 1);
            }
            return atom();
        }
        if d > 200 {
            return atom();
        }
        match e.n {
            N::Const(v) => Poly { e: 0, c: if signed { sgn(v, e.w) } else { v as i128 }, t: vec![] },
            N::ZExt(a) => self.intview_d(a, false, d + 1),
            N::SExt(a) if signed => self.intview_d(a, true, d + 1),
            N::Ext(0, a) => {
                let ea = &self.e[a as usize];
                if ea.w <= 64 {
                    if !signed && ea.uhi <= mask(e.w) {
                        return self.intview_d(a, false, d + 1);
                    }
                    let h = 1i128 << (e.w - 1);
                    if signed && ea.slo >= -h && ea.shi < h {
                        return self.intview_d(a, true, d + 1);
                    }
                }
                atom()
            }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) => {
                // interpret operands so that no wrap happens
                for sg in [signed, true] {
                    let (ea, eb) = (&self.e[a as usize], &self.e[b as usize]);
                    let (al, ah, bl, bh) = if sg { (ea.slo, ea.shi, eb.slo, eb.shi) } else { (ea.ulo as i128, ea.uhi as i128, eb.ulo as i128, eb.uhi as i128) };
                    let (l, h) = match op {
                        Op::Add => (al + bl, ah + bh),
                        Op::Sub => (al - bh, ah - bl),
                        _ => {
                            let c = [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)];
                            if c.iter().any(|x| x.is_none()) {
                                continue;
                            }
                            (c.iter().map(|x| x.unwrap()).min().unwrap(), c.iter().map(|x| x.unwrap()).max().unwrap())
                        }
                    };
                    let (wl, wh) = if signed { (-(1i128 << (e.w - 1)), (1i128 << (e.w - 1)) - 1) } else { (0, mask(e.w) as i128) };
                    if l < wl || h > wh {
                        continue;
                    }
                    let x = self.intview_d(a, sg, d + 1);
                    let y = self.intview_d(b, sg, d + 1);
                    let r = match op {
                        Op::Add => x.add(&y, false),
                        Op::Sub => x.add(&y, true),
                        _ => x.mul(&y),
                    };
                    if let Some(r) = r {
                        if r.t.len() <= 400 {
                            return r;
                        }
                    }
                    return atom();
                }
                atom()
            }
            N::Concat(h, l) if !signed && self.cv(l) == Some(0) => {
                let k = self.e[l as usize].w;
                let x = self.intview_d(h, false, d + 1);
                x.mul(&Poly { e: 0, c: 1i128 << k, t: vec![] }).unwrap_or_else(atom)
            }
            _ => atom(),
        }
    }
    /// bit-vector (signed) encoding of the numerator of p
    pub fn poly_bv(&mut self, p: &Poly) -> Option<T> {
        let (lo, hi) = self.poly_range(p)?;
        let m = lo.unsigned_abs().max(hi.unsigned_abs());
        let w: u16 = if m < (1 << 14) {
            16
        } else if m < (1 << 30) {
            32
        } else if m < (1 << 62) {
            64
        } else if m < (1 << 120) {
            128
        } else {
            return None;
        };
        let mut acc: Option<T> = None;
        for (k, v) in &p.t {
            let mut r: Option<T> = None;
            for a in k {
                let t = a / 2;
                let x = if a % 2 == 1 { self.sext_to(t, w) } else { self.zext_to(t, w) };
                r = Some(match r {
                    None => x,
                    Some(y) => self.bin(Op::Mul, y, x),
                });
            }
            let cf = self.c(*v as u128, w);
            let r = self.bin(Op::Mul, r.unwrap(), cf);
            acc = Some(match acc {
                None => r,
                Some(y) => self.bin(Op::Add, y, r),
            });
        }
        let c = self.c(p.c as u128, w);
        Some(match acc {
            None => c,
            Some(y) => self.bin(Op::Add, y, c),
        })
    }
    fn fmk(&mut self, n: FN, w: u16) -> F {
        if let Some(&f) = self.fl.map.get(&(n.clone(), w)) {
            return f;
        }
        let ent = self.frange(&n, w);
        let f = self.fl.e.len() as F;
        self.fl.e.push(ent);
        self.fl.map.insert((n, w), f);
        f
    }
    fn frange(&self, n: &FN, w: u16) -> FEnt {
        let mut lo = f64::NEG_INFINITY;
        let mut hi = f64::INFINITY;
        let mut nn = false;
        let mut sup = Terms::sup_none();
        match n {
            FN::C(b) => {
                let v = to_f64(*b, w);
                nn = !v.is_nan();
                lo = v;
                hi = v;
            }
            FN::Poly(p) => {
                let p = self.fl.polys[*p as usize].clone();
                nn = true;
                if let Some((l, h)) = self.poly_range(&p) {
                    let s = (2f64).powi(-(p.e as i32));
                    lo = l as f64 * s;
                    hi = h as f64 * s;
                }
                for (k, _) in &p.t {
                    for a in k {
                        sup = Terms::sup_join(sup, self.e[(a / 2) as usize].sup);
                    }
                }
            }
            FN::Tab(i, t) => {
                let ie = &self.e[*i as usize];
                sup = ie.sup;
                let tb = &self.tabs[*t as usize];
                let l = (ie.ulo as usize).min(tb.len() - 1);
                let h = (ie.uhi as usize).min(tb.len() - 1);
                nn = true;
                lo = f64::INFINITY;
                hi = f64::NEG_INFINITY;
                for v in &tb[l..=h] {
                    let x = to_f64(*v as u64, w);
                    if x.is_nan() {
                        nn = false;
                    }
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }
            FN::Bits(t) => sup = self.e[*t as usize].sup,
            FN::IToF(t, sg) => {
                let e = &self.e[*t as usize];
                sup = e.sup;
                nn = true;
                if e.w <= 64 {
                    let (l, h) = if *sg { (e.slo as f64, e.shi as f64) } else { (e.ulo as f64, e.uhi as f64) };
                    lo = l;
                    hi = h;
                    if w == 32 {
                        lo = lo as f32 as f64;
                        hi = hi as f32 as f64;
                    }
                } else {
                    lo = if *sg { -1e39 } else { 0.0 };
                    hi = 1e39;
                }
            }
            FN::Ite(c, a, b) => {
                let (a, b) = (&self.fl.e[*a as usize], &self.fl.e[*b as usize]);
                sup = Terms::sup_join(self.e[*c as usize].sup, Terms::sup_join(a.sup, b.sup));
                nn = a.nn && b.nn;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
            FN::Cast(a) => {
                let a = &self.fl.e[*a as usize];
                sup = a.sup;
                nn = a.nn;
                lo = if w == 32 { a.lo as f32 as f64 } else { a.lo };
                hi = if w == 32 { a.hi as f32 as f64 } else { a.hi };
            }
            FN::Bin(op, a, b) => {
                let (a, b) = (&self.fl.e[*a as usize], &self.fl.e[*b as usize]);
                sup = Terms::sup_join(a.sup, b.sup);
                let fin = a.nn && b.nn && a.lo.is_finite() && a.hi.is_finite() && b.lo.is_finite() && b.hi.is_finite();
                if fin {
                    let f = |x: f64, y: f64| to_f64(nat_bin(*op, of_f64(x, w), of_f64(y, w), w), w);
                    let four = |f: &dyn Fn(f64, f64) -> f64| {
                        let c = [f(a.lo, b.lo), f(a.lo, b.hi), f(a.hi, b.lo), f(a.hi, b.hi)];
                        (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
                    };
                    match op {
                        FO::Add | FO::Sub | FO::Mul | FO::Min | FO::Max => {
                            let (l, h) = four(&f);
                            lo = l;
                            hi = h;
                            nn = true;
                        }
                        FO::Div if b.lo > 0.0 || b.hi < 0.0 => {
                            let (l, h) = four(&f);
                            lo = l;
                            hi = h;
                            nn = true;
                        }
                        FO::Pow if a.lo > 0.0 => {
                            let (l, h) = four(&f);
                            let s = 1e-6 * (l.abs().max(h.abs()));
                            lo = (l - s).max(0.0);
                            hi = h + s;
                            nn = true;
                        }
                        FO::Hypot => {
                            lo = 0.0;
                            nn = true;
                            hi = a.lo.abs().max(a.hi.abs()) + b.lo.abs().max(b.hi.abs());
                        }
                        FO::Atan2 => {
                            lo = -3.15;
                            hi = 3.15;
                            nn = true;
                        }
                        _ => {}
                    }
                    if !lo.is_finite() || !hi.is_finite() {
                        // overflow possible: keep conservative
                        lo = f64::NEG_INFINITY;
                        hi = f64::INFINITY;
                    }
                }
            }
            FN::Un(op, a) => {
                let a = &self.fl.e[*a as usize];
                sup = a.sup;
                let f = |x: f64| to_f64(nat_un(*op, of_f64(x, w), w), w);
                match op {
                    FU::Neg => {
                        nn = a.nn;
                        lo = -a.hi;
                        hi = -a.lo;
                    }
                    FU::Abs => {
                        nn = a.nn;
                        lo = if a.lo > 0.0 {
                            a.lo
                        } else if a.hi < 0.0 {
                            -a.hi
                        } else {
                            0.0
                        };
                        hi = a.lo.abs().max(a.hi.abs());
                    }
                    FU::Sqrt => {
                        nn = a.nn && a.lo >= 0.0;
                        lo = if nn { f(a.lo) } else { 0.0 };
                        hi = f(a.hi.max(0.0));
                    }
                    FU::Round | FU::Floor | FU::Ceil | FU::Trunc | FU::RoundEven => {
                        nn = a.nn;
                        lo = f(a.lo);
                        hi = f(a.hi);
                    }
                    FU::Exp | FU::Exp2 | FU::Cbrt => {
                        nn = a.nn;
                        let (l, h) = (f(a.lo), f(a.hi));
                        let s = 1e-6 * l.abs().max(h.abs());
                        lo = l - s;
                        hi = h + s;
                        if !matches!(op, FU::Cbrt) {
                            lo = lo.max(0.0);
                        }
                        if !hi.is_finite() {
                            hi = f64::INFINITY;
                        }
                    }
                    FU::Sin | FU::Cos => {
                        nn = a.nn && a.lo.is_finite() && a.hi.is_finite();
                        lo = -1.0;
                        hi = 1.0;
                    }
                    FU::Ln | FU::Log2 | FU::Log10 => {
                        nn = a.nn && a.lo > 0.0;
                        if nn {
                            lo = f(a.lo) - 1e-5;
                            hi = f(a.hi) + 1e-5;
                        }
                    }
                    _ => {}
                }
                if lo.is_nan() || hi.is_nan() {
                    lo = f64::NEG_INFINITY;
                    hi = f64::INFINITY;
                    nn = false;
                }
            }
        }
        FEnt { n: n.clone(), w, lo, hi, nn, sup }
    }
    pub fn fc(&mut self, bits: u64, w: u16) -> F {
        self.fmk(FN::C(bits), w)
    }
    pub fn fconst(&self, f: F) -> Option<u64> {
        if let FN::C(b) = self.fl.e[f as usize].n {
            Some(b)
        } else {
            None
        }
    }
    fn polyof(&self, f: F) -> Option<Rc<Poly>> {
        match self.fl.e[f as usize].n {
            FN::Poly(p) => Some(self.fl.polys[p as usize].clone()),
            FN::C(b) => Poly::cst(b, self.fl.e[f as usize].w).map(Rc::new),
            _ => None,
        }
    }
    /// float node for an exactly representable polynomial
    fn mkpoly(&mut self, p: Poly, w: u16) -> Option<F> {
        let bits = if w == 32 { 24 } else { 53 };
        if p.t.len() > 400 {
            return None;
        }
        let (lo, hi) = self.poly_range(&p)?;
        // common power of two
        let mut g = p.c;
        for (_, v) in &p.t {
            g |= *v;
        }
        let k = if g == 0 { 0 } else { g.trailing_zeros() };
        if ((lo >> k).unsigned_abs().max((hi >> k).unsigned_abs())) > (1u128 << bits) {
            return None;
        }
        if p.t.is_empty() {
            let v = p.c as f64 * (2f64).powi(-(p.e as i32));
            return Some(self.fc(of_f64(v, w), w));
        }
        let r = Rc::new(p);
        let id = match self.fl.polymap.get(&r) {
            Some(&i) => i,
            None => {
                let i = self.fl.polys.len() as u32;
                self.fl.polys.push(r.clone());
                self.fl.polymap.insert(r, i);
                i
            }
        };
        Some(self.fmk(FN::Poly(id), w))
    }
    pub fn itof(&mut self, t: T, sg: bool, w: u16) -> F {
        let p = self.intview(t, sg);
        if let Some(f) = self.mkpoly(p, w) {
            return f;
        }
        if let Some((i, v)) = self.as_tab(t) {
            let tw = self.w(t);
            let v = v.iter().map(|x| itof_nat(*x, tw, sg, w) as u128).collect();
            return self.ftab(i, v, w);
        }
        let f = self.fmk(FN::IToF(t, sg), w);
        self.flat(f)
    }
    pub fn fbits(&mut self, t: T) -> F {
        let w = self.w(t);
        if let Some(v) = self.cv(t) {
            return self.fc(v as u64, w);
        }
        match self.e[t as usize].n.clone() {
            N::FBits(f) if self.fl.w(f) == w => return f,
            N::Tab(i, k) => {
                let v = (*self.tabs[k as usize]).clone();
                return self.ftab(i, v, w);
            }
            N::Ite(c, a, b) => {
                let x = self.fbits(a);
                let y = self.fbits(b);
                return self.fite(c, x, y);
            }
            _ => {}
        }
        self.fmk(FN::Bits(t), w)
    }
    pub fn bits_of(&mut self, f: F) -> T {
        let w = self.fl.w(f);
        match self.fl.e[f as usize].n.clone() {
            FN::C(b) => self.c(b as u128, w),
            FN::Bits(t) => t,
            FN::Tab(i, k) => {
                let v = (*self.tabs[k as usize]).clone();
                self.tab(i, v, w)
            }
            _ => self.mk_pub(N::FBits(f), w),
        }
    }
    pub fn ftab(&mut self, idx: T, mut vals: Vec<u128>, w: u16) -> F {
        if let Some(c) = self.cv(idx) {
            return self.fc(vals[c as usize] as u64, w);
        }
        let lo = self.e[idx as usize].ulo as usize;
        let hi = self.e[idx as usize].uhi as usize;
        let last = *vals.last().unwrap();
        vals.resize(hi + 1, last);
        let first = vals[lo];
        if vals[lo..].iter().all(|v| *v == first) {
            return self.fc(first as u64, w);
        }
        if let Some((i2, t2)) = self.as_tab(idx) {
            let n = self.e[i2 as usize].uhi as usize + 1;
            let v: Vec<u128> = (0..n).map(|k| vals[(t2[k.min(t2.len() - 1)] as usize).min(vals.len() - 1)]).collect();
            return self.ftab(i2, v, w);
        }
        if let N::ZExt(a) = self.e[idx as usize].n {
            return self.ftab(a, vals, w);
        }
        let k = self.tab_id(vals);
        self.fmk(FN::Tab(idx, k), w)
    }
    /// base indices of a table index
    fn bases(&self, idx: T) -> Vec<T> {
        match self.fl.joints.get(&idx) {
            Some(v) => (**v).clone(),
            None => vec![idx],
        }
    }
    fn dim(&self, t: T) -> usize {
        self.e[t as usize].uhi as usize + 1
    }
    fn joint(&mut self, bs: &[T]) -> Option<T> {
        let mut n = 1usize;
        for b in bs {
            n = n.checked_mul(self.dim(*b))?;
        }
        if n > self.fl.jcap {
            return None;
        }
        if bs.len() == 1 {
            return Some(bs[0]);
        }
        let mut acc = self.zext_to(bs[0], 32);
        for b in &bs[1..] {
            let k = self.dim(*b) as u128;
            let kk = self.c(k, 32);
            acc = self.bin(Op::Mul, acc, kk);
            let x = self.zext_to(*b, 32);
            acc = self.bin(Op::Add, acc, x);
        }
        self.fl.joints.insert(acc, Rc::new(bs.to_vec()));
        Some(acc)
    }
    /// re-index a table over bases `from` to bases `to` (superset)
    fn lift(&self, vals: &[u128], from: &[T], to: &[T]) -> Vec<u128> {
        let dims: Vec<usize> = to.iter().map(|b| self.dim(*b)).collect();
        let n: usize = dims.iter().product();
        let fd: Vec<(usize, usize)> = from.iter().map(|b| (to.iter().position(|x| x == b).unwrap(), self.dim(*b))).collect();
        let mut out = Vec::with_capacity(n);
        let mut ix = vec![0usize; to.len()];
        for _ in 0..n {
            let mut k = 0;
            for (p, d) in &fd {
                k = k * d + ix[*p];
            }
            out.push(vals[k]);
            for q in (0..to.len()).rev() {
                ix[q] += 1;
                if ix[q] < dims[q] {
                    break;
                }
                ix[q] = 0;
            }
        }
        out
    }
    /// table view of a float: (idx, bits per value)
    pub fn tabview(&mut self, f: F) -> Option<(T, Vec<u128>)> {
        let ent = self.fl.e[f as usize].clone();
        let w = ent.w;
        match ent.n {
            FN::Tab(i, k) => Some((i, (*self.tabs[k as usize]).clone())),
            FN::Poly(p) => {
                let p = self.fl.polys[p as usize].clone();
                let mut at: Vec<u32> = p.t.iter().flat_map(|(k, _)| k.clone()).collect();
                at.sort();
                at.dedup();
                let direct = at.len() == 1 && {
                    let t = at[0] / 2;
                    let i = self.as_tab(t).map_or(t, |x| x.0);
                    matches!(self.e[i as usize].n, N::Var(_)) || self.fl.joints.contains_key(&i)
                };
                if !direct {
                    if let Some(r) = self.flat_tab(f) {
                        return Some(r);
                    }
                }
                if at.len() == 1 {
                    let a = at[0];
                    let t = a / 2;
                    let (idx, conv): (T, Option<Rc<Vec<u128>>>) = match self.as_tab(t) {
                        Some((i, v)) => (i, Some(v)),
                        None => (t, None),
                    };
                    if (conv.is_some() || a % 2 == 0) && self.e[idx as usize].w <= 64 && self.e[idx as usize].uhi < 65536 {
                        let n = self.dim(idx);
                        let tw = self.w(t);
                        let out = (0..n)
                            .map(|k| {
                                let raw = match &conv {
                                    Some(v) => v[k.min(v.len() - 1)],
                                    None => k as u128,
                                };
                                let x = if a % 2 == 1 { sgn(raw, tw) } else { raw as i128 };
                                let mut s = p.c;
                                for (k, c) in &p.t {
                                    let mut q = *c;
                                    for _ in 0..k.len() {
                                        q = q.wrapping_mul(x);
                                    }
                                    s = s.wrapping_add(q);
                                }
                                of_f64(s as f64 * (2f64).powi(-(p.e as i32)), w) as u128
                            })
                            .collect();
                        return Some((idx, out));
                    }
                }
                let (lo, hi) = self.poly_range(&p)?;
                if hi - lo < 16384 {
                    let q = Poly { e: 0, c: p.c - lo, t: p.t.clone() };
                    let idx = self.poly_bv(&q)?;
                    // the encoding is non-negative
                    let iw = self.w(idx);
                    if self.e[idx as usize].uhi > mask(iw) / 2 {
                        // bound the index range explicitly
                        let idx2 = self.bounded(idx, (hi - lo) as u128);
                        let mut out: Vec<u128> = (lo..=hi).map(|n| of_f64(n as f64 * (2f64).powi(-(p.e as i32)), w) as u128).collect();
                        let last = *out.last().unwrap();
                        out.resize(self.dim(idx2), last);
                        return Some((idx2, out));
                    }
                    let n = self.e[idx as usize].uhi as i128;
                    let out = (0..=n).map(|k| of_f64((lo + k) as f64 * (2f64).powi(-(p.e as i32)), w) as u128).collect();
                    return Some((idx, out));
                }
                None
            }
            FN::IToF(..) => None,
            FN::Ite(c, a, b) => {
                let (ti, tv) = self.as_tab(c)?;
                let av = self.tabview_c(a, ti)?;
                let bv = self.tabview_c(b, ti)?;
                Some((ti, (0..tv.len()).map(|k| if tv[k] != 0 { av[k] } else { bv[k] }).collect()))
            }
            _ => None,
        }
    }
    /// values of f as a function of idx (f constant or table over idx)
    fn tabview_c(&mut self, f: F, idx: T) -> Option<Vec<u128>> {
        if let Some(b) = self.fconst(f) {
            return Some(vec![b as u128; self.dim(idx)]);
        }
        let (i, v) = self.tabview(f)?;
        if i == idx {
            Some(v)
        } else {
            None
        }
    }
    fn bounded(&mut self, t: T, hi: u128) -> T {
        // values known (by interval reasoning on the polynomial) to be <= hi
        let bits = (128 - hi.leading_zeros()).max(1) as u16;
        self.ext(0, t, bits)
    }
}
pub fn itof_nat(x: u128, tw: u16, sg: bool, w: u16) -> u64 {
    if sg {
        let v = sgn(x, tw);
        if w == 32 {
            (v as f32).to_bits() as u64
        } else {
            (v as f64).to_bits()
        }
    } else if w == 32 {
        (x as f32).to_bits() as u64
    } else {
        (x as f64).to_bits()
    }
}
impl Terms {
    pub fn fmk_pub(&mut self, n: FN, w: u16) -> F {
        self.fmk(n, w)
    }
    pub fn mkpoly_pub(&mut self, p: Poly, w: u16) -> Option<F> {
        self.mkpoly(p, w)
    }
    pub fn bases_pub(&self, i: T) -> Vec<T> {
        self.bases(i)
    }
    pub fn joint_pub(&mut self, b: &[T]) -> Option<T> {
        self.joint(b)
    }
    pub fn lift_pub(&self, v: &[u128], f: &[T], t: &[T]) -> Vec<u128> {
        self.lift(v, f, t)
    }
}
