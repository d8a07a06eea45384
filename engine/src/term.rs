//! Hash-consed bit-vector terms with ranges, tables and light rewriting.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type F = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cm {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FCm {
    Eq,
    Lt,
    Le,
    Uno,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(Op, T, T),
    Not(T),
    Cmp(Cm, T, T),
    Ite(T, T, T),
    Ext(u16, T),
    Concat(T, T),
    ZExt(T),
    SExt(T),
    Tab(T, u32),
    FBits(F),
    FCmp(FCm, F, F),
    /// saturating float to integer conversion (signed?)
    FToI(bool, F),
}

pub const MANY: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Ent {
    pub n: N,
    pub w: u16,
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
    /// variables this term depends on: (NONE,NONE), (v,NONE), (v,u) or (MANY,MANY)
    pub sup: (u32, u32),
}
const NONE: u32 = u32::MAX - 1;

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u16,
    pub hi: u128,
    pub kind: u8, // 0 input, 1 auxiliary
    pub term: T,
}

pub struct Model {
    pub id: u32,
    pub vals: Vec<u128>,
}

pub struct Terms {
    pub e: Vec<Ent>,
    map: HashMap<(N, u16), T>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<(u32, u16, u128, u8), u32>,
    pub tabs: Vec<Rc<Vec<u128>>>,
    tabmap: HashMap<Rc<Vec<u128>>, u32>,
    pub cache: Vec<(u32, u128)>,
    pub fl: crate::flt::Floats,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sgn(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if w > 0 && (v >> (w - 1)) & 1 == 1 {
        (v as i128) - (1i128 << w)
    } else {
        v as i128
    }
}

pub fn eval_bin(op: Op, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sgn(a, w), sgn(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sgn(a, w), sgn(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sgn(a, w);
            if b >= w as u128 {
                (if s < 0 { -1i128 } else { 0 }) as u128
            } else {
                (s >> b) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn eval_cmp(c: Cm, a: u128, b: u128, w: u16) -> bool {
    match c {
        Cm::Eq => a == b,
        Cm::Ult => a < b,
        Cm::Ule => a <= b,
        Cm::Slt => sgn(a, w) < sgn(b, w),
        Cm::Sle => sgn(a, w) <= sgn(b, w),
    }
}

fn sup_join(a: (u32, u32), b: (u32, u32)) -> (u32, u32) {
    if a.0 == MANY || b.0 == MANY {
        return (MANY, MANY);
    }
    let mut v = [NONE; 4];
    let mut n = 0;
    for x in [a.0, a.1, b.0, b.1] {
        if x != NONE && !v[..n].contains(&x) {
            v[n] = x;
            n += 1;
        }
    }
    match n {
        0 => (NONE, NONE),
        1 => (v[0], NONE),
        2 => (v[0].min(v[1]), v[0].max(v[1])),
        _ => (MANY, MANY),
    }
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            e: vec![],
            map: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            tabs: vec![],
            tabmap: HashMap::new(),
            cache: vec![],
            fl: crate::flt::Floats::default(),
        };
        t.c(0, 1);
        t.c(1, 1);
        t
    }
    pub fn fals(&mut self) -> T {
        0
    }
    pub fn tru(&mut self) -> T {
        1
    }
    pub fn w(&self, t: T) -> u16 {
        self.e[t as usize].w
    }
    pub fn cv(&self, t: T) -> Option<u128> {
        if let N::Const(v) = self.e[t as usize].n {
            Some(v)
        } else {
            None
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> T {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, idx: u32, w: u16, hi: u128, kind: u8) -> T {
        let hi = hi.min(mask(w));
        if let Some(&v) = self.varmap.get(&(idx, w, hi, kind)) {
            return self.vars[v as usize].term;
        }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { w, hi, kind, term: 0 });
        self.varmap.insert((idx, w, hi, kind), v);
        let t = self.mk(N::Var(v), w);
        self.vars[v as usize].term = t;
        t
    }
    pub fn tab_id(&mut self, v: Vec<u128>) -> u32 {
        let r = Rc::new(v);
        if let Some(&i) = self.tabmap.get(&r) {
            return i;
        }
        let i = self.tabs.len() as u32;
        self.tabs.push(r.clone());
        self.tabmap.insert(r, i);
        i
    }
    pub fn mk_pub(&mut self, n: N, w: u16) -> T {
        self.mk(n, w)
    }
    fn mk(&mut self, n: N, w: u16) -> T {
        if let Some(&t) = self.map.get(&(n.clone(), w)) {
            return t;
        }
        let mut ent = self.ranges(&n, w);
        if w <= 64 {
            // combine signed and unsigned information
            let half = 1u128 << (w - 1);
            if ent.uhi < half {
                ent.slo = ent.slo.max(ent.ulo as i128);
                ent.shi = ent.shi.min(ent.uhi as i128);
            } else if ent.ulo >= half {
                ent.slo = ent.slo.max(sgn(ent.ulo, w));
                ent.shi = ent.shi.min(sgn(ent.uhi, w));
            }
            if ent.slo >= 0 {
                ent.ulo = ent.ulo.max(ent.slo as u128);
                ent.uhi = ent.uhi.min(ent.shi as u128);
            } else if ent.shi < 0 {
                let m = mask(w);
                ent.ulo = ent.ulo.max((ent.slo as u128) & m);
                ent.uhi = ent.uhi.min((ent.shi as u128) & m);
            }
        }
        // a term whose range is a single value is a constant
        if ent.ulo == ent.uhi && !matches!(n, N::Const(_) | N::Var(_)) {
            return self.c(ent.ulo, w);
        }
        let t = self.e.len() as T;
        self.e.push(ent);
        self.map.insert((n, w), t);
        t
    }
    fn ranges(&self, n: &N, w: u16) -> Ent {
        let m = mask(w);
        let (mut ulo, mut uhi) = (0u128, m);
        let (mut slo, mut shi) = if w <= 64 { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (i128::MIN, i128::MAX) };
        let mut sup = (NONE, NONE);
        let g = |t: T| &self.e[t as usize];
        match n {
            N::Const(v) => {
                ulo = *v;
                uhi = *v;
                slo = sgn(*v, w);
                shi = slo;
            }
            N::Var(i) => {
                uhi = self.vars[*i as usize].hi;
                sup = (*i, NONE);
            }
            N::Bin(op, a, b) => {
                let (a, b) = (g(*a), g(*b));
                sup = sup_join(a.sup, b.sup);
                if w <= 64 {
                    match op {
                        Op::Add => {
                            if a.uhi + b.uhi <= m {
                                ulo = a.ulo + b.ulo;
                                uhi = a.uhi + b.uhi;
                            } else if a.ulo + b.ulo > m {
                                ulo = a.ulo + b.ulo - m - 1;
                                uhi = a.uhi + b.uhi - m - 1;
                            }
                            if a.slo + b.slo >= slo && a.shi + b.shi <= shi {
                                slo = a.slo + b.slo;
                                shi = a.shi + b.shi;
                            }
                        }
                        Op::Sub => {
                            if a.ulo >= b.uhi {
                                ulo = a.ulo - b.uhi;
                                uhi = a.uhi - b.ulo;
                            }
                            if a.slo - b.shi >= slo && a.shi - b.slo <= shi {
                                slo = a.slo - b.shi;
                                shi = a.shi - b.slo;
                            }
                        }
                        Op::Mul => {
                            if let Some(p) = a.uhi.checked_mul(b.uhi) {
                                if p <= m {
                                    ulo = a.ulo * b.ulo;
                                    uhi = p;
                                }
                            }
                            let mut l = i128::MAX;
                            let mut h = i128::MIN;
                            let mut ok = true;
                            for x in [a.slo, a.shi] {
                                for y in [b.slo, b.shi] {
                                    match x.checked_mul(y) {
                                        Some(p) => {
                                            l = l.min(p);
                                            h = h.max(p);
                                        }
                                        None => ok = false,
                                    }
                                }
                            }
                            if ok && l >= slo && h <= shi {
                                slo = l;
                                shi = h;
                            }
                        }
                        Op::UDiv => {
                            if b.ulo > 0 {
                                ulo = a.ulo / b.uhi;
                                uhi = a.uhi / b.ulo;
                            }
                        }
                        Op::URem => {
                            if b.ulo > 0 {
                                uhi = a.uhi.min(b.uhi - 1);
                            }
                        }
                        Op::SDiv => {
                            if b.slo > 0 {
                                let c = [a.slo / b.slo, a.slo / b.shi, a.shi / b.slo, a.shi / b.shi];
                                slo = *c.iter().min().unwrap();
                                shi = *c.iter().max().unwrap();
                            }
                        }
                        Op::SRem => {
                            if b.slo > 0 {
                                let k = b.shi - 1;
                                slo = if a.slo >= 0 { 0 } else { (-k).max(a.slo) };
                                shi = if a.shi <= 0 { 0 } else { k.min(a.shi) };
                            }
                        }
                        Op::And => {
                            uhi = a.uhi.min(b.uhi);
                        }
                        Op::Or => {
                            ulo = a.ulo.max(b.ulo);
                            let h = a.uhi | b.uhi;
                            let bits = 128 - h.leading_zeros();
                            uhi = mask(bits.max(1) as u16).min(m);
                        }
                        Op::Xor => {
                            let h = a.uhi | b.uhi;
                            let bits = 128 - h.leading_zeros();
                            uhi = mask(bits.max(1) as u16).min(m);
                        }
                        Op::LShr => {
                            if b.ulo == b.uhi && b.ulo < 128 {
                                ulo = a.ulo >> b.ulo;
                                uhi = a.uhi >> b.ulo;
                            } else {
                                uhi = a.uhi;
                            }
                        }
                        Op::Shl => {
                            if b.ulo == b.uhi && b.ulo < w as u128 && (a.uhi << b.ulo) <= m {
                                ulo = a.ulo << b.ulo;
                                uhi = a.uhi << b.ulo;
                            }
                        }
                        Op::AShr => {
                            if b.ulo == b.uhi && b.ulo < w as u128 {
                                slo = a.slo >> b.ulo;
                                shi = a.shi >> b.ulo;
                            } else {
                                slo = a.slo.min(0);
                                shi = a.shi.max(0);
                            }
                        }
                    }
                }
            }
            N::Not(a) => {
                let a = g(*a);
                sup = a.sup;
                ulo = m - a.uhi;
                uhi = m - a.ulo;
            }
            N::Cmp(_, a, b) => sup = sup_join(g(*a).sup, g(*b).sup),
            N::Ite(c, a, b) => {
                let (a, b) = (g(*a), g(*b));
                sup = sup_join(g(*c).sup, sup_join(a.sup, b.sup));
                ulo = a.ulo.min(b.ulo);
                uhi = a.uhi.max(b.uhi);
                slo = a.slo.min(b.slo);
                shi = a.shi.max(b.shi);
            }
            N::Ext(lo, a) => {
                let a = g(*a);
                sup = a.sup;
                if (a.uhi >> lo) <= m {
                    ulo = a.ulo >> lo;
                    uhi = a.uhi >> lo;
                }
                if *lo == 0 && a.slo >= slo && a.shi <= shi {
                    slo = a.slo;
                    shi = a.shi;
                }
            }
            N::Concat(a, b) => {
                let bw = g(*b).w;
                let (a, b) = (g(*a), g(*b));
                sup = sup_join(a.sup, b.sup);
                ulo = (a.ulo << bw) | b.ulo;
                uhi = (a.uhi << bw) | b.uhi;
            }
            N::ZExt(a) => {
                let a = g(*a);
                sup = a.sup;
                ulo = a.ulo;
                uhi = a.uhi;
            }
            N::SExt(a) => {
                let a = g(*a);
                sup = a.sup;
                slo = a.slo;
                shi = a.shi;
            }
            N::Tab(i, t) => {
                let i = g(*i);
                sup = i.sup;
                let tb = &self.tabs[*t as usize];
                let l = (i.ulo as usize).min(tb.len() - 1);
                let h = (i.uhi as usize).min(tb.len() - 1);
                ulo = u128::MAX;
                uhi = 0;
                slo = i128::MAX;
                shi = i128::MIN;
                for &v in &tb[l..=h] {
                    ulo = ulo.min(v);
                    uhi = uhi.max(v);
                    slo = slo.min(sgn(v, w));
                    shi = shi.max(sgn(v, w));
                }
            }
            N::FBits(f) | N::FToI(_, f) => {
                sup = self.fl.sup(*f);
                if let N::FToI(sg, f) = n {
                    if let Some((l, h)) = self.fl.range(*f) {
                        if *sg {
                            slo = slo.max((l.trunc() as i128).clamp(slo, shi));
                            shi = shi.min((h.trunc() as i128).clamp(slo, shi));
                        } else {
                            ulo = (l.trunc().max(0.0) as u128).min(uhi);
                            uhi = (h.trunc().max(0.0) as u128).min(uhi);
                        }
                    }
                }
            }
            N::FCmp(_, a, b) => sup = sup_join(self.fl.sup(*a), self.fl.sup(*b)),
        }
        Ent { n: n.clone(), w, ulo, uhi, slo, shi, sup }
    }
    pub fn sup_join(a: (u32, u32), b: (u32, u32)) -> (u32, u32) {
        sup_join(a, b)
    }
    pub fn sup_none() -> (u32, u32) {
        (NONE, NONE)
    }
}
