//! Exact truth tables of terms over a small input domain: path feasibility without solver calls.
//! Verdicts on assertions never come from here.
use crate::exec::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const CAP: usize = 4096;
const BYTES: usize = 1 << 30;

#[derive(Clone)]
pub enum Col {
    B(Rc<Vec<u8>>),
    W(Rc<Vec<u128>>),
    C(u128),
}
impl Col {
    #[inline]
    fn at(&self, i: usize) -> u128 {
        match self {
            Col::B(v) => v[i] as u128,
            Col::W(v) => v[i],
            Col::C(x) => *x,
        }
    }
    fn of(v: Vec<u128>) -> Col {
        if v.iter().all(|x| *x == v[0]) {
            return Col::C(v[0]);
        }
        if v.iter().all(|x| *x < 256) {
            Col::B(Rc::new(v.iter().map(|x| *x as u8).collect()))
        } else {
            Col::W(Rc::new(v))
        }
    }
    fn bytes(&self) -> usize {
        match self {
            Col::B(v) => v.len() + 64,
            Col::W(v) => 16 * v.len() + 64,
            _ => 64,
        }
    }
}
#[derive(Default)]
pub struct Tables {
    dom: Vec<T>,
    n: usize,
    /// per variable id: (stride, size)
    place: HashMap<u32, (usize, usize)>,
    cols: HashMap<T, Option<Col>>,
    bytes: usize,
    pub used: u64,
}
#[derive(Clone, Default)]
pub struct Alive {
    dom: usize,
    npc: usize,
    first: T,
    bits: Rc<Vec<bool>>,
    ok: bool,
}

impl Exec {
    fn set_dom(&mut self, inputs: &[T]) -> bool {
        if self.tt.dom == inputs {
            return self.tt.n > 0;
        }
        self.tt.dom = inputs.to_vec();
        self.tt.n = 0;
        self.tt.place.clear();
        self.tt.cols.clear();
        self.tt.bytes = 0;
        let mut n = 1usize;
        for &t in inputs {
            match self.ts.e[t as usize].n {
                N::Var(i) => {
                    let h = self.ts.vars[i as usize].hi;
                    if h >= CAP as u128 {
                        return false;
                    }
                    let k = h as usize + 1;
                    self.tt.place.insert(i, (n, k));
                    n *= k;
                    if n > CAP {
                        return false;
                    }
                }
                N::Const(_) => {}
                _ => return false,
            }
        }
        self.tt.n = n;
        true
    }
    fn col(&mut self, t: T) -> Option<Col> {
        if let N::Const(v) = self.ts.e[t as usize].n {
            return Some(Col::C(v));
        }
        if let Some(c) = self.tt.cols.get(&t) {
            return c.clone();
        }
        let c = self.col0(t);
        if let Some(c) = &c {
            self.tt.bytes += c.bytes();
        }
        self.tt.cols.insert(t, c.clone());
        c
    }
    fn col0(&mut self, t: T) -> Option<Col> {
        let e = self.ts.e[t as usize].clone();
        let w = e.w;
        let n = self.tt.n;
        let map1 = |a: Col, f: &dyn Fn(u128) -> u128| match a {
            Col::C(x) => Col::C(f(x)),
            a => Col::of((0..n).map(|i| f(a.at(i))).collect()),
        };
        let map2 = |a: Col, b: Col, f: &dyn Fn(u128, u128) -> u128| match (a, b) {
            (Col::C(x), Col::C(y)) => Col::C(f(x, y)),
            (a, b) => Col::of((0..n).map(|i| f(a.at(i), b.at(i))).collect()),
        };
        let m = mask(w);
        Some(match e.n {
            N::Const(_) => return None,
            N::Var(i) => {
                let (st, k) = *self.tt.place.get(&i)?;
                Col::of((0..n).map(|j| ((j / st) % k) as u128).collect())
            }
            N::Bin(op, a, b) => {
                let (a, b) = (self.col(a)?, self.col(b)?);
                map2(a, b, &|x, y| eval_bin(op, x as u128, y as u128, w) as u128)
            }
            N::Not(a) => {
                let a = self.col(a)?;
                map1(a, &|x| !x & m)
            }
            N::Cmp(c, a, b) => {
                let aw = self.ts.w(a);
                let (a, b) = (self.col(a)?, self.col(b)?);
                map2(a, b, &|x, y| eval_cmp(c, x as u128, y as u128, aw) as u128)
            }
            N::Ite(c, a, b) => {
                let (c, a, b) = (self.col(c)?, self.col(a)?, self.col(b)?);
                match c {
                    Col::C(0) => b,
                    Col::C(_) => a,
                    c => Col::of((0..n).map(|i| if c.at(i) != 0 { a.at(i) } else { b.at(i) }).collect()),
                }
            }
            N::Ext(lo, a) => {
                let a = self.col(a)?;
                map1(a, &|x| ((x as u128 >> lo) as u128) & m)
            }
            N::Concat(a, b) => {
                let bw = self.ts.w(b);
                let (a, b) = (self.col(a)?, self.col(b)?);
                map2(a, b, &|x, y| ((x as u128) << bw) as u128 | y)
            }
            N::ZExt(a) => self.col(a)?,
            N::SExt(a) => {
                let aw = self.ts.w(a);
                let a = self.col(a)?;
                map1(a, &|x| (sgn(x as u128, aw) as u128) & m)
            }
            N::Tab(i, k) => {
                let a = self.col(i)?;
                let tb = self.ts.tabs[k as usize].clone();
                map1(a, &|x| tb[(x as usize).min(tb.len() - 1)] as u128)
            }
            N::FBits(_) | N::FCmp(..) | N::FToI(..) => return self.by_eval(t),
        })
    }
    fn by_eval(&mut self, t: T) -> Option<Col> {
        let mut v = Vec::with_capacity(self.tt.n);
        let nv = self.ts.vars.len();
        let pl: Vec<(u32, (usize, usize))> = self.tt.place.iter().map(|(a, b)| (*a, *b)).collect();
        for j in 0..self.tt.n {
            let mut vals = vec![0u128; nv];
            for (i, (st, k)) in &pl {
                vals[*i as usize] = ((j / st) % k) as u128;
            }
            let m = self.ts.new_model(vals);
            v.push(self.ts.eval(t, &m) as u128);
        }
        Some(Col::of(v))
    }
    /// is pc && c satisfiable? None if tables do not apply
    pub fn tt_feasible(&mut self, s: &State, c: T) -> Option<Option<Model>> {
        if s.inputs.len() > 16 || !self.set_dom(&s.inputs) {
            return None;
        }
        if self.tt.bytes > BYTES {
            self.tt.cols.clear();
            self.tt.bytes = 0;
        }
        let n = self.tt.n;
        let mut al = s.alive.borrow().clone();
        if !al.ok || al.dom != s.inputs.len() || al.npc > s.pc.len() || (al.npc > 0 && al.first != s.pc[al.npc - 1]) {
            al = Alive { dom: s.inputs.len(), npc: 0, first: 0, bits: Rc::new(vec![true; n]), ok: true };
        }
        if al.npc < s.pc.len() {
            let mut b = (*al.bits).clone();
            for &p in &s.pc[al.npc..] {
                let c = self.col(p)?;
                for (i, x) in b.iter_mut().enumerate() {
                    *x &= c.at(i) != 0;
                }
            }
            al.npc = s.pc.len();
            al.first = s.pc[al.npc - 1];
            al.bits = Rc::new(b);
        }
        let c = self.col(c)?;
        let k = (0..n).find(|i| al.bits[*i] && c.at(*i) != 0);
        *s.alive.borrow_mut() = al;
        self.tt.used += 1;
        Some(k.map(|j| {
            let mut vals = vec![0u128; self.ts.vars.len()];
            for (i, (st, k)) in &self.tt.place {
                vals[*i as usize] = ((j / st) % k) as u128;
            }
            self.ts.new_model(vals)
        }))
    }
    /// Exact bounds of arithmetic in a query, so that they are emitted
    /// in the width they need. Bounds met under a path condition are those over the inputs which
    /// satisfy the conditions before it, in the order of emission.
    pub fn operand_ranges(&mut self, s: &State, neg: T) -> crate::smt::Rgs {
        let mut out = crate::smt::Rgs::default();
        if s.inputs.len() > 16 || !self.set_dom(&s.inputs) || self.tt.bytes > BYTES {
            return out;
        }
        let n = self.tt.n;
        let mut alive = vec![true; n];
        let mut seen = std::collections::HashSet::new();
        let mut steps: Vec<T> = s.pc.clone();
        steps.push(neg);
        for p in steps {
            let mut st = vec![p];
            while let Some(t) = st.pop() {
                if !seen.insert(t) {
                    continue;
                }
                let e = self.ts.e[t as usize].clone();
                match e.n {
                    N::Bin(op, a, b) => {
                        st.push(a);
                        st.push(b);
                        if e.w > 8 && e.w <= 64 && matches!(op, Op::Add | Op::Sub | Op::Mul) {
                            if let Some(x) = self.bounds(t, &alive) {
                                out.insert(t, (x, x));
                            }
                        } else if e.w > 8 && e.w <= 64 && crate::smt::costly(op) {
                            if let (Some(x), Some(y)) = (self.bounds(a, &alive), self.bounds(b, &alive)) {
                                out.insert(t, (x, y));
                            }
                        }
                    }
                    N::Cmp(_, a, b) | N::Concat(a, b) => {
                        st.push(a);
                        st.push(b);
                    }
                    N::Ite(a, b, c) => {
                        st.push(a);
                        st.push(b);
                        st.push(c);
                    }
                    N::Not(a) | N::Ext(_, a) | N::ZExt(a) | N::SExt(a) | N::Tab(a, _) => st.push(a),
                    N::Const(_) | N::Var(_) => {}
                    // operands inside floating-point terms are not visited: their order of
                    // emission is unknown, which matters in a path condition
                    N::FBits(_) | N::FCmp(..) | N::FToI(..) => {
                        if p != neg {
                            return crate::smt::Rgs::default();
                        }
                    }
                }
            }
            match self.col(p) {
                Some(c) => {
                    for (i, x) in alive.iter_mut().enumerate() {
                        *x &= c.at(i) != 0;
                    }
                }
                None => return out,
            }
        }
        out
    }
    fn bounds(&mut self, t: T, alive: &[bool]) -> Option<crate::smt::Rg> {
        let w = self.ts.w(t);
        let r0 = crate::smt::rg(&self.ts.e[t as usize]);
        let c = self.col(t)?;
        let mut r: Option<crate::smt::Rg> = None;
        for (i, _) in alive.iter().enumerate().filter(|x| *x.1) {
            let u = c.at(i);
            let v = sgn(u, w);
            r = Some(match r {
                None => crate::smt::Rg { ulo: u, uhi: u, slo: v, shi: v },
                Some(q) => crate::smt::Rg { ulo: q.ulo.min(u), uhi: q.uhi.max(u), slo: q.slo.min(v), shi: q.shi.max(v) },
            });
        }
        Some(r.unwrap_or(r0))
    }
}
