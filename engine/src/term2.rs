//! Simplifying constructors and evaluation.
use crate::term::*;

const TAB_MAX: usize = 4096;

impl Terms {
    fn raw(&mut self, n: N, w: u16) -> T {
        self.mk_pub(n, w)
    }
    /// view of t as a table over a term: (idx, values)
    pub fn as_tab(&self, t: T) -> Option<(T, std::rc::Rc<Vec<u128>>)> {
        match &self.e[t as usize].n {
            N::Tab(i, k) => Some((*i, self.tabs[*k as usize].clone())),
            N::ZExt(a) | N::SExt(a) => {
                // identity extension of a table index is handled by callers
                let _ = a;
                None
            }
            _ => None,
        }
    }
    /// values of t as a function of idx, if t is a table over idx, idx itself, an
    /// extension of it, or a constant
    fn over(&self, t: T, idx: T) -> Option<Vec<u128>> {
        let n = self.e[idx as usize].uhi as usize + 1;
        if t == idx {
            return Some((0..n as u128).collect());
        }
        let e = &self.e[t as usize];
        match &e.n {
            N::Const(v) => Some(vec![*v; n]),
            N::Tab(i, k) if *i == idx => Some((*self.tabs[*k as usize]).clone()),
            N::ZExt(a) => self.over(*a, idx),
            N::SExt(a) => {
                let w = self.e[*a as usize].w;
                let m = mask(e.w);
                self.over(*a, idx).map(|v| v.iter().map(|x| (sgn(*x, w) as u128) & m).collect())
            }
            _ => None,
        }
    }
    fn tab_idx(&self, a: T) -> Option<T> {
        match &self.e[a as usize].n {
            N::Tab(i, _) => Some(*i),
            _ => None,
        }
    }
    pub fn tab(&mut self, idx: T, mut vals: Vec<u128>, w: u16) -> T {
        let m = mask(w);
        let hi = self.e[idx as usize].uhi;
        let lo = self.e[idx as usize].ulo;
        for v in vals.iter_mut() {
            *v &= m;
        }
        if let Some(c) = self.cv(idx) {
            let k = (c as usize).min(vals.len() - 1);
            return self.c(vals[k], w);
        }
        let last = *vals.last().unwrap();
        vals.resize(hi as usize + 1, last);
        let first = vals[lo as usize];
        if vals[lo as usize..].iter().all(|v| *v == first) {
            return self.c(first, w);
        }
        // identity table
        if vals.iter().enumerate().all(|(i, v)| *v == i as u128) && vals.len() as u128 == hi + 1 {
            return self.zext_to(idx, w);
        }
        // composition
        if let Some((i2, t2)) = self.as_tab(idx) {
            let n = self.e[i2 as usize].uhi as usize + 1;
            let v: Vec<u128> = (0..n).map(|k| vals[(t2[k.min(t2.len() - 1)] as usize).min(vals.len() - 1)]).collect();
            return self.tab(i2, v, w);
        }
        if let N::ZExt(a) = self.e[idx as usize].n {
            return self.tab(a, vals, w);
        }
        let k = self.tab_id(vals);
        self.raw(N::Tab(idx, k), w)
    }
    pub fn zext_to(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            a
        } else if aw < w {
            self.zext(a, w)
        } else {
            self.ext(0, a, w)
        }
    }
    pub fn sext_to(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            a
        } else if aw < w {
            self.sext(a, w)
        } else {
            self.ext(0, a, w)
        }
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        if self.w(a) == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(v, w);
        }
        match self.e[a as usize].n.clone() {
            N::ZExt(b) => return self.zext(b, w),
            N::Tab(i, k) => {
                let v = (*self.tabs[k as usize]).clone();
                return self.tab(i, v, w);
            }
            _ => {}
        }
        self.raw(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sgn(v, aw) as u128, w);
        }
        let e = &self.e[a as usize];
        if aw <= 64 && e.slo >= 0 {
            return self.zext(a, w);
        }
        match e.n.clone() {
            N::SExt(b) => return self.sext(b, w),
            N::Tab(i, k) => {
                let v = self.tabs[k as usize].iter().map(|x| sgn(*x, aw) as u128).collect();
                return self.tab(i, v, w);
            }
            _ => {}
        }
        self.raw(N::SExt(a), w)
    }
    /// extract w bits starting at lo
    pub fn ext(&mut self, lo: u16, a: T, w: u16) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(v >> lo, w);
        }
        match self.e[a as usize].n.clone() {
            N::Ext(l2, b) => return self.ext(lo + l2, b, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.ext(lo, l, w);
                }
                if lo >= lw {
                    return self.ext(lo - lw, h, w);
                }
                let lp = self.ext(lo, l, lw - lo);
                let hp = self.ext(0, h, w - (lw - lo));
                return self.concat(hp, lp);
            }
            N::ZExt(b) => {
                let bw = self.w(b);
                if lo >= bw {
                    return self.c(0, w);
                }
                if lo + w <= bw {
                    return self.ext(lo, b, w);
                }
                let x = self.ext(lo, b, bw - lo);
                return self.zext(x, w);
            }
            N::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw {
                    return self.ext(lo, b, w);
                }
                if lo == 0 {
                    return self.sext(b, w);
                }
            }
            N::Tab(i, k) => {
                let v = self.tabs[k as usize].iter().map(|x| x >> lo).collect();
                return self.tab(i, v, w);
            }
            N::Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let x = self.ext(lo, x, w);
                    let y = self.ext(lo, y, w);
                    return self.ite(c, x, y);
                }
            }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) if self.cv(y).is_some() => {
                let x = self.ext(lo, x, w);
                let y = self.ext(lo, y, w);
                return self.bin(op, x, y);
            }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let triv = |s: &Self, t: T| matches!(s.e[t as usize].n, N::Const(_) | N::ZExt(_) | N::SExt(_));
                if triv(self, x) && triv(self, y) {
                    let x = self.ext(0, x, w);
                    let y = self.ext(0, y, w);
                    return self.bin(op, x, y);
                }
            }
            _ => {}
        }
        if lo > 0 && aw <= 64 && self.e[a as usize].uhi >> lo == 0 {
            return self.c(0, w);
        }
        self.raw(N::Ext(lo, a), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.c((a << lw) | b, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::Ext(lh, a), N::Ext(ll, b)) = (self.e[h as usize].n.clone(), self.e[l as usize].n.clone()) {
            if a == b && lh == ll + lw {
                return self.ext(ll, a, w);
            }
        }
        // concat(h, concat(x, y)) with h,x adjacent extracts
        if let (N::Ext(lh, a), N::Concat(x, y)) = (self.e[h as usize].n.clone(), self.e[l as usize].n.clone()) {
            if let N::Ext(lx, b) = self.e[x as usize].n.clone() {
                if a == b && lh == lx + self.w(x) {
                    let xw = self.w(x);
                    let nx = self.ext(lx, a, hw + xw);
                    return self.concat(nx, y);
                }
            }
        }
        if let (N::Ext(lh, a), true) = (self.e[h as usize].n.clone(), true) {
            if lh == lw && lw == self.w(l) {
                // high part of a plus its own low part in truncated form
                let lowp = self.ext(0, a, lw);
                if lowp == l {
                    return self.ext(0, a, w);
                }
            }
        }
        self.raw(N::Concat(h, l), w)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.c(!v, w);
        }
        match self.e[a as usize].n.clone() {
            N::Not(b) => return b,
            N::Tab(i, k) => {
                let v = self.tabs[k as usize].iter().map(|x| !x).collect();
                return self.tab(i, v, w);
            }
            N::Cmp(Cm::Ult, x, y) => return self.cmp(Cm::Ule, y, x),
            N::Cmp(Cm::Ule, x, y) => return self.cmp(Cm::Ult, y, x),
            N::Cmp(Cm::Slt, x, y) => return self.cmp(Cm::Sle, y, x),
            N::Cmp(Cm::Sle, x, y) => return self.cmp(Cm::Slt, y, x),
            _ => {}
        }
        self.raw(N::Not(a), w)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    fn try_tab2(&mut self, w: u16, a: T, b: T, f: &dyn Fn(u128, u128) -> u128) -> Option<T> {
        let idx = match self.tab_idx(a) {
            Some(i) => i,
            None => self.tab_idx(b)?,
        };
        let va = self.over(a, idx)?;
        let vb = self.over(b, idx)?;
        let v = va.iter().zip(vb.iter()).map(|(x, y)| f(*x, *y)).collect();
        Some(self.tab(idx, v, w))
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(eval_bin(op, x, y, w), w);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let Some(t) = self.try_tab2(w, a, b, &|x, y| eval_bin(op, x, y, w)) {
            return t;
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if let N::Bin(Op::Add, p, q) = self.e[a as usize].n.clone() {
                        if let Some(k) = self.cv(q) {
                            let k2 = self.c(k.wrapping_add(y), w);
                            return self.bin(Op::Add, p, k2);
                        }
                    }
                } else {
                    // pull constants outward
                    if let N::Bin(Op::Add, p, q) = self.e[a as usize].n.clone() {
                        if self.cv(q).is_some() {
                            let s = self.bin(Op::Add, p, b);
                            return self.bin(Op::Add, s, q);
                        }
                    }
                    if let N::Bin(Op::Add, p, q) = self.e[b as usize].n.clone() {
                        if self.cv(q).is_some() {
                            let s = self.bin(Op::Add, a, p);
                            return self.bin(Op::Add, s, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                if let N::Bin(Op::Add, p, q) = self.e[a as usize].n.clone() {
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if let N::Bin(Op::Mul, p, q) = self.e[a as usize].n.clone() {
                        if let Some(k) = self.cv(q) {
                            let k2 = self.c(k.wrapping_mul(y), w);
                            return self.bin(Op::Mul, p, k2);
                        }
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y > 0 && self.e[a as usize].uhi < y && w <= 64 {
                        return self.c(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.c(0, w);
                    }
                    if y > 0 && self.e[a as usize].uhi < y && w <= 64 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if w <= 64 && self.e[a as usize].slo >= 0 && self.e[b as usize].slo >= 0 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                if cb == Some(1) {
                    return if op == Op::SDiv { a } else { self.c(0, w) };
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    let yb = y + 1;
                    if y < m && yb.is_power_of_two() {
                        let k = yb.trailing_zeros() as u16;
                        let x = self.ext(0, a, k);
                        return self.zext(x, w);
                    }
                    if let N::ZExt(x) = self.e[a as usize].n.clone() {
                        let xw = self.w(x);
                        let k = self.c(y, xw);
                        let r = self.bin(Op::And, x, k);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.not(a) == b {
                        return 0;
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.not(a) == b {
                        return 1;
                    }
                } else {
                    // disjoint halves: concat(h, 0) | zext(l)
                    for (x, y) in [(a, b), (b, a)] {
                        if let (N::Concat(h, l), N::ZExt(z)) = (self.e[x as usize].n.clone(), self.e[y as usize].n.clone()) {
                            let lw = self.w(l);
                            if self.cv(l) == Some(0) && self.w(z) <= lw {
                                let z = self.zext(z, lw);
                                return self.concat(h, z);
                            }
                        }
                        // zext(concat(h,0)) | zext(l)
                        if let (N::ZExt(q), N::ZExt(z)) = (self.e[x as usize].n.clone(), self.e[y as usize].n.clone()) {
                            if let N::Concat(h, l) = self.e[q as usize].n.clone() {
                                let lw = self.w(l);
                                if self.cv(l) == Some(0) && self.w(z) <= lw {
                                    let z = self.zext(z, lw);
                                    let r = self.concat(h, z);
                                    return self.zext(r, w);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    if w <= 64 && (self.e[a as usize].uhi << k) <= m {
                        let kk = self.c(1u128 << k, w);
                        if !matches!(self.e[a as usize].n, N::ZExt(_)) {
                            return self.bin(Op::Mul, a, kk);
                        }
                    }
                    let x = self.ext(0, a, w - k as u16);
                    let z = self.c(0, k as u16);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.ext(k as u16, a, w - k as u16);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if w <= 64 && self.e[a as usize].slo >= 0 {
                    return self.bin(Op::LShr, a, b);
                }
            }
        }
        self.raw(N::Bin(op, a, b), w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.cmp(Cm::Eq, a, b)
    }
    pub fn cmp(&mut self, c: Cm, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return match c {
                Cm::Eq | Cm::Ule | Cm::Sle => 1,
                _ => 0,
            };
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return eval_cmp(c, x, y, w) as T;
        }
        if let Some(t) = self.try_tab2(1, a, b, &|x, y| eval_cmp(c, x, y, w) as u128) {
            return t;
        }
        if c == Cm::Eq && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ea, eb) = (self.e[a as usize].clone(), self.e[b as usize].clone());
        if w <= 64 {
            match c {
                Cm::Eq => {
                    if ea.uhi < eb.ulo || eb.uhi < ea.ulo || ea.shi < eb.slo || eb.shi < ea.slo {
                        return 0;
                    }
                }
                Cm::Ult => {
                    if ea.uhi < eb.ulo {
                        return 1;
                    }
                    if ea.ulo >= eb.uhi {
                        return 0;
                    }
                }
                Cm::Ule => {
                    if ea.uhi <= eb.ulo {
                        return 1;
                    }
                    if ea.ulo > eb.uhi {
                        return 0;
                    }
                }
                Cm::Slt => {
                    if ea.shi < eb.slo {
                        return 1;
                    }
                    if ea.slo >= eb.shi {
                        return 0;
                    }
                    if ea.slo >= 0 && eb.slo >= 0 {
                        return self.cmp(Cm::Ult, a, b);
                    }
                }
                Cm::Sle => {
                    if ea.shi <= eb.slo {
                        return 1;
                    }
                    if ea.slo > eb.shi {
                        return 0;
                    }
                    if ea.slo >= 0 && eb.slo >= 0 {
                        return self.cmp(Cm::Ule, a, b);
                    }
                }
            }
        }
        if w == 1 && c == Cm::Eq {
            if self.cv(b) == Some(1) {
                return a;
            }
            if self.cv(b) == Some(0) {
                return self.not(a);
            }
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        if w == 1 && c == Cm::Ult {
            let na = self.not(a);
            return self.and(na, b);
        }
        // strip extensions
        match c {
            Cm::Eq | Cm::Ult | Cm::Ule => {
                if let N::ZExt(x) = ea.n {
                    let xw = self.w(x);
                    if let N::ZExt(y) = eb.n {
                        let yw = self.w(y);
                        let k = xw.max(yw);
                        let x = self.zext(x, k);
                        let y = self.zext(y, k);
                        return self.cmp(c, x, y);
                    }
                    if let Some(k) = self.cv(b) {
                        if k <= mask(xw) {
                            let y = self.c(k, xw);
                            return self.cmp(c, x, y);
                        }
                    }
                }
                if let (N::ZExt(y), Some(k)) = (eb.n.clone(), self.cv(a)) {
                    let yw = self.w(y);
                    if k <= mask(yw) {
                        let x = self.c(k, yw);
                        return self.cmp(c, x, y);
                    }
                }
            }
            _ => {}
        }
        if let (N::SExt(x), N::SExt(y)) = (ea.n.clone(), eb.n.clone()) {
            if self.w(x) == self.w(y) && matches!(c, Cm::Eq | Cm::Slt | Cm::Sle) {
                return self.cmp(c, x, y);
            }
        }
        if c == Cm::Eq {
            if let Some(k) = self.cv(b) {
                match ea.n.clone() {
                    N::Bin(Op::Add, p, q) => {
                        if let Some(k1) = self.cv(q) {
                            let kk = self.c(k.wrapping_sub(k1), w);
                            return self.cmp(Cm::Eq, p, kk);
                        }
                    }
                    N::SExt(x) => {
                        let xw = self.w(x);
                        let y = self.c(k, xw);
                        let back = self.c(sgn(k & mask(xw), xw) as u128, w);
                        if back == b {
                            return self.cmp(Cm::Eq, x, y);
                        }
                        return 0;
                    }
                    N::Concat(h, l) => {
                        let lw = self.w(l);
                        let hw = self.w(h);
                        let kh = self.c(k >> lw, hw);
                        let kl = self.c(k, lw);
                        let x = self.cmp(Cm::Eq, h, kh);
                        let y = self.cmp(Cm::Eq, l, kl);
                        return self.and(x, y);
                    }
                    N::Ite(cc, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                        let x = self.cmp(Cm::Eq, x, b);
                        let y = self.cmp(Cm::Eq, y, b);
                        return self.ite(cc, x, y);
                    }
                    _ => {}
                }
            }
            // x + k1 == y + k2 handled by constant pulling in Add; common addend
            if let (N::Bin(Op::Add, p, q), N::Bin(Op::Add, r, s)) = (ea.n.clone(), eb.n.clone()) {
                if q == s {
                    return self.cmp(Cm::Eq, p, r);
                }
                if p == r {
                    return self.cmp(Cm::Eq, q, s);
                }
            }
        } else if self.cv(b).is_some() || self.cv(a).is_some() {
            let (x, isb) = if self.cv(b).is_some() { (ea.n.clone(), true) } else { (eb.n.clone(), false) };
            if let N::Ite(cc, p, q) = x {
                if self.cv(p).is_some() || self.cv(q).is_some() {
                    let (p, q) = if isb { (self.cmp(c, p, b), self.cmp(c, q, b)) } else { (self.cmp(c, a, p), self.cmp(c, a, q)) };
                    return self.ite(cc, p, q);
                }
            }
        }
        self.raw(N::Cmp(c, a, b), 1)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let N::Not(d) = self.e[c as usize].n {
            return self.ite(d, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // tables over the same index
        if let Some(idx) = self.tab_idx(c) {
            if let (Some(vc), Some(va), Some(vb)) = (self.over(c, idx), self.over(a, idx), self.over(b, idx)) {
                let v = (0..vc.len()).map(|i| if vc[i] != 0 { va[i] } else { vb[i] }).collect();
                return self.tab(idx, v, w);
            }
        }
        if let N::Ite(c2, x, y) = self.e[a as usize].n {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let cc = self.and(c, c2);
                return self.ite(cc, x, b);
            }
        }
        if let N::Ite(c2, x, y) = self.e[b as usize].n {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
        }
        // common extension
        if let (N::ZExt(x), N::ZExt(y)) = (self.e[a as usize].n.clone(), self.e[b as usize].n.clone()) {
            if self.w(x) == self.w(y) {
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        if let (N::ZExt(x), Some(k)) = (self.e[a as usize].n.clone(), self.cv(b)) {
            let xw = self.w(x);
            if k <= mask(xw) {
                let kk = self.c(k, xw);
                let r = self.ite(c, x, kk);
                return self.zext(r, w);
            }
        }
        if let (Some(k), N::ZExt(x)) = (self.cv(a), self.e[b as usize].n.clone()) {
            let xw = self.w(x);
            if k <= mask(xw) {
                let kk = self.c(k, xw);
                let r = self.ite(c, kk, x);
                return self.zext(r, w);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }

    /// number of combinations of the supporting variables (if at most two), else None
    pub fn combos(&self, t: T) -> Option<usize> {
        let s = self.e[t as usize].sup;
        let mut n = 1u128;
        for v in [s.0, s.1] {
            if v == MANY {
                return None;
            }
            if (v as usize) < self.vars.len() {
                n = n.checked_mul(self.vars[v as usize].hi + 1)?;
            }
        }
        if n > (1 << 30) {
            None
        } else {
            Some(n as usize)
        }
    }
    pub fn tab_max() -> usize {
        TAB_MAX
    }
    /// set of values a term can take, by evaluating it over its (few) supporting variables
    pub fn value_set(&mut self, t: T, limit: usize) -> Option<Vec<u128>> {
        if let Some((i, tb)) = self.as_tab(t) {
            let (l, h) = (self.e[i as usize].ulo as usize, self.e[i as usize].uhi as usize);
            let mut v: Vec<u128> = tb[l..=h.min(tb.len() - 1)].to_vec();
            v.sort();
            v.dedup();
            return if v.len() <= limit { Some(v) } else { None };
        }
        let n = self.combos(t)?;
        if n > 65536 {
            return None;
        }
        let s = self.e[t as usize].sup;
        let mut vals = vec![0u128; self.vars.len()];
        let h0 = if (s.0 as usize) < self.vars.len() { self.vars[s.0 as usize].hi } else { 0 };
        let h1 = if (s.1 as usize) < self.vars.len() { self.vars[s.1 as usize].hi } else { 0 };
        let mut out = std::collections::BTreeSet::new();
        for a in 0..=h0 {
            for b in 0..=h1 {
                if (s.0 as usize) < self.vars.len() {
                    vals[s.0 as usize] = a;
                }
                if (s.1 as usize) < self.vars.len() {
                    vals[s.1 as usize] = b;
                }
                let m = self.new_model(vals.clone());
                out.insert(self.eval(t, &m));
                if out.len() > limit {
                    return None;
                }
            }
        }
        Some(out.into_iter().collect())
    }
    pub fn new_model(&mut self, vals: Vec<u128>) -> Model {
        self.fl.model_ctr += 1;
        Model { id: self.fl.model_ctr, vals }
    }
    pub fn eval(&mut self, t: T, m: &Model) -> u128 {
        if let N::Const(v) = self.e[t as usize].n {
            return v;
        }
        if self.cache.len() < self.e.len() {
            self.cache.resize(self.e.len() + 1024, (0, 0));
        }
        let (id, v) = self.cache[t as usize];
        if id == m.id {
            return v;
        }
        let e = self.e[t as usize].clone();
        let w = e.w;
        let r = match e.n {
            N::Const(v) => v,
            N::Var(i) => {
                let v = m.vals.get(i as usize).copied().unwrap_or(0);
                v.min(self.vars[i as usize].hi)
            }
            N::Bin(op, a, b) => {
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                eval_bin(op, x, y, w)
            }
            N::Not(a) => !self.eval(a, m) & mask(w),
            N::Cmp(c, a, b) => {
                let aw = self.w(a);
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                eval_cmp(c, x, y, aw) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval(c, m) != 0 {
                    self.eval(a, m)
                } else {
                    self.eval(b, m)
                }
            }
            N::Ext(lo, a) => (self.eval(a, m) >> lo) & mask(w),
            N::Concat(a, b) => {
                let bw = self.w(b);
                (self.eval(a, m) << bw) | self.eval(b, m)
            }
            N::ZExt(a) => self.eval(a, m),
            N::SExt(a) => {
                let aw = self.w(a);
                (sgn(self.eval(a, m), aw) as u128) & mask(w)
            }
            N::Tab(i, k) => {
                let x = self.eval(i, m) as usize;
                let tb = &self.tabs[k as usize];
                tb[x.min(tb.len() - 1)]
            }
            N::FBits(f) => self.feval(f, m) as u128,
            N::FCmp(c, a, b) => {
                let fw = self.fl.w(a);
                let x = crate::flt::to_f64(self.feval(a, m), fw);
                let y = crate::flt::to_f64(self.feval(b, m), fw);
                (match c {
                    FCm::Eq => x == y,
                    FCm::Lt => x < y,
                    FCm::Le => x <= y,
                    FCm::Uno => x.is_nan() || y.is_nan(),
                }) as u128
            }
            N::FToI(sg, f) => {
                let fw = self.fl.w(f);
                let x = crate::flt::to_f64(self.feval(f, m), fw);
                crate::flt::sat_conv(x, sg, w)
            }
        };
        if self.cache.len() < self.e.len() {
            self.cache.resize(self.e.len() + 1024, (0, 0));
        }
        self.cache[t as usize] = (m.id, r);
        r
    }
}
