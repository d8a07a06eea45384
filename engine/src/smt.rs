//! SMT-LIB emission and solver processes.
use crate::flt::*;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Default)]
pub struct Emit {
    done: HashSet<T>,
    fdone: HashSet<F>,
    pub vars: Vec<u32>,
    vdone: HashSet<u32>,
    pub out: String,
    pub fp: bool,
    pub inexact: bool,
    pub rgs: Rgs,
    fresh: u32,
}

fn opname(o: Op) -> &'static str {
    match o {
        Op::Add => "bvadd",
        Op::Sub => "bvsub",
        Op::Mul => "bvmul",
        Op::UDiv => "bvudiv",
        Op::SDiv => "bvsdiv",
        Op::URem => "bvurem",
        Op::SRem => "bvsrem",
        Op::Shl => "bvshl",
        Op::LShr => "bvlshr",
        Op::AShr => "bvashr",
        Op::And => "bvand",
        Op::Or => "bvor",
        Op::Xor => "bvxor",
    }
}
fn fsort(w: u16) -> &'static str {
    if w == 32 {
        "8 24"
    } else {
        "11 53"
    }
}

/// width (and signedness) sufficient for an expensive operation, if smaller than `w`
pub fn costly(op: Op) -> bool {
    matches!(op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem)
}
/// unsigned and signed bounds of a term
#[derive(Clone, Copy, Debug)]
pub struct Rg {
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
}
pub fn rg(e: &Ent) -> Rg {
    Rg { ulo: e.ulo, uhi: e.uhi, slo: e.slo, shi: e.shi }
}
/// bounds of the operands of divisions, and of the results of additions, subtractions and
/// multiplications (twice), valid wherever the conditions emitted before hold
pub type Rgs = HashMap<T, (Rg, Rg)>;
/// width (and signedness) of a value within the bounds
fn width_of(r: Rg) -> (u16, bool) {
    let ub = |v: u128| (128 - v.leading_zeros()) as u16;
    let l = if r.slo < 0 { ub(!r.slo as u128) + 1 } else { 1 };
    let h = if r.shi > 0 { ub(r.shi as u128) + 1 } else { 1 };
    let u = ub(r.uhi).max(1);
    if u <= l.max(h) {
        (u, false)
    } else {
        (l.max(h), true)
    }
}
fn narrow(op: Op, x: Rg, y: Rg, w: u16) -> Option<(u16, bool)> {
    if !costly(op) {
        return None;
    }
    let ub = |v: u128| (128 - v.leading_zeros()) as u16;
    let sb = |lo: i128, hi: i128| {
        let l = if lo < 0 { 128 - (!lo as u128).leading_zeros() as u16 + 1 } else { 1 };
        let h = if hi > 0 { 128 - (hi as u128).leading_zeros() as u16 + 1 } else { 1 };
        l.max(h)
    };
    let n = match op {
        Op::Mul => {
            let u = x.uhi.checked_mul(y.uhi).map(|p| ub(p).max(ub(x.uhi)).max(ub(y.uhi)).max(1));
            let c = [(x.slo, y.slo), (x.slo, y.shi), (x.shi, y.slo), (x.shi, y.shi)];
            let mut n = sb(x.slo, x.shi).max(sb(y.slo, y.shi));
            let mut ok = true;
            for (p, q) in c {
                match p.checked_mul(q) {
                    Some(v) => n = n.max(sb(v, v)),
                    None => ok = false,
                }
            }
            match (u, ok) {
                (Some(u), true) if u <= n => (u, false),
                (_, true) => (n, true),
                (Some(u), false) => (u, false),
                _ => return None,
            }
        }
        Op::UDiv | Op::URem => (ub(x.uhi).max(ub(y.uhi)).max(1), false),
        _ => (sb(x.slo, x.shi).max(sb(y.slo, y.shi)) + 1, true),
    };
    if n.0 < w {
        Some(n)
    } else {
        None
    }
}
impl Emit {
    fn rg2(&self, ts: &Terms, t: T, a: T, b: T) -> (Rg, Rg) {
        match self.rgs.get(&t) {
            Some(r) => *r,
            None => (rg(&ts.e[a as usize]), rg(&ts.e[b as usize])),
        }
    }
    fn konst(v: u128, w: u16) -> String {
        if w == 1 {
            (if v != 0 { "true" } else { "false" }).into()
        } else {
            format!("(_ bv{} {})", v, w)
        }
    }
    /// reference to a term in its natural sort (Bool for width 1)
    pub fn r(&self, ts: &Terms, t: T) -> String {
        let e = &ts.e[t as usize];
        match e.n {
            N::Const(v) => Self::konst(v, e.w),
            N::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }
    /// reference as a bit-vector
    fn rb(&self, ts: &Terms, t: T) -> String {
        let r = self.r(ts, t);
        if ts.e[t as usize].w == 1 {
            format!("(ite {} #b1 #b0)", r)
        } else {
            r
        }
    }
    fn tree(&self, idx: &str, iw: u16, runs: &[(usize, u128)], w: u16, out: &mut String) {
        if runs.len() == 1 {
            out.push_str(&Self::konst(runs[0].1, w));
            return;
        }
        let m = runs.len() / 2;
        if iw == 1 {
            // index is Bool
            let _ = write!(out, "(ite {} {} {})", idx, Self::konst(runs[1].1, w), Self::konst(runs[0].1, w));
            return;
        }
        let _ = write!(out, "(ite (bvult {} (_ bv{} {})) ", idx, runs[m].0, iw);
        self.tree(idx, iw, &runs[..m], w, out);
        out.push(' ');
        self.tree(idx, iw, &runs[m..], w, out);
        out.push(')');
    }
    fn table(&self, ts: &Terms, i: T, k: u32, w: u16) -> String {
        let ie = &ts.e[i as usize];
        let tb = &ts.tabs[k as usize];
        let mut runs: Vec<(usize, u128)> = vec![];
        for (p, v) in tb.iter().enumerate().take(ie.uhi as usize + 1) {
            if runs.last().map_or(true, |l| l.1 != *v) {
                runs.push((p, *v));
            }
        }
        let mut s = String::new();
        self.tree(&self.r(ts, i), ie.w, &runs, w, &mut s);
        s
    }
    pub fn need(&mut self, ts: &mut Terms, t: T) {
        if self.done.contains(&t) {
            return;
        }
        let e = ts.e[t as usize].clone();
        let w = e.w;
        let mut s = String::new();
        match e.n {
            N::Const(_) => return,
            N::Var(i) => {
                if self.vdone.insert(i) {
                    self.vars.push(i);
                    let vi = ts.vars[i as usize].clone();
                    if w == 1 {
                        let _ = writeln!(self.out, "(declare-const v{} Bool)", i);
                    } else {
                        // declared ranges are built into the definition
                        let bits = ((128 - vi.hi.leading_zeros()) as u16).max(1).min(w);
                        if bits == w && vi.hi == mask(w) {
                            let _ = writeln!(self.out, "(declare-const v{} (_ BitVec {}))", i, w);
                        } else {
                            let _ = writeln!(self.out, "(declare-const u{} (_ BitVec {}))", i, bits);
                            let mut x = format!("u{}", i);
                            if vi.hi < mask(bits) {
                                x = format!("(ite (bvule u{i} (_ bv{h} {b})) u{i} (_ bv0 {b}))", i = i, h = vi.hi, b = bits);
                            }
                            if bits < w {
                                x = format!("((_ zero_extend {}) {})", w - bits, x);
                            }
                            let _ = writeln!(self.out, "(define-fun v{} () (_ BitVec {}) {})", i, w, x);
                        }
                    }
                }
                self.done.insert(t);
                return;
            }
            N::Bin(op, a, b) => {
                self.need(ts, a);
                self.need(ts, b);
                let (x, y) = (self.r(ts, a), self.r(ts, b));
                if w == 1 {
                    match op {
                        Op::And | Op::Mul => {
                            let _ = write!(s, "(and {} {})", x, y);
                        }
                        Op::Or => {
                            let _ = write!(s, "(or {} {})", x, y);
                        }
                        Op::Xor | Op::Add | Op::Sub => {
                            let _ = write!(s, "(xor {} {})", x, y);
                        }
                        _ => {
                            let _ = write!(s, "(= ({} {} {}) #b1)", opname(op), self.rb(ts, a), self.rb(ts, b));
                        }
                    }
                } else if let (Op::Add | Op::Sub | Op::Mul, Some((n, sg))) = (op, self.rgs.get(&t).map(|r| width_of(r.0)).filter(|r| r.0 < w)) {
                    // the low bits of the result need only the low bits of the operands
                    let _ = write!(s, "((_ {}_extend {}) ({} ((_ extract {} 0) {}) ((_ extract {} 0) {})))", if sg { "sign" } else { "zero" }, w - n, opname(op), n - 1, x, n - 1, y);
                } else if let Some((n, sg)) = narrow(op, self.rg2(ts, t, a, b).0, self.rg2(ts, t, a, b).1, w) {
                    // same value computed in the width the operand ranges need
                    let q = format!("((_ {}_extend {}) ({} ((_ extract {} 0) {}) ((_ extract {} 0) {})))", if sg { "sign" } else { "zero" }, w - n, opname(op), n - 1, x, n - 1, y);
                    if op == Op::UDiv && self.rg2(ts, t, a, b).1.ulo == 0 {
                        let _ = write!(s, "(ite (= {} (_ bv0 {})) (bvnot (_ bv0 {})) {})", y, w, w, q);
                    } else {
                        s = q;
                    }
                } else {
                    let _ = write!(s, "({} {} {})", opname(op), x, y);
                }
            }
            N::Not(a) => {
                self.need(ts, a);
                let _ = write!(s, "({} {})", if w == 1 { "not" } else { "bvnot" }, self.r(ts, a));
            }
            N::Cmp(c, a, b) => {
                self.need(ts, a);
                self.need(ts, b);
                let o = match c {
                    Cm::Eq => "=",
                    Cm::Ult => "bvult",
                    Cm::Ule => "bvule",
                    Cm::Slt => "bvslt",
                    Cm::Sle => "bvsle",
                };
                if c == Cm::Eq {
                    let _ = write!(s, "(= {} {})", self.r(ts, a), self.r(ts, b));
                } else {
                    let _ = write!(s, "({} {} {})", o, self.rb(ts, a), self.rb(ts, b));
                }
            }
            N::Ite(c, a, b) => {
                self.need(ts, c);
                self.need(ts, a);
                self.need(ts, b);
                let _ = write!(s, "(ite {} {} {})", self.r(ts, c), self.r(ts, a), self.r(ts, b));
            }
            N::Ext(lo, a) => {
                self.need(ts, a);
                let x = format!("((_ extract {} {}) {})", lo + w - 1, lo, self.rb(ts, a));
                if w == 1 {
                    let _ = write!(s, "(= {} #b1)", x);
                } else {
                    s = x;
                }
            }
            N::Concat(a, b) => {
                self.need(ts, a);
                self.need(ts, b);
                let _ = write!(s, "(concat {} {})", self.rb(ts, a), self.rb(ts, b));
            }
            N::ZExt(a) => {
                self.need(ts, a);
                let aw = ts.w(a);
                let _ = write!(s, "((_ zero_extend {}) {})", w - aw, self.rb(ts, a));
            }
            N::SExt(a) => {
                self.need(ts, a);
                let aw = ts.w(a);
                let _ = write!(s, "((_ sign_extend {}) {})", w - aw, self.rb(ts, a));
            }
            N::Tab(i, k) => {
                self.need(ts, i);
                s = self.table(ts, i, k, w);
            }
            N::FBits(f) => {
                self.needf(ts, f);
                self.fp = true;
                let _ = write!(s, "(fp.to_ieee_bv f{})", f);
            }
            N::FCmp(c, a, b) => {
                self.needf(ts, a);
                self.needf(ts, b);
                let o = match c {
                    FCm::Eq => "fp.eq",
                    FCm::Lt => "fp.lt",
                    FCm::Le => "fp.leq",
                    FCm::Uno => "",
                };
                if c == FCm::Uno {
                    let _ = write!(s, "(or (fp.isNaN f{}) (fp.isNaN f{}))", a, b);
                } else {
                    let _ = write!(s, "({} f{} f{})", o, a, b);
                }
            }
            N::FToI(sg, f) => {
                self.needf(ts, f);
                let fw = ts.fl.w(f);
                let so = fsort(fw);
                let (lo, hi) = if sg { (-(2f64).powi(w as i32 - 1), (2f64).powi(w as i32 - 1)) } else { (0.0, (2f64).powi(w as i32)) };
                let lim = |v: f64| format!("((_ to_fp {}) (_ bv{} {}))", so, of_f64(v, fw), fw);
                let (lob, hib) = if sg { (1u128 << (w - 1), (1u128 << (w - 1)) - 1) } else { (0, mask(w)) };
                let _ = write!(
                    s,
                    "(ite (fp.isNaN f{f}) (_ bv0 {w}) (ite (fp.leq f{f} {l}) (_ bv{lob} {w}) (ite (fp.geq f{f} {h}) (_ bv{hib} {w}) ((_ fp.to_{su} {w}) RTZ f{f}))))",
                    f = f,
                    w = w,
                    l = lim(lo),
                    h = lim(hi),
                    lob = lob,
                    hib = hib,
                    su = if sg { "sbv" } else { "ubv" }
                );
            }
        }
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let _ = writeln!(self.out, "(define-fun t{} () {} {})", t, sort, s);
        self.done.insert(t);
    }
    fn needf(&mut self, ts: &mut Terms, f: F) {
        if self.fdone.contains(&f) {
            return;
        }
        self.fp = true;
        let e = ts.fl.e[f as usize].clone();
        let w = e.w;
        let so = fsort(w);
        let mut s = String::new();
        match e.n {
            FN::C(b) => {
                let _ = write!(s, "((_ to_fp {}) (_ bv{} {}))", so, b, w);
            }
            FN::Poly(p) => {
                let p = ts.fl.polys[p as usize].clone();
                let q = Poly { e: 0, c: p.c, t: p.t.clone() };
                match ts.poly_bv(&q) {
                    Some(t) => {
                        self.need(ts, t);
                        let k = of_f64((2f64).powi(-(p.e as i32)), w);
                        let _ = write!(s, "(fp.mul RNE ((_ to_fp {}) RNE {}) ((_ to_fp {}) (_ bv{} {})))", so, self.r(ts, t), so, k, w);
                    }
                    None => self.unk(f, w),
                }
            }
            FN::Tab(i, k) => {
                self.need(ts, i);
                let tb = self.table(ts, i, k, w);
                let _ = write!(s, "((_ to_fp {}) {})", so, tb);
            }
            FN::Bits(t) => {
                self.need(ts, t);
                let _ = write!(s, "((_ to_fp {}) {})", so, self.rb(ts, t));
            }
            FN::Ite(c, a, b) => {
                self.need(ts, c);
                self.needf(ts, a);
                self.needf(ts, b);
                let _ = write!(s, "(ite {} f{} f{})", self.r(ts, c), a, b);
            }
            FN::Bin(op, a, b) => {
                self.needf(ts, a);
                self.needf(ts, b);
                let o = match op {
                    FO::Add => "fp.add RNE",
                    FO::Sub => "fp.sub RNE",
                    FO::Mul => "fp.mul RNE",
                    FO::Div => "fp.div RNE",
                    _ => "",
                };
                if o.is_empty() {
                    self.unk(f, w);
                } else {
                    let _ = write!(s, "({} f{} f{})", o, a, b);
                }
            }
            FN::Un(op, a) => {
                self.needf(ts, a);
                let o = match op {
                    FU::Neg => "fp.neg",
                    FU::Abs => "fp.abs",
                    FU::Sqrt => "fp.sqrt RNE",
                    FU::Round => "fp.roundToIntegral RNA",
                    FU::RoundEven => "fp.roundToIntegral RNE",
                    FU::Floor => "fp.roundToIntegral RTN",
                    FU::Ceil => "fp.roundToIntegral RTP",
                    FU::Trunc => "fp.roundToIntegral RTZ",
                    _ => "",
                };
                if o.is_empty() {
                    self.unk(f, w);
                } else {
                    let _ = write!(s, "({} f{})", o, a);
                }
            }
            FN::IToF(t, sg) => {
                self.need(ts, t);
                let _ = write!(s, "((_ {} {}) RNE {})", if sg { "to_fp" } else { "to_fp_unsigned" }, so, self.rb(ts, t));
            }
            FN::Cast(a) => {
                self.needf(ts, a);
                let _ = write!(s, "((_ to_fp {}) RNE f{})", so, a);
            }
        }
        if !s.is_empty() {
            let _ = writeln!(self.out, "(define-fun f{} () (_ FloatingPoint {}) {})", f, so, s);
        }
        self.fdone.insert(f);
    }
    fn unk(&mut self, f: F, w: u16) {
        self.inexact = true;
        self.fresh += 1;
        let _ = writeln!(self.out, "(declare-const f{} (_ FloatingPoint {}))", f, fsort(w));
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

pub struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Proc {
    pub fn z3() -> Proc {
        let bin = std::env::var("VF_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, inp, out }
    }
    pub fn send(&mut self, s: &str) {
        if let Ok(p) = std::env::var("VF_DUMP") {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                let _ = f.write_all(s.as_bytes());
            }
        }
        let _ = self.inp.write_all(s.as_bytes());
    }
    pub fn line(&mut self) -> String {
        let _ = self.inp.flush();
        let mut l = String::new();
        loop {
            l.clear();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => return "(error \"solver died\")".into(),
                _ => {}
            }
            let t = l.trim();
            if !t.is_empty() {
                return t.to_string();
            }
        }
    }
    /// read a balanced s-expression
    pub fn sexpr(&mut self) -> String {
        let _ = self.inp.flush();
        let mut s = String::new();
        let mut d = 0i32;
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => return s,
                _ => {}
            }
            for c in l.chars() {
                if c == '(' {
                    d += 1;
                } else if c == ')' {
                    d -= 1;
                }
            }
            s.push_str(&l);
            if d <= 0 && !s.trim().is_empty() {
                return s;
            }
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn parse_model(s: &str, n: usize) -> Vec<u128> {
    let mut vals = vec![0u128; n];
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(k) = toks[i].strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
            let v = toks[i + 1];
            let x = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).unwrap_or(0)
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).unwrap_or(0)
            } else if v == "true" {
                1
            } else if v == "_" && toks.get(i + 2).map_or(false, |t| t.starts_with("bv")) {
                toks[i + 2][2..].parse().unwrap_or(0)
            } else {
                0
            };
            if k < n {
                vals[k] = x;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    vals
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub verdicts: u64,
    pub time: f64,
    pub unknown: u64,
    pub maxq: f64,
}

pub struct Solver {
    inc: Proc,
    em: Emit,
    stack: Vec<T>,
    one: Proc,
    pub st: Stats,
    pub tmo_ms: u64,
    pub final_ms: u64,
    pub errors: Vec<String>,
}
impl Solver {
    pub fn new(tmo_ms: u64, final_ms: u64) -> Solver {
        let mut s = Solver { inc: Proc::z3(), em: Emit::default(), stack: vec![], one: Proc::z3(), st: Stats::default(), tmo_ms, final_ms, errors: vec![] };
        s.inc.send(&format!("(set-option :global-declarations true)\n(set-option :timeout {})\n", tmo_ms));
        s
    }
    fn sync(&mut self, pc: &[T], ts: &mut Terms) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        if k < self.stack.len() {
            let n = self.stack.len() - k;
            self.inc.send(&format!("(pop {})\n", n));
            self.stack.truncate(k);
        }
        for &t in &pc[k..] {
            self.em.need(ts, t);
            let d = std::mem::take(&mut self.em.out);
            self.inc.send(&d);
            let r = self.em.r(ts, t);
            self.inc.send(&format!("(push 1)\n(assert {})\n", r));
            self.stack.push(t);
        }
    }
    /// is pc && extra satisfiable?  (incremental process)
    pub fn check(&mut self, pc: &[T], extra: T, ts: &mut Terms) -> (Ans, Option<Model>) {
        if extra == 0 {
            return (Ans::Unsat, None);
        }
        let t0 = Instant::now();
        self.sync(pc, ts);
        self.em.need(ts, extra);
        let d = std::mem::take(&mut self.em.out);
        let r = self.em.r(ts, extra);
        self.inc.send(&d);
        self.inc.send(&format!("(push 1)\n(assert {})\n(check-sat)\n", r));
        let a = self.inc.line();
        let mut model = None;
        let mut ans = match a.as_str() {
            "sat" => Ans::Sat,
            "unsat" => Ans::Unsat,
            "unknown" | "timeout" => Ans::Unknown,
            e => {
                self.errors.push(e.to_string());
                Ans::Unknown
            }
        };
        if ans == Ans::Sat {
            model = Some(self.get_model_inc(ts));
        }
        self.inc.send("(pop 1)\n");
        self.st.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        self.st.maxq = self.st.maxq.max(dt);
        if ans == Ans::Unknown && self.errors.is_empty() {
            let (a, m) = self.oneshot(pc, extra, ts, self.final_ms, Rgs::default());
            ans = a;
            model = m;
        }
        (ans, model)
    }
    fn get_model_inc(&mut self, ts: &mut Terms) -> Model {
        let n = ts.vars.len();
        if self.em.vars.is_empty() {
            return ts.new_model(vec![0; n]);
        }
        let mut q = String::from("(get-value (");
        for v in &self.em.vars {
            let _ = write!(q, "v{} ", v);
        }
        q.push_str("))\n");
        self.inc.send(&q);
        let s = self.inc.sexpr();
        if s.contains("error") {
            self.errors.push(s.clone());
        }
        ts.new_model(parse_model(&s, n))
    }
    /// fresh context query; z3 first, then cvc5
    pub fn oneshot(&mut self, pc: &[T], extra: T, ts: &mut Terms, ms: u64, rgs: Rgs) -> (Ans, Option<Model>) {
        let t0 = Instant::now();
        let mut em = Emit::default();
        em.rgs = rgs;
        for &t in pc {
            em.need(ts, t);
        }
        em.need(ts, extra);
        let mut body = std::mem::take(&mut em.out);
        for &t in pc {
            let _ = writeln!(body, "(assert {})", em.r(ts, t));
        }
        let _ = writeln!(body, "(assert {})", em.r(ts, extra));
        let mut gv = String::new();
        if !em.vars.is_empty() {
            gv.push_str("(get-value (");
            for v in &em.vars {
                let _ = write!(gv, "v{} ", v);
            }
            gv.push_str("))\n");
        }
        let n = ts.vars.len();
        let logic = if em.fp { "" } else { "(set-logic QF_BV)\n" };
        self.one.send("(reset)\n");
        self.one.send(&format!("(set-option :timeout {})\n{}{}(check-sat)\n", if em.fp { ms / 4 } else { ms / 2 }, logic, body));
        let a = self.one.line();
        let mut ans = Ans::Unknown;
        let mut model = None;
        match a.as_str() {
            "sat" => {
                ans = Ans::Sat;
                if gv.is_empty() {
                    model = Some(ts.new_model(vec![0; n]));
                } else {
                    self.one.send(&gv);
                    let s = self.one.sexpr();
                    if s.contains("error") {
                        self.errors.push(s.clone());
                    }
                    model = Some(ts.new_model(parse_model(&s, n)));
                }
            }
            "unsat" => ans = Ans::Unsat,
            "unknown" | "timeout" => {}
            e => self.errors.push(e.to_string()),
        }
        if ans == Ans::Unknown && !body.contains("fp.to_ieee_bv") {
            let script = format!("(set-option :produce-models true)\n(set-logic {})\n{}(check-sat)\n{}", if em.fp { "QF_BVFP" } else { "QF_BV" }, body, gv);
            let out = run_cvc5(&script, ms);
            let first = out.lines().next().unwrap_or("").trim().to_string();
            if first == "unsat" {
                ans = Ans::Unsat;
            } else if first == "sat" {
                ans = Ans::Sat;
                model = Some(ts.new_model(parse_model(&out, n)));
            }
        }
        if ans == Ans::Unknown {
            self.st.unknown += 1;
        }
        self.st.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        self.st.maxq = self.st.maxq.max(dt);
        (ans, model)
    }
    /// decide the verdict query pc && not(prop)
    pub fn verdict(&mut self, pc: &[T], neg: T, ts: &mut Terms, rgs: Rgs) -> (Ans, Option<Model>) {
        self.st.verdicts += 1;
        // still a solver question when it simplified to false: discharge it explicitly
        let (a, m) = self.oneshot(pc, neg, ts, self.final_ms, rgs);
        (a, m)
    }
}
fn run_cvc5(script: &str, ms: u64) -> String {
    let c = Command::new("cvc5")
        .args(["--lang", "smt2", "-q", &format!("--tlimit={}", ms)])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(_) => return String::new(),
    };
    let mut i = c.stdin.take().unwrap();
    let s = script.to_string();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(s.as_bytes());
    });
    let o = c.wait_with_output();
    let _ = h.join();
    o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
}
