//! Instruction dispatch, calls and the exploration loop.
use crate::exec::*;
use crate::ir::*;
use crate::lower::*;
use crate::smt::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

type R<X> = Result<X, Stop>;
pub fn mk64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Exec {
    pub fn gep(&mut self, base: &V, off: i64, dynv: &[(V, u16, i64)]) -> R<V> {
        let mut sym: Option<T> = None;
        let mut k = off as u64;
        match base {
            V::I(b) => k = k.wrapping_add(*b),
            V::T(t) => sym = Some(*t),
            V::U => return Ok(V::U),
            _ => return Err(Stop::Err("gep base".into())),
        }
        for (v, w, sc) in dynv {
            match v {
                V::I(x) => k = k.wrapping_add((sgn(*x as u128, *w) as i64).wrapping_mul(*sc) as u64),
                V::U => return Ok(V::U),
                _ => {
                    let t = self.t(v, *w);
                    let t = self.ts.sext_to(t, 64);
                    let c = self.ts.c(*sc as u64 as u128, 64);
                    let t = self.ts.bin(Op::Mul, t, c);
                    sym = Some(match sym {
                        None => t,
                        Some(s) => self.ts.bin(Op::Add, s, t),
                    });
                }
            }
        }
        Ok(match sym {
            None => V::I(k),
            Some(t) => {
                let c = self.ts.c(k as u128, 64);
                let r = self.ts.bin(Op::Add, t, c);
                self.vt(r)
            }
        })
    }
    fn cond(&mut self, v: &V) -> R<T> {
        match v {
            V::I(x) => Ok((*x & 1) as T),
            V::T(t) => Ok(*t),
            V::U => Err(Stop::Viol("memory: decision on uninitialised data".into())),
            _ => Err(Stop::Err("condition".into())),
        }
    }
    /// execute one instruction; advances the instruction pointer
    pub fn step(&mut self, s: &mut State) -> R<()> {
        let (f, blk, ip) = {
            let fr = s.fr.last().unwrap();
            (fr.f.clone(), fr.blk as usize, fr.ip as usize)
        };
        s.steps += 1;
        let ins = &f.blocks[blk].ins[ip];
        if self.trace {
            eprintln!("{}:{}:{} {:?}", f.name, blk, ip, ins);
            let mut ops = vec![];
            collect_regs(ins, &mut ops);
            for r in ops {
                eprintln!("      r{} = {:?}", r, s.fr.last().unwrap().regs[r as usize]);
            }
        }
        match ins {
            Ins::Bin(op, w, _v, d, a, b) => {
                let (a, b) = (self.get(s, a), self.get(s, b));
                let r = self.bin(s, *op, *w, &a, &b)?;
                self.set(s, *d, r);
            }
            Ins::FBin(op, w, d, a, b) => {
                let (a, b) = (self.get(s, a), self.get(s, b));
                let r = self.fbin(*op, *w, &a, &b);
                self.set(s, *d, r);
            }
            Ins::FNeg(w, d, a) => {
                let a = self.get(s, a);
                let r = self.fun(crate::flt::FU::Neg, *w, &a);
                self.set(s, *d, r);
            }
            Ins::ICmp(k, w, d, a, b) => {
                let (a, b) = (self.get(s, a), self.get(s, b));
                let r = self.icmp(*k, *w, &a, &b);
                self.set(s, *d, r);
            }
            Ins::FCmp(k, w, d, a, b) => {
                let (a, b) = (self.get(s, a), self.get(s, b));
                let r = self.fcmp(*k, *w, &a, &b);
                self.set(s, *d, r);
            }
            Ins::Cast(k, from, to, d, a) => {
                let a = self.get(s, a);
                let r = self.cast(*k, *from, *to, &a)?;
                self.set(s, *d, r);
            }
            Ins::Select(t, d, c, a, b) => {
                let (c, a, b) = (self.get(s, c), self.get(s, a), self.get(s, b));
                let r = match &c {
                    V::A(cv) => {
                        let et = self.elem(*t);
                        if let (V::A(x), V::A(y)) = (&a, &b) {
                            let mut o = vec![];
                            for i in 0..cv.len() {
                                let c = self.cond(&cv[i])?;
                                o.push(self.sel(c, &x[i], &y[i], et));
                            }
                            V::A(Rc::new(o))
                        } else {
                            return Err(Stop::Err("vector select".into()));
                        }
                    }
                    V::U => V::U,
                    c => {
                        let c = self.cond(c)?;
                        self.sel(c, &a, &b, *t)
                    }
                };
                self.set(s, *d, r);
            }
            Ins::Load(t, d, p) => {
                let p = self.get(s, p);
                let r = self.load_v(s, &p, *t)?;
                self.set(s, *d, r);
            }
            Ins::Store(t, v, p) => {
                let (v, p) = (self.get(s, v), self.get(s, p));
                self.store_v(s, &p, *t, &v)?;
            }
            Ins::Gep(d, b, off, dy) => {
                let b = self.get(s, b);
                let r = if dy.is_empty() {
                    self.gep(&b, *off, &[])?
                } else {
                    let dv: Vec<(V, u16, i64)> = dy.iter().map(|(o, w, sc)| (self.get(s, o), *w, *sc)).collect();
                    self.gep(&b, *off, &dv)?
                };
                self.set(s, *d, r);
            }
            Ins::Alloca(d, sz, n) => {
                let mut size = *sz;
                if let Some(n) = n {
                    let v = self.get(s, n);
                    size *= self.concretize(s, &v, 64)?;
                }
                let p = self.alloc(s, size, 1, false);
                let fr = s.fr.last_mut().unwrap();
                fr.allocas.push((p >> 32) as u32);
                self.set(s, *d, V::I(p));
            }
            Ins::Call { d, ret, callee, args, next } => return self.call(s, *d, *ret, callee, args, *next),
            Ins::Br(t) => return self.jump(s, *t),
            Ins::CondBr(c, a, b) => {
                let c = self.get(s, c);
                let c = self.cond(&c)?;
                if let Some(v) = self.ts.cv(c) {
                    return self.jump(s, if v != 0 { *a } else { *b });
                }
                if a == b {
                    return self.jump(s, *a);
                }
                if self.merge(s, c, *a, *b)? {
                    return Ok(());
                }
                let r = self.decide(s, c)?;
                return self.jump(s, if r { *a } else { *b });
            }
            Ins::Switch(w, v, dl, cases) => {
                let v = self.get(s, v);
                match v {
                    V::I(x) => {
                        let t = cases.iter().find(|(k, _)| (*k as u64) & mk64(*w) == x).map(|(_, l)| *l).unwrap_or(*dl);
                        return self.jump(s, t);
                    }
                    V::U => return Err(Stop::Viol("memory: decision on uninitialised data".into())),
                    _ => {}
                }
                let t = self.t(&v, *w);
                // group by target, most specific first
                let mut targets: Vec<(u32, T)> = vec![];
                for (k, l) in cases {
                    let kc = self.ts.c(*k & mask(*w), *w);
                    let e = self.ts.eq(t, kc);
                    match targets.iter_mut().find(|(x, _)| x == l) {
                        Some(x) => {
                            let o = self.ts.or(x.1, e);
                            x.1 = o;
                        }
                        None => targets.push((*l, e)),
                    }
                }
                for (l, c) in targets {
                    if self.decide(s, c)? {
                        return self.jump(s, l);
                    }
                }
                return self.jump(s, *dl);
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|v| self.get(s, v));
                let fr = s.fr.pop().unwrap();
                for a in fr.allocas {
                    s.mem[a as usize] = None;
                }
                if s.fr.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, r) {
                    self.set(s, d, v);
                }
                if let Some(n) = fr.next {
                    return self.jump(s, n);
                }
                return Ok(());
            }
            Ins::Unreachable => return Err(Stop::Viol("memory: unreachable code reached (undefined behaviour)".into())),
            Ins::ExtractValue(d, a, idx) => {
                let mut v = self.get(s, a);
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                self.set(s, *d, v);
            }
            Ins::InsertValue(t, d, a, e, idx) => {
                let a = self.get(s, a);
                let e = self.get(s, e);
                let r = self.insert_value(*t, &a, &e, idx)?;
                self.set(s, *d, r);
            }
            Ins::ExtractElem(d, a, i) => {
                let a = self.get(s, a);
                let i = self.get(s, i);
                let i = self.concretize(s, &i, 64)?;
                let r = match a {
                    V::A(x) => x.get(i as usize).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                self.set(s, *d, r);
            }
            Ins::InsertElem(t, d, a, e, i) => {
                let a = self.get(s, a);
                let e = self.get(s, e);
                let i = self.get(s, i);
                let i = self.concretize(s, &i, 64)?;
                let r = self.insert_value(*t, &a, &e, &[i as u32])?;
                self.set(s, *d, r);
            }
            Ins::Shuffle(t, d, a, b, m) => {
                let n = match self.ty(*t) {
                    Ty::Vec(n, _) => n as usize,
                    _ => return Err(Stop::Err("shuffle".into())),
                };
                let (a, b) = (self.get(s, a), self.get(s, b));
                let pick = |i: i32| -> V {
                    if i < 0 {
                        return V::U;
                    }
                    let i = i as usize;
                    let (v, k) = if i < n { (&a, i) } else { (&b, i - n) };
                    match v {
                        V::A(x) => x[k].clone(),
                        _ => V::U,
                    }
                };
                let o = m.iter().map(|i| pick(*i)).collect();
                self.set(s, *d, V::A(Rc::new(o)));
            }
            Ins::Freeze(t, d, a) => {
                let a = self.get(s, a);
                let r = self.freeze(*t, a);
                self.set(s, *d, r);
            }
            Ins::AtomicRmw(op, t, d, p, v) => {
                let (p, v) = (self.get(s, p), self.get(s, v));
                let old = self.load_v(s, &p, *t)?;
                let w = self.lo.width(*t);
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(s, Op::Add, w, &old, &v)?,
                    "sub" => self.bin(s, Op::Sub, w, &old, &v)?,
                    "and" => self.bin(s, Op::And, w, &old, &v)?,
                    "or" => self.bin(s, Op::Or, w, &old, &v)?,
                    "xor" => self.bin(s, Op::Xor, w, &old, &v)?,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store_v(s, &p, *t, &nv)?;
                self.set(s, *d, old);
            }
            Ins::CmpXchg(t, d, p, c, n) => {
                let (p, c, n) = (self.get(s, p), self.get(s, c), self.get(s, n));
                let old = self.load_v(s, &p, *t)?;
                let w = self.lo.width(*t);
                let e = self.icmp(0, w, &old, &c);
                let ec = self.cond(&e)?;
                let nv = self.sel(ec, &n, &old, *t);
                self.store_v(s, &p, *t, &nv)?;
                self.set(s, *d, V::A(Rc::new(vec![old, e])));
            }
            Ins::Nop => {}
            Ins::Unsupported(e) => return Err(Stop::Err(format!("unsupported instruction in {}: {}", f.name, e))),
        }
        s.fr.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn freeze(&mut self, t: TyId, a: V) -> V {
        match (self.ty(t), a) {
            (Ty::F32, V::U) => V::F32(0),
            (Ty::F64, V::U) => V::F64(0),
            (Ty::Vec(_, e), V::A(x)) | (Ty::Arr(_, e), V::A(x)) => {
                let o = x.iter().map(|v| self.freeze(e, v.clone())).collect();
                V::A(Rc::new(o))
            }
            (Ty::Int(_) | Ty::Ptr, V::U) => V::I(0),
            (_, v) => v,
        }
    }
    fn insert_value(&mut self, t: TyId, a: &V, e: &V, idx: &[u32]) -> R<V> {
        if idx.is_empty() {
            return Ok(e.clone());
        }
        let n;
        let et;
        match self.ty(t) {
            Ty::Struct(fs, _) => {
                n = fs.len();
                et = fs[idx[0] as usize];
            }
            Ty::Arr(k, x) | Ty::Vec(k, x) => {
                n = k as usize;
                et = x;
            }
            _ => return Err(Stop::Err("insertvalue".into())),
        }
        let mut v: Vec<V> = match a {
            V::A(x) => (**x).clone(),
            _ => vec![V::U; n],
        };
        let i = idx[0] as usize;
        let old = v[i].clone();
        v[i] = self.insert_value(et, &old, e, &idx[1..])?;
        Ok(V::A(Rc::new(v)))
    }
    pub fn enter(&mut self, s: &mut State, fi: usize, args: Vec<V>, d: Option<u32>, next: Option<u32>) -> R<()> {
        if s.fr.len() > 400 {
            return Err(Stop::Err("call depth".into()));
        }
        let ts = &mut self.ts;
        let f = self.lo.func(fi, &mut |v, w| ts.c(v, w)).map_err(Stop::Err)?;
        self.out.funcs.insert(fi);
        let mut regs = vec![V::U; f.nregs];
        for (p, a) in f.params.iter().zip(args.into_iter()) {
            regs[*p as usize] = a;
        }
        s.fr.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret: d, next });
        Ok(())
    }
    fn call(&mut self, s: &mut State, d: Option<u32>, ret: TyId, callee: &Callee, args: &[(TyId, O)], next: Option<u32>) -> R<()> {
        let mut av: Vec<V> = args.iter().map(|(_, o)| self.get(s, o)).collect();
        let mut ext: Option<Rc<str>> = None;
        let mut fidx = 0;
        match callee {
            Callee::Func(f) => fidx = *f,
            Callee::Ext(n) => ext = Some(n.clone()),
            Callee::Ind(o) => {
                let p = self.get(s, o);
                let p = self.concretize(s, &p, 64)?;
                let id = p >> 32;
                if (p & 0xffff_ffff) != OFF || id < FBASE {
                    return Err(Stop::Viol(format!("memory: indirect call through {:#x}", p)));
                }
                if id >= FBASE + 0x0800_0000 {
                    let i = (id - FBASE - 0x0800_0000) as usize;
                    match self.lo.exts.get(i) {
                        Some(e) => ext = Some(e.clone()),
                        None => return Err(Stop::Viol("memory: indirect call".into())),
                    }
                } else {
                    fidx = (id - FBASE) as usize;
                    if fidx >= self.lo.p.ftexts.len() {
                        return Err(Stop::Viol("memory: indirect call".into()));
                    }
                }
            }
        }
        if ext.is_none() {
            // functions with a model even though a body is present
            let name = self.lo.p.ftexts[fidx].name.clone();
            if self.modelled(&name) {
                ext = Some(name.as_str().into());
            }
        }
        match ext {
            None => {
                if next.is_none() {
                    s.fr.last_mut().unwrap().ip += 1;
                }
                self.enter(s, fidx, av, d, next)
            }
            Some(n) => {
                let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                let r = self.call_ext(s, &n, ret, &mut av, &tys)?;
                if let (Some(d), Some(v)) = (d, r) {
                    self.set(s, d, v);
                }
                match next {
                    Some(l) => self.jump(s, l),
                    None => {
                        s.fr.last_mut().unwrap().ip += 1;
                        Ok(())
                    }
                }
            }
        }
    }
    fn modelled(&self, n: &str) -> bool {
        n.contains("6detect5cache21detect_and_initialize")
    }
    fn inputs_under(&mut self, s: &State, m: &Model) -> Vec<u128> {
        s.inputs.iter().map(|t| self.ts.eval(*t, m)).collect()
    }
    fn violation(&mut self, s: &State, msg: String, m: &Model) {
        if self.out.viol.is_none() {
            let inp = self.inputs_under(s, m);
            self.out.viol = Some((msg, inp));
        }
    }
    /// decide pc => all asserts
    fn discharge(&mut self, s: &State, asserts: &[(T, Rc<str>)]) {
        let mut neg: T = 0;
        let mut any = false;
        for (t, _) in asserts {
            let n = self.ts.not(*t);
            if n != 0 {
                any = true;
            }
            neg = self.ts.or(neg, n);
        }
        if !any {
            self.witness(s);
            return;
        }
        let find = |me: &mut Exec, m: &Model| -> String {
            for (t, l) in asserts {
                if me.ts.eval(*t, m) == 0 {
                    return l.to_string();
                }
            }
            "assertion".to_string()
        };
        let mdl = s.model.clone();
        if self.ts.eval(neg, &mdl) != 0 {
            let l = find(self, &mdl);
            self.violation(s, l, &mdl);
            return;
        }
        let rgs = self.operand_ranges(s, neg);
        match self.sv.verdict(&s.pc, neg, &mut self.ts, rgs) {
            (Ans::Unsat, _) => {}
            (Ans::Sat, Some(m)) => {
                let l = find(self, &m);
                self.violation(s, l, &m);
            }
            _ => {
                if asserts.len() > 1 {
                    let (a, b) = asserts.split_at(asserts.len() / 2);
                    self.discharge(s, a);
                    if self.out.viol.is_none() && self.out.error.is_none() {
                        self.discharge(s, b);
                    }
                } else {
                    self.out.inconclusive += 1;
                    self.out.error = Some(format!("no verdict for assertion '{}' {:?}", asserts[0].1, self.sv.errors));
                }
            }
        }
    }
    /// all assertions of the path became true by rewriting: the solver confirms that the path is real
    fn witness(&mut self, s: &State) {
        self.out.rewritten += 1;
        if let (Ans::Unsat, _) = self.sv.check(&s.pc, 1, &mut self.ts) {
            self.out.error = Some("completed path with an unsatisfiable condition".into());
        }
    }
    fn finish(&mut self, s: &mut State) {
        self.out.completed += 1;
        if s.nassert > 0 {
            self.out.asserting += 1;
        }
        self.out.asserts += s.nassert as u64;
        for c in &s.covers {
            self.out.covers.insert(c.to_string());
        }
        let a = std::mem::take(&mut s.asserts);
        if !a.is_empty() {
            // few assertions per query; more as long as the queries are easy
            let mut i = 0;
            while i < a.len() && self.out.viol.is_none() && self.out.error.is_none() {
                let n = self.chunk.min(a.len() - i);
                let t0 = std::time::Instant::now();
                self.discharge(s, &a[i..i + n]);
                i += n;
                let ms = t0.elapsed().as_millis();
                if ms < 12 {
                    self.chunk = (self.chunk * 2).min(512);
                } else if ms > 120 {
                    self.chunk = (self.chunk / 2).max(2);
                }
            }
        } else if s.nassert > 0 {
            self.witness(s);
        }
        if self.trace_every > 0 && (self.out.completed - 1) % self.trace_every == 0 && self.out.traces.len() < 12 {
            let m = s.model.clone();
            let i = self.inputs_under(s, &m);
            let o = s.obs.iter().map(|(t, _)| self.ts.eval(*t, &m)).collect();
            self.out.traces.push((i, o));
        }
    }
    pub fn run_job(&mut self, entry: usize) {
        self.out = JobOut::default();
        let mut s = State {
            fr: vec![],
            mem: vec![None],
            gov: HashMap::new(),
            pc: vec![],
            model: Rc::new(Model { id: 0, vals: vec![] }),
            asserts: vec![],
            inputs: vec![],
            obs: vec![],
            panic_ok: None,
            nassert: 0,
            covers: vec![],
            subst: HashMap::new(),
            implied: Default::default(),
            steps: 0,
            alive: Default::default(),
        };
        s.model = Rc::new(self.ts.new_model(vec![]));
        if let Err(e) = self.enter(&mut s, entry, vec![], None, None) {
            self.out.error = Some(format!("{:?}", e));
            return;
        }
        self.work = vec![s];
        while let Some(mut s) = self.work.pop() {
            self.out.paths += 1;
            if self.out.paths > self.max_paths {
                self.out.error = Some(format!("more than {} paths", self.max_paths));
                break;
            }
            let st0 = s.steps;
            let mut n = 0u32;
            let stop = loop {
                n += 1;
                if n & 0xfff == 0 && Instant::now() > self.deadline {
                    break Stop::Err("time limit".into());
                }
                if let Err(e) = self.step(&mut s) {
                    break e;
                }
            };
            self.out.instrs += s.steps - st0;
            match stop {
                Stop::End => {}
                Stop::Done => self.finish(&mut s),
                Stop::Panic(m) => match s.panic_ok {
                    None => {
                        let md = s.model.clone();
                        self.violation(&s, format!("panic: {}", m), &md);
                    }
                    Some(c) => {
                        s.nassert += 1;
                        s.asserts.push((c, format!("panic: {}", m).as_str().into()));
                        self.out.panics_ok += 1;
                        s.obs.clear();
                        self.finish(&mut s);
                    }
                },
                Stop::Viol(m) => {
                    let w = match s.fr.last() {
                        Some(f) => format!("{} (in {})", m, f.f.name),
                        None => m,
                    };
                    let md = s.model.clone();
                    self.violation(&s, w, &md);
                }
                Stop::Err(e) => {
                    let w: Vec<String> = s.fr.iter().rev().take(4).map(|f| format!("{}:{}:{}", f.f.name, f.blk, f.ip)).collect();
                    self.out.error = Some(format!("{} at {}", e, w.join(" < ")));
                }
            }
            if self.out.viol.is_some() || self.out.error.is_some() {
                break;
            }
            if Instant::now() > self.deadline {
                if !self.work.is_empty() {
                    self.out.error = Some("time limit".into());
                }
                break;
            }
        }
        self.work.clear();
    }
}

fn collect_regs(i: &Ins, o: &mut Vec<u32>) {
    let t = format!("{:?}", i);
    let mut rest = &t[..];
    while let Some(k) = rest.find("R(") {
        rest = &rest[k + 2..];
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = n.parse() {
            o.push(n);
        }
    }
}
