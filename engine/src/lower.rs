//! Lowering of parsed IR to an executable form.
use crate::ir::*;
use crate::term::Op;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    T(u32),
    F32(u32),
    F64(u64),
    F(u32),
    A(Rc<Vec<V>>),
    U,
}
#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(V),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ext(Rc<str>),
    Ind(O),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CK {
    Trunc,
    ZExt,
    SExt,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
    Bit,
    Ptr,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Op, u16, bool, u32, O, O),
    FBin(crate::flt::FO, u16, u32, O, O),
    FNeg(u16, u32, O),
    ICmp(u8, u16, u32, O, O),
    FCmp(u8, u16, u32, O, O),
    Cast(CK, TyId, TyId, u32, O),
    Select(TyId, u32, O, O, O),
    Load(TyId, u32, O),
    Store(TyId, O, O),
    Gep(u32, O, i64, Vec<(O, u16, i64)>),
    Alloca(u32, u64, Option<O>),
    Call { d: Option<u32>, ret: TyId, callee: Callee, args: Vec<(TyId, O)>, next: Option<u32> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u16, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    ExtractValue(u32, O, Vec<u32>),
    InsertValue(TyId, u32, O, O, Vec<u32>),
    ExtractElem(u32, O, O),
    InsertElem(TyId, u32, O, O, O),
    Shuffle(TyId, u32, O, O, Vec<i32>),
    Freeze(TyId, u32, O),
    AtomicRmw(String, TyId, u32, O, O),
    CmpXchg(TyId, u32, O, O, O),
    Nop,
    Unsupported(Rc<str>),
}
pub struct Block {
    pub phis: Vec<(u32, TyId, Vec<(u32, O)>)>,
    pub ins: Vec<Ins>,
    /// pure, short and ending in an unconditional branch: may be executed speculatively
    pub spec: Option<u32>,
}
pub struct Func {
    pub idx: usize,
    pub name: String,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub const GBASE: u64 = 0x1000_0000;
pub const FBASE: u64 = 0x2000_0000;
pub const OFF: u64 = 1 << 31;

pub struct GInfo {
    pub module: usize,
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub done: bool,
}

pub struct Lower {
    pub p: Program,
    pub funcs: HashMap<usize, Rc<Func>>,
    pub globals: Vec<GInfo>,
    pub gmap: HashMap<(usize, String), usize>,
    /// external function symbols referenced by address
    pub exts: Vec<Rc<str>>,
}

impl Lower {
    pub fn new(p: Program) -> Self {
        Lower { p, funcs: HashMap::new(), globals: vec![], gmap: HashMap::new(), exts: vec![] }
    }
    pub fn gaddr(&mut self, m: usize, name: &str) -> Option<u64> {
        if let Some(f) = self.p.find_func(m, name) {
            return Some(((FBASE + f as u64) << 32) | OFF);
        }
        if let Some((mm, n)) = self.p.find_global(m, name) {
            let key = (mm, n.clone());
            let id = match self.gmap.get(&key) {
                Some(&i) => i,
                None => {
                    let g = self.p.modules[mm].globals[&n].clone();
                    let size = self.p.types.size(g.ty);
                    let i = self.globals.len();
                    self.globals.push(GInfo { module: mm, name: n, size, constant: g.constant, done: false });
                    self.gmap.insert(key, i);
                    i
                }
            };
            return Some(((GBASE + id as u64) << 32) | OFF);
        }
        // an external function whose address is taken
        let i = match self.exts.iter().position(|e| &**e == name) {
            Some(i) => i,
            None => {
                self.exts.push(name.into());
                self.exts.len() - 1
            }
        };
        Some(((FBASE + 0x0800_0000 + i as u64) << 32) | OFF)
    }
    pub fn cval(&mut self, m: usize, ty: TyId, c: &C) -> Result<V, String> {
        let t = self.p.types.ty(ty).clone();
        Ok(match c {
            C::Int(v) => match t {
                Ty::Int(w) if w > 64 => return Err("wide".into()),
                _ => V::I(*v as u64),
            },
            C::F32(f) => V::F32(f.to_bits()),
            C::F64(f) => V::F64(f.to_bits()),
            C::Glob(n) => V::I(self.gaddr(m, n).ok_or_else(|| format!("unknown global {}", n))?),
            C::Undef => match t {
                Ty::Arr(n, e) | Ty::Vec(n, e) => {
                    let v = self.cval(m, e, &C::Undef)?;
                    V::A(Rc::new(vec![v; n as usize]))
                }
                Ty::Struct(fs, _) => {
                    let mut v = vec![];
                    for f in fs {
                        v.push(self.cval(m, f, &C::Undef)?);
                    }
                    V::A(Rc::new(v))
                }
                _ => V::U,
            },
            C::Zero => match t {
                Ty::F32 => V::F32(0),
                Ty::F64 => V::F64(0),
                Ty::Arr(n, e) | Ty::Vec(n, e) => {
                    let v = self.cval(m, e, &C::Zero)?;
                    V::A(Rc::new(vec![v; n as usize]))
                }
                Ty::Struct(fs, _) => {
                    let mut v = vec![];
                    for f in fs {
                        v.push(self.cval(m, f, &C::Zero)?);
                    }
                    V::A(Rc::new(v))
                }
                _ => V::I(0),
            },
            C::Agg(v) => {
                let mut o = vec![];
                for (et, c) in v {
                    o.push(self.cval(m, *et, c)?);
                }
                V::A(Rc::new(o))
            }
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            C::Splat(et, c) => {
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => return Err("splat type".into()),
                };
                let v = self.cval(m, *et, c)?;
                V::A(Rc::new(vec![v; n as usize]))
            }
            C::Gep(bt, args) => {
                let base = match self.cval(m, args[0].0, &args[0].1)? {
                    V::I(b) => b,
                    _ => return Err("gep base".into()),
                };
                let mut off = 0i64;
                let mut cur = *bt;
                for (i, (at, a)) in args[1..].iter().enumerate() {
                    let k = match self.cval(m, *at, a)? {
                        V::I(k) => k as i64,
                        _ => return Err("gep index".into()),
                    };
                    if i == 0 {
                        off += k * self.p.types.size(cur) as i64;
                    } else {
                        match self.p.types.ty(cur).clone() {
                            Ty::Struct(fs, pk) => {
                                off += self.p.types.field_off(&fs, pk, k as usize) as i64;
                                cur = fs[k as usize];
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                off += k * self.p.types.size(e) as i64;
                                cur = e;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                }
                V::I(base.wrapping_add(off as u64))
            }
            C::Cast(op, a, x, _b) => {
                let v = self.cval(m, *a, x)?;
                match (op.as_str(), t) {
                    (_, Ty::Int(w)) if w < 64 => match v {
                        V::I(x) => V::I(x & ((1u64 << w) - 1)),
                        v => v,
                    },
                    _ => v,
                }
            }
            C::Bin(op, a, x, y) => {
                let x = self.cval(m, *a, x)?;
                let y = self.cval(m, *a, y)?;
                let w = match t {
                    Ty::Int(w) => w as u16,
                    _ => 64,
                };
                let o = binop(op).ok_or("const op")?;
                match (x, y) {
                    (V::I(x), V::I(y)) => V::I(crate::term::eval_bin(o, x as u128, y as u128, w) as u64),
                    _ => return Err("const bin".into()),
                }
            }
            C::Meta => V::U,
            C::Reg(_) => return Err("register in constant".into()),
        })
    }
    pub fn func(&mut self, idx: usize, wide: &mut dyn FnMut(u128, u16) -> u32) -> Result<Rc<Func>, String> {
        if let Some(f) = self.funcs.get(&idx) {
            return Ok(f.clone());
        }
        let ft = self.p.ftexts[idx].clone();
        let m = ft.module;
        let named = self.p.modules[m].named.clone();
        let mut regs: HashMap<String, u32> = HashMap::new();
        // parameters
        let toks = tokenize(&ft.header);
        let mut i = toks.iter().position(|t| matches!(t, Tok::Glob(_))).unwrap() + 1;
        let mut params = vec![];
        {
            let mut depth = 0;
            let mut unnamed = 0;
            // split at top-level commas
            let mut cur: Vec<&Tok> = vec![];
            let mut list: Vec<Vec<&Tok>> = vec![];
            loop {
                match &toks[i] {
                    Tok::P(c @ ('(' | '{' | '[' | '<')) => {
                        if depth > 0 || *c != '(' {
                            cur.push(&toks[i]);
                        }
                        depth += 1;
                    }
                    Tok::P(c @ (')' | '}' | ']' | '>')) => {
                        depth -= 1;
                        if depth == 0 && *c == ')' {
                            break;
                        }
                        cur.push(&toks[i]);
                    }
                    Tok::P(',') if depth == 1 => {
                        list.push(std::mem::take(&mut cur));
                    }
                    t => cur.push(t),
                }
                i += 1;
            }
            if !cur.is_empty() {
                list.push(cur);
            }
            for p in list {
                let name = match p.last() {
                    Some(Tok::Loc(n)) if p.len() > 1 => n.clone(),
                    _ => {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        n
                    }
                };
                let r = regs.len() as u32;
                regs.insert(name, r);
                params.push(r);
            }
        }
        let mut labels: HashMap<String, u32> = HashMap::new();
        for (k, (l, _)) in ft.body.iter().enumerate() {
            labels.insert(l.clone(), k as u32);
        }
        // the entry block may be referenced by number
        if let Some((l, _)) = ft.body.first() {
            if l.is_empty() {
                labels.insert(params.len().to_string(), 0);
                labels.insert("start".into(), 0);
            }
        }
        let mut parsed: Vec<Vec<(Option<String>, RawIns)>> = vec![];
        for (_, ls) in &ft.body {
            let mut v = vec![];
            for l in ls {
                let (d, i) = parse_ins(l, &mut self.p.types, &named);
                if let Some(n) = &d {
                    if !regs.contains_key(n) {
                        let r = regs.len() as u32;
                        regs.insert(n.clone(), r);
                    }
                }
                v.push((d, i));
            }
            parsed.push(v);
        }
        let mut blocks = vec![];
        for v in parsed {
            let mut b = Block { phis: vec![], ins: vec![], spec: None };
            for (d, raw) in v {
                let dr = d.map(|n| regs[&n]);
                match self.lower_ins(m, dr, raw, &regs, &labels, wide) {
                    Ok(Low::Phi(d, t, v)) => b.phis.push((d, t, v)),
                    Ok(Low::Ins(i)) => {
                        if !matches!(i, Ins::Nop) {
                            b.ins.push(i)
                        }
                    }
                    Err(e) => b.ins.push(Ins::Unsupported(e.as_str().into())),
                }
            }
            b.spec = speculable(&b, &self.p.types);
            blocks.push(b);
        }
        let f = Rc::new(Func { idx, name: ft.name.clone(), nregs: regs.len(), params, blocks });
        self.funcs.insert(idx, f.clone());
        Ok(f)
    }
    fn op(&mut self, m: usize, ty: TyId, c: &C, regs: &HashMap<String, u32>, wide: &mut dyn FnMut(u128, u16) -> u32) -> Result<O, String> {
        if let C::Reg(n) = c {
            return Ok(O::R(*regs.get(n).ok_or_else(|| format!("unknown register %{}", n))?));
        }
        if let (C::Int(v), Ty::Int(w)) = (c, self.p.types.ty(ty)) {
            if *w > 64 {
                return Ok(O::C(V::T(wide(*v, *w as u16))));
            }
        }
        if let (C::Zero, Ty::Int(w)) = (c, self.p.types.ty(ty)) {
            if *w > 64 {
                return Ok(O::C(V::T(wide(0, *w as u16))));
            }
        }
        Ok(O::C(self.cval(m, ty, c)?))
    }
    fn elem(&self, t: TyId) -> TyId {
        match self.p.types.ty(t) {
            Ty::Vec(_, e) => *e,
            _ => t,
        }
    }
    pub fn width(&self, t: TyId) -> u16 {
        match self.p.types.ty(self.elem(t)) {
            Ty::Int(w) => *w as u16,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    fn lower_ins(&mut self, m: usize, d: Option<u32>, raw: RawIns, regs: &HashMap<String, u32>, labels: &HashMap<String, u32>, wide: &mut dyn FnMut(u128, u16) -> u32) -> Result<Low, String> {
        let lab = |n: &String| labels.get(n).copied().ok_or_else(|| format!("unknown label {}", n));
        let dd = d.unwrap_or(u32::MAX);
        Ok(Low::Ins(match raw {
            RawIns::Bin(op, t, a, b) => {
                let w = self.width(t);
                let a = self.op(m, t, &a, regs, wide)?;
                let b = self.op(m, t, &b, regs, wide)?;
                if let Some(o) = binop(&op) {
                    Ins::Bin(o, w, matches!(self.p.types.ty(t), Ty::Vec(..)), dd, a, b)
                } else {
                    use crate::flt::FO;
                    let o = match op.as_str() {
                        "fadd" => FO::Add,
                        "fsub" => FO::Sub,
                        "fmul" => FO::Mul,
                        "fdiv" => FO::Div,
                        "frem" => FO::Rem,
                        _ => return Err(format!("binop {}", op)),
                    };
                    Ins::FBin(o, w, dd, a, b)
                }
            }
            RawIns::FNeg(t, a) => Ins::FNeg(self.width(t), dd, self.op(m, t, &a, regs, wide)?),
            RawIns::ICmp(p, t, a, b) => {
                let k = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"].iter().position(|x| *x == p).ok_or("pred")? as u8;
                Ins::ICmp(k, self.width(t), dd, self.op(m, t, &a, regs, wide)?, self.op(m, t, &b, regs, wide)?)
            }
            RawIns::FCmp(p, t, a, b) => {
                let k = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"].iter().position(|x| *x == p).ok_or("pred")? as u8;
                Ins::FCmp(k, self.width(t), dd, self.op(m, t, &a, regs, wide)?, self.op(m, t, &b, regs, wide)?)
            }
            RawIns::Cast(op, t, a, to) => {
                let k = match op.as_str() {
                    "trunc" => CK::Trunc,
                    "zext" => CK::ZExt,
                    "sext" => CK::SExt,
                    "fptrunc" => CK::FPTrunc,
                    "fpext" => CK::FPExt,
                    "fptoui" => CK::FPToUI,
                    "fptosi" => CK::FPToSI,
                    "uitofp" => CK::UIToFP,
                    "sitofp" => CK::SIToFP,
                    "bitcast" => CK::Bit,
                    _ => CK::Ptr,
                };
                Ins::Cast(k, t, to, dd, self.op(m, t, &a, regs, wide)?)
            }
            RawIns::Select(ct, c, t, a, b) => Ins::Select(t, dd, self.op(m, ct, &c, regs, wide)?, self.op(m, t, &a, regs, wide)?, self.op(m, t, &b, regs, wide)?),
            RawIns::Load(t, a) => {
                let pt = self.p.types.get(Ty::Ptr);
                Ins::Load(t, dd, self.op(m, pt, &a, regs, wide)?)
            }
            RawIns::Store(t, v, a) => {
                let pt = self.p.types.get(Ty::Ptr);
                Ins::Store(t, self.op(m, t, &v, regs, wide)?, self.op(m, pt, &a, regs, wide)?)
            }
            RawIns::Gep(bt, args) => {
                let base = self.op(m, args[0].0, &args[0].1, regs, wide)?;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                for (i, (at, a)) in args[1..].iter().enumerate() {
                    let o = self.op(m, *at, a, regs, wide)?;
                    let aw = self.width(*at);
                    let scale;
                    if i == 0 {
                        scale = self.p.types.size(cur) as i64;
                    } else {
                        match self.p.types.ty(cur).clone() {
                            Ty::Struct(fs, pk) => {
                                let k = match &o {
                                    O::C(V::I(k)) => *k as usize,
                                    _ => return Err("gep struct index".into()),
                                };
                                off += self.p.types.field_off(&fs, pk, k) as i64;
                                cur = fs[k];
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = self.p.types.size(e) as i64;
                                cur = e;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match &o {
                        O::C(V::I(k)) => off += crate::term::sgn(*k as u128, aw) as i64 * scale,
                        _ => dynv.push((o, aw, scale)),
                    }
                }
                Ins::Gep(dd, base, off, dynv)
            }
            RawIns::Alloca(t, n) => {
                let o = match n {
                    Some((nt, c)) => Some(self.op(m, nt, &c, regs, wide)?),
                    None => None,
                };
                Ins::Alloca(dd, self.p.types.size(t), o)
            }
            RawIns::Phi(t, v) => {
                let mut o = vec![];
                for (c, l) in v {
                    o.push((lab(&l)?, self.op(m, t, &c, regs, wide)?));
                }
                return Ok(Low::Phi(dd, t, o));
            }
            RawIns::Call { ret, callee, args, invoke } => {
                let mut av = vec![];
                for (t, a) in args {
                    av.push((t, self.op(m, t, &a, regs, wide)?));
                }
                let cal = match callee {
                    C::Glob(n) => match self.p.find_func(m, &n) {
                        Some(f) => Callee::Func(f),
                        None => Callee::Ext(n.as_str().into()),
                    },
                    c => {
                        let pt = self.p.types.get(Ty::Ptr);
                        Callee::Ind(self.op(m, pt, &c, regs, wide)?)
                    }
                };
                let next = match invoke {
                    Some(l) => Some(lab(&l)?),
                    None => None,
                };
                if let Callee::Ext(n) = &cal {
                    if n.starts_with("llvm.") && (n.contains("lifetime") || n.contains("assume") || n.contains("noalias.scope") || n.contains("dbg.")) {
                        return Ok(Low::Ins(Ins::Nop));
                    }
                }
                Ins::Call { d, ret, callee: cal, args: av, next }
            }
            RawIns::Br(l) => Ins::Br(lab(&l)?),
            RawIns::CondBr(c, a, b) => {
                let t = self.p.types.get(Ty::Int(1));
                Ins::CondBr(self.op(m, t, &c, regs, wide)?, lab(&a)?, lab(&b)?)
            }
            RawIns::Switch(t, c, dl, v) => {
                let mut o = vec![];
                for (k, l) in v {
                    o.push((k, lab(&l)?));
                }
                Ins::Switch(self.width(t), self.op(m, t, &c, regs, wide)?, lab(&dl)?, o)
            }
            RawIns::Ret(None) => Ins::Ret(None),
            RawIns::Ret(Some((t, c))) => Ins::Ret(Some(self.op(m, t, &c, regs, wide)?)),
            RawIns::Unreachable => Ins::Unreachable,
            RawIns::ExtractValue(t, a, idx) => Ins::ExtractValue(dd, self.op(m, t, &a, regs, wide)?, idx),
            RawIns::InsertValue(t, a, et, e, idx) => Ins::InsertValue(t, dd, self.op(m, t, &a, regs, wide)?, self.op(m, et, &e, regs, wide)?, idx),
            RawIns::ExtractElem(t, a, it, i) => Ins::ExtractElem(dd, self.op(m, t, &a, regs, wide)?, self.op(m, it, &i, regs, wide)?),
            RawIns::InsertElem(t, a, e, it, i) => {
                let et = self.elem(t);
                Ins::InsertElem(t, dd, self.op(m, t, &a, regs, wide)?, self.op(m, et, &e, regs, wide)?, self.op(m, it, &i, regs, wide)?)
            }
            RawIns::Shuffle(t, a, b, mask) => Ins::Shuffle(t, dd, self.op(m, t, &a, regs, wide)?, self.op(m, t, &b, regs, wide)?, mask),
            RawIns::Freeze(t, a) => Ins::Freeze(t, dd, self.op(m, t, &a, regs, wide)?),
            RawIns::AtomicRmw(o, t, a, v) => {
                let pt = self.p.types.get(Ty::Ptr);
                Ins::AtomicRmw(o, t, dd, self.op(m, pt, &a, regs, wide)?, self.op(m, t, &v, regs, wide)?)
            }
            RawIns::CmpXchg(t, a, c, n) => {
                let pt = self.p.types.get(Ty::Ptr);
                Ins::CmpXchg(t, dd, self.op(m, pt, &a, regs, wide)?, self.op(m, t, &c, regs, wide)?, self.op(m, t, &n, regs, wide)?)
            }
            RawIns::Nop => Ins::Nop,
            RawIns::Unsupported(s) => {
                if s.contains("landingpad") || s.contains("resume") || s.contains("cleanuppad") || s.contains("dbg_") {
                    Ins::Nop
                } else {
                    Ins::Unsupported(s.as_str().into())
                }
            }
        }))
    }
}
enum Low {
    Ins(Ins),
    Phi(u32, TyId, Vec<(u32, O)>),
}
pub fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        _ => return None,
    })
}
fn speculable(b: &Block, ts: &Types) -> Option<u32> {
    let _ = ts;
    if b.ins.len() > 40 {
        return None;
    }
    let n = b.ins.len();
    for (i, x) in b.ins.iter().enumerate() {
        match x {
            Ins::Bin(op, ..) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    return None;
                }
            }
            Ins::FBin(..) | Ins::FNeg(..) | Ins::ICmp(..) | Ins::FCmp(..) | Ins::Cast(..) | Ins::Select(..) | Ins::Gep(..) | Ins::ExtractValue(..) | Ins::InsertValue(..) | Ins::Freeze(..) | Ins::Nop => {}
            Ins::Call { callee: Callee::Ext(n), next: None, .. } => {
                let ok = ["llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin", "llvm.abs", "llvm.fabs", "llvm.round", "llvm.floor", "llvm.ceil", "llvm.trunc", "llvm.fptoui.sat", "llvm.fptosi.sat", "llvm.usub.sat", "llvm.uadd.sat", "llvm.maxnum", "llvm.minnum", "llvm.maximumnum", "llvm.minimumnum"];
                if !ok.iter().any(|p| n.starts_with(p)) {
                    return None;
                }
            }
            Ins::Br(t) if i + 1 == n => return Some(*t),
            _ => return None,
        }
    }
    None
}
