//! Parser for the subset of textual LLVM IR that rustc emits.
//! Function bodies are parsed lazily (on first call).
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
}

impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn size(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 15) / 16 * 16 }
            }
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Ptr => 8,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.ty(*e) { (n * (*w as u64) + 7) / 8 } else { n * self.size(*e) }
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { self.align(*f) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += self.size(*f);
                }
                (o + al - 1) / al * al
            }
        }
    }
    /// bytes accessed by a load or store (without the padding of odd integer widths)
    pub fn store_size(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            _ => self.size(t),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 }
            }
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed { 1 } else { fs.iter().map(|f| self.align(*f)).max().unwrap_or(1) }
            }
        }
    }
    pub fn field_off(&self, fs: &[TyId], packed: bool, idx: usize) -> u64 {
        let mut o = 0;
        for (i, f) in fs.iter().enumerate() {
            let a = if packed { 1 } else { self.align(*f) };
            o = (o + a - 1) / a * a;
            if i == idx {
                return o;
            }
            o += self.size(*f);
        }
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Loc(String),
    Glob(String),
    Meta,
    Word(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            if i + 2 >= s.len() {
                o.push(s[i]);
                i += 1;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn tokenize(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                i += 2;
                while i < b.len() && !(b[i - 1] == b'*' && b[i] == b'/') {
                    i += 1;
                }
                i += 1;
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let s = i + 1;
                    let mut e = s;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    name = String::from_utf8_lossy(&b[s..e]).into_owned();
                    i = e + 1;
                } else {
                    let s = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    name = line[s..i].to_string();
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (is_id(b[i])) {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            b'"' => {
                let s = i + 1;
                let mut e = s;
                while e < b.len() && b[e] != b'"' {
                    e += 1;
                }
                out.push(Tok::Str(b[s..e].to_vec()));
                i = e + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut e = s;
                while b[e] != b'"' {
                    e += 1;
                }
                out.push(Tok::Str(unescape(&b[s..e])));
                i = e + 1;
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' => {
                out.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let s = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) {
                    i += 1;
                }
                out.push(Tok::Num(line[s..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let s = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Word(line[s..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

/// A parsed constant or operand, before globals are resolved.
#[derive(Clone, Debug)]
pub enum C {
    Reg(String),
    Int(u128),
    F32(f32),
    F64(f64),
    Glob(String),
    Undef,
    Zero,
    Agg(Vec<(TyId, C)>),
    Bytes(Vec<u8>),
    Splat(TyId, Box<C>),
    Gep(TyId, Vec<(TyId, C)>),
    Cast(String, TyId, Box<C>, TyId),
    Bin(String, TyId, Box<C>, Box<C>),
    Meta,
}

pub struct Pos<'a> {
    pub t: &'a [Tok],
    pub i: usize,
}

pub type PR<T> = Result<T, String>;

impl<'a> Pos<'a> {
    pub fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> PR<&'a Tok> {
        let r = self.t.get(self.i).ok_or_else(|| "unexpected end of line".to_string());
        self.i += 1;
        r
    }
    pub fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: char) -> PR<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.peek()))
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

pub struct Module {
    pub id: usize,
    pub named: HashMap<String, TyId>,
    pub globals: HashMap<String, GlobalDef>,
    pub funcs: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone)]
pub struct GlobalDef {
    pub ty: TyId,
    pub init: Option<String>, // text of initializer
    pub constant: bool,
    pub external: bool,
    pub local: bool,
}

pub struct FuncText {
    pub name: String,
    pub module: usize,
    pub header: String,
    pub body: Vec<(String, Vec<String>)>, // blocks
    pub local: bool,
}

pub fn parse_ty(p: &mut Pos, ts: &mut Types, named: &HashMap<String, TyId>) -> PR<TyId> {
    let t = p.next()?;
    let mut r = match t {
        Tok::Word(w) => match w.as_str() {
            "void" => ts.get(Ty::Void),
            "float" => ts.get(Ty::F32),
            "double" => ts.get(Ty::F64),
            "ptr" => {
                if p.eat_w("addrspace") {
                    p.skip_balanced();
                }
                ts.get(Ty::Ptr)
            }
            "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => ts.get(Ty::Other),
            _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => ts.get(Ty::Int(w[1..].parse().unwrap())),
            _ => return Err(format!("not a type: {}", w)),
        },
        Tok::Loc(n) => *named.get(n).ok_or_else(|| format!("unknown type %{}", n))?,
        Tok::P('{') => {
            let mut fs = vec![];
            while !p.eat_p('}') {
                fs.push(parse_ty(p, ts, named)?);
                p.eat_p(',');
            }
            ts.get(Ty::Struct(fs, false))
        }
        Tok::P('[') => {
            let n = match p.next()? {
                Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                x => return Err(format!("array len {:?}", x)),
            };
            if !p.eat_w("x") {
                return Err("expected x".into());
            }
            let e = parse_ty(p, ts, named)?;
            p.exp_p(']')?;
            ts.get(Ty::Arr(n, e))
        }
        Tok::P('<') => {
            if p.eat_p('{') {
                let mut fs = vec![];
                while !p.eat_p('}') {
                    fs.push(parse_ty(p, ts, named)?);
                    p.eat_p(',');
                }
                p.exp_p('>')?;
                ts.get(Ty::Struct(fs, true))
            } else {
                let n = match p.next()? {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    x => return Err(format!("vec len {:?}", x)),
                };
                if !p.eat_w("x") {
                    return Err("expected x".into());
                }
                let e = parse_ty(p, ts, named)?;
                p.exp_p('>')?;
                ts.get(Ty::Vec(n, e))
            }
        }
        x => return Err(format!("bad type token {:?}", x)),
    };
    // function types: "ret (args)" used in some calls
    if p.is_p('(') && false {
        p.skip_balanced();
        r = ts.get(Ty::Other);
    }
    Ok(r)
}

fn parse_f(n: &str, f32_: bool) -> PR<C> {
    let v: f64;
    if let Some(h) = n.strip_prefix("f0x") {
        if f32_ {
            return Ok(C::F32(f32::from_bits(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?)));
        }
        v = f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?);
    } else if let Some(h) = n.strip_prefix("0x") {
        v = f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?);
    } else {
        v = n.parse::<f64>().map_err(|e| e.to_string())?;
    }
    Ok(if f32_ { C::F32(v as f32) } else { C::F64(v) })
}

/// Parse a value of type `ty`; attributes before it are skipped.
pub fn parse_val(p: &mut Pos, ty: TyId, ts: &mut Types, named: &HashMap<String, TyId>) -> PR<C> {
    loop {
        let t = p.next()?;
        match t {
            Tok::Loc(n) => return Ok(C::Reg(n.clone())),
            Tok::Glob(n) => return Ok(C::Glob(n.clone())),
            Tok::Meta => {
                if p.is_p('(') { p.skip_balanced(); }
                return Ok(C::Meta)
            }
            Tok::Str(s) => return Ok(C::Bytes(s.clone())),
            Tok::Num(n) => match ts.ty(ty).clone() {
                Ty::F32 => return parse_f(n, true),
                Ty::F64 => return parse_f(n, false),
                Ty::Int(w) => {
                    let v: u128 = if let Some(m) = n.strip_prefix('-') {
                        (m.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                    } else {
                        n.parse::<u128>().map_err(|e| format!("{} {}", e, n))?
                    };
                    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    return Ok(C::Int(v & m));
                }
                x => return Err(format!("number {} for type {:?}", n, x)),
            },
            Tok::P('<') | Tok::P('[') | Tok::P('{') => {
                let packed = matches!(t, Tok::P('<')) && p.is_p('{');
                if packed {
                    p.i += 1;
                }
                let close = match t {
                    Tok::P('<') if packed => '}',
                    Tok::P('<') => '>',
                    Tok::P('[') => ']',
                    _ => '}',
                };
                let mut v = vec![];
                while !p.eat_p(close) {
                    let ety = parse_ty(p, ts, named)?;
                    let c = parse_val(p, ety, ts, named)?;
                    v.push((ety, c));
                    p.eat_p(',');
                }
                if packed {
                    p.exp_p('>')?;
                }
                return Ok(C::Agg(v));
            }
            Tok::Word(w) => match w.as_str() {
                "true" => return Ok(C::Int(1)),
                "false" => return Ok(C::Int(0)),
                "null" => return Ok(C::Int(0)),
                "none" => return Ok(C::Undef),
                "undef" | "poison" => return Ok(C::Undef),
                "zeroinitializer" => return Ok(C::Zero),
                "splat" => {
                    p.exp_p('(')?;
                    let ety = parse_ty(p, ts, named)?;
                    let c = parse_val(p, ety, ts, named)?;
                    p.exp_p(')')?;
                    return Ok(C::Splat(ety, Box::new(c)));
                }
                "getelementptr" => {
                    while !p.is_p('(') {
                        p.i += 1;
                        if p.is_p('(') {
                            // inrange(-16, 32) has parens
                            if let Some(Tok::Word(pw)) = p.t.get(p.i - 1) {
                                if pw == "inrange" {
                                    p.skip_balanced();
                                }
                            }
                        }
                    }
                    p.exp_p('(')?;
                    let bty = parse_ty(p, ts, named)?;
                    p.exp_p(',')?;
                    let mut args = vec![];
                    while !p.eat_p(')') {
                        let ety = parse_ty(p, ts, named)?;
                        let c = parse_val(p, ety, ts, named)?;
                        args.push((ety, c));
                        p.eat_p(',');
                    }
                    return Ok(C::Gep(bty, args));
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    p.exp_p('(')?;
                    let a = parse_ty(p, ts, named)?;
                    let c = parse_val(p, a, ts, named)?;
                    if !p.eat_w("to") {
                        return Err("expected to".into());
                    }
                    let b = parse_ty(p, ts, named)?;
                    p.exp_p(')')?;
                    return Ok(C::Cast(w.clone(), a, Box::new(c), b));
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" if p.is_p('(') || p.is_w("nuw") || p.is_w("nsw") => {
                    while !p.eat_p('(') {
                        p.i += 1;
                    }
                    let a = parse_ty(p, ts, named)?;
                    let x = parse_val(p, a, ts, named)?;
                    p.exp_p(',')?;
                    let b = parse_ty(p, ts, named)?;
                    let y = parse_val(p, b, ts, named)?;
                    p.exp_p(')')?;
                    return Ok(C::Bin(w.clone(), a, Box::new(x), Box::new(y)));
                }
                "align" => {
                    p.i += 1;
                    continue;
                }
                _ if w.starts_with("f0x") => {
                    let f32_ = matches!(ts.ty(ty), Ty::F32);
                    return parse_f(w, f32_);
                }
                _ => {
                    // attribute
                    if p.is_p('(') {
                        p.skip_balanced();
                    }
                    continue;
                }
            },
            // +inf, -inf, +qnan, -snan(0x..), +nan(0x..)
            Tok::P(c @ ('+' | '-')) => {
                let w = match p.next()? {
                    Tok::Word(w) => w.clone(),
                    x => return Err(format!("bad value token {:?}", x)),
                };
                let single = matches!(ts.ty(ty), Ty::F32);
                let mut payload: u64 = 0;
                if p.eat_p('(') {
                    if let Tok::Num(n) = p.next()? {
                        payload = u64::from_str_radix(n.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?;
                    }
                    p.exp_p(')')?;
                }
                let neg = *c == '-';
                let (exp, quiet, sh) = if single { (0x7f80_0000u64, 0x0040_0000u64, 31) } else { (0x7ff0_0000_0000_0000, 0x0008_0000_0000_0000, 63) };
                let bits = (exp | match w.as_str() {
                    "inf" => 0,
                    "qnan" => quiet | payload,
                    "snan" => if payload == 0 { 1 } else { payload },
                    "nan" => if payload == 0 { quiet } else { payload },
                    _ => return Err(format!("bad float {:?}", w)),
                }) | ((neg as u64) << sh);
                return Ok(if single { C::F32(f32::from_bits(bits as u32)) } else { C::F64(f64::from_bits(bits)) });
            }
            x => return Err(format!("bad value token {:?}", x)),
        }
    }
}

// ---------------------------------------------------------------- instructions

#[derive(Clone, Debug)]
pub enum RawIns {
    Bin(String, TyId, C, C),
    ICmp(String, TyId, C, C),
    FCmp(String, TyId, C, C),
    FNeg(TyId, C),
    Cast(String, TyId, C, TyId),
    Select(TyId, C, TyId, C, C),
    Load(TyId, C),
    Store(TyId, C, C),
    Gep(TyId, Vec<(TyId, C)>),
    Alloca(TyId, Option<(TyId, C)>),
    Phi(TyId, Vec<(C, String)>),
    Call { ret: TyId, callee: C, args: Vec<(TyId, C)>, invoke: Option<String> },
    Br(String),
    CondBr(C, String, String),
    Switch(TyId, C, String, Vec<(u128, String)>),
    Ret(Option<(TyId, C)>),
    Unreachable,
    ExtractValue(TyId, C, Vec<u32>),
    InsertValue(TyId, C, TyId, C, Vec<u32>),
    ExtractElem(TyId, C, TyId, C),
    InsertElem(TyId, C, C, TyId, C),
    Shuffle(TyId, C, C, Vec<i32>),
    Freeze(TyId, C),
    AtomicRmw(String, TyId, C, C),
    CmpXchg(TyId, C, C, C),
    Nop,
    Unsupported(String),
}

pub fn parse_ins(line: &str, ts: &mut Types, named: &HashMap<String, TyId>) -> (Option<String>, RawIns) {
    let toks = tokenize(line);
    let mut p = Pos { t: &toks, i: 0 };
    let mut dst = None;
    if toks.len() > 2 {
        if let (Tok::Loc(n), Tok::P('=')) = (&toks[0], &toks[1]) {
            dst = Some(n.clone());
            p.i = 2;
        }
    }
    match parse_ins_inner(&mut p, ts, named) {
        Ok(i) => (dst, i),
        Err(e) => (dst, RawIns::Unsupported(format!("{} in: {}", e, line))),
    }
}

const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "nneg", "samesign", "inbounds", "nusw", "volatile", "atomic", "inrange"];

fn skip_flags(p: &mut Pos) {
    while let Some(Tok::Word(w)) = p.peek() {
        if FLAGS.contains(&w.as_str()) {
            p.i += 1;
            if p.is_p('(') {
                p.skip_balanced();
            }
        } else {
            break;
        }
    }
}

fn label(p: &mut Pos) -> PR<String> {
    if !p.eat_w("label") {
        return Err("expected label".into());
    }
    match p.next()? {
        Tok::Loc(n) => Ok(n.clone()),
        x => Err(format!("bad label {:?}", x)),
    }
}

fn parse_ins_inner(p: &mut Pos, ts: &mut Types, named: &HashMap<String, TyId>) -> PR<RawIns> {
    let mut op = match p.next()? {
        Tok::Word(w) => w.as_str(),
        x => return Err(format!("opcode {:?}", x)),
    };
    while matches!(op, "tail" | "musttail" | "notail") {
        op = match p.next()? {
            Tok::Word(w) => w.as_str(),
            x => return Err(format!("opcode {:?}", x)),
        };
    }
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let b = parse_val(p, t, ts, named)?;
            Ok(RawIns::Bin(op.to_string(), t, a, b))
        }
        "fneg" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            Ok(RawIns::FNeg(t, a))
        }
        "icmp" | "fcmp" => {
            skip_flags(p);
            let pr = match p.next()? {
                Tok::Word(w) => w.clone(),
                x => return Err(format!("pred {:?}", x)),
            };
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let b = parse_val(p, t, ts, named)?;
            Ok(if op == "icmp" { RawIns::ICmp(pr, t, a, b) } else { RawIns::FCmp(pr, t, a, b) })
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            if !p.eat_w("to") {
                return Err("expected to".into());
            }
            let to = parse_ty(p, ts, named)?;
            Ok(RawIns::Cast(op.to_string(), t, a, to))
        }
        "select" => {
            skip_flags(p);
            let ct = parse_ty(p, ts, named)?;
            let c = parse_val(p, ct, ts, named)?;
            p.exp_p(',')?;
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let t2 = parse_ty(p, ts, named)?;
            let b = parse_val(p, t2, ts, named)?;
            Ok(RawIns::Select(ct, c, t, a, b))
        }
        "load" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            p.exp_p(',')?;
            let pt = parse_ty(p, ts, named)?;
            let a = parse_val(p, pt, ts, named)?;
            Ok(RawIns::Load(t, a))
        }
        "store" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let v = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let pt = parse_ty(p, ts, named)?;
            let a = parse_val(p, pt, ts, named)?;
            Ok(RawIns::Store(t, v, a))
        }
        "getelementptr" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let mut args = vec![];
            while p.eat_p(',') {
                if matches!(p.peek(), Some(Tok::Meta)) {
                    break;
                }
                let et = parse_ty(p, ts, named)?;
                args.push((et, parse_val(p, et, ts, named)?));
            }
            Ok(RawIns::Gep(t, args))
        }
        "alloca" => {
            let t = parse_ty(p, ts, named)?;
            let mut n = None;
            if p.eat_p(',') && !p.is_w("align") && !matches!(p.peek(), Some(Tok::Meta)) {
                let et = parse_ty(p, ts, named)?;
                n = Some((et, parse_val(p, et, ts, named)?));
            }
            Ok(RawIns::Alloca(t, n))
        }
        "phi" => {
            skip_flags(p);
            let t = parse_ty(p, ts, named)?;
            let mut v = vec![];
            loop {
                p.exp_p('[')?;
                let a = parse_val(p, t, ts, named)?;
                p.exp_p(',')?;
                let l = match p.next()? {
                    Tok::Loc(n) => n.clone(),
                    x => return Err(format!("phi label {:?}", x)),
                };
                p.exp_p(']')?;
                v.push((a, l));
                if !(p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('[')))) {
                    break;
                }
                p.i += 1;
            }
            Ok(RawIns::Phi(t, v))
        }
        "call" | "invoke" => {
            // skip return attributes, calling conventions and flags
            let ret;
            loop {
                match p.peek() {
                    Some(Tok::Word(w)) => {
                        let w = w.as_str();
                        let isty = matches!(w, "void" | "float" | "double" | "ptr" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                        if isty {
                            ret = parse_ty(p, ts, named)?;
                            break;
                        }
                        p.i += 1;
                        if w == "align" {
                            p.i += 1;
                        } else if p.is_p('(') {
                            p.skip_balanced();
                        }
                    }
                    Some(Tok::Str(_)) => p.i += 1,
                    _ => {
                        ret = parse_ty(p, ts, named)?;
                        break;
                    }
                }
            }
            if p.is_p('(') {
                p.skip_balanced(); // vararg function type
            }
            let pt = ts.get(Ty::Ptr);
            if p.is_w("asm") {
                return Err("inline asm".into());
            }
            let callee = parse_val(p, pt, ts, named)?;
            p.exp_p('(')?;
            let mut args = vec![];
            while !p.eat_p(')') {
                let et = parse_ty(p, ts, named)?;
                let mut c = parse_val(p, et, ts, named)?;
                if let Ty::Other = ts.ty(et) {
                    c = C::Meta;
                    // consume rest of metadata operand
                    while !p.is_p(',') && !p.is_p(')') {
                        if p.is_p('(') {
                            p.skip_balanced();
                        } else {
                            p.i += 1;
                        }
                    }
                }
                args.push((et, c));
                p.eat_p(',');
            }
            let mut inv = None;
            if op == "invoke" {
                while !p.is_w("to") {
                    if p.peek().is_none() {
                        return Err("invoke without to".into());
                    }
                    p.i += 1;
                }
                p.i += 1;
                inv = Some(label(p)?);
            }
            Ok(RawIns::Call { ret, callee, args, invoke: inv })
        }
        "br" => {
            if p.is_w("label") {
                return Ok(RawIns::Br(label(p)?));
            }
            let t = parse_ty(p, ts, named)?;
            let c = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let a = label(p)?;
            p.exp_p(',')?;
            let b = label(p)?;
            Ok(RawIns::CondBr(c, a, b))
        }
        "switch" => {
            let t = parse_ty(p, ts, named)?;
            let c = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let d = label(p)?;
            p.exp_p('[')?;
            let mut v = vec![];
            while !p.eat_p(']') {
                let et = parse_ty(p, ts, named)?;
                let k = match parse_val(p, et, ts, named)? {
                    C::Int(k) => k,
                    x => return Err(format!("switch case {:?}", x)),
                };
                p.exp_p(',')?;
                v.push((k, label(p)?));
            }
            Ok(RawIns::Switch(t, c, d, v))
        }
        "ret" => {
            if p.is_w("void") {
                return Ok(RawIns::Ret(None));
            }
            let t = parse_ty(p, ts, named)?;
            let c = parse_val(p, t, ts, named)?;
            Ok(RawIns::Ret(Some((t, c))))
        }
        "unreachable" => Ok(RawIns::Unreachable),
        "extractvalue" | "insertvalue" => {
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            let mut et = 0;
            let mut b = C::Undef;
            if op == "insertvalue" {
                p.exp_p(',')?;
                et = parse_ty(p, ts, named)?;
                b = parse_val(p, et, ts, named)?;
            }
            let mut idx = vec![];
            while p.eat_p(',') {
                match p.next()? {
                    Tok::Num(n) => idx.push(n.parse::<u32>().map_err(|e| e.to_string())?),
                    _ => break,
                }
            }
            Ok(if op == "insertvalue" { RawIns::InsertValue(t, a, et, b, idx) } else { RawIns::ExtractValue(t, a, idx) })
        }
        "extractelement" => {
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let it = parse_ty(p, ts, named)?;
            let i = parse_val(p, it, ts, named)?;
            Ok(RawIns::ExtractElem(t, a, it, i))
        }
        "insertelement" => {
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let et = parse_ty(p, ts, named)?;
            let e = parse_val(p, et, ts, named)?;
            p.exp_p(',')?;
            let it = parse_ty(p, ts, named)?;
            let i = parse_val(p, it, ts, named)?;
            Ok(RawIns::InsertElem(t, a, e, it, i))
        }
        "shufflevector" => {
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let t2 = parse_ty(p, ts, named)?;
            let b = parse_val(p, t2, ts, named)?;
            p.exp_p(',')?;
            let mt = parse_ty(p, ts, named)?;
            let n = if let Ty::Vec(n, _) = ts.ty(mt) { *n } else { return Err("mask type".into()) };
            let m = parse_val(p, mt, ts, named)?;
            let mask = match m {
                C::Zero => vec![0; n as usize],
                C::Undef => vec![-1; n as usize],
                C::Splat(_, c) => match *c {
                    C::Int(v) => vec![v as u32 as i32; n as usize],
                    _ => return Err("mask".into()),
                },
                C::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        C::Int(v) => *v as u32 as i32,
                        _ => -1,
                    })
                    .collect(),
                x => return Err(format!("mask {:?}", x)),
            };
            Ok(RawIns::Shuffle(t, a, b, mask))
        }
        "freeze" => {
            let t = parse_ty(p, ts, named)?;
            let a = parse_val(p, t, ts, named)?;
            Ok(RawIns::Freeze(t, a))
        }
        "atomicrmw" => {
            skip_flags(p);
            let o = match p.next()? {
                Tok::Word(w) => w.clone(),
                x => return Err(format!("rmw {:?}", x)),
            };
            let pt = parse_ty(p, ts, named)?;
            let a = parse_val(p, pt, ts, named)?;
            p.exp_p(',')?;
            let t = parse_ty(p, ts, named)?;
            let v = parse_val(p, t, ts, named)?;
            Ok(RawIns::AtomicRmw(o, t, a, v))
        }
        "cmpxchg" => {
            p.eat_w("weak");
            skip_flags(p);
            let pt = parse_ty(p, ts, named)?;
            let a = parse_val(p, pt, ts, named)?;
            p.exp_p(',')?;
            let t = parse_ty(p, ts, named)?;
            let c = parse_val(p, t, ts, named)?;
            p.exp_p(',')?;
            let t2 = parse_ty(p, ts, named)?;
            let n = parse_val(p, t2, ts, named)?;
            Ok(RawIns::CmpXchg(t, a, c, n))
        }
        "fence" => Ok(RawIns::Nop),
        _ => Err(format!("unsupported opcode {}", op)),
    }
}

// ---------------------------------------------------------------- whole program

#[derive(Default)]
pub struct Program {
    pub types: Types,
    pub modules: Vec<Module>,
    pub ftexts: Vec<Rc<FuncText>>,
    pub gfuncs: HashMap<String, usize>,
    pub gglobals: HashMap<String, (usize, String)>,
}

impl Program {
    pub fn load(&mut self, path: &str) -> Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mid = self.modules.len();
        let mut m = Module { id: mid, named: HashMap::new(), globals: HashMap::new(), funcs: HashMap::new(), aliases: HashMap::new() };
        let mut lines = text.lines().peekable();
        // named types may be forward referenced: collect first
        let mut tdefs: Vec<(String, String)> = vec![];
        let mut gl: Vec<String> = vec![];
        let mut fns: Vec<FuncText> = vec![];
        while let Some(l) = lines.next() {
            if l.starts_with('%') {
                if let Some(pos) = l.find(" = type ") {
                    let n = l[1..pos].trim_matches('"').to_string();
                    tdefs.push((n, l[pos + 8..].to_string()));
                }
            } else if l.starts_with('@') {
                gl.push(l.to_string());
            } else if l.starts_with("define ") {
                let mut body: Vec<(String, Vec<String>)> = vec![];
                let header = l.to_string();
                let mut cur: Option<(String, Vec<String>)> = None;
                while let Some(l) = lines.next() {
                    if l == "}" {
                        break;
                    }
                    if l.is_empty() {
                        continue;
                    }
                    let lt = l.trim_start();
                    if lt.starts_with(';') {
                        continue;
                    }
                    if !l.starts_with(' ') {
                        // label
                        let lab = if l.starts_with('"') {
                            let e = l[1..].find('"').unwrap();
                            l[1..1 + e].to_string()
                        } else {
                            l[..l.find(':').unwrap_or(l.len())].to_string()
                        };
                        if let Some(c) = cur.take() {
                            body.push(c);
                        }
                        cur = Some((lab, vec![]));
                        continue;
                    }
                    if cur.is_none() {
                        cur = Some((String::new(), vec![]));
                    }
                    let c = cur.as_mut().unwrap();
                    if lt.starts_with("to label ") || lt.starts_with("cleanup") || lt.starts_with("catch ") || lt.starts_with("filter ") {
                        let last = c.1.last_mut().unwrap();
                        last.push(' ');
                        last.push_str(lt);
                        continue;
                    }
                    let mut s = lt.to_string();
                    if lt.starts_with("switch ") && !lt.contains(']') {
                        while let Some(l2) = lines.next() {
                            s.push(' ');
                            s.push_str(l2.trim());
                            if l2.trim_start().starts_with(']') {
                                break;
                            }
                        }
                    }
                    c.1.push(s);
                }
                if let Some(c) = cur.take() {
                    body.push(c);
                }
                let toks = tokenize(&header);
                let name = toks
                    .iter()
                    .find_map(|t| if let Tok::Glob(n) = t { Some(n.clone()) } else { None })
                    .ok_or("function without name")?;
                let local = header.starts_with("define internal") || header.starts_with("define private");
                fns.push(FuncText { name, module: mid, header, body, local });
            }
        }
        // opaque first
        for (n, _) in &tdefs {
            let id = self.types.tys.len() as TyId;
            self.types.tys.push(Ty::Other);
            m.named.insert(n.clone(), id);
        }
        for (n, d) in &tdefs {
            let toks = tokenize(d);
            let mut p = Pos { t: &toks, i: 0 };
            if let Ok(t) = parse_ty(&mut p, &mut self.types, &m.named) {
                let id = m.named[n];
                let v = self.types.tys[t as usize].clone();
                self.types.tys[id as usize] = v;
            }
        }
        for l in gl {
            let toks = tokenize_global_head(&l);
            let (name, rest) = match toks {
                Some(x) => x,
                None => continue,
            };
            // rest: text after " = "
            let mut constant = false;
            let mut external = false;
            let mut local = false;
            let mut alias = false;
            let mut words = rest.as_str();
            loop {
                words = words.trim_start();
                let e = words.find(|c: char| c == ' ' || c == '(').unwrap_or(words.len());
                let w = &words[..e];
                match w {
                    "global" => {
                        words = &words[e..];
                        break;
                    }
                    "constant" => {
                        constant = true;
                        words = &words[e..];
                        break;
                    }
                    "alias" => {
                        alias = true;
                        words = &words[e..];
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                    }
                    "private" | "internal" => local = true,
                    "" => break,
                    _ => {}
                }
                words = &words[e..];
                if words.starts_with('(') {
                    let e = words.find(')').unwrap();
                    words = &words[e + 1..];
                }
            }
            if alias {
                let toks = tokenize(words);
                if let Some(Tok::Glob(n)) = toks.iter().rev().find(|t| matches!(t, Tok::Glob(_))) {
                    m.aliases.insert(name, n.clone());
                }
                continue;
            }
            let toks = tokenize(words);
            let mut p = Pos { t: &toks, i: 0 };
            let ty = match parse_ty(&mut p, &mut self.types, &m.named) {
                Ok(t) => t,
                Err(_) => continue,
            };
            let g = GlobalDef { ty, init: if external { None } else { Some(words.to_string()) }, constant, external, local };
            m.globals.insert(name.clone(), g);
            if !local && !external {
                self.gglobals.insert(name.clone(), (mid, name));
            }
        }
        for f in fns {
            let idx = self.ftexts.len();
            m.funcs.insert(f.name.clone(), idx);
            if !f.local {
                self.gfuncs.entry(f.name.clone()).or_insert(idx);
            }
            self.ftexts.push(Rc::new(f));
        }
        for (n, a) in &m.aliases {
            let mut t = a;
            while let Some(x) = m.aliases.get(t) {
                t = x;
            }
            if let Some(i) = m.funcs.get(t) {
                self.gfuncs.entry(n.clone()).or_insert(*i);
            }
        }
        self.modules.push(m);
        Ok(())
    }

    /// Resolve a function symbol seen from module `m`.
    pub fn find_func(&self, m: usize, name: &str) -> Option<usize> {
        if let Some(&i) = self.modules[m].funcs.get(name) {
            return Some(i);
        }
        if let Some(a) = self.modules[m].aliases.get(name) {
            let a = a.clone();
            return self.find_func(m, &a);
        }
        self.gfuncs.get(name).copied()
    }
    pub fn find_global(&self, m: usize, name: &str) -> Option<(usize, String)> {
        if let Some(g) = self.modules[m].globals.get(name) {
            if !g.external {
                return Some((m, name.to_string()));
            }
        }
        if let Some(x) = self.gglobals.get(name) {
            return Some(x.clone());
        }
        if self.modules[m].globals.contains_key(name) {
            return Some((m, name.to_string()));
        }
        None
    }
}

fn tokenize_global_head(l: &str) -> Option<(String, String)> {
    let pos = l.find(" = ")?;
    let n = l[1..pos].trim_matches('"').to_string();
    Some((n, l[pos + 3..].to_string()))
}
