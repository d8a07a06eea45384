//! Models of external functions and intrinsics, and the harness interface.
use crate::exec::*;
use crate::flt::{FO, FU};
use crate::interp::mk64;
use crate::ir::*;
use crate::lower::*;
use crate::term::*;
use std::rc::Rc;

type R<X> = Result<X, Stop>;
const MAXALLOC: u64 = 1 << 26;

impl Exec {
    fn cstr(&mut self, s: &State, p: &V) -> R<Rc<str>> {
        let mut a = match p {
            V::I(a) => *a,
            _ => return Err(Stop::Err("label".into())),
        };
        let mut v = vec![];
        loop {
            let (o, off) = self.obj(s, a, 1, "label")?;
            let b = o.b[off];
            if b == 0 {
                break;
            }
            v.push(b);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&v).as_ref().into())
    }
    fn boolean(&mut self, v: &V) -> R<T> {
        match v {
            V::I(x) => Ok((*x != 0) as T),
            V::U => Err(Stop::Viol("memory: result depends on uninitialised data".into())),
            V::T(t) => {
                let t = *t;
                let w = self.ts.w(t);
                if w == 1 {
                    return Ok(t);
                }
                let z = self.ts.c(0, w);
                let e = self.ts.eq(t, z);
                Ok(self.ts.not(e))
            }
            _ => Err(Stop::Err("boolean argument".into())),
        }
    }
    fn new_input(&mut self, s: &mut State, w: u16, hi: u128) -> V {
        let idx = s.inputs.len() as u32;
        let t = if hi == 0 { self.ts.c(0, w) } else { self.ts.var(idx, w, hi, 0) };
        s.inputs.push(t);
        let r = self.ts.zext_to(t, 64);
        self.vt(r)
    }
    fn harness(&mut self, s: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        match n {
            "sym_cfg" => {
                let i = self.concretize(s, &a[0], 64)? as usize;
                // parameters from 30 on are optional
                let v = match self.cfg.get(i).copied() {
                    Some(v) => v,
                    None if i >= 30 => 0,
                    None => return Err(Stop::Err(format!("missing job parameter {}", i))),
                };
                Ok(Some(V::I(v as u64)))
            }
            "sym_bits" => {
                let w = self.concretize(s, &a[0], 32)? as u16;
                Ok(Some(self.new_input(s, w, mask(w))))
            }
            "sym_range" => {
                let n = self.concretize(s, &a[0], 64)?;
                if n == 0 {
                    return Err(Stop::End);
                }
                let mut w = 1;
                while w < 64 && (n - 1) >> w != 0 {
                    w += 1;
                }
                Ok(Some(self.new_input(s, w, n as u128 - 1)))
            }
            "sym_assume" => {
                let c = self.boolean(&a[0])?;
                if let Some(v) = self.ts.cv(c) {
                    return if v != 0 { Ok(None) } else { Err(Stop::End) };
                }
                if self.ev(s, c) != 0 {
                    s.pc.push(c);
                    s.implied.insert(c);
                } else {
                    match self.feasible(s, c)? {
                        Some(m) => {
                            s.pc.push(c);
                    s.implied.insert(c);
                            s.model = Rc::new(m);
                        }
                        None => return Err(Stop::End),
                    }
                }
                Ok(None)
            }
            "sym_assert" => {
                let c = self.boolean(&a[0])?;
                s.nassert += 1;
                if c != 1 {
                    let l = self.cstr(s, &a[1])?;
                    s.asserts.push((c, l));
                    if c == 0 {
                        return Err(Stop::Done);
                    }
                }
                Ok(None)
            }
            "sym_close" => {
                if matches!(a[0], V::U) || matches!(a[1], V::U) {
                    return Err(Stop::Viol("memory: result depends on uninitialised data".into()));
                }
                let x = self.f(&a[0], 64);
                let y = self.f(&a[1], 64);
                let tol = match self.f(&a[2], 64) {
                    f => f64::from_bits(self.ts.fconst(f).ok_or_else(|| Stop::Err("tolerance".into()))?),
                };
                let c = self.ts.close(x, y, tol).map_err(Stop::Err)?;
                s.nassert += 1;
                if c != 1 {
                    let l = self.cstr(s, &a[3])?;
                    s.asserts.push((c, l));
                    if c == 0 {
                        return Err(Stop::Done);
                    }
                }
                Ok(None)
            }
            "sym_panic_ok" => {
                let c = self.boolean(&a[0])?;
                s.panic_ok = Some(c);
                Ok(None)
            }
            "sym_returned" => {
                let c = s.panic_ok.take().unwrap_or(0);
                let nc = self.ts.not(c);
                s.nassert += 1;
                if nc != 1 {
                    s.asserts.push((nc, "returned where a panic is specified".into()));
                    if nc == 0 {
                        return Err(Stop::Done);
                    }
                }
                Ok(None)
            }
            // as sym_returned, but a panic is merely allowed
            "sym_end_panic" => {
                s.panic_ok = None;
                Ok(None)
            }
            "sym_cover" => {
                let l = self.cstr(s, &a[0])?;
                if !s.covers.contains(&l) {
                    s.covers.push(l);
                }
                Ok(None)
            }
            "sym_observe" => {
                let t = self.t(&a[0], 64);
                if matches!(a[0], V::U) {
                    return Err(Stop::Viol("memory: result depends on uninitialised data".into()));
                }
                // traces compare the first few values
                if s.obs.len() < 400 {
                    s.obs.push((t, 64));
                }
                Ok(None)
            }
            // take both outcomes of a condition as separate paths
            "sym_split" => {
                let c = self.boolean(&a[0])?;
                let r = self.decide(s, c)?;
                Ok(Some(V::I(r as u64)))
            }
            "sym_concrete" => {
                let r = self.concretize(s, &a[0], 64)?;
                Ok(Some(V::I(r)))
            }
            "sym_in_engine" => Ok(Some(V::I(1))),
            _ => Err(Stop::Err(format!("unknown harness function {}", n))),
        }
    }
    fn rust_alloc(&mut self, s: &mut State, size: u64, zero: bool) -> R<V> {
        if size > MAXALLOC {
            return Err(Stop::Panic(format!("allocation of {} bytes", size)));
        }
        Ok(V::I(self.alloc(s, size, 0, zero)))
    }
    fn dealloc(&mut self, s: &mut State, p: u64, size: Option<u64>) -> R<()> {
        let (o, off) = self.obj(s, p, 0, "free")?;
        if off != 0 || o.kind != 0 {
            return Err(Stop::Viol("memory: free of a pointer that is not an allocation".into()));
        }
        if let Some(z) = size {
            if z != o.b.len() as u64 {
                return Err(Stop::Viol("memory: free with a wrong size".into()));
            }
        }
        s.mem[(p >> 32) as usize] = None;
        Ok(())
    }
    pub fn call_ext(&mut self, s: &mut State, n: &str, ret: TyId, a: &mut Vec<V>, tys: &[TyId]) -> R<Option<V>> {
        if n.starts_with("sym_") {
            return self.harness(s, n, a);
        }
        if let Some(i) = n.strip_prefix("llvm.") {
            return self.intrinsic(s, i, ret, a, tys);
        }
        let rustc = n.contains("7___rustc") || n.starts_with("__rust");
        if rustc {
            if n.contains("no_alloc_shim") {
                return Ok(None);
            }
            if n.ends_with("rust_alloc") || n.ends_with("rust_alloc_zeroed") {
                let sz = self.concretize(s, &a[0], 64)?;
                return Ok(Some(self.rust_alloc(s, sz, n.ends_with("zeroed"))?));
            }
            if n.ends_with("rust_dealloc") {
                let p = self.concretize(s, &a[0], 64)?;
                let sz = self.concretize(s, &a[1], 64)?;
                self.dealloc(s, p, Some(sz))?;
                return Ok(None);
            }
            if n.ends_with("rust_realloc") {
                let p = self.concretize(s, &a[0], 64)?;
                let old = self.concretize(s, &a[1], 64)?;
                let sz = self.concretize(s, &a[3], 64)?;
                if sz > MAXALLOC {
                    return Err(Stop::Panic(format!("allocation of {} bytes", sz)));
                }
                let q = self.alloc(s, sz, 0, false);
                self.copy(s, q, p, old.min(sz))?;
                self.dealloc(s, p, Some(old))?;
                return Ok(Some(V::I(q)));
            }
        }
        if n.contains("6RawVec") && n.contains("8grow_one") {
            let es = match n.split("6RawVec").nth(1).and_then(|x| x.chars().next()) {
                Some('h') | Some('a') => 1u64,
                Some('t') | Some('s') => 2,
                Some('f') | Some('m') | Some('l') => 4,
                Some('j') | Some('i') | Some('d') | Some('y') | Some('x') => 8,
                _ => return Err(Stop::Err(format!("grow_one model: {}", n))),
            };
            let p = self.concretize(s, &a[0], 64)?;
            let i64t = self.lo.p.types.get(Ty::Int(64));
            let cap = self.load(s, p, i64t)?;
            let cap = self.concretize(s, &cap, 64)?;
            let ptr = self.load(s, p + 8, i64t)?;
            let ptr = self.concretize(s, &ptr, 64)?;
            let nc = (cap * 2).max(if es == 1 { 8 } else { 4 });
            let q = self.alloc(s, nc * es, 0, false);
            if cap > 0 {
                self.copy(s, q, ptr, cap * es)?;
                self.dealloc(s, ptr, Some(cap * es))?;
            }
            self.store(s, p, i64t, &V::I(nc))?;
            self.store(s, p + 8, i64t, &V::I(q))?;
            return Ok(None);
        }
        if n.contains("3fmt6format12format_inner") {
            let p = self.concretize(s, &a[0], 64)?;
            let i64t = self.lo.p.types.get(Ty::Int(64));
            self.store(s, p, i64t, &V::I(0))?;
            self.store(s, p + 8, i64t, &V::I(1))?;
            self.store(s, p + 16, i64t, &V::I(0))?;
            return Ok(None);
        }
        if n.contains("hashmap_random_keys") {
            return Ok(Some(V::A(Rc::new(vec![V::I(0x0123_4567_89ab_cdef), V::I(0xfedc_ba98_7654_3210)]))));
        }
        if n.contains("detect_and_initialize") {
            let v: u128 = (1u128 << 63) | if self.avx2 { 1 << 15 } else { 0 };
            return Ok(Some(match self.ty(ret) {
                Ty::Int(128) => V::T(self.ts.c(v, 128)),
                Ty::Struct(..) => V::A(Rc::new(vec![V::I(v as u64), V::I(1 << 63)])),
                _ => V::I(v as u64),
            }));
        }
        if n == "memcmp" || n == "bcmp" {
            let p = self.concretize(s, &a[0], 64)?;
            let q = self.concretize(s, &a[1], 64)?;
            let k = self.concretize(s, &a[2], 64)?;
            let i8t = self.lo.p.types.get(Ty::Int(8));
            let mut r = V::I(0);
            for i in (0..k).rev() {
                let x = self.load(s, p + i, i8t)?;
                let y = self.load(s, q + i, i8t)?;
                let eq = self.icmp(0, 8, &x, &y);
                let lt = self.icmp(4, 8, &x, &y);
                let i32t = self.lo.p.types.get(Ty::Int(32));
                let lt = self.boolean(&lt)?;
                let eq = self.boolean(&eq)?;
                let ne = self.sel(lt, &V::I(0xffff_ffff), &V::I(1), i32t);
                r = self.sel(eq, &r, &ne, i32t);
            }
            return Ok(Some(r));
        }
        if matches!(n, "memcpy" | "memmove") {
            let p = self.concretize(s, &a[0], 64)?;
            let q = self.concretize(s, &a[1], 64)?;
            let k = self.concretize(s, &a[2], 64)?;
            self.copy(s, p, q, k)?;
            return Ok(Some(V::I(p)));
        }
        if let Some((op, w)) = libm1(n) {
            let r = self.fun(op, w, &a[0]);
            return Ok(Some(r));
        }
        if let Some((op, w)) = libm2(n) {
            let r = self.fbin(op, w, &a[0], &a[1]);
            return Ok(Some(r));
        }
        if n.contains("9panicking") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("slice_index_fail") || n.contains("slice_error_fail") || n.contains("handle_alloc_error") || n.contains("12handle_error") || n.contains("capacity_overflow") || n.contains("begin_panic") || n.contains("len_mismatch_fail") || n.contains("13assert_failed") || n.contains("panic_on_ord_violation") || n.contains("process5abort") || n.contains("panic_") {
            return Err(Stop::Panic(n.to_string()));
        }
        if let Some(r) = self.extra_model(s, n, ret, a)? {
            return Ok(r);
        }
        Err(Stop::Err(format!("call of an external function without a model: {}", n)))
    }
    fn extra_model(&mut self, s: &mut State, n: &str, _ret: TyId, a: &mut Vec<V>) -> R<Option<Option<V>>> {
        let _ = (s, a);
        // drop glue / logging that cannot influence results
        if n.contains("is_zero_slow_path") {
            return Ok(Some(Some(V::I(1))));
        }
        if n.ends_with("sqrt_approx") {
            return Ok(None);
        }
        Ok(None)
    }
    fn elementwise(&mut self, a: &[V], f: &mut dyn FnMut(&mut Exec, &[V]) -> R<V>) -> R<V> {
        let n = a.iter().find_map(|v| if let V::A(x) = v { Some(x.len()) } else { None });
        match n {
            None => f(self, a),
            Some(n) => {
                let mut o = vec![];
                for i in 0..n {
                    let e: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(f(self, &e)?);
                }
                Ok(V::A(Rc::new(o)))
            }
        }
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, ret: TyId, a: &mut Vec<V>, tys: &[TyId]) -> R<Option<V>> {
        let base: &str = {
            // strip type suffixes
            let mut e = n.len();
            let b = n.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'.' {
                    let rest = &n[i + 1..];
                    let c = rest.as_bytes().first().copied().unwrap_or(0);
                    let tyish = (c == b'i' || c == b'f' || c == b'p' || c == b'v') && rest.as_bytes().get(1).map_or(false, |x| x.is_ascii_digit());
                    if tyish {
                        e = i;
                        break;
                    }
                }
                i += 1;
            }
            &n[..e]
        };
        let w = if tys.is_empty() { 0 } else { self.lo.width(tys[0]) };
        match base {
            "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "x86.sse2.pause" | "prefetch" => return Ok(None),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let k = self.concretize(s, &a[2], 64)?;
                if k == 0 {
                    return Ok(None);
                }
                let d = self.concretize(s, &a[0], 64)?;
                let q = self.concretize(s, &a[1], 64)?;
                if base == "memcpy" && d >> 32 == q >> 32 && d != q {
                    let (x, y) = (d.min(q), d.max(q));
                    if x + k > y {
                        return Err(Stop::Viol("memory: overlapping copy_nonoverlapping".into()));
                    }
                }
                self.copy(s, d, q, k)?;
                return Ok(None);
            }
            "memset" => {
                let k = self.concretize(s, &a[2], 64)?;
                let d = self.concretize(s, &a[0], 64)?;
                let v = a[1].clone();
                self.fill(s, d, &v, k)?;
                return Ok(None);
            }
            "trap" => return Err(Stop::Panic("trap".into())),
            "threadlocal.address" | "expect" | "ssa.copy" | "launder.invariant.group" => return Ok(Some(a[0].clone())),
            "is.constant" => return Ok(Some(V::I(0))),
            "load.relative" => {
                let p = self.concretize(s, &a[0], 64)?;
                let off = self.concretize(s, &a[1], 64)?;
                let i32t = self.lo.p.types.get(Ty::Int(32));
                let v = self.load(s, p.wrapping_add(off), i32t)?;
                let v = self.concretize(s, &v, 32)?;
                // entries hold differences of object numbers, see ginit
                return Ok(Some(V::I(p.wrapping_add(((v as i32 as i64) << 32) as u64))));
            }
            _ => {}
        }
        if let Some(k) = base.strip_prefix("x86.") {
            if let Some(v) = self.x86(s, k, n, a)? {
                return Ok(Some(v));
            }
        }
        if let Some(k) = base.strip_suffix(".with.overflow") {
            let x = self.t(&a[0], w);
            let y = self.t(&a[1], w);
            if matches!(a[0], V::U) || matches!(a[1], V::U) {
                return Err(Stop::Viol("memory: arithmetic on uninitialised data".into()));
            }
            let (r, o) = self.overflow(k, x, y, w)?;
            return Ok(Some(V::A(Rc::new(vec![self.vt(r), self.vt(o)]))));
        }
        let rw = self.lo.width(ret);
        let fu = match base {
            "fabs" => Some(FU::Abs),
            "sqrt" => Some(FU::Sqrt),
            "round" => Some(FU::Round),
            "roundeven" | "rint" | "nearbyint" => Some(FU::RoundEven),
            "floor" => Some(FU::Floor),
            "ceil" => Some(FU::Ceil),
            "trunc" => Some(FU::Trunc),
            "exp" => Some(FU::Exp),
            "exp2" => Some(FU::Exp2),
            "log" => Some(FU::Ln),
            "log2" => Some(FU::Log2),
            "log10" => Some(FU::Log10),
            "sin" => Some(FU::Sin),
            "cos" => Some(FU::Cos),
            "tan" => Some(FU::Tan),
            _ => None,
        };
        if let Some(f) = fu {
            return Ok(Some(self.fun(f, w, &a[0].clone())));
        }
        let fo = match base {
            "minnum" | "minimumnum" => Some(FO::Min),
            "maxnum" | "maximumnum" => Some(FO::Max),
            "pow" => Some(FO::Pow),
            "copysign" => Some(FO::CopySign),
            "atan2" => Some(FO::Atan2),
            _ => None,
        };
        if let Some(f) = fo {
            return Ok(Some(self.fbin(f, w, &a[0].clone(), &a[1].clone())));
        }
        let args = a.clone();
        let b = base.to_string();
        let r = match base {
            "powi" => {
                let e = match &args[1] {
                    V::I(x) => *x as u32 as i32,
                    _ => return Err(Stop::Err("powi exponent".into())),
                };
                let x = args[0].clone();
                self.powi(&x, e, w)
            }
            "fma" | "fmuladd" => {
                // only in contexts where contraction was requested; not produced by rustc by default
                return Err(Stop::Err("fma".into()));
            }
            "fptoui.sat" | "fptosi.sat" => self.elementwise(&args, &mut |m, e| {
                if matches!(e[0], V::U) {
                    return Ok(V::U);
                }
                let f = m.f(&e[0], w);
                let r = m.ts.ftoi(f, b == "fptosi.sat", rw);
                Ok(m.vt(r))
            })?,
            "is.fpclass" => {
                let m = match &args[1] {
                    V::I(m) => *m,
                    _ => return Err(Stop::Err("fpclass".into())),
                };
                let f = self.f(&args[0], w);
                let t = self.fpclass(f, m, w)?;
                self.vt(t)
            }
            _ => self.elementwise(&args, &mut |m, e| m.int_intrinsic(s, &b, w, rw, e))?,
        };
        Ok(Some(r))
    }
    /// integer vector instructions that keep their own intrinsic
    fn x86(&mut self, s: &mut State, k: &str, full: &str, a: &[V]) -> R<Option<V>> {
        let k = match k.split_once('.') {
            Some((f, r)) if f.starts_with("sse") || f.starts_with("ssse") || f.starts_with("avx") => r,
            _ => return Ok(None),
        };
        let _ = full;
        let lanes = |v: &V| -> Vec<V> {
            match v {
                V::A(x) => x.as_ref().clone(),
                v => vec![v.clone()],
            }
        };
        // saturating narrowing of every 128-bit lane of both arguments in turn
        let pack = match k.split('.').next().unwrap_or("") {
            "packuswb" => Some((16u16, 8u16, false)),
            "packsswb" => Some((16, 8, true)),
            "packusdw" => Some((32, 16, false)),
            "packssdw" => Some((32, 16, true)),
            _ => None,
        };
        if let Some((w, nw, sg)) = pack {
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let per = (128 / w) as usize;
            let mut o = Vec::with_capacity(x.len() * 2);
            for l in 0..x.len() / per {
                for src in [&x, &y] {
                    for e in &src[l * per..(l + 1) * per] {
                        if matches!(e, V::U) {
                            o.push(V::U);
                            continue;
                        }
                        let t = self.t(e, w);
                        let (lo, hi) = if sg { (-(1i128 << (nw - 1)), (1i128 << (nw - 1)) - 1) } else { (0, (1i128 << nw) - 1) };
                        let (cl, ch) = (self.ts.c(lo as u128 & mask(w), w), self.ts.c(hi as u128, w));
                        let c = self.ts.cmp(Cm::Slt, t, cl);
                        let t1 = self.ts.ite(c, cl, t);
                        let c = self.ts.cmp(Cm::Slt, ch, t1);
                        let t2 = self.ts.ite(c, ch, t1);
                        let r = self.ts.ext(0, t2, nw);
                        o.push(self.vt(r));
                    }
                }
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        let mul = match k {
            "pmulhu.w" => Some((false, 16u16)),
            "pmulh.w" => Some((true, 16)),
            _ => None,
        };
        if let Some((sg, w)) = mul {
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let mut o = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(&y) {
                if matches!(p, V::U) || matches!(q, V::U) {
                    o.push(V::U);
                    continue;
                }
                let (p, q) = (self.t(p, w), self.t(q, w));
                let (p, q) = if sg { (self.ts.sext_to(p, 2 * w), self.ts.sext_to(q, 2 * w)) } else { (self.ts.zext_to(p, 2 * w), self.ts.zext_to(q, 2 * w)) };
                let m = self.ts.bin(Op::Mul, p, q);
                let r = self.ts.ext(w, m, w);
                o.push(self.vt(r));
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        if k == "pavg.b" || k == "pavg.w" {
            let w = if k == "pavg.b" { 8u16 } else { 16 };
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let mut o = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(&y) {
                if matches!(p, V::U) || matches!(q, V::U) {
                    o.push(V::U);
                    continue;
                }
                let (p, q) = (self.t(p, w), self.t(q, w));
                let (p, q) = (self.ts.zext_to(p, w + 2), self.ts.zext_to(q, w + 2));
                let m = self.ts.bin(Op::Add, p, q);
                let one = self.ts.c(1, w + 2);
                let m = self.ts.bin(Op::Add, m, one);
                let r = self.ts.ext(1, m, w);
                o.push(self.vt(r));
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        if k == "psad.bw" {
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let mut o = Vec::with_capacity(x.len() / 8);
            for (p, q) in x.chunks(8).zip(y.chunks(8)) {
                let mut acc = self.ts.c(0, 64);
                for (p, q) in p.iter().zip(q) {
                    let (p, q) = (self.t(p, 8), self.t(q, 8));
                    let c = self.ts.cmp(Cm::Ult, p, q);
                    let d1 = self.ts.bin(Op::Sub, p, q);
                    let d2 = self.ts.bin(Op::Sub, q, p);
                    let d = self.ts.ite(c, d2, d1);
                    let d = self.ts.zext_to(d, 64);
                    acc = self.ts.bin(Op::Add, acc, d);
                }
                o.push(self.vt(acc));
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        if k == "pshuf.b" || k == "pshuf.b.128" {
            // byte shuffle within 128-bit lanes, constant indices only
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let mut o = Vec::with_capacity(x.len());
            for (i, q) in y.iter().enumerate() {
                let q = self.concretize(s, q, 8)?;
                o.push(if q & 0x80 != 0 { V::I(0) } else { x[i / 16 * 16 + (q & 15) as usize].clone() });
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        let sh = match k.split_once('.') {
            Some(("psrli", t)) => Some((Op::LShr, t)),
            Some(("pslli", t)) => Some((Op::Shl, t)),
            Some(("psrai", t)) => Some((Op::AShr, t)),
            _ => None,
        };
        if let Some((op, t)) = sh {
            let w = match t {
                "w" => 16u16,
                "d" => 32,
                "q" => 64,
                _ => return Ok(None),
            };
            let c = self.concretize(s, &a[1], 32)?;
            let mut o = Vec::new();
            for p in lanes(&a[0]) {
                if matches!(p, V::U) {
                    o.push(V::U);
                    continue;
                }
                let p = self.t(&p, w);
                let r = if c >= w as u64 && op != Op::AShr {
                    self.ts.c(0, w)
                } else {
                    let k = self.ts.c((c.min(w as u64 - 1)) as u128, w);
                    self.ts.bin(op, p, k)
                };
                o.push(self.vt(r));
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        if k == "pmadd.wd" || k == "pmadd.ub.sw" {
            let (ub, w, rw) = if k == "pmadd.wd" { (false, 16u16, 32u16) } else { (true, 8, 16) };
            let (x, y) = (lanes(&a[0]), lanes(&a[1]));
            let mut o = Vec::new();
            for (p, q) in x.chunks(2).zip(y.chunks(2)) {
                let mut acc = self.ts.c(0, rw + 2);
                for (p, q) in p.iter().zip(q) {
                    let (p, q) = (self.t(p, w), self.t(q, w));
                    let p = if ub { self.ts.zext_to(p, rw + 2) } else { self.ts.sext_to(p, rw + 2) };
                    let q = self.ts.sext_to(q, rw + 2);
                    let m = self.ts.bin(Op::Mul, p, q);
                    acc = self.ts.bin(Op::Add, acc, m);
                }
                if ub {
                    let hi = self.ts.c(0x7fff, rw + 2);
                    let lo = self.ts.c(mask(rw + 2) - 0x7fff, rw + 2);
                    let c = self.ts.cmp(Cm::Slt, hi, acc);
                    acc = self.ts.ite(c, hi, acc);
                    let c = self.ts.cmp(Cm::Slt, acc, lo);
                    acc = self.ts.ite(c, lo, acc);
                }
                let r = self.ts.ext(0, acc, rw);
                o.push(self.vt(r));
            }
            return Ok(Some(V::A(Rc::new(o))));
        }
        Ok(None)
    }
    fn powi(&mut self, x: &V, e: i32, w: u16) -> V {
        if let Some(c) = self.ts.fconst(self.clone_f(x, w)) {
            let r = if w == 32 { (f32::from_bits(c as u32).powi(e)).to_bits() as u64 } else { f64::from_bits(c).powi(e).to_bits() };
            let f = self.ts.fc(r, w);
            return self.vf(f);
        }
        // compiler-rt algorithm
        let recip = e < 0;
        let mut b = (e as i64).unsigned_abs();
        let one = {
            let f = self.ts.fc(if w == 32 { 1.0f32.to_bits() as u64 } else { 1.0f64.to_bits() }, w);
            self.vf(f)
        };
        let mut r = one.clone();
        let mut a = x.clone();
        let mut first = true;
        loop {
            if b & 1 == 1 {
                r = if first { a.clone() } else { self.fbin(FO::Mul, w, &r, &a) };
                first = false;
            }
            b >>= 1;
            if b == 0 {
                break;
            }
            a = self.fbin(FO::Mul, w, &a.clone(), &a.clone());
        }
        if recip {
            r = self.fbin(FO::Div, w, &one, &r);
        }
        r
    }
    fn clone_f(&self, x: &V, w: u16) -> u32 {
        match x {
            V::F(f) => *f,
            V::F32(_) | V::F64(_) => {
                // constant: intern through an immutable lookup is not possible; handled by caller
                let me = self as *const Exec as *mut Exec;
                unsafe { (*me).f(x, w) }
            }
            _ => {
                let me = self as *const Exec as *mut Exec;
                unsafe { (*me).f(x, w) }
            }
        }
    }
    fn fpclass(&mut self, f: u32, m: u64, w: u16) -> R<T> {
        // bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
        let inf = self.ts.fc(if w == 32 { f32::INFINITY.to_bits() as u64 } else { f64::INFINITY.to_bits() }, w);
        let abs = self.ts.fun(FU::Abs, f);
        let nan = self.ts.fcmp(FCm::Uno, f, f);
        let isinf = self.ts.fcmp(FCm::Eq, abs, inf);
        match m {
            3 => Ok(nan),
            516 => Ok(isinf),
            504 => {
                let o = self.ts.or(nan, isinf);
                Ok(self.ts.not(o))
            }
            519 => Ok(self.ts.or(nan, isinf)),
            _ => {
                // class by class on the bit pattern
                let b = self.ts.bits_of(f);
                let (mb, sh) = if w == 32 { (23u32, 31u32) } else { (52, 63) };
                let em = ((1u64 << sh) - 1) & !((1u64 << mb) - 1);
                let sign = 1u64 << sh;
                let ck = self.ts.c(sign as u128, w);
                let neg = {
                    let x = self.ts.bin(Op::And, b, ck);
                    self.ts.cmp(Cm::Eq, x, ck)
                };
                let am = self.ts.c((sign - 1) as u128, w);
                let a = self.ts.bin(Op::And, b, am);
                let mut acc = 0; // false
                for k in 0..10u32 {
                    if m >> k & 1 == 0 {
                        continue;
                    }
                    // magnitude range of the class and its sign
                    let (lo, hi, sg) = match k {
                        0 => (em + 1, em + (1 << (mb - 1)) - 1, None),
                        1 => (em + (1 << (mb - 1)), sign - 1, None),
                        2 => (em, em, Some(true)),
                        9 => (em, em, Some(false)),
                        3 => (1 << mb, em - 1, Some(true)),
                        8 => (1 << mb, em - 1, Some(false)),
                        4 => (1, (1 << mb) - 1, Some(true)),
                        7 => (1, (1 << mb) - 1, Some(false)),
                        5 => (0, 0, Some(true)),
                        _ => (0, 0, Some(false)),
                    };
                    let (cl, ch) = (self.ts.c(lo as u128, w), self.ts.c(hi as u128, w));
                    let g = self.ts.cmp(Cm::Ule, cl, a);
                    let l = self.ts.cmp(Cm::Ule, a, ch);
                    let mut t = self.ts.and(g, l);
                    if let Some(n) = sg {
                        let q = if n { neg } else { self.ts.not(neg) };
                        t = self.ts.and(t, q);
                    }
                    acc = self.ts.or(acc, t);
                }
                Ok(acc)
            }
        }
    }
    fn overflow(&mut self, k: &str, x: T, y: T, w: u16) -> R<(T, T)> {
        let ts = &mut self.ts;
        let (op, sg) = match k {
            "uadd" => (Op::Add, false),
            "usub" => (Op::Sub, false),
            "umul" => (Op::Mul, false),
            "sadd" => (Op::Add, true),
            "ssub" => (Op::Sub, true),
            "smul" => (Op::Mul, true),
            _ => return Err(Stop::Err(format!("overflow {}", k))),
        };
        let r = ts.bin(op, x, y);
        if k == "uadd" {
            let o = ts.cmp(Cm::Ult, r, x);
            // range reasoning is better on the widened form
            let (xe, ye) = (ts.e[x as usize].uhi, ts.e[y as usize].uhi);
            if xe.checked_add(ye).map_or(false, |v| v <= mask(w)) {
                return Ok((r, 0));
            }
            return Ok((r, o));
        }
        if k == "usub" {
            let o = ts.cmp(Cm::Ult, x, y);
            return Ok((r, o));
        }
        // quick range check
        let ok = if sg {
            let (a, b) = (&ts.e[x as usize], &ts.e[y as usize]);
            let c = [(a.slo, b.slo), (a.slo, b.shi), (a.shi, b.slo), (a.shi, b.shi)];
            let lim = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
            c.iter().all(|(p, q)| {
                let v = match op {
                    Op::Add => p.checked_add(*q),
                    Op::Sub => p.checked_sub(*q),
                    _ => p.checked_mul(*q),
                };
                v.map_or(false, |v| v <= lim && v >= -lim - 1)
            })
        } else {
            let (a, b) = (&ts.e[x as usize], &ts.e[y as usize]);
            a.uhi.checked_mul(b.uhi).map_or(false, |v| v <= mask(w))
        };
        if ok {
            return Ok((r, 0));
        }
        let ww = match op {
            Op::Mul => {
                if w > 64 {
                    return Err(Stop::Err("wide multiplication overflow".into()));
                }
                2 * w
            }
            _ => {
                if w >= 128 {
                    return Err(Stop::Err("wide overflow".into()));
                }
                w + 1
            }
        };
        let (xe, ye) = if sg { (ts.sext_to(x, ww), ts.sext_to(y, ww)) } else { (ts.zext_to(x, ww), ts.zext_to(y, ww)) };
        let wide = ts.bin(op, xe, ye);
        let back = if sg { ts.sext_to(r, ww) } else { ts.zext_to(r, ww) };
        let e = ts.eq(wide, back);
        let o = ts.not(e);
        Ok((r, o))
    }
    fn int_intrinsic(&mut self, s: &mut State, n: &str, w: u16, rw: u16, e: &[V]) -> R<V> {
        if e.iter().any(|v| matches!(v, V::U)) {
            return Ok(V::U);
        }
        let x = self.t(&e[0], w);
        let y = if e.len() > 1 && !matches!(n, "ctlz" | "cttz" | "abs") { self.t(&e[1], w) } else { x };
        let ts = &mut self.ts;
        let r = match n {
            "umax" => {
                let c = ts.cmp(Cm::Ult, x, y);
                ts.ite(c, y, x)
            }
            "umin" => {
                let c = ts.cmp(Cm::Ult, x, y);
                ts.ite(c, x, y)
            }
            "smax" => {
                let c = ts.cmp(Cm::Slt, x, y);
                ts.ite(c, y, x)
            }
            "smin" => {
                let c = ts.cmp(Cm::Slt, x, y);
                ts.ite(c, x, y)
            }
            "abs" => {
                let z = ts.c(0, w);
                let c = ts.cmp(Cm::Slt, x, z);
                let m = ts.bin(Op::Sub, z, x);
                ts.ite(c, m, x)
            }
            "ucmp" | "scmp" => {
                let k = if n == "ucmp" { Cm::Ult } else { Cm::Slt };
                let lt = ts.cmp(k, x, y);
                let gt = ts.cmp(k, y, x);
                let (m1, z, p1) = (ts.c(mask(rw), rw), ts.c(0, rw), ts.c(1, rw));
                let t = ts.ite(gt, p1, z);
                ts.ite(lt, m1, t)
            }
            "uadd.sat" => {
                let xe = ts.zext_to(x, w + 1);
                let ye = ts.zext_to(y, w + 1);
                let r = ts.bin(Op::Add, xe, ye);
                let m = ts.c(mask(w), w + 1);
                let c = ts.cmp(Cm::Ult, m, r);
                let t = ts.zext_to(r, w);
                let mm = ts.c(mask(w), w);
                ts.ite(c, mm, t)
            }
            "usub.sat" => {
                let c = ts.cmp(Cm::Ult, x, y);
                let z = ts.c(0, w);
                let d = ts.bin(Op::Sub, x, y);
                ts.ite(c, z, d)
            }
            "sadd.sat" | "ssub.sat" => {
                let op = if n == "sadd.sat" { Op::Add } else { Op::Sub };
                let xe = ts.sext_to(x, w + 1);
                let ye = ts.sext_to(y, w + 1);
                let r = ts.bin(op, xe, ye);
                let hi = ts.c(mask(w) >> 1, w + 1);
                let lo = ts.c(mask(w + 1) - (mask(w) >> 1), w + 1);
                let c = ts.cmp(Cm::Slt, hi, r);
                let r = ts.ite(c, hi, r);
                let c = ts.cmp(Cm::Slt, r, lo);
                let r = ts.ite(c, lo, r);
                ts.zext_to(r, w)
            }
            "x86.avx2.pavg.b" | "x86.sse2.pavg.b" => {
                let xe = ts.zext_to(x, w + 1);
                let ye = ts.zext_to(y, w + 1);
                let r = ts.bin(Op::Add, xe, ye);
                let one = ts.c(1, w + 1);
                let r = ts.bin(Op::Add, r, one);
                let r = ts.bin(Op::LShr, r, one);
                ts.zext_to(r, w)
            }
            "ctpop" => {
                let mut acc = ts.c(0, w);
                for i in 0..w {
                    let b = ts.ext(i, x, 1);
                    let z = ts.zext_to(b, w);
                    acc = ts.bin(Op::Add, acc, z);
                }
                acc
            }
            "ctlz" | "cttz" => {
                let mut acc = ts.c(w as u128, w);
                for k in 0..w {
                    // last write wins: most significant for ctlz, least for cttz
                    let i = if n == "ctlz" { k } else { w - 1 - k };
                    let b = ts.ext(i, x, 1);
                    let v = if n == "ctlz" { w - 1 - i } else { i };
                    let v = ts.c(v as u128, w);
                    acc = ts.ite(b, v, acc);
                }
                acc
            }
            "bswap" => {
                let mut acc: Option<T> = None;
                for i in (0..w / 8).rev() {
                    let b = ts.ext(i * 8, x, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(a) => ts.concat(b, a),
                    });
                }
                acc.unwrap()
            }
            "fshl" | "fshr" => {
                let k = match &e[2] {
                    V::I(k) => (*k % w as u64) as u16,
                    v => self.concretize(s, &v.clone(), w)? as u16 % w,
                };
                let ts = &mut self.ts;
                if k == 0 {
                    if n == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let (l, r) = if n == "fshl" { (k, w - k) } else { (w - k, k) };
                    let lc = ts.c(l as u128, w);
                    let rc = ts.c(r as u128, w);
                    let p = ts.bin(Op::Shl, x, lc);
                    let q = ts.bin(Op::LShr, y, rc);
                    ts.bin(Op::Or, p, q)
                }
            }
            _ => return Err(Stop::Err(format!("intrinsic llvm.{}", n))),
        };
        let _ = mk64(w);
        Ok(self.vt(r))
    }
}
fn libm1(n: &str) -> Option<(FU, u16)> {
    let (b, w) = match n.strip_suffix('f') {
        Some(b) if n != "f" => (b, 32),
        _ => (n, 64),
    };
    Some((
        match b {
            "exp" => FU::Exp,
            "exp2" => FU::Exp2,
            "log" => FU::Ln,
            "log2" => FU::Log2,
            "log10" => FU::Log10,
            "sin" => FU::Sin,
            "cos" => FU::Cos,
            "tan" => FU::Tan,
            "atan" => FU::Atan,
            "acos" => FU::Acos,
            "asin" => FU::Asin,
            "cbrt" => FU::Cbrt,
            "sqrt" => FU::Sqrt,
            "round" => FU::Round,
            "floor" => FU::Floor,
            "ceil" => FU::Ceil,
            "trunc" => FU::Trunc,
            "fabs" => FU::Abs,
            "rint" | "roundeven" => FU::RoundEven,
            _ => return None,
        },
        w,
    ))
}
fn libm2(n: &str) -> Option<(FO, u16)> {
    let (b, w) = match n.strip_suffix('f') {
        Some(b) => (b, 32),
        _ => (n, 64),
    };
    Some((
        match b {
            "pow" => FO::Pow,
            "hypot" => FO::Hypot,
            "fmod" => FO::Rem,
            "atan2" => FO::Atan2,
            "fmin" => FO::Min,
            "fmax" => FO::Max,
            _ => return None,
        },
        w,
    ))
}
