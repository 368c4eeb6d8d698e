//! LLVM textual IR: lazily parsed functions and globals.
use crate::expr::{FxMap, Op};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Float(u32), Meta, Label }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::Float(n) => *n, _ => panic!("bits of {:?}", self) } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8, Ty::Float(n) => *n as u64 / 8, Ty::Arr(_, t) => t.align(), Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8, Ty::Float(n) => *n as u64 / 8, Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => { let mut o = 0; for t in f.iter() { if !packed { o = up(o, t.align()); } o += t.size(); } if *packed { o } else { up(o, self.align()) } }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !packed { o = up(o, t.align()); } if k == i { return (o, t.clone()); } o += t.size(); } panic!("field") }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

/// constant (as written)
#[derive(Clone, Debug)]
pub enum K { Int(u128), Undef, Zero, Global(Rc<str>), Agg(Vec<(Ty, K)>), Bytes(Rc<Vec<u8>>), Off(Box<K>, i64), Splat(Box<(Ty, K)>), Expr(&'static str, Box<K>, Box<K>, u32), Cast(Box<K>, u32, u32) }
/// value: constant (width <= 64), expression, aggregate or vector
#[derive(Clone, Debug)]
pub enum V { C(u64), S(crate::expr::Id), A(Rc<Vec<V>>) }
#[derive(Clone, Debug)]
pub enum O { Reg(u32), K(K), V(V) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, Other }
#[derive(Clone, Debug)]
pub enum Callee { Name(Rc<str>), Ind(O), F(u32) }
#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, Op, Ty, O, O), ICmp(u32, Pred, Ty, O, O), Cast(u32, Cast, Ty, O, Ty), Select(u32, Ty, Ty, O, O, O), Load(u32, Ty, O), Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(Ty, O, i64)>), Alloca(u32, u64), Call(u32, Ty, Callee, Vec<(Ty, O)>, Option<(u32, u32)>),
    Br(u32), CondBr(O, u32, u32), Switch(Ty, O, u32, Vec<(u128, u32)>), Ret(Option<(Ty, O)>), Unreachable, Resume(O), Pad(u32, i32),
    Extract(u32, O, Vec<u32>), Insert(u32, Ty, O, Ty, O, Vec<u32>), InsElt(u32, Ty, O, O, O), ExtElt(u32, Ty, O, O), Shuf(u32, Ty, O, O, Vec<u32>, u32),
    Rmw(u32, Rc<str>, Ty, O, O), CmpXchg(u32, Ty, O, O, O), Freeze(u32, Ty, O), Fp(u32, Rc<str>, Ty, O, O, Ty), Nop, Unsupported(Rc<str>),
}
pub struct Phi { pub dst: u32, pub ty: Ty, pub from: Vec<(u32, O)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<I> }
pub struct Func { pub name: Rc<str>, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub ptys: Vec<Ty> }
pub const NOREG: u32 = u32::MAX;

pub struct Module { pub text: String, pub funcs: FxMap<Rc<str>, (usize, usize)>, pub decls: FxMap<Rc<str>, ()>, pub globals: FxMap<Rc<str>, (usize, usize)>, pub aliases: FxMap<Rc<str>, Rc<str>>, types: FxMap<Rc<str>, (usize, usize)> }

#[derive(Clone, Debug, PartialEq)]
enum T { Loc(Rc<str>), Glob(Rc<str>), W(Rc<str>), Int(Rc<str>), Str(Rc<Vec<u8>>), P(u8), Meta, Attr, Nl, End }
struct Lex<'a> { s: &'a [u8], i: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_') }
impl<'a> Lex<'a> {
    fn name(&mut self) -> Rc<str> {
        if self.s.get(self.i) == Some(&b'"') {
            let b = self.quoted();
            return String::from_utf8_lossy(&b).as_ref().into();
        }
        let st = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().into()
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.i += 1;
        let mut b = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { b.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                b.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { b.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        b
    }
    fn next(&mut self) -> T {
        loop {
            let c = match self.s.get(self.i) { None => return T::End, Some(c) => *c };
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'\n' => { self.i += 1; return T::Nl; }
                b';' => while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; },
                b'%' => { self.i += 1; return T::Loc(self.name()); }
                b'@' => { self.i += 1; return T::Glob(self.name()); }
                b'!' => { self.i += 1; while self.i < self.s.len() && (idc(self.s[self.i])) { self.i += 1; } return T::Meta; }
                b'#' => { self.i += 1; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } return T::Attr; }
                b'"' => { let b = self.quoted(); return T::Str(Rc::new(b)); }
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => { self.i += 1; let b = self.quoted(); return T::Str(Rc::new(b)); }
                c if c.is_ascii_digit() || c == b'-' && self.s.get(self.i + 1).map_or(false, |x| x.is_ascii_digit()) => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; }
                    return T::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap().into());
                }
                c if c.is_ascii_alphabetic() || c == b'_' => { return T::W(self.name()); }
                b'.' if self.s[self.i..].starts_with(b"...") => { self.i += 3; return T::W("...".into()); }
                b'.' => { return T::W(self.name()); }
                c => { self.i += 1; return T::P(c); }
            }
        }
    }
}
struct Ps<'m> { m: &'m Module, t: Vec<T>, i: usize, regs: FxMap<Rc<str>, u32>, labels: FxMap<Rc<str>, u32>, nlab: u32 }
type R<X> = Result<X, String>;
impl<'m> Ps<'m> {
    fn new(m: &'m Module, s: &str) -> Ps<'m> {
        let mut l = Lex { s: s.as_bytes(), i: 0 };
        let mut t = vec![];
        loop { let x = l.next(); let e = x == T::End; t.push(x); if e { break; } }
        Ps { m, t, i: 0, regs: FxMap::default(), labels: FxMap::default(), nlab: 0 }
    }
    fn pk(&self) -> &T { &self.t[self.i] }
    fn pk2(&self) -> &T { self.t.get(self.i + 1).unwrap_or(&T::End) }
    fn nx(&mut self) -> T { let x = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1; } x }
    fn p(&mut self, c: u8) -> R<()> { let x = self.nx(); if x == T::P(c) { Ok(()) } else { Err(format!("expected {:?}, got {:?}", c as char, x)) } }
    fn isp(&self, c: u8) -> bool { *self.pk() == T::P(c) }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn isw(&self, w: &str) -> bool { matches!(self.pk(), T::W(x) if &**x == w) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn line(&mut self) { while !matches!(self.pk(), T::Nl | T::End) { self.i += 1; } while *self.pk() == T::Nl { self.i += 1; } }
    fn reg(&mut self, n: Rc<str>) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn label(&mut self, n: Rc<str>) -> u32 { if let Some(i) = self.labels.get(&n) { return *i; } let k = self.nlab; self.nlab += 1; self.labels.insert(n, k); k }
    fn is_ty(&self) -> bool {
        match self.pk() {
            T::W(w) => matches!(&**w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "half" | "x86_fp80" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Loc(_) => false,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let x = self.nx();
        Ok(match &x {
            T::W(w) => match &**w {
                "void" => Ty::Void,
                "ptr" => { if self.isw("addrspace") { self.i += 1; self.skip_paren(); } Ty::Ptr }
                "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "x86_fp80" => Ty::Float(128), "metadata" => Ty::Meta, "label" => Ty::Label,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            T::P(b'[') => { let n = self.int()? as u64; self.nx(); let t = self.ty()?; self.p(b']')?; Ty::Arr(n, Rc::new(t)) }
            T::P(b'{') => { let v = self.tys(b'}')?; Ty::Struct(Rc::new(v), false) }
            T::P(b'<') => {
                if self.eatp(b'{') { let v = self.tys(b'}')?; self.p(b'>')?; Ty::Struct(Rc::new(v), true) }
                else { let n = self.int()? as u32; self.nx(); let t = self.ty()?; self.p(b'>')?; Ty::Vec(n, Rc::new(t)) }
            }
            T::Loc(n) => { let (a, b) = *self.m.types.get(n).ok_or_else(|| format!("type %{}", n))?; let mut q = Ps::new(self.m, &self.m.text[a..b]); q.ty()? }
            _ => return Err(format!("type {:?}", x)),
        })
    }
    fn tys(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eatp(end) { return Ok(v); } self.p(b',')?; }
    }
    fn int(&mut self) -> R<i128> { match self.nx() { T::Int(s) => s.parse().map_err(|_| format!("int {}", s)), x => Err(format!("int {:?}", x)) } }
    fn skip_paren(&mut self) {
        if !self.isp(b'(') { return; }
        let mut d = 0;
        loop { match self.nx() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return; } } T::End => return, _ => {} } }
    }
    /// skips attribute words in front of a type or operand
    fn attrs(&mut self) {
        loop {
            match self.pk().clone() {
                T::Attr => self.i += 1,
                T::W(w) => {
                    if self.is_ty() { return; }
                    match &*w {
                        "asm" | "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "sub" | "add" | "splat" | "xor" | "blockaddress" | "dso_local_equivalent" | "no_cfi" => return,
                        "align" | "dereferenceable" | "dereferenceable_or_null" if matches!(self.pk2(), T::Int(_)) => self.i += 2,
                        _ => { self.i += 1; self.skip_paren(); }
                    }
                }
                T::Str(_) => { self.i += 1; if self.eatp(b'=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn konst(&mut self, t: &Ty) -> R<K> {
        let x = self.nx();
        Ok(match &x {
            T::Int(s) => {
                if matches!(t, Ty::Float(_)) { return Ok(K::Int(float(s, t)?)); }
                let v: i128 = s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|v| v as i128)).map_err(|_| format!("int {}", s))?;
                K::Int(v as u128)
            }
            T::P(c @ (b'+' | b'-')) if matches!(t, Ty::Float(_)) => {
                let c = *c;
                let b = match self.nx() { T::W(w) if &*w == "inf" => f64::INFINITY, T::W(w) if &*w == "qnan" || &*w == "nan" => f64::NAN, x => return Err(format!("float {:?}", x)) };
                let b = if c == b'-' { -b } else { b };
                K::Int(if *t == Ty::Float(32) { (b as f32).to_bits() as u128 } else { b.to_bits() as u128 })
            }
            T::Glob(n) => K::Global(n.clone()),
            T::Str(b) => K::Bytes(b.clone()),
            T::W(w) => match &**w {
                "true" => K::Int(1), "false" => K::Int(0), "null" | "zeroinitializer" | "none" => K::Zero, "undef" | "poison" => K::Undef,
                "splat" => { self.p(b'(')?; let t = self.ty()?; let k = self.konst(&t)?; self.p(b')')?; K::Splat(Box::new((t, k))) }
                "getelementptr" => {
                    while let T::W(_) = self.pk() { self.i += 1; self.skip_inrange(); }
                    self.p(b'(')?;
                    let et = self.ty()?;
                    self.p(b',')?;
                    let pt = self.ty()?;
                    let b = self.konst(&pt)?;
                    let mut cur = et.clone();
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eatp(b',') {
                        self.attrs();
                        let it = self.ty()?;
                        let k = match self.konst(&it)? { K::Int(v) => v as i64, K::Zero => 0, k => return Err(format!("gep index {:?}", k)) };
                        if first { off += k * et.size() as i64; first = false; } else { let (o, n) = cur.field_i(k); off += o; cur = n; }
                    }
                    self.p(b')')?;
                    K::Off(Box::new(b), off)
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" => {
                    while let T::W(_) = self.pk() { self.i += 1; }
                    self.p(b'(')?;
                    let ft = self.ty()?;
                    let k = self.konst(&ft)?;
                    self.nx();
                    let tt = self.ty()?;
                    self.p(b')')?;
                    if ft.bits() == tt.bits() { k } else { K::Cast(Box::new(k), ft.bits(), tt.bits()) }
                }
                "sub" | "add" | "xor" => {
                    let op = match &**w { "sub" => "sub", "add" => "add", _ => "xor" };
                    while let T::W(_) = self.pk() { self.i += 1; }
                    self.p(b'(')?;
                    let ta = self.ty()?; let a = self.konst(&ta)?; self.p(b',')?;
                    let tb = self.ty()?; let b = self.konst(&tb)?; self.p(b')')?;
                    K::Expr(op, Box::new(a), Box::new(b), ta.bits())
                }
                _ if w.starts_with("0x") => K::Int(float(w, t)?),
                _ => return Err(format!("constant {}", w)),
            },
            T::P(b'[') => K::Agg(self.kelems(b']')?),
            T::P(b'{') => K::Agg(self.kelems(b'}')?),
            T::P(b'<') => { if self.eatp(b'{') { let v = self.kelems(b'}')?; self.p(b'>')?; K::Agg(v) } else { K::Agg(self.kelems(b'>')?) } }
            _ => return Err(format!("constant {:?}", x)),
        })
    }
    fn skip_inrange(&mut self) { if self.isp(b'(') && matches!(self.pk2(), T::Int(_)) { self.skip_paren(); } }
    fn kelems(&mut self, end: u8) -> R<Vec<(Ty, K)>> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(v); }
        loop { let t = self.ty()?; let k = self.konst(&t)?; v.push((t, k)); if self.eatp(end) { return Ok(v); } self.p(b',')?; }
    }
    fn op(&mut self, t: &Ty) -> R<O> {
        if let T::Loc(n) = self.pk().clone() { self.i += 1; return Ok(O::Reg(self.reg(n))); }
        Ok(O::K(self.konst(t)?))
    }
    fn tyop(&mut self) -> R<(Ty, O)> { self.attrs(); let t = self.ty()?; self.attrs(); let o = self.op(&t)?; Ok((t, o)) }
    fn lbl(&mut self) -> R<u32> { if !self.eatw("label") { return Err("label".into()); } match self.nx() { T::Loc(n) => Ok(self.label(n)), x => Err(format!("label {:?}", x)) } }
    fn flags(&mut self) { while let T::W(w) = self.pk() { if self.is_ty() { break; } let _ = w; self.i += 1; self.skip_paren_if_flag(); } }
    fn skip_paren_if_flag(&mut self) { if self.isp(b'(') { self.skip_paren(); } }
    fn inst(&mut self) -> R<Res> {
        let mut dst = NOREG;
        if let T::Loc(n) = self.pk().clone() {
            if *self.pk2() == T::P(b'=') { self.i += 2; dst = self.reg(n); }
        }
        let w = match self.nx() { T::W(w) => w, x => return Err(format!("instruction {:?}", x)) };
        let i = match &*w {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags();
                let t = self.ty()?; let a = self.op(&t)?; self.p(b',')?; let b = self.op(&t)?;
                let op = match &*w { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "urem" => Op::URem, "sdiv" => Op::SDiv, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                I::Bin(dst, op, t, a, b)
            }
            "icmp" => {
                let mut pr = None;
                while let T::W(w) = self.pk().clone() {
                    if self.is_ty() { break; }
                    self.i += 1;
                    pr = match &*w { "eq" => Some(Pred::Eq), "ne" => Some(Pred::Ne), "ugt" => Some(Pred::Ugt), "uge" => Some(Pred::Uge), "ult" => Some(Pred::Ult), "ule" => Some(Pred::Ule), "sgt" => Some(Pred::Sgt), "sge" => Some(Pred::Sge), "slt" => Some(Pred::Slt), "sle" => Some(Pred::Sle), _ => pr };
                }
                let t = self.ty()?; let a = self.op(&t)?; self.p(b',')?; let b = self.op(&t)?;
                I::ICmp(dst, pr.ok_or("pred")?, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.flags();
                let t = self.ty()?; let a = self.op(&t)?;
                if !self.eatw("to") { return Err("to".into()); }
                let tt = self.ty()?;
                let c = match &*w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::BitCast, _ => Cast::Other };
                if c == Cast::Other { I::Fp(dst, w.clone(), t.clone(), a, O::K(K::Zero), tt) } else { I::Cast(dst, c, t, a, tt) }
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyop()?; self.p(b',')?; let (t, a) = self.tyop()?; self.p(b',')?; let (_, b) = self.tyop()?;
                I::Select(dst, ct, t, c, a, b)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.p(b'[')?;
                    let o = self.op(&t)?;
                    self.p(b',')?;
                    let l = match self.nx() { T::Loc(n) => self.label(n), x => return Err(format!("{:?}", x)) };
                    self.p(b']')?;
                    v.push((l, o));
                    if !(self.isp(b',') && *self.pk2() == T::P(b'[')) { break; }
                    self.i += 1;
                }
                return Ok(Res::Phi(Phi { dst, ty: t, from: v }));
            }
            "load" => {
                self.eatw("atomic"); self.eatw("volatile");
                let t = self.ty()?; self.p(b',')?; let (_, p) = self.tyop()?;
                I::Load(dst, t, p)
            }
            "store" => {
                self.eatw("atomic"); self.eatw("volatile");
                let (t, v) = self.tyop()?; self.p(b',')?; let (_, p) = self.tyop()?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while let T::W(_) = self.pk() { if self.is_ty() { break; } self.i += 1; self.skip_inrange(); }
                let et = self.ty()?;
                self.p(b',')?;
                let (_, b) = self.tyop()?;
                let mut off = 0i64;
                let mut v = vec![];
                let mut cur = et.clone();
                let mut first = true;
                while self.isp(b',') && *self.pk2() != T::Meta {
                    self.i += 1;
                    let (it, o) = self.tyop()?;
                    if first {
                        first = false;
                        match &o { O::K(K::Int(k)) => off += *k as i64 * et.size() as i64, O::K(K::Zero) => {}, _ => v.push((it, o, et.size() as i64)) }
                    } else {
                        match &o {
                            O::K(K::Int(k)) => { let (f, n) = cur.field_i(*k as i64); off += f; cur = n; }
                            O::K(K::Zero) => { let (_, n) = cur.field_i(0); cur = n; }
                            _ => { let n = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => return Err("gep".into()) }; v.push((it, o, n.size() as i64)); cur = n; }
                        }
                    }
                }
                I::Gep(dst, b, off, v)
            }
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = 1;
                if self.isp(b',') && !matches!(self.pk2(), T::W(w) if &**w == "align") && *self.pk2() != T::Meta { self.i += 1; let (_, o) = self.tyop()?; n = match o { O::K(K::Int(k)) => k as u64, _ => return Err("dynamic alloca".into()) }; }
                I::Alloca(dst, t.size() * n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(&*w, "tail" | "musttail" | "notail") { self.nx(); }
                self.attrs();
                let rt = self.ty()?;
                // function type for varargs
                if self.isp(b'(') { self.skip_paren(); }
                self.attrs();
                let callee = match self.nx() { T::Glob(n) => Callee::Name(n), T::Loc(n) => Callee::Ind(O::Reg(self.reg(n))), T::W(w) if &*w == "asm" => {
                    let mut cpu = false;
                    while !matches!(self.pk(), T::Nl | T::End) { if let T::Str(b) = self.pk() { let t = String::from_utf8_lossy(b); cpu |= t.contains("cpuid"); } self.i += 1; }
                    // a processor without features
                    return Ok(Res::I(if cpu { I::Call(dst, rt, Callee::Name("asm.cpuid".into()), vec![], None) } else { I::Unsupported("asm".into()) }));
                } T::W(w) if &*w == "inttoptr" => { self.skip_paren(); Callee::Ind(O::K(K::Zero)) }, x => return Err(format!("callee {:?}", x)) };
                self.p(b'(')?;
                let mut args = vec![];
                if !self.eatp(b')') {
                    loop {
                        self.attrs();
                        let t = self.ty()?;
                        if t == Ty::Meta {
                            // metadata operand: skip to the next , or ) at this depth
                            let mut d = 0;
                            loop { match self.pk() { T::P(b'(') | T::P(b'{') => d += 1, T::P(b')') | T::P(b',') if d == 0 => break, T::P(b')') | T::P(b'}') => d -= 1, T::End => return Err("metadata".into()), _ => {} } self.i += 1; }
                            args.push((t, O::K(K::Undef)));
                        } else { self.attrs(); let o = self.op(&t)?; args.push((t, o)); }
                        if self.eatp(b')') { break; }
                        self.p(b',')?;
                    }
                }
                let mut inv = None;
                if &*w == "invoke" {
                    while !self.isw("to") { if *self.pk() == T::End { return Err("invoke".into()); } self.i += 1; }
                    self.i += 1;
                    let a = self.lbl()?;
                    while *self.pk() == T::Nl { self.i += 1; }
                    if !self.eatw("unwind") { return Err("unwind".into()); }
                    let b = self.lbl()?;
                    inv = Some((a, b));
                }
                I::Call(dst, rt, callee, args, inv)
            }
            "br" => {
                if self.isw("label") { I::Br(self.lbl()?) } else { let (_, c) = self.tyop()?; self.p(b',')?; let a = self.lbl()?; self.p(b',')?; let b = self.lbl()?; I::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, v) = self.tyop()?;
                self.p(b',')?;
                let d = self.lbl()?;
                self.p(b'[')?;
                let mut cs = vec![];
                loop {
                    while *self.pk() == T::Nl { self.i += 1; }
                    if self.eatp(b']') { break; }
                    let ct = self.ty()?;
                    let k = match self.konst(&ct)? { K::Int(v) => v, K::Zero => 0, _ => return Err("case".into()) };
                    self.p(b',')?;
                    let l = self.lbl()?;
                    cs.push((k & crate::expr::mask(ct.bits() as u16), l));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => { if self.eatw("void") { I::Ret(None) } else { I::Ret(Some(self.tyop()?)) } }
            "unreachable" => I::Unreachable,
            "resume" => { let (_, o) = self.tyop()?; I::Resume(o) }
            "landingpad" => {
                let _ = self.ty()?;
                let mut sel = 0;
                loop {
                    let save = self.i;
                    while *self.pk() == T::Nl { self.i += 1; }
                    if self.eatw("cleanup") { continue; }
                    if self.eatw("catch") { let _ = self.tyop()?; sel = 1; continue; }
                    if self.eatw("filter") { let _ = self.tyop()?; sel = -1; continue; }
                    self.i = save;
                    break;
                }
                I::Pad(dst, sel)
            }
            "extractvalue" => { let (_, o) = self.tyop()?; let v = self.idx()?; I::Extract(dst, o, v) }
            "insertvalue" => { let (t, a) = self.tyop()?; self.p(b',')?; let (et, e) = self.tyop()?; let v = self.idx()?; I::Insert(dst, t, a, et, e, v) }
            "insertelement" => { let (t, a) = self.tyop()?; self.p(b',')?; let (_, e) = self.tyop()?; self.p(b',')?; let (_, k) = self.tyop()?; I::InsElt(dst, t, a, e, k) }
            "extractelement" => { let (t, a) = self.tyop()?; self.p(b',')?; let (_, k) = self.tyop()?; I::ExtElt(dst, t, a, k) }
            "shufflevector" => {
                let (t, a) = self.tyop()?; self.p(b',')?; let (_, b) = self.tyop()?; self.p(b',')?; let (mt, mk) = self.tyop()?;
                let n = if let Ty::Vec(n, _) = mt { n } else { return Err("mask".into()) };
                let ms = match mk { O::K(K::Agg(v)) => v.iter().map(|(_, k)| if let K::Int(x) = k { *x as u32 } else { 0 }).collect(), O::K(K::Splat(b)) => vec![if let K::Int(x) = b.1 { x as u32 } else { 0 }; n as usize], _ => vec![0; n as usize] };
                let src_n = if let Ty::Vec(n, _) = &t { *n } else { 0 };
                I::Shuf(dst, t, a, b, ms, src_n)
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.nx() { T::W(w) => w, x => return Err(format!("{:?}", x)) };
                let (_, p) = self.tyop()?; self.p(b',')?; let (t, v) = self.tyop()?;
                I::Rmw(dst, op, t, p, v)
            }
            "cmpxchg" => {
                self.eatw("weak"); self.eatw("volatile");
                let (_, p) = self.tyop()?; self.p(b',')?; let (t, a) = self.tyop()?; self.p(b',')?; let (_, b) = self.tyop()?;
                I::CmpXchg(dst, t, p, a, b)
            }
            "fence" => I::Nop,
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { self.flags(); let t = self.ty()?; let a = self.op(&t)?; self.p(b',')?; let b = self.op(&t)?; I::Fp(dst, w.clone(), t.clone(), a, b, t) }
            "fneg" => { self.flags(); let t = self.ty()?; let a = self.op(&t)?; I::Fp(dst, w.clone(), t.clone(), a, O::K(K::Zero), t) }
            "fcmp" => {
                let mut pr: Rc<str> = "".into();
                while let T::W(w) = self.pk().clone() { if self.is_ty() { break; } self.i += 1; pr = w; self.skip_paren_if_flag(); }
                let t = self.ty()?; let a = self.op(&t)?; self.p(b',')?; let b = self.op(&t)?;
                I::Fp(dst, format!("fcmp.{}", pr).into(), t, a, b, Ty::Int(1))
            }
            "freeze" => { let (t, o) = self.tyop()?; I::Freeze(dst, t, o) }
            _ => I::Unsupported(w.clone()),
        };
        Ok(Res::I(i))
    }
    fn line_no_skip(&mut self) { while !matches!(self.pk(), T::Nl | T::End) { self.i += 1; } }
    fn idx(&mut self) -> R<Vec<u32>> { let mut v = vec![]; while self.isp(b',') && matches!(self.pk2(), T::Int(_)) { self.i += 1; v.push(self.int()? as u32); } Ok(v) }
}
enum Res { I(I), Phi(Phi) }
impl Ty { fn field_i(&self, k: i64) -> (i64, Ty) { match self { Ty::Arr(_, t) | Ty::Vec(_, t) => (k * t.size() as i64, (**t).clone()), _ => { let (o, t) = self.field(k as usize); (o as i64, t) } } } }
fn float(s: &str, t: &Ty) -> R<u128> {
    let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|_| format!("float {}", s))? } else { s.parse::<f64>().map_err(|_| format!("float {}", s))?.to_bits() };
    Ok(if *t == Ty::Float(32) { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 })
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), funcs: FxMap::default(), decls: FxMap::default(), globals: FxMap::default(), aliases: FxMap::default(), types: FxMap::default() };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = memchr(b, i);
            let line = &text[i..e];
            if line.starts_with("define ") {
                let name = gname(line);
                let mut j = e + 1;
                loop { let e2 = memchr(b, j); if b[j] == b'}' { break; } j = e2 + 1; if j >= b.len() { break; } }
                m.funcs.insert(name, (i, j));
                i = memchr(b, j) + 1;
                continue;
            } else if line.starts_with("declare ") { m.decls.insert(gname(line), ()); }
            else if line.starts_with('@') {
                let name = gname(line);
                if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
                    let k = line.rfind('@').unwrap();
                    m.aliases.insert(name, gname(&line[k..]));
                } else { m.globals.insert(name, (i, e)); }
            } else if line.starts_with('%') { if let Some(k) = line.find(" = type ") { let n = Lex { s: line.as_bytes(), i: 1 }.name(); m.types.insert(n, (i + k + 8, e)); } }
            i = e + 1;
        }
        m.text = text;
        m
    }
    /// (type, initializer or None when external, constant?, thread local)
    pub fn global(&self, n: &str) -> R<(Ty, Option<K>, bool)> {
        let (a, b) = *self.globals.get(n).ok_or_else(|| format!("no global {}", n))?;
        let mut p = Ps::new(self, &self.text[a..b]);
        p.nx(); p.p(b'=')?;
        let mut ext = false;
        let konst;
        loop {
            match p.nx() {
                T::W(w) if &*w == "global" => { konst = false; break; }
                T::W(w) if &*w == "constant" => { konst = true; break; }
                T::W(w) if &*w == "external" || &*w == "extern_weak" => ext = true,
                T::End => return Err("global".into()),
                _ => {}
            }
        }
        let t = p.ty()?;
        let k = if ext { None } else { Some(p.konst(&t)?) };
        Ok((t, k, konst))
    }
    pub fn func(&self, n: &Rc<str>) -> R<Func> {
        let (a, b) = *self.funcs.get(n).ok_or_else(|| format!("no function {}", n))?;
        let mut p = Ps::new(self, &self.text[a..b]);
        // header: up to the name
        loop { match p.nx() { T::Glob(_) => break, T::End => return Err("header".into()), _ => {} } }
        p.p(b'(')?;
        let mut params = vec![];
        let mut ptys = vec![];
        if !p.eatp(b')') {
            loop {
                if p.eatw("...") { p.p(b')')?; break; }
                p.attrs();
                let t = p.ty()?;
                p.attrs();
                match p.nx() { T::Loc(n) => { let r = p.reg(n); params.push(r); ptys.push(t); } x => return Err(format!("param {:?}", x)) }
                if p.eatp(b')') { break; }
                p.p(b',')?;
            }
        }
        p.line();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        fn flush(blocks: &mut Vec<Option<Block>>, cur: Option<(u32, Block)>) { if let Some((l, b)) = cur { while blocks.len() <= l as usize { blocks.push(None); } blocks[l as usize] = Some(b); } }
        let mut entry = NOREG;
        loop {
            while *p.pk() == T::Nl { p.i += 1; }
            match p.pk().clone() {
                T::End => break,
                // label
                T::W(n) | T::Int(n) if *p.pk2() == T::P(b':') => { p.i += 2; flush(&mut blocks, cur.take()); let l = p.label(n); if entry == NOREG { entry = l; } cur = Some((l, Block { phis: vec![], insts: vec![] })); p.line(); continue; }
                T::Str(s) if *p.pk2() == T::P(b':') => { let n: Rc<str> = String::from_utf8_lossy(&s).as_ref().into(); p.i += 2; flush(&mut blocks, cur.take()); let l = p.label(n); if entry == NOREG { entry = l; } cur = Some((l, Block { phis: vec![], insts: vec![] })); p.line(); continue; }
                T::P(b'#') | T::Attr => { p.line(); continue; }
                _ => {}
            }
            if cur.is_none() { // unnamed entry block: its number is the number of parameters
                let l = p.label(params.len().to_string().as_str().into());
                entry = l;
                cur = Some((l, Block { phis: vec![], insts: vec![] }));
            }
            let st = p.i;
            match p.inst() {
                Ok(Res::I(x)) => cur.as_mut().unwrap().1.insts.push(x),
                Ok(Res::Phi(x)) => cur.as_mut().unwrap().1.phis.push(x),
                Err(e) => { let around: Vec<_> = p.t[st..(st + 12).min(p.t.len())].to_vec(); return Err(format!("{}: {} at {:?}", n, e, around)); }
            }
            p.line();
        }
        flush(&mut blocks, cur.take());
        if entry != 0 { return Err(format!("{}: entry block {}", n, entry)); }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![I::Unsupported("missing block".into())] })).collect();
        Ok(Func { name: n.clone(), params, nregs: p.regs.len() as u32, blocks, ptys })
    }
}
fn memchr(b: &[u8], i: usize) -> usize { let mut j = i; while j < b.len() && b[j] != b'\n' { j += 1; } j }
fn gname(l: &str) -> Rc<str> { let k = l.find('@').unwrap(); Lex { s: l.as_bytes(), i: k + 1 }.name() }
