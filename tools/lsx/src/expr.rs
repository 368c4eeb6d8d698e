//! Hash-consed bit-vector expressions with local simplification. Width 1 doubles as Boolean.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Id = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Concat }
use Op::*;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E { Const(u128), Var(u32), Bin(Op, Id, Id), Ite(Id, Id, Id), Extract(Id, u16), ZExt(Id), SExt(Id) }
#[derive(Clone, Copy)]
pub struct Node { pub e: E, pub w: u16, pub supp: u128, pub umax: u128 }

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

pub struct Pool { pub n: Vec<Node>, map: FxMap<(E, u16), Id>, ev: Vec<(u32, u128)>, epoch: u32 }

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
        SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let x = sext(a, w); let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (x >> s) as u128 & m }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext(a, w) < sext(b, w)) as u128,
        Sle => (sext(a, w) <= sext(b, w)) as u128,
        Concat => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Pool { let mut p = Pool { n: vec![], map: FxMap::default(), ev: vec![], epoch: 0 }; p.raw(E::Const(0), 1); p }
    fn raw(&mut self, e: E, w: u16) -> Id {
        if let Some(i) = self.map.get(&(e, w)) { return *i; }
        let (supp, umax) = match e {
            E::Const(c) => (0, c),
            E::Var(i) => (1u128 << i, 255),
            E::Bin(op, a, b) => {
                let (x, y) = (self.n[a as usize], self.n[b as usize]);
                let u = match op {
                    Eq | Ult | Ule | Slt | Sle => 1,
                    And => x.umax.min(y.umax),
                    Or | Xor => { let m = x.umax | y.umax; if m == 0 { 0 } else { !0u128 >> m.leading_zeros() } }
                    Add => match x.umax.checked_add(y.umax) { Some(s) if s <= mask(w) => s, _ => mask(w) },
                    Mul => match x.umax.checked_mul(y.umax) { Some(s) if s <= mask(w) => s, _ => mask(w) },
                    UDiv | URem => x.umax.max(if matches!(op, UDiv) { mask(w) } else { 0 }).min(if matches!(op, UDiv) { if let E::Const(c) = y.e { if c == 0 { mask(w) } else { x.umax / c } } else { mask(w) } } else if let E::Const(c) = y.e { if c == 0 { x.umax } else { c - 1 } } else { x.umax }),
                    LShr => if let E::Const(c) = y.e { if c >= w as u128 { 0 } else { x.umax >> c } } else { x.umax },
                    Shl => if let E::Const(c) = y.e { if c < x.umax.leading_zeros() as u128 && c < w as u128 && (x.umax << c) <= mask(w) { x.umax << c } else { mask(w) } } else { mask(w) },
                    Concat => (x.umax << y_w(&self.n, b)) | y.umax,
                    _ => mask(w),
                };
                (x.supp | y.supp, u.min(mask(w)))
            }
            E::Ite(c, a, b) => { let (x, y, z) = (self.n[c as usize], self.n[a as usize], self.n[b as usize]); (x.supp | y.supp | z.supp, y.umax.max(z.umax)) }
            E::Extract(a, lo) => { let x = self.n[a as usize]; (x.supp, if lo == 0 { x.umax.min(mask(w)) } else { (x.umax >> lo).min(mask(w)) }) }
            E::ZExt(a) => { let x = self.n[a as usize]; (x.supp, x.umax) }
            E::SExt(a) => { let x = self.n[a as usize]; (x.supp, if x.umax < 1u128 << (x.w - 1) { x.umax } else { mask(w) }) }
        };
        let i = self.n.len() as Id;
        self.n.push(Node { e, w, supp, umax });
        self.map.insert((e, w), i);
        i
    }
    pub fn c(&mut self, v: u128, w: u16) -> Id { self.raw(E::Const(v & mask(w)), w) }
    pub fn var(&mut self, i: u32) -> Id { assert!(i < 128, "tape too long"); self.raw(E::Var(i), 8) }
    pub fn w(&self, i: Id) -> u16 { self.n[i as usize].w }
    pub fn e(&self, i: Id) -> E { self.n[i as usize].e }
    pub fn konst(&self, i: Id) -> Option<u128> { if let E::Const(c) = self.e(i) { Some(c) } else { None } }
    pub fn supp(&self, i: Id) -> u128 { self.n[i as usize].supp }
    pub fn umax(&self, i: Id) -> u128 { self.n[i as usize].umax }
    pub fn not(&mut self, a: Id) -> Id { let w = self.w(a); let m = self.c(mask(w), w); self.bin(Xor, a, m) }
    pub fn eq(&mut self, a: Id, b: Id) -> Id { self.bin(Eq, a, b) }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(Or, a, b) }
    pub fn eqc(&mut self, a: Id, v: u128) -> Id { let w = self.w(a); let c = self.c(v, w); self.bin(Eq, a, c) }
    /// trailing bits known to be zero
    pub fn tz(&self, i: Id) -> u32 {
        let n = self.n[i as usize];
        match n.e {
            E::Const(c) => c.trailing_zeros().min(n.w as u32),
            E::Bin(Shl, a, b) => match self.konst(b) { Some(k) => (self.tz(a) + k as u32).min(n.w as u32), None => self.tz(a) },
            E::Bin(Mul, a, b) => (self.tz(a) + self.tz(b)).min(n.w as u32),
            E::Bin(Add, a, b) | E::Bin(Or, a, b) | E::Bin(Sub, a, b) | E::Bin(Xor, a, b) => self.tz(a).min(self.tz(b)),
            E::Bin(And, a, b) => self.tz(a).max(self.tz(b)),
            E::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            E::ZExt(a) => { let t = self.tz(a); if t == self.w(a) as u32 { n.w as u32 } else { t } }
            E::Bin(Concat, _, b) => self.tz(b),
            _ => 0,
        }
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b { return a; }
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        if let E::Bin(Xor, x, y) = self.e(c) { if self.konst(y) == Some(1) { return self.ite(x, b, a); } }
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(_), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(_)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        } else if self.konst(a) == Some(1) && self.konst(b) == Some(0) { return self.zext(c, w); }
        if let E::Ite(c2, a2, b2) = self.e(b) {
            if c2 == c { return self.ite(c, a, b2); }
            if a2 == a { let o = self.or(c, c2); return self.ite(o, a, b2); }
        }
        if let E::Ite(c2, a2, _) = self.e(a) { if c2 == c { return self.ite(c, a2, b); } }
        self.raw(E::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.e(a) { E::Const(c) => self.c(c, w), E::ZExt(x) => self.zext(x, w), _ => self.raw(E::ZExt(a), w) }
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if self.umax(a) < 1u128 << (aw - 1) { return self.zext(a, w); }
        match self.e(a) {
            E::Const(c) => self.c(sext(c, aw) as u128, w),
            E::SExt(x) => self.sext(x, w),
            _ => { if aw == 1 { let m = self.c(!0, w); let z = self.c(0, w); return self.ite(a, m, z); } self.raw(E::SExt(a), w) }
        }
    }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        match self.e(a) {
            E::Const(c) => return self.c(c >> lo, w),
            E::Extract(x, l) => return self.extract(x, l + lo, w),
            E::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            E::SExt(x) => { let xw = self.w(x); if lo + w <= xw { return self.extract(x, lo, w); } }
            E::Bin(Concat, h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { return self.extract(l, lo, w); }
                if lo >= lw { return self.extract(h, lo - lw, w); }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, lo + w - lw);
                return self.concat(y, x);
            }
            E::Ite(c, x, y) => {
                if self.konst(x).is_some() || self.konst(y).is_some() {
                    let x = self.extract(x, lo, w); let y = self.extract(y, lo, w); return self.ite(c, x, y);
                }
            }
            E::Bin(op @ (And | Or | Xor), x, y) => { let x = self.extract(x, lo, w); let y = self.extract(y, lo, w); return self.bin(op, x, y); }
            E::Bin(op @ (Add | Sub | Mul), x, y) if lo == 0 => { let x = self.extract(x, 0, w); let y = self.extract(y, 0, w); return self.bin(op, x, y); }
            E::Bin(LShr, x, y) => if let Some(k) = self.konst(y) { if k as u16 + lo + w <= aw { return self.extract(x, lo + k as u16, w); } },
            E::Bin(Shl, x, y) => if let Some(k) = self.konst(y) {
                let k = k as u16;
                if lo >= k { return self.extract(x, lo - k, w); }
                if lo + w <= k { return self.c(0, w); }
            },
            _ => {}
        }
        if lo > 0 && self.umax(a) >> lo == 0 { return self.c(0, w); }
        self.raw(E::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.c(x << lw | y, w); }
        if self.konst(h) == Some(0) { return self.zext(l, w); }
        if let (E::Extract(x, lo1), E::Extract(y, lo2)) = (self.e(h), self.e(l)) { if x == y && lo1 == lo2 + lw { return self.extract(x, lo2, w); } }
        if let (E::Extract(x, lo1), _) = (self.e(h), self.e(l)) { if x == l { let _ = lo1; } }
        // concat(h, concat(a, b)) is kept right-nested: (hi . mid) . lo -> hi . (mid . lo)
        if let E::Bin(Concat, a, b) = self.e(h) { let r = self.concat(b, l); return self.concat(a, r); }
        // high part directly above a right-nested low part that continues the same source
        if let E::Bin(Concat, a, b) = self.e(l) {
            if let (E::Extract(x, lo1), E::Extract(y, lo2)) = (self.e(h), self.e(a)) {
                let aw = self.w(a);
                if x == y && lo1 == lo2 + aw { let n = self.extract(x, lo2, hw + aw); return self.concat(n, b); }
            }
        }
        self.raw(E::Bin(Concat, h, l), w)
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert!(op == Concat || w == self.w(b), "{:?} {:?} {:?}", op, self.n[a as usize].e, self.n[b as usize].e);
        let pred = matches!(op, Eq | Ult | Ule | Slt | Sle);
        let rw = if pred { 1 } else { w };
        let (ka, kb) = (self.konst(a), self.konst(b));
        if op == Concat { return self.concat(a, b); }
        if let (Some(x), Some(y)) = (ka, kb) { return self.c(fold(op, w, x, y), rw); }
        let m = mask(w);
        // constants to the right
        if ka.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) { return self.bin(op, b, a); }
        if kb.is_none() && a > b && matches!(op, Add | Mul | And | Or | Xor | Eq) { return self.bin(op, b, a); }
        match op {
            Add => {
                if kb == Some(0) { return a; }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(k) = kb {
                    match self.e(a) {
                        E::Bin(Add, x, y) => if let Some(k2) = self.konst(y) { let c = self.c(k.wrapping_add(k2), w); return self.bin(Add, x, c); },
                        E::Bin(Sub, x, y) => if let Some(k2) = self.konst(x) { let c = self.c(k.wrapping_add(k2), w); return self.bin(Sub, c, y); },
                        E::Ite(c, x, y) => if self.konst(x).is_some() && self.konst(y).is_some() { let x = self.bin(Add, x, b); let y = self.bin(Add, y, b); return self.ite(c, x, y); },
                        _ => {}
                    }
                } else {
                    if let E::Bin(Add, x, y) = self.e(a) { if self.konst(y).is_some() { let s = self.bin(Add, x, b); return self.bin(Add, s, y); } }
                    if let E::Bin(Add, x, y) = self.e(b) { if self.konst(y).is_some() { let s = self.bin(Add, a, x); return self.bin(Add, s, y); } }
                    if let E::Bin(Sub, x, y) = self.e(a) { if y == b { return x; } }
                    if let E::Bin(Sub, x, y) = self.e(b) { if y == a { return x; } }
                }
            }
            Sub => {
                if a == b { return self.c(0, w); }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(k) = kb { let c = self.c(0u128.wrapping_sub(k), w); return self.bin(Add, a, c); }
                if let E::Bin(Add, x, y) = self.e(a) { if x == b { return y; } if y == b { return x; } if self.konst(y).is_some() { let s = self.bin(Sub, x, b); return self.bin(Add, s, y); } }
                if let E::Bin(Add, x, y) = self.e(b) {
                    if let Some(k) = self.konst(y) { let s = self.bin(Sub, a, x); let c = self.c(0u128.wrapping_sub(k), w); return self.bin(Add, s, c); }
                }
            }
            Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.c(k.trailing_zeros() as u128, w); return self.bin(Shl, a, c); } }
            }
            UDiv => if let Some(k) = kb {
                if k == 1 { return a; }
                if k.is_power_of_two() { let c = self.c(k.trailing_zeros() as u128, w); return self.bin(LShr, a, c); }
                if self.umax(a) < k && k != 0 { return self.c(0, w); }
            },
            URem => if let Some(k) = kb {
                if k.is_power_of_two() { let c = self.c(k - 1, w); return self.bin(And, a, c); }
                if self.umax(a) < k { return a; }
            },
            And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    let u = self.umax(a);
                    let full = if u == 0 { 0 } else { !0u128 >> u.leading_zeros() };
                    if k & full == full { return a; }
                    match self.e(a) {
                        E::Bin(And, x, y) => if let Some(k2) = self.konst(y) { let c = self.c(k & k2, w); return self.bin(And, x, c); },
                        E::ZExt(x) => { let xw = self.w(x); let c = self.c(k, xw); let r = self.bin(And, x, c); return self.zext(r, w); }
                        E::Ite(c, x, y) => if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(And, x, b); let y = self.bin(And, y, b); return self.ite(c, x, y); },
                        E::Bin(Concat, h, l) => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let (ch, cl) = (self.c(k >> lw, hw), self.c(k, lw));
                            let h = self.bin(And, h, ch); let l = self.bin(And, l, cl);
                            return self.concat(h, l);
                        }
                        E::Bin(Or, x, y) => { let x = self.bin(And, x, b); let y = self.bin(And, y, b); return self.bin(Or, x, y); }
                        _ => {}
                    }
                    // low mask
                    if k & (k + 1) == 0 { let n = k.trailing_ones() as u16; if n < w { let x = self.extract(a, 0, n); return self.zext(x, w); } }
                } else if w == 1 {
                    if let E::Bin(Xor, x, y) = self.e(a) { if x == b && self.konst(y).is_some() { return self.c(0, 1); } }
                    if let E::Bin(Xor, x, y) = self.e(b) { if x == a && self.konst(y).is_some() { return self.c(0, 1); } }
                } else if let (E::ZExt(x), E::ZExt(y)) = (self.e(a), self.e(b)) { if self.w(x) == self.w(y) { let r = self.bin(And, x, y); return self.zext(r, w); } }
            }
            Or => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k == m { return b; }
                    if let E::Bin(Or, x, y) = self.e(a) { if let Some(k2) = self.konst(y) { let c = self.c(k | k2, w); return self.bin(Or, x, c); } }
                    if let E::ZExt(x) = self.e(a) { let xw = self.w(x); if k >> xw == 0 { let c = self.c(k, xw); let r = self.bin(Or, x, c); return self.zext(r, w); } }
                    if let E::Ite(c, x, y) = self.e(a) { if self.konst(x).is_some() && self.konst(y).is_some() { let x = self.bin(Or, x, b); let y = self.bin(Or, y, b); return self.ite(c, x, y); } }
                } else if w == 1 {
                    if let E::Bin(Xor, x, y) = self.e(a) { if x == b && self.konst(y).is_some() { return self.c(1, 1); } }
                    if let E::Bin(Xor, x, y) = self.e(b) { if x == a && self.konst(y).is_some() { return self.c(1, 1); } }
                } else {
                    if let (E::ZExt(x), E::ZExt(y)) = (self.e(a), self.e(b)) { if self.w(x) == self.w(y) { let r = self.bin(Or, x, y); return self.zext(r, w); } }
                    // disjoint: (x << k) | zext(y) with y narrower than k
                    for (s, z) in [(a, b), (b, a)] {
                        let t = self.tz(s) as u16;
                        if t > 0 && t < w && self.umax(z) <= mask(t) {
                            let h = self.extract(s, t, w - t);
                            let l = self.extract(z, 0, t);
                            return self.concat(h, l);
                        }
                    }
                }
            }
            Xor => {
                if a == b { return self.c(0, w); }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if let E::Bin(Xor, x, y) = self.e(a) { if let Some(k2) = self.konst(y) { let c = self.c(k ^ k2, w); return self.bin(Xor, x, c); } }
                    if let E::ZExt(x) = self.e(a) { let xw = self.w(x); if k >> xw == 0 { let c = self.c(k, xw); let r = self.bin(Xor, x, c); return self.zext(r, w); } }
                    if w == 1 {
                        match self.e(a) {
                            E::Bin(Ult, x, y) => return self.bin(Ule, y, x),
                            E::Bin(Ule, x, y) => return self.bin(Ult, y, x),
                            E::Bin(Slt, x, y) => return self.bin(Sle, y, x),
                            E::Bin(Sle, x, y) => return self.bin(Slt, y, x),
                            _ => {}
                        }
                    } else if let E::Ite(c, x, y) = self.e(a) { if self.konst(x).is_some() && self.konst(y).is_some() { let x = self.bin(Xor, x, b); let y = self.bin(Xor, y, b); return self.ite(c, x, y); } }
                }
            }
            Shl => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.c(0, w); }
                if let E::Bin(Shl, x, y) = self.e(a) { if let Some(k2) = self.konst(y) { let c = self.c((k + k2).min(w as u128), w); return self.bin(Shl, x, c); } }
                let h = self.extract(a, 0, w - k as u16);
                let z = self.c(0, k as u16);
                return self.concat(h, z);
            },
            LShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.c(0, w); }
                let h = self.extract(a, k as u16, w - k as u16);
                return self.zext(h, w);
            },
            AShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if self.umax(a) < 1u128 << (w - 1) { return self.bin(LShr, a, b); }
                let k = k.min(w as u128 - 1) as u16;
                let h = self.extract(a, k, w - k);
                return self.sext(h, w);
            },
            Eq => {
                if a == b { return self.c(1, 1); }
                if let Some(k) = kb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    if k > self.umax(a) { return self.c(0, 1); }
                    match self.e(a) {
                        E::ZExt(x) => { let xw = self.w(x); let c = self.c(k, xw); return self.bin(Eq, x, c); }
                        E::SExt(x) => { let xw = self.w(x); let c = self.c(k, xw); if sext(k & mask(xw), xw) as u128 & m != k { return self.c(0, 1); } return self.bin(Eq, x, c); }
                        E::Bin(Add, x, y) => if let Some(k2) = self.konst(y) { let c = self.c(k.wrapping_sub(k2), w); return self.bin(Eq, x, c); },
                        E::Bin(Xor, x, y) => if let Some(k2) = self.konst(y) { let c = self.c(k ^ k2, w); return self.bin(Eq, x, c); },
                        E::Bin(Sub, x, y) => { if k == 0 { return self.bin(Eq, x, y); } if let Some(k2) = self.konst(x) { let c = self.c(k2.wrapping_sub(k), w); return self.bin(Eq, y, c); } }
                        E::Ite(c, x, y) => {
                            if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(Eq, x, b); let y = self.bin(Eq, y, b); return self.ite(c, x, y); }
                        }
                        E::Bin(Concat, h, l) => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let (ch, cl) = (self.c(k >> lw, hw), self.c(k, lw));
                            let x = self.bin(Eq, h, ch);
                            if self.konst(x) == Some(0) { return x; }
                            let y = self.bin(Eq, l, cl);
                            return self.and(x, y);
                        }
                        E::Bin(Or, x, y) if k == 0 => { let z = self.c(0, w); let x = self.bin(Eq, x, z); let y = self.bin(Eq, y, z); return self.and(x, y); }
                        _ => {}
                    }
                } else {
                    if let (E::ZExt(x), E::ZExt(y)) = (self.e(a), self.e(b)) {
                        let (xw, yw) = (self.w(x), self.w(y));
                        if xw == yw { return self.bin(Eq, x, y); }
                        if xw < yw { let x = self.zext(x, yw); return self.bin(Eq, x, y); }
                        let y = self.zext(y, xw); return self.bin(Eq, x, y);
                    }
                    if let (E::Bin(Concat, h, l), E::Bin(Concat, h2, l2)) = (self.e(a), self.e(b)) {
                        if self.w(l) == self.w(l2) { let x = self.bin(Eq, h, h2); let y = self.bin(Eq, l, l2); return self.and(x, y); }
                    }
                    if let (E::Bin(Add, x, y), E::Bin(Add, x2, y2)) = (self.e(a), self.e(b)) {
                        if y == y2 { return self.bin(Eq, x, x2); }
                        if x == x2 { return self.bin(Eq, y, y2); }
                    }
                }
            }
            Ult | Ule => {
                if a == b { return self.c((op == Ule) as u128, 1); }
                if op == Ult {
                    if kb == Some(0) { return self.c(0, 1); }
                    if kb == Some(1) { return self.eqc(a, 0); }
                    if let Some(k) = kb { if self.umax(a) < k { return self.c(1, 1); } }
                    if let Some(k) = ka { if k >= self.umax(b) { return self.c(0, 1); } if k == 0 { let e = self.eqc(b, 0); return self.not(e); } }
                } else {
                    if ka == Some(0) { return self.c(1, 1); }
                    if let Some(k) = kb { if self.umax(a) <= k { return self.c(1, 1); } if k == 0 { return self.eqc(a, 0); } }
                    if let Some(k) = ka { if k > self.umax(b) { return self.c(0, 1); } if k == 1 { let e = self.eqc(b, 0); return self.not(e); } }
                }
                // push into zext
                match (self.e(a), self.e(b)) {
                    (E::ZExt(x), E::Const(k)) => { let xw = self.w(x); if k <= mask(xw) { let c = self.c(k, xw); return self.bin(op, x, c); } }
                    (E::Const(k), E::ZExt(x)) => { let xw = self.w(x); if k <= mask(xw) { let c = self.c(k, xw); return self.bin(op, c, x); } }
                    (E::ZExt(x), E::ZExt(y)) => { if self.w(x) == self.w(y) { return self.bin(op, x, y); } }
                    (E::Ite(c, x, y), E::Const(_)) => if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(op, x, b); let y = self.bin(op, y, b); return self.ite(c, x, y); },
                    (E::Const(_), E::Ite(c, x, y)) => if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(op, a, x); let y = self.bin(op, a, y); return self.ite(c, x, y); },
                    _ => {}
                }
            }
            Slt | Sle => {
                if a == b { return self.c((op == Sle) as u128, 1); }
                let h = 1u128 << (w - 1);
                if self.umax(a) < h && self.umax(b) < h { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                match (self.e(a), self.e(b)) {
                    (E::Ite(c, x, y), E::Const(_)) => if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(op, x, b); let y = self.bin(op, y, b); return self.ite(c, x, y); },
                    (E::Const(_), E::Ite(c, x, y)) => if self.konst(x).is_some() || self.konst(y).is_some() { let x = self.bin(op, a, x); let y = self.bin(op, a, y); return self.ite(c, x, y); },
                    _ => {}
                }
                // sign bit tests
                if kb == Some(0) && op == Slt { return self.extract(a, w - 1, 1); }
                if ka == Some(m) && op == Slt { let s = self.extract(b, w - 1, 1); return self.not(s); }
                if let (E::ZExt(x), E::Const(_)) = (self.e(a), self.e(b)) { let _ = x; if kb.unwrap() >= h { return self.c(0, 1); } }
            }
            _ => {}
        }
        self.raw(E::Bin(op, a, b), rw)
    }
    /// starts evaluating under a new assignment
    pub fn new_epoch(&mut self) { self.epoch += 1; }
    pub fn eval(&mut self, i: Id, t: &[u8]) -> u128 {
        if self.ev.len() < self.n.len() { self.ev.resize(self.n.len(), (0, 0)); }
        let (ep, v) = self.ev[i as usize];
        if ep == self.epoch { return v; }
        let n = self.n[i as usize];
        let m = mask(n.w);
        let v = match n.e {
            E::Const(c) => c,
            E::Var(k) => *t.get(k as usize).unwrap_or(&0) as u128,
            E::Bin(Concat, a, b) => { let x = self.eval(a, t); let y = self.eval(b, t); x << self.w(b) | y }
            E::Bin(op, a, b) => { let x = self.eval(a, t); let y = self.eval(b, t); fold(op, self.w(a), x, y) }
            E::Ite(c, a, b) => if self.eval(c, t) == 1 { self.eval(a, t) } else { self.eval(b, t) },
            E::Extract(a, lo) => self.eval(a, t) >> lo & m,
            E::ZExt(a) => self.eval(a, t),
            E::SExt(a) => { let x = self.eval(a, t); sext(x, self.w(a)) as u128 & m }
        };
        self.ev[i as usize] = (self.epoch, v);
        v
    }
}
fn y_w(n: &[Node], b: Id) -> u16 { n[b as usize].w }
impl Pool {
    #[allow(dead_code)]
    pub fn show(&self, i: Id, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match self.e(i) {
            E::Const(c) => format!("{:#x}", c), E::Var(k) => format!("t{}", k),
            E::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
            E::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d - 1), self.show(a, d - 1), self.show(b, d - 1)),
            E::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d - 1), lo, self.w(i)),
            E::ZExt(a) => format!("z{}", self.show(a, d - 1)), E::SExt(a) => format!("s{}", self.show(a, d - 1)),
        }
    }
}
