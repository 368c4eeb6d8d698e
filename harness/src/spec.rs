//! What the documentation says about route patterns, written independently of the code:
//! a path is `/`-separated segments; a literal matches itself, `{x}` one non-empty segment,
//! `{x...}` everything that is left (possibly nothing); `*` is only the path `*`.
//! Everything here is free of branches on path bytes, so it costs the executor no paths.
use self::Seg::*;
use crate::common::sel;
#[derive(Clone, Copy)]
pub enum Seg {
    /// literal, placeholder, rest
    L(&'static str), P, R,
    /// placeholder and rest whose type takes only what the given class allows
    T(Class), TR(Class),
}
#[derive(Clone, Copy)]
pub enum Class { Digits, Alpha, Byte }
/// Longest path the harnesses build, and the most segments looked at in it.
pub const N: usize = 24;
pub const K: usize = 6;
#[derive(Clone, Copy)]
pub struct Path { pub b: [u8; N], pub n: usize, pub segs: u8, pub start: [u8; K], pub end: [u8; K] }
impl Path {
    /// path with its segment boundaries; `n == 0` is the empty path; `n` is concrete
    pub fn new(b: [u8; N], n: usize) -> Path {
        let mut p = Path { b, n, segs: 0, start: [0; K], end: [0; K] };
        // segment k starts behind the (k+1)-th slash
        let mut seen = 0u8;
        let mut i = 0;
        while i < n {
            let is = b[i] == b'/';
            let mut k = 0;
            while k < K {
                p.start[k] = sel(is & (seen == k as u8), i as u8 + 1, p.start[k]);
                p.end[k] = sel(is & (seen == k as u8 + 1), i as u8, p.end[k]);
                k += 1;
            }
            seen += is as u8;
            i += 1;
        }
        let mut k = 0;
        while k < K { p.end[k] = sel(seen == k as u8 + 1, n as u8, p.end[k]); k += 1; }
        p.segs = seen;
        p
    }
    pub fn star(&self) -> bool { (self.n == 1) & (self.b[0] == b'*') }
    /// the bytes from `s` to `e` (places where they may begin or end) are exactly `t`
    fn eq(&self, s: u8, e: u8, t: &[u8]) -> bool {
        let mut any = false;
        let mut at = 0;
        while at + t.len() <= self.n {
            let mut ok = (s == at as u8) & (e == (at + t.len()) as u8);
            let mut j = 0;
            while j < t.len() { ok &= self.b[at + j] == t[j]; j += 1; }
            any |= ok;
            at += 1;
        }
        any
    }
    pub fn matches(&self, pat: &[Seg]) -> bool {
        if pat.len() == 0 { return self.star(); }
        if self.n == 0 { return false; }
        let rest = match pat[pat.len() - 1] { R | TR(_) => true, _ => false };
        let mut ok = self.b[0] == b'/';
        if rest { ok &= self.segs >= pat.len() as u8; } else { ok &= self.segs == pat.len() as u8; }
        let mut k = 0;
        while k < pat.len() {
            match pat[k] {
                L(l) => ok &= self.eq(self.start[k], self.end[k], l.as_bytes()),
                P | T(_) => ok &= self.end[k] != self.start[k],
                R | TR(_) => {}
            }
            k += 1;
        }
        ok
    }
    /// `t` is what segment `k` of a matching pattern captures
    pub fn cap(&self, k: usize, t: &[u8]) -> bool { self.eq(self.start[k], self.end[k], t) }
    pub fn rest(&self, k: usize, t: &[u8]) -> bool { self.eq(self.start[k], self.n as u8, t) }
    /// length of segment `k`
    pub fn len(&self, k: usize) -> u8 { self.end[k].wrapping_sub(self.start[k]) }
    /// every typed placeholder of a matching pattern takes its text
    pub fn typed(&self, pat: &[Seg]) -> bool {
        let mut ok = true;
        let mut k = 0;
        while k < pat.len() {
            match pat[k] {
                T(c) => ok &= self.takes(self.start[k], self.end[k], c),
                TR(c) => ok &= self.takes(self.start[k], self.n as u8, c),
                _ => {}
            }
            k += 1;
        }
        ok
    }
    fn takes(&self, s: u8, e: u8, c: Class) -> bool {
        let digit = |b: u8| b.wrapping_sub(b'0') < 10;
        let mut ok = true;
        let mut v = 0u32;
        let mut big = false;
        let mut i = 0;
        while i < self.n {
            let b = self.b[i];
            let inside = (s <= i as u8) & ((i as u8) < e);
            ok &= !inside | match c {
                Class::Digits => digit(b),
                Class::Alpha => ((b | 0x20).wrapping_sub(b'a')) < 26,
                // an optional plus sign
                Class::Byte => digit(b) | ((i as u8 == s) & (b == b'+') & (e.wrapping_sub(s) > 1)),
            };
            let d = (inside & digit(b)) as u32;
            let m = d.wrapping_neg();
            v = (v * 10 + (b.wrapping_sub(b'0') as u32)) & 0xfff & m | v & !m;
            big |= v > 255;
            v &= !((big as u32).wrapping_neg());
            i += 1;
        }
        match c { Class::Byte => ok & !big & (s != e), _ => ok }
    }
    /// value of segment `k` as a number below 256
    pub fn num(&self, k: usize) -> u8 {
        let mut v = 0u8;
        let mut i = 0;
        while i < self.n {
            let is = (self.start[k] <= i as u8) & ((i as u8) < self.end[k]) & (self.b[i] != b'+');
            v = sel(is, v.wrapping_mul(10).wrapping_add(self.b[i].wrapping_sub(b'0')), v);
            i += 1;
        }
        v
    }
    /// every byte of segment `k` satisfies `f`
    pub fn all(&self, k: usize, f: impl Fn(u8) -> bool) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < self.n { ok &= !((self.start[k] <= i as u8) & ((i as u8) < self.end[k])) | f(self.b[i]); i += 1; }
        ok
    }
}
/// A declared route: methods (bits), number of the variant (from 1), pattern.
pub struct Rt(pub u16, pub u8, pub &'static [Seg]);
/// What has to happen: variant (0: none), whether the text of a placeholder has the wrong type for it, whether any route
/// has this path, and the methods of those that do and whose types take the text.
#[derive(Clone, Copy)]
pub struct Exp { pub v: u8, pub bad: bool, pub known: bool, pub allowed: u16 }
/// `m` is concrete.
pub fn expect(t: &[Rt], path: &Path, m: u8) -> Exp {
    let mut e = Exp { v: 0, bad: false, known: false, allowed: 0 };
    for r in t {
        let hit = path.matches(r.2);
        e.known |= hit;
        let typed = path.typed(r.2);
        e.allowed |= r.0 & ((hit & typed) as u16).wrapping_neg();
        if r.0 >> m & 1 == 1 { e.v = sel(hit, r.1, e.v); e.bad |= hit & !typed; }
    }
    e
}
