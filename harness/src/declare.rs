//! The derive macros themselves (the crate root of hyperderive, as an ordinary library), given
//! declarations as syntax trees: which of them are rejected.
use crate::common::{concrete, observe, sel, Tape};
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenTree};
use std::panic::{catch_unwind, AssertUnwindSafe};
use syn::{Attribute, DeriveInput};
fn one(t: TokenTree) -> proc_macro2::TokenStream { std::iter::once(t).collect() }
fn word(name: &str) -> Attribute {
    Attribute { pound_token: Default::default(), style: syn::AttrStyle::Outer, bracket_token: Default::default(), path: syn::Path::from(Ident::new(name, Span::call_site())), tts: proc_macro2::TokenStream::new() }
}
/// `#[name("path")]`
fn attr(name: &str, path: &[u8]) -> Attribute {
    let lit = TokenTree::Literal(Literal::string(unsafe { std::str::from_utf8_unchecked(path) }));
    let mut a = word(name);
    a.tts = one(TokenTree::Group(Group::new(Delimiter::Parenthesis, one(lit))));
    a
}
/// What `#[derive(FromRequest)]` says: nothing, or why it refuses.
fn refused(d: &DeriveInput) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| { hvderive::FromRequest(d); })) {
        Ok(()) => None,
        Err(p) => Some(match p.downcast::<String>() { Ok(s) => *s, Err(p) => match p.downcast::<&'static str>() { Ok(s) => s.to_string(), Err(_) => String::new() } }),
    }
}
static mut BASE: Option<DeriveInput> = None;
fn warm(s: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let d: DeriveInput = match syn::parse_str(s) { Ok(d) => d, Err(_) => crate::common::limit("declaration") };
    let _ = refused(&d);
    unsafe { BASE = Some(d); }
}
fn base() -> DeriveInput { unsafe { (*&raw const BASE).clone().unwrap() } }
fn variant(d: &mut DeriveInput, i: usize) -> &mut syn::Variant { match &mut d.data { syn::Data::Enum(e) => &mut e.variants[i], _ => crate::common::limit("not an enum") } }

// ---------------------------------------------------------------- what the documentation says
/// A segment of a pattern, from `s` to `e`: literal, placeholder, rest (without the braces and dots)
#[derive(Clone, Copy, PartialEq)]
enum K { Lit, Ph, Rest }
#[derive(Clone, Copy)]
struct Sg { k: K, s: usize, e: usize }
struct Pat<'a> { b: &'a [u8], segs: Vec<Sg> }
fn ident(b: &[u8]) -> bool {
    if b.len() == 0 || b == b"_" || b[0].wrapping_sub(b'0') < 10 { return false; }
    for c in b { if !(c.wrapping_sub(b'0') < 10 || (*c | 0x20).wrapping_sub(b'a') < 26 || *c == b'_') { return false; } }
    true
}
fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; let mut i = 0; while i < a.len() { ok &= a[i] == b[i]; i += 1; } ok }
/// `None`: not a pattern. No segments: the path `*`.
fn parse(b: &[u8]) -> Option<Pat<'_>> {
    let mut p = Pat { b, segs: Vec::new() };
    if b.len() == 1 && b[0] == b'*' { return Some(p); }
    if b.len() == 0 || b[0] != b'/' { return None; }
    let mut s = 1;
    loop {
        let mut e = s;
        while e < b.len() && b[e] != b'/' { e += 1; }
        if p.segs.len() > 0 && p.segs[p.segs.len() - 1].k == K::Rest { return None; }
        let mut sg = Sg { k: K::Lit, s, e };
        if e - s >= 2 && b[s] == b'{' && b[e - 1] == b'}' {
            sg = Sg { k: K::Ph, s: s + 1, e: e - 1 };
            if e - s >= 5 && b[e - 2] == b'.' && b[e - 3] == b'.' && b[e - 4] == b'.' { sg = Sg { k: K::Rest, s: s + 1, e: e - 4 }; }
            if !ident(&b[sg.s..sg.e]) { return None; }
            for o in &p.segs { if o.k != K::Lit && same(&b[o.s..o.e], &b[sg.s..sg.e]) { return None; } }
        }
        p.segs.push(sg);
        if e == b.len() { return Some(p); }
        s = e + 1;
    }
}
impl<'a> Pat<'a> {
    fn text(&self, i: usize) -> &'a [u8] { &self.b[self.segs[i].s..self.segs[i].e] }
    fn rest(&self) -> bool { self.segs.len() > 0 && self.segs[self.segs.len() - 1].k == K::Rest }
    /// segments before the rest
    fn fixed(&self) -> usize { self.segs.len() - self.rest() as usize }
    /// the same paths match
    fn equal(&self, o: &Pat<'_>) -> bool {
        if self.segs.len() != o.segs.len() { return false; }
        for i in 0..self.segs.len() { if self.segs[i].k != o.segs[i].k || (self.segs[i].k == K::Lit && !same(self.text(i), o.text(i))) { return false; } }
        true
    }
    /// some path matches both
    fn overlaps(&self, o: &Pat<'_>) -> bool {
        if self.segs.len() == 0 || o.segs.len() == 0 { return self.segs.len() == o.segs.len(); }
        let n = self.fixed().min(o.fixed());
        if !self.rest() && self.segs.len() < o.segs.len() { return false; }
        if !o.rest() && o.segs.len() < self.segs.len() { return false; }
        for i in 0..n {
            let (a, b) = (self.text(i), o.text(i));
            let ok = match (self.segs[i].k, o.segs[i].k) { (K::Lit, K::Lit) => same(a, b), (K::Lit, _) => a.len() > 0, (_, K::Lit) => b.len() > 0, _ => true };
            if !ok { return false; }
        }
        true
    }
    fn matches(&self, path: &[u8]) -> bool {
        if self.segs.len() == 0 { return path.len() == 1 && path[0] == b'*'; }
        if path.len() == 0 || path[0] != b'/' { return false; }
        let mut s = 1;
        for i in 0..self.segs.len() {
            if s > path.len() { return false; }
            let mut e = s;
            while e < path.len() && path[e] != b'/' { e += 1; }
            match self.segs[i].k { K::Lit => if !same(self.text(i), &path[s..e]) { return false; }, K::Ph => if e == s { return false; }, K::Rest => return true }
            s = e + 1;
        }
        s == path.len() + 1
    }
}
/// a path that matches both, of two patterns that overlap
fn witness(p: &Pat<'_>, q: &Pat<'_>) -> Vec<u8> {
    let mut w = Vec::new();
    if p.segs.len() == 0 { w.push(b'*'); }
    for i in 0..p.segs.len().max(q.segs.len()) {
        w.push(b'/');
        let lit = |p: &Pat<'_>| i < p.segs.len() && p.segs[i].k == K::Lit;
        let ph = |p: &Pat<'_>| i < p.segs.len() && p.segs[i].k == K::Ph;
        if lit(p) { w.extend_from_slice(p.text(i)) } else if lit(q) { w.extend_from_slice(q.text(i)) } else if ph(p) || ph(q) { w.push(b'x') }
    }
    w
}

// ---------------------------------------------------------------- one route, any text
const DEEP: bool = cfg!(feature = "deep");
const LEN: u8 = if DEEP { 7 } else { 5 };
fn text(t: &mut Tape, b: &mut [u8; 12], most: u8) -> usize {
    let n = t.pick(most + 1) as usize;
    let mut i = 0;
    while i < n { b[i] = t.u8(); assume!((b[i] >= 0x20) & (b[i] < 0x7f)); i += 1; }
    n
}
harness!(declare_p, 8, warm("struct S { a: u8, b: u8 }"), |t| {
    let mut b = [0u8; 12];
    let n = text(t, &mut b, LEN);
    let mut d = base();
    d.attrs.push(attr("get", &b[..n]));
    let no = refused(&d);
    let p = parse(&b[..n]);
    let mut ok = p.is_some();
    // placeholders have to be fields
    if let Some(p) = &p { for i in 0..p.segs.len() { ok &= p.segs[i].k == K::Lit || same(p.text(i), b"a") || same(p.text(i), b"b"); } }
    check!(no.is_some() | ok, "a route that is not a pattern is accepted");
    check!(no.is_none() | !ok, "a well-formed route is rejected");
    observe(no.is_none() as u64);
    if let Some(p) = &p { if ok {
        cover!(p.segs.len() == 0, "p:star");
        cover!(p.segs.len() == 1 && p.segs[0].k == K::Ph, "p:placeholder");
        cover!(p.segs.len() == LEN as usize, "p:slashes");
        cover!(p.segs.len() == 2 && p.segs[1].k == K::Ph, "p:literal and placeholder");
        cover!(p.segs.len() == 1 && p.segs[0].k == K::Lit && n > 2 && b[1] == b'{', "p:only an opening brace");
    } }
    cover!(!ok && n == LEN as usize && b[0] == b'/' && b[1] == b'{' && b[3] == b'}', "p:not a field, or no name");
});
// the inside of the braces
harness!(declare_i, 8, warm("struct S { a: u8, bc: u8, d_1: u8, _e: u8 }"), |t| {
    let mut inner = [0u8; 12];
    let n = text(t, &mut inner, if DEEP { 6 } else { 4 });
    let k = t.pick(3);
    let mut b = [0u8; 24];
    let mut m = 0;
    let mut put = |s: &[u8]| { let mut i = 0; while i < s.len() { b[m] = s[i]; m += 1; i += 1; } };
    put(if k == 2 { b"/x{" } else { b"/{" });
    put(&inner[..n]);
    put(if k == 1 { b"}/bc" } else { b"}" });
    let mut d = base();
    d.attrs.push(attr("post", &b[..m]));
    let no = refused(&d);
    let p = parse(&b[..m]);
    let mut ok = p.is_some();
    if let Some(p) = &p { for i in 0..p.segs.len() { let x = p.text(i); ok &= p.segs[i].k == K::Lit || same(x, b"a") || same(x, b"bc") || same(x, b"d_1") || same(x, b"_e"); } }
    check!(no.is_some() | ok, "a route that is not a pattern is accepted");
    check!(no.is_none() | !ok, "a well-formed route is rejected");
    observe(no.is_none() as u64);
    if let Some(p) = &p { if ok {
        cover!(k == 0 && p.rest(), "i:rest");
        cover!(k == 0 && p.segs.len() == 2 && p.segs[0].k == K::Lit && p.segs[1].k == K::Lit, "i:a slash inside");
        cover!(k == 1 && p.segs.len() == 2 && p.segs[0].k == K::Ph, "i:placeholder");
        cover!(k == 2, "i:behind text");
    } }
    cover!(!ok && k == 1 && n == 4 && inner[0] == b'a' && inner[1] == b'.' && inner[2] == b'.' && inner[3] == b'.', "i:behind a rest");
});

// ---------------------------------------------------------------- several routes
/// A well-formed pattern of at most `most` segments, with unknown literals of up to one character (two: `wide`),
/// which are letters or, if `any`, anything.
fn pattern(t: &mut Tape, b: &mut [u8; 24], most: u8, names: &[u8; 3], wide: bool, any: bool) -> usize {
    let segs = t.pick(most + 1);
    if segs == 0 { b[0] = b'*'; return 1; }
    let mut n = 0;
    let mut i = 0;
    while i < segs {
        let last = i + 1 == segs;
        let mut put = |s: &[u8]| { let mut i = 0; while i < s.len() { b[n] = s[i]; n += 1; i += 1; } };
        put(b"/");
        let k = t.pick(3 + last as u8 + wide as u8);
        let mut c = || { let c = t.u8(); assume!((c > 0x20) & (c < 0x7f) & (c != b'/') & (c != b'{') & (any | ((c | 0x20).wrapping_sub(b'a') < 26))); c };
        match k {
            0 => {}
            1 => { let x = c(); put(&[x]) }
            2 => { put(b"{"); put(&[names[i as usize]]); put(b"}") }
            3 if last => { put(b"{"); put(&[names[i as usize]]); put(b"...}") }
            _ => { let x = c(); let y = c(); put(&[x, y]) }
        }
        i += 1;
    }
    n
}
/// What has to happen to a declaration with these routes (method, pattern), in this order.
fn clash(r: &[(u8, Pat<'_>)]) -> bool {
    for j in 0..r.len() { for i in 0..j {
        if r[i].1.equal(&r[j].1) { if r[i].0 == r[j].0 { return true; } } else if r[i].1.overlaps(&r[j].1) { return true; }
    } }
    false
}
const METHODS: [&str; 3] = ["get", "post", "head"];
/// The path that the message shows has to be one that two of the routes match.
fn example(msg: &str, r: &[(u8, Pat<'_>)]) -> bool {
    let m = msg.as_bytes();
    let key = b"both would match path `";
    let mut i = 0;
    while i + key.len() <= m.len() {
        if same(&m[i..i + key.len()], key) {
            let s = i + key.len();
            if m.len() < s + 2 || !same(&m[m.len() - 2..], b"`)") { return false; }
            let path = &m[s..m.len() - 2];
            let mut k = 0;
            for (_, p) in r { k += p.matches(path) as usize; }
            return k >= 2;
        }
        i += 1;
    }
    true
}
harness!(declare_o, 24, warm("enum R { V1 { a: u8, b: u8, c: u8 }, V2 { a: u8, b: u8, c: u8 } }"), |t| {
    let (mut b1, mut b2) = ([0u8; 24], [0u8; 24]);
    let n1 = pattern(t, &mut b1, 2, b"abc", DEEP, true);
    let n2 = pattern(t, &mut b2, if DEEP { 3 } else { 2 }, b"cba", false, DEEP);
    let (m1, m2) = [(0, 0), (0, 1), (0, 2), (2, 0)][t.pick(4) as usize];
    let mut d = base();
    variant(&mut d, 0).attrs.push(attr(METHODS[m1 as usize], &b1[..n1]));
    variant(&mut d, 1).attrs.push(attr(METHODS[m2 as usize], &b2[..n2]));
    let no = refused(&d);
    let r = [(m1, parse(&b1[..n1]).unwrap()), (m2, parse(&b2[..n2]).unwrap())];
    let bad = clash(&r);
    check!(no.is_some() | !bad, "two routes that match the same request are accepted");
    check!(no.is_none() | bad, "routes that do not clash are rejected");
    if let Some(m) = &no { check!(example(m, &r), "the path in the message does not match both routes"); }
    observe(bad as u64);
    cover!(bad && m1 == m2 && r[0].1.equal(&r[1].1), "o:duplicate");
    cover!(!bad && m1 != m2 && r[0].1.equal(&r[1].1), "o:same path, other method");
    cover!(bad && m1 != m2, "o:overlap, other method");
    cover!(bad && r[0].1.rest() && r[1].1.rest() && !r[0].1.equal(&r[1].1), "o:rests");
    cover!(!bad && r[0].1.rest() && r[1].1.rest() && r[0].1.fixed() == 1 && r[1].1.fixed() == 1, "o:rests apart");
    cover!(!bad && r[0].1.rest() && r[1].1.segs.len() == 1, "o:too short for a rest");
});
// the notion of overlap above: two patterns overlap if and only if some path matches both
harness!(declare_v, 32, {}, |t| {
    let (mut b1, mut b2) = ([0u8; 24], [0u8; 24]);
    let n1 = pattern(t, &mut b1, 2, b"abc", true, true);
    let n2 = pattern(t, &mut b2, 3, b"cba", false, true);
    let (p, q) = (parse(&b1[..n1]).unwrap(), parse(&b2[..n2]).unwrap());
    if p.overlaps(&q) {
        let w = witness(&p, &q);
        check!(p.matches(&w) && q.matches(&w), "oracle: overlap without a path");
        cover!(w.len() == 6, "v:overlap");
    } else {
        let n = t.pick(6) as usize;
        let mut b = [0u8; 8];
        let mut i = 0;
        while i < n { b[i] = t.u8(); i += 1; }
        check!(!(p.matches(&b[..n]) && q.matches(&b[..n])), "oracle: a path matches both, but there is no overlap");
        cover!(n == 5 && p.matches(&b[..n]), "v:apart");
    }
});
// three routes, on two or three variants: each is compared with all others
harness!(declare_t, 24, warm("enum R { V1 { a: u8, b: u8, c: u8 }, V2 { a: u8, b: u8, c: u8 }, V3 { a: u8, b: u8, c: u8 } }"), |t| {
    let (mut b1, mut b2, mut b3) = ([0u8; 24], [0u8; 24], [0u8; 24]);
    let n1 = pattern(t, &mut b1, 1, b"abc", false, false);
    let n2 = pattern(t, &mut b2, if DEEP { 2 } else { 1 }, b"cba", false, false);
    let n3 = pattern(t, &mut b3, if DEEP { 2 } else { 1 }, b"bac", false, false);
    let (m1, m2, m3) = (t.pick(2), t.pick(2), t.pick(2));
    let r = [(m1, parse(&b1[..n1]).unwrap()), (m2, parse(&b2[..n2]).unwrap()), (m3, parse(&b3[..n3]).unwrap())];
    // patterns without placeholders may share a variant
    let plain = |p: &Pat<'_>| { let mut ok = true; for s in &p.segs { ok &= s.k == K::Lit; } ok };
    let share = plain(&r[0].1) && plain(&r[1].1) && t.pick(2) == 1;
    let mut d = base();
    variant(&mut d, 0).attrs.push(attr(METHODS[m1 as usize], &b1[..n1]));
    variant(&mut d, !share as usize).attrs.push(attr(METHODS[m2 as usize], &b2[..n2]));
    variant(&mut d, 2).attrs.push(attr(METHODS[m3 as usize], &b3[..n3]));
    let no = refused(&d);
    let bad = clash(&r);
    check!(no.is_some() | !bad, "two routes that match the same request are accepted");
    check!(no.is_none() | bad, "routes that do not clash are rejected");
    if let Some(m) = &no { check!(example(m, &r), "the path in the message does not match both routes"); }
    observe(bad as u64);
    cover!(share && bad, "t:on one variant");
    cover!(!bad && r[2].1.rest(), "t:rest last");
    cover!(bad && m1 == m2 && m2 == m3 && !r[0].1.equal(&r[1].1) && r[0].1.equal(&r[2].1), "t:first and last");
});

// ---------------------------------------------------------------- names of placeholders
/// One or two routes on a struct with the fields a, b and c; every name is any lower-case letter.
harness!(declare_d, 16, warm("struct S { a: u8, b: u8, c: u8 }"), |t| {
    let mut texts = [[0u8; 24]; 2];
    let mut len = [0; 2];
    let two = t.pick(2) as usize;
    for r in 0..two + 1 {
        let b = &mut texts[r];
        let mut n = 0;
        let mut put = |b: &mut [u8; 24], s: &[u8]| { let mut i = 0; while i < s.len() { b[n] = s[i]; n += 1; i += 1; } };
        // the second route differs from the first in its literal
        put(b, if r == 0 { b"/x" } else { b"/y" });
        for _ in 0..t.pick(if two == 1 && !DEEP { 3 } else { 4 }) {
            let c = t.u8();
            assume!((c.wrapping_sub(b'a') < 26));
            put(b, b"/{"); put(b, &[c]); put(b, if t.pick(2) == 1 { b"...}" } else { b"}" });
        }
        if t.pick(2) == 1 { put(b, b"/"); }
        len[r] = n;
    }
    let mut d = base();
    for r in 0..two + 1 { d.attrs.push(attr("put", &texts[r][..len[r]])); }
    let no = refused(&d);
    let p = parse(&texts[0][..len[0]]);
    let q = if two == 1 { parse(&texts[1][..len[1]]) } else { None };
    let field = |p: &Pat<'_>| { let mut ok = true; for i in 0..p.segs.len() { ok &= p.segs[i].k == K::Lit || (p.text(i)[0].wrapping_sub(b'a') < 3); } ok };
    // all routes of a struct or variant have the same placeholders in the same order
    let names = |p: &Pat<'_>| { let mut v = Vec::new(); for i in 0..p.segs.len() { if p.segs[i].k != K::Lit { v.push(p.text(i)[0]); } } v };
    let ok = match (&p, &q) {
        (Some(p), Some(q)) => field(p) && field(q) && same(&names(p), &names(q)),
        (Some(p), None) => two == 0 && field(p),
        _ => false,
    };
    check!(no.is_some() | ok, "placeholders that are repeated, not fields, or not the same on all routes, are accepted");
    check!(no.is_none() | !ok, "well-formed routes are rejected");
    observe(ok as u64);
    cover!(ok && two == 0 && names(p.as_ref().unwrap()).len() == 3, "d:three");
    cover!(ok && two == 1 && names(p.as_ref().unwrap()).len() == 2, "d:two routes");
    cover!(!ok && two == 0 && len[0] == 14 && texts[0][4] == texts[0][12] && texts[0][4] == b'a' && texts[0][8] == b'b', "d:repeated");
});

// ---------------------------------------------------------------- roles of fields
/// The name of an attribute: any lower-case letters, `n` in all (where one of the derive's has an underscore, an underscore).
fn name(t: &mut Tape, n: usize) -> [u8; 12] {
    let mut b = [0u8; 12];
    let mut i = 0;
    while i < n {
        if (n == 12 && i == 5) || (n == 6 && i == 2 && t.pick(2) == 1) { b[i] = b'_'; } else { b[i] = t.u8(); assume!(b[i].wrapping_sub(b'a') < 26); }
        i += 1;
    }
    b
}
fn str(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
const OURS: [&[u8]; 13] = [b"get", b"head", b"post", b"put", b"delete", b"connect", b"options", b"trace", b"patch", b"context", b"body", b"query_params", b"forward"];
/// 0: not one of the derive's, 1: a method, 2: context, 3: body, 4: query_params, 5: forward
fn role(b: &[u8]) -> u8 {
    let mut i = 0;
    let mut r = 0;
    while i < 13 { r = sel(same(b, OURS[i]), if i < 9 { 1 } else { i as u8 - 7 }, r); i += 1; }
    r
}
fn field(d: &mut DeriveInput, v: usize, f: usize) -> &mut syn::Field {
    let fs = match &mut d.data { syn::Data::Enum(e) => &mut e.variants[v].fields, syn::Data::Struct(s) => &mut s.fields, _ => crate::common::limit("a union") };
    match fs { syn::Fields::Named(n) => &mut n.named[f], syn::Fields::Unnamed(n) => &mut n.unnamed[f], _ => crate::common::limit("no fields") }
}
/// Lengths of names to try: those of the derive's attributes, and another.
const LENS: [usize; 7] = [0, 3, 4, 5, 6, 7, 12];
harness!(declare_f, 48, warm("enum R { V1 { a: u8, b: u8, c: u8 } }"), |t| {
    let route = t.pick(3);
    let mut d = base();
    if route > 0 { variant(&mut d, 0).attrs.push(attr("get", if route == 1 { b"/{a}" } else { b"/x" })); }
    let mut roles = [[0u8; 2]; 3];
    let mut clash = false;
    // two attributes on the first field, one on the others
    for i in 0..4 {
        let f = [0, 0, 1, 2][i];
        let n = if DEEP || i == 0 { LENS[t.pick(7) as usize] } else { if i == 3 { [0, 12][t.pick(2) as usize] } else { [0, 7, 4, 12][t.pick(if i == 1 { 3 } else { 4 }) as usize] } };
        if n == 0 { continue; }
        let b = name(t, n);
        field(&mut d, 0, f).attrs.push(word(str(&b[..n])));
        roles[f][(i == 1) as usize] = role(&b[..n]);
    }
    let no = refused(&d);
    let mut count = [0u8; 6];
    for f in 0..3 {
        let mut own = 0;
        for k in 0..2 { let r = roles[f][k]; for x in 0..6 { count[x] += (r == x as u8) as u8; } own += (r != 0) as u8; }
        clash |= own + (route == 1 && f == 0) as u8 > 1;
    }
    // only the roles are for fields
    clash |= count[1] + count[2] > 0;
    clash |= (count[3] > 1) | (count[4] > 1) | (count[5] > 1);
    clash |= (count[3] > 0) & (count[5] > 0);
    clash |= route == 0 && count[3] + count[4] > 0;
    // there has to be a way to get the type
    clash |= route == 0 && count[5] == 0;
    check!(no.is_some() | !clash, "contradictory roles are accepted");
    check!(no.is_none() | clash, "roles that do not contradict each other are rejected");
    observe(clash as u64);
    cover!(!clash && route == 1 && count[3] == 1 && count[4] == 1, "f:body, query and placeholder");
    cover!(!clash && route == 2 && count[5] == 1 && count[4] == 1, "f:forward and query");
    cover!(!clash && route == 0 && count[5] == 1, "f:fallback");
    cover!(!clash && roles[2][0] == 0 && count[3] == 1, "f:foreign attributes");
    cover!(clash && route == 1 && roles[0][0] == 3 && count[3] == 1 && count[0] == 5, "f:placeholder and body");
});
/// How an attribute looks: `#[name]`, `#[name("/y")]`, `#[name = "/y"]`, `#[name(y)]`, `#[name()]`,
/// `#[name("/y", "/z")]`, `#[name(y::z)]`, `#[name(Y<Z>)]`
const FORMS: u8 = 8;
fn form(name: &[u8], form: u8) -> Attribute {
    let mut a = word(str(name));
    let s = |x: &str| TokenTree::Literal(Literal::string(x));
    let group = |ts: Vec<TokenTree>| one(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts.into_iter().collect())));
    let id = |x: &str| TokenTree::Ident(Ident::new(x, Span::call_site()));
    let p = |c: char, j: bool| TokenTree::Punct(proc_macro2::Punct::new(c, if j { proc_macro2::Spacing::Joint } else { proc_macro2::Spacing::Alone }));
    a.tts = match form {
        0 => return a,
        1 => group(vec![s("/y")]),
        2 => vec![p('=', false), s("/y")].into_iter().collect(),
        3 => group(vec![id("Y")]),
        4 => group(vec![]),
        5 => group(vec![s("/y"), p(',', false), s("/z")]),
        6 => group(vec![id("y"), p(':', true), p(':', false), id("Z")]),
        _ => group(vec![id("Y"), p('<', false), id("Z"), p('>', false)]),
    };
    a
}
/// What becomes of one attribute on the type itself, or on a variant.
fn attribute(t: &mut Tape, item: bool, is_struct: bool) {
    let n = LENS[1 + t.pick(6) as usize];
    let b = name(t, n);
    let f = t.pick(FORMS);
    let mut d = base();
    let a = form(&b[..n], f);
    if item { d.attrs.push(a); } else { variant(&mut d, 0).attrs.push(a); }
    let r = role(&b[..n]);
    // on a struct they are ignored, which nothing says anything about
    assume!(!is_struct || r < 3);
    let no = refused(&d);
    let route = (is_struct || !item) && r == 1;
    let context = item && r == 2;
    let ok = r == 0 || (route && f == 1) || (context && (f == 3 || f == 4 || f == 6 || f == 7));
    check!(no.is_some() | ok, "an attribute that is malformed, or at the wrong place, is accepted");
    check!(no.is_none() | !ok, "a valid attribute is rejected");
    observe(ok as u64);
    cover!(ok && r == 0 && f == 6, "a:foreign, no meta item");
    cover!(ok && route, "a:route");
    cover!(!ok && r == 1 && f == 0, "a:malformed");
    cover!(ok && context && f == 7, "a:context");
}
harness!(declare_a, 16, warm("enum R { #[get(\"/\")] V1, V2 { a: u8 } }"), |t| { let item = t.pick(2) == 1; attribute(t, item, false) });
harness!(declare_s, 16, warm("#[get(\"/\")] struct S;"), |t| { attribute(t, true, true) });
/// Three variants, each with a field that may be forwarded to, with and without routes.
harness!(declare_b, 48, warm("enum R { V1 { a: u8 }, V2 { a: u8 }, V3 { a: u8 } }"), |t| {
    let mut d = base();
    let mut fallbacks = 0;
    let mut ways = 0;
    for v in 0..3 {
        let route = t.pick(2) == 1;
        if route { variant(&mut d, v).attrs.push(attr("get", [b"/a", b"/b", b"/c"][v])); }
        let mut to = false;
        if t.pick(2) == 1 { let b = name(t, 7); field(&mut d, v, 0).attrs.push(word(str(&b[..7]))); to = same(&b[..7], b"forward"); assume!((role(&b[..7]) == 0) | to); }
        fallbacks += (to & !route) as u8;
        ways += (to | route) as u8;
    }
    let no = refused(&d);
    let bad = (fallbacks > 1) | (ways == 0);
    check!(no.is_some() | !bad, "more than one fallback, or no way to get the type, is accepted");
    check!(no.is_none() | bad, "a valid type is rejected");
    observe(bad as u64);
    cover!(!bad && fallbacks == 1 && ways == 2, "b:fallback and route");
    cover!(!bad && fallbacks == 0 && ways == 1, "b:one route");
});
/// `#[derive(RequestContext)]`
fn warm_contexts() {
    warm("struct S { #[forward] a: u8 }");
    for (i, s) in ["struct S { a: u8, b: u16 }", "struct S(u8, u16);", "enum E { V { a: u8 } }"].iter().enumerate() {
        let d: DeriveInput = match syn::parse_str(s) { Ok(d) => d, Err(_) => crate::common::limit("declaration") };
        hvderive::RequestContext(&d);
        unsafe { CONTEXTS[i] = Some(d); }
    }
}
harness!(declare_c, 48, warm_contexts(), |t| {
    let kind = t.pick(3);
    let d: DeriveInput = unsafe { (*(&raw const CONTEXTS[kind as usize])).clone().unwrap() };
    let mut d = d;
    let fields = if kind == 2 { 1 } else { 2 };
    let mut bad = false;
    let mut count = [0u8; 2];
    for i in 0..3 {
        let n = [0, 6, 4][t.pick(3) as usize];
        if n == 0 { continue; }
        let b = name(t, n);
        let is = same(&b[..n], b"as_ref");
        let f = if i == 1 { 0 } else { t.pick(3) };
        let a = form(&b[..n], f);
        match i {
            0 => { d.attrs.push(a); bad |= is; }
            1 => { if kind == 2 { variant(&mut d, 0).attrs.push(a); bad |= is; } else { field(&mut d, 0, 0).attrs.push(a); count[0] += is as u8; } }
            _ => { let k = t.pick(fields) as usize; field(&mut d, 0, k).attrs.push(a); bad |= is & ((f != 0) | (kind == 2)); count[k] += is as u8; }
        }
    }
    bad |= count[0] > 1;
    let no = catch_unwind(AssertUnwindSafe(|| { hvderive::RequestContext(&d); })).is_err();
    check!(no | !bad, "a misplaced, repeated or malformed #[as_ref] is accepted");
    check!(!no | bad, "a valid context is rejected");
    observe(bad as u64);
    cover!(!bad && count[0] == 1 && count[1] == 1, "c:two fields");
    cover!(!bad && kind == 1 && count[0] == 1, "c:tuple");
    cover!(bad && kind == 2, "c:enum");
});
static mut CONTEXTS: [Option<DeriveInput>; 3] = [None, None, None];
