//! Environment of the harnesses: requests built by the real `http` crate from tape bytes.
use http::Uri;
fn between(b: u8, lo: u8, hi: u8) -> bool { b.wrapping_sub(lo) <= hi - lo }
/// bytes the http crate accepts in a path, or in a query
pub fn path_byte(b: u8) -> bool { (b == 0x21) | between(b, 0x24, 0x3B) | (b == 0x3D) | between(b, 0x40, 0x5F) | between(b, 0x61, 0x7A) | (b == 0x7C) | (b == 0x7E) }
pub fn query_byte(b: u8) -> bool { (b == 0x21) | between(b, 0x24, 0x3B) | (b == 0x3D) | between(b, 0x3F, 0x7E) }
/// A request target. The bytes are valid ones (the callers assume so), so in the symbolic build only
/// the shape goes through the parser of the http crate, and the bytes are filled in afterwards.
pub fn uri(absolute: bool, path: &[u8], query: Option<&[u8]>) -> Uri {
    let mut s = Vec::with_capacity(64);
    if absolute { s.extend_from_slice(b"http://h"); }
    let star = path.len() == 1 && crate::common::concrete((path[0] == b'*') as u64) == 1;
    if cfg!(hv_sym) && !star {
        s.push(b'/');
        for _ in 1..path.len() { s.push(b'a'); }
    } else { s.extend_from_slice(path); }
    if let Some(q) = query { s.push(b'?'); if cfg!(hv_sym) { for _ in q { s.push(b'a'); } } else { s.extend_from_slice(q); } }
    let u = match Uri::from_shared(s.into()) { Ok(u) => u, Err(_) => crate::common::limit("URI") };
    if cfg!(hv_sym) {
        unsafe {
            let p = u.path().as_ptr() as *mut u8;
            if !star { for i in 1..path.len() { *p.add(i) = path[i]; } }
            if let Some(q) = query { let p = u.query().unwrap().as_ptr() as *mut u8; for i in 0..q.len() { *p.add(i) = q[i]; } }
        }
    }
    u
}
use crate::common::Tape;
use crate::spec::{Path, N};
use http::{Method, Request};
use std::sync::Arc;
pub const GET: u8 = 0;
pub const HEAD: u8 = 1;
pub const POST: u8 = 2;
pub const PUT: u8 = 3;
pub const DELETE: u8 = 4;
pub const OPTIONS: u8 = 5;
pub const PATCH: u8 = 6;
pub const TRACE: u8 = 7;
pub const CONNECT: u8 = 8;
/// an extension method that differs from GET in case only
pub const LOWER: u8 = 9;
pub fn method(m: u8) -> Method {
    match m {
        0 => Method::GET, 1 => Method::HEAD, 2 => Method::POST, 3 => Method::PUT, 4 => Method::DELETE,
        5 => Method::OPTIONS, 6 => Method::PATCH, 7 => Method::TRACE, 8 => Method::CONNECT,
        _ => Method::from_bytes(b"get").unwrap(),
    }
}
pub struct Rq { pub req: Arc<Request<()>>, pub method: u8, pub path: Path }
/// Any method, any origin-form path of at most `max` bytes (or `*`).
pub fn request(t: &mut Tape, max: usize) -> Rq {
    let m = t.pick(10);
    let path = path(t, max);
    build(m, path, None)
}
pub fn path(t: &mut Tape, max: usize) -> Path {
    let n = t.pick(max as u8) as usize + 1;
    let mut b = [0u8; N];
    let mut i = 0;
    while i < n { b[i] = t.u8(); assume!(path_byte(b[i])); i += 1; }
    assume!((b[0] == b'/') | ((n == 1) & (b[0] == b'*')));
    Path::new(b, n)
}
pub fn build(m: u8, path: Path, query: Option<&[u8]>) -> Rq {
    let mut req = Request::new(());
    *req.method_mut() = method(m);
    *req.uri_mut() = uri(false, &path.b[..path.n], query);
    Rq { req: Arc::new(req), method: m, path }
}
/// A concrete request, for warming up.
pub fn fixed(m: Method, uri: &'static str) -> Arc<Request<()>> {
    let mut req = Request::new(());
    *req.method_mut() = m;
    *req.uri_mut() = Uri::from_static(uri);
    Arc::new(req)
}
/// A route field: its bytes.
#[derive(Clone)]
pub struct Text(pub String);
impl std::str::FromStr for Text { type Err = Bad; fn from_str(s: &str) -> Result<Text, Bad> { Ok(Text(String::from(s))) } }
impl std::ops::Deref for Text { type Target = [u8]; fn deref(&self) -> &[u8] { self.0.as_bytes() } }
#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Bad {}
use futures::{Async, Future};
use hyperdrive::{BoxedError, FromRequest, NoContext};
pub const fn bit(m: u8) -> u16 { 1 << m }
/// a GET route also takes HEAD
pub const G: u16 = bit(GET) | bit(HEAD);
pub const P: u16 = bit(POST);
pub const U: u16 = bit(PUT);
pub const D: u16 = bit(DELETE);
pub const O: u16 = bit(OPTIONS);
pub const A: u16 = bit(PATCH);
pub const T: u16 = bit(TRACE);
pub const C: u16 = bit(CONNECT);
/// An error, taken apart: status (0: not one of hyperdrive's), allowed methods (bits; 14: one twice,
/// 15: another method; `None` if there is no list).
#[derive(Clone, Copy, PartialEq)]
pub struct Fail { pub status: u16, pub allowed: Option<u16>, pub source: bool }
pub fn fail(e: &BoxedError) -> Fail {
    match e.downcast_ref::<hyperdrive::Error>() {
        None => Fail { status: 0, allowed: None, source: false },
        Some(e) => Fail { status: e.http_status().as_u16(), allowed: e.allowed_methods().map(|l| mask(l)), source: std::error::Error::source(e).is_some() },
    }
}
pub fn mask(l: &[&'static Method]) -> u16 {
    let mut r = 0;
    for m in l {
        let mut b = 1 << 15;
        let mut k = 0;
        while k < 9 { if **m == method(k) { b = bit(k); } k += 1; }
        r |= if r & b != 0 { 1 << 14 } else { b };
    }
    r
}
/// The result of a future that has to be ready at once.
pub fn now<F: Future>(mut f: F) -> Result<F::Item, F::Error> {
    match f.poll() { Ok(Async::Ready(v)) => Ok(v), Ok(Async::NotReady) => { crate::common::violated("pending without a reason") } Err(e) => Err(e) }
}
pub fn decode<X: FromRequest<Context = NoContext>>(rq: &Arc<Request<()>>) -> Result<X, Fail> {
    match now(X::from_request_and_body(rq, hyperdrive::hyper::Body::empty(), NoContext)) { Ok(v) => Ok(v), Err(e) => Err(fail(&e)) }
}
/// Makes the lazily built tables exist.
pub fn warm<X: FromRequest<Context = NoContext>>(uri: &'static str) { let _ = decode::<X>(&fixed(Method::GET, uri)); }
/// Compares with the declarations; the value, if there has to be one.
pub fn judge<X: FromRequest<Context = NoContext>>(rq: &Rq, exp: crate::spec::Exp, code: impl Fn(&X) -> u8) -> Option<X> {
    match decode::<X>(&rq.req) {
        Ok(x) => {
            let v = code(&x);
            crate::common::observe(v as u64);
            check!(exp.v == v, "variant other than the declared one");
            check!(!exp.bad, "accepted although the type of a placeholder does not take the text");
            Some(x)
        }
        Err(f) => {
            crate::common::observe(f.status as u64 | (f.allowed.unwrap_or(0) as u64) << 16);
            refused(exp, f);
            None
        }
    }
}
/// Whether a request may be refused, and this way.
pub fn refused(exp: crate::spec::Exp, f: Fail) {
    check!((exp.v == 0) | exp.bad, "refused although a route is declared for it");
    check!(!exp.bad | (f.status == 404), "status when the type of a placeholder does not take the text");
    check!(!exp.bad | f.source, "cause when the type of a placeholder does not take the text");
    check!(exp.bad | exp.known | ((f.status == 404) & !f.source), "status when the path is no route's");
    check!(exp.bad | !exp.known | (f.status != 405) | (f.allowed == Some(exp.allowed)), "allowed methods");
    // nothing is said about a path that fits no route once types are looked at
    let wrong = !exp.bad & exp.known & (exp.allowed != 0);
    check!(!wrong | ((f.status == 405) & !f.source), "status when the path is a route's but the method is not");
    check!((f.status == 405) == f.allowed.is_some(), "there is a list of allowed methods exactly if the status is 405");
    check!((f.status == 405) | (f.status == 404), "status");
}
/// Digits and letters, as types of placeholders.
pub struct Dig(pub Text);
pub struct Alp(pub Text);
#[derive(Debug)] pub struct NoDig;
#[derive(Debug)] pub struct NoAlp;
impl std::fmt::Display for NoDig { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("nodig") } }
impl std::fmt::Display for NoAlp { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("noalp") } }
impl std::error::Error for NoDig {}
impl std::error::Error for NoAlp {}
impl std::str::FromStr for Dig {
    type Err = NoDig;
    fn from_str(s: &str) -> Result<Dig, NoDig> {
        let mut ok = true;
        for b in s.bytes() { ok &= b.wrapping_sub(b'0') < 10; }
        if ok { Ok(Dig(Text(String::from(s)))) } else { Err(NoDig) }
    }
}
impl std::str::FromStr for Alp {
    type Err = NoAlp;
    fn from_str(s: &str) -> Result<Alp, NoAlp> {
        let mut ok = true;
        for b in s.bytes() { ok &= (b | 0x20).wrapping_sub(b'a') < 26; }
        if ok { Ok(Alp(Text(String::from(s)))) } else { Err(NoAlp) }
    }
}
impl std::ops::Deref for Dig { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Alp { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
