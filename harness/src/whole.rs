//! `from_request` and `from_request_sync`: all of the request arrives.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use futures::{Future, Stream};
use hyperdrive::{http::{self, Request}, hyper::Body, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::sync::Arc;
#[derive(RequestContext, Clone)]
struct Cx { n: u8 }
/// What there was of a request: nothing is kept but the request itself.
struct Whole { r: Arc<Request<()>>, body: Vec<u8>, n: u8 }
impl FromRequest for Whole {
    type Context = Cx;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: Cx) -> Self::Future {
        let r = r.clone();
        ev(20);
        Box::new(b.concat2().map_err(|e| e.into()).and_then(move |b| step(1, Whole { r, n: c.n, body: b.to_vec() })))
    }
}
struct Seen { r: Arc<Request<()>>, n: u8 }
impl Guard for Seen {
    type Context = Cx;
    type Result = Step<Self>;
    fn from_request(r: &Arc<Request<()>>, c: &Cx) -> Step<Self> { ev(21); step(2, Seen { r: r.clone(), n: c.n }) }
}
struct Raw { r: Arc<Request<()>>, body: Vec<u8>, n: u8 }
impl FromBody for Raw {
    type Context = Cx;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(r: &Arc<Request<()>>, b: Body, c: &Cx) -> Self::Result {
        let (r, n) = (r.clone(), c.n);
        ev(20);
        Box::new(b.concat2().map_err(|e| e.into()).and_then(move |b| step(1, Raw { r, n, body: b.to_vec() })))
    }
}
/// as the harness knows it
struct Sent { m: u8, path: crate::spec::Path, q: Option<[u8; 1]>, version: u8, mark: u8, body: [u8; 2], n: usize, fail: bool, req: Option<Request<Body>> }
fn version(v: u8) -> http::Version { match v { 0 => http::Version::HTTP_09, 1 => http::Version::HTTP_10, 2 => http::Version::HTTP_11, _ => http::Version::HTTP_2 } }
fn sent(t: &mut Tape, max: usize) -> Sent {
    let m = t.pick(10);
    let path = env::path(t, max);
    let qb = t.u8();
    assume!(query_byte(qb));
    let q = if t.pick(2) == 1 && !path.star() { Some([qb]) } else { None };
    let mark = t.u8();
    let v = t.pick(4);
    let n = t.pick(3) as usize;
    let body = [t.u8(), t.u8()];
    let pause = [t.below(2), t.below(2), t.below(2)];
    let fail = t.bool();
    let mut r = Request::new(pieces(&body[..n], n / 2, &pause, fail));
    *r.method_mut() = method(m);
    *r.uri_mut() = uri(false, &path.b[..path.n], q.as_ref().map(|q| &q[..]));
    *r.version_mut() = version(v);
    r.headers_mut().insert("x-mark", http::header::HeaderValue::from_static("here"));
    r.headers_mut().append("x-mark", http::header::HeaderValue::from_static("there"));
    r.headers_mut().insert("host", http::header::HeaderValue::from_static("h"));
    r.extensions_mut().insert(Mark(mark));
    Sent { m, path, q, version: v, mark, body, n, fail, req: Some(r) }
}
fn same(s: &Sent, r: &Request<()>) {
    check!(*r.method() == method(s.m), "method");
    check!(r.version() == version(s.version), "version");
    check!(match r.extensions().get::<Mark>() { Some(x) => x.0 == s.mark, None => false }, "extensions");
    let mut all = r.headers().get_all("x-mark").iter();
    let (a, b) = (all.next(), all.next());
    check!(match (a, b) { (Some(a), Some(b)) => a.as_bytes() == b"here" && b.as_bytes() == b"there", _ => false } && r.headers().len() == 3 && r.headers().get("host").map_or(false, |v| v.as_bytes() == b"h"), "headers");
    let p = r.uri().path().as_bytes();
    check!(p.len() == s.path.n, "path");
    let mut i = 0;
    while i < p.len() && i < s.path.n { check!(p[i] == s.path.b[i], "path"); i += 1; }
    check!(match (r.uri().query(), s.q) { (None, None) => true, (Some(a), Some(b)) => a.as_bytes() == &b[..], _ => false }, "query");
}
fn same_body(s: &Sent, b: &[u8]) {
    check!(b.len() == s.n, "length of the body");
    let mut i = 0;
    while i < b.len() && i < s.n { check!(b[i] == s.body[i], "byte of the body"); i += 1; }
}
fn broke(e: &BoxedError) -> bool { e.is::<hyperdrive::hyper::Error>() && std::error::Error::source(&**e).map_or(false, |s| s.is::<No>()) }
fn verdict(s: &Sent, n: u8, f1: bool, f2: bool, r: Result<(), BoxedError>) {
    match r {
        Ok(()) => check!(!f1 & !f2 & !s.fail, "a failure disappears"),
        Err(e) => check!(if no(&e) == 2 { f2 } else if broke(&e) { s.fail & !f2 } else { f1 & !s.fail & !f2 & (no(&e) == 1) }, "error"),
    }
}
// the request, both ways
harness!(whole_r, 24, {}, |t| {
    let mut s = sent(t, 3);
    let n = t.u8();
    let (_, f1) = tape_plan(t, 1, 2);
    reset();
    let sync = t.pick(2) == 1;
    let r = s.req.take().unwrap();
    let r = if sync { Whole::from_request_sync(r, Cx { n }) } else { drive(Whole::from_request(r, Cx { n })) };
    cover!(sync && r.is_ok(), "r:sync");
    cover!(sync && r.is_err(), "r:sync fails");
    cover!(!sync && r.is_ok(), "r:async");
    check!(happened(20) == 1, "decoded once");
    verdict(&s, n, f1, false, r.map(|w| { same(&s, &w.r); same_body(&s, &w.body); check!(w.n == n, "context"); }));
});
// and what a derived implementation makes of it
#[derive(FromRequest)]
#[context(Cx)]
struct De { g: Seen, #[forward] w: Whole }
#[derive(FromRequest)]
#[context(Cx)]
enum Di { #[post("/{x...}")] P { g: Seen, x: Text, #[body] b: Raw }, F { #[forward] w: Whole, g: Seen } }
harness!(whole_d, 24, { let _ = drive(Di::from_request_and_body(&fixed(http::Method::POST, "/x"), Body::empty(), Cx { n: 0 })); reset() }, |t| {
    let mut s = sent(t, 2);
    let n = t.u8();
    let (_, f1) = tape_plan(t, 1, 1);
    let (_, f2) = tape_plan(t, 2, 1);
    let how = t.pick(4);
    let r = s.req.take().unwrap();
    let c = Cx { n };
    reset();
    let r = if how < 2 {
        (if how == 0 { De::from_request_sync(r, c) } else { drive(De::from_request(r, c)) }).map(|d| { same(&s, &d.g.r); same(&s, &d.w.r); same_body(&s, &d.w.body); check!((d.g.n == n) & (d.w.n == n), "context"); })
    } else {
        (if how == 2 { Di::from_request_sync(r, c) } else { drive(Di::from_request(r, c)) }).map(|d| match d {
            Di::P { g, x, b } => { check!(s.m == POST, "variant"); check!(s.path.rest(0, &x), "captured rest"); same(&s, &g.r); same(&s, &b.r); same_body(&s, &b.body); check!((g.n == n) & (b.n == n), "context"); cover!(how == 2, "d:route"); }
            Di::F { g, w } => { check!((s.m != POST) | s.path.star(), "variant"); same(&s, &g.r); same(&s, &w.r); same_body(&s, &w.body); check!((g.n == n) & (w.n == n), "context"); cover!(how == 2, "d:forward"); }
        })
    };
    cover!(how == 0 && r.is_ok(), "d:struct");
    check!(happened(21) == 1, "the guard is asked once");
    check!(happened(20) == !f2 as usize, "decoded once");
    verdict(&s, n, f1, f2, r);
});
