//! Everything on one declaration.
use crate::common::{sel, Tape};
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Class::{Alpha, Digits}, Exp, Path, Rt, Seg::{self, L, P as S, R, T as Ty, TR}};
use futures::{Future, Stream};
use hyperdrive::{http::{self, Request}, hyper::Body, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use serde::Deserialize;
use std::sync::Arc;
mod cx {
    use hyperdrive::RequestContext;
    #[derive(RequestContext, Clone)]
    pub struct Part { pub v: u8 }
    #[derive(RequestContext, Clone)]
    pub struct List<U: Clone>(pub Vec<U>);
    /// (not every type's idea of a name)
    #[derive(RequestContext, Clone)]
    pub struct Cx<'a, T: Clone, U> where U: Clone { pub request: T, #[as_ref] pub context: Part, #[as_ref] #[doc = "a list"] pub path: List<U>, pub text: &'a str }
}
use cx::{Cx, List, Part};
type C = Cx<'static, u8, u16>;
fn sum(c: &C) -> u16 { c.request as u16 ^ (c.context.v as u16) << 8 ^ c.path.0[0] }
const MARK: u8 = 0x44;
fn seen(r: &Request<()>) { check!(match r.extensions().get::<Mark>() { Some(m) => m.0 == MARK, None => false } & r.headers().contains_key("x-mark"), "request shown to a guard, body or inner type"); }
struct G1(u16);
impl Guard for G1 { type Context = C; type Result = Step<Self>; fn from_request(r: &Arc<Request<()>>, c: &C) -> Step<Self> { seen(r); step(1, G1(sum(c))) } }
struct G2(u8);
impl Guard for G2 { type Context = Part; type Result = Result<Self, BoxedError>; fn from_request(r: &Arc<Request<()>>, c: &Part) -> Self::Result { seen(r); match Future::poll(&mut step(2, ())) { Ok(_) => Ok(G2(c.v)), Err(e) => Err(e) } } }
struct G3(u16);
impl Guard for G3 { type Context = List<u16>; type Result = DefaultFuture<Self, BoxedError>; fn from_request(r: &Arc<Request<()>>, c: &List<u16>) -> Self::Result { seen(r); Box::new(step(3, G3(c.0[0]))) } }
struct Bo(u8, Vec<u8>);
impl FromBody for Bo {
    type Context = Part;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(r: &Arc<Request<()>>, b: Body, c: &Part) -> Self::Result { seen(r); let v = c.v; let s = step(4, ()); Box::new(b.concat2().map_err(|e| e.into()).and_then(move |b| s.map(move |_| Bo(v, b.to_vec())))) }
}
struct In { who: u8, sum: u16, body: Vec<u8> }
/// refuses requests as its own routes would
impl FromRequest for In {
    type Context = C;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: C) -> Self::Future {
        seen(r);
        let s = step(5, ());
        let n = sum(&c);
        Box::new(s.and_then(move |_| b.concat2().map_err(|e| e.into())).map(move |b| In { who: 5, sum: n, body: b.to_vec() }))
    }
}
#[derive(Deserialize, PartialEq)]
struct Qn { n: u8 }
#[derive(FromRequest)]
#[doc = "Requests."]
#[context(crate::mix::cx::Cx<'static, u8, u16>)]
#[allow(clippy::large_enum_variant)]
enum Mix {
    Never,
    #[get("/u/{id}/{rest...}")]
    #[cfg(all())]
    #[put("/w.w/{id}/{rest...}")]
    Full {
        #[query_params] query: Option<Qn>,
        rest: Text,
        #[doc(hidden)] request: G1,
        id: Dig,
        #[body] body: Bo,
        context: G2,
    },
    #[post("/u/{id}/{path...}")]
    Fwd { index: G3, id: Alp, #[query_params] future: Qn, path: Text, #[forward] captures: In, method: G2 },
    #[delete("/plain")]
    #[trace("/u/{id}/{x...}")]
    #[allow(dead_code)]
    #[cfg(any())]
    Gone { x: Text, id: Text },
    #[delete("/plain/")]
    Plain {},
    AlsoNever { x: u8, y: u16 },
    Fb { a: G3, #[forward] inner: In, b: G1 },
}
const MIX: &[Rt] = &[Rt(G, 1, &[L("u"), Ty(Digits), R]), Rt(U, 1, &[L("w.w"), Ty(Digits), R]), Rt(P, 2, &[L("u"), Ty(Alpha), R]), Rt(D, 3, &[L("plain"), L("")])];
fn warmed() {
    let c = Cx { request: 0, context: Part { v: 0 }, path: List(vec![0]), text: "" };
    let _ = drive(Mix::from_request_and_body(&Arc::new(marked(http::Method::GET, http::Uri::from_static("/x"), MARK)), Body::empty(), c));
    reset();
}
harness!(mix_a, 30, warmed(), |t| {
    // a path of one of the routes, or of none; one symbolic byte in each placeholder
    let which = t.pick(5);
    let (x, y) = (t.u8(), t.u8());
    assume!(path_byte(x) & (x != b'/') & path_byte(y));
    let mut b = [0u8; crate::spec::N];
    let shape: &[u8] = match which { 0 => b"/u/?/?", 1 => b"/w.w/?/?", 2 => b"/plain/", 3 => b"/wxw/?/?", _ => b"/v/?/?" };
    b[..shape.len()].copy_from_slice(shape);
    let mut k = 0;
    for i in 0..shape.len() { if shape[i] == b'?' { b[i] = if k == 0 { x } else { y }; k += 1; } }
    let path = Path::new(b, shape.len());
    let m = [GET, PUT, POST, DELETE][t.pick(4) as usize];
    let q = t.u8();
    assume!(query_byte(q));
    let query = match t.pick(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![b'n', b'=', q]) };
    let c = Cx { request: t.u8(), context: Part { v: t.u8() }, path: List(vec![t.u8() as u16]), text: "t" };
    let n = t.pick(2) as usize * 2;
    let body = [t.u8(), t.u8()];
    let mut fail = 0u8;
    for k in 1..6 { let (_, f) = tape_plan(t, k, (k == 3 || k == 5) as u8); fail |= (f as u8) << k; }
    reset();
    let r = Arc::new(marked(method(m), uri(false, &b[..shape.len()], query.as_ref().map(|q| &q[..])), MARK));
    let got = drive(Mix::from_request_and_body(&r, pieces(&body[..n], 1, &[1, 0, 1], false), c.clone()));
    let e = expect(MIX, &path, m);
    let digit = q.wrapping_sub(b'0') < 10;
    let none = match &query { None => true, Some(q) => q.is_empty() };
    // refused before anything is asked
    let bad_query = if e.v == 1 { !none & !digit } else if e.v == 2 { none | !digit } else { false };
    let order: &[u8] = match e.v { 1 => &[1, 2, 4], 2 => &[3, 2, 5], 3 => &[], _ => &[3, 1, 5] };
    crate::common::observe(e.v as u64);
    if e.bad | bad_query {
        check!(events() == 0, "a guard or body is asked although the request is refused");
        match got {
            Ok(_) => check!(false, "accepted"),
            Err(err) => { let f = fail_of(&err); check!((f.status == if e.bad { 404 } else { 400 }) & f.source, "status"); check!(f.allowed.is_none(), "list of allowed methods"); cover!(!e.bad && e.v == 2, "a:bad query"); cover!(e.bad && e.v == 2, "a:bad text"); }
        }
        return;
    }
    let mut taken = 0;
    let mut err = 0;
    for k in order { taken += (err == 0) as usize; err = sel((err == 0) & (fail >> *k & 1 == 1), *k, err); }
    check!(events() == taken, "steps that were taken");
    let mut i = 0;
    while i < events() && i < order.len() { check!(event(i) == order[i], "order of the steps"); i += 1; }
    let s = sum(&c);
    let bytes = |b: &Vec<u8>| { let mut ok = b.len() == n; let mut i = 0; while ok && i < n { ok = b[i] == body[i]; i += 1; } ok };
    match got {
        Err(e) => check!((err != 0) & (no(&e) == err), "which failure is reported"),
        Ok(v) => {
            check!(err == 0, "a failure disappears");
            match v {
                Mix::Full { query: qv, rest, request, id, body, context } => {
                    check!(e.v == 1, "variant");
                    check!((id.len() == 1) && (id[0] == x) && (rest.len() == 1) && (rest[0] == y), "captured texts");
                    check!(match qv { None => none, Some(v) => !none & (v.n == q.wrapping_sub(b'0')) }, "query");
                    check!((request.0 == s) & (context.0 == c.context.v) & (body.0 == c.context.v), "context");
                    check!(bytes(&body.1), "body");
                    cover!(m == PUT && !none, "a:put");
                    cover!(m == GET && none && n == 2, "a:get");
                }
                Mix::Fwd { index, id, future, path, captures, method } => {
                    check!(e.v == 2, "variant");
                    check!((id.len() == 1) && (id[0] == x) && (path.len() == 1) && (path[0] == y), "captured texts");
                    check!(future.n == q.wrapping_sub(b'0'), "query");
                    check!((index.0 == c.path.0[0]) & (method.0 == c.context.v) & (captures.sum == s), "context");
                    check!(bytes(&captures.body), "body");
                    cover!(true, "a:forward");
                }
                Mix::Plain {} => { check!(e.v == 3, "variant"); cover!(true, "a:plain"); }
                Mix::Fb { a, inner, b } => {
                    check!(e.v == 0, "variant");
                    check!((a.0 == c.path.0[0]) & (b.0 == s) & (inner.sum == s) & (inner.who == 5), "context");
                    check!(bytes(&inner.body), "body");
                    cover!(e.known, "a:known path");
                    cover!(!e.known, "a:unknown path");
                }
                Mix::Never | Mix::AlsoNever { .. } => check!(false, "variant"),
            }
        }
    }
});
fn fail_of(e: &BoxedError) -> Fail { env::fail(e) }

// a fallback with a guard, in front of a type that refuses methods: the lists are merged behind the guard
struct Gf;
impl Guard for Gf { type Context = NoContext; type Result = Step<Self>; fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { step(1, Gf) } }
#[derive(FromRequest)]
enum Inner { #[get("/a/{x}")] A { x: Dig }, #[post("/a/{y}")] B { y: Alp, #[query_params] q: Qn }, #[put("/c")] C }
const INNER: &[Rt] = &[Rt(G, 1, &[L("a"), Ty(Digits)]), Rt(P, 2, &[L("a"), Ty(Alpha)]), Rt(U, 3, &[L("c")])];
#[derive(FromRequest)]
struct Middle { #[forward] inner: Inner, g: Gm }
struct Gm;
impl Guard for Gm { type Context = NoContext; type Result = Step<Self>; fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { step(2, Gm) } }
#[derive(FromRequest)]
enum Outer { #[delete("/a/{z}")] D { z: Dig, g: Gf }, #[patch("/c")] E, F { g: Gf, #[forward] m: Middle } }
const OUTER: &[Rt] = &[Rt(D, 1, &[L("a"), Ty(Digits)]), Rt(A, 2, &[L("c")])];
harness!(mix_f, 14, { let _ = drive(Outer::from_request_and_body(&fixed(http::Method::GET, "/x"), Body::empty(), NoContext)); let _ = drive(Outer::from_request_and_body(&fixed(http::Method::TRACE, "/c"), Body::empty(), NoContext)); reset() }, |t| {
    let rq = env::request(t, 4);
    let (p1, f1) = tape_plan(t, 1, 1);
    let (p2, f2) = tape_plan(t, 2, 1);
    reset();
    let (o, i) = (expect(OUTER, &rq.path, rq.method), expect(INNER, &rq.path, rq.method));
    let got = drive(Outer::from_request_and_body(&rq.req, Body::empty(), NoContext));
    let own = o.v != 0;
    match got {
        Ok(Outer::D { z, .. }) => { check!((o.v == 1) & !o.bad & !f1, "variant"); check!(rq.path.cap(1, &z), "captured text"); check!(events() == 1, "guards"); }
        Ok(Outer::E) => { check!(o.v == 2, "variant"); check!(events() == 0, "guards"); }
        Ok(Outer::F { m, .. }) => {
            check!(!own & !f1 & !f2 & !i.bad, "variant");
            check!((events() == 2) && (event(0) == 1) & (event(1) == 2), "guards");
            match m.inner { Inner::A { x } => { check!(i.v == 1, "variant"); check!(rq.path.cap(1, &x), "captured text"); cover!(true, "f:a"); } Inner::B { .. } => check!(false, "accepted without its query"), Inner::C => { check!(i.v == 3, "variant"); cover!(true, "f:c"); } }
        }
        Err(e) => {
            let f = fail_of(&e);
            if own { check!(o.bad | (f1 & (o.v == 1) & (no(&e) == 1)), "refused"); if o.bad { check!((f.status == 404) & f.source & (events() == 0), "text of the wrong type is not found"); } return; }
            if f1 | f2 { check!(no(&e) == sel(f1, 1, 2), "the failure of a guard is replaced"); check!(events() == sel(f1, 1, 2) as usize, "guards"); cover!(o.known & f2, "f:guard"); return; }
            check!(events() == 2, "guards");
            if i.v != 0 { check!(i.bad | (i.v == 2), "refused"); check!((f.status == if i.bad { 404 } else { 400 }) & f.source, "error of the inner type"); cover!(i.v == 2 && !i.bad, "f:query"); return; }
            if !i.known { check!((f.status == 404) & !f.source & f.allowed.is_none(), "neither knows the path"); return; }
            if i.allowed != 0 { check!(f.status == 405, "wrong method"); }
            if let Some(l) = f.allowed { check!(l & !(1 << 14) == i.allowed | o.allowed, "methods of both"); cover!(l == G | D, "f:merged"); }
        }
    }
});
