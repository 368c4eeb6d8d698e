//! CatchUnwind: panics become the handler's business, and nothing else does.
use crate::common::{sel, Tape};
use crate::env::*;
use crate::script::*;
use futures::{Async, Future, Poll, Stream};
use hyperdrive::{http::{self, Request, Response}, hyper::{self, Body}, service::{AsyncService, ServiceExt, SyncService}, BoxedError, DefaultFuture, FromRequest, Guard, NoContext};
use hyper::service::{MakeService, Service};
use std::any::Any;
use std::panic::panic_any;
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
static HOW: AtomicU8 = AtomicU8::new(0);
static KIND: AtomicU8 = AtomicU8::new(0);
static VALUE: AtomicU8 = AtomicU8::new(0);
static READY: AtomicU8 = AtomicU8::new(1);
static GOT: AtomicU8 = AtomicU8::new(0);
/// What is thrown.
struct Thrown(u8);
fn throw() -> ! {
    match KIND.load(SeqCst) {
        0 => panic_any(Thrown(VALUE.load(SeqCst))),
        1 => panic!("boom"),
        _ => panic!("boom{}", VALUE.load(SeqCst) & 7),
    }
}
fn caught(p: &Box<dyn Any + Send>) -> bool {
    match KIND.load(SeqCst) {
        0 => match p.downcast_ref::<Thrown>() { Some(x) => x.0 == VALUE.load(SeqCst), None => false },
        1 => match p.downcast_ref::<&'static str>() { Some(x) => *x == "boom", None => false },
        _ => match p.downcast_ref::<String>() { Some(x) => x.len() == 5 && x.as_bytes()[4] == b'0' + (VALUE.load(SeqCst) & 7), None => false },
    }
}
fn tagged(tag: u8, body: &'static str) -> Response<Body> {
    let mut r = Response::new(Body::from(body));
    *r.status_mut() = http::StatusCode::from_u16(200 + tag as u16).unwrap();
    r.headers_mut().insert("x-own", http::header::HeaderValue::from_static("own"));
    r
}
fn body(b: Body) -> Vec<u8> { match drive(b.concat2()) { Ok(c) => c.to_vec(), Err(_) => crate::common::violated("body of the response fails") } }
fn is_tagged(r: Response<Body>, tag: u8, b: &[u8]) -> bool {
    (r.status().as_u16() == 200 + tag as u16) & (r.headers().len() == 1) & r.headers().get("x-own").map_or(false, |v| v.as_bytes() == b"own") & (body(r.into_body()) == b)
}
const CALL: u8 = 2;
const POLL: u8 = 3;
const DONE: u8 = 4;
/// Panics where it is told to, or not.
#[derive(Clone)]
struct Inner(u8);
struct InnerFuture { step: Step<Response<Body>>, how: u8, left: u8 }
impl Service for Inner {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = InnerFuture;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> { match READY.load(SeqCst) { 0 => Ok(Async::NotReady), 1 => Ok(Async::Ready(())), _ => Err(No(7).into()) } }
    fn call(&mut self, r: Request<Body>) -> InnerFuture {
        ev(20);
        check!(is_marked(&r, &http::Method::PUT, b"/p", self.0), "request shown to the inner service");
        let how = HOW.load(SeqCst);
        if how == CALL { throw(); }
        InnerFuture { step: step(1, tagged(self.0 & 31, "inner")), how, left: 1 }
    }
}
impl Future for InnerFuture {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        if self.how == POLL { throw(); }
        let r = self.step.poll();
        // panics instead of delivering the result
        if self.how == DONE { match r { Ok(Async::NotReady) => {} _ => throw() } }
        r
    }
}
fn handler(p: Box<dyn Any + Send>) -> Step<Response<Body>> { GOT.store(caught(&p) as u8, SeqCst); step(2, tagged(77, "handler")) }
fn verdict(panics: bool, fail: bool, fail2: bool, tag: u8, r: Result<Response<Body>, BoxedError>) {
    check!(happened(2) == panics as usize, "the handler is called once for a panic, and not otherwise");
    if panics { check!(GOT.load(SeqCst) == 1, "payload shown to the handler"); }
    match r {
        Ok(r) => {
            check!(if panics { !fail2 } else { !fail }, "a failure disappears");
            let b: &[u8] = if happened(2) > 0 { b"handler" } else { b"inner" };
            check!(is_tagged(r, sel(panics, 77, tag), b), "response");
        }
        Err(e) => check!(if panics { fail2 & (no(&e) == 2) } else { fail & (no(&e) == 1) }, "error"),
    }
}
// any service, a panic at any point of it; again afterwards; a clone; one made for a connection
harness!(unwind_a, 16, {}, |t| {
    let tag = t.below(32);
    let first = t.below(4);
    let kind = t.pick(3);
    let v = t.u8();
    KIND.store(kind, SeqCst);
    VALUE.store(v, SeqCst);
    let (_, fail) = tape_plan(t, 1, 2);
    let (_, fail2) = tape_plan(t, 2, 2);
    let second = t.below(4);
    let which = t.pick(3);
    let ready = t.below(3);
    READY.store(ready, SeqCst);
    let mut svc = Inner(tag).catch_unwind(handler);
    for round in 0..2 {
        let how = (if round == 0 { first } else { second }) + 1;
        HOW.store(how, SeqCst);
        reset();
        if round == 1 && which == 1 { svc = svc.clone(); }
        if round == 1 && which == 2 { svc = match now(MakeService::make_service(&mut svc.make_service_by_cloning(), ())) { Ok(s) => s, Err(_) => crate::common::violated("make_service fails") }; }
        let p = match svc.poll_ready() { Ok(Async::NotReady) => 0, Ok(Async::Ready(())) => 1, Err(e) => if no(&e) == 7 { 2 } else { 3 } };
        check!(p == ready, "readiness of the inner service");
        check!(events() == 0, "something happens although it has only been asked whether it is ready");
        let r = marked(http::Method::PUT, http::Uri::from_static("/p"), tag).map(|_| Body::empty());
        let r = drive(svc.call(r));
        let panics = how != 1;
        cover!(panics && round == 1 && r.is_ok(), "a:again");
        cover!(!panics && round == 1 && r.is_ok() && first > 0, "a:none after one");
        cover!(panics && kind == 1, "a:message");
        cover!(panics && kind == 2, "a:formatted");
        cover!(how == CALL && r.is_err(), "a:handler fails");
        check!(happened(20) == 1, "the inner service is called once");
        verdict(panics, fail, fail2, tag, r);
    }
});
// around AsyncService: panics in the request type, its guard, the handler, the handler's future
struct Gu;
impl Guard for Gu {
    type Context = NoContext;
    type Result = Step<Self>;
    fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { if HOW.load(SeqCst) == 1 { throw(); } step(3, Gu) }
}
#[derive(FromRequest)]
enum Un { #[get("/p")] V { g: Gu, #[forward] f: Fo }, #[get("/q")] Q }
struct Fo(u8);
impl FromRequest for Fo {
    type Context = NoContext;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future { Box::new(step(4, ()).map(|_| { if HOW.load(SeqCst) == 2 { throw(); } Fo(9) })) }
}
harness!(unwind_s, 16, { warm::<Un>("/z"); }, |t| {
    let m = t.pick(3);
    let q = t.bool();
    let how = t.below(5);
    HOW.store(how, SeqCst);
    KIND.store(0, SeqCst);
    VALUE.store(t.u8(), SeqCst);
    let (_, f3) = tape_plan(t, 3, 1);
    let (_, f4) = tape_plan(t, 4, 1);
    let (_, f1) = tape_plan(t, 1, 1);
    let (_, f2) = tape_plan(t, 2, 1);
    let mut svc = AsyncService::new(|_: Un, _| {
        ev(21);
        if HOW.load(SeqCst) == 3 { throw(); }
        step(1, tagged(5, "inner")).map(|r| { if HOW.load(SeqCst) == 4 { throw(); } r })
    }).catch_unwind(handler);
    reset();
    let mut r = Request::new(Body::empty());
    *r.method_mut() = method(m);
    *r.uri_mut() = http::Uri::from_static(if q { "/q" } else { "/p" });
    let r = drive(svc.call(r));
    if m == POST {
        check!(happened(2) + happened(21) == 0, "the handler is called for a request that is refused");
        check!(match r { Ok(r) => r.status().as_u16() == 405, Err(_) => false }, "refusal is passed on");
        cover!(true, "s:refused");
        return;
    }
    // q: neither guard nor inner type
    let at = if q { (how >= 3) & !((how == 4) & f1) } else { (how == 1) | ((how == 2) & !f3 & !f4) | ((how == 3) & !f3 & !f4) | ((how == 4) & !f3 & !f4 & !f1) };
    check!(happened(2) == at as usize, "the handler is called once for a panic, and not otherwise");
    match r {
        Ok(r) => {
            let b: &[u8] = if m == HEAD && happened(2) == 0 { b"" } else if happened(2) > 0 { b"handler" } else { b"inner" };
            check!(is_tagged(r, sel(at, 77, 5), b), "response");
            check!(if at { !f2 } else { !f1 & (q | (!f3 & !f4)) }, "a failure disappears");
        }
        Err(e) => {
            let want = if at { 2 } else if !q & f3 { 3 } else if !q & f4 { 4 } else { 1 };
            check!(no(&e) == want, "error");
        }
    }
    if at { check!(GOT.load(SeqCst) == 1, "payload shown to the handler"); }
    cover!(at & (how == 1), "s:guard");
    cover!(at & (how == 2), "s:inner type");
    cover!(at & (how == 3), "s:handler");
    cover!(at & (how == 4) & q, "s:future of the handler");
});
