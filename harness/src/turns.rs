//! Several calls, futures or services at a time, in any order.
use crate::common::{sel, Tape};
use crate::env::*;
use crate::script::*;
use futures::executor::{spawn, Spawn};
use futures::{Async, Future, Poll, Stream};
use hyperdrive::{http::{self, Request, Response}, hyper::{self, Body}, service::{AsyncService, ServiceExt, SyncService}, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use hyper::service::{MakeService, Service};
use std::any::Any;
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
struct Nop;
impl futures::executor::Notify for Nop { fn notify(&self, _: usize) {} }
/// Two futures, polled in the order that the tape says until both are done, or one of them is dropped.
fn turns<F: Future, G: Future>(t: &mut Tape, f: F, g: G, drop_first: bool) -> (Option<Result<F::Item, F::Error>>, Result<G::Item, G::Error>) {
    let (mut f, mut g) = (Some(spawn(f)), Some(spawn(g)));
    let n = Arc::new(Nop);
    let (mut x, mut y) = (None, None);
    let mut left = 3;
    while f.is_some() || g.is_some() {
        let first = if left > 0 { left -= 1; t.pick(2) == 0 } else { f.is_some() };
        if first {
            if let Some(p) = &mut f { match p.poll_future_notify(&n, 0) { Ok(Async::Ready(v)) => { x = Some(Ok(v)); f = None; } Err(e) => { x = Some(Err(e)); f = None; } Ok(Async::NotReady) => if drop_first { f = None; } } }
        } else if let Some(p) = &mut g { match p.poll_future_notify(&n, 0) { Ok(Async::Ready(v)) => { y = Some(Ok(v)); g = None; } Err(e) => { y = Some(Err(e)); g = None; } Ok(Async::NotReady) => {} } }
        if left == 0 && f.is_none() && g.is_some() { let p = g.as_mut().unwrap(); loop { match p.poll_future_notify(&n, 0) { Ok(Async::Ready(v)) => { y = Some(Ok(v)); break } Err(e) => { y = Some(Err(e)); break } Ok(Async::NotReady) => {} } } g = None; }
    }
    (x, match y { Some(y) => y, None => crate::common::violated("no result") })
}
fn body(b: Body) -> Vec<u8> { match drive(b.concat2()) { Ok(c) => c.to_vec(), Err(_) => crate::common::violated("body of the response fails") } }
fn tagged(tag: u8, body: &'static str) -> Response<Body> {
    let mut r = Response::new(Body::from(body));
    *r.status_mut() = http::StatusCode::from_u16(200 + tag as u16).unwrap();
    *r.version_mut() = http::Version::HTTP_10;
    r.headers_mut().insert("x-own", http::header::HeaderValue::from_static("own"));
    r.extensions_mut().insert(Mark(tag));
    r
}
fn is_tagged(r: Response<Body>, tag: u8, b: &[u8]) -> bool {
    (r.status().as_u16() == 200 + tag as u16) & (r.headers().len() == 1) & (r.version() == http::Version::HTTP_10) & r.headers().get("x-own").map_or(false, |v| v.as_bytes() == b"own")
        & match r.extensions().get::<Mark>() { Some(m) => m.0 == tag, None => false } & (body(r.into_body()) == b)
}
fn request(m: u8, uri: &'static str, tag: u8) -> Request<Body> { marked(method(m), http::Uri::from_static(uri), tag).map(|_| Body::empty()) }
fn tag(r: &Request<()>) -> u8 { match r.extensions().get::<Mark>() { Some(m) => m.0, None => crate::common::violated("request shown to the handler") } }

// two requests in flight
#[derive(FromRequest)]
enum Ta { #[get("/a/{x}")] A { x: Text, g: Ga }, #[put("/b")] B }
struct Ga;
impl Guard for Ga { type Context = NoContext; type Result = Step<Self>; fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { step(3, Ga) } }
fn ta(x: &Ta) -> u8 { match x { Ta::A { x, .. } => if x.len() == 1 && x[0] == b'1' { 1 } else { 2 }, Ta::B => 3 } }
harness!(turns_s, 12, { warm::<Ta>("/z"); reset() }, |t| {
    let head = [t.pick(2) == 1, t.pick(2) == 1];
    let pend = [t.below(3), t.below(2)];
    let fail = t.bool();
    let clone = t.bool();
    let drop_first = t.bool();
    let mut svc = AsyncService::new(|x: Ta, r: Arc<Request<()>>| {
        ev(20 + ta(&x));
        check!(tag(&r) == ta(&x), "which request is shown to the handler");
        step(ta(&x) as usize, tagged(ta(&x), "hello"))
    });
    plan(1, pend[0], false);
    plan(2, pend[1], fail);
    plan(3, 1, false);
    reset();
    let f = svc.call(request(if head[0] { HEAD } else { GET }, "/a/1", 1));
    let g = if clone { svc.clone().call(request(if head[1] { HEAD } else { GET }, "/a/2", 2)) } else { svc.call(request(if head[1] { HEAD } else { GET }, "/a/2", 2)) };
    let (x, y) = turns(t, f, g, drop_first);
    if let Some(x) = x {
        match x { Ok(r) => check!(is_tagged(r, 1, if head[0] { b"" } else { b"hello" }), "response"), Err(_) => check!(false, "fails without a reason") }
        check!(happened(21) == 1, "the handler is called once for each request");
        cover!(head[0] && !head[1] && !drop_first, "s:head and get");
    } else { check!(happened(21) <= 1, "the handler is called once for each request"); cover!(happened(21) == 0, "s:dropped"); }
    match y { Ok(r) => { check!(!fail, "a failure disappears"); check!(is_tagged(r, 2, if head[1] { b"" } else { b"hello" }), "response"); } Err(e) => check!(fail & (no(&e) == 2), "error") }
    check!(happened(22) == 1, "the handler is called once for each request");
    check!(happened(23) == 0, "the handler is called for a request that was not made");
});

// panics of one request do not reach another
static CAUGHT: AtomicU8 = AtomicU8::new(0);
struct Thrown(u8);
/// what a request does is in its tag: 1, 2: how; 3: the request
#[derive(Clone)]
struct Inner;
struct InnerFuture { step: Step<Response<Body>>, tag: u8 }
impl Service for Inner {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = InnerFuture;
    fn call(&mut self, r: Request<Body>) -> InnerFuture {
        let tag = match r.extensions().get::<Mark>() { Some(m) => m.0, None => crate::common::violated("request shown to the inner service") };
        ev(20 + (tag & 1));
        if tag >> 1 == 1 { std::panic::panic_any(Thrown(tag)); }
        InnerFuture { step: step(1 + (tag & 1) as usize, tagged(tag, "inner")), tag }
    }
}
impl Future for InnerFuture {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        let r = self.step.poll();
        match (self.tag >> 1, &r) { (2, _) | (3, Ok(Async::Ready(_))) | (3, Err(_)) => std::panic::panic_any(Thrown(self.tag)), _ => r }
    }
}
harness!(turns_u, 12, {}, |t| {
    let how = [t.below(4), t.below(4)];
    let tags = [how[0] << 1, how[1] << 1 | 1];
    let pend = [t.below(3), t.below(2)];
    let clone = t.bool();
    let drop_first = t.bool();
    let mut svc = Inner.catch_unwind(|p: Box<dyn Any + Send>| match p.downcast_ref::<Thrown>() { Some(x) => { ev(30 + (x.0 & 1)); step(3, tagged(x.0 | 32, "handler")) } None => crate::common::violated("payload shown to the handler") });
    plan(1, pend[0], false);
    plan(2, pend[1], false);
    plan(3, 1, false);
    reset();
    let f = svc.call(request(GET, "/a", tags[0]));
    let g = if clone { svc.clone().call(request(GET, "/a", tags[1])) } else { svc.call(request(GET, "/a", tags[1])) };
    let (x, y) = turns(t, f, g, drop_first);
    if let Some(x) = x {
        match x { Ok(r) => check!(is_tagged(r, if how[0] == 0 { tags[0] } else { tags[0] | 32 }, if how[0] == 0 { b"inner" } else { b"handler" }), "response"), Err(_) => check!(false, "fails without a reason") }
        check!(happened(30) == (how[0] != 0) as usize, "the handler is called once for a panic, and not otherwise");
        cover!((how[0] == 2) & (how[1] == 3), "u:both");
        cover!((how[0] == 3) & (how[1] == 0), "u:first");
    }
    match y { Ok(r) => check!(is_tagged(r, if how[1] == 0 { tags[1] } else { tags[1] | 32 }, if how[1] == 0 { b"inner" } else { b"handler" }), "response"), Err(_) => check!(false, "fails without a reason") }
    check!(happened(31) == (how[1] != 0) as usize, "the handler is called once for a panic, and not otherwise");
    check!((happened(20) == 1) & (happened(21) == 1), "the inner service is called once");
});

// two requests decoded at a time
#[derive(FromRequest)]
enum Td { #[post("/a/{x}")] A { x: Text, one: Gd, #[body] b: Bd, two: Gd } }
struct Gd(u8);
impl Guard for Gd { type Context = NoContext; type Result = Step<Self>; fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { step(1 + tag(r) as usize, Gd(tag(r))) } }
struct Bd(u8, Vec<u8>);
impl FromBody for Bd { type Context = NoContext; type Result = DefaultFuture<Self, BoxedError>; fn from_body(r: &Arc<Request<()>>, b: Body, _: &NoContext) -> Self::Result { let n = tag(r); Box::new(b.concat2().map_err(|e| e.into()).map(move |c| Bd(n, c.to_vec()))) } }
harness!(turns_d, 16, { warm::<Td>("/z"); reset() }, |t| {
    let c = [t.u8(), t.u8()];
    let pend = [t.below(2), t.below(2)];
    let fail = t.bool();
    let drop_first = t.bool();
    plan(1, pend[0], false);
    plan(2, pend[1], fail);
    let rq = |k: usize| Td::from_request(marked(http::Method::POST, http::Uri::from_static(if k == 0 { "/a/1" } else { "/a/2" }), k as u8).map(|_| pieces(&[c[k], k as u8], 1, &[1, 0, 1], false)), NoContext);
    let (f, g) = (rq(0), rq(1));
    let (x, y) = turns(t, f, g, drop_first);
    let same = |v: Td, k: u8| match v { Td::A { x, one, b, two } => check!((x.len() == 1) & (x[0] == b'1' + k) & (one.0 == k) & (two.0 == k) & (b.0 == k) & (b.1.len() == 2) & (b.1[0] == c[k as usize]) & (b.1[1] == k), "fields") };
    if let Some(x) = x { match x { Ok(v) => { same(v, 0); cover!(fail, "d:other fails"); } Err(_) => check!(false, "refused without a reason") } } else { cover!(true, "d:dropped"); }
    match y { Ok(v) => { check!(!fail, "a failure disappears"); same(v, 1); } Err(e) => check!(fail & (no(&e) == 2), "error") }
});

// two closures at a time
#[cfg(hv_sym)]
fn prepare(slots: u8) { unsafe { tokio_threadpool::HV_PENDING = slots; tokio_threadpool::HV_RUNS = 0; tokio_threadpool::HV_INSIDE = false; tokio_threadpool::HV_PEND = Some(not_ready); } }
#[cfg(not(hv_sym))]
fn prepare(_: u8) {}
harness!(turns_b, 12, {}, |t| {
    reset();
    let slots = t.below(4);
    prepare(slots);
    let (v, w) = (t.u8(), t.u8());
    let (f1, f2) = (t.bool(), t.bool());
    let drop_first = t.bool();
    let f = hyperdrive::blocking(move || { ev(1); if f1 { Err(No(1)) } else { Ok(v) } });
    let g = hyperdrive::blocking(move || { ev(2); if f2 { Err(No(2)) } else { Ok((w, 7)) } });
    #[cfg(hv_sym)] let (x, y) = turns(t, f, g, drop_first);
    #[cfg(not(hv_sym))] let (x, y) = {
        // (the order is the real pool's)
        for _ in 0..3 { t.pick(2); }
        let r: Result<_, ()> = pool(slots > 0, f.then(Ok).join(g.then(Ok)));
        let (x, y) = match r { Ok(r) => r, Err(_) => unreachable!() };
        (Some(x), y)
    };
    if let Some(x) = x {
        match x { Ok(a) => check!(!f1 & (a == v), "result"), Err(e) => check!(f1 & (e.0 == 1), "error") }
        check!(happened(1) == 1, "how often a closure is run");
        cover!(!f1 & !drop_first, "b:first");
    } else { check!(happened(1) == 0, "run without a slot"); }
    match y { Ok(a) => { check!(!f2 & (a.0 == w) & (a.1 == 7), "result"); cover!(f1 & !drop_first, "b:second"); } Err(e) => check!(f2 & (e.0 == 2), "error") }
    check!(happened(2) == 1, "how often a closure is run");
});

// services made for several connections, and their clones, answer as the first does, each time
#[derive(RequestContext, Clone)]
struct Cx { n: u8 }
struct Sees { n: u8 }
impl FromRequest for Sees { type Context = Cx; type Future = Step<Self>; fn from_request_and_body(r: &Arc<Request<()>>, _: Body, c: Cx) -> Step<Self> { step(1, Sees { n: c.n }) } }
fn made<M: MakeService<u16>>(m: &mut M, c: u16) -> M::Service where M::Future: Future<Item = M::Service> { match now(m.make_service(c)) { Ok(s) => s, Err(_) => crate::common::violated("make_service fails") } }
fn made_self<M: MakeService<()>>(m: &mut M) -> M::Service where M::Future: Future<Item = M::Service> { match now(m.make_service(())) { Ok(s) => s, Err(_) => crate::common::violated("make_service fails") } }
/// Uses a service in one of several ways, twice.
fn ways<S>(t: &mut Tape, svc: S, each: impl Fn(&mut S)) where S: Service + Clone + MakeService<(), Service = S, ReqBody = <S as Service>::ReqBody, ResBody = <S as Service>::ResBody, Error = <S as Service>::Error>, <S as MakeService<()>>::Future: Future<Item = S> {
    let mut svc = svc;
    match t.pick(6) {
        2 => { let mut c = made_self(&mut svc); each(&mut c); each(&mut svc); }
        3 => { let mut c = svc.clone(); drop(svc); each(&mut made_self(&mut c)); each(&mut c); }
        w => plain(w, svc, each),
    }
}
fn plain<S: Service + Clone>(w: u8, svc: S, each: impl Fn(&mut S)) {
    let mut svc = svc;
    match w {
        0 => { each(&mut svc); each(&mut svc); }
        1 => { let mut c = svc.clone(); each(&mut c); each(&mut svc); each(&mut c.clone()); }
        4 => { let mut m = svc.make_service_by_cloning(); each(&mut made(&mut m, 80)); each(&mut made(&mut m, 81)); }
        _ => { let mut m = svc.make_service_by_cloning(); let mut a = made(&mut m, 80); let mut b = made(&mut m, 80); drop(m); each(&mut b); each(&mut a); each(&mut a); }
    }
}
harness!(turns_m, 12, {}, |t| {
    let n = t.u8();
    let head = t.bool();
    let fail = t.bool();
    let panics = t.bool();
    plan(1, 0, fail);
    plan(2, 1, false);
    let rq = || { let mut r = request(if head { HEAD } else { GET }, "/a", 3); r };
    let judge = |r: Result<Response<Body>, BoxedError>, quiet: bool| match r {
        Ok(r) => { check!(!fail, "a failure disappears"); let h = panics & !quiet; check!(is_tagged(r, if h { 9 } else { 8 }, if h { b"caught" } else if head { b"" } else { b"hello" }), "response"); }
        Err(e) => check!(fail & (no(&e) == 1), "error"),
    };
    #[cfg(hv_sym)] fn run<F: Future + Send + 'static>(f: F) -> Result<F::Item, F::Error> where F::Item: Send + 'static, F::Error: Send + 'static { drive(f) }
    #[cfg(not(hv_sym))] fn run<F: Future + Send + 'static>(f: F) -> Result<F::Item, F::Error> where F::Item: Send + 'static, F::Error: Send + 'static { pool(false, f) }
    let kind = t.pick(3);
    match kind {
        0 => ways(t, AsyncService::with_context(move |x: Sees, r: Arc<Request<()>>| { ev(20); check!((x.n == n) & (tag(&r) == 3), "what the handler gets"); step(2, tagged(8, "hello")) }, Cx { n }),
                  |s| { check!(match Service::poll_ready(s) { Ok(Async::Ready(())) => true, _ => false }, "readiness"); reset(); judge(drive(s.call(rq())), true); check!(happened(20) == !fail as usize, "the handler is called once"); cover!(head & !fail, "m:async"); }),
        1 => { prepare(1); ways(t, SyncService::with_context(move |x: Sees, r: Arc<Request<()>>| { ev(20); check!((x.n == n) & (tag(&r) == 3), "what the handler gets"); tagged(8, "hello") }, Cx { n }),
                  |s| { check!(match Service::poll_ready(s) { Ok(Async::Ready(())) => true, _ => false }, "readiness"); reset(); judge(run(s.call(rq())), true); check!(happened(20) == !fail as usize, "the handler is called once"); cover!(head & !fail, "m:sync"); }); }
        _ => plain([0, 1, 4, 5][t.pick(4) as usize], AsyncService::with_context(move |x: Sees, r: Arc<Request<()>>| { ev(20); if panics { panic!("panics"); } step(2, tagged(8, "hello")) }, Cx { n }).catch_unwind(|_| { ev(21); Ok::<_, BoxedError>(tagged(9, "caught")) }),
                  |s| { check!(match Service::poll_ready(s) { Ok(Async::Ready(())) => true, _ => false }, "readiness"); reset(); judge(drive(s.call(rq())), false); check!((happened(20) == !fail as usize) & (happened(21) == (!fail & panics) as usize), "the handler is called once"); cover!(panics & !fail, "m:caught"); }),
    }
});
