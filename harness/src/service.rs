//! AsyncService and SyncService.
use crate::common::{sel, Tape};
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Exp, Path, Class::Digits, Rt, Seg::{self, L, P as S, R, T as Ty, TR}};
use futures::{Async, Future, Stream};
use hyperdrive::{http::{self, Request, Response}, hyper::{self, Body}, service::{AsyncService, SyncService}, BoxedError, FromRequest, NoContext, RequestContext};
use hyper::service::{MakeService, Service};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
#[derive(FromRequest)]
enum Sa {
    #[get("/a")] A,
    #[post("/b/{x}")] B { x: Dig },
    #[put("/c")] #[get("/d")] C,
    #[head("/e")] E,
}
const SA: &[Rt] = &[Rt(G, 1, &[L("a")]), Rt(P, 2, &[L("b"), Ty(Digits)]), Rt(U, 3, &[L("c")]), Rt(G, 3, &[L("d")]), Rt(bit(HEAD), 4, &[L("e")])];
fn a(x: &Sa) -> u8 { match x { Sa::A => 1, Sa::B { .. } => 2, Sa::C => 3, Sa::E => 4 } }
static CALLS: AtomicU32 = AtomicU32::new(0);
static GOT: AtomicU8 = AtomicU8::new(0);
static STATUS: AtomicU32 = AtomicU32::new(200);
static SAME: AtomicU8 = AtomicU8::new(1);
static METHOD: AtomicU8 = AtomicU8::new(0);
static PATH: [AtomicU8; 8] = { const Z: AtomicU8 = AtomicU8::new(0); [Z; 8] };
static LENGTH: AtomicU8 = AtomicU8::new(0);
const MARK: u8 = 0x77;
fn handled(v: u8, r: &Request<()>) {
    CALLS.fetch_add(1, SeqCst);
    GOT.store(v, SeqCst);
    let mut p = [0u8; 8];
    let n = LENGTH.load(SeqCst) as usize;
    for i in 0..n { p[i] = PATH[i].load(SeqCst); }
    SAME.store(is_marked(r, &method(METHOD.load(SeqCst)), &p[..n], MARK) as u8, SeqCst);
}
fn response() -> Response<Body> {
    let mut r = Response::new(Body::from("hello"));
    *r.status_mut() = http::StatusCode::from_u16(STATUS.load(SeqCst) as u16).unwrap();
    r.headers_mut().insert("content-length", http::header::HeaderValue::from_static("5"));
    r.headers_mut().insert("x-own", http::header::HeaderValue::from_static("own"));
    *r.version_mut() = http::Version::HTTP_2;
    r.extensions_mut().insert(Mark(MARK));
    r
}
/// A foreign error, whose cause is one of hyperdrive's.
#[derive(Debug)] struct Foreign(hyperdrive::Error);
impl std::fmt::Display for Foreign { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("foreign") } }
impl std::error::Error for Foreign { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }
fn busy() -> hyperdrive::Error { hyperdrive::Error::from_status(http::StatusCode::SERVICE_UNAVAILABLE) }
/// A request to the service, as the harness remembers it.
fn request(t: &mut Tape, max: usize) -> (Rq, Request<Body>) {
    let rq = env::request(t, max);
    METHOD.store(rq.method, SeqCst);
    LENGTH.store(rq.path.n as u8, SeqCst);
    for i in 0..rq.path.n { PATH[i].store(rq.path.b[i], SeqCst); }
    let r = marked(method(rq.method), uri(false, &rq.path.b[..rq.path.n], None), MARK).map(|_| Body::empty());
    CALLS.store(0, SeqCst);
    reset();
    (rq, r)
}
fn body(b: Body) -> Vec<u8> { match drive(b.concat2()) { Ok(c) => c.to_vec(), Err(_) => crate::common::violated("body of the response fails") } }
/// `fails`: 0 no, 1 with a foreign error, 2 with one of hyperdrive's, of status 503, 3 with a foreign one caused by such
fn verdict(rq: &Rq, e: Exp, status: u16, fails: u8, r: Result<Response<Body>, BoxedError>) {
    let ok = (e.v != 0) & !e.bad;
    check!(CALLS.load(SeqCst) == ok as u32, "the handler is called once if the request decodes, and not otherwise");
    if CALLS.load(SeqCst) == 1 {
        check!(GOT.load(SeqCst) == e.v, "what the handler gets");
        check!(SAME.load(SeqCst) == 1, "the request shown to the handler");
    }
    match r {
        Err(err) => {
            check!(ok & ((fails == 1) | (fails == 3)), "the service fails although the failure is hyperdrive's own, or there is none");
            if fails == 3 { check!(err.downcast_ref::<Foreign>().map_or(false, |f| f.0.http_status().as_u16() == 503), "error of the handler"); } else { check!(no(&err) == 9, "error of the handler"); }
            crate::common::observe(1);
        }
        Ok(r) => {
            crate::common::observe(r.status().as_u16() as u64);
            if CALLS.load(SeqCst) == 1 {
                check!((fails != 1) & (fails != 3), "an error of the handler disappears");
                let own = fails == 0;
                check!(r.status().as_u16() == if own { status } else { 503 }, "status of the response");
                check!((r.headers().len() == 2) | !own, "headers of the response");
                if own { check!((r.version() == http::Version::HTTP_2) && r.extensions().get::<Mark>().map_or(false, |m| m.0 == MARK), "version or extensions of the response"); check!(r.headers().get("x-own").map_or(false, |v| v.as_bytes() == b"own") & r.headers().get("content-length").map_or(false, |v| v.as_bytes() == b"5"), "headers of the response"); }
                let b = body(r.into_body());
                if rq.method == HEAD || !own { check!(b.len() == 0, "a body in the response to HEAD, or to an error"); } else { check!(b == b"hello", "body of the response"); }
            } else {
                let s = r.status().as_u16();
                let f = Fail { status: s, allowed: r.headers().get("allow").map(|v| methods(v.as_bytes())), source: e.bad };
                refused(e, f);
                check!(r.headers().len() == (s == 405) as usize, "headers of the response");
                check!(body(r.into_body()).len() == 0, "a body in the response to an error");
            }
        }
    }
}
/// the methods of an Allow header
fn methods(b: &[u8]) -> u16 {
    let mut m = 0u16;
    let mut at = 0;
    while at < b.len() {
        let mut e = at;
        while e < b.len() && b[e] != b',' { e += 1; }
        let w = &b[at..e];
        let w = if w.len() > 0 && w[0] == b' ' { &w[1..] } else { w };
        let mut k = 0;
        let mut one = 1 << 15;
        while k < 9 { if method(k).as_str().as_bytes() == w { one = bit(k); } k += 1; }
        m |= if m & one != 0 { 1 << 14 } else { one };
        at = e + 1;
    }
    m
}
fn warmed() { warm::<Sa>("/a"); }
fn fails(t: &mut Tape) -> u8 { t.below(4) }
fn status(t: &mut Tape) -> u16 { let s = 200 + t.below(255) as u16; STATUS.store(s as u32, SeqCst); s }
harness!(service_a, 20, warmed(), |t| {
    let (rq, r) = request(t, 5);
    let s = status(t);
    let f = fails(t);
    plan(9, t.below(3), f == 1);
    let mut svc = AsyncService::new(move |x: Sa, r: Arc<Request<()>>| { handled(a(&x), &r); step(9, ()).and_then(move |_| if f == 2 { Err(busy().into()) } else if f == 3 { Err(Foreign(busy()).into()) } else { Ok(response()) }) });
    let e = expect(SA, &rq.path, rq.method);
    let r = drive(svc.call(r));
    cover!(rq.method == HEAD && e.v == 1 && r.is_ok(), "a:head");
    cover!(r.is_err() & (f == 1), "a:fails");
    cover!(r.is_err() & (f == 3), "a:foreign with a cause");
    cover!(e.bad, "a:bad text");
    cover!((e.v == 0) & e.known, "a:405");
    verdict(&rq, e, s, f, r);
});
// the handler of SyncService is run where it may block
harness!(service_s, 20, warmed(), |t| {
    let (rq, r) = request(t, 5);
    let s = status(t);
    let slots = t.below(3);
    #[cfg(hv_sym)] unsafe { tokio_threadpool::HV_PENDING = slots; tokio_threadpool::HV_RUNS = 0; tokio_threadpool::HV_PEND = Some(not_ready); }
    let mut svc = SyncService::new(|x: Sa, r: Arc<Request<()>>| {
        handled(a(&x), &r);
        #[cfg(hv_sym)] { check!(unsafe { tokio_threadpool::HV_INSIDE }, "handler run outside of `blocking`"); }
        response()
    });
    let e = expect(SA, &rq.path, rq.method);
    let f = svc.call(r);
    #[cfg(hv_sym)] let r = drive(f);
    #[cfg(not(hv_sym))] let r = crate::script::pool(slots > 0, f);
    cover!(rq.method == HEAD && e.v == 1 && r.is_ok(), "s:head");
    cover!((e.v == 0) & e.known, "s:405");
    verdict(&rq, e, s, 0, r);
});
// any context, cloned for each request; the body reaches the request type
#[derive(RequestContext, Clone)]
struct Cx { n: u8 }
struct Whole { n: u8, body: Vec<u8> }
impl FromRequest for Whole {
    type Context = Cx;
    type Future = hyperdrive::DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: Cx) -> Self::Future {
        ev(20);
        Box::new(b.concat2().map_err(|e| e.into()).and_then(move |b| step(1, Whole { n: c.n, body: b.to_vec() })))
    }
}
harness!(service_c, 20, {}, |t| {
    let n = t.u8();
    let bytes = [t.u8(), t.u8(), t.u8()];
    let k = t.pick(4) as usize;
    let pauses = [t.below(2), t.below(2)];
    let (_, fail) = tape_plan(t, 1, 1);
    let (_, fail2) = tape_plan(t, 2, 0);
    let head = t.bool();
    let mut svc = AsyncService::with_context(move |x: Whole, r: Arc<Request<()>>| {
        check!(x.n == n, "context");
        check!(x.body.len() == k, "body of the request");
        for i in 0..k.min(x.body.len()) { check!(x.body[i] == bytes[i], "body of the request"); }
        step(2, ()).map(|_| response())
    }, Cx { n });
    for round in 0..2 {
        reset();
        let mut r = Request::new(pieces(&bytes[..k], 1, &pauses, false));
        if head { *r.method_mut() = http::Method::HEAD; }
        match drive(svc.call(r)) {
            Ok(r) => { check!(!fail & !fail2, "a failure disappears"); let b = body(r.into_body()); check!((b.len() == 0) == head, "body of the response"); cover!(head && round == 1, "c:head again"); }
            Err(e) => check!(((no(&e) == 1) & fail) | ((no(&e) == 2) & fail2 & !fail), "error passed on"),
        }
        check!(happened(20) == 1, "the request is decoded once");
        check!(happened(2) == !fail as usize, "the handler is called once");
    }
});
// clones and made services do the same as the original
harness!(service_m, 20, warmed(), |t| {
    let (rq, r) = request(t, 4);
    let s = status(t);
    let svc = AsyncService::new(|x: Sa, r: Arc<Request<()>>| { handled(a(&x), &r); futures::future::ok::<_, BoxedError>(response()) });
    let how = t.pick(3);
    let mut svc = match how {
        0 => svc.clone(),
        1 => { let mut m = svc; match now(MakeService::make_service(&mut m, ())) { Ok(s) => s, Err(_) => crate::common::violated("make_service fails") } }
        _ => { use hyperdrive::service::ServiceExt; let mut m = svc.make_service_by_cloning(); match now(MakeService::make_service(&mut m, 5u8)) { Ok(s) => s, Err(_) => crate::common::violated("make_service fails") } }
    };
    let e = expect(SA, &rq.path, rq.method);
    let r = drive(svc.call(r));
    cover!(how == 2 && e.v == 1, "m:by cloning");
    verdict(&rq, e, s, 0, r);
});
// errors of decoding: those of hyperdrive become a response, others do not, whatever their cause
struct Failing;
impl FromRequest for Failing {
    type Context = NoContext;
    type Future = hyperdrive::DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future {
        let k = GOT.load(SeqCst);
        let s = http::StatusCode::from_u16(STATUS.load(SeqCst) as u16).unwrap();
        Box::new(step(1, ()).and_then(move |_| Err(match k {
            0 => hyperdrive::Error::from_status(s).into(),
            1 => hyperdrive::Error::with_source(s, No(3)).into(),
            2 => hyperdrive::Error::with_source(s, hyperdrive::Error::from_status(http::StatusCode::NOT_FOUND)).into(),
            3 => Foreign(hyperdrive::Error::from_status(s)).into(),
            4 => BoxedError::from(Box::new(Foreign(hyperdrive::Error::from_status(s)))),
            5 => std::io::Error::new(std::io::ErrorKind::Other, hyperdrive::Error::from_status(s)).into(),
            _ => "text".into(),
        })))
    }
}
#[derive(FromRequest)] struct Fw { #[forward] f: Failing }
harness!(service_e, 12, {}, |t| {
    let k = t.pick(7);
    let n = 400 + t.below(200) as u16;
    let m = t.pick(3);
    plan(1, t.below(2), false);
    let sync = t.pick(2) == 1;
    STATUS.store(n as u32, SeqCst);
    GOT.store(k, SeqCst);
    let mut r = Request::new(Body::empty());
    *r.method_mut() = method(m);
    reset();
    let r = if sync {
        #[cfg(hv_sym)] unsafe { tokio_threadpool::HV_PENDING = 0; tokio_threadpool::HV_RUNS = 0; tokio_threadpool::HV_PEND = Some(not_ready); }
        let f = SyncService::new(|_: Fw, _| { ev(2); response() }).call(r);
        #[cfg(hv_sym)] let r = drive(f);
        #[cfg(not(hv_sym))] let r = crate::script::pool(false, f);
        r
    } else { drive(AsyncService::new(|_: Fw, _| { ev(2); futures::future::ok::<_, BoxedError>(response()) }).call(r)) };
    check!(happened(2) == 0, "the handler is called without a request");
    check!(happened(1) == 1, "the request is decoded once");
    match r {
        Ok(r) => {
            check!(k < 3, "a foreign error becomes a response");
            check!(r.status().as_u16() == n, "status of the response");
            check!(r.headers().len() == (n == 405) as usize, "headers of the response");
            check!(body(r.into_body()).len() == 0, "a body in the response to an error");
            cover!(k == 2, "e:own");
            cover!((n == 405) & (m == HEAD), "e:405");
        }
        Err(e) => {
            check!(k >= 3, "an error of hyperdrive is passed on");
            check!(match k { 3 => e.is::<Foreign>(), 4 => e.is::<Box<Foreign>>(), 5 => e.is::<std::io::Error>(), _ => e.to_string() == "text" }, "error passed on");
            cover!((k == 3) & sync, "e:foreign");
        }
    }
});
