//! Guards: order, failures, what they see.
use crate::common::{sel, Tape};
use crate::env::{self, *};
use crate::script::*;
use hyperdrive::{http::{self, Request}, hyper::Body, BoxedError, FromBody, FromRequest, Guard, NoContext};
use std::sync::Arc;
const MARK: u8 = 0x5a;
fn seen(r: &Arc<Request<()>>) { check!(is_marked(r, &http::Method::POST, b"/g/ab", MARK), "request shown to a guard or body"); }
/// A guard whose future is step `K`.
macro_rules! guard { ($n:ident, $k:expr) => {
    struct $n(u8);
    impl Guard for $n {
        type Context = NoContext;
        type Result = Step<Self>;
        fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { seen(r); step($k, $n($k)) }
    }
} }
guard!(G1, 1);
guard!(G2, 2);
guard!(G3, 3);
/// one that answers at once
struct Now(u8);
impl Guard for Now {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result { seen(r); match futures::Future::poll(&mut step(4, ())) { Ok(_) => Ok(Now(4)), Err(e) => Err(e) } }
}
struct Bo(u8);
impl FromBody for Bo {
    type Context = NoContext;
    type Result = Step<Self>;
    fn from_body(r: &Arc<Request<()>>, _: Body, _: &NoContext) -> Step<Self> { seen(r); step(5, Bo(5)) }
}
struct Fw(u8);
impl FromRequest for Fw {
    type Context = NoContext;
    type Future = Step<Self>;
    fn from_request_and_body(r: &Arc<Request<()>>, _: Body, _: NoContext) -> Step<Self> { seen(r); step(5, Fw(5)) }
}
fn req() -> Arc<Request<()>> { Arc::new(marked(http::Method::POST, http::Uri::from_static("/g/ab"), MARK)) }
/// Steps in the order of `order`: each starts when the one before has succeeded, nothing behind a failure; the error is that of the first failure.
fn verdict(order: &[u8], fail: u8, r: Result<(), BoxedError>) {
    let mut n = 0;
    let mut err = 0;
    for k in order { n += (err == 0) as usize; err = sel((err == 0) & (fail >> *k & 1 == 1), *k, err); }
    check!(events() == n, "steps that were taken");
    let mut i = 0;
    while i < events() && i < order.len() { check!(event(i) == order[i], "order of the steps"); i += 1; }
    let got = match &r { Ok(()) => 0, Err(e) => { check!(no(e) != 0, "error of another type"); no(e) } };
    crate::common::observe(got as u64);
    check!(got == err, "which failure is reported");
}
fn plans(t: &mut Tape, most: u8) -> u8 { let mut f = 0; let mut k = 1; while k <= 5 { let (_, x) = tape_plan(t, k, if k == 4 { 0 } else { most }); f |= (x as u8) << k; k += 1; } f }

#[derive(FromRequest)]
enum A {
    #[get("/g/{x}")] Other { g: G3 , x: Text },
    #[post("/g/{x}")] V { two: G2, #[body] body: Bo, one: G1, x: Text, now: Now, three: G3 },
}
harness!(guards_a, 10, warm_a(), |t| {
    let f = plans(t, 1);
    let r = drive(A::from_request_and_body(&req(), Body::empty(), NoContext));
    cover!(r.is_ok(), "a:ok");
    cover!((f == 1 << 5), "a:body fails");
    cover!((f == 0b1000), "a:last guard fails");
    verdict(&[2, 1, 4, 3, 5], f, r.map(|x| match x {
        A::V { two, body, one, x, now, three } => { check!((two.0 == 2) & (body.0 == 5) & (one.0 == 1) & (now.0 == 4) & (three.0 == 3), "fields"); check!(&*x == b"ab", "captured text"); }
        _ => check!(false, "variant"),
    }));
});
fn warm_a() { let _ = drive(A::from_request_and_body(&fixed(http::Method::GET, "/x/y"), Body::empty(), NoContext)); }

// in front of #[forward], in a generic wrapper without a route
#[derive(FromRequest)]
struct W<T> { one: G1, #[forward] inner: T, two: G2 }
harness!(guards_w, 10, {}, |t| {
    let f = plans(t, 2);
    let r = drive(W::<Fw>::from_request_and_body(&req(), Body::empty(), NoContext));
    cover!(r.is_ok(), "w:ok");
    cover!((f == 1 << 5), "w:inner fails");
    verdict(&[1, 2, 5], f, r.map(|x| check!((x.one.0 == 1) & (x.two.0 == 2) & (x.inner.0 == 5), "fields")));
});
// with a route: only on that route
#[derive(FromRequest)]
enum R {
    #[post("/g/{x}")] V { one: G1, x: Text, now: Now, #[forward] inner: Fw },
    #[post("/h/{x}")] H { three: G3, x: Text },
    #[get("/g/{x}")] J { two: G2, x: Text },
}
harness!(guards_r, 10, warm_r(), |t| {
    let f = plans(t, 1);
    let r = drive(R::from_request_and_body(&req(), Body::empty(), NoContext));
    verdict(&[1, 4, 5], f, r.map(|x| match x { R::V { one, x, now, inner } => check!((one.0 == 1) & (now.0 == 4) & (inner.0 == 5) & (&*x == b"ab"), "fields"), _ => check!(false, "variant") }));
});
fn warm_r() { let _ = drive(R::from_request_and_body(&fixed(http::Method::GET, "/x/y"), Body::empty(), NoContext)); }

// no guard runs and no body is read for a request that is refused by its path, method, captured text or query
#[derive(FromRequest)]
enum N {
    #[get("/a/{x}")] V { x: Dig, one: G1, #[body] body: Bo },
    #[post("/a/{x}")] W { two: G2, #[forward] inner: Fw, x: Alp },
    #[put("/b")] Q { one: G1, #[query_params] q: Digits, #[body] body: Bo },
}
#[derive(serde::Deserialize)]
struct Digits { n: u8 }
static ANY: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
harness!(guards_n, 16, warm::<N>("/x"), |t| {
    // (the guards accept this request only if it is the one of the other harnesses, so use a route that no guard sees)
    let rq = env::request(t, 5);
    let e = crate::spec::expect(NT, &rq.path, rq.method);
    assume!((e.v == 0) | e.bad);
    match decode::<N>(&rq.req) { Ok(_) => check!(false, "accepted"), Err(f) => refused(e, f) }
    check!(events() == 0, "a guard or body is asked although the request is refused");
    cover!(e.bad, "n:bad text");
    cover!(e.allowed != 0, "n:wrong method");
});
use crate::spec::{Class, Rt, Seg};
const NT: &[Rt] = &[Rt(G, 1, &[Seg::L("a"), Seg::T(Class::Digits)]), Rt(P, 2, &[Seg::L("a"), Seg::T(Class::Alpha)]), Rt(U, 3, &[Seg::L("b")])];
harness!(guards_q, 16, warm::<N>("/x"), |t| {
    let n = t.pick(4) as usize;
    let mut q = [0u8; 3];
    let mut i = 0;
    while i < n { q[i] = t.u8(); assume!(query_byte(q[i])); i += 1; }
    // never `n=<number>`, so never accepted
    assume!(!((n == 3) & (q[0] == b'n') & (q[1] == b'=')));
    let path = crate::spec::Path::new({ let mut b = [0; crate::spec::N]; b[0] = b'/'; b[1] = b'b'; b }, 2);
    let rq = build(PUT, path, Some(&q[..n]));
    match decode::<N>(&rq.req) { Ok(_) => check!(false, "accepted"), Err(f) => { check!((f.status == 400) & f.source, "status for a bad query"); } }
    check!(events() == 0, "a guard or body is asked although the query is refused");
    cover!(n == 3, "q:3");
});
