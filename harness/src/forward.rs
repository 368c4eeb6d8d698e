//! #[forward], with a route and as the fallback.
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Class::{Alpha, Digits}, Exp, Rt, Seg::{self, L, P as S, R, T as Ty, TR}};
use hyperdrive::{http::{self, Request}, hyper::Body, BoxedError, FromRequest, Guard, NoContext};
use std::sync::Arc;

// routes inside and outside; some paths are known to both
#[derive(FromRequest)]
enum In { #[get("/a")] A, #[post("/b/{x}")] B { x: Dig }, #[patch("/c")] C, #[put("/o")] #[delete("/c")] O }
const INNER: &[Rt] = &[Rt(G, 11, &[L("a")]), Rt(P, 12, &[L("b"), Ty(Digits)]), Rt(A, 13, &[L("c")]), Rt(U, 14, &[L("o")]), Rt(D, 14, &[L("c")])];
fn inner(x: &In) -> u8 { match x { In::A => 11, In::B { .. } => 12, In::C => 13, In::O => 14 } }
#[derive(FromRequest)]
enum Fa {
    #[post("/a")] P1,
    #[get("/b/{x}")] P2 { x: Alp },
    #[get("/o")] P3,
    F { #[forward] inner: In },
    #[trace("/b/{x}")] P4 { x: Dig },
}
const FA: &[Rt] = &[Rt(P, 1, &[L("a")]), Rt(G, 2, &[L("b"), Ty(Alpha)]), Rt(G, 3, &[L("o")]), Rt(T, 4, &[L("b"), Ty(Digits)])];
#[derive(FromRequest)]
enum Fb {
    F { #[forward] inner: In },
    #[trace("/b/{x}")] P4 { x: Dig },
    #[get("/o")] P3,
    #[get("/b/{x}")] P2 { x: Alp },
    #[post("/a")] P1,
}
/// Outer route, or else the inner type's; a path of both answers a wrong method with the methods of both.
fn compose(rq: &Rq, o: Exp, i: Exp, r: Result<u8, Fail>) {
    let own = o.v != 0;
    match r {
        Ok(v) => {
            crate::common::observe(v as u64);
            check!(!own | (!o.bad & (v == o.v)), "a route of its own takes precedence");
            check!(own | (!i.bad & (v == i.v) & (v != 0)), "the request falls back to the inner type");
        }
        Err(f) => {
            crate::common::observe(f.status as u64);
            check!(!own | o.bad, "refused although a route is declared for it");
            check!(!o.bad | ((f.status == 404) & f.source), "text of the wrong type is not found, and does not fall back");
            check!(own | (i.v == 0) | i.bad, "refused although the inner type takes it");
            let fell = !own;
            // refused by the inner type
            check!(!(fell & i.bad) | ((f.status == 404) & f.source), "error of the inner type");
            let wrong = fell & (i.v == 0) & i.known & (i.allowed != 0);
            check!(!(fell & !o.known & (i.v == 0) & !i.known) | ((f.status == 404) & !f.source), "neither knows the path");
            check!(!wrong | (f.status == 405), "wrong method for the inner type");
            if let Some(m) = f.allowed {
                let m = m & !(1 << 14); // the two may name one method twice
                check!(!(wrong & !o.known) | (m == i.allowed), "methods of the inner type");
                check!(!(wrong & o.known) | (m == i.allowed | o.allowed), "methods of both");
            }
            check!((f.status == 405) == f.allowed.is_some(), "there is a list of allowed methods exactly if the status is 405");
        }
    }
}
fn fa(x: &Fa) -> u8 { match x { Fa::P1 => 1, Fa::P2 { .. } => 2, Fa::P3 => 3, Fa::P4 { .. } => 4, Fa::F { inner: i } => inner(i) } }
fn fb(x: &Fb) -> u8 { match x { Fb::P1 => 1, Fb::P2 { .. } => 2, Fb::P3 => 3, Fb::P4 { .. } => 4, Fb::F { inner: i } => inner(i) } }
harness!(forward_a, 12, warm2::<Fa>(), |t| {
    let rq = env::request(t, 6);
    let (o, i) = (expect(FA, &rq.path, rq.method), expect(INNER, &rq.path, rq.method));
    let r = decode::<Fa>(&rq.req).map(|x| fa(&x));
    cover!(r == Ok(11), "a:falls back from a known path");
    cover!(r == Ok(13), "a:falls back");
    cover!(r == Ok(2), "a:own");
    if let Err(f) = r {
        cover!(f.allowed == Some(P | G), "a:both");
        cover!((f.allowed == Some(U | G)), "a:both o");
        cover!((f.allowed == Some(A | D)), "a:inner");
        cover!((f.allowed == Some(P | T)), "a:both, by type");
        cover!(o.bad, "a:own bad");
        cover!(i.bad & (o.v == 0), "a:inner bad");
    }
    compose(&rq, o, i, r);
});
fn warm2<X: FromRequest<Context = NoContext>>() { warm::<X>("/zz"); let _ = decode::<X>(&fixed(http::Method::DELETE, "/a")); let _ = decode::<X>(&fixed(http::Method::GET, "/b/x")); }
harness!(forward_b, 12, warm2::<Fb>(), |t| {
    let rq = env::request(t, 5);
    let (o, i) = (expect(FA, &rq.path, rq.method), expect(INNER, &rq.path, rq.method));
    let r = decode::<Fb>(&rq.req).map(|x| fb(&x));
    cover!(r == Ok(11), "b:falls back from a known path");
    cover!(r == Ok(13), "b:falls back");
    cover!(r == Ok(2), "b:own");
    compose(&rq, o, i, r);
});

// what the inner type gets to see, and what becomes of its answer
const MARK: u8 = 0x33;
struct Probe(u8, Vec<u8>, bool);
impl FromRequest for Probe {
    type Context = NoContext;
    type Future = hyperdrive::DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, b: Body, _: NoContext) -> Self::Future {
        use futures::{Future, Stream};
        let ok = match r.extensions().get::<Mark>() { Some(m) => m.0 == MARK, None => false } & r.headers().contains_key("x-mark") & (r.version() == http::Version::HTTP_10);
        let code = code(r.method());
        Box::new(b.concat2().map_err(|e| e.into()).and_then(move |b| step(1, Probe(code, b.to_vec(), ok))))
    }
}
fn code(m: &http::Method) -> u8 { let mut k = 0; while k < 10 { if *m == method(k) { return k; } k += 1; } 10 }
#[derive(FromRequest)]
enum Fp { #[get("/a")] P1, #[post("/b/{x}")] P2 { x: Text, #[forward] p: Probe }, F { #[forward] p: Probe } }
harness!(forward_p, 16, { warm::<Fp>("/zz"); reset() }, |t| {
    // anything but `/a` by GET reaches the inner type, with the body
    let m = t.pick(10);
    let path = env::path(t, 4);
    let (pend, fail) = tape_plan(t, 1, 2);
    let n = t.pick(3) as usize;
    let body = [t.u8(), t.u8()];
    let pause = [t.below(2), t.below(2), t.below(2)];
    let r = Arc::new(marked(method(m), uri(false, &path.b[..path.n], if path.n > 1 { Some(b"q") } else { None }), MARK));
    let r = drive(Fp::from_request_and_body(&r, pieces(&body[..n], n / 2, &pause, false), NoContext));
    let own = path.matches(&[L("a")]) & ((m == GET) | (m == HEAD));
    let two = path.matches(&[L("b"), S]) & (m == POST);
    match r {
        Ok(Fp::P1) => { check!(own, "variant"); check!(events() == 0, "asks the inner type"); cover!(true, "p:own"); }
        Ok(Fp::P2 { x, p }) => { check!(two & !own, "variant"); check!(path.cap(1, &x), "captured text"); probe(&p, m, &body[..n]); cover!(n == 2, "p:route"); }
        Ok(Fp::F { p }) => { check!(!two & !own, "variant"); probe(&p, m, &body[..n]); cover!(path.matches(&[L("a")]), "p:known path"); cover!(path.star(), "p:star"); }
        Err(e) => { check!(!own & fail, "refused without a reason"); check!(no(&e) == 1, "error of the inner type"); cover!(path.matches(&[L("b"), S]) & (m == PUT), "p:fails"); }
    }
    check!(own | (events() == 1), "the inner type is asked once");
});
fn probe(p: &Probe, m: u8, body: &[u8]) {
    check!(p.2, "headers, version or extensions of the request");
    check!(p.0 == m, "method of the request");
    let mut ok = p.1.len() == body.len();
    let mut i = 0;
    while ok && i < body.len() { check!(p.1[i] == body[i], "byte of the body"); i += 1; }
    check!(ok, "length of the body");
}

// errors of an inner type that are not 405 pass as they are, 405 gets the methods of the path added
struct Fails;
static STATUS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(404);
impl FromRequest for Fails {
    type Context = NoContext;
    type Future = hyperdrive::DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future {
        use futures::IntoFuture;
        static D1: http::Method = http::Method::DELETE;
        let s = STATUS.load(std::sync::atomic::Ordering::SeqCst) as u16;
        if s == 405 { return hyperdrive::Error::wrong_method(vec![&D1]).into_future(); }
        if s == 1 { return Box::new(Err(BoxedError::from(No(7))).into_future()); }
        hyperdrive::Error::with_source(http::StatusCode::from_u16(s).unwrap(), No(8)).into_future()
    }
}
#[derive(FromRequest)]
enum Ff { #[get("/a")] P1, #[post("/a")] P2, #[put("/b/{x}")] P3 { x: Dig }, #[put("/c/{x}")] P4 { x: Text, #[forward] f: Fails }, F { #[forward] f: Fails } }
const FF: &[Rt] = &[Rt(G, 1, &[L("a")]), Rt(P, 2, &[L("a")]), Rt(U, 3, &[L("b"), Ty(Digits)]), Rt(U, 4, &[L("c"), S])];
harness!(forward_f, 16, warm::<Ff>("/zz"), |t| {
    let rq = env::request(t, 4);
    let hi = t.below(200);
    let s = 400 + hi as u16;
    let foreign = t.bool();
    STATUS.store(if foreign { 1 } else { s as u32 }, std::sync::atomic::Ordering::SeqCst);
    let o = expect(FF, &rq.path, rq.method);
    let asks = (o.v == 0) | (o.v == 4);
    match now(Ff::from_request_and_body(&rq.req, Body::empty(), NoContext)) {
        Ok(_) => check!(!asks & !o.bad, "accepted although the inner type fails"),
        Err(e) => {
            check!(asks | o.bad, "refused without a reason");
            if o.bad { return; }
            let f = fail(&e);
            if foreign { check!(no(&e) == 7, "error of the inner type"); cover!(o.known, "f:foreign"); return; }
            check!(f.status == s, "status of the inner type");
            check!((s == 405) | f.source, "cause given by the inner type");
            if let Some(m) = f.allowed {
                check!(s == 405, "list of allowed methods without 405");
                check!((m == o.allowed | D) | ((o.v == 4) & (m == D)), "methods of both");
                cover!(o.known & (o.v == 0) & (m == U | D), "f:added");
                cover!(o.v == 4, "f:route");
            } else { check!(s != 405, "no list of allowed methods"); }
        }
    }
});
