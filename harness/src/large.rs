//! Large declarations and large requests.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Rt, Seg::{self, L, P as S, R}};
use futures::{Async, Future, Stream};
use hyperdrive::{body::{HtmlForm, Json}, http::{self, Request}, hyper::Body, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext};
use std::sync::Arc;

// some fifty paths
#[derive(FromRequest)]
enum Many {
    #[get("/aa")] W1,
    #[get("/ab")] W2,
    #[get("/ac")] W3,
    #[get("/ad")] W4,
    #[get("/ae")] W5,
    #[put("/p/{x}/a")] W6 { x: Text },
    #[get("/ag")] W7,
    #[get("/ah")] W8,
    #[post("/az")] #[get("/az/")] W9,
    #[get("/aj")] W10,
    #[get("/ak")] W11,
    #[get("/ba")] W12,
    #[get("/bb")] W13,
    #[get("/bc")] W14,
    #[get("/bd")] W15,
    #[get("/be")] W16,
    #[put("/p/{x}/b")] W17 { x: Text },
    #[get("/bg")] W18,
    #[get("/bh")] W19,
    #[post("/bz")] #[get("/bz/")] W20,
    #[get("/bj")] W21,
    #[get("/bk")] W22,
    #[get("/ca")] W23,
    #[get("/cb")] W24,
    #[get("/cc")] W25,
    #[get("/cd")] W26,
    #[get("/ce")] W27,
    #[put("/p/{x}/c")] W28 { x: Text },
    #[get("/cg")] W29,
    #[get("/ch")] W30,
    #[post("/cz")] #[get("/cz/")] W31,
    #[get("/cj")] W32,
    #[get("/ck")] W33,
    #[get("/da")] W34,
    #[get("/db")] W35,
    #[get("/dc")] W36,
    #[get("/dd")] W37,
    #[get("/de")] W38,
    #[put("/p/{x}/d")] W39 { x: Text },
    #[get("/dg")] W40,
    #[get("/dh")] W41,
    #[post("/dz")] #[get("/dz/")] W42,
    #[get("/dj")] W43,
    #[get("/dk")] W44,
}
const MANY: &[Rt] = &[
    Rt(G, 1, &[L("aa")]), Rt(G, 2, &[L("ab")]), Rt(G, 3, &[L("ac")]), Rt(G, 4, &[L("ad")]), Rt(G, 5, &[L("ae")]), Rt(U, 6, &[L("p"), S, L("a")]),
    Rt(G, 7, &[L("ag")]), Rt(G, 8, &[L("ah")]), Rt(P, 9, &[L("az")]), Rt(G, 9, &[L("az"), L("")]), Rt(G, 10, &[L("aj")]), Rt(G, 11, &[L("ak")]), Rt(G, 12, &[L("ba")]),
    Rt(G, 13, &[L("bb")]), Rt(G, 14, &[L("bc")]), Rt(G, 15, &[L("bd")]), Rt(G, 16, &[L("be")]), Rt(U, 17, &[L("p"), S, L("b")]), Rt(G, 18, &[L("bg")]),
    Rt(G, 19, &[L("bh")]), Rt(P, 20, &[L("bz")]), Rt(G, 20, &[L("bz"), L("")]), Rt(G, 21, &[L("bj")]), Rt(G, 22, &[L("bk")]), Rt(G, 23, &[L("ca")]), Rt(G, 24, &[L("cb")]),
    Rt(G, 25, &[L("cc")]), Rt(G, 26, &[L("cd")]), Rt(G, 27, &[L("ce")]), Rt(U, 28, &[L("p"), S, L("c")]), Rt(G, 29, &[L("cg")]), Rt(G, 30, &[L("ch")]),
    Rt(P, 31, &[L("cz")]), Rt(G, 31, &[L("cz"), L("")]), Rt(G, 32, &[L("cj")]), Rt(G, 33, &[L("ck")]), Rt(G, 34, &[L("da")]), Rt(G, 35, &[L("db")]), Rt(G, 36, &[L("dc")]),
    Rt(G, 37, &[L("dd")]), Rt(G, 38, &[L("de")]), Rt(U, 39, &[L("p"), S, L("d")]), Rt(G, 40, &[L("dg")]), Rt(G, 41, &[L("dh")]), Rt(P, 42, &[L("dz")]), Rt(G, 42, &[L("dz"), L("")]),
    Rt(G, 43, &[L("dj")]), Rt(G, 44, &[L("dk")]),
];
fn many(x: &Many) -> u8 { match x { Many::W1 => 1, Many::W2 => 2, Many::W3 => 3, Many::W4 => 4, Many::W5 => 5, Many::W6 { .. } => 6, Many::W7 => 7, Many::W8 => 8, Many::W9 => 9, Many::W10 => 10, Many::W11 => 11, Many::W12 => 12, Many::W13 => 13, Many::W14 => 14, Many::W15 => 15, Many::W16 => 16, Many::W17 { .. } => 17, Many::W18 => 18, Many::W19 => 19, Many::W20 => 20, Many::W21 => 21, Many::W22 => 22, Many::W23 => 23, Many::W24 => 24, Many::W25 => 25, Many::W26 => 26, Many::W27 => 27, Many::W28 { .. } => 28, Many::W29 => 29, Many::W30 => 30, Many::W31 => 31, Many::W32 => 32, Many::W33 => 33, Many::W34 => 34, Many::W35 => 35, Many::W36 => 36, Many::W37 => 37, Many::W38 => 38, Many::W39 { .. } => 39, Many::W40 => 40, Many::W41 => 41, Many::W42 => 42, Many::W43 => 43, Many::W44 => 44 } }
harness!(large_r, 12, warm::<Many>("/aa"), |t| {
    let m = [GET, PUT, POST, DELETE][t.pick(4) as usize];
    let rq = build(m, env::path(t, 6), None);
    let x = judge::<Many>(&rq, expect(MANY, &rq.path, rq.method), many);
    cover!(match x { Some(Many::W1) => true, _ => false }, "r:1");
    cover!(match x { Some(Many::W33) => true, _ => false }, "r:33");
    cover!(match x { Some(Many::W44) => true, _ => false }, "r:44");
    cover!(match x { Some(Many::W39 { .. }) => true, _ => false }, "r:39");
    cover!(x.is_none(), "r:refused");
});

// twelve placeholders, in another order than the fields
#[derive(FromRequest)]
enum Twelve {
    #[get("/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}/{j}/{k}/{l}")]
    V { l: Text, b: Text, h: Text, a: Text, d: Text, k: Dig, g: Text, c: Dig, j: Text, f: Text, i: Text, e: Text },
    #[post("/{l}/{k}/{j}/{i}/{h}/{g}/{f}/{e}/{d}/{c}/{b}/{a}")]
    W { c: Text, d: Text, j: Text, k: Text, a: Text, b: Text, f: Text, l: Text, g: Text, h: Text, i: Text, e: Text },
}
harness!(large_c, 14, warm::<Twelve>("/1/2/3/4/5/6/7/8/9/1/2/3"), |t| {
    let post = t.pick(2) == 1;
    let mut b = [0u8; 24];
    for i in 0..12 { b[2 * i] = b'/'; b[2 * i + 1] = t.u8(); assume!(path_byte(b[2 * i + 1]) & (b[2 * i + 1] != b'/')); }
    let mut req = Request::new(());
    *req.method_mut() = method(if post { POST } else { GET });
    *req.uri_mut() = uri(false, &b, None);
    let at = |i: usize| b[2 * i + 1];
    let one = |x: &[u8], i: usize| (x.len() == 1) && (x[0] == at(i));
    let dig = |i: usize| at(i).wrapping_sub(b'0') < 10;
    match decode::<Twelve>(&Arc::new(req)) {
        Ok(Twelve::V { a, b, c, d, e, f, g, h, i, j, k, l }) => {
            check!(!post & dig(2) & dig(10), "accepted");
            check!(one(&a, 0) & one(&b, 1) & one(&c, 2) & one(&d, 3) & one(&e, 4) & one(&f, 5), "captured texts");
            check!(one(&g, 6) & one(&h, 7) & one(&i, 8) & one(&j, 9) & one(&k, 10) & one(&l, 11), "captured texts");
            cover!(true, "c:v");
        }
        Ok(Twelve::W { a, b, c, d, e, f, g, h, i, j, k, l }) => {
            check!(post, "accepted");
            check!(one(&l, 0) & one(&k, 1) & one(&j, 2) & one(&i, 3) & one(&h, 4) & one(&g, 5), "captured texts");
            check!(one(&f, 6) & one(&e, 7) & one(&d, 8) & one(&c, 9) & one(&b, 10) & one(&a, 11), "captured texts");
            cover!(true, "c:w");
        }
        Err(e) => { check!(!post & !(dig(2) & dig(10)) & (e.status == 404) & e.source, "refused"); cover!(dig(2), "c:bad"); }
    }
});

// long paths
#[derive(FromRequest)]
enum Long { #[get("/l/{x}/m/{y...}")] V { y: Text, x: Text }, #[put("/l/{x}/m")] W { x: Text } }
fn any(t: &mut Tape, n: usize, slash: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { let b = t.u8(); assume!(path_byte(b) & (slash | (b != b'/'))); v.push(b); }
    v
}
/// long, and any bytes at both ends
fn ends(t: &mut Tape, n: usize, slash: bool) -> Vec<u8> { let mut v = any(t, 2, slash); for _ in 4..n { v.push(b'a'); } v.extend_from_slice(&any(t, 2, slash)); v }
harness!(large_p, 12, warm::<Long>("/l/1/m/2"), |t| {
    let rest = t.pick(2) == 1;
    let x = ends(t, 80, false);
    let y = if rest { ends(t, 200, true) } else { Vec::new() };
    let mut p = b"/l/".to_vec();
    p.extend_from_slice(&x);
    p.extend_from_slice(b"/m");
    if rest { p.push(b'/'); p.extend_from_slice(&y); }
    let mut req = Request::new(());
    *req.method_mut() = method(if rest { GET } else { PUT });
    *req.uri_mut() = uri(false, &p, None);
    match decode::<Long>(&Arc::new(req)) {
        Ok(Long::V { x: a, y: b }) => { check!(rest, "variant"); check!((*a == x[..]) & (*b == y[..]), "captured texts"); cover!(true, "p:v"); }
        Ok(Long::W { x: a }) => { check!(!rest, "variant"); check!(*a == x[..], "captured text"); cover!(true, "p:w"); }
        Err(_) => check!(false, "refused although a route is declared for it"),
    }
});

// long queries
type Pairs = Vec<(String, String)>;
#[derive(FromRequest)] #[get("/q")] struct Q { #[query_params] q: Pairs }
#[derive(FromRequest)] #[get("/q")] struct O { #[query_params] q: Option<Pairs> }
fn letters(t: &mut Tape, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { let b = t.u8(); assume!(b.wrapping_sub(b'a') < 26); v.push(b); } v }
harness!(large_q, 124, { warm::<Q>("/x"); warm::<O>("/x") }, |t| {
    let v = letters(t, 60);
    let w = letters(t, 60);
    let opt = t.pick(2) == 1;
    let mut q = b"k=".to_vec();
    q.extend_from_slice(&v);
    for _ in 0..6 { q.extend_from_slice(b"&x=1"); }
    q.push(b'&');
    q.extend_from_slice(&w);
    q.extend_from_slice(b"=%21?/&z");
    let mut req = Request::new(());
    *req.uri_mut() = uri(false, b"/q", Some(&q));
    let r = Arc::new(req);
    let got = if opt { decode::<O>(&r).map(|x| x.q) } else { decode::<Q>(&r).map(|x| Some(x.q)) };
    match got {
        Ok(Some(l)) => {
            check!(l.len() == 9, "number of pairs");
            check!((l[0].0 == "k") & (l[0].1.as_bytes() == &v[..]), "pair");
            for i in 1..7 { check!((l[i].0 == "x") & (l[i].1 == "1"), "pair"); }
            check!((l[7].0.as_bytes() == &w[..]) & (l[7].1 == "!?/"), "pair");
            check!((l[8].0 == "z") & (l[8].1 == ""), "pair");
            cover!(opt, "q:optional");
        }
        _ => check!(false, "a query that can be deserialized is refused"),
    }
});

// long bodies of many pieces
harness!(large_b, 108, {}, |t| {
    let v = letters(t, 100);
    let pause = [t.below(2), t.below(2)];
    let json = t.pick(2) == 1;
    let fail = t.bool();
    let mut p: Vec<Vec<u8>> = Vec::new();
    p.push(if json { b"[\"".to_vec() } else { b"a=".to_vec() });
    for c in v.chunks(10) { p.push(c.to_vec()); if c[0] == 0 { p.push(Vec::new()); } }
    for _ in 0..10 { p.push(vec![b'x'; 1000]); }
    p.push(if json { b"\"]".to_vec() } else { b"&b=1".to_vec() });
    let b = Body::wrap_stream(Pieces { pieces: p, at: 0, left: pause.to_vec(), fail });
    let req = Arc::new(Request::new(()));
    let want = |s: &str| { let s = s.as_bytes(); let mut ok = (s.len() == 10100) && (&s[..100] == &v[..]); if ok { ok = (s[100] == b'x') & (s[5000] == b'x') & (s[10099] == b'x'); } ok };
    let r: Result<(), BoxedError> = if json {
        drive(Json::<Vec<String>>::from_body(&req, b, &NoContext)).map(|x| { check!(x.0.len() == 1 && want(&x.0[0]), "value"); })
    } else {
        drive(HtmlForm::<Pairs>::from_body(&req, b, &NoContext)).map(|x| { check!(x.0.len() == 2 && x.0[0].0 == "a" && want(&x.0[0].1) && x.0[1].0 == "b" && x.0[1].1 == "1", "value"); })
    };
    check!(r.is_err() == fail, "refused without a reason, or not");
    cover!(json & r.is_ok(), "b:json");
    cover!(!json & r.is_ok(), "b:form");
});

// many guards, each pending several times
macro_rules! guards { ($($n:ident $k:expr),*) => { $(
    struct $n(u8);
    impl Guard for $n { type Context = NoContext; type Result = Step<Self>; fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Step<Self> { step($k, $n($k)) } }
)* } }
guards!(G1 1, G2 2, G3 3, G4 4, G5 5, G6 6, G7 7, G8 8, G9 9, G10 10);
struct Bo(u8);
impl FromBody for Bo { type Context = NoContext; type Result = Step<Self>; fn from_body(_: &Arc<Request<()>>, _: Body, _: &NoContext) -> Step<Self> { step(11, Bo(11)) } }
#[derive(FromRequest)]
enum Gs { #[post("/g")] V { z: G1, y: G2, x: G3, w: G4, v: G5, #[body] b: Bo, a: G6, c: G7, d: G8, e: G9, f: G10 } }
harness!(large_g, 24, warm::<Gs>("/z"), |t| {
    let mut fail = 0u16;
    let mut k = 1;
    while k <= 11 { let f = t.bool(); plan(k, if k == 1 { t.below(2) } else if k == 7 { t.below(6) } else { 0 }, f); fail |= (f as u16) << k; k += 1; }
    reset();
    let r = drive(Gs::from_request_and_body(&fixed(http::Method::POST, "/g"), Body::empty(), NoContext));
    let mut first = 0;
    let mut k = 11;
    while k >= 1 { if fail >> k & 1 == 1 { first = k; } k -= 1; }
    let n = if first == 0 { 11 } else { first };
    check!(events() == n, "steps that were taken");
    let mut i = 0;
    while i < n { check!(event(i) == i as u8 + 1, "order of the steps"); i += 1; }
    match r {
        Ok(Gs::V { z, y, x, w, v, b, a, c, d, e, f }) => {
            check!(first == 0, "a failure disappears");
            check!((z.0 == 1) & (y.0 == 2) & (x.0 == 3) & (w.0 == 4) & (v.0 == 5) & (b.0 == 11) & (a.0 == 6) & (c.0 == 7) & (d.0 == 8) & (e.0 == 9) & (f.0 == 10), "fields");
            cover!(true, "g:ok");
        }
        Err(e) => { check!(no(&e) as usize == first, "which failure is reported"); cover!(first == 10, "g:tenth"); cover!(first == 11, "g:body"); }
    }
});

// many headers, and a body of many pieces, for a whole request
struct Whole { r: Arc<Request<()>>, n: usize }
impl FromRequest for Whole {
    type Context = NoContext;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, b: Body, _: NoContext) -> Self::Future {
        let r = r.clone();
        Box::new(b.fold(0, |n, c| Ok::<_, hyperdrive::hyper::Error>(n + c.len())).map_err(|e| e.into()).and_then(move |n| step(1, Whole { r, n })))
    }
}
#[derive(FromRequest)] struct Outer { #[forward] w: Whole }
harness!(large_h, 40, {}, |t| {
    const NAMES: [&str; 20] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"];
    let mut v = [0u8; 20];
    for x in v.iter_mut() { *x = t.u8(); assume!(x.wrapping_sub(0x21) < 0x5e); }
    let k = t.pick(3) as usize * 20;
    let sync = t.pick(2) == 1;
    let pend = t.below(8);
    plan(1, pend, false);
    let mut p: Vec<Vec<u8>> = Vec::new();
    for i in 0..k { p.push(vec![i as u8; 100]); }
    let mut r = Request::new(Body::wrap_stream(Pieces { pieces: p, at: 0, left: Vec::new(), fail: false }));
    for i in 0..20 { r.headers_mut().insert(NAMES[i], http::header::HeaderValue::from_bytes(&v[i..i + 1]).unwrap()); }
    *r.uri_mut() = http::Uri::from_static("/x");
    let w = if sync { Outer::from_request_sync(r, NoContext) } else { drive(Outer::from_request(r, NoContext)) };
    match w {
        Ok(Outer { w }) => {
            check!(w.n == k * 100, "body");
            check!(w.r.headers().len() == 20, "headers");
            for i in 0..20 { check!(w.r.headers().get(NAMES[i]).map_or(false, |x| x.as_bytes() == &v[i..i + 1]), "header"); }
            cover!(sync, "h:sync");
            cover!(!sync, "h:async");
        }
        Err(_) => check!(false, "refused"),
    }
});

// many connections at a time
harness!(large_m, 8, {}, |t| {
    use hyperdrive::{hyper::service::{MakeService, Service}, service::{AsyncService, ServiceExt, SyncService}};
    let kind = t.pick(4);
    let v = t.u8();
    let at = [0usize, 1, 63, 64, 128, 255, 256, 299][t.pick(8) as usize];
    let answer = move |r: Arc<Request<()>>| { let mut x = http::Response::new(Body::from(vec![v])); *x.status_mut() = http::StatusCode::ACCEPTED; x };
    fn all<M: MakeService<u32>>(m: &mut M) -> Vec<M::Service> { let mut l = Vec::new(); for i in 0..300 { match crate::env::now(m.make_service(i)) { Ok(s) => l.push(s), Err(_) => crate::common::violated("no service is made") } } l }
    fn call<S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError>>(l: &mut Vec<S>, at: usize) -> Result<http::Response<Body>, BoxedError> where S::Future: Send + 'static {
        let mut r = Request::new(Body::empty());
        *r.uri_mut() = http::Uri::from_static("/m");
        let f = l[at].call(r);
        #[cfg(hv_sym)] let r = drive(f);
        #[cfg(not(hv_sym))] let r = crate::script::pool(false, f);
        r
    }
    #[cfg(hv_sym)] unsafe { tokio_threadpool::HV_PENDING = 0; tokio_threadpool::HV_PEND = Some(not_ready); }
    let asy = || AsyncService::new(move |_: Lm, r| futures::future::ok::<_, BoxedError>(answer(r)));
    let r = match kind {
        0 => call(&mut all(&mut asy()), at),
        1 => call(&mut all(&mut SyncService::new(move |_: Lm, r| answer(r))), at),
        2 => call(&mut all(&mut asy().make_service_by_cloning()), at),
        _ => call(&mut all(&mut asy().catch_unwind(|_| Err::<http::Response<Body>, BoxedError>(No(1).into())).make_service_by_cloning()), at),
    };
    match r {
        Ok(r) => { check!(r.status().as_u16() == 202, "status"); match drive(r.into_body().concat2()) { Ok(b) => check!(b.len() == 1 && b[0] == v, "body of the response"), Err(_) => check!(false, "body of the response") } cover!((at == 299) & (kind == 3), "m:last"); }
        Err(_) => check!(false, "the service fails without a reason"),
    }
});
#[derive(FromRequest)] #[get("/m")] struct Lm;
