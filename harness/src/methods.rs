//! Requests refused for their path or method, and HEAD.
use std::sync::Arc;
use crate::env::{self, *};
use crate::spec::{expect, Class::{Alpha, Digits}, Rt, Seg::{self, L, P as S, R, T as Ty, TR}};
use hyperdrive::{http, FromRequest};

// every method; one path shared by variants, differently typed; one with a single method
#[derive(FromRequest)]
enum Ma {
    #[get("/a")] A1, #[post("/a")] A2, #[put("/a")] #[patch("/a")] A3,
    #[get("/t/{x}")] T1 { x: Dig }, #[post("/t/{y}")] T2 { y: Alp }, #[put("/t/{x}")] #[options("/t/{x}")] T3 { x: Text },
    #[connect("/o")] O1,
    #[delete("/t/{x}/")] T4 { x: Dig }, #[trace("/t/{x}/")] T5 { x: Alp },
    #[put("/r/{r...}")] R1 { r: Dig }, #[delete("/r/{r...}")] R2 { r: Text },
    #[patch("/w/{x}/{y}")] W1 { y: Dig, x: Dig }, #[post("/w/{x}/{y}")] W2 { x: Text, y: Alp },
}
const MA: &[Rt] = &[
    Rt(G, 1, &[L("a")]), Rt(P, 2, &[L("a")]), Rt(U | A, 3, &[L("a")]),
    Rt(G, 4, &[L("t"), Ty(Digits)]), Rt(P, 5, &[L("t"), Ty(Alpha)]), Rt(U | O, 6, &[L("t"), S]), Rt(C, 7, &[L("o")]),
    Rt(D, 8, &[L("t"), Ty(Digits), L("")]), Rt(T, 9, &[L("t"), Ty(Alpha), L("")]), Rt(U, 10, &[L("r"), TR(Digits)]), Rt(D, 11, &[L("r"), R]),
    Rt(A, 12, &[L("w"), Ty(Digits), Ty(Digits)]), Rt(P, 13, &[L("w"), S, Ty(Alpha)]),
];
fn a(x: &Ma) -> u8 { match x { Ma::A1 => 1, Ma::A2 => 2, Ma::A3 => 3, Ma::T1 { .. } => 4, Ma::T2 { .. } => 5, Ma::T3 { .. } => 6, Ma::O1 => 7, Ma::T4 { .. } => 8, Ma::T5 { .. } => 9, Ma::R1 { .. } => 10, Ma::R2 { .. } => 11, Ma::W1 { .. } => 12, Ma::W2 { .. } => 13 } }
harness!(methods_a, 16, warm::<Ma>("/t/1"), |t| {
    let rq = env::request(t, if cfg!(feature = "deep") { 11 } else { 8 });
    let e = expect(MA, &rq.path, rq.method);
    let x = judge::<Ma>(&rq, e, a);
    let no = x.is_none() & e.known & !e.bad;
    cover!(no & (e.allowed == G | P | U | A), "a:all of a");
    cover!(no & (e.allowed == G | U | O), "a:digits");
    cover!(no & (e.allowed == P | U | O), "a:letters");
    cover!(no & (e.allowed == U | O), "a:neither");
    cover!(no & (e.allowed == C), "a:single");
    cover!(no & (e.allowed == T), "a:one of two");
    cover!(no & (e.allowed == 0), "a:nothing");
    cover!(no & (e.allowed == U | D), "a:rest");
    cover!(!e.known & x.is_none(), "a:unknown path");
    cover!(no & (e.allowed == A), "a:two digits");
    cover!(no & (e.allowed == P) & (rq.path.segs == 3), "a:one of two typed");
    cover!(no & (rq.method == LOWER), "a:another method");
});

// methods on all of the paths of one variant; a struct
#[derive(FromRequest)]
#[get("/s/{x}")] #[post("/s/{x}")] #[put("/t/{x}")] #[delete("/{x}")]
struct Mb { x: Dig }
const MB: &[Rt] = &[Rt(G | P, 1, &[L("s"), Ty(Digits)]), Rt(U, 1, &[L("t"), Ty(Digits)]), Rt(D, 1, &[Ty(Digits)])];
harness!(methods_b, 16, warm::<Mb>("/s/1"), |t| {
    let rq = env::request(t, 6);
    let e = expect(MB, &rq.path, rq.method);
    let x = judge::<Mb>(&rq, e, |_| 1);
    cover!(x.is_none() & (e.allowed == G | P), "b:s");
    cover!(x.is_none() & (e.allowed == U), "b:t");
    cover!(x.is_none() & (e.allowed == D), "b:neither");
});

// HEAD
#[derive(FromRequest)]
enum Mh {
    #[get("/a")] V1, #[head("/a")] V2,
    #[head("/b")] V3, #[get("/b")] V4,
    #[head("/c")] V5, #[post("/c")] V6,
    #[get("/d/{x}")] V7 { x: Dig }, #[post("/d/{x}")] V8 { x: Text },
    #[head("/e/{y}")] V9 { y: Alp }, #[get("/e/{x}")] V10 { x: Dig },
    #[get("/f")] #[head("/f")] V11,
    #[get("/g/{r...}")] #[post("/h/{r...}")] V12 { r: Text },
    #[post("/i")] V13, #[get("/i")] V14,
    #[head("/j/{r...}")] V15 { r: Text },
    #[get("*")] V16,
    #[get("/k")] #[head("/l")] #[get("/m/n")] V17, #[head("/m/n")] V18,
}
const MH: &[Rt] = &[
    Rt(bit(GET), 1, &[L("a")]), Rt(bit(HEAD), 2, &[L("a")]), Rt(bit(HEAD), 3, &[L("b")]), Rt(bit(GET), 4, &[L("b")]),
    Rt(bit(HEAD), 5, &[L("c")]), Rt(P, 6, &[L("c")]), Rt(G, 7, &[L("d"), Ty(Digits)]), Rt(P, 8, &[L("d"), S]),
    Rt(bit(HEAD), 9, &[L("e"), Ty(Alpha)]), Rt(bit(GET), 10, &[L("e"), Ty(Digits)]), Rt(G, 11, &[L("f")]), Rt(G, 12, &[L("g"), R]), Rt(P, 12, &[L("h"), R]),
    Rt(P, 13, &[L("i")]), Rt(G, 14, &[L("i")]), Rt(bit(HEAD), 15, &[L("j"), R]), Rt(G, 16, &[]),
    Rt(G, 17, &[L("k")]), Rt(bit(HEAD), 17, &[L("l")]), Rt(bit(GET), 17, &[L("m"), L("n")]), Rt(bit(HEAD), 18, &[L("m"), L("n")]),
];
fn h(x: &Mh) -> u8 { match x { Mh::V1 => 1, Mh::V2 => 2, Mh::V3 => 3, Mh::V4 => 4, Mh::V5 => 5, Mh::V6 => 6, Mh::V7 { .. } => 7, Mh::V8 { .. } => 8, Mh::V9 { .. } => 9, Mh::V10 { .. } => 10, Mh::V11 => 11, Mh::V12 { .. } => 12, Mh::V13 => 13, Mh::V14 => 14, Mh::V15 { .. } => 15, Mh::V16 => 16, Mh::V17 => 17, Mh::V18 => 18 } }
harness!(methods_h, 16, warm::<Mh>("/d/1"), |t| {
    let rq = env::request(t, 7);
    let e = expect(MH, &rq.path, rq.method);
    let x = judge::<Mh>(&rq, e, h);
    let v = match &x { Some(x) => h(x), None => 0 };
    if rq.method == HEAD {
        cover!(v == 2, "h:declared after");
        cover!(v == 3, "h:declared before");
        cover!(v == 5, "h:only");
        cover!(v == 7, "h:implied");
        cover!(v == 9, "h:declared, another type");
        cover!(v == 11, "h:same variant");
        cover!(v == 12, "h:implied, rest");
        cover!(v == 15, "h:only, rest");
        cover!(v == 16, "h:star");
        cover!((v == 17) & (rq.path.b[1] == b'k'), "h:implied, next to another path's");
        cover!(v == 18, "h:declared, the rest of the variant's implied");
        cover!((v == 0) & (e.allowed == P), "h:refused");
    }
    cover!((rq.method == GET) & (v == 0) & (e.allowed == bit(HEAD)), "h:head does not imply get");
});
// HEAD asks for the same as GET: all that differs is the method
harness!(methods_i, 16, warm::<Ma>("/t/1"), |t| {
    let path = env::path(t, 8);
    let g = decode::<Ma>(&build(GET, path, None).req);
    let h = decode::<Ma>(&build(HEAD, path, None).req);
    match (g, h) {
        (Ok(g), Ok(h)) => {
            check!(a(&g) == a(&h), "variant for HEAD");
            if let (Ma::T1 { x }, Ma::T1 { x: y }) = (&g, &h) { check!(x.len() == y.len(), "captured for HEAD"); cover!(true, "i:typed"); }
            cover!(a(&g) == 1, "i:plain");
        }
        (Err(g), Err(h)) => { check!((g.status == h.status) & (g.allowed == h.allowed) & (g.source == h.source), "refusal of HEAD"); cover!(g.status == 405, "i:refused"); }
        _ => check!(false, "HEAD and GET are treated differently"),
    }
});
// GET routes that also take a body, a query, guards, or forward: HEAD is implied all the same
struct Gd;
impl hyperdrive::Guard for Gd { type Context = hyperdrive::NoContext; type Result = Result<Self, hyperdrive::BoxedError>; fn from_request(_: &Arc<hyperdrive::http::Request<()>>, _: &hyperdrive::NoContext) -> Self::Result { Ok(Gd) } }
struct Bd;
impl hyperdrive::FromBody for Bd { type Context = hyperdrive::NoContext; type Result = Result<Self, hyperdrive::BoxedError>; fn from_body(_: &Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: &hyperdrive::NoContext) -> Self::Result { Ok(Bd) } }
struct Fd(u8);
impl FromRequest for Fd {
    type Context = hyperdrive::NoContext;
    type Future = Result2<Self>;
    fn from_request_and_body(r: &Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: hyperdrive::NoContext) -> Self::Future { hyperdrive::futures::future::ok(Fd(r.method().as_str().len() as u8)) }
}
type Result2<T> = hyperdrive::futures::future::FutureResult<T, hyperdrive::BoxedError>;
type Qs = Option<Vec<(String, String)>>;
#[derive(FromRequest)]
enum Mg {
    #[get("/b")] B { #[body] b: Bd }, #[get("/q")] Q { #[query_params] q: Qs }, #[get("/g")] G { g: Gd }, #[get("/f")] F { #[forward] w: Fd },
    #[get("/a/{x}")] #[put("/a/{x}")] A { g: Gd, x: Dig, #[query_params] q: Qs, #[body] b: Bd }, #[post("/b")] #[get("/p")] P { #[body] b: Bd }, #[get("/r/{x...}")] R { x: Text, #[forward] w: Fd },
    #[head("/h")] H1 { #[body] b: Bd }, #[get("/h")] H2 { g: Gd },
}
const MG: &[Rt] = &[Rt(G, 1, &[L("b")]), Rt(G, 2, &[L("q")]), Rt(G, 3, &[L("g")]), Rt(G, 4, &[L("f")]), Rt(G | U, 5, &[L("a"), Ty(Digits)]), Rt(P, 6, &[L("b")]), Rt(G, 6, &[L("p")]), Rt(G, 7, &[L("r"), R]), Rt(bit(HEAD), 8, &[L("h")]), Rt(bit(GET), 9, &[L("h")])];
harness!(methods_g, 16, warm::<Mg>("/a/1"), |t| {
    let rq = request(t, 5);
    let e = expect(MG, &rq.path, rq.method);
    let mut seen = 0;
    let x = judge::<Mg>(&rq, e, |x| match x { Mg::B { .. } => 1, Mg::Q { .. } => 2, Mg::G { .. } => 3, Mg::F { .. } => 4, Mg::A { .. } => 5, Mg::P { .. } => 6, Mg::R { .. } => 7, Mg::H1 { .. } => 8, Mg::H2 { .. } => 9 });
    if let Some(Mg::R { w, .. }) = &x { check!(w.0 as usize == method(rq.method).as_str().len(), "method shown to the inner type"); }
    if rq.method == HEAD {
        cover!(match &x { Some(Mg::B { .. }) => true, _ => false }, "g:body");
        cover!(match &x { Some(Mg::Q { .. }) => true, _ => false }, "g:query");
        cover!(match &x { Some(Mg::G { .. }) => true, _ => false }, "g:guard");
        cover!(match &x { Some(Mg::F { .. }) => true, _ => false }, "g:forward");
        cover!(match &x { Some(Mg::A { .. }) => true, _ => false }, "g:all");
        cover!(match &x { Some(Mg::R { .. }) => true, _ => false }, "g:rest");
        cover!(match &x { Some(Mg::H1 { .. }) => true, _ => false }, "g:declared");
    }
});
