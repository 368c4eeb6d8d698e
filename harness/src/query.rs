//! Query parameters.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Path, Rt, Seg::{self, L, P as S}};
use hyperdrive::{http, hyper::Body, BoxedError, FromRequest, NoContext};
use serde::{de, Deserialize};

/// The query of a request: none, or up to `max` bytes.
fn query(t: &mut Tape, max: usize) -> Option<Vec<u8>> {
    let n = t.pick(max as u8 + 2) as usize;
    if n == 0 { return None; }
    let mut q = Vec::new();
    for _ in 1..n { let b = t.u8(); assume!(query_byte(b)); q.push(b); }
    Some(q)
}
fn fixed_path(s: &str) -> Path { let mut b = [0; crate::spec::N]; b[..s.len()].copy_from_slice(s.as_bytes()); Path::new(b, s.len()) }
fn text(q: &Option<Vec<u8>>) -> &str { match q { Some(q) => unsafe { std::str::from_utf8_unchecked(q) }, None => "" } }

/// Takes what the deserializer of the pairs has: the reference is serde_urlencoded, given the raw query.
#[derive(Deserialize, PartialEq)]
struct One { a: u8 }
#[derive(Deserialize, PartialEq)]
struct Two { a: Option<u8>, #[serde(default)] b: String }
#[derive(FromRequest)]
enum Qa { #[get("/a")] V { #[query_params] q: One }, #[post("/a")] O { #[query_params] q: Option<One> }, #[put("/p")] P { #[query_params] q: Pairs }, #[patch("/p")] N }
type Pairs = Vec<(String, String)>;
/// What the reference and the code come to agree.
fn same<T>(want: Result<T, serde_urlencoded::de::Error>, got: Result<T, Fail>, eq: impl Fn(&T, &T) -> bool) {
    crate::common::observe(got.is_ok() as u64);
    match (want, got) {
        (Ok(w), Ok(g)) => check!(eq(&w, &g), "value"),
        (Err(_), Err(f)) => check!((f.status == 400) & f.source, "status for a query that cannot be deserialized"),
        (Ok(_), Err(_)) => check!(false, "a query that can be deserialized is refused"),
        (Err(_), Ok(_)) => check!(false, "a query that cannot be deserialized is accepted"),
    }
}
harness!(query_a, 12, warm::<Qa>("/a?a=1"), |t| {
    let q = query(t, if cfg!(feature = "deep") { 5 } else { 4 });
    let rq = build(GET, fixed_path("/a"), q.as_ref().map(|q| &q[..]));
    let want = serde_urlencoded::from_str::<One>(text(&q));
    let got = decode::<Qa>(&rq.req).map(|x| match x { Qa::V { q } => q, _ => crate::common::violated("variant") });
    cover!(want.is_ok(), "a:ok");
    cover!(want.is_err() & q.is_none(), "a:none");
    same(want, got, |a, b| a.a == b.a);
});
// an optional field: None if and only if there is nothing to deserialize
harness!(query_o, 12, warm::<Qa>("/a?a=1"), |t| {
    let q = query(t, if cfg!(feature = "deep") { 5 } else { 4 });
    let rq = build(POST, fixed_path("/a"), q.as_ref().map(|q| &q[..]));
    let got = decode::<Qa>(&rq.req).map(|x| match x { Qa::O { q } => q, _ => crate::common::violated("variant") });
    if text(&q).is_empty() {
        match got { Ok(None) => {} _ => check!(false, "optional query parameters are absent without a query") }
        cover!(q.is_none(), "o:none");
        cover!(q.is_some(), "o:empty");
    } else {
        let want = serde_urlencoded::from_str::<One>(text(&q));
        cover!(want.is_ok(), "o:ok");
        cover!(want.is_err(), "o:bad");
        same(want.map(Some), got, |a, b| a == b);
    }
});
// all the pairs, decoded, in order; repeated names
harness!(query_p, 12, warm::<Qa>("/p?a=1"), |t| {
    let q = query(t, if cfg!(feature = "deep") { 5 } else { 4 });
    let rq = build(PUT, fixed_path("/p"), q.as_ref().map(|q| &q[..]));
    let want = serde_urlencoded::from_str::<Pairs>(text(&q));
    let got = decode::<Qa>(&rq.req).map(|x| match x { Qa::P { q } => q, _ => crate::common::violated("variant") });
    cover!(match &want { Ok(w) => w.len() == 2, _ => false }, "p:two");
    cover!(match &want { Ok(w) => w.len() == 1 && w[0].0.len() == 1 && text(&q).len() == 4, _ => false }, "p:decoded");
    same(want, got, |a, b| {
        let mut ok = a.len() == b.len();
        let mut i = 0;
        while ok && i < a.len() { ok = a[i] == b[i]; i += 1; }
        ok
    });
});
// fields with defaults
#[derive(FromRequest)]
#[get("/s/{x}")]
struct Qs { x: Text, #[query_params] q: Two }
harness!(query_s, 12, warm::<Qs>("/s/x?a=1"), |t| {
    let q = query(t, if cfg!(feature = "deep") { 4 } else { 3 });
    let c = t.u8();
    assume!(path_byte(c) & (c != b'/'));
    let mut p = fixed_path("/s/x");
    p.b[3] = c;
    let rq = build(GET, p, q.as_ref().map(|q| &q[..]));
    let want = serde_urlencoded::from_str::<Two>(text(&q));
    let got = decode::<Qs>(&rq.req).map(|x| { check!(x.x.len() == 1 && x.x[0] == c, "captured text"); x.q });
    cover!(match &want { Ok(w) => w.a.is_some(), _ => false }, "s:a");
    cover!(match &want { Ok(w) => w.b.len() == 1, _ => false }, "s:b");
    same(want, got, |a, b| a == b);
});
// the query has no say in which route it is
#[derive(FromRequest)]
enum Qt { #[post("/{x}")] W { x: Text }, #[put("/r/{x...}")] X { x: Text }, #[delete("*")] Y, #[patch("/s/{x}/")] Z { #[query_params] q: Pairs, x: Dig } }
const QT: &[Rt] = &[Rt(P, 2, &[S]), Rt(U, 3, &[L("r"), Seg::R]), Rt(D, 4, &[]), Rt(A, 5, &[L("s"), Seg::T(crate::spec::Class::Digits), L("")])];
harness!(query_r, 16, warm::<Qt>("/a?a=1"), |t| {
    let m = t.pick(10);
    let p = env::path(t, 6);
    let q = if p.star() { None } else { let q = [t.u8(), t.u8()]; assume!(query_byte(q[0]) & query_byte(q[1])); Some(q) };
    let rq = build(m, p, q.as_ref().map(|q| &q[..]));
    let e = expect(QT, &p, m);
    match judge::<Qt>(&rq, e, |x| match x { Qt::W { .. } => 2, Qt::X { .. } => 3, Qt::Y => 4, Qt::Z { .. } => 5 }) {
        Some(Qt::W { x }) => { check!(p.cap(0, &x), "captured text"); cover!(true, "r:w"); }
        Some(Qt::X { x }) => { check!(p.rest(1, &x), "captured rest"); cover!(true, "r:x"); }
        Some(Qt::Y) => cover!(true, "r:star"),
        Some(Qt::Z { q, x }) => { check!(p.cap(1, &x), "captured text"); cover!(q.len() == 2 || q.len() == 1, "r:z"); }
        None => {}
    }
});
