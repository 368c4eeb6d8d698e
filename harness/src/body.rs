//! Bodies: however they arrive, the whole of them is decoded.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use hyperdrive::{body::{HtmlForm, Json}, http::{self, Request}, hyper::Body, BoxedError, FromBody, FromRequest, NoContext};
use serde::{de, Deserialize};
use std::sync::Arc;

#[derive(Deserialize, PartialEq)]
struct One { a: u8 }
type Pairs = Vec<(String, String)>;
struct Sent { bytes: Vec<u8>, fail: bool, body: Body }
/// Up to `max` bytes, arriving in up to three pieces, any of which may be empty, with pauses; or breaking off with an error.
fn body(t: &mut Tape, max: usize, ok: impl Fn(u8) -> bool) -> Sent {
    let n = t.pick(max as u8 + 1) as usize;
    let mut bytes = Vec::new();
    for _ in 0..n { let b = t.u8(); assume!(ok(b)); bytes.push(b); }
    let a = t.pick(n as u8 + 1) as usize;
    let b = t.pick(n as u8 + 1) as usize;
    assume!(a <= b);
    let fail = t.bool();
    let pause = vec![t.below(2), 0, t.below(2), t.below(2)];
    let pieces = vec![bytes[..a].to_vec(), bytes[a..b].to_vec(), bytes[b..].to_vec()];
    Sent { bytes, fail, body: Body::wrap_stream(Pieces { pieces, at: 0, left: pause, fail }) }
}
/// hyper wraps the error of the stream
fn broke(e: &BoxedError) -> bool { e.is::<hyperdrive::hyper::Error>() && std::error::Error::source(&**e).map_or(false, |s| s.is::<No>()) }
fn same<T, E>(fail: bool, want: Result<T, E>, got: Result<T, BoxedError>, eq: impl Fn(&T, &T) -> bool, kind: impl Fn(&BoxedError) -> bool) {
    crate::common::observe(got.is_ok() as u64);
    match got {
        Ok(g) => { check!(!fail, "accepted although the body breaks off"); match want { Ok(w) => check!(eq(&w, &g), "value"), Err(_) => check!(false, "a body that cannot be deserialized is accepted") } }
        Err(e) => {
            if broke(&e) { check!(fail, "the body did not break off"); return; }
            check!(!fail, "the error of the body is replaced");
            check!(want.is_err(), "a body that can be deserialized is refused");
            check!(kind(&e), "error of another type");
        }
    }
}
fn req() -> Arc<Request<()>> { Arc::new(Request::new(())) }
// floating point is out of reach, and strings make messages that are costly to build
fn no_number(b: u8) -> bool { (b.wrapping_sub(b'0') > 9) & (b != b'-') & (b != b'"') }
fn no_fraction(b: u8) -> bool { (b != b'-') & (b != b'.') & (b != b'e') & (b != b'E') }
harness!(body_f, 16, {}, |t| {
    let s = body(t, if cfg!(feature = "deep") { 4 } else { 3 }, |b| b < 0x80);
    let got = drive(HtmlForm::<One>::from_body(&req(), s.body, &NoContext)).map(|x| x.0);
    let want = serde_urlencoded::from_bytes::<One>(&s.bytes);
    cover!(got.is_ok(), "f:ok");
    cover!(!s.fail & want.is_err() & (s.bytes.len() == 3), "f:bad");
    cover!(s.fail & (s.bytes.len() == 3), "f:breaks off");
    same(s.fail, want, got, |a, b| a.a == b.a, |e| e.is::<serde_urlencoded::de::Error>());
});
harness!(body_p, 16, {}, |t| {
    let s = body(t, if cfg!(feature = "deep") { 4 } else { 3 }, |b| b < 0x80);
    let got = drive(HtmlForm::<Pairs>::from_body(&req(), s.body, &NoContext)).map(|x| x.0);
    let want = serde_urlencoded::from_bytes::<Pairs>(&s.bytes);
    cover!(match &got { Ok(x) => x.len() == 2, Err(_) => false }, "p:two");
    same(s.fail, want, got, |a, b| { let mut ok = a.len() == b.len(); let mut i = 0; while ok && i < a.len() { ok = a[i] == b[i]; i += 1; } ok }, |e| e.is::<serde_urlencoded::de::Error>());
});
harness!(body_j, 16, {}, |t| {
    let s = body(t, if cfg!(feature = "deep") { 4 } else { 3 }, no_fraction);
    let got = drive(Json::<Vec<u8>>::from_body(&req(), s.body, &NoContext)).map(|x| x.0);
    let want = serde_json::from_slice::<Vec<u8>>(&s.bytes);
    cover!(match &got { Ok(x) => x.len() == 0, Err(_) => false }, "j:empty");
    cover!(match &got { Ok(x) => x.len() == 1, Err(_) => false }, "j:one");
    same(s.fail, want, got, |a, b| a == b, |e| e.is::<serde_json::Error>());
});
harness!(body_b, 16, {}, |t| {
    let s = body(t, if cfg!(feature = "deep") { 6 } else { 4 }, no_number);
    let got = drive(Json::<bool>::from_body(&req(), s.body, &NoContext)).map(|x| x.0);
    let want = serde_json::from_slice::<bool>(&s.bytes);
    cover!(match &got { Ok(x) => *x, Err(_) => false }, "b:true");
    same(s.fail, want, got, |a, b| a == b, |e| e.is::<serde_json::Error>());
});
// through a declared route: the body of the request is what is decoded
#[derive(FromRequest)]
enum B {
    #[post("/j")] J { #[body] b: Json<bool> },
    #[post("/f")] F { #[body] b: HtmlForm<One> },
    #[put("/j")] N,
}
fn on(m: http::Method, path: &'static str) -> Arc<Request<()>> { fixed(m, path) }
harness!(body_r, 16, warm::<B>("/x"), |t| {
    let s = body(t, if cfg!(feature = "deep") { 5 } else { 4 }, no_number);
    let got = drive(B::from_request_and_body(&on(http::Method::POST, "/j"), s.body, NoContext)).map(|x| match x { B::J { b } => b.0, _ => crate::common::violated("variant") });
    cover!(got.is_ok(), "r:ok");
    same(s.fail, serde_json::from_slice::<bool>(&s.bytes), got, |a, b| a == b, |e| e.is::<serde_json::Error>());
});
harness!(body_s, 16, warm::<B>("/x"), |t| {
    let s = body(t, 3, |b| b < 0x80);
    let got = drive(B::from_request_and_body(&on(http::Method::POST, "/f"), s.body, NoContext)).map(|x| match x { B::F { b } => b.0, _ => crate::common::violated("variant") });
    cover!(got.is_ok(), "s:ok");
    same(s.fail, serde_urlencoded::from_bytes::<One>(&s.bytes), got, |a, b| a.a == b.a, |e| e.is::<serde_urlencoded::de::Error>());
});
// a route without #[body] does not touch it
harness!(body_n, 16, warm::<B>("/x"), |t| {
    struct Never;
    impl futures::Stream for Never { type Item = Vec<u8>; type Error = BoxedError; fn poll(&mut self) -> futures::Poll<Option<Vec<u8>>, BoxedError> { crate::common::violated("body read without need") } }
    let m = t.pick(3);
    let path = env::path(t, 3);
    let rq = build(if m == 0 { GET } else if m == 1 { PUT } else { DELETE }, path, None);
    let r = now(B::from_request_and_body(&rq.req, Body::wrap_stream(Never), NoContext));
    cover!(r.is_ok(), "n:ok");
    cover!(r.is_err(), "n:refused");
});
// what comes before or behind a body is part of it
#[derive(FromRequest)] #[post("/")] struct Bx { #[body] b: Json<u8> }
#[derive(FromRequest)] #[post("/")] struct By { #[body] b: HtmlForm<Pairs> }
harness!(body_x, 16, { warm::<Bx>("/z"); warm::<By>("/z"); }, |t| {
    const BEFORE: [&[u8]; 9] = [b"", b"\xef\xbb\xbf", b" ", b"\r\n", b"\0", b"?", b"\xfe\xff", b")]}',\n", b"&"];
    const BEHIND: [&[u8]; 9] = [b"", b"\0", b" ", b"\r\n", b"&", b";", b",", b"\xff", b"\x1a"];
    let form = t.pick(2) == 1;
    let (a, b) = (t.pick(9) as usize, t.pick(9) as usize);
    let cut = t.pick(2) == 1;
    let d = b'0' + t.below(10);
    let mut bytes = BEFORE[a].to_vec();
    if form { bytes.extend_from_slice(b"a="); }
    bytes.push(d);
    bytes.extend_from_slice(BEHIND[b]);
    let mut r = Request::new(pieces(&bytes, if cut { BEFORE[a].len() } else { 99 }, &[0, 1], false));
    *r.method_mut() = http::Method::POST;
    if form {
        let got = drive(By::from_request(r, NoContext)).map(|x| x.b.0);
        cover!(got.is_ok() && a == 5, "x:form");
        same(false, serde_urlencoded::from_bytes::<Pairs>(&bytes), got, |a, b| { let mut ok = a.len() == b.len(); let mut i = 0; while ok && i < a.len() { ok = a[i] == b[i]; i += 1; } ok }, |e| e.is::<serde_urlencoded::de::Error>());
    } else {
        let got = drive(Bx::from_request(r, NoContext)).map(|x| x.b.0);
        cover!(got.is_ok() && a == 3, "x:json");
        cover!(got.is_err() && a == 1 && b == 0, "x:bom");
        same(false, serde_json::from_slice::<u8>(&bytes), got, |a, b| a == b, |e| e.is::<serde_json::Error>());
    }
});
