//! Contexts: what a guard, a body or an inner type gets to see of them.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use hyperdrive::{http::{self, Request}, hyper::Body, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::sync::Arc;
#[derive(RequestContext, Clone, Copy)] struct One { v: u8 }
#[derive(RequestContext, Clone, Copy)] struct Two(u8, u16);
#[derive(RequestContext, Clone, Copy)] struct Nil;
#[derive(RequestContext, Clone, Copy)] enum En { A(u8), B { b: u8 } }
/// fields of several types, one of them twice (the first is the one that counts)
#[derive(RequestContext, Clone)]
struct Big { pad: u8, other: One, #[as_ref] one: One, #[as_ref] two: Two, #[as_ref] en: En, #[as_ref] list: Vec<u8>, own: u8 }
#[derive(RequestContext, Clone)]
struct Tup(One, #[as_ref] One, Two, #[as_ref] Two, u8);
#[derive(RequestContext, Clone)]
struct Gen<X: Clone + 'static> { pad: X, #[as_ref] x: Vec<X> , #[as_ref] one: One }
type GenU = Gen<u8>;
fn en(e: &En) -> u8 { match e { En::A(x) => *x & 0x7f, En::B { b } => *b | 0x80 } }
/// Guard and body that record a context's value.
macro_rules! sees { ($g:ident, $b:ident, $c:ty, |$x:ident| $e:expr) => {
    struct $g(u64);
    impl Guard for $g { type Context = $c; type Result = Step<Self>; fn from_request(_: &Arc<Request<()>>, $x: &$c) -> Step<Self> { let v: u64 = $e; step(1, $g(v)) } }
    struct $b(u64);
    impl FromBody for $b { type Context = $c; type Result = Step<Self>; fn from_body(_: &Arc<Request<()>>, _: Body, $x: &$c) -> Step<Self> { let v: u64 = $e; step(2, $b(v)) } }
} }
fn big(b: &Big) -> u64 { b.pad as u64 | (b.one.v as u64) << 8 | (b.two.0 as u64) << 16 | (b.two.1 as u64) << 24 | (b.own as u64) << 40 | (b.other.v as u64) << 48 | (en(&b.en) as u64) << 56 }
sees!(GOne, BOne, One, |c| c.v as u64);
sees!(GTwo, BTwo, Two, |c| c.0 as u64 | (c.1 as u64) << 8);
sees!(GEn, BEn, En, |c| en(c) as u64);
sees!(GBig, BBig, Big, |c| big(c));
sees!(GTup, BTup, Tup, |c| c.0.v as u64 | (c.1.v as u64) << 8 | (c.2 .0 as u64) << 16 | (c.3 .0 as u64) << 24 | (c.4 as u64) << 32);
sees!(GGen, BGen, Gen<u8>, |c| c.pad as u64 | (c.one.v as u64) << 8 | (c.x[0] as u64) << 16);
sees!(GNo, BNo, NoContext, |_c| 7);
/// an inner type with the context of the outer one
struct FBig(u64);
impl FromRequest for FBig {
    type Context = Big;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<Request<()>>, _: Body, c: Big) -> Self::Future { Box::new(step(2, FBig(big(&c)))) }
}
fn a_big(t: &mut Tape) -> Big {
    let alt = t.bool();
    let x = t.u8();
    let en = if alt { En::A(x) } else { En::B { b: x } };
    Big { pad: t.u8(), other: One { v: t.u8() }, one: One { v: t.u8() }, two: Two(t.u8(), t.u8() as u16 * 257), en, list: vec![t.u8()], own: t.u8() }
}
fn plans(t: &mut Tape) -> bool { let (_, a) = tape_plan(t, 1, 1); let (_, b) = tape_plan(t, 2, 1); a | b }
fn ok<X>(fail: bool, r: Result<X, BoxedError>) -> Option<X> {
    match r { Ok(x) => { check!(!fail, "a failure disappears"); Some(x) } Err(e) => { check!(fail & ((no(&e) == 1) | (no(&e) == 2)), "refused"); None } }
}
// what the derived conversions lead to
harness!(context_r, 16, {}, |t| {
    let b = a_big(t);
    check!(std::ptr::eq(AsRef::<Big>::as_ref(&b), &b), "the context itself");
    check!(std::ptr::eq(AsRef::<One>::as_ref(&b), &b.one), "marked field");
    check!(std::ptr::eq(AsRef::<Two>::as_ref(&b), &b.two), "marked field");
    check!(std::ptr::eq(AsRef::<En>::as_ref(&b), &b.en), "marked field");
    check!(std::ptr::eq(AsRef::<Vec<u8>>::as_ref(&b), &b.list), "marked field");
    let _: &NoContext = b.as_ref();
    let u = Tup(b.one, b.other, Two(1, 2), b.two, 3);
    check!(std::ptr::eq(AsRef::<One>::as_ref(&u), &u.1), "marked field of a tuple");
    check!(std::ptr::eq(AsRef::<Two>::as_ref(&u), &u.3), "marked field of a tuple");
    check!(std::ptr::eq(AsRef::<Tup>::as_ref(&u), &u), "the context itself");
    let g = Gen { pad: b.pad, x: vec![b.own], one: b.one };
    check!(std::ptr::eq(AsRef::<Vec<u8>>::as_ref(&g), &g.x), "marked field of a generic type");
    check!(std::ptr::eq(AsRef::<One>::as_ref(&g), &g.one), "marked field of a generic type");
    check!(std::ptr::eq(AsRef::<En>::as_ref(&b.en), &b.en), "the context itself");
    let _: &NoContext = Nil.as_ref();
    let _: &NoContext = NoContext.as_ref();
    cover!(AsRef::<One>::as_ref(&u).v != b.one.v, "r:distinct");
});
#[derive(FromRequest)]
#[context(Big)]
enum C {
    #[get("/{x}")] A { n: GNo, one: GOne, two: GTwo, x: Dig, #[body] b: BBig },
    #[put("/{x}")] B { big: GBig, en: GEn, #[body] b: BOne, x: Dig },
    #[post("/{x}")] D { one: GOne, big: GBig, x: Dig, #[forward] f: FBig },
    #[delete("/{x}")] E { x: Dig, #[body] b: BNo },
    F { #[forward] f: FBig },
}
fn warm_c() { let _ = drive(C::from_request_and_body(&fixed(http::Method::GET, "/x/y"), Body::empty(), Big { pad: 0, other: One { v: 0 }, one: One { v: 0 }, two: Two(0, 0), en: En::A(0), list: Vec::new(), own: 0 })); }
harness!(context_c, 24, warm_c(), |t| {
    let b = a_big(t);
    let m = t.pick(6);
    let fail = plans(t);
    let r = drive(C::from_request_and_body(&fixed(method(m), "/1"), Body::empty(), b.clone()));
    // (the step of an outer guard is the same as that of the inner ones)
    let none = match m { PATCH | OPTIONS => true, _ => false };
    match r {
        Ok(C::A { n, one, two, b: bo, .. }) => {
            check!((m == GET) | (m == HEAD), "variant");
            check!((n.0 == 7) & (one.0 == b.one.v as u64) & (two.0 == b.two.0 as u64 | (b.two.1 as u64) << 8), "context of a guard");
            check!(bo.0 == big(&b), "context of a body");
            cover!(b.one.v != b.other.v, "c:a");
        }
        Ok(C::B { big: g, en: e, b: bo, .. }) => {
            check!((g.0 == big(&b)) & (e.0 == en(&b.en) as u64), "context of a guard");
            check!(bo.0 == b.one.v as u64, "context of a body");
            cover!(b.one.v != b.other.v, "c:b");
        }
        Ok(C::D { one, big: g, f, .. }) => {
            check!((g.0 == big(&b)) & (one.0 == b.one.v as u64), "context of a guard");
            check!(f.0 == big(&b), "context of an inner type");
            cover!(true, "c:d");
        }
        Ok(C::E { b: bo, .. }) => { check!(bo.0 == 7, "context of a body"); cover!(true, "c:e"); }
        Ok(C::F { f }) => { check!(none, "variant"); check!(f.0 == big(&b), "context of an inner type"); cover!(true, "c:f"); }
        Err(e) => check!(fail & ((no(&e) == 1) | (no(&e) == 2)), "refused"),
    }
});
// without routes; nested; a generic type; tuple and generic contexts
#[derive(FromRequest)] #[context(Big)] struct W<T> { one: GOne, #[forward] inner: T, big: GBig }
#[derive(FromRequest)] #[context(Big)] #[get("/x")] struct In { en: GEn, #[body] b: BTwo }
harness!(context_w, 24, {}, |t| {
    let b = a_big(t);
    let fail = plans(t);
    if let Some(x) = ok(fail, drive(W::<W<In>>::from_request_and_body(&fixed(http::Method::GET, "/x"), Body::empty(), b.clone()))) {
        check!((x.one.0 == b.one.v as u64) & (x.big.0 == big(&b)), "context of a guard");
        check!((x.inner.one.0 == b.one.v as u64) & (x.inner.big.0 == big(&b)), "context of an inner type's guard");
        check!((x.inner.inner.en.0 == en(&b.en) as u64) & (x.inner.inner.b.0 == b.two.0 as u64 | (b.two.1 as u64) << 8), "context of an inner type");
        cover!(true, "w:ok");
    }
});
#[derive(FromRequest)] #[context(Tup)] #[get("/x")] struct T { one: GOne, tup: GTup, #[body] b: BTwo }
#[derive(FromRequest)] #[context(GenU)] #[get("/x")] #[put("/y")] struct G { one: GOne, g: GGen, #[body] b: BGen }
#[derive(FromRequest)] #[context(En)] #[get("/x")] struct E { n: GNo, #[body] b: BEn }
#[derive(FromRequest)] #[get("/x")] struct N { n: GNo, #[body] b: BNo }
harness!(context_t, 24, {}, |t| {
    let b = a_big(t);
    let fail = plans(t);
    match t.pick(4) {
        0 => {
            let u = Tup(b.other, b.one, Two(b.pad, 0), b.two, b.own);
            if let Some(x) = ok(fail, drive(T::from_request_and_body(&fixed(http::Method::GET, "/x"), Body::empty(), u))) {
                check!(x.one.0 == b.one.v as u64, "marked field of a tuple");
                check!(x.b.0 == b.two.0 as u64 | (b.two.1 as u64) << 8, "marked field of a tuple");
                check!(x.tup.0 == b.other.v as u64 | (b.one.v as u64) << 8 | (b.pad as u64) << 16 | (b.two.0 as u64) << 24 | (b.own as u64) << 32, "the context itself");
                cover!(true, "t:tuple");
            }
        }
        1 => {
            let g = Gen { pad: b.pad, x: vec![b.own], one: b.one };
            if let Some(x) = ok(fail, drive(G::from_request_and_body(&fixed(http::Method::PUT, "/y"), Body::empty(), g))) {
                let w = b.pad as u64 | (b.one.v as u64) << 8 | (b.own as u64) << 16;
                check!((x.one.0 == b.one.v as u64) & (x.g.0 == w) & (x.b.0 == w), "context");
                cover!(true, "t:generic");
            }
        }
        2 => if let Some(x) = ok(fail, drive(E::from_request_and_body(&fixed(http::Method::GET, "/x"), Body::empty(), b.en))) {
            check!((x.n.0 == 7) & (x.b.0 == en(&b.en) as u64), "context");
            cover!(true, "t:enum");
        },
        _ => if let Some(x) = ok(fail, drive(N::from_request_and_body(&fixed(http::Method::GET, "/x"), Body::empty(), NoContext))) {
            check!((x.n.0 == 7) & (x.b.0 == 7), "context");
            cover!(true, "t:none");
        },
    }
});
