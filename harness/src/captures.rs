//! What placeholders capture, and what happens to text their type does not take.
use crate::env::{self, *};
use crate::spec::{expect, Class::{Alpha, Byte, Digits}, Rt, Seg::{self, L, P as S, R, T as Ty, TR}};
use hyperdrive::{http, FromRequest};

// one pattern, several types; the same types the other way round
#[derive(FromRequest)]
enum Ca {
    #[get("/x/{a}")] Num { a: Dig },
    #[post("/x/{a}")] Word { a: Alp },
    #[put("/x/{b}")] Any { b: Text },
    #[delete("/{a}/x/{b}")] Two { b: Alp, a: Dig },
    #[patch("/{b}/x/{a}")] Owt { b: Dig, a: Alp },
    #[trace("/r/y/{a}/{b...}")] Rest { b: Dig, a: Alp },
}
const CA: &[Rt] = &[
    Rt(G, 1, &[L("x"), Ty(Digits)]), Rt(P, 2, &[L("x"), Ty(Alpha)]), Rt(U, 3, &[L("x"), S]), Rt(D, 4, &[Ty(Digits), L("x"), Ty(Alpha)]),
    Rt(A, 5, &[Ty(Digits), L("x"), Ty(Alpha)]), Rt(T, 6, &[L("r"), L("y"), Ty(Alpha), TR(Digits)]),
];
harness!(captures_a, 16, warm::<Ca>("/x/1"), |t| {
    let rq = env::request(t, if cfg!(feature = "deep") { 12 } else { 9 });
    let p = rq.path;
    let e = expect(CA, &p, rq.method);
    let x = judge::<Ca>(&rq, e, |x| match x { Ca::Num { .. } => 1, Ca::Word { .. } => 2, Ca::Any { .. } => 3, Ca::Two { .. } => 4, Ca::Owt { .. } => 5, Ca::Rest { .. } => 6 });
    cover!(x.is_none() & e.bad, "a:wrong type");
    match x {
        Some(Ca::Num { a }) => { check!(p.cap(1, &a), "captured text"); cover!(true, "a:num"); }
        Some(Ca::Word { a }) => { check!(p.cap(1, &a), "captured text"); cover!(true, "a:word"); }
        Some(Ca::Any { b }) => { check!(p.cap(1, &b), "captured text"); cover!(true, "a:any"); }
        Some(Ca::Two { b, a }) => { check!(p.cap(0, &a) & p.cap(2, &b), "captured texts"); cover!(true, "a:two"); }
        Some(Ca::Owt { b, a }) => { check!(p.cap(0, &b) & p.cap(2, &a), "captured texts"); cover!(true, "a:owt"); }
        Some(Ca::Rest { b, a }) => { check!(p.cap(2, &a) & p.rest(3, &b), "captured text and rest"); cover!(b.len() > 0, "a:rest"); }
        None => {}
    }
});

// more placeholders than fields in order, shared by two routes of one variant; raw bytes, no decoding
const CB1: &[Rt] = &[Rt(G, 1, &[S, S, S]), Rt(P, 1, &[L("p"), S, S, S])];
#[derive(FromRequest)]
enum Cc {
    #[get("/{one}/{two}/{three}")] #[post("/p/{one}/{two}/{three}")] Three { three: Text, one: Text, two: Text },
}
#[derive(FromRequest)]
enum Cd {
    #[put("/{one}/{two}/{three...}")] #[get("/{one}/{two}/{three...}")] Rest { two: Text, three: Text, one: Text },
}
const CD: &[Rt] = &[Rt(G | U, 1, &[S, S, R])];
harness!(captures_b, 16, warm::<Cc>("/x/1/2"), |t| {
    let rq = env::request(t, 9);
    let p = rq.path;
    if let Some(Cc::Three { one, two, three }) = judge::<Cc>(&rq, expect(CB1, &p, rq.method), |_| 1) {
        let k = (rq.method == POST) as usize;
        check!(p.cap(k, &one) & p.cap(k + 1, &two) & p.cap(k + 2, &three), "captured texts");
        cover!(k == 0, "b:get");
        cover!(k == 1, "b:post");
    }
});
harness!(captures_d, 16, warm::<Cd>("/x/1/2"), |t| {
    let rq = env::request(t, 9);
    let p = rq.path;
    if let Some(Cd::Rest { one, two, three }) = judge::<Cd>(&rq, expect(CD, &p, rq.method), |_| 1) {
        check!(p.cap(0, &one) & p.cap(1, &two) & p.rest(2, &three), "captured texts");
        cover!(three.len() == 0, "d:empty");
        cover!(three.len() > 1, "d:not empty");
    }
});

// numbers, a struct, the error passed on as the cause
#[derive(FromRequest)]
#[get("/n/{n}")]
#[put("/m/{n}/n")]
struct Ce { n: u8 }
const CE: &[Rt] = &[Rt(G, 1, &[L("n"), Ty(Byte)]), Rt(U, 2, &[L("m"), Ty(Byte), L("n")])];
harness!(captures_e, 16, warm::<Ce>("/n/1"), |t| {
    let rq = env::request(t, 9);
    let p = rq.path;
    let e = expect(CE, &p, rq.method);
    let x = judge::<Ce>(&rq, e, |_| if rq.method == PUT { 2 } else { 1 });
    cover!(x.is_none() & e.bad, "e:wrong type");
    if let Some(x) = x {
        check!(x.n == p.num(1), "value");
        cover!((x.n > 199) & (rq.method == PUT), "e:large");
        cover!(x.n == 0, "e:zero");
    }
});

// the cause is the very error of the type
fn cause<X: FromRequest<Context = hyperdrive::NoContext>>(rq: &Rq) -> u8 {
    match now(X::from_request_and_body(&rq.req, hyperdrive::hyper::Body::empty(), hyperdrive::NoContext)) {
        Ok(_) => 0,
        Err(e) => match e.downcast_ref::<hyperdrive::Error>().and_then(|e| std::error::Error::source(e)) {
            None => 1,
            Some(s) => if s.is::<NoDig>() { 2 } else if s.is::<NoAlp>() { 3 } else { 4 },
        }
    }
}
harness!(captures_f, 12, warm::<Ca>("/x/1"), |t| {
    let path = env::path(t, 6);
    let m = t.pick(3);
    let m = if m == 0 { GET } else if m == 1 { POST } else { PATCH };
    let rq = build(m, path, None);
    let e = expect(CA, &path, m);
    let c = cause::<Ca>(&rq);
    crate::common::observe(c as u64);
    check!(e.bad | (c <= 1), "a cause without a reason");
    if m == GET { check!(!e.bad | (c == 2), "cause"); cover!(c == 2, "f:digits"); }
    if m == POST { check!(!e.bad | (c == 3), "cause"); cover!(c == 3, "f:letters"); }
    if m == PATCH {
        let dig = path.typed(&[Ty(Digits), L("x"), S]);
        let alp = path.typed(&[S, L("x"), Ty(Alpha)]);
        check!(!e.bad | ((c == 2) & !dig) | ((c == 3) & !alp), "cause");
        cover!((c == 3) & dig, "f:second");
    }
});

// generic
#[derive(FromRequest)]
enum Cg<X> { #[get("/{a}/{b}")] V { b: X, a: Dig }, #[post("/{b}/{a}")] W { a: Dig, b: X } }
const CG: &[Rt] = &[Rt(G, 1, &[Ty(Digits), Ty(Alpha)]), Rt(P, 2, &[Ty(Alpha), Ty(Digits)])];
harness!(captures_g, 12, warm::<Cg<Alp>>("/1/x"), |t| {
    let rq = env::request(t, 6);
    let p = rq.path;
    let e = expect(CG, &p, rq.method);
    match judge::<Cg<Alp>>(&rq, e, |x| match x { Cg::V { .. } => 1, Cg::W { .. } => 2 }) {
        Some(Cg::V { a, b }) => { check!(p.cap(0, &a) & p.cap(1, &b), "captured texts"); cover!(true, "g:v"); }
        Some(Cg::W { a, b }) => { check!(p.cap(1, &a) & p.cap(0, &b), "captured texts"); cover!(true, "g:w"); }
        None => {}
    }
});
