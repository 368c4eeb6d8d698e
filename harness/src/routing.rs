//! Which variant a request ends up as.
use crate::env::{self, *};
use crate::spec::{expect, Rt, Seg::{L, P as S, R}};
use hyperdrive::{http, FromRequest};

// mixed
#[derive(FromRequest)]
enum Ra {
    #[get("/")] Index,
    #[get("/u/{id}")] User { id: Text },
    #[post("/u/{name}")] #[put("/v/{name}")] Named { name: Text },
    #[put("/u/{a}/p/{b}")] Two { b: Text, a: Text },
    #[delete("/f/{rest...}")] Files { rest: Text },
    #[get("/a.b")] Dot,
}
const TA: &[Rt] = &[
    Rt(G, 1, &[L("")]), Rt(G, 2, &[L("u"), S]), Rt(P, 3, &[L("u"), S]), Rt(U, 3, &[L("v"), S]),
    Rt(U, 4, &[L("u"), S, L("p"), S]), Rt(D, 5, &[L("f"), R]), Rt(G, 6, &[L("a.b")]),
];
fn a(x: &Ra) -> u8 { match x { Ra::Index => 1, Ra::User { .. } => 2, Ra::Named { .. } => 3, Ra::Two { .. } => 4, Ra::Files { .. } => 5, Ra::Dot => 6 } }
harness!(routing_a, 26, warm::<Ra>("/u/x"), |t| {
    let rq = env::request(t, if cfg!(feature = "deep") { 18 } else { 13 });
    let p = rq.path;
    let x = judge::<Ra>(&rq, expect(TA, &p, rq.method), a);
    cover!(x.is_none(), "a:refused");
    match x {
        Some(Ra::Index) => cover!(true, "a:index"),
        Some(Ra::User { id }) => { check!(p.cap(1, &id), "captured text"); cover!(true, "a:user"); }
        Some(Ra::Named { name }) => { check!(p.cap(1, &name), "captured text"); cover!(rq.method == PUT, "a:named"); }
        Some(Ra::Two { a, b }) => { check!(p.cap(1, &a) & p.cap(3, &b), "captured texts"); cover!(true, "a:two"); }
        Some(Ra::Files { rest }) => { check!(p.rest(1, &rest), "captured rest"); cover!(rest.len() == 0, "a:no files"); cover!(true, "a:files"); }
        Some(Ra::Dot) => cover!(true, "a:dot"),
        None => {}
    }
});

// the same routes, declared backwards
#[derive(FromRequest)]
enum Rr {
    #[get("/a.b")] Dot,
    #[delete("/f/{rest...}")] Files { rest: Text },
    #[put("/u/{a}/p/{b}")] Two { b: Text, a: Text },
    #[put("/v/{name}")] #[post("/u/{name}")] Named { name: Text },
    #[get("/u/{id}")] User { id: Text },
    #[get("/")] Index,
}
fn r(x: &Rr) -> u8 { match x { Rr::Index => 1, Rr::User { .. } => 2, Rr::Named { .. } => 3, Rr::Two { .. } => 4, Rr::Files { .. } => 5, Rr::Dot => 6 } }
harness!(routing_r, 16, warm::<Rr>("/u/x"), |t| {
    let rq = env::request(t, 10);
    let x = judge::<Rr>(&rq, expect(TA, &rq.path, rq.method), r);
    cover!(x.is_none(), "r:refused");
    cover!(match x { Some(Rr::Index) => true, _ => false }, "r:index");
    cover!(match x { Some(Rr::Files { .. }) => true, _ => false }, "r:files");
});

// literals full of characters that mean something to a regex; all methods
#[derive(FromRequest)]
enum Rb {
    #[get("/a.b")] V1,
    #[post("/a+")] V2,
    #[put("/(a)")] V3,
    #[delete("/[ab]")] V4,
    #[patch("/a|b")] V5,
    #[options("/^a$")] V6,
    #[trace("/a*")] V7,
    #[connect("/\\d")] V8,
    #[get("/A")] V9,
    #[head("/a-b")] V10,
}
const TB: &[Rt] = &[
    Rt(G, 1, &[L("a.b")]), Rt(P, 2, &[L("a+")]), Rt(U, 3, &[L("(a)")]), Rt(D, 4, &[L("[ab]")]), Rt(A, 5, &[L("a|b")]),
    Rt(O, 6, &[L("^a$")]), Rt(T, 7, &[L("a*")]), Rt(C, 8, &[L("\\d")]), Rt(G, 9, &[L("A")]), Rt(bit(HEAD), 10, &[L("a-b")]),
];
harness!(routing_b, 12, warm::<Rb>("/A"), |t| {
    let rq = env::request(t, 6);
    let x = judge::<Rb>(&rq, expect(TB, &rq.path, rq.method), |x| match x { Rb::V1 => 1, Rb::V2 => 2, Rb::V3 => 3, Rb::V4 => 4, Rb::V5 => 5, Rb::V6 => 6, Rb::V7 => 7, Rb::V8 => 8, Rb::V9 => 9, Rb::V10 => 10 });
    cover!(match x { Some(Rb::V1) => true, _ => false }, "b:1");
    cover!(match x { Some(Rb::V2) => true, _ => false }, "b:2");
    cover!(match x { Some(Rb::V3) => true, _ => false }, "b:3");
    cover!(match x { Some(Rb::V4) => true, _ => false }, "b:4");
    cover!(match x { Some(Rb::V5) => true, _ => false }, "b:5");
    cover!(match x { Some(Rb::V6) => true, _ => false }, "b:6");
    cover!(match x { Some(Rb::V7) => true, _ => false }, "b:7");
    cover!(match x { Some(Rb::V8) => true, _ => false }, "b:8");
    cover!(match x { Some(Rb::V9) => true, _ => false }, "b:9");
    cover!(match x { Some(Rb::V10) => true, _ => false }, "b:10");
    cover!(x.is_none(), "b:refused");
});

// the rest of a path, and `*`
#[derive(FromRequest)]
enum Rc {
    #[get("/x/{r...}")] X { r: Text },
    #[post("/x")] Bare,
    #[put("/y/{a}/{r...}")] Y { a: Text, r: Text },
    #[options("*")] Star,
    #[delete("/*")] Lit,
    #[patch("/y/{a}")] Y1 { a: Text },
}
const TC: &[Rt] = &[
    Rt(G, 1, &[L("x"), R]), Rt(P, 2, &[L("x")]), Rt(U, 3, &[L("y"), S, R]), Rt(O, 4, &[]), Rt(D, 5, &[L("*")]), Rt(A, 6, &[L("y"), S]),
];
harness!(routing_c, 16, warm::<Rc>("/x/"), |t| {
    let rq = env::request(t, 9);
    let p = rq.path;
    match judge::<Rc>(&rq, expect(TC, &p, rq.method), |x| match x { Rc::X { .. } => 1, Rc::Bare => 2, Rc::Y { .. } => 3, Rc::Star => 4, Rc::Lit => 5, Rc::Y1 { .. } => 6 }) {
        Some(Rc::X { r }) => { check!(p.rest(1, &r), "captured rest"); cover!(true, "c:x"); }
        Some(Rc::Bare) => cover!(true, "c:bare"),
        Some(Rc::Y { a, r }) => { check!(p.cap(1, &a) & p.rest(2, &r), "captured text and rest"); cover!(true, "c:y"); }
        Some(Rc::Star) => cover!(true, "c:star"),
        Some(Rc::Lit) => cover!(true, "c:lit"),
        Some(Rc::Y1 { a }) => { check!(p.cap(1, &a), "captured text"); cover!(true, "c:y1"); }
        None => {}
    }
});

// everything
#[derive(FromRequest)]
enum Re {
    #[options("*")] Star,
    #[get("/{r...}")] All { r: Text },
}
const TE: &[Rt] = &[Rt(O, 1, &[]), Rt(G, 2, &[R])];
harness!(routing_e, 16, warm::<Re>("/x/"), |t| {
    let rq = env::request(t, 8);
    let p = rq.path;
    match judge::<Re>(&rq, expect(TE, &p, rq.method), |x| match x { Re::Star => 1, Re::All { .. } => 2 }) {
        Some(Re::All { r }) => { check!(p.rest(0, &r), "captured rest"); cover!(true, "e:all"); }
        Some(Re::Star) => cover!(true, "e:star"),
        None => cover!(true, "e:refused"),
    }
});

// slashes and empty segments
#[derive(FromRequest)]
enum Rd {
    #[get("/")] V1,
    #[post("/a")] V2,
    #[put("/a/")] V3,
    #[delete("/a//")] V4,
    #[get("/b/{x}")] V5 { x: Text },
    #[get("/b/{x}/")] V6 { x: Text },
    #[patch("/b//")] V7,
    #[post("//")] V8,
    #[put("//{x}/{y}")] V9 { x: Text, y: Text },
    #[trace("/b/")] V10,
}
const TD: &[Rt] = &[
    Rt(G, 1, &[L("")]), Rt(P, 2, &[L("a")]), Rt(U, 3, &[L("a"), L("")]), Rt(D, 4, &[L("a"), L(""), L("")]), Rt(G, 5, &[L("b"), S]),
    Rt(G, 6, &[L("b"), S, L("")]), Rt(A, 7, &[L("b"), L(""), L("")]), Rt(P, 8, &[L(""), L("")]), Rt(U, 9, &[L(""), S, S]), Rt(T, 10, &[L("b"), L("")]),
];
harness!(routing_d, 12, warm::<Rd>("/b/x"), |t| {
    let rq = env::request(t, 7);
    let p = rq.path;
    let x = judge::<Rd>(&rq, expect(TD, &p, rq.method), |x| match x { Rd::V1 => 1, Rd::V2 => 2, Rd::V3 => 3, Rd::V4 => 4, Rd::V5 { .. } => 5, Rd::V6 { .. } => 6, Rd::V7 => 7, Rd::V8 => 8, Rd::V9 { .. } => 9, Rd::V10 => 10 });
    cover!(match x { Some(Rd::V3) => true, _ => false }, "d:3");
    cover!(match x { Some(Rd::V4) => true, _ => false }, "d:4");
    cover!(match x { Some(Rd::V6 { .. }) => true, _ => false }, "d:6");
    cover!(match x { Some(Rd::V7) => true, _ => false }, "d:7");
    cover!(match x { Some(Rd::V8) => true, _ => false }, "d:8");
    cover!(match x { Some(Rd::V9 { .. }) => true, _ => false }, "d:9");
});

// more than ten paths, variants without a route, several routes on a variant
#[derive(FromRequest)]
enum Rm {
    #[get("/1")] V1, #[get("/2")] V2, NoRoute, #[get("/3")] V3, #[get("/4")] V4, #[get("/5")] V5, #[get("/6")] V6,
    NoRoute2 { f: u8 },
    #[get("/7")] V7, #[get("/8")] V8, #[get("/9")] V9, #[get("/10")] V10, #[get("/11")] #[post("/1")] #[put("/13")] V11, #[get("/12")] V12 {},
}
const TM: &[Rt] = &[
    Rt(G, 1, &[L("1")]), Rt(G, 2, &[L("2")]), Rt(G, 3, &[L("3")]), Rt(G, 4, &[L("4")]), Rt(G, 5, &[L("5")]), Rt(G, 6, &[L("6")]), Rt(G, 7, &[L("7")]),
    Rt(G, 8, &[L("8")]), Rt(G, 9, &[L("9")]), Rt(G, 10, &[L("10")]), Rt(G, 11, &[L("11")]), Rt(P, 11, &[L("1")]), Rt(U, 11, &[L("13")]), Rt(G, 12, &[L("12")]),
];
harness!(routing_m, 12, warm::<Rm>("/1"), |t| {
    let rq = env::request(t, 4);
    let x = judge::<Rm>(&rq, expect(TM, &rq.path, rq.method), |x| match x { Rm::V1 => 1, Rm::V2 => 2, Rm::V3 => 3, Rm::V4 => 4, Rm::V5 => 5, Rm::V6 => 6, Rm::V7 => 7, Rm::V8 => 8, Rm::V9 => 9, Rm::V10 => 10, Rm::V11 => 11, Rm::V12 { .. } => 12, Rm::NoRoute => 13, Rm::NoRoute2 { .. } => 14 });
    cover!(match x { Some(Rm::V1) => true, _ => false }, "m:1");
    cover!(match x { Some(Rm::V11) => true, _ => false }, "m:11");
    cover!(match x { Some(Rm::V12 { .. }) => true, _ => false }, "m:12");
});

// a struct
#[derive(FromRequest)]
#[get("/s/{x}")]
#[post("/t/{x}/")]
struct Rs { x: Text }
const TS: &[Rt] = &[Rt(G, 1, &[L("s"), S]), Rt(P, 1, &[L("t"), S, L("")])];
harness!(routing_s, 16, warm::<Rs>("/s/x"), |t| {
    let rq = env::request(t, 9);
    let p = rq.path;
    let x = judge::<Rs>(&rq, expect(TS, &p, rq.method), |_| 1);
    cover!(x.is_none(), "s:refused");
    if let Some(x) = x { check!(p.cap(1, &x.x), "captured text"); cover!(rq.method == POST, "s:post"); }
});

// absolute-form request targets are routed by their path
harness!(routing_f, 12, warm::<Ra>("/u/x"), |t| {
    let m = t.pick(10);
    let path = env::path(t, 7);
    assume!(!path.star());
    let mut req = http::Request::new(());
    *req.method_mut() = method(m);
    *req.uri_mut() = uri(true, &path.b[..path.n], None);
    let rq = Rq { req: std::sync::Arc::new(req), method: m, path };
    let x = judge::<Ra>(&rq, expect(TA, &path, m), a);
    cover!(match x { Some(Ra::Index) => true, _ => false }, "f:index");
    cover!(match x { Some(Ra::Named { .. }) => true, _ => false }, "f:named");
});
// literals of all characters that a path can have, among them escapes, which are not decoded
#[derive(FromRequest)]
enum Rl {
    #[get("/a%20b")] V1, #[post("/%2F")] V2, #[put("/%2f")] V3, #[delete("/!$&'(")] V4, #[patch("/),;:=")] V5, #[options("/@_~-.")] V6, #[trace("/[]^\\|")] V7, #[get("/A1Z9z")] V8,
    #[get("/..")] V9, #[get("/.")] V10, #[get("/%")] V11, #[get("/:a")] V12, #[get("/<x>")] V13, #[get("/a b")] V14, #[get("/\u{e9}")] V15, #[get("/{a")] V16, #[get("/a}")] V17, #[get("/a{b}c")] V18, #[get("/%7Ba%7D")] V19, #[get("/**")] V20,
}
const RL: &[Rt] = &[Rt(G, 1, &[L("a%20b")]), Rt(P, 2, &[L("%2F")]), Rt(U, 3, &[L("%2f")]), Rt(D, 4, &[L("!$&'(")]), Rt(A, 5, &[L("),;:=")]), Rt(O, 6, &[L("@_~-.")]), Rt(T, 7, &[L("[]^\\|")]), Rt(G, 8, &[L("A1Z9z")]),
    Rt(G, 9, &[L("..")]), Rt(G, 10, &[L(".")]), Rt(G, 11, &[L("%")]), Rt(G, 12, &[L(":a")]), Rt(G, 13, &[L("<x>")]), Rt(G, 14, &[L("a b")]), Rt(G, 15, &[L("\u{e9}")]), Rt(G, 16, &[L("{a")]), Rt(G, 17, &[L("a}")]), Rt(G, 18, &[L("a{b}c")]), Rt(G, 19, &[L("%7Ba%7D")]), Rt(G, 20, &[L("**")])];
fn rl(x: &Rl) -> u8 {
    match x { Rl::V1 => 1, Rl::V2 => 2, Rl::V3 => 3, Rl::V4 => 4, Rl::V5 => 5, Rl::V6 => 6, Rl::V7 => 7, Rl::V8 => 8, Rl::V9 => 9, Rl::V10 => 10, Rl::V11 => 11, Rl::V12 => 12, Rl::V13 => 13, Rl::V14 => 14, Rl::V15 => 15, Rl::V16 => 16, Rl::V17 => 17, Rl::V18 => 18, Rl::V19 => 19, Rl::V20 => 20 }
}
harness!(routing_l, 16, warm::<Rl>("/a%20b"), |t| {
    let rq = request(t, 8);
    let e = expect(RL, &rq.path, rq.method);
    let x = judge::<Rl>(&rq, e, rl);
    cover!(match &x { Some(Rl::V1) => true, _ => false }, "l:escape");
    cover!(match &x { Some(Rl::V3) => true, _ => false }, "l:lower case");
    cover!(match &x { Some(Rl::V4) => true, _ => false }, "l:characters");
    cover!(match &x { Some(Rl::V7) => true, _ => false }, "l:brackets");
    cover!(match &x { Some(Rl::V9) => true, _ => false }, "l:dots");
});
