//! Headers and versions have no say: not in which route it is, not in what a body is, not in what a service answers.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::*;
use crate::spec::{expect, Class::Digits, Path, Rt, Seg::{self, L, P as S, R, T as Ty}};
use futures::{Future, Stream};
use hyperdrive::{body::{HtmlForm, Json}, http::{self, header::HeaderValue, HeaderMap, Request, Response}, hyper::{self, Body}, service::{AsyncService, ServiceExt, SyncService}, BoxedError, FromRequest, NoContext};
use hyper::service::Service;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
const NAMES: &[(&str, &[&str])] = &[
    ("accept", &["*/*", "application/json"]), ("accept-encoding", &["identity"]), ("accept-language", &[]), ("authorization", &["Basic YTpi"]), ("cache-control", &["no-cache"]),
    ("connection", &["close", "keep-alive", "Upgrade"]), ("content-encoding", &["gzip", "identity"]), ("content-length", &[]), ("content-type", &["application/json", "application/x-www-form-urlencoded", "text/plain; charset=latin1", "multipart/form-data"]),
    ("cookie", &["a=b"]), ("date", &[]), ("expect", &["100-continue"]), ("forwarded", &["for=a"]), ("host", &["example.org"]), ("if-match", &["\"a\""]), ("if-modified-since", &[]), ("if-none-match", &["*", "\"a\""]),
    ("origin", &["http://example.org"]), ("range", &["bytes=0-0"]), ("referer", &["http://example.org/b/1"]), ("te", &["trailers"]), ("transfer-encoding", &["chunked", "gzip, chunked"]), ("upgrade", &["websocket", "h2c"]), ("user-agent", &[]),
    ("x-forwarded-for", &["::1"]), ("x-forwarded-host", &["example.org"]), ("x-forwarded-proto", &["https"]), ("x-forwarded-prefix", &["/b"]), ("x-http-method-override", &["DELETE"]), ("x-http-method", &["PUT"]), ("x-method-override", &["PUT"]),
    ("x-original-url", &["/b/1"]), ("x-rewrite-url", &["/b/1"]), ("x-requested-with", &["XMLHttpRequest"])];
const LENGTHS: [usize; 4] = [1, 3, 4, 6];
/// A header of the list, with any value of one, three, four or six visible characters, or one that is common for it; or all of them, with one value.
fn load(t: &mut Tape, h: &mut HeaderMap) -> bool {
    let which = t.pick(NAMES.len() as u8 + 1) as usize;
    let all = which == NAMES.len();
    let k = t.pick(if all { 4 } else { 4 + NAMES[which].1.len() as u8 }) as usize;
    let mut v = Vec::new();
    if k < 4 { for _ in 0..LENGTHS[k] { let b = t.u8(); assume!(b.wrapping_sub(0x21) < 0x5e); v.push(b); } } else { v.extend_from_slice(NAMES[which].1[k - 4].as_bytes()); }
    let v = HeaderValue::from_bytes(&v).unwrap();
    if all { for (n, _) in NAMES { h.insert(*n, v.clone()); } } else { h.insert(NAMES[which].0, v); }
    all
}
fn version(t: &mut Tape) -> http::Version { [http::Version::HTTP_09, http::Version::HTTP_10, http::Version::HTTP_11, http::Version::HTTP_2][t.pick(4) as usize] }
fn fixed_path(s: &str) -> Path { let mut b = [0; crate::spec::N]; b[..s.len()].copy_from_slice(s.as_bytes()); Path::new(b, s.len()) }

#[derive(FromRequest)]
enum Hr { #[get("/a")] A, #[put("/a")] B, #[delete("/a")] C, #[post("/b/{x}")] D { x: Dig }, #[post("/")] E, #[put("/b/{x}")] F { x: Text } }
const HR: &[Rt] = &[Rt(G, 1, &[L("a")]), Rt(U, 2, &[L("a")]), Rt(D, 3, &[L("a")]), Rt(P, 4, &[L("b"), Ty(Digits)]), Rt(P, 5, &[L("")]), Rt(U, 6, &[L("b"), S])];
fn hr(x: &Hr) -> u8 { match x { Hr::A => 1, Hr::B => 2, Hr::C => 3, Hr::D { .. } => 4, Hr::E => 5, Hr::F { .. } => 6 } }
const PATHS: [&str; 5] = ["/a", "/", "/b/1", "/b/x", "/c"];
harness!(headers_r, 16, warm::<Hr>("/z"), |t| {
    let (m, p) = [(GET, "/a"), (HEAD, "/a"), (PUT, "/a"), (POST, "/a"), (POST, "/b/1"), (POST, "/b/x"), (PUT, "/b/x"), (GET, "/"), (POST, "/"), (DELETE, "/c"), (GET, "/b/1")][t.pick(11) as usize];
    let p = fixed_path(p);
    let mut r = Request::new(());
    *r.method_mut() = method(m);
    *r.uri_mut() = uri(false, &p.b[..p.n], None);
    let all = load(t, r.headers_mut());
    if all { *r.version_mut() = version(t); }
    let rq = Rq { req: Arc::new(r), method: m, path: p };
    let e = expect(HR, &p, m);
    let x = judge::<Hr>(&rq, e, hr);
    match x {
        Some(Hr::D { x }) => { check!(p.cap(1, &x), "captured text"); cover!(all, "r:all"); }
        Some(Hr::F { x }) => { check!(p.cap(1, &x), "captured text"); cover!(!all, "r:one"); }
        _ => {}
    }
});
// bodies
#[derive(FromRequest)] #[post("/j")] #[get("/j")] struct Hj { #[body] b: Json<Vec<u8>> }
#[derive(FromRequest)] #[post("/f")] #[get("/f")] struct Hf { #[body] b: HtmlForm<Vec<(String, String)>> }
harness!(headers_b, 16, { warm::<Hj>("/z"); warm::<Hf>("/z"); }, |t| {
    let form = t.pick(2) == 1;
    let post = t.pick(2) == 1;
    let d = [t.below(10), t.below(10)];
    let mut bytes = if form { b"a=0&b=0".to_vec() } else { b"[0, 0]\n".to_vec() };
    bytes[if form { 2 } else { 1 }] = b'0' + d[0];
    bytes[if form { 6 } else { 4 }] = b'0' + d[1];
    let mut r = Request::new(pieces(&bytes, 2, &[0, 1], false));
    if post { *r.method_mut() = http::Method::POST; }
    *r.uri_mut() = http::Uri::from_static(if form { "/f" } else { "/j" });
    let all = load(t, r.headers_mut());
    if all { *r.version_mut() = version(t); }
    if form {
        match drive(Hf::from_request(r, NoContext)) {
            Ok(x) => { check!(x.b.len() == 2 && x.b[0].0 == "a" && x.b[1].0 == "b" && x.b[0].1.as_bytes() == &bytes[2..3] && x.b[1].1.as_bytes() == &bytes[6..], "value"); cover!(post, "b:form"); }
            Err(_) => check!(false, "a body that can be deserialized is refused"),
        }
    } else {
        match drive(Hj::from_request(r, NoContext)) {
            Ok(x) => { check!(x.b.len() == 2 && x.b[0] == d[0] && x.b[1] == d[1], "value"); cover!(!post, "b:json"); }
            Err(_) => check!(false, "a body that can be deserialized is refused"),
        }
    }
});
// services
static STATUS: AtomicU32 = AtomicU32::new(200);
static CALLS: AtomicU32 = AtomicU32::new(0);
fn response(m: &http::Method) -> Response<Body> {
    let mut r = Response::new(Body::from("hello"));
    *r.status_mut() = http::StatusCode::from_u16(STATUS.load(SeqCst) as u16).unwrap();
    *r.version_mut() = http::Version::HTTP_2;
    r.headers_mut().insert("content-length", HeaderValue::from_static("5"));
    r.headers_mut().append("set-cookie", HeaderValue::from_static("a=1"));
    r.headers_mut().append("set-cookie", HeaderValue::from_static("b=2"));
    r.extensions_mut().insert(Mark(m.as_str().len() as u8));
    r
}
fn all_of(b: Body) -> Vec<u8> { match drive(b.concat2()) { Ok(c) => c.to_vec(), Err(_) => crate::common::violated("body of the response fails") } }
const SHORT: &[usize] = &[0, 5, 6, 7, 8, 11, 16, 18, 21, 22, 28];
harness!(headers_s, 16, { warm::<Hr>("/z"); }, |t| {
    let kind = t.pick(3);
    let m = t.pick(3);
    let p = fixed_path(PATHS[t.pick(2) as usize]);
    let s = [200, 204, 304, 500][t.pick(4) as usize];
    STATUS.store(s, SeqCst);
    CALLS.store(0, SeqCst);
    let mut r = Request::new(Body::empty());
    *r.method_mut() = method(m);
    *r.uri_mut() = uri(false, &p.b[..p.n], None);
    *r.version_mut() = version(t);
    let which = t.pick(SHORT.len() as u8 + 1) as usize;
    if which < SHORT.len() {
        let (n, v) = NAMES[SHORT[which]];
        let k = t.pick(v.len() as u8 + 1) as usize;
        let any = [t.u8()];
        assume!(any[0].wrapping_sub(0x21) < 0x5e);
        r.headers_mut().insert(n, if k == v.len() { HeaderValue::from_bytes(&any).unwrap() } else { HeaderValue::from_static(v[k]) });
    }
    let headers = r.headers().len();
    let version = r.version();
    let ok = move |r: &Request<()>| { CALLS.fetch_add(1, SeqCst); check!((r.headers().len() == headers) & (r.version() == version), "the request shown to the handler"); response(r.method()) };
    let r = match kind {
        0 => drive(AsyncService::new(move |_: Hr, r: Arc<Request<()>>| futures::future::ok::<_, BoxedError>(ok(&r))).call(r)),
        1 => drive(AsyncService::new(move |_: Hr, r: Arc<Request<()>>| futures::future::ok::<_, BoxedError>(ok(&r))).catch_unwind(|_| Err::<Response<Body>, BoxedError>(No(1).into())).call(r)),
        _ => {
            #[cfg(hv_sym)] unsafe { tokio_threadpool::HV_PENDING = 0; tokio_threadpool::HV_RUNS = 0; tokio_threadpool::HV_PEND = Some(not_ready); }
            let f = SyncService::new(move |_: Hr, r: Arc<Request<()>>| ok(&r)).call(r);
            #[cfg(hv_sym)] let r = drive(f);
            #[cfg(not(hv_sym))] let r = crate::script::pool(false, f);
            r
        }
    };
    let e = expect(HR, &p, m);
    check!(CALLS.load(SeqCst) == (e.v != 0) as u32, "the handler is called once if the request decodes, and not otherwise");
    match r {
        Err(_) => check!(false, "the service fails without a reason"),
        Ok(r) if e.v == 0 => {
            let s = r.status().as_u16();
            check!(s == 405, "status of a refusal");
            check!(r.headers().len() == 1, "headers of a refusal");
            check!(all_of(r.into_body()).len() == 0, "body of a refusal");
            cover!(true, "s:refused");
        }
        Ok(r) => {
            check!(r.status().as_u16() as u32 == s, "status");
            check!(r.version() == http::Version::HTTP_2, "version of the response");
            check!(match r.extensions().get::<Mark>() { Some(x) => x.0 as usize == method(m).as_str().len(), None => false }, "extensions of the response");
            check!(r.headers().len() == 3, "headers of the response");
            check!(match r.headers().get("content-length") { Some(v) => v.as_bytes() == b"5", None => false }, "headers of the response");
            let mut c = r.headers().get_all("set-cookie").iter();
            check!(match c.next() { Some(v) => v.as_bytes() == b"a=1", None => false }, "headers of the response");
            check!(match c.next() { Some(v) => v.as_bytes() == b"b=2", None => false }, "headers of the response");
            cover!((s == 304) & (kind == 2), "s:sync");
            cover!((m == HEAD) & (kind == 1), "s:head");
            let b = all_of(r.into_body());
            check!(if m == HEAD { b.len() == 0 } else { b == b"hello" }, "body of the response");
        }
    }
});
