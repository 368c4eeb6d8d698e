//! The error type, for any status code.
use crate::common::Tape;
use crate::env::{self, *};
use crate::script::No;
use hyperdrive::{http::{self, Method, StatusCode}, BoxedError, Error};
fn status(t: &mut Tape) -> (u16, StatusCode) {
    let (h, l) = (t.u8(), t.u8());
    let n = (h as u16) << 8 | l as u16;
    assume!((n >= 100) & (n < 600));
    let s = match StatusCode::from_u16(n) { Ok(s) => s, Err(_) => crate::common::limit("status") };
    (n, s)
}
fn is_error(n: u16) -> bool { (n >= 400) & (n <= 599) }
/// `Error` or the panic that refuses a status that is none
fn made(f: impl FnOnce() -> Error) -> Option<Error> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
fn allow(r: &http::Response<()>) -> Option<&[u8]> { r.headers().get("allow").map(|v| v.as_bytes()) }
harness!(error_s, 4, {}, |t| {
    let (n, s) = status(t);
    match made(|| Error::from_status(s)) {
        None => { check!(!is_error(n), "an error status is refused"); cover!(n < 400, "s:refused"); }
        Some(e) => {
            check!(is_error(n), "a status that is no error is taken");
            check!(e.http_status().as_u16() == n, "status");
            check!(e.source().is_none() & std::error::Error::source(&e).is_none(), "a cause from nowhere");
            check!(e.allowed_methods().is_some() == (n == 405), "list of methods");
            if let Some(l) = e.allowed_methods() { check!(l.len() == 0, "methods from nowhere"); }
            let r = e.response();
            check!(r.status().as_u16() == n, "status of the response");
            check!((r.headers().len() == 1) == (n == 405), "headers of the response");
            check!(r.headers().len() <= 1, "headers of the response");
            if n == 405 { check!(match allow(&r) { Some(a) => a.len() == 0, None => false }, "Allow"); cover!(true, "s:405"); }
            check!(r.version() == http::Version::HTTP_11, "version of the response");
            cover!(n == 599, "s:599");
        }
    }
});
harness!(error_c, 4, {}, |t| {
    let (n, s) = status(t);
    let k = t.u8();
    match made(|| Error::with_source(s, No(k))) {
        None => check!(!is_error(n), "an error status is refused"),
        Some(e) => {
            check!(is_error(n), "a status that is no error is taken");
            check!(e.http_status().as_u16() == n, "status");
            check!(match e.source() { Some(c) => match c.downcast_ref::<No>() { Some(c) => c.0 == k, None => false }, None => false }, "cause");
            check!(match std::error::Error::source(&e) { Some(c) => match c.downcast_ref::<No>() { Some(c) => c.0 == k, None => false }, None => false }, "cause");
            check!(e.allowed_methods().is_some() == (n == 405), "list of methods");
            let r = e.response();
            check!(r.status().as_u16() == n, "status of the response");
            check!((r.headers().len() == 1) == (n == 405), "headers of the response");
            cover!(n == 405, "c:405");
            cover!(n == 404, "c:404");
            // as a boxed error, and as the future that fails with it
            use hyperdrive::futures::{Async, Future};
            match e.into_future::<u8>().poll() {
                Ok(_) => check!(false, "future that does not fail"),
                Err(b) => match b.downcast_ref::<Error>() { Some(e) => { check!(e.http_status().as_u16() == n, "status in the future"); check!(e.source().is_some(), "cause in the future"); } None => check!(false, "error of another type in the future") },
            }
        }
    }
});
static LIST: [Method; 9] = [Method::GET, Method::HEAD, Method::POST, Method::PUT, Method::DELETE, Method::OPTIONS, Method::PATCH, Method::TRACE, Method::CONNECT];
static NAMES: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"];
static SOME: [&Method; 2] = [&LIST[3], &LIST[0]];
// 405, with any list of up to two (or three) methods: all of them, in order, in one header
harness!(error_m, 8, {}, |t| {
    let n = t.pick(if cfg!(feature = "deep") { 4 } else { 3 }) as usize;
    let which = [t.below(9), t.below(9), t.below(9)];
    let mut l: Vec<&'static Method> = Vec::new();
    for i in 0..n { l.push(&LIST[which[i] as usize]); }
    let e = Error::wrong_method(l);
    check!(e.http_status().as_u16() == 405, "status");
    check!(e.source().is_none(), "a cause from nowhere");
    match e.allowed_methods() {
        None => check!(false, "list of methods"),
        Some(m) => { check!(m.len() == n, "list of methods"); for i in 0..n.min(m.len()) { check!(*m[i] == LIST[which[i] as usize], "list of methods"); } }
    }
    let r = e.response();
    check!(r.status().as_u16() == 405, "status of the response");
    check!(r.headers().len() == 1, "headers of the response");
    let want = match n { 0 => String::new(), 1 => String::from(NAMES[which[0] as usize]), 2 => [NAMES[which[0] as usize], NAMES[which[1] as usize]].join(", "), _ => [NAMES[which[0] as usize], NAMES[which[1] as usize], NAMES[which[2] as usize]].join(", ") };
    let a = match allow(&r) { Some(a) => a, None => crate::common::violated("no Allow") };
    // (also: a list of its own would separate with a comma as well, with or without the blank)
    let mut i = 0;
    let mut j = 0;
    let w = want.as_bytes();
    let mut ok = true;
    while j < w.len() || i < a.len() {
        if i < a.len() && a[i] == b' ' { i += 1; continue; }
        if j < w.len() && w[j] == b' ' { j += 1; continue; }
        if i >= a.len() || j >= w.len() || a[i] != w[j] { ok = false; break; }
        i += 1;
        j += 1;
    }
    check!(ok, "Allow");
    cover!(n == 2, "m:2");
    cover!(n == 0, "m:0");
});
// what is shown to people names the status, and the cause if there is one
harness!(error_d, 4, {}, |t| {
    let n = [400u16, 404, 405, 418, 451, 500, 503, 599][t.pick(8) as usize];
    let s = StatusCode::from_u16(n).unwrap();
    let (a, b) = (Error::from_status(s).to_string(), Error::with_source(s, No(1)).to_string());
    let num = n.to_string();
    check!(a.contains(&num) & b.contains(&num), "status in the text");
    check!(b.contains("no") , "cause in the text");
    check!(b.len() > a.len(), "cause in the text");
});
// any kind of cause is kept as it is, also one that is an error of the library
#[derive(Debug)] struct Outer(Error);
impl std::fmt::Display for Outer { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("outer") } }
impl std::error::Error for Outer { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }
harness!(error_n, 8, {}, |t| {
    let codes = [400u16, 404, 405, 422, 500, 503];
    let (n, inner) = (codes[t.pick(6) as usize], codes[t.pick(6) as usize]);
    let (s, si) = (StatusCode::from_u16(n).unwrap(), StatusCode::from_u16(inner).unwrap());
    let kind = t.pick(7);
    let k = t.u8();
    let e = match kind {
        0 => Error::with_source(s, Error::from_status(si)),
        1 => Error::with_source(s, Error::with_source(si, No(k))),
        2 => Error::with_source(s, Error::wrong_method(&SOME[..])),
        3 => Error::with_source(s, Outer(Error::with_source(si, No(k)))),
        4 => Error::with_source(s, Box::new(No(k)) as BoxedError),
        5 => Error::with_source(s, "some text"),
        _ => Error::with_source(s, BoxedError::from(Error::with_source(si, No(k)))),
    };
    check!(e.http_status().as_u16() == n, "status");
    check!(e.allowed_methods().is_some() == (n == 405), "list of methods");
    if let Some(l) = e.allowed_methods() { check!(l.len() == 0, "methods from nowhere"); }
    let c = match std::error::Error::source(&e) { Some(c) => c, None => crate::common::violated("the cause is lost") };
    let number = |c: Option<&(dyn std::error::Error + 'static)>| match c { Some(c) => match c.downcast_ref::<No>() { Some(c) => c.0 == k, None => false }, None => false };
    let own = |c: &(dyn std::error::Error + 'static), deeper: bool| match c.downcast_ref::<Error>() { Some(c) => (c.http_status().as_u16() == inner) & if deeper { number(std::error::Error::source(c)) } else { std::error::Error::source(c).is_none() }, None => false };
    check!(match kind {
        0 => own(c, false),
        1 | 6 => own(c, true),
        2 => match c.downcast_ref::<Error>() { Some(c) => match c.allowed_methods() { Some(l) => l.len() == 2 && *l[0] == Method::PUT && *l[1] == Method::GET, None => false }, None => false },
        3 => match c.downcast_ref::<Outer>() { Some(c) => own(&c.0, true), None => false },
        4 => number(Some(c)),
        _ => c.to_string() == "some text",
    }, "cause");
    let r = e.response();
    check!(r.status().as_u16() == n, "status of the response");
    check!(r.headers().len() == (n == 405) as usize, "headers of the response");
    if n == 405 { check!(match allow(&r) { Some(a) => a.len() == 0, None => false }, "Allow"); }
    cover!((n == 405) & (kind == 2), "n:405 of 405");
    cover!((n == 404) & (kind == 6), "n:boxed");
});
// lists that are static, or owned, of extension methods, long ones
harness!(error_l, 8, {}, |t| {
    lazy_static::lazy_static! { static ref OWN: [Method; 3] = [Method::from_bytes(b"PURGE").unwrap(), Method::from_bytes(b"get").unwrap(), Method::from_bytes(b"X-VERY-LONG-EXTENSION-METHOD").unwrap()]; }
    const TEXT: [&str; 12] = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "PURGE", "get", "X-VERY-LONG-EXTENSION-METHOD"];
    let of = |i: usize| -> &'static Method { if i < 9 { &LIST[i] } else { &OWN[i - 9] } };
    let own = t.pick(2) == 1;
    let n = if own { t.pick(13) as usize } else { 2 };
    let start = if own { t.pick(12) as usize } else { 0 };
    let back = own && t.pick(2) == 1;
    let mut which = Vec::new();
    for i in 0..n { which.push(if !own { [3, 0][i] } else if back { (start + 12 - i) % 12 } else { (start + i) % 12 }); }
    let e = if own { Error::wrong_method(which.iter().map(|&i| of(i)).collect::<Vec<_>>()) } else { Error::wrong_method(&SOME[..]) };
    match e.allowed_methods() {
        None => check!(false, "list of methods"),
        Some(m) => { check!(m.len() == n, "list of methods"); for i in 0..n { check!(*m[i] == *of(which[i]), "list of methods"); } }
    }
    let r = e.response();
    check!(r.status().as_u16() == 405, "status of the response");
    check!(r.headers().len() == 1, "headers of the response");
    let a = match allow(&r) { Some(a) => a, None => crate::common::violated("no Allow") };
    let mut at = 0;
    for i in 0..n {
        if i > 0 { check!(at < a.len() && a[at] == b',', "Allow"); at += 1; while at < a.len() && a[at] == b' ' { at += 1; } }
        let w = TEXT[which[i]].as_bytes();
        check!(at + w.len() <= a.len() && &a[at..at + w.len()] == w, "Allow");
        at += w.len();
    }
    check!(at == a.len(), "Allow");
    cover!((n == 12) & back, "l:all");
    cover!(!own, "l:static");
});
