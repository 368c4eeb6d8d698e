//! Guards, bodies and request types that do what the tape says, and a record of what happened.
use crate::common::{concrete, Tape};
use crate::env::Text;
use futures::{Async, Future, Poll};
use hyperdrive::{http::Request, hyper::Body, BoxedError, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
const LEN: usize = 24;
const Z: AtomicU8 = AtomicU8::new(0);
static EV: [AtomicU8; LEN] = [Z; LEN];
static NEV: AtomicU32 = AtomicU32::new(0);
/// How often something answered "not ready" so far.
pub static PENDING: AtomicU32 = AtomicU32::new(0);
static PEND: [AtomicU8; 16] = [Z; 16];
static FAIL: [AtomicU8; 16] = [Z; 16];
/// Something happened.
pub fn ev(x: u8) { let n = NEV.fetch_add(1, SeqCst) as usize; if n < LEN { EV[n].store(x, SeqCst); } }
/// Forgets what happened (while warming up).
pub fn reset() { NEV.store(0, SeqCst); }
pub fn events() -> usize { NEV.load(SeqCst) as usize }
pub fn event(i: usize) -> u8 { EV[i].load(SeqCst) }
pub fn happened(x: u8) -> usize { let mut n = 0; let mut i = 0; while i < events() { n += (event(i) == x) as usize; i += 1; } n }
/// What step `k` does: how often it is not ready, and whether it fails.
pub fn plan(k: usize, pend: u8, fail: bool) { PEND[k].store(pend, SeqCst); FAIL[k].store(fail as u8, SeqCst); }
/// (symbolic: the branches on them are the solver's)
pub fn tape_plan(t: &mut Tape, k: usize, most: u8) -> (u8, bool) { let p = t.below(most + 1); let f = t.bool(); plan(k, p, f); (p, f) }
/// An error that carries a number.
#[derive(Debug)]
pub struct No(pub u8);
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no") } }
impl std::error::Error for No {}
pub fn no(e: &BoxedError) -> u8 { match e.downcast_ref::<No>() { Some(n) => n.0, None => 0 } }
/// The result of step `k`.
pub struct Step<T> { left: u8, out: Option<Result<T, BoxedError>> }
pub fn step<T>(k: usize, v: T) -> Step<T> {
    ev(k as u8);
    Step { left: PEND[k].load(SeqCst), out: Some(if FAIL[k].load(SeqCst) == 0 { Ok(v) } else { Err(No(k as u8).into()) }) }
}
impl<T> Future for Step<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        if self.left > 0 { self.left -= 1; not_ready(); return Ok(Async::NotReady); }
        match self.out.take() { Some(r) => r.map(Async::Ready), None => crate::common::violated("polled after it had its result") }
    }
}
pub fn not_ready() { PENDING.fetch_add(1, SeqCst); if futures::task::is_in_task() { futures::task::current().notify(); } }
/// Polls until there is a result. An answer "not ready" needs something that was not ready.
pub fn drive<F: Future>(mut f: F) -> Result<F::Item, F::Error> {
    let mut f = futures::executor::spawn(f);
    let n = Arc::new(Nop);
    loop {
        let before = PENDING.load(SeqCst);
        match f.poll_future_notify(&n, 0) {
            Ok(Async::Ready(x)) => return Ok(x),
            Ok(Async::NotReady) => check!(PENDING.load(SeqCst) > before, "pending although nothing is"),
            Err(e) => return Err(e),
        }
    }
}
struct Nop;
impl futures::executor::Notify for Nop { fn notify(&self, _: usize) {} }
/// What a request carries besides method and target, to recognise it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Mark(pub u8);
pub fn marked(m: http::Method, uri: http::Uri, mark: u8) -> Request<()> {
    let mut r = Request::new(());
    *r.method_mut() = m;
    *r.uri_mut() = uri;
    *r.version_mut() = http::Version::HTTP_10;
    r.headers_mut().insert("x-mark", http::header::HeaderValue::from_static("here"));
    r.extensions_mut().insert(Mark(mark));
    r
}
/// The request is the one `marked` made, with this method and target.
pub fn is_marked<T>(r: &Request<T>, m: &http::Method, path: &[u8], mark: u8) -> bool {
    let e = match r.extensions().get::<Mark>() { Some(x) => x.0 == mark, None => false };
    let h = match r.headers().get("x-mark") { Some(v) => v.as_bytes() == b"here", None => false };
    let mut p = r.uri().path().len() == path.len();
    if p { let mut i = 0; while i < path.len() { p &= r.uri().path().as_bytes()[i] == path[i]; i += 1; } }
    e & h & (r.method() == m) & p & (r.version() == http::Version::HTTP_10) & (r.headers().len() == 1)
}
/// A body that arrives in pieces.
pub struct Pieces { pub pieces: Vec<Vec<u8>>, pub at: usize, pub left: Vec<u8>, pub fail: bool }
impl futures::Stream for Pieces {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        let i = self.at;
        if i < self.left.len() && self.left[i] > 0 { self.left[i] -= 1; not_ready(); return Ok(Async::NotReady); }
        self.at += 1;
        if i < self.pieces.len() { return Ok(Async::Ready(Some(std::mem::replace(&mut self.pieces[i], Vec::new())))); }
        if i > self.pieces.len() { crate::common::violated("body read on after its end"); }
        if self.fail { Err(No(99).into()) } else { Ok(Async::Ready(None)) }
    }
}
/// `bytes` cut at `cut` (below `bytes.len()`: two pieces), with pauses.
pub fn pieces(bytes: &[u8], cut: usize, pauses: &[u8], fail: bool) -> Body {
    let mut p = Vec::new();
    if cut < bytes.len() { p.push(bytes[..cut].to_vec()); p.push(bytes[cut..].to_vec()); } else { p.push(bytes.to_vec()); }
    Body::wrap_stream(Pieces { pieces: p, at: 0, left: pauses.to_vec(), fail })
}
/// Runs a future on a real thread pool whose only blocking slot is taken at first (`busy`), until
/// the future has answered that it is not ready (or done so without a slot).
#[cfg(not(hv_sym))]
pub fn pool<T: Send + 'static, E: Send + 'static, F: Future<Item = T, Error = E> + Send + 'static>(busy: bool, mut f: F) -> Result<T, E> {
    use std::sync::mpsc::channel;
    let p = tokio_threadpool::Builder::new().pool_size(2).max_blocking(1).build();
    let (release, released) = channel::<()>();
    let (started, is_started) = channel::<()>();
    let (asked, was_asked) = channel::<()>();
    if busy {
        let mut c = Some((started, released));
        p.spawn(futures::future::poll_fn(move || { let c = &mut c; tokio_threadpool::blocking(|| { let (s, r) = c.take().unwrap(); let _ = s.send(()); let _ = r.recv(); }).map_err(|_| ()) }));
        is_started.recv().unwrap();
    }
    let h = p.spawn_handle(futures::future::poll_fn(move || { let r = f.poll(); let _ = asked.send(()); r }));
    if busy { let _ = was_asked.recv(); let _ = release.send(()); }
    h.wait()
}
