//! `blocking`: the closure is run once, by the pool, and its result is the future's.
use crate::common::Tape;
use crate::script::*;
use futures::{Async, Future};
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
#[cfg(hv_sym)]
fn prepare(slots: u8) { unsafe { tokio_threadpool::HV_PENDING = slots; tokio_threadpool::HV_RUNS = 0; tokio_threadpool::HV_INSIDE = false; tokio_threadpool::HV_PEND = Some(not_ready); } }
#[cfg(not(hv_sym))]
fn prepare(slots: u8) { BUSY.store(slots, SeqCst); }
#[cfg(not(hv_sym))]
static BUSY: AtomicU8 = AtomicU8::new(0);
#[cfg(hv_sym)]
fn inside() { check!(unsafe { tokio_threadpool::HV_INSIDE }, "closure run outside of the pool's `blocking`"); }
#[cfg(not(hv_sym))]
fn inside() {}
#[cfg(hv_sym)]
fn finish<T: Send + 'static, E: Send + 'static>(f: impl Future<Item = T, Error = E> + Send + 'static) -> Result<T, E> { let r = drive(f); check!(unsafe { tokio_threadpool::HV_RUNS } == 1, "runs in the pool"); r }
#[cfg(not(hv_sym))]
fn finish<T: Send + 'static, E: Send + 'static>(f: impl Future<Item = T, Error = E> + Send + 'static) -> Result<T, E> { pool(BUSY.load(SeqCst) > 0, f) }
harness!(blocking_a, 8, {}, |t| {
    reset();
    prepare(t.below(4));
    let v = t.u8();
    let fail = t.bool();
    let text = vec![v, v ^ 1];
    let f = hyperdrive::blocking(move || { ev(1); inside(); if fail { Err(No(v)) } else { Ok(text) } });
    check!(events() == 0, "run before it is asked for");
    match finish(f) {
        Ok(x) => { check!(!fail, "a failure disappears"); check!((x.len() == 2) && (x[0] == v) && (x[1] == v ^ 1), "result"); cover!(true, "a:ok"); }
        Err(e) => { check!(fail, "fails without a reason"); check!(e.0 == v, "error"); cover!(true, "a:error"); }
    }
    check!(events() == 1, "how often the closure is run");
});
// a future that is dropped without having been polled, or while there is no slot, does not run it
harness!(blocking_d, 4, {}, |t| {
    reset();
    prepare(4);
    let polls = t.below(4);
    let f = hyperdrive::blocking(move || -> Result<(), ()> { ev(1); Ok(()) });
    #[cfg(hv_sym)] {
        let mut f = futures::executor::spawn(f);
        let mut i = 0;
        while i < polls { match f.poll_future_notify(&Arc::new(Nop), 0) { Ok(Async::NotReady) => {} _ => check!(false, "result without a run") } i += 1; }
        cover!(polls == 3, "d:3");
    }
    #[cfg(not(hv_sym))] {
        let mut f = Some(f);
        let r: Result<(), ()> = pool(true, futures::future::poll_fn(move || {
            for _ in 0..polls { match f.as_mut().unwrap().poll() { Ok(Async::NotReady) => {} _ => check!(false, "result without a run") } }
            f = None;
            Ok(Async::Ready(()))
        }));
        assert!(r.is_ok());
        if polls == 3 { cover!(true, "d:3"); }
    }
    check!(events() == 0, "run without a slot");
});
struct Nop;
impl futures::executor::Notify for Nop { fn notify(&self, _: usize) {} }
// several at a time, polled in turns, and as steps of one another
harness!(blocking_m, 8, {}, |t| {
    reset();
    prepare(t.below(4));
    let (v, w) = (t.u8(), t.u8());
    let (f1, f2) = (t.bool(), t.bool());
    let one = hyperdrive::blocking(move || { ev(1); inside(); if f1 { Err(No(1)) } else { Ok(v) } });
    let f = one.and_then(move |x| hyperdrive::blocking(move || { ev(2); inside(); if f2 { Err(No(2)) } else { Ok((x, w)) } }));
    #[cfg(hv_sym)] let r = drive(f);
    #[cfg(not(hv_sym))] let r = pool(BUSY.load(SeqCst) > 0, f);
    match r {
        Ok((a, b)) => { check!(!f1 & !f2, "a failure disappears"); check!((a == v) & (b == w), "result"); cover!(true, "m:ok"); }
        Err(e) => { check!(if f1 { e.0 == 1 } else { f2 & (e.0 == 2) }, "error"); cover!(!f1, "m:second fails"); }
    }
    check!((happened(1) == 1) & (happened(2) == !f1 as usize), "how often the closures are run");
});
// inside a task of the pool, with pauses around it
harness!(blocking_p, 8, {}, |t| {
    reset();
    prepare(t.below(3));
    let (_, f1) = tape_plan(t, 1, 2);
    let (_, f3) = tape_plan(t, 3, 2);
    let v = t.u8();
    let f = step(1, v).and_then(|v| hyperdrive::blocking(move || { ev(2); inside(); Ok(v) })).and_then(|v| step(3, v));
    #[cfg(hv_sym)] let r = drive(f);
    #[cfg(not(hv_sym))] let r = pool(BUSY.load(SeqCst) > 0, f);
    match r {
        Ok(x) => { check!(!f1 & !f3 & (x == v), "result"); cover!(true, "p:ok"); }
        Err(e) => check!(if f1 { no(&e) == 1 } else { f3 & (no(&e) == 3) }, "error"),
    }
    check!((happened(2) == !f1 as usize) & (happened(3) == !f1 as usize), "how often the closure is run");
});
// without a pool there is no place to block: the closure is not run at all
harness!(blocking_o, 4, {}, |t| {
    reset();
    prepare(0);
    #[cfg(hv_sym)] unsafe { tokio_threadpool::HV_NO_POOL = true; }
    let polls = t.pick(3);
    let f = hyperdrive::blocking(move || -> Result<u8, ()> { ev(1); Ok(5) });
    let mut f = futures::executor::spawn(f);
    for _ in 0..polls {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.poll_future_notify(&Arc::new(Nop), 0))) { Ok(Ok(Async::Ready(_))) => check!(false, "a result without a pool"), _ => {} }
    }
    check!(events() == 0, "run outside of a pool");
    cover!(polls == 2, "o:2");
});
