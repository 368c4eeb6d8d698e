//! Model of `tokio_threadpool::blocking`: the pool may have no blocking slot for a while
//! (`HV_PENDING` times), then runs the closure in place.
use futures::{Async, Poll};
use std::fmt;
pub static mut HV_PENDING: u8 = 0;
/// Called when there is no slot, as the real pool would arrange for a wake-up.
pub static mut HV_PEND: Option<fn()> = None;
/// Closures run through `blocking`.
pub static mut HV_RUNS: u32 = 0;
/// Whether a closure is running inside `blocking` right now.
pub static mut HV_INSIDE: bool = false;
/// The caller is no task of a pool.
pub static mut HV_NO_POOL: bool = false;
pub struct BlockingError { _p: () }
impl fmt::Debug for BlockingError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("BlockingError") } }
impl fmt::Display for BlockingError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("`blocking` annotation used from outside the context of a thread pool") } }
impl std::error::Error for BlockingError {}
pub fn blocking<F, T>(f: F) -> Poll<T, BlockingError> where F: FnOnce() -> T {
    unsafe {
        if HV_NO_POOL { return Err(BlockingError { _p: () }); }
        if HV_PENDING > 0 { HV_PENDING -= 1; if let Some(f) = HV_PEND { f(); } return Ok(Async::NotReady); }
        HV_RUNS += 1;
        HV_INSIDE = true;
    }
    let r = f();
    unsafe { HV_INSIDE = false; }
    Ok(Async::Ready(r))
}
