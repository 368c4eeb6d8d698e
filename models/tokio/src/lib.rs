//! Model of tokio 0.1's single-threaded runtime: `block_on` polls until the future is ready.
//! (`block_on` only polls again when the task has been notified; the harnesses' bodies notify when
//! they are not ready, which natively happens for real.)
pub mod runtime {
    pub mod current_thread {
        use futures::{Async, Future};
        use std::io;
        /// Polls granted to a `block_on`; harnesses keep their schedules shorter.
        pub const POLLS: usize = 16;
        #[derive(Debug)]
        pub struct Runtime { _p: () }
        impl Runtime {
            pub fn new() -> io::Result<Runtime> { Ok(Runtime { _p: () }) }
            pub fn block_on<F: Future>(&mut self, f: F) -> Result<F::Item, F::Error> {
                let mut f = futures::executor::spawn(f);
                let n = std::sync::Arc::new(Nop);
                let mut i = 0;
                while i < POLLS {
                    match f.poll_future_notify(&n, 0) { Ok(Async::Ready(x)) => return Ok(x), Ok(Async::NotReady) => {} Err(e) => return Err(e) }
                    i += 1;
                }
                crate::limit("MODEL: future not ready in time")
            }
            pub fn run(&mut self) -> Result<(), ()> { Ok(()) }
        }
        struct Nop;
        impl futures::executor::Notify for Nop { fn notify(&self, _: usize) {} }
        #[derive(Debug)]
        pub struct Builder { _p: () }
        impl Builder { pub fn new() -> Builder { Builder { _p: () } } pub fn build(&mut self) -> io::Result<Runtime> { Runtime::new() } }
        pub fn block_on_all<F: Future>(f: F) -> Result<F::Item, F::Error> { Runtime { _p: () }.block_on(f) }
    }
}
pub fn run<F: futures::Future<Item = (), Error = ()> + Send + 'static>(_: F) { limit("MODEL: tokio::run") }
pub fn spawn<F: futures::Future<Item = (), Error = ()> + Send + 'static>(_: F) -> executor::Spawn { limit("MODEL: tokio::spawn") }
pub mod executor { pub struct Spawn(()); }
fn limit(m: &'static str) -> ! { extern "C" { fn hv_limit(p: *const u8, n: usize) -> !; } unsafe { hv_limit(m.as_ptr(), m.len()) } }
