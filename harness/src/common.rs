//! Shared by the symbolic and the native build (`--cfg hv_sym` selects the symbolic one).
/// Rejects the current input (it is outside the harness's stated domain).
macro_rules! assume { ($c:expr) => {{
    #[cfg(hv_sym)] { unsafe { crate::common::hv_assume($c as u8); } }
    #[cfg(not(hv_sym))] { if !($c) { $crate::common::native::rejected(stringify!($c)); } }
}} }
/// The property: reported as a violation when it does not hold.
macro_rules! check { ($c:expr, $m:literal) => {{
    #[cfg(hv_sym)] { let m: &'static str = $m; unsafe { crate::common::hv_check($c as u8, m.as_ptr(), m.len()); } }
    #[cfg(not(hv_sym))] { if !($c) { $crate::common::violated($m) } }
}} }
/// Reachability witness: must be satisfiable, and the witness must replay natively.
macro_rules! cover { ($c:expr, $m:literal) => {{
    if $c { $crate::common::covered($m) }
}} }
/// Declares a harness: name, tape length, code to run once beforehand (on concrete values), body.
macro_rules! harness { ($name:ident, $n:literal, $warm:expr, |$t:ident| $body:block) => {
    #[cfg(hv_sym)]
    #[no_mangle]
    pub extern "C-unwind" fn $name() {
        $warm;
        let mut b = [0u8; $n];
        unsafe { crate::common::hv_symbolic(b.as_mut_ptr(), $n) };
        let mut tape = crate::common::Tape { b: &b, i: 0 };
        let $t = &mut tape;
        $body
    }
    #[cfg(not(hv_sym))]
    #[no_mangle]
    pub unsafe extern "C" fn $name(p: *const u8, n: usize) -> i32 {
        let b = std::slice::from_raw_parts(p, n);
        match std::panic::catch_unwind(|| {
            $warm;
            let mut tape = crate::common::Tape { b, i: 0 };
            let $t = &mut tape;
            $body
        }) { Ok(()) => 0, Err(_) => 101 }
    }
} }
#[cfg(hv_sym)]
extern "C" {
    /// Fills the buffer with unconstrained bytes.
    pub fn hv_symbolic(p: *mut u8, n: usize);
    pub fn hv_assume(c: u8);
    pub fn hv_check(c: u8, p: *const u8, n: usize);
    /// The value itself, a constant on every path from here on.
    fn hv_concrete(x: u64) -> u64;
    fn hv_observe(x: u64);
    fn hv_violated(p: *const u8, n: usize) -> !;
    fn hv_covered(p: *const u8, n: usize);
}
#[cfg(hv_sym)]
#[inline(never)]
pub fn violated(m: &'static str) -> ! { unsafe { hv_violated(m.as_ptr(), m.len()) } }
#[cfg(hv_sym)]
#[inline(never)]
pub fn covered(m: &'static str) { unsafe { hv_covered(m.as_ptr(), m.len()) } }
#[cfg(hv_sym)]
pub fn concrete(x: u64) -> u64 { unsafe { hv_concrete(x) } }
#[cfg(not(hv_sym))]
pub fn concrete(x: u64) -> u64 { x }
/// A number that the native replay of a path has to reproduce.
#[cfg(hv_sym)]
pub fn observe(x: u64) { unsafe { hv_observe(x) } }
#[cfg(not(hv_sym))]
pub fn observe(x: u64) { println!("OBS {}", x) }
/// `if c { a } else { b }` without a branch
pub fn sel(c: bool, a: u8, b: u8) -> u8 { let m = (c as u8).wrapping_neg(); a & m | b & !m }
#[cfg(not(hv_sym))]
pub use self::native::{covered, violated};

/// All the nondeterminism of a harness.
pub struct Tape<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> Tape<'a> {
    pub fn u8(&mut self) -> u8 { let x = self.b[self.i]; self.i += 1; x }
    pub fn bool(&mut self) -> bool { let x = self.u8(); assume!(x <= 1); x & 1 != 0 }
    /// a number below `n`, one path each
    pub fn pick(&mut self, n: u8) -> u8 { let x = self.below(n); concrete(x as u64) as u8 }
    /// a number below `n`
    pub fn below(&mut self, n: u8) -> u8 { let x = self.u8(); assume!(x < n); x }
}

#[cfg(not(hv_sym))]
pub mod native {
    pub fn exit(c: i32) -> ! { use std::io::Write; let _ = std::io::stdout().flush(); extern "C" { fn _exit(c: i32) -> !; } unsafe { _exit(c) } }
    use std::sync::Mutex;
    pub fn rejected(c: &str) -> ! { println!("REJECTED {}", c); exit(11) }
    pub fn violated(m: &str) -> ! { println!("VIOLATED {}", m); exit(10) }
    pub fn covered(m: &str) { println!("COVERED {}", m); }
}
/// The model cannot represent what is asked for: the run is inconclusive.
#[cfg(hv_sym)]
pub fn limit(m: &'static str) -> ! { extern "C" { fn hv_limit(p: *const u8, n: usize) -> !; } unsafe { hv_limit(m.as_ptr(), m.len()) } }
#[cfg(not(hv_sym))]
pub fn limit(m: &'static str) -> ! { println!("LIMIT {}", m); native::exit(12) }
