//! Searching the real Thompson NFA, in a form that suits symbolic execution.
use super::*;
use regex_automata::nfa::thompson::{self, State, NFA};
use regex_automata::util::look::Look;

extern "C" {
    fn hv_limit(p: *const u8, n: usize) -> !;
    /// Whether the executor knows this value to be the constant 0 (a hint, saves work).
    fn hv_is_zero(x: u8) -> u8;
    /// Whether the executor knows this value.
    fn hv_is_const(x: u8) -> u8;
}
fn limit(m: &'static str) -> ! { unsafe { hv_limit(m.as_ptr(), m.len()) } }

/// A byte-consuming transition: bytes lo..=hi lead to state `to`.
struct Tr { lo: u8, hi: u8, to: usize }
enum St { Eat(Vec<Tr>), Look(Look, usize), Alt(Vec<usize>), Cap(usize, usize), Fail, Match }
struct Nfa { st: Vec<St>, start: usize, groups: usize, names: Vec<Option<String>> }
/// A pattern, compiled when it is needed. (If some of its bytes are not known, it is not looked at before that.)
pub struct Prog { nfa: std::cell::UnsafeCell<Option<Nfa>>, pat: String, fl: Flags }
unsafe impl Sync for Prog {}
impl std::panic::RefUnwindSafe for Prog {}
impl Prog {
    fn nfa(&self) -> &Nfa {
        unsafe {
            if (*self.nfa.get()).is_none() { *self.nfa.get() = Some(match build(&self.pat, self.fl) { Ok(n) => n, Err(_) => limit("MODEL: invalid pattern, found late") }); }
            (*self.nfa.get()).as_ref().unwrap()
        }
    }
    pub fn name(&self, i: usize) -> Option<&str> { self.nfa().names[i].as_ref().map(|s| &s[..]) }
    pub fn groups(&self) -> usize {
        if unsafe { (*self.nfa.get()).is_some() } { return self.nfa().groups; }
        // without compiling it: opening parentheses that capture
        let b = self.pat.as_bytes();
        let (mut n, mut i, mut class) = (1, 0, false);
        while i < b.len() {
            match b[i] {
                b'\\' => i += 1,
                b'[' => class = true,
                b']' => class = false,
                b'(' if !class => { let at = |k: usize| if i + k < b.len() { b[i + k] } else { 0 }; n += ((at(1) != b'?') | ((at(2) == b'P') & (at(3) == b'<')) | (at(2) == b'<')) as usize }
                _ => {}
            }
            i += 1;
        }
        n
    }
}
pub fn compile(pat: &str, fl: Flags) -> Result<Prog, Error> {
    let known = pat.bytes().all(|b| unsafe { hv_is_const(b) } != 0);
    if known && regex_automata::util::syntax::parse_with(pat, &syntax(fl)).is_err() { return Err(Error::Syntax(String::from("syntax"))); }
    Ok(Prog { nfa: std::cell::UnsafeCell::new(None), pat: pat.into(), fl })
}
impl fmt::Debug for Prog { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Prog") } }

/// Only ASCII texts are searched, so only ASCII transitions are kept.
fn tr(t: &thompson::Transition, v: &mut Vec<Tr>) {
    if t.start < 0x80 { v.push(Tr { lo: t.start, hi: if t.end > 0x7F { 0x7F } else { t.end }, to: t.next.as_usize() }); }
}
fn syntax(fl: Flags) -> regex_automata::util::syntax::Config {
    regex_automata::util::syntax::Config::new().case_insensitive(fl.ci).dot_matches_new_line(fl.dotall)
        .multi_line(fl.multi).ignore_whitespace(fl.ws).swap_greed(fl.greed).unicode(!fl.nouni)
}
fn build(pat: &str, fl: Flags) -> Result<Nfa, Error> {
    let nfa: NFA = match NFA::compiler().syntax(syntax(fl)).build(pat) { Ok(n) => n, Err(_) => return Err(Error::Syntax(String::from("syntax"))) };
    let mut st = Vec::new();
    for s in nfa.states() {
        st.push(match s {
            State::ByteRange { trans } => { let mut v = Vec::new(); tr(trans, &mut v); St::Eat(v) }
            State::Sparse(s) => { let mut v = Vec::new(); for t in s.transitions.iter() { tr(t, &mut v); } St::Eat(v) }
            State::Dense(_) => limit("MODEL: dense NFA state"),
            State::Look { look, next } => St::Look(*look, next.as_usize()),
            State::Union { alternates } => St::Alt(alternates.iter().map(|s| s.as_usize()).collect()),
            State::BinaryUnion { alt1, alt2 } => St::Alt(vec![alt1.as_usize(), alt2.as_usize()]),
            State::Capture { next, slot, .. } => St::Cap(slot.as_usize(), next.as_usize()),
            State::Fail => St::Fail,
            State::Match { .. } => St::Match,
        });
    }
    Ok(Nfa { st, start: nfa.start_anchored().as_usize(), groups: nfa.group_info().all_group_len(), names: nfa.group_info().pattern_names(regex_automata::PatternID::ZERO).map(|n| n.map(String::from)).collect() })
}
/// In an ASCII text, where what is a word or a line is a matter of the neighbouring bytes.
fn look(l: Look, i: usize, t: &[u8]) -> bool {
    let n = t.len();
    let word = |b: u8| ((b | 0x20).wrapping_sub(b'a') < 26) | (b.wrapping_sub(b'0') < 10) | (b == b'_');
    let before = || (i > 0) && word(t[i - 1]);
    let behind = || (i < n) && word(t[i]);
    match l {
        Look::Start => i == 0,
        Look::End => i == n,
        Look::StartLF => (i == 0) || (t[i - 1] == b'\n'),
        Look::EndLF => (i == n) || (t[i] == b'\n'),
        Look::WordAscii | Look::WordUnicode => before() != behind(),
        Look::WordAsciiNegate | Look::WordUnicodeNegate => before() == behind(),
        Look::WordStartAscii | Look::WordStartUnicode => !before() & behind(),
        Look::WordEndAscii | Look::WordEndUnicode => before() & !behind(),
        _ => limit("MODEL: look-around in a regex"),
    }
}
/// consuming and accepting states reachable from `s` at position `i` without input
fn closure(p: &Nfa, s: usize, i: usize, n: &[u8], seen: &mut Vec<bool>, out: &mut Vec<usize>) {
    if seen[s] { return; }
    seen[s] = true;
    match &p.st[s] {
        St::Eat(_) | St::Match => out.push(s),
        St::Look(l, t) => if look(*l, i, n) { closure(p, *t, i, n, seen, out) },
        St::Alt(v) => for t in v { closure(p, *t, i, n, seen, out) },
        St::Cap(_, t) => closure(p, *t, i, n, seen, out),
        St::Fail => {}
    }
}
fn enter(p: &Nfa, s: usize, on: u8, i: usize, n: &[u8], cur: &mut Vec<u8>, matched: &mut u8) {
    let mut seen = vec![false; p.st.len()];
    let mut out = Vec::new();
    closure(p, s, i, n, &mut seen, &mut out);
    for t in out {
        if let St::Match = p.st[t] { *matched |= on; } else { cur[t] |= on; }
    }
}
fn ascii(t: &[u8]) {
    let mut all = 0u8;
    for b in t { all |= *b; }
    if all >= 0x80 { limit("MODEL: regex search in non-ASCII text"); }
}
pub fn is_match(p: &Prog, text: &str) -> bool {
    let p = p.nfa();
    let t = text.as_bytes();
    let n = t.len();
    ascii(t);
    let mut cur = vec![0u8; p.st.len()];
    let mut matched = 0u8;
    let mut i = 0;
    loop {
        enter(p, p.start, 1, i, t, &mut cur, &mut matched);
        if i == n { break; }
        let b = t[i];
        let mut next = vec![0u8; p.st.len()];
        let mut s = 0;
        while s < p.st.len() {
            if let St::Eat(v) = &p.st[s] {
                if unsafe { hv_is_zero(cur[s]) } == 0 {
                    for tr in v {
                        let hit = (b.wrapping_sub(tr.lo) <= tr.hi - tr.lo) as u8 & cur[s];
                        enter(p, tr.to, hit, i + 1, t, &mut next, &mut matched);
                    }
                }
            }
            s += 1;
        }
        cur = next;
        i += 1;
    }
    matched != 0
}
pub fn caps(p: &Prog, text: &str, at: usize) -> Option<Vec<Option<usize>>> {
    let p = p.nfa();
    let t = text.as_bytes();
    ascii(t);
    let mut start = at;
    let mut seen = vec![false; p.st.len() * (t.len() + 1)];
    while start <= t.len() {
        let mut slots = vec![None; 2 * p.groups];
        if walk(p, p.start, start, t, &mut seen, &mut slots) { return Some(slots); }
        start += 1;
    }
    None
}
/// Leftmost-first search by backtracking. A (state, position) that failed once fails always.
fn walk(p: &Nfa, s: usize, i: usize, t: &[u8], seen: &mut Vec<bool>, slots: &mut Vec<Option<usize>>) -> bool {
    let k = s * (t.len() + 1) + i;
    if seen[k] { return false; }
    seen[k] = true;
    match &p.st[s] {
        St::Eat(v) => {
            if i == t.len() { return false; }
            let b = t[i];
            // ranges that lead to the same state are one choice
            let mut k = 0;
            while k < v.len() {
                let to = v[k].to;
                let mut hit = false;
                while k < v.len() && v[k].to == to { hit |= b.wrapping_sub(v[k].lo) <= v[k].hi - v[k].lo; k += 1; }
                if hit { return walk(p, to, i + 1, t, seen, slots); }
            }
            false
        }
        St::Look(l, n) => look(*l, i, t) && walk(p, *n, i, t, seen, slots),
        St::Alt(v) => { for n in v { if walk(p, *n, i, t, seen, slots) { return true; } } false }
        St::Cap(c, n) => {
            let old = slots[*c];
            slots[*c] = Some(i);
            if walk(p, *n, i, t, seen, slots) { return true; }
            slots[*c] = old;
            false
        }
        St::Fail => false,
        St::Match => true,
    }
}
