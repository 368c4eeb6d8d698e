//! Model of the `regex` crate (ASCII haystacks) for symbolic execution.
//!
//! Patterns are parsed and compiled by the real `regex-syntax`/`regex-automata` (Thompson NFA).
//! Under `hv_sym` only the search differs from the real crate: whether a text matches is computed
//! by a branch-free simulation of that NFA (its result is one formula over the text's bytes), and
//! captures are found by backtracking over it in the NFA's priority order (leftmost-first).
//! On the host (the derive macro runs there) everything is done by the real engine.
//! What the model cannot represent ends in `limit`, which makes the check inconclusive.
use std::fmt;
use std::sync::Arc;

#[cfg_attr(hv_sym, path = "sym.rs")]
#[cfg_attr(not(hv_sym), path = "host.rs")]
mod engine;

#[derive(Clone, PartialEq)]
pub enum Error { Syntax(String), CompiledTooBig(usize) }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self { Error::Syntax(s) => f.write_str(s), Error::CompiledTooBig(_) => f.write_str("too big") }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, Default)]
struct Flags { ci: bool, dotall: bool, multi: bool, ws: bool, greed: bool, nouni: bool }
#[derive(Clone)]
pub struct Regex { pat: Arc<str>, prog: Arc<engine::Prog> }
impl fmt::Debug for Regex { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.pat) } }
impl fmt::Display for Regex { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.pat) } }
impl std::str::FromStr for Regex { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Regex::new(s) } }

impl Regex {
    pub fn new(pat: &str) -> Result<Regex, Error> { Self::with(pat, Flags::default()) }
    fn with(pat: &str, fl: Flags) -> Result<Regex, Error> { Ok(Regex { pat: pat.into(), prog: Arc::new(engine::compile(pat, fl)?) }) }
    pub fn as_str(&self) -> &str { &self.pat }
    pub fn captures_len(&self) -> usize { self.prog.groups() }
    pub fn is_match(&self, text: &str) -> bool { engine::is_match(&self.prog, text) }
    pub fn find<'t>(&self, text: &'t str) -> Option<Match<'t>> { self.captures(text).and_then(|c| c.get(0)) }
    pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
        self.captures_at(text, 0)
    }
    pub fn captures_at<'t>(&self, text: &'t str, at: usize) -> Option<Captures<'t>> {
        engine::caps(&self.prog, text, at).map(|slots| Captures { text, slots, groups: self.prog.groups(), re: self.clone() })
    }
    pub fn find_at<'t>(&self, text: &'t str, at: usize) -> Option<Match<'t>> { self.captures_at(text, at).and_then(|c| c.get(0)) }
    pub fn is_match_at(&self, text: &str, at: usize) -> bool { self.captures_at(text, at).is_some() }
    pub fn shortest_match(&self, text: &str) -> Option<usize> { self.find(text).map(|m| m.end) }
    pub fn captures_iter<'t>(&self, text: &'t str) -> impl Iterator<Item = Captures<'t>> {
        let (re, mut at, mut last) = (self.clone(), 0, None);
        std::iter::from_fn(move || loop {
            if at > text.len() { return None; }
            let c = re.captures_at(text, at)?;
            let m = c.get(0).unwrap();
            if m.is_empty() { at = m.end + 1; if last == Some(m.end) { continue; } } else { at = m.end; }
            last = Some(m.end);
            return Some(c);
        })
    }
    pub fn find_iter<'t>(&self, text: &'t str) -> impl Iterator<Item = Match<'t>> { self.captures_iter(text).map(|c| c.get(0).unwrap()) }
    pub fn split<'t>(&self, text: &'t str) -> impl Iterator<Item = &'t str> {
        let (mut l, mut at) = (Vec::new(), 0);
        for m in self.find_iter(text) { l.push(&text[at..m.start]); at = m.end; }
        l.push(&text[at..]);
        l.into_iter()
    }
    pub fn capture_names(&self) -> impl Iterator<Item = Option<&str>> + '_ { (0..self.prog.groups()).map(move |i| self.prog.name(i)) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'t> { text: &'t str, start: usize, end: usize }
impl<'t> Match<'t> {
    pub fn start(&self) -> usize { self.start }
    pub fn end(&self) -> usize { self.end }
    pub fn range(&self) -> std::ops::Range<usize> { self.start..self.end }
    pub fn len(&self) -> usize { self.end - self.start }
    pub fn is_empty(&self) -> bool { self.end == self.start }
    pub fn as_str(&self) -> &'t str { &self.text[self.start..self.end] }
}
impl<'t> From<Match<'t>> for &'t str { fn from(m: Match<'t>) -> &'t str { m.as_str() } }

pub struct Captures<'t> { text: &'t str, slots: Vec<Option<usize>>, groups: usize, re: Regex }
impl<'t> fmt::Debug for Captures<'t> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Captures") } }
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        if i >= self.groups { return None; }
        match (self.slots[2 * i], self.slots[2 * i + 1]) { (Some(start), Some(end)) => Some(Match { text: self.text, start, end }), _ => None }
    }
    pub fn name(&self, n: &str) -> Option<Match<'t>> { (0..self.groups).find(|i| self.re.prog.name(*i) == Some(n)).and_then(|i| self.get(i)) }
    pub fn len(&self) -> usize { self.groups }
    pub fn iter(&self) -> impl Iterator<Item = Option<Match<'t>>> + '_ { (0..self.groups).map(move |i| self.get(i)) }
}
impl<'t> std::ops::Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str { self.get(i).map(|m| m.as_str()).expect("no group at index") }
}

impl<'t, 'n> std::ops::Index<&'n str> for Captures<'t> {
    type Output = str;
    fn index(&self, n: &'n str) -> &str { self.name(n).map(|m| m.as_str()).expect("no group named so") }
}

#[derive(Clone)]
pub struct RegexSet { list: Vec<Regex> }
impl fmt::Debug for RegexSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RegexSet") } }
impl RegexSet {
    pub fn new<I, S>(exprs: I) -> Result<RegexSet, Error> where S: AsRef<str>, I: IntoIterator<Item = S> { Self::with(exprs, Flags::default()) }
    fn with<I, S>(exprs: I, fl: Flags) -> Result<RegexSet, Error> where S: AsRef<str>, I: IntoIterator<Item = S> {
        let mut list = Vec::new();
        for e in exprs { list.push(Regex::with(e.as_ref(), fl)?); }
        if list.len() > 64 { panic!("MODEL: regex set too large"); }
        Ok(RegexSet { list })
    }
    pub fn empty() -> RegexSet { RegexSet { list: Vec::new() } }
    pub fn len(&self) -> usize { self.list.len() }
    pub fn is_empty(&self) -> bool { self.list.len() == 0 }
    pub fn is_match(&self, text: &str) -> bool { self.matches(text).mask != 0 }
    pub fn matches(&self, text: &str) -> SetMatches {
        let mut mask = 0u64;
        for (i, r) in self.list.iter().enumerate() { mask |= (r.is_match(text) as u64) << i; }
        SetMatches { mask, n: self.list.len() }
    }
    pub fn patterns(&self) -> Vec<String> { self.list.iter().map(|r| r.as_str().to_string()).collect() }
}
#[derive(Clone, Debug)]
pub struct SetMatches { mask: u64, n: usize }
impl SetMatches {
    pub fn matched_any(&self) -> bool { self.mask != 0 }
    pub fn matched(&self, i: usize) -> bool { assert!(i < self.n); (self.mask >> i) & 1 == 1 }
    pub fn len(&self) -> usize { self.n }
    pub fn iter(&self) -> SetMatchesIter { SetMatchesIter { mask: self.mask, n: self.n } }
}
#[derive(Clone, Debug)]
pub struct SetMatchesIter { mask: u64, n: usize }
pub type SetMatchesIntoIter = SetMatchesIter;
impl Iterator for SetMatchesIter {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        let mut i = 0;
        while i < self.n {
            if self.mask & (1u64 << i) != 0 { self.mask &= !(1u64 << i); return Some(i); }
            i += 1;
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.n)) }
}
impl DoubleEndedIterator for SetMatchesIter {
    fn next_back(&mut self) -> Option<usize> {
        let mut i = self.n;
        while i > 0 {
            i -= 1;
            if self.mask & (1u64 << i) != 0 { self.mask &= !(1u64 << i); return Some(i); }
        }
        None
    }
}
impl IntoIterator for SetMatches { type Item = usize; type IntoIter = SetMatchesIter; fn into_iter(self) -> SetMatchesIter { self.iter() } }
impl<'a> IntoIterator for &'a SetMatches { type Item = usize; type IntoIter = SetMatchesIter; fn into_iter(self) -> SetMatchesIter { self.iter() } }

macro_rules! flags { () => {
    pub fn case_insensitive(&mut self, y: bool) -> &mut Self { self.fl.ci = y; self }
    pub fn dot_matches_new_line(&mut self, y: bool) -> &mut Self { self.fl.dotall = y; self }
    pub fn multi_line(&mut self, y: bool) -> &mut Self { self.fl.multi = y; self }
    pub fn ignore_whitespace(&mut self, y: bool) -> &mut Self { self.fl.ws = y; self }
    pub fn swap_greed(&mut self, y: bool) -> &mut Self { self.fl.greed = y; self }
    pub fn unicode(&mut self, y: bool) -> &mut Self { self.fl.nouni = !y; self }
    pub fn size_limit(&mut self, _: usize) -> &mut Self { self }
    pub fn dfa_size_limit(&mut self, _: usize) -> &mut Self { self }
} }
pub struct RegexBuilder { pat: String, fl: Flags }
impl RegexBuilder {
    pub fn new(p: &str) -> Self { RegexBuilder { pat: p.into(), fl: Flags::default() } }
    flags!();
    pub fn build(&self) -> Result<Regex, Error> { Regex::with(&self.pat, self.fl) }
}
pub struct RegexSetBuilder { pats: Vec<String>, fl: Flags }
impl RegexSetBuilder {
    pub fn new<I, S>(p: I) -> Self where S: AsRef<str>, I: IntoIterator<Item = S> {
        RegexSetBuilder { pats: p.into_iter().map(|s| s.as_ref().to_string()).collect(), fl: Flags::default() }
    }
    flags!();
    pub fn build(&self) -> Result<RegexSet, Error> { RegexSet::with(&self.pats, self.fl) }
}
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~' => o.push('\\'), _ => {} }
        o.push(c);
    }
    o
}
