//! Matching by the real engine.
use super::*;
use regex_automata::meta;
#[derive(Debug)]
pub struct Prog { re: meta::Regex }
impl Prog { 
    pub fn groups(&self) -> usize { self.re.captures_len() }
    pub fn name(&self, i: usize) -> Option<&str> { self.re.group_info().to_name(regex_automata::PatternID::ZERO, i) }
 }
pub fn compile(pat: &str, fl: Flags) -> Result<Prog, Error> {
    let syn = regex_automata::util::syntax::Config::new().case_insensitive(fl.ci).dot_matches_new_line(fl.dotall)
        .multi_line(fl.multi).ignore_whitespace(fl.ws).swap_greed(fl.greed).unicode(!fl.nouni);
    match meta::Regex::builder().syntax(syn).build(pat) {
        Ok(re) => Ok(Prog { re }),
        Err(e) => Err(Error::Syntax(e.to_string())),
    }
}
pub fn is_match(p: &Prog, text: &str) -> bool { p.re.is_match(text) }
pub fn caps(p: &Prog, text: &str, at: usize) -> Option<Vec<Option<usize>>> {
    let mut c = p.re.create_captures();
    p.re.captures(regex_automata::Input::new(text).range(at..), &mut c);
    if c.is_match() { Some(c.slots().iter().map(|s| s.map(|s| s.get())).collect()) } else { None }
}
