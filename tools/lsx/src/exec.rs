//! Symbolic execution of the IR: one path at a time, forking where both outcomes are feasible.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::{Duration, Instant};

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Obj { pub b: Vec<u8>, pub s: Vec<Id>, pub ro: bool }
impl Obj {
    fn zero(n: usize) -> Obj { Obj { b: vec![0; n], s: vec![], ro: false } }
    fn sym(&self, i: usize) -> Id { if self.s.is_empty() { 0 } else { self.s[i] } }
    fn set_c(&mut self, i: usize, v: u8) { self.b[i] = v; if !self.s.is_empty() { self.s[i] = 0; } }
    fn set_s(&mut self, i: usize, v: Id) { if self.s.is_empty() { self.s = vec![0; self.b.len()]; } self.s[i] = v; }
}
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Frame { f: Rc<Func>, fid: u32, bb: u32, ip: u32, prev: u32, regs: Vec<V>, sbase: u32 }
/// Values of the tape; `id` tells assignments apart.
pub struct Model { id: u32, v: Vec<u8> }
#[derive(Clone)]
pub struct State {
    top: Frame, stack: Vec<Rc<Frame>>, heap: Vec<Rc<Chunk>>, heap_n: u32, stk: Vec<Rc<Obj>>, gl: FxMap<u32, Rc<Obj>>,
    pc: Vec<Id>, dom: Rc<Vec<[u64; 4]>>, model: Rc<Model>, nsym: u32, cov: Vec<Rc<str>>, obs: Vec<u64>, exc: V, steps: u64, panic_at: Option<Rc<Vec<u32>>>, depth: u32,
}
/// Why a path ends.
#[derive(Debug, Clone)]
pub enum Stop { Done, Infeasible, Violated(String), Panic, Abort(String), Mem(String), Limit(String) }
type X<T> = Result<T, Stop>;
#[derive(Clone)]
enum Cached { Unsat, Sat(Rc<Vec<(u32, u8)>>), Unknown }
#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub infeasible: u64, pub forks: u64, pub queries: u64, pub cached: u64, pub quick: u64, pub checks: u64, pub check_queries: u64, pub unsat: u64, pub sat: u64, pub steps: u64, pub solver: f64, pub max_pc: u64, pub max_steps: u64 }
pub struct Violation { pub kind: String, pub msg: String, pub tape: Vec<u8>, pub at: Vec<String> }
pub struct PathRec { pub tape: Vec<u8>, pub cov: Vec<Rc<str>>, pub obs: Vec<u64> }
pub struct Eng {
    pub m: Module, pub p: Pool, z: Z3, fids: FxMap<Rc<str>, u32>, fnames: Vec<Rc<str>>, funcs: Vec<Option<Rc<Func>>>, hooks: Vec<u8>, gids: FxMap<Rc<str>, u32>, globals: Vec<Rc<Obj>>,
    cache: FxMap<Vec<Id>, Cached>, pub st: Stats, pub work: VecDeque<State>, pub viol: Vec<Violation>, pub cov: Vec<(Rc<str>, Vec<u8>, u64)>, pub limits: Vec<(String, Vec<u8>, u64)>, pub rec: Vec<PathRec>, pub executed: Vec<bool>,
    pub deadline: Instant, pub max_steps: u64, pub timed_out: bool, pub keep: usize, last_model: u32, models: u32, tables: FxMap<Id, [u64; 4]>, rng: u64, pub max_viol: usize, pub trace: bool, pub slice: u32,
}
fn space(a: u64) -> (u64, u32, usize) { (a >> 46, (a >> 24 & 0x3F_FFFF) as u32, (a & 0xFF_FFFF) as usize) }
const HEAP: u64 = 1 << 46;
const STACK: u64 = 2 << 46;
const GLOB: u64 = 3 << 46;
const FBASE: u64 = 0x10_0000;
const MAXOBJ: u64 = 8 << 20;

impl Eng {
    pub fn new(m: Module, timeout: u64, max_steps: u64) -> Eng {
        Eng { m, p: Pool::new(), z: Z3::new(200_000_000), fids: FxMap::default(), fnames: vec![], funcs: vec![], hooks: vec![], gids: FxMap::default(), globals: vec![], cache: FxMap::default(), st: Stats::default(), work: VecDeque::new(), viol: vec![], cov: vec![], limits: vec![], rec: vec![], executed: vec![], deadline: Instant::now() + Duration::from_secs(timeout), max_steps, timed_out: false, keep: 64, last_model: u32::MAX, models: 1, tables: FxMap::default(), rng: 88172645463325252, max_viol: 4, trace: false, slice: 200_000 }
    }
    fn fid(&mut self, n: &Rc<str>) -> u32 {
        if let Some(i) = self.fids.get(n) { return *i; }
        let n2 = self.m.aliases.get(n).cloned().filter(|a| self.m.funcs.contains_key(a));
        if let Some(a) = n2 { let i = self.fid(&a); self.fids.insert(n.clone(), i); return i; }
        let i = self.fnames.len() as u32;
        self.fnames.push(n.clone());
        self.funcs.push(None);
        self.executed.push(false);
        // functions whose body is not executed
        // (the hash of std's hash tables: all keys collide, so that lookups are decided by ==)
        let h = if n.contains("3std9panicking12default_hook") || n.contains("std9panicking4take_hook_") || (n.contains("4hash6random11RandomState") && n.contains("4hash11BuildHasher8hash_one")) { 1 } else { 0 };
        self.hooks.push(h);
        self.fids.insert(n.clone(), i);
        i
    }
    pub fn fname(&self, i: u32) -> &str { &self.fnames[i as usize] }
    fn func(&mut self, i: u32) -> X<Rc<Func>> {
        if let Some(f) = &self.funcs[i as usize] { return Ok(f.clone()); }
        let n = self.fnames[i as usize].clone();
        let mut f = self.m.func(&n).map_err(|e| Stop::Limit(format!("IR: {}", e)))?;
        let mut bs = std::mem::take(&mut f.blocks);
        for b in &mut bs {
            for ph in &mut b.phis { for (_, o) in &mut ph.from { self.res(o, &ph.ty)?; } }
            for i in &mut b.insts { self.res_inst(i)?; }
        }
        f.blocks = bs;
        let f = Rc::new(f);
        self.funcs[i as usize] = Some(f.clone());
        Ok(f)
    }
    fn res(&mut self, o: &mut O, t: &Ty) -> X<()> { if let O::K(k) = o { let v = self.konst(k, t)?; *o = O::V(v); } Ok(()) }
    fn res_inst(&mut self, i: &mut I) -> X<()> {
        match i {
            I::Bin(_, _, t, a, b) | I::ICmp(_, _, t, a, b) => { self.res(a, t)?; self.res(b, t) }
            I::Cast(_, _, t, a, _) | I::Freeze(_, t, a) => self.res(a, t),
            I::Fp(_, _, t, a, b, _) => { self.res(a, t)?; self.res(b, t) }
            I::Select(_, ct, t, c, a, b) => { self.res(c, ct)?; self.res(a, t)?; self.res(b, t) }
            I::Load(_, _, p) => self.res(p, &Ty::Ptr),
            I::Store(t, v, p) => { self.res(v, t)?; self.res(p, &Ty::Ptr) }
            I::Gep(_, b, _, v) => { self.res(b, &Ty::Ptr)?; for (t, o, _) in v { self.res(o, t)?; } Ok(()) }
            I::Call(_, _, c, args, _) => {
                if let Callee::Name(n) = c { let n = n.clone(); *c = Callee::F(self.fid(&n)); }
                if let Callee::Ind(o) = c { self.res(o, &Ty::Ptr)?; }
                for (t, o) in args { if *t == Ty::Meta { *o = O::V(V::C(0)); } else { self.res(o, t)?; } }
                Ok(())
            }
            I::CondBr(c, _, _) => self.res(c, &Ty::Int(1)),
            I::Switch(t, o, _, _) => self.res(o, t),
            I::Ret(Some((t, o))) => self.res(o, t),
            I::Resume(o) => self.res(o, &Ty::Struct(Rc::new(vec![Ty::Ptr, Ty::Int(32)]), false)),
            I::Extract(..) => Ok(()),
            I::Insert(_, t, a, et, e, _) => { self.res(a, t)?; self.res(e, et) }
            I::InsElt(_, t, a, e, k) => { self.res(a, t)?; if let Ty::Vec(_, et) = t { let et = (**et).clone(); self.res(e, &et)?; } self.res(k, &Ty::Int(64)) }
            I::ExtElt(_, t, a, k) => { self.res(a, t)?; self.res(k, &Ty::Int(64)) }
            I::Shuf(_, t, a, b, _, _) => { self.res(a, t)?; self.res(b, t) }
            I::Rmw(_, _, t, p, v) => { self.res(p, &Ty::Ptr)?; self.res(v, t) }
            I::CmpXchg(_, t, p, a, b) => { self.res(p, &Ty::Ptr)?; self.res(a, t)?; self.res(b, t) }
            _ => Ok(()),
        }
    }
    fn num(&mut self, v: u128, w: u32) -> V { if w <= 64 { V::C(v as u64 & mask(w as u16) as u64) } else { V::S(self.p.c(v, w as u16)) } }
    fn addr_of(&mut self, n: &Rc<str>) -> X<u64> {
        if self.m.funcs.contains_key(n) || self.m.decls.contains_key(n) { return Ok(FBASE + self.fid(n) as u64 * 16); }
        if let Some(a) = self.m.aliases.get(n).cloned() { return self.addr_of(&a); }
        if let Some(g) = self.gids.get(n) { return Ok(GLOB | (*g as u64) << 24); }
        let (t, k, ro) = self.m.global(n).map_err(|e| Stop::Limit(format!("IR: {}: {}", n, e)))?;
        let g = self.globals.len() as u32;
        self.gids.insert(n.clone(), g);
        let mut o = Obj::zero(t.size() as usize);
        self.globals.push(Rc::new(Obj::default()));
        if let Some(k) = k { self.init(&mut o, 0, &k, &t)?; }
        o.ro = ro;
        self.globals[g as usize] = Rc::new(o);
        Ok(GLOB | (g as u64) << 24)
    }
    fn init(&mut self, o: &mut Obj, at: u64, k: &K, t: &Ty) -> X<()> {
        match (k, t) {
            (K::Zero, _) | (K::Undef, _) => {}
            (K::Bytes(b), _) => o.b[at as usize..at as usize + b.len()].copy_from_slice(b),
            (K::Agg(v), _) => for (i, (et, ek)) in v.iter().enumerate() { let (off, _) = t.field(i); self.init(o, at + off, ek, et)?; },
            _ => {
                let v = self.konst(k, t)?;
                let n = t.size() as usize;
                let bytes = match v { V::C(c) => (c as u128).to_le_bytes(), V::S(i) => self.p.konst(i).unwrap_or(0).to_le_bytes(), V::A(_) => return Err(Stop::Limit("IR: aggregate initializer".into())) };
                o.b[at as usize..at as usize + n].copy_from_slice(&bytes[..n]);
            }
        }
        Ok(())
    }
    fn kint(&mut self, k: &K) -> X<u128> {
        Ok(match k {
            K::Int(v) => *v, K::Undef | K::Zero => 0,
            K::Global(n) => self.addr_of(n)? as u128,
            K::Off(b, o) => (self.kint(b)? as u64).wrapping_add(*o as u64) as u128,
            K::Cast(b, f, t) => { let v = self.kint(b)?; v & mask(*f as u16) & mask(*t as u16) }
            K::Expr(op, a, b, w) => { let (a, b) = (self.kint(a)?, self.kint(b)?); let o = match *op { "sub" => Op::Sub, "add" => Op::Add, _ => Op::Xor }; fold(o, *w as u16, a & mask(*w as u16), b & mask(*w as u16)) }
            _ => return Err(Stop::Limit(format!("IR: constant {:?}", k))),
        })
    }
    fn konst(&mut self, k: &K, t: &Ty) -> X<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => { let w = t.bits(); let v = self.kint(k)?; Ok(self.num(v & mask(w as u16), w)) }
            Ty::Void | Ty::Meta | Ty::Label => Ok(V::C(0)),
            Ty::Vec(n, et) => {
                let v: Vec<V> = match k {
                    K::Agg(v) => { let mut r = vec![]; for (et, k) in v { r.push(self.konst(k, et)?); } r }
                    K::Bytes(b) => b.iter().map(|x| V::C(*x as u64)).collect(),
                    K::Splat(b) => { let x = self.konst(&b.1, &b.0)?; vec![x; *n as usize] }
                    K::Int(_) => { let x = self.konst(k, et)?; vec![x; *n as usize] }
                    _ => { let x = self.konst(&K::Zero, et)?; vec![x; *n as usize] }
                };
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, et) => {
                let mut r = vec![];
                match k { K::Agg(v) => for (et, k) in v { r.push(self.konst(k, et)?) }, K::Bytes(b) => for x in b.iter() { r.push(V::C(*x as u64)) }, _ => for _ in 0..*n { r.push(self.konst(&K::Zero, et)?) } }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Struct(f, _) => {
                let mut r = vec![];
                match k { K::Agg(v) => for (et, k) in v { r.push(self.konst(k, et)?) }, _ => for et in f.iter() { r.push(self.konst(&K::Zero, et)?) } }
                Ok(V::A(Rc::new(r)))
            }
        }
    }

    // ------------------------------------------------------------------ values
    fn id(&mut self, v: &V, w: u32) -> Id { match v { V::C(c) => self.p.c(*c as u128, w as u16), V::S(i) => *i, V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, i: Id) -> V { if self.p.w(i) <= 64 { if let Some(k) = self.p.konst(i) { return V::C(k as u64); } } V::S(i) }
    fn op(f: &Frame, o: &O) -> V { match o { O::Reg(r) => f.regs[*r as usize].clone(), O::V(v) => v.clone(), O::K(_) => unreachable!() } }

    // ------------------------------------------------------------------ solving
    fn eval(&mut self, st: &State, i: Id) -> u128 {
        if st.model.id != self.last_model { self.p.new_epoch(); self.last_model = st.model.id; }
        self.p.eval(i, &st.model.v)
    }
    /// For which values of its only byte a condition holds.
    fn table(&mut self, lit: Id, k: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&lit) { return *t; }
        let mut r = [0u64; 4];
        let mut tape = vec![0u8; k as usize + 1];
        for v in 0..256usize { tape[k as usize] = v as u8; self.p.new_epoch(); if self.p.eval(lit, &tape) == 1 { r[v / 64] |= 1 << (v % 64); } }
        self.last_model = u32::MAX;
        self.tables.insert(lit, r);
        r
    }
    /// Adds a condition to a path.
    fn constrain(&mut self, st: &mut State, lit: Id) {
        st.pc.push(lit);
        let s = self.p.supp(lit);
        if s.count_ones() == 1 {
            let k = s.trailing_zeros();
            let t = self.table(lit, k);
            let d = Rc::make_mut(&mut st.dom);
            if d.len() <= k as usize { d.resize(k as usize + 1, [!0; 4]); }
            for i in 0..4 { d[k as usize][i] &= t[i]; }
        }
        self.st.max_pc = self.st.max_pc.max(st.pc.len() as u64);
    }
    /// Decides conditions on one byte from the values left to it, where that settles the matter.
    fn quick(&mut self, st: &State, lit: Id) -> Option<Cached> {
        let s = self.p.supp(lit);
        if s.count_ones() != 1 { return None; }
        let k = s.trailing_zeros();
        let mut t = self.table(lit, k);
        if let Some(d) = st.dom.get(k as usize) { for i in 0..4 { t[i] &= d[i]; } }
        let w = match (0..4).find(|i| t[*i] != 0) { None => return Some(Cached::Unsat), Some(w) => w };
        for c in &st.pc { let x = self.p.supp(*c); if x & s != 0 && x != s { return None; } }
        Some(Cached::Sat(Rc::new(vec![(k, (w as u32 * 64 + t[w].trailing_zeros()) as u8)])))
    }
    fn query(&mut self, st: &State, lit: Id) -> Cached {
        if let Some(r) = self.quick(st, lit) { self.st.quick += 1; return r; }
        self.ask(st, lit)
    }
    fn ask(&mut self, st: &State, lit: Id) -> Cached {
        // constraints that (transitively) share tape bytes with the literal
        let mut supp = self.p.supp(lit);
        let mut used: Vec<Id> = vec![];
        let mut rest: Vec<Id> = st.pc.clone();
        loop {
            let before = used.len();
            let mut keep = Vec::with_capacity(rest.len());
            for c in rest { if self.p.supp(c) & supp != 0 { used.push(c); } else { keep.push(c); } }
            rest = keep;
            for c in &used[before..] { supp |= self.p.supp(*c); }
            if used.len() == before { break; }
        }
        used.sort_unstable();
        used.dedup();
        used.push(lit);
        if let Some(r) = self.cache.get(&used) { self.st.cached += 1; return r.clone(); }
        self.st.queries += 1;
        if self.trace { eprintln!("Q {} supp {:x} n {} | {}", self.fnames[st.top.fid as usize], self.p.supp(lit), used.len(), self.p.show(lit, 6)); }
        let t = Instant::now();
        let r = match self.z.check(&mut self.p, &used, supp) {
            Answer::Unsat => { self.st.unsat += 1; Cached::Unsat }
            Answer::Sat(v) => { self.st.sat += 1; Cached::Sat(Rc::new(v)) }
            Answer::Unknown => Cached::Unknown,
        };
        self.st.solver += t.elapsed().as_secs_f64();
        self.cache.insert(used, r.clone());
        r
    }
    fn with_model(&mut self, st: &State, a: &[(u32, u8)]) -> Rc<Model> {
        let mut m = st.model.v.clone();
        for (k, v) in a { if m.len() <= *k as usize { m.resize(*k as usize + 1, 0); } m[*k as usize] = *v; }
        self.models += 1;
        Rc::new(Model { id: self.models, v: m })
    }
    /// Decides a condition, forking if both outcomes are feasible.
    fn decide(&mut self, st: &mut State, c: Id) -> X<bool> {
        if let Some(k) = self.p.konst(c) { return Ok(k == 1); }
        let n = self.p.not(c);
        for k in st.pc.iter().rev() { if *k == c { return Ok(true); } if *k == n { return Ok(false); } }
        let mv = self.eval(st, c) == 1;
        let (mine, other) = if mv { (c, n) } else { (n, c) };
        match self.query(st, other) {
            Cached::Unsat => {}
            Cached::Unknown => { self.note_limit(st, "solver gave up on a branch".into()); }
            Cached::Sat(a) => {
                let mut o = st.clone();
                o.model = self.with_model(st, &a);
                self.constrain(&mut o, other);
                o.depth += 1;
                st.depth += 1;
                self.st.forks += 1;
                self.work.push_back(o);
                self.constrain(st, mine);
            }
        }
        Ok(mv)
    }
    fn note_limit(&mut self, st: &State, m: String) {
        for l in &mut self.limits { if l.0 == m { l.2 += 1; return; } }
        self.limits.push((m, st.model.v.clone(), 1));
    }
    fn assume(&mut self, st: &mut State, c: Id) -> X<()> {
        if let Some(k) = self.p.konst(c) { return if k == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
        if st.pc.contains(&c) { return Ok(()); }
        if self.eval(st, c) != 1 {
            match self.query(st, c) {
                Cached::Unsat => return Err(Stop::Infeasible),
                Cached::Unknown => return Err(Stop::Limit("solver gave up on an assumption".into())),
                Cached::Sat(a) => st.model = self.with_model(st, &a),
            }
        }
        self.constrain(st, c);
        Ok(())
    }
    /// The value as a constant; forks over all feasible values.
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(i) => {
                let k = self.eval(st, *i);
                let e = self.p.eqc(*i, k);
                // every decision is repeated identically on re-execution, until one value is left
                if self.decide(st, e)? { Ok(k as u64) } else { Err(Stop::Limit("internal: concretisation".into())) }
            }
            V::A(_) => Err(Stop::Limit("aggregate used as a number".into())),
        }
    }

    // ------------------------------------------------------------------ memory
    fn obj<'a>(&'a self, st: &'a State, sp: u64, ix: u32) -> Option<&'a Rc<Obj>> {
        match sp {
            1 => st.heap.get(ix as usize / CH).and_then(|c| c.get(ix as usize % CH)).and_then(|o| o.as_ref()),
            2 => st.stk.get(ix as usize),
            3 => st.gl.get(&ix).or_else(|| self.globals.get(ix as usize)),
            _ => None,
        }
    }
    fn objmut<'a>(&'a self, st: &'a mut State, sp: u64, ix: u32) -> Option<&'a mut Obj> {
        match sp {
            1 => match st.heap.get_mut(ix as usize / CH) { None => None, Some(c) => match Rc::make_mut(c).get_mut(ix as usize % CH) { Some(Some(o)) => Some(Rc::make_mut(o)), _ => None } },
            2 => st.stk.get_mut(ix as usize).map(|o| Rc::make_mut(o)),
            3 => {
                if !st.gl.contains_key(&ix) { let o = self.globals.get(ix as usize)?.clone(); st.gl.insert(ix, o); }
                st.gl.get_mut(&ix).map(|o| Rc::make_mut(o))
            }
            _ => None,
        }
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n > MAXOBJ { return Err(Stop::Limit(format!("allocation of {} bytes", n))); }
        let ix = st.heap_n;
        st.heap_n += 1;
        if ix as usize / CH >= st.heap.len() { st.heap.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.heap[ix as usize / CH])[ix as usize % CH] = Some(Rc::new(Obj::zero(n as usize)));
        Ok(HEAP | (ix as u64) << 24)
    }
    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 { return Ok(()); }
        let (sp, ix, off) = space(a);
        if sp != 1 || off != 0 || self.obj(st, sp, ix).is_none() { return Err(Stop::Mem(format!("invalid free of {:#x}", a))); }
        Rc::make_mut(&mut st.heap[ix as usize / CH])[ix as usize % CH] = None;
        Ok(())
    }
    fn bad(&self, st: &State, a: u64, n: u64, what: &str) -> Stop {
        let (sp, ix, off) = space(a);
        let size = self.obj(st, sp, ix).map(|o| o.b.len());
        Stop::Mem(format!("{} of {} bytes at {:#x} (space {}, object {}, offset {}, size {:?})", what, n, a, sp, ix, off, size))
    }
    fn read(&mut self, st: &State, a: u64, n: u64) -> X<V> {
        let (sp, ix, off) = space(a);
        let n = n as usize;
        let o = match self.obj(st, sp, ix) { Some(o) if off + n <= o.b.len() => o.clone(), _ => return Err(self.bad(st, a, n as u64, "read")) };
        self.read_obj(&o, off, n)
    }
    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> X<V> {
        if o.s.is_empty() || o.s[off..off + n].iter().all(|s| *s == 0) {
            let mut v = 0u128;
            for k in (0..n).rev() { v = v << 8 | o.b[off + k] as u128; }
            return Ok(self.num(v, n as u32 * 8));
        }
        if n > 16 { return Err(Stop::Limit("wide read".into())); }
        let mut acc = None;
        for k in 0..n {
            let s = o.s[off + k];
            let b = if s != 0 { s } else { self.p.c(o.b[off + k] as u128, 8) };
            acc = Some(match acc { None => b, Some(l) => self.p.concat(b, l) });
        }
        Ok(self.v(acc.unwrap()))
    }
    fn write(&mut self, st: &mut State, a: u64, v: &V, n: u64) -> X<()> {
        let (sp, ix, off) = space(a);
        let n = n as usize;
        match self.obj(st, sp, ix) { Some(o) if off + n <= o.b.len() && !o.ro => {} _ => return Err(self.bad(st, a, n as u64, "write")) }
        match v {
            V::C(c) => { let c = *c; let o = self.objmut(st, sp, ix).unwrap(); for k in 0..n { o.set_c(off + k, if k < 8 { (c >> (8 * k)) as u8 } else { 0 }); } }
            V::S(i) => {
                let w = self.p.w(*i) as usize;
                let i = if w < n * 8 { self.p.zext(*i, n as u16 * 8) } else { *i };
                for k in 0..n {
                    let b = self.p.extract(i, 8 * k as u16, 8);
                    let kb = self.p.konst(b);
                    let o = self.objmut(st, sp, ix).unwrap();
                    match kb { Some(x) => o.set_c(off + k, x as u8), None => o.set_s(off + k, b) }
                }
            }
            V::A(_) => return Err(Stop::Limit("aggregate write".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, a: &V, t: &Ty) -> X<V> {
        match t {
            Ty::Struct(f, _) => { let mut r = vec![]; for i in 0..f.len() { let (o, ft) = t.field(i); let p = self.add(a, o); r.push(self.load(st, &p, &ft)?); } Ok(V::A(Rc::new(r))) }
            Ty::Arr(n, et) => { let mut r = vec![]; for i in 0..*n { let p = self.add(a, i * et.size()); r.push(self.load(st, &p, et)?); } Ok(V::A(Rc::new(r))) }
            Ty::Vec(n, et) => { if et.bits() % 8 != 0 { return Err(Stop::Limit("bit vector load".into())); } let mut r = vec![]; for i in 0..*n as u64 { let p = self.add(a, i * et.bits() as u64 / 8); r.push(self.load(st, &p, et)?); } Ok(V::A(Rc::new(r))) }
            _ => {
                let w = t.bits();
                let n = (w as u64 + 7) / 8;
                let v = match a { V::C(c) => self.read(st, *c, n)?, V::S(i) => self.read_sym(st, *i, n)?, V::A(_) => return Err(Stop::Limit("address".into())) };
                if w as u64 == n * 8 { return Ok(v); }
                Ok(match v { V::C(c) => V::C(c & mask(w as u16) as u64), V::S(i) => { let e = self.p.extract(i, 0, w as u16); self.v(e) } x => x })
            }
        }
    }
    fn store(&mut self, st: &mut State, a: &V, t: &Ty, v: &V) -> X<()> {
        match (t, v) {
            (Ty::Struct(f, _), V::A(x)) => { for i in 0..f.len() { let (o, ft) = t.field(i); let p = self.add(a, o); self.store(st, &p, &ft, &x[i])?; } Ok(()) }
            (Ty::Arr(_, et), V::A(x)) => { for i in 0..x.len() { let p = self.add(a, i as u64 * et.size()); self.store(st, &p, et, &x[i])?; } Ok(()) }
            (Ty::Vec(_, et), V::A(x)) => { if et.bits() % 8 != 0 { return Err(Stop::Limit("bit vector store".into())); } for i in 0..x.len() { let p = self.add(a, i as u64 * et.bits() as u64 / 8); self.store(st, &p, et, &x[i])?; } Ok(()) }
            _ => {
                let n = (t.bits() as u64 + 7) / 8;
                let c = self.conc(st, a)?;
                self.write(st, c, v, n)
            }
        }
    }
    fn add(&mut self, a: &V, k: u64) -> V { match a { V::C(c) => V::C(c.wrapping_add(k)), V::S(i) => { let c = self.p.c(k as u128, 64); let e = self.p.bin(Op::Add, *i, c); self.v(e) } x => x.clone() } }
    /// read at a symbolic address: pick the object, check the bounds, select among its cells
    fn read_sym(&mut self, st: &mut State, a: Id, n: u64) -> X<V> {
        let k = self.eval(st, a) as u64;
        let (sp, ix, _) = space(k);
        let size = match self.obj(st, sp, ix) { Some(o) if o.b.len() as u64 >= n => o.b.len() as u64, _ => { let c = self.conc(st, &V::S(a))?; return Err(self.bad(st, c, n, "read")); } };
        let base = k & !0xFF_FFFF;
        let bc = self.p.c((base as u128).wrapping_neg(), 64);
        let off = self.p.bin(Op::Add, a, bc);
        let lim = self.p.c((size - n) as u128, 64);
        let inb = self.p.bin(Op::Ule, off, lim);
        if !self.decide(st, inb)? { let c = self.conc(st, &V::S(a))?; return Err(self.bad(st, c, n, "read")); }
        if size > 65536 { let c = self.conc(st, &V::S(a))?; return self.read(st, c, n); }
        let o = self.obj(st, sp, ix).unwrap().clone();
        // off = x + c, x multiple of 2^t
        let (x, c) = match self.p.e(off) { E::Bin(Op::Add, x, c) if self.p.konst(c).is_some() => (x, self.p.konst(c).unwrap() as u64), _ => (off, 0) };
        // a wrapping sum is not taken apart
        let (x, c) = if (c as i64) > 0 && self.p.umax(x) > 1 << 48 { (off, 0) } else { (x, c) };
        let t = self.p.tz(x).min(20);
        let step = 1u64 << t;
        let max = self.p.umax(x).min(u64::MAX as u128) as u64;
        // cells in order of x
        let mut cells: Vec<(u64, V)> = vec![];
        let signed_c = c as i64;
        let mut xv = if signed_c < 0 { let need = signed_c.unsigned_abs(); (need + step - 1) / step * step } else { 0 };
        loop {
            let o2 = xv.wrapping_add(c);
            if o2 > size - n || xv > max { break; }
            let v = self.read_obj(&o, o2 as usize, n as usize)?;
            cells.push((xv, v));
            xv += step;
        }
        if cells.is_empty() { return Err(Stop::Infeasible); }
        if cells.len() > 2048 { let c = self.conc(st, &V::S(a))?; return self.read(st, c, n); }
        let w = (n * 8) as u32;
        let m = mask(w as u16) as u64;
        // runs of cells with equal values, or with value = x + const
        let mut runs: Vec<(u64, u64, Id)> = vec![]; // first x, last x, value
        let mut i = 0;
        while i < cells.len() {
            let mut j = i + 1;
            match &cells[i].1 {
                V::C(v) if w <= 64 => {
                    while j < cells.len() && matches!(&cells[j].1, V::C(u) if u == v) { j += 1; }
                    let mut j2 = i + 1;
                    while j2 < cells.len() && matches!(&cells[j2].1, V::C(u) if *u == v.wrapping_add(cells[j2].0 - cells[i].0) & m) { j2 += 1; }
                    if j2 > j && j2 - i > 2 {
                        j = j2;
                        let xw = if w == 64 { x } else { self.p.extract(x, 0, w as u16) };
                        let d = self.p.c((v.wrapping_sub(cells[i].0)) as u128, w as u16);
                        let e = self.p.bin(Op::Add, xw, d);
                        runs.push((cells[i].0, cells[j - 1].0, e));
                    } else { let e = self.p.c(*v as u128, w as u16); runs.push((cells[i].0, cells[j - 1].0, e)); }
                }
                v => {
                    let e = self.id(v, w);
                    while j < cells.len() && matches!(&cells[j].1, V::S(u) if *u == e) { j += 1; }
                    runs.push((cells[i].0, cells[j - 1].0, e));
                }
            }
            i = j;
        }
        let mut acc = runs.last().unwrap().2;
        // group by value where it appears in several runs: done by ite()'s own merging
        for r in runs.iter().rev().skip(1) {
            let hi = self.p.c(r.1 as u128, 64);
            let cnd = if r.0 == r.1 { self.p.eqc(x, r.0 as u128) } else { self.p.bin(Op::Ule, x, hi) };
            acc = self.p.ite(cnd, r.2, acc);
        }
        // single-value runs use equality, so later ranges stay correct only in order: the chain is
        // scanned from low x to high x, hence `x <= last` is exact for each earlier run
        Ok(self.v(acc))
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let n = n as usize;
        let (ssp, six, soff) = space(s);
        let (dsp, dix, doff) = space(d);
        let so = match self.obj(st, ssp, six) { Some(o) if soff + n <= o.b.len() => o.clone(), _ => return Err(self.bad(st, s, n as u64, "copy from")) };
        match self.obj(st, dsp, dix) { Some(o) if doff + n <= o.b.len() && !o.ro => {} _ => return Err(self.bad(st, d, n as u64, "copy to")) }
        let o = self.objmut(st, dsp, dix).unwrap();
        o.b[doff..doff + n].copy_from_slice(&so.b[soff..soff + n]);
        if !so.s.is_empty() || !o.s.is_empty() {
            if o.s.is_empty() { if so.s[soff..soff + n].iter().any(|x| *x != 0) { o.s = vec![0; o.b.len()]; } }
            if !o.s.is_empty() { for k in 0..n { o.s[doff + k] = so.sym(soff + k); } }
        }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<(u8, Id)>> {
        if n == 0 { return Ok(vec![]); }
        let (sp, ix, off) = space(a);
        match self.obj(st, sp, ix) { Some(o) if off + n as usize <= o.b.len() => Ok((0..n as usize).map(|k| (o.b[off + k], o.sym(off + k))).collect()), _ => Err(self.bad(st, a, n, "read")) }
    }
    fn text(&mut self, st: &State, a: u64, n: u64) -> X<String> { let b = self.bytes(st, a, n)?; Ok(String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned()) }

    // ------------------------------------------------------------------ running
    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let n: Rc<str> = entry.into();
        if !self.m.funcs.contains_key(&n) { return Err(format!("no function {}", entry)); }
        let fid = self.fid(&n);
        let f = self.func(fid).map_err(|e| format!("{:?}", e))?;
        self.executed[fid as usize] = true;
        let regs = vec![V::C(0); f.nregs as usize];
        Ok(State { top: Frame { f, fid, bb: 0, ip: 0, prev: 0, regs, sbase: 0 }, stack: vec![], heap: vec![], heap_n: 1, stk: vec![], gl: FxMap::default(), pc: vec![], dom: Rc::new(vec![]), model: Rc::new(Model { id: 0, v: vec![] }), nsym: 0, cov: vec![], obs: vec![], exc: V::C(0), steps: 0, panic_at: None, depth: 0 })
    }
    pub fn trace_of(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.stack.iter().map(|f| self.fnames[f.fid as usize].to_string()).collect();
        v.push(self.fnames[st.top.fid as usize].to_string());
        v.reverse();
        v
    }
    /// Runs a path to its end. Forked siblings go to `work`.
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.steps(&mut st) { Ok(()) => {} Err(e) => break e }
            if Instant::now() > self.deadline { self.timed_out = true; break Stop::Limit("time".into()); }
        };
        self.st.max_steps = self.st.max_steps.max(st.steps);
        if self.trace { eprintln!("path {:?} steps {} pc {} tape {:?}", r, st.steps, st.pc.len(), String::from_utf8_lossy(&st.model.v)); }
        let mut tape = st.model.v.clone();
        tape.resize(st.nsym as usize, 0);
        match r {
            Stop::Done => {
                self.st.paths += 1;
                for c in &st.cov {
                    match self.cov.iter_mut().find(|x| x.0 == *c) { Some(x) => x.2 += 1, None => self.cov.push((c.clone(), tape.clone(), 1)) }
                }
                let rec = PathRec { tape, cov: st.cov.clone(), obs: st.obs.clone() };
                if self.rec.len() < self.keep { self.rec.push(rec); } else {
                    self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                    let k = self.rng % self.st.paths;
                    if (k as usize) < self.keep { self.rec[k as usize] = rec; }
                }
            }
            Stop::Infeasible => self.st.infeasible += 1,
            Stop::Limit(m) => { let m = format!("{} in {}", m, self.fnames[st.top.fid as usize]); self.note_limit(&st, m); }
            Stop::Violated(_) | Stop::Panic | Stop::Abort(_) | Stop::Mem(_) => {
                self.st.paths += 1;
                let (kind, msg) = match r { Stop::Violated(m) => ("violated", m), Stop::Panic => ("panic", String::new()), Stop::Abort(m) => ("abort", m), Stop::Mem(m) => ("memory", m), _ => unreachable!() };
                let at = match &st.panic_at { Some(v) => v.iter().map(|i| self.fnames[*i as usize].to_string()).collect(), None => self.trace_of(&st) };
                let dup = self.viol.iter().any(|v| v.kind == kind && v.msg == msg && (kind == "violated" || v.at == at));
                if !dup { self.viol.push(Violation { kind: kind.into(), msg, tape, at }); }
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.top.f.clone();
        let from = st.top.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                let v = Self::op(&st.top, &ph.from.iter().find(|x| x.0 == from).expect("phi").1);
                st.top.regs[ph.dst as usize] = v;
            } else {
                let vs: Vec<V> = b.phis.iter().map(|ph| Self::op(&st.top, &ph.from.iter().find(|x| x.0 == from).expect("phi").1)).collect();
                for (ph, v) in b.phis.iter().zip(vs) { st.top.regs[ph.dst as usize] = v; }
            }
        }
        st.top.prev = from;
        st.top.bb = to;
        st.top.ip = 0;
    }
    /// continue after the call instruction the frame is at
    fn after_call(&mut self, st: &mut State, v: Option<V>) {
        let f = st.top.f.clone();
        if let I::Call(dst, _, _, _, inv) = &f.blocks[st.top.bb as usize].insts[st.top.ip as usize] {
            if *dst != NOREG { if let Some(v) = v { st.top.regs[*dst as usize] = v; } }
            match inv { Some((ok, _)) => self.jump(st, *ok), None => st.top.ip += 1 }
        } else { unreachable!() }
    }
    fn pop(&mut self, st: &mut State) -> bool {
        st.stk.truncate(st.top.sbase as usize);
        match st.stack.pop() {
            None => false,
            Some(f) => { st.top = match Rc::try_unwrap(f) { Ok(f) => f, Err(r) => (*r).clone() }; true }
        }
    }
    /// unwinds from the current frame's call (`skip` = leave the current frame first)
    fn unwind(&mut self, st: &mut State, exc: V, skip: bool) -> X<()> {
        if skip && !self.pop(st) { return Err(Stop::Panic); }
        loop {
            let f = st.top.f.clone();
            if let I::Call(_, _, _, _, Some((_, pad))) = &f.blocks[st.top.bb as usize].insts[st.top.ip as usize] {
                st.exc = exc;
                self.jump(st, *pad);
                return Ok(());
            }
            if !self.pop(st) { return Err(Stop::Panic); }
        }
    }
    fn call(&mut self, st: &mut State, fid: u32, args: Vec<V>) -> X<()> {
        if self.hooks[fid as usize] == 1 { self.after_call(st, Some(V::C(0))); return Ok(()); }
        let f = self.func(fid)?;
        self.executed[fid as usize] = true;
        if st.stack.len() > 4000 { return Err(Stop::Limit("call depth".into())); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (r, v) in f.params.iter().zip(args) { regs[*r as usize] = v; }
        let fr = Frame { f, fid, bb: 0, ip: 0, prev: 0, regs, sbase: st.stk.len() as u32 };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && *y == 0 { return Err(Stop::Abort("division by zero".into())); }
            let m = mask(w as u16) as u64;
            return Ok(V::C(match op {
                Op::Add => x.wrapping_add(*y) & m, Op::Sub => x.wrapping_sub(*y) & m, Op::Mul => x.wrapping_mul(*y) & m, Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::UDiv => x / y, Op::URem => x % y,
                Op::Shl => if *y >= w as u64 { 0 } else { (x << y) & m }, Op::LShr => if *y >= w as u64 { 0 } else { x >> y },
                _ => fold(op, w as u16, *x as u128, *y as u128) as u64,
            }));
        }
        if let (V::A(x), V::A(y)) = (a, b) { let mut r = Vec::with_capacity(x.len()); for (p, q) in x.iter().zip(y.iter()) { r.push(self.bin(op, w, p, q)?); } return Ok(V::A(Rc::new(r))); }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.p.bin(op, x, y);
        Ok(self.v(e))
    }
    fn cmp(&mut self, pr: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let s = |v: u64| sext(v as u128, w as u16);
            return V::C(match pr { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => s(*x) < s(*y), Pred::Sle => s(*x) <= s(*y), Pred::Sgt => s(*x) > s(*y), Pred::Sge => s(*x) >= s(*y) } as u64);
        }
        if let (V::A(x), V::A(y)) = (a, b) { let r: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.cmp(pr, w, p, q)).collect(); return V::A(Rc::new(r)); }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = match pr {
            Pred::Eq => self.p.eq(x, y), Pred::Ne => { let e = self.p.eq(x, y); self.p.not(e) }
            Pred::Ult => self.p.bin(Op::Ult, x, y), Pred::Ule => self.p.bin(Op::Ule, x, y), Pred::Ugt => self.p.bin(Op::Ult, y, x), Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y), Pred::Sle => self.p.bin(Op::Sle, x, y), Pred::Sgt => self.p.bin(Op::Slt, y, x), Pred::Sge => self.p.bin(Op::Sle, y, x),
        };
        self.v(e)
    }
    /// Floating point, on one value at a time.
    fn fp(&mut self, st: &mut State, w: &str, t: &Ty, a: &V, b: &V, tt: &Ty) -> X<V> {
        let no = || Stop::Limit(format!("instruction {}", w));
        let ok = |t: &Ty| match t { Ty::Float(32) | Ty::Float(64) => true, Ty::Int(n) => *n <= 64, _ => false };
        if !ok(t) || !ok(tt) { return Err(no()); }
        let (x, y) = (self.conc(st, a)?, self.conc(st, b)?);
        let val = |t: &Ty, x: u64| if *t == Ty::Float(32) { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
        let res = |t: &Ty, v: f64| V::C(if *t == Ty::Float(32) { (v as f32).to_bits() as u64 } else { v.to_bits() });
        let (p, q) = (val(t, x), val(t, y));
        let n = if let Ty::Int(n) = t { *n } else { 0 };
        let tn = if let Ty::Int(n) = tt { *n } else { 0 };
        Ok(match w {
            "fadd" => res(tt, p + q), "fsub" => res(tt, p - q), "fmul" => res(tt, p * q), "fdiv" => res(tt, p / q), "frem" => res(tt, p % q), "fneg" => res(tt, -p),
            "uitofp" => if *tt == Ty::Float(32) { V::C((x as f32).to_bits() as u64) } else { res(tt, x as f64) },
            "sitofp" => { let s = sext(x as u128, n as u16); if *tt == Ty::Float(32) { V::C((s as f32).to_bits() as u64) } else { res(tt, s as f64) } }
            "fptoui" | "fptosi" => { let s = p as i128; V::C(s as u64 & mask(tn as u16) as u64) }
            "fpext" | "fptrunc" => res(tt, p),
            _ => {
                let un = p.is_nan() || q.is_nan();
                V::C(match w.strip_prefix("fcmp.").ok_or_else(no)? {
                    "oeq" => p == q, "ogt" => p > q, "oge" => p >= q, "olt" => p < q, "ole" => p <= q, "one" => !un && p != q, "ord" => !un, "uno" => un,
                    "ueq" => un || p == q, "ugt" => un || p > q, "uge" => un || p >= q, "ult" => un || p < q, "ule" => un || p <= q, "une" => un || p != q, "true" => true, "false" => false,
                    _ => return Err(no()),
                } as u64)
            }
        })
    }
    fn cast(&mut self, k: Cast, a: &V, f: &Ty, t: &Ty) -> X<V> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (f, t) {
            if let V::A(x) = a { if k != Cast::BitCast { let mut r = vec![]; for v in x.iter() { r.push(self.cast(k, v, fe, te)?); } return Ok(V::A(Rc::new(r))); } }
        }
        if k == Cast::BitCast {
            // flatten, then split
            let (fw, parts): (u32, Vec<V>) = match (f, a) { (Ty::Vec(_, e), V::A(x)) => (e.bits(), x.to_vec()), (Ty::Vec(..), _) => return Err(Stop::Limit("bitcast".into())), _ => (f.bits(), vec![a.clone()]) };
            let (tw, n) = match t { Ty::Vec(n, e) => (e.bits(), *n), _ => (t.bits(), 1) };
            if fw == tw { return Ok(if let Ty::Vec(..) = t { V::A(Rc::new(parts)) } else { parts[0].clone() }); }
            let mut acc = None;
            for v in &parts { let i = self.id(v, fw); acc = Some(match acc { None => i, Some(l) => self.p.concat(i, l) }); }
            let all = acc.unwrap();
            if n == 1 && !matches!(t, Ty::Vec(..)) { return Ok(self.v(all)); }
            let mut r = vec![];
            for k in 0..n { let e = self.p.extract(all, (k * tw) as u16, tw as u16); r.push(self.v(e)); }
            return Ok(V::A(Rc::new(r)));
        }
        let (fw, tw) = (f.bits(), t.bits());
        if let V::C(c) = a {
            if fw <= 64 && tw <= 64 {
                return Ok(V::C(match k { Cast::SExt => sext(*c as u128, fw as u16) as u64 & mask(tw as u16) as u64, _ => c & mask(tw as u16) as u64 }));
            }
        }
        let i = self.id(a, fw);
        let e = match k {
            Cast::SExt => self.p.sext(i, tw as u16),
            _ => if tw < fw { self.p.extract(i, 0, tw as u16) } else { self.p.zext(i, tw as u16) },
        };
        Ok(self.v(e))
    }
    fn select(&mut self, c: &V, a: &V, b: &V, t: &Ty) -> V {
        match c {
            V::C(1) => a.clone(),
            V::C(_) => b.clone(),
            V::A(cs) => if let (V::A(x), V::A(y), Ty::Vec(_, et)) = (a, b, t) { let r: Vec<V> = (0..cs.len()).map(|k| self.select(&cs[k], &x[k], &y[k], et)).collect(); V::A(Rc::new(r)) } else { a.clone() },
            V::S(ci) => match (a, b) {
                (V::A(x), V::A(y)) => { let r: Vec<V> = (0..x.len()).map(|k| { let ft = match t { Ty::Vec(_, e) | Ty::Arr(_, e) => (**e).clone(), _ => t.field(k).1 }; self.select(c, &x[k], &y[k], &ft) }).collect(); V::A(Rc::new(r)) }
                _ => { let w = t.bits(); let (x, y) = (self.id(a, w), self.id(b, w)); let e = self.p.ite(*ci, x, y); self.v(e) }
            },
        }
    }
    fn steps(&mut self, st: &mut State) -> X<()> {
        let mut budget = self.slice;
        let s0 = st.steps;
        let r = (|| {
            'frame: loop {
                let f = st.top.f.clone();
                loop {
                    let ins = &f.blocks[st.top.bb as usize].insts[st.top.ip as usize];
                    st.steps += 1;
                    budget -= 1;
                    if budget == 0 { if self.trace { eprintln!("AT {}", self.trace_of(st).join(" < ")); } if st.steps > self.max_steps { return Err(Stop::Limit("path too long".into())); } return Ok(()); }
                    match ins {
                        I::Bin(d, op, t, a, b) => {
                            let w = match t { Ty::Vec(_, e) => e.bits(), t => t.bits() };
                            let (x, y) = (Self::op(&st.top, a), Self::op(&st.top, b));
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { if let V::S(i) = &y { let z = self.p.eqc(*i, 0); if self.decide(st, z)? { return Err(Stop::Abort("division by zero".into())); } } }
                            let v = self.bin(*op, w, &x, &y)?;
                            st.top.regs[*d as usize] = v;
                        }
                        I::ICmp(d, pr, t, a, b) => {
                            let w = match t { Ty::Vec(_, e) => e.bits(), t => t.bits() };
                            let (x, y) = (Self::op(&st.top, a), Self::op(&st.top, b));
                            let v = self.cmp(*pr, w, &x, &y);
                            st.top.regs[*d as usize] = v;
                        }
                        I::Cast(d, k, t, a, tt) => { let x = Self::op(&st.top, a); let v = self.cast(*k, &x, t, tt)?; st.top.regs[*d as usize] = v; }
                        I::Select(d, _, t, c, a, b) => { let (c, x, y) = (Self::op(&st.top, c), Self::op(&st.top, a), Self::op(&st.top, b)); let v = self.select(&c, &x, &y, t); st.top.regs[*d as usize] = v; }
                        I::Load(d, t, p) => { let a = Self::op(&st.top, p); let v = self.load(st, &a, t)?; st.top.regs[*d as usize] = v; }
                        I::Store(t, v, p) => { let (x, a) = (Self::op(&st.top, v), Self::op(&st.top, p)); self.store(st, &a, t, &x)?; }
                        I::Gep(d, b, off, ix) => {
                            let mut a = Self::op(&st.top, b);
                            if *off != 0 { a = self.add(&a, *off as u64); }
                            for (t, o, sc) in ix {
                                let w = t.bits();
                                let x = Self::op(&st.top, o);
                                a = match (&a, &x) {
                                    (V::C(p), V::C(k)) => V::C(p.wrapping_add((sext(*k as u128, w as u16) as i64).wrapping_mul(*sc) as u64)),
                                    _ => {
                                        let (p, k) = (self.id(&a, 64), self.id(&x, w));
                                        let k = self.p.sext(k, 64);
                                        let s = self.p.c(*sc as u64 as u128, 64);
                                        let k = self.p.bin(Op::Mul, k, s);
                                        let e = self.p.bin(Op::Add, p, k);
                                        self.v(e)
                                    }
                                };
                            }
                            st.top.regs[*d as usize] = a;
                        }
                        I::Alloca(d, n) => {
                            st.stk.push(Rc::new(Obj::zero(*n as usize)));
                            st.top.regs[*d as usize] = V::C(STACK | ((st.stk.len() - 1) as u64) << 24);
                        }
                        I::Br(l) => { self.jump(st, *l); continue; }
                        I::CondBr(c, a, b) => {
                            let t = match Self::op(&st.top, c) { V::C(c) => c == 1, V::S(i) => self.decide(st, i)?, _ => return Err(Stop::Limit("branch".into())) };
                            self.jump(st, if t { *a } else { *b });
                            continue;
                        }
                        I::Switch(t, o, d, cs) => {
                            let v = Self::op(&st.top, o);
                            let to = match v {
                                V::C(c) => cs.iter().find(|x| x.0 == c as u128).map_or(*d, |x| x.1),
                                V::S(i) => {
                                    let _ = t;
                                    let k = self.eval(st, i);
                                    let to = cs.iter().find(|x| x.0 == k).map_or(*d, |x| x.1);
                                    // all values that lead to the same block
                                    let mut c = self.p.c(0, 1);
                                    if to == *d { for (k, l) in cs { if *l != to { let e = self.p.eqc(i, *k); c = self.p.or(c, e); } } c = self.p.not(c); }
                                    else { for (k, l) in cs { if *l == to { let e = self.p.eqc(i, *k); c = self.p.or(c, e); } } }
                                    if !self.decide(st, c)? { return Err(Stop::Limit("internal: switch".into())); }
                                    to
                                }
                                _ => return Err(Stop::Limit("switch".into())),
                            };
                            self.jump(st, to);
                            continue;
                        }
                        I::Call(_, _, c, args, _) => {
                            let fid = match c {
                                Callee::F(i) => *i,
                                Callee::Ind(o) => {
                                    let v = Self::op(&st.top, o);
                                    let a = self.conc(st, &v)?;
                                    let k = a.wrapping_sub(FBASE) / 16;
                                    if a < FBASE || k >= self.fnames.len() as u64 { return Err(Stop::Mem(format!("call of {:#x}", a))); }
                                    k as u32
                                }
                                Callee::Name(_) => unreachable!(),
                            };
                            let av: Vec<V> = args.iter().map(|(_, o)| Self::op(&st.top, o)).collect();
                            let n = self.fnames[fid as usize].clone();
                            if self.funcs[fid as usize].is_some() || self.m.funcs.contains_key(&n) { self.call(st, fid, av)?; }
                            else { self.external(st, &n, args, av)?; }
                            continue 'frame;
                        }
                        I::Ret(o) => {
                            let v = o.as_ref().map(|(_, o)| Self::op(&st.top, o));
                            if !self.pop(st) { return Err(Stop::Done); }
                            self.after_call(st, v);
                            continue 'frame;
                        }
                        I::Unreachable => return Err(Stop::Abort("unreachable code".into())),
                        I::Resume(o) => {
                            let v = Self::op(&st.top, o);
                            let e = match &v { V::A(x) => x[0].clone(), v => v.clone() };
                            self.unwind(st, e, true)?;
                            continue 'frame;
                        }
                        I::Pad(d, sel) => { let v = V::A(Rc::new(vec![st.exc.clone(), V::C(*sel as u32 as u64)])); st.top.regs[*d as usize] = v; }
                        I::Extract(d, o, ix) => {
                            let mut v = Self::op(&st.top, o);
                            for k in ix { v = match &v { V::A(x) => x[*k as usize].clone(), _ => return Err(Stop::Limit("extractvalue".into())) }; }
                            st.top.regs[*d as usize] = v;
                        }
                        I::Insert(d, _, a, _, e, ix) => {
                            fn ins(v: &V, e: V, ix: &[u32]) -> V { if ix.is_empty() { return e; } if let V::A(x) = v { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&x[ix[0] as usize], e, &ix[1..]); V::A(Rc::new(y)) } else { v.clone() } }
                            let v = ins(&Self::op(&st.top, a), Self::op(&st.top, e), ix);
                            st.top.regs[*d as usize] = v;
                        }
                        I::InsElt(d, _, a, e, k) => {
                            let kv = Self::op(&st.top, k);
                            let k = self.conc(st, &kv)?;
                            if let V::A(x) = Self::op(&st.top, a) { let mut y = (*x).clone(); y[k as usize] = Self::op(&st.top, e); st.top.regs[*d as usize] = V::A(Rc::new(y)); }
                        }
                        I::ExtElt(d, _, a, k) => {
                            let kv = Self::op(&st.top, k);
                            let k = self.conc(st, &kv)?;
                            if let V::A(x) = Self::op(&st.top, a) { st.top.regs[*d as usize] = x[k as usize].clone(); }
                        }
                        I::Shuf(d, _, a, b, ms, n) => {
                            if let (V::A(x), V::A(y)) = (Self::op(&st.top, a), Self::op(&st.top, b)) {
                                let r: Vec<V> = ms.iter().map(|m| if *m < *n { x[*m as usize].clone() } else { y[(*m - *n) as usize].clone() }).collect();
                                st.top.regs[*d as usize] = V::A(Rc::new(r));
                            }
                        }
                        I::Rmw(d, op, t, p, v) => {
                            let (a, x) = (Self::op(&st.top, p), Self::op(&st.top, v));
                            let a = V::C(self.conc(st, &a)?);
                            let old = self.load(st, &a, t)?;
                            let w = t.bits();
                            let new = match &**op {
                                "xchg" => x, "add" => self.bin(Op::Add, w, &old, &x)?, "sub" => self.bin(Op::Sub, w, &old, &x)?, "and" => self.bin(Op::And, w, &old, &x)?, "or" => self.bin(Op::Or, w, &old, &x)?, "xor" => self.bin(Op::Xor, w, &old, &x)?,
                                "umax" => { let c = self.cmp(Pred::Ugt, w, &old, &x); self.select(&c, &old, &x, t) } "umin" => { let c = self.cmp(Pred::Ult, w, &old, &x); self.select(&c, &old, &x, t) }
                                "nand" => { let v = self.bin(Op::And, w, &old, &x)?; let m = self.num(mask(w as u16), w); self.bin(Op::Xor, w, &v, &m)? }
                                o => return Err(Stop::Limit(format!("atomicrmw {}", o))),
                            };
                            self.store(st, &a, t, &new)?;
                            if *d != NOREG { st.top.regs[*d as usize] = old; }
                        }
                        I::CmpXchg(d, t, p, a, b) => {
                            let (p, x, y) = (Self::op(&st.top, p), Self::op(&st.top, a), Self::op(&st.top, b));
                            let p = V::C(self.conc(st, &p)?);
                            let old = self.load(st, &p, t)?;
                            let c = self.cmp(Pred::Eq, t.bits(), &old, &x);
                            let new = self.select(&c, &y, &old, t);
                            self.store(st, &p, t, &new)?;
                            if *d != NOREG { st.top.regs[*d as usize] = V::A(Rc::new(vec![old, c])); }
                        }
                        I::Fp(d, w, t, a, b, tt) => { let (x, y) = (Self::op(&st.top, a), Self::op(&st.top, b)); let v = self.fp(st, w, t, &x, &y, tt)?; st.top.regs[*d as usize] = v; }
                        I::Freeze(d, _, o) => { let v = Self::op(&st.top, o); st.top.regs[*d as usize] = v; }
                        I::Nop => {}
                        I::Unsupported(w) => return Err(Stop::Limit(format!("instruction {}", w))),
                    }
                    st.top.ip += 1;
                }
            }
        })();
        self.st.steps += st.steps - s0;
        r
    }
    fn external(&mut self, st: &mut State, n: &str, args: &[(Ty, O)], a: Vec<V>) -> X<()> {
        let ret = if let Some(r) = n.strip_prefix("llvm.") { self.intrinsic(st, r, args, &a)? } else { self.extcall(st, n, &a)? };
        match ret { Ret::Val(v) => self.after_call(st, v), Ret::Handled => {} }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, O)], a: &[V]) -> X<Ret> {
        let w = args.get(0).map_or(0, |x| match &x.0 { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::Vec(_, e) => e.bits(), _ => 0 });
        let base = n.split('.').next().unwrap();
        let v = match base {
            "lifetime" | "assume" | "experimental" | "prefetch" | "invariant" | "dbg" | "donothing" | "sideeffect" | "x86" => return Ok(Ret::Val(Some(V::C(0)))),
            "memcpy" | "memmove" => { let d = self.conc(st, &a[0])?; let s = self.conc(st, &a[1])?; let k = self.conc(st, &a[2])?; self.copy(st, d, s, k)?; V::C(0) }
            "memset" => {
                let d = self.conc(st, &a[0])?; let k = self.conc(st, &a[2])?;
                for i in 0..k { self.write(st, d + i, &a[1], 1)?; }
                V::C(0)
            }
            "expect" => a[0].clone(),
            "is" => V::C(0),
            "threadlocal" | "launder" | "strip" => a[0].clone(),
            "ptrmask" => self.bin(Op::And, 64, &a[0], &a[1])?,
            "umax" | "umin" | "smax" | "smin" => {
                let pr = match base { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                let c = self.cmp(pr, w, &a[0], &a[1]);
                self.select(&c, &a[0], &a[1], &args[0].0)
            }
            "abs" => { let z = self.num(0, w); let c = self.cmp(Pred::Slt, w, &a[0], &z); let ng = self.bin(Op::Sub, w, &z, &a[0])?; self.select(&c, &ng, &a[0], &args[0].0) }
            "ucmp" | "scmp" => {
                let rw: u32 = n.split('.').nth(1).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
                let (l, g) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.cmp(l, w, &a[0], &a[1]); let gt = self.cmp(g, w, &a[0], &a[1]);
                let t = Ty::Int(rw);
                let inner = self.select(&gt, &V::C(1), &V::C(0), &t);
                let m = V::C(mask(rw as u16) as u64);
                self.select(&lt, &m, &inner, &t)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &base[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let signed = base.starts_with('s');
                let sat = n.split('.').nth(1) == Some("sat");
                let r = self.bin(op, w, &a[0], &a[1])?;
                let ov = match (signed, op) {
                    (false, Op::Add) => self.cmp(Pred::Ult, w, &r, &a[0]),
                    (false, Op::Sub) => self.cmp(Pred::Ult, w, &a[0], &a[1]),
                    _ => {
                        if w > 64 { return Err(Stop::Limit(format!("intrinsic {}", n))); }
                        let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                        let w2 = 2 * w as u16;
                        let (x2, y2) = if signed { (self.p.sext(x, w2), self.p.sext(y, w2)) } else { (self.p.zext(x, w2), self.p.zext(y, w2)) };
                        let full = self.p.bin(op, x2, y2);
                        let ri = self.id(&r, w);
                        let back = if signed { self.p.sext(ri, w2) } else { self.p.zext(ri, w2) };
                        let e = self.p.eq(full, back);
                        let ne = self.p.not(e);
                        self.v(ne)
                    }
                };
                if sat {
                    if signed {
                        // towards the sign of the left operand
                        let z = self.num(0, w);
                        let neg = self.cmp(Pred::Slt, w, &a[0], &z);
                        let (lo, hi) = (self.num(1u128 << (w - 1), w), self.num(mask(w as u16) >> 1, w));
                        let lim = self.select(&neg, &lo, &hi, &args[0].0);
                        return Ok(Ret::Val(Some(self.select(&ov, &lim, &r, &args[0].0))));
                    }
                    let lim = if op == Op::Sub { self.num(0, w) } else { self.num(mask(w as u16), w) };
                    self.select(&ov, &lim, &r, &args[0].0)
                } else { V::A(Rc::new(vec![r, ov])) }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => match &a[0] {
                V::C(c) => V::C(match base {
                    "ctpop" => c.count_ones() as u64,
                    "ctlz" => (c.leading_zeros() - (64 - w)) as u64,
                    "cttz" => if *c == 0 { w as u64 } else { c.trailing_zeros() as u64 },
                    "bswap" => c.swap_bytes() >> (64 - w),
                    _ => c.reverse_bits() >> (64 - w),
                }),
                V::S(i) => {
                    let i = *i;
                    let w16 = w as u16;
                    match base {
                        "bswap" => { let mut acc = self.p.extract(i, 0, 8); for k in 1..w16 / 8 { let b = self.p.extract(i, 8 * k, 8); acc = self.p.concat(acc, b); } self.v(acc) }
                        "bitreverse" => { let mut acc = self.p.extract(i, 0, 1); for k in 1..w16 { let b = self.p.extract(i, k, 1); acc = self.p.concat(acc, b); } self.v(acc) }
                        "ctpop" => { let mut acc = self.p.c(0, w16); for k in 0..w16 { let b = self.p.extract(i, k, 1); let b = self.p.zext(b, w16); acc = self.p.bin(Op::Add, acc, b); } self.v(acc) }
                        "cttz" => { let mut acc = self.p.c(w as u128, w16); for k in (0..w16).rev() { let b = self.p.extract(i, k, 1); let c = self.p.c(k as u128, w16); acc = self.p.ite(b, c, acc); } self.v(acc) }
                        _ => { let mut acc = self.p.c(w as u128, w16); for k in 0..w16 { let b = self.p.extract(i, k, 1); let c = self.p.c((w16 - 1 - k) as u128, w16); acc = self.p.ite(b, c, acc); } self.v(acc) }
                    }
                }
                _ => return Err(Stop::Limit(format!("intrinsic {}", n))),
            },
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2])? as u32 % w;
                let s = if base == "fshl" { s } else { (w - s) % w };
                if base == "fshr" && s == 0 { a[1].clone() } else if s == 0 { a[0].clone() } else {
                    let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                    let h = self.p.extract(x, 0, (w - s) as u16);
                    let l = self.p.extract(y, (w - s) as u16, s as u16);
                    let e = self.p.concat(h, l);
                    self.v(e)
                }
            }
            "vector" => {
                // reductions
                let kind = n.split('.').nth(2).unwrap_or("");
                if let V::A(x) = &a[0] {
                    let op = match kind { "or" => Op::Or, "and" => Op::And, "add" => Op::Add, "xor" => Op::Xor, _ => return Err(Stop::Limit(format!("intrinsic {}", n))) };
                    let mut acc = x[0].clone();
                    for y in &x[1..] { acc = self.bin(op, w, &acc, y)?; }
                    acc
                } else { return Err(Stop::Limit(format!("intrinsic {}", n))); }
            }
            "fptoui" | "fptosi" => {
                let x = self.conc(st, &a[0])?;
                let f = if args[0].0 == Ty::Float(32) { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let rw: u32 = n.split('.').nth(2).and_then(|s| s[1..].parse().ok()).unwrap_or(64);
                if rw > 64 { return Err(Stop::Limit(format!("intrinsic {}", n))); }
                let v = f as i128;
                let (lo, hi) = if base == "fptoui" { (0, mask(rw as u16) as i128) } else { (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1) };
                V::C(v.max(lo).min(hi) as u64 & mask(rw as u16) as u64)
            }
            "fabs" => { let x = self.conc(st, &a[0])?; V::C(if args[0].0 == Ty::Float(32) { x & 0x7fff_ffff } else { x & (u64::MAX >> 1) }) }
            "trap" | "ubsantrap" => { return Err(Stop::Abort("trap".into())); }
            _ => return Err(Stop::Limit(format!("intrinsic {}", n))),
        };
        Ok(Ret::Val(Some(v)))
    }
    fn extcall(&mut self, st: &mut State, n: &str, a: &[V]) -> X<Ret> {
        let v = match n {
            "hv_symbolic" => {
                let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?;
                for i in 0..k { let x = self.p.var(st.nsym); st.nsym += 1; self.write(st, p + i, &V::S(x), 1)?; }
                V::C(0)
            }
            "hv_assume" => { let i = self.id(&a[0], 8); let z = self.p.eqc(i, 0); let c = self.p.not(z); self.assume(st, c)?; V::C(0) }
            "hv_concrete" => V::C(self.conc(st, &a[0])?),
            "asm.cpuid" => V::A(Rc::new(vec![V::C(0); 4])),
            "hv_is_zero" => V::C((matches!(a[0], V::C(0))) as u64),
            "hv_is_const" => V::C((matches!(a[0], V::C(_))) as u64),
            "hv_check" => {
                // the property itself: always put to the solver, unless it is constant
                self.st.checks += 1;
                let c = match &a[0] { V::C(c) => self.p.c((*c != 0) as u128, 1), V::S(i) => { let z = self.p.eqc(*i, 0); self.p.not(z) } _ => return Err(Stop::Limit("hv_check".into())) };
                let bad = match self.p.konst(c) {
                    Some(1) => false,
                    Some(_) => true,
                    None => {
                        self.st.check_queries += 1;
                        let n = self.p.not(c);
                        match self.ask(st, n) {
                            Cached::Unsat => false,
                            Cached::Unknown => return Err(Stop::Limit("solver gave up on an assertion".into())),
                            Cached::Sat(m) => { st.model = self.with_model(st, &m); true }
                        }
                    }
                };
                if bad { let p = self.conc(st, &a[1])?; let k = self.conc(st, &a[2])?; let m = self.text(st, p, k)?; return Err(Stop::Violated(m)); }
                V::C(0)
            }
            "hv_violated" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; let m = self.text(st, p, k)?; return Err(Stop::Violated(m)); }
            "hv_limit" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; let m = self.text(st, p, k)?; return Err(Stop::Limit(m)); }
            "hv_covered" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; let m = self.text(st, p, k)?; let m: Rc<str> = m.into(); if !st.cov.contains(&m) { st.cov.push(m); } V::C(0) }
            "hv_observe" => { let v = match &a[0] { V::C(c) => *c, V::S(i) => self.eval(st, *i) as u64, _ => 0 }; st.obs.push(v); V::C(0) }
            "malloc" => { let k = self.conc(st, &a[0])?; V::C(self.malloc(st, k)?) }
            "calloc" => { let x = self.conc(st, &a[0])?; let y = self.conc(st, &a[1])?; V::C(self.malloc(st, x * y)?) }
            "realloc" => {
                let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?;
                let q = self.malloc(st, k)?;
                if p != 0 {
                    let (sp, ix, _) = space(p);
                    let old = match self.obj(st, sp, ix) { Some(o) => o.b.len() as u64, None => return Err(self.bad(st, p, 0, "realloc")) };
                    self.copy(st, q, p, old.min(k))?;
                    self.free(st, p)?;
                }
                V::C(q)
            }
            "free" => { let p = self.conc(st, &a[0])?; self.free(st, p)?; V::C(0) }
            "posix_memalign" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[2])?; let q = self.malloc(st, k)?; self.write(st, p, &V::C(q), 8)?; V::C(0) }
            "memcmp" | "bcmp" => {
                let x = self.conc(st, &a[0])?; let y = self.conc(st, &a[1])?; let k = self.conc(st, &a[2])?;
                let (p, q) = (self.bytes(st, x, k)?, self.bytes(st, y, k)?);
                let mut acc = self.p.c(0, 32);
                for i in (0..k as usize).rev() {
                    if p[i].1 == 0 && q[i].1 == 0 {
                        if p[i].0 != q[i].0 { acc = self.p.c(if p[i].0 < q[i].0 { 0xFFFF_FFFF } else { 1 }, 32); }
                        continue;
                    }
                    let l = if p[i].1 != 0 { p[i].1 } else { self.p.c(p[i].0 as u128, 8) };
                    let r = if q[i].1 != 0 { q[i].1 } else { self.p.c(q[i].0 as u128, 8) };
                    let e = self.p.eq(l, r);
                    if n == "bcmp" { let one = self.p.c(1, 32); acc = self.p.ite(e, acc, one); } else {
                        let lt = self.p.bin(Op::Ult, l, r);
                        let (m1, p1) = (self.p.c(0xFFFF_FFFF, 32), self.p.c(1, 32));
                        let d = self.p.ite(lt, m1, p1);
                        acc = self.p.ite(e, acc, d);
                    }
                }
                self.v(acc)
            }
            "strlen" => { let p = self.conc(st, &a[0])?; let mut k = 0; loop { let b = self.read(st, p + k, 1)?; if self.conc(st, &b)? == 0 { break; } k += 1; } V::C(k) }
            "memchr" => {
                let p = self.conc(st, &a[0])?; let c = self.conc(st, &a[1])? & 255; let k = self.conc(st, &a[2])?;
                let mut r = 0;
                for i in 0..k { let b = self.read(st, p + i, 1)?; let e = self.cmp(Pred::Eq, 8, &b, &V::C(c)); let hit = match e { V::C(x) => x == 1, V::S(i) => self.decide(st, i)?, _ => false }; if hit { r = p + i; break; } }
                V::C(r)
            }
            "_Unwind_RaiseException" => {
                if st.panic_at.is_none() { let mut v: Vec<u32> = st.stack.iter().map(|f| f.fid).collect(); v.push(st.top.fid); v.reverse(); st.panic_at = Some(Rc::new(v)); }
                self.unwind(st, a[0].clone(), false)?;
                return Ok(Ret::Handled);
            }
            "_Unwind_DeleteException" => V::C(0),
            "abort" => return Err(Stop::Abort("abort".into())),
            "getenv" => V::C(0),
            "__errno_location" => { let n: Rc<str> = "hv$errno".into(); let g = match self.gids.get(&n) { Some(g) => *g, None => { let g = self.globals.len() as u32; self.globals.push(Rc::new(Obj::zero(8))); self.gids.insert(n, g); g } }; V::C(GLOB | (g as u64) << 24) }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sched_yield" | "pthread_self" => V::C(0),
            "pthread_key_create" => { let p = self.conc(st, &a[0])?; self.write(st, p, &V::C(1), 4)?; V::C(0) }
            "write" => a[2].clone(),
            "gettid" => V::C(7),
            "getrandom" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; for i in 0..k { self.write(st, p + i, &V::C(0x5A), 1)?; } V::C(k) }
            "clock_gettime" => { let p = self.conc(st, &a[1])?; self.write(st, p, &V::C(1_000_000), 8)?; self.write(st, p + 8, &V::C(0), 8)?; V::C(0) }
            _ => return Err(Stop::Limit(format!("external function {}", n))),
        };
        Ok(Ret::Val(Some(v)))
    }
}
enum Ret { Val(Option<V>), Handled }
