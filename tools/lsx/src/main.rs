//! lsx: bounded symbolic execution of LLVM IR (as rustc emits it), deciding branches with z3.
//! usage: lsx FILE.ll ENTRY [--jobs N] [--time S] [--steps N] [--keep N] [--trace]
//! Prints one JSON object. Exit: 0 all paths explored, nothing wrong; 1 violation; 2 inconclusive.
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn mmap(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn report(e: &Eng) -> String {
    let s = &e.st;
    let v: Vec<String> = e.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"tape\":\"{}\",\"at\":[{}]}}", js(&v.kind), js(&v.msg), hex(&v.tape), v.at.iter().take(40).map(|x| js(x)).collect::<Vec<_>>().join(","))).collect();
    let c: Vec<String> = e.cov.iter().map(|(m, t, n)| format!("{{\"msg\":{},\"tape\":\"{}\",\"paths\":{}}}", js(m), hex(t), n)).collect();
    let l: Vec<String> = e.limits.iter().map(|(m, t, n)| format!("{{\"msg\":{},\"tape\":\"{}\",\"paths\":{}}}", js(m), hex(t), n)).collect();
    let r: Vec<String> = e.rec.iter().map(|p| format!("{{\"tape\":\"{}\",\"cov\":[{}],\"obs\":[{}]}}", hex(&p.tape), p.cov.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), p.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
    let f: Vec<String> = (0..e.executed.len()).filter(|i| e.executed[*i]).map(|i| js(e.fname(i as u32))).collect();
    format!("{{\"violations\":[{}],\"covers\":[{}],\"limits\":[{}],\"timed_out\":{},\"stats\":{{\"paths\":{},\"infeasible\":{},\"forks\":{},\"queries\":{},\"cached\":{},\"quick\":{},\"checks\":{},\"check_queries\":{},\"unsat\":{},\"sat\":{},\"steps\":{},\"solver_s\":{:.3},\"max_pc\":{},\"max_steps\":{}}},\"paths\":[{}],\"functions\":[{}]}}",
        v.join(","), c.join(","), l.join(","), e.timed_out, s.paths, s.infeasible, s.forks, s.queries, s.cached, s.quick, s.checks, s.check_queries, s.unsat, s.sat, s.steps, s.solver, s.max_pc, s.max_steps, r.join(","), f.join(","))
}
/// What the processes of a run share: how many of them are at work, how many there have been, how many failed.
struct Shared { active: AtomicU32, next: AtomicU32, failed: AtomicU32 }
/// Explores what is pending; as long as there are fewer than `jobs` processes at work, half of it goes to a new one.
fn explore(e: &mut Eng, sh: &Shared, jobs: u32, dir: &str) {
    let mut kids = vec![];
    {
        while let Some(s) = e.work.pop_back() {
            e.run(s);
            if std::time::Instant::now() > e.deadline { e.timed_out = true; }
            if e.viol.len() >= e.max_viol || e.timed_out { break; }
            if e.work.len() < 2 { continue; }
            let a = sh.active.load(SeqCst);
            if a >= jobs || sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { continue; }
            // every other pending state: neighbours resemble each other
            let mut keep = std::collections::VecDeque::new();
            let mut give = std::collections::VecDeque::new();
            for (i, s) in e.work.drain(..).enumerate() { if i % 2 == 0 { give.push_back(s) } else { keep.push_back(s) } }
            let pid = unsafe { fork() };
            if pid == 0 {
                kids.clear();
                drop(keep);
                e.work = give;
                e.st = Stats::default(); e.viol.clear(); e.cov.clear(); e.limits.clear(); e.rec.clear(); e.executed.iter_mut().for_each(|x| *x = false);
                explore(e, sh, jobs, dir);
                let n = sh.next.fetch_add(1, SeqCst);
                if std::fs::write(format!("{}/{}", dir, n), report(e)).is_err() { sh.failed.fetch_add(1, SeqCst); }
                unsafe { _exit(0) }
            }
            if pid < 0 { sh.active.fetch_sub(1, SeqCst); for s in give { keep.push_back(s); } } else { kids.push(pid); }
            e.work = keep;
        }
    }
    if !e.work.is_empty() && e.viol.is_empty() { e.timed_out = true; }
    sh.active.fetch_sub(1, SeqCst);
    for pid in kids {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0); }
        if s != 0 {
            // a process that died has not given its place back
            if s & 0x7f != 0 { sh.active.fetch_sub(1, SeqCst); }
            sh.failed.fetch_add(1, SeqCst);
        }
    }
}
fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d);
    let text = match std::fs::read_to_string(&a[1]) { Ok(t) => t, Err(x) => { eprintln!("lsx: {}: {}", a[1], x); return 3; } };
    let m = ir::Module::load(text);
    let jobs = opt("--jobs", 1);
    let mut e = Eng::new(m, opt("--time", 600), opt("--steps", 200_000_000));
    e.keep = opt("--keep", 64) as usize;
    e.trace = a.iter().any(|x| x == "--trace");
    if e.trace { e.slice = 10_007; }
    let s = match e.start(&a[2]) { Ok(s) => s, Err(x) => { eprintln!("lsx: {}", x); return 3; } };
    e.work.push_back(s);
    let sh: &Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        if p as isize == -1 { eprintln!("lsx: no shared memory"); return 3; }
        &*(p as *const Shared)
    };
    sh.active.store(1, SeqCst);
    let dir = format!("{}/lsx.{}", std::env::temp_dir().display(), std::process::id());
    if std::fs::create_dir_all(&dir).is_err() { eprintln!("lsx: no scratch directory"); return 3; }
    explore(&mut e, sh, jobs as u32, &dir);
    let mut parts = vec![report(&e)];
    for n in 0..sh.next.load(SeqCst) {
        let f = format!("{}/{}", dir, n);
        match std::fs::read_to_string(&f) { Ok(t) if !t.is_empty() => parts.push(t), _ => { sh.failed.fetch_add(1, SeqCst); } }
        let _ = std::fs::remove_file(&f);
    }
    let _ = std::fs::remove_dir(&dir);
    let n = sh.failed.load(SeqCst);
    if n != 0 { eprintln!("lsx: {} workers failed", n); return 3; }
    println!("[{}]", parts.join(","));
    0
}
fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
