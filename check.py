#!/usr/bin/env python3
"""Runs the checks (see DESIGN.md).  check.py PROPERTY [--tier quick|thorough]   |   check.py --replay FILE
Exit: 0 held on everything explored; 1 violation (with a VIOLATION line); 2 no answer."""
import ctypes, fcntl, json, os, re, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, ".build")
sys.path.insert(0, V)
from props import PROPS
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"): ENV.pop(k, None)
SYMFLAGS = "--cfg hv_sym -C debuginfo=0 -C no-vectorize-loops -C no-vectorize-slp"
NATFLAGS = "-C debuginfo=0"
TRIPLE = "x86_64-unknown-linux-gnu"

def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\ntimeout"

def build_lsx():
    return run(["cargo", "build", "--release", "--quiet"], V + "/tools/lsx", dict(ENV, CARGO_TARGET_DIR=BUILD + "/lsx"), 600)
def build_ir(feat):
    return run(["cargo", "rustc", "--quiet", "--profile", "sym", "--features", feat, "--target", TRIPLE, "--", "--emit=llvm-ir"], V + "/harness",
               dict(ENV, RUSTFLAGS=SYMFLAGS, CARGO_TARGET_DIR=BUILD + "/sym"), 600)
def build_native(feat):
    return run(["cargo", "build", "--quiet", "--features", feat], V + "/native", dict(ENV, RUSTFLAGS=NATFLAGS, CARGO_TARGET_DIR=BUILD + "/native"), 600)
def ir_path(): return f"{BUILD}/sym/{TRIPLE}/sym/deps/hvh.ll"
def so_path(): return f"{BUILD}/native/debug/libhvn.so"

def native(so, harness, tape, timeout=30):
    """Runs one input through the real code in a process of its own: (outcome, covered, observed, output)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0); os.putenv("RUST_BACKTRACE", "0")
            os.dup2(w, 1); os.dup2(w, 2); os.close(r)
            signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            f = getattr(lib, harness)
            f.restype = ctypes.c_int
            f.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
            os._exit(f(bytes(tape), len(tape)))
        finally: os._exit(99)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        out += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    out = out.decode("utf-8", "replace")
    code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
    cov = {l[8:] for l in out.splitlines() if l.startswith("COVERED ")}
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith("OBS ")]
    kind = {0: "ok", 10: "violated", 11: "rejected", 12: "limit", 101: "panic", -14: "hang"}.get(code, "crash" if code < 0 else "error")
    return kind, cov, obs, out

def covers_expected(module, harness):
    """`cover!` labels start with the harness's own tag: the part of its name behind the last underscore."""
    tag = harness.rsplit("_", 1)[1]
    src = open(f"{V}/harness/src/{module}.rs").read()
    return set(re.findall(r'cover!\([^;]*?"(' + re.escape(tag) + r':[^"]*)"\)', src, re.S))

def demangle(n):
    """the identifiers of a v0-mangled name, roughly"""
    if not n.startswith("_R"): return n
    out, i = [], 0
    for m in re.finditer(r"(?<![0-9])(\d+)_?", n):
        if m.start() < i: continue
        k = int(m.group(1)); s = n[m.end():m.end() + k]
        if 1 < k == len(s) and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s): out.append(s); i = m.end() + k
    return "::".join(out)

class Result:
    def __init__(self): self.viol, self.errors, self.rows, self.funcs, self.samples, self.sampled = [], [], [], set(), 0, []

def known_findings():
    try: return [l.rstrip("\n") for l in open(V + "/known-findings.txt") if l.startswith("finding: ")]
    except FileNotFoundError: return []

def explore(prop, h, tier, res, budget):
    name, module = h["name"], h["module"]
    t0 = time.time()
    cmd = [f"{BUILD}/lsx/release/lsx", ir_path(), name, "--jobs", "8", "--time", str(int(budget)), "--keep", str(h.get("keep", 6))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        res.errors.append(f"{name}: executor failed: {p.stderr.decode('utf-8', 'replace')[-600:]}"); return
    parts = json.loads(p.stdout)
    st = {}
    for q in parts:
        for k, v in q["stats"].items(): st[k] = max(st.get(k, 0), v) if k.startswith("max_") else st.get(k, 0) + v
        res.funcs.update(q["functions"])
    row = {"harness": name, "what": h.get("what", ""), "bounds": h.get("bounds", ""), "stats": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in st.items()}}
    res.rows.append(row)
    so = so_path()
    # violations first: each has to happen natively
    bad = [v for q in parts for v in q["violations"]]
    confirmed = 0
    seen = set()
    for v in bad:
        tape = bytes.fromhex(v["tape"])
        kind, cov, obs, out = native(so, name, tape)
        what = f"{v['kind']}: {v['msg']}".strip(": ")
        if kind in ("violated", "panic", "crash", "hang"):
            confirmed += 1
            if (name, what) in seen: continue
            seen.add((name, what))
            res.viol.append({"harness": name, "what": what, "native": kind, "tape": v["tape"], "output": out[-2000:], "at": [demangle(x) for x in v["at"][:12]]})
        else: res.errors.append(f"{name}: counterexample ({what}; tape {v['tape']}) does not happen natively ({kind}): {out[-300:]} at {[demangle(x) for x in v['at'][:6]]}")
    if confirmed: return
    if any(q["timed_out"] for q in parts): res.errors.append(f"{name}: out of time after {time.time() - t0:.0f} s, {st.get('paths', 0)} paths")
    for m in {l["msg"] for q in parts for l in q["limits"]}: res.errors.append(f"{name}: not decided: {m}")
    # witnesses and a sample of the paths must come out the same natively
    want = covers_expected(module, name)
    wit = {}
    for q in parts:
        for c in q["covers"]: wit.setdefault(c["msg"], c["tape"])
    for m in sorted(want - set(wit)): res.errors.append(f"{name}: witness {m!r} is unreachable")
    row["witnesses"] = sorted(wit)
    for m, t in sorted(wit.items()):
        kind, cov, obs, out = native(so, name, bytes.fromhex(t))
        if kind == "violated": res.viol.append({"harness": name, "what": f"witness {m}", "native": kind, "tape": t, "output": out[-2000:], "at": []})
        elif kind != "ok" or m not in cov: res.errors.append(f"{name}: witness {m!r} (tape {t}) does not replay: {kind} {out[-300:]}")
    n = 0
    for q in parts:
        for p in q["paths"]:
            kind, cov, obs, out = native(so, name, bytes.fromhex(p["tape"]))
            n += 1
            if kind in ("violated", "panic", "crash"): res.viol.append({"harness": name, "what": "sampled path", "native": kind, "tape": p["tape"], "output": out[-2000:], "at": []})
            elif kind != "ok" or cov != set(p["cov"]) or obs != p["obs"]:
                res.errors.append(f"{name}: path (tape {p['tape']}) differs natively: {kind} {sorted(cov)} {obs} instead of {p['cov']} {p['obs']}: {out[-200:]}")
    res.samples += n
    res.sampled += [{"harness": name, "tape": p["tape"], "covered": p["cov"], "observed": p["obs"]} for q in parts[:1] for p in q["paths"][:2]]
    row["paths_replayed"] = n
    row["wall_s"] = round(time.time() - t0, 1)

def evidence(prop, tier, res, t0, note):
    os.makedirs(V + "/evidence", exist_ok=True)
    tot = {}
    for r in res.rows:
        for k, v in r["stats"].items(): tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
    own = sorted({demangle(f) for f in res.funcs if "hyperdrive" in f or "hyperderive" in f})
    cov = {"explanation": note, "harnesses": res.rows, "queries": {"property_assertions": tot.get("checks", 0), "assertions_put_to_z3": tot.get("check_queries", 0), "z3_queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0), "answered_from_cache": tot.get("cached", 0), "answered_from_byte_domains": tot.get("quick", 0)},
           "solver_s": round(tot.get("solver_s", 0), 2), "paths": tot.get("paths", 0), "ir_instructions": tot.get("steps", 0), "paths_replayed_natively": res.samples,
           "functions_encoded": {"total": len(res.funcs), "of_hyperdrive_and_generated": own}, "outside": "inputs beyond the bounds of each harness, declarations other than those in the harnesses, the internals of the modelled crates (see DESIGN.md)", "samples": res.sampled[:12], "problems": res.errors, "violations": len(res.viol)}
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": PROPS[prop].get("level", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    with open(f"{V}/evidence/{prop}.json", "w") as f: json.dump(e, f, indent=1)

def violation(prop, tier, k, data):
    os.makedirs(V + "/replays", exist_ok=True)
    path = f"{V}/replays/{prop}-{k}.json"
    with open(path, "w") as f: json.dump(dict(data, property=prop, tier=tier, rerun=f"python3 {V}/check.py --replay {path}"), f, indent=1)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  {data.get('harness', '')} {data['what']} tape={data.get('tape', '')}")
    for l in data.get("output", "").splitlines()[-6:]: print("    " + l[:300])

def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    res = Result()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hs = [h for h in P["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    feats = ",".join(sorted({h["module"] for h in P["harnesses"]}) + (["deep"] if tier == "thorough" else []))
    out = {}
    ts = [threading.Thread(target=lambda n=n, f=f, a=a: out.__setitem__(n, f(*a))) for n, f, a in (("lsx", build_lsx, ()), ("ir", build_ir, (feats,)), ("native", build_native, (feats,)))]
    for t in ts: t.start()
    for t in ts: t.join()
    if out["lsx"][0] != 0: print("cannot build the executor\n" + out["lsx"][1][-3000:]); return 2
    if out["native"][0] != 0:
        # does the library itself build? Then it is the declarations in the harness that it refuses.
        rc, o = run(["cargo", "build", "--quiet", "-p", "hyperdrive"], V + "/native", dict(ENV, RUSTFLAGS=NATFLAGS, CARGO_TARGET_DIR=BUILD + "/native"), 600)
        log = out["native"][1]
        if rc == 0 and "error" in log and "could not compile `hvn`" in log:
            evidence(prop, tier, res, t0, "the declarations of the harness do not compile")
            violation(prop, tier, 0, {"harness": feats, "what": "valid declarations are rejected by the compiler", "output": log[-6000:]})
            return 1
        print("cannot build the native harness\n" + log[-3000:]); return 2
    if out["ir"][0] != 0: print("cannot build the IR\n" + out["ir"][1][-3000:]); return 2
    tb = time.time() - t0
    limit = P.get("limit", 780 if tier == "thorough" else 600)
    for h in hs:
        left = limit - (time.time() - t0)
        if left < 5: res.errors.append(f"{h['name']}: no time left"); continue
        explore(prop, h, tier, res, left)
        if res.viol: break
    evidence(prop, tier, res, t0, P["explanation"])
    for r in res.rows: print(f"{r['harness']}: {r['stats'].get('paths', 0)} paths, {r['stats'].get('checks', 0)} assertions ({r['stats'].get('check_queries', 0)} to z3), {r['stats'].get('queries', 0)} queries, {r['stats'].get('solver_s', 0):.1f} s solver, {r.get('paths_replayed', 0)} replayed, {r.get('wall_s', 0)} s")
    print(f"build {tb:.0f} s, total {time.time() - t0:.0f} s")
    news = []
    for v in res.viol:
        k = next((f for f in known_findings() if f"property={prop} " in f + " " and f"harness={v['harness']} " in f + " " and v["what"] in f), None)
        if k: print(f"KNOWN-FINDING: property={prop} {v['what']}")
        else: news.append(v)
    for i, v in enumerate(news): violation(prop, tier, i, v)
    if news: return 1
    for e in res.errors: print("PROBLEM " + e[:1500])
    return 2 if res.errors else 0

def replay(path):
    d = json.load(open(path))
    print(json.dumps({k: v for k, v in d.items() if k != "output"}, indent=1))
    if "tape" not in d: print(d["output"]); return 1
    feats = next(h["module"] for h in PROPS[d["property"]]["harnesses"] if h["name"] == d["harness"]) + (",deep" if d.get("tier") == "thorough" else "")
    rc, o = build_native(feats)
    if rc != 0: print(o[-3000:]); return 2
    kind, cov, obs, out = native(so_path(), d["harness"], bytes.fromhex(d["tape"]))
    print(out + kind)
    return 0 if kind == "ok" else 1

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup":
        rc, o = build_lsx()
        print(o[-3000:]); sys.exit(rc)
    if a[0] == "--replay": sys.exit(replay(a[1]))
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(a[0], tier))
