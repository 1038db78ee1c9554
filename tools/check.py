#!/usr/bin/env python3
"""check.py PID [quick|thorough]: decide one property on /repo's current working tree.

1. Render the property's Verus units (contracts spliced into functions extracted from /repo) and
   have Verus discharge every obligation.                       -> the deciding step
2. Render them again with an unprovable assertion at the start of every function under contract:
   each must fail (no contradictory precondition, axiom or assumed contract).
3. Build the harness against /repo and run the executable form of the same contracts on generated
   inputs: validates the assumed contracts, covers what is out of the verifier's reach (bounded),
   and searches a failing input for a failed obligation.
Outcomes: see DESIGN.md, "Verdicts"."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import rx
from registry import REG

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
           "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
           "possible bit shift", "unable to prove", "requirement not met", "could not prove", "constructed value may fail",
           "recommendation not met", "failed", "not satisfied", "unreachable")
LIMIT = ("resource limit", "rlimit", "timed out", "time limit")

def run_verus(path, rlimit, threads, multiple=6):
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--num-threads", str(threads), "--multiple-errors", str(multiple)]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=600)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", '{"$message_type":"diagnostic","message":"time limit: verus stopped after 600 s","level":"error","spans":[],"rendered":"time limit"}', 124
    try: js = json.loads(out)
    except Exception: js = {}
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error": diags.append(d)
        elif l.strip(): diags.append(dict(level="raw", message=l, spans=[], rendered=l))
    return dict(cmd=" ".join(cmd), rc=rc, js=js, diags=diags, wall=time.time() - t, stderr=err)

def line_fn(fns, line):
    for f in fns:
        if f["gen"][0] <= line <= f["gen"][1]: return f
    return None

FNLINE = re.compile(r"^\s*(?:pub\s+|broadcast\s+|open\s+|closed\s+|axiom\s+)*(?:(?:uninterp|proof|spec|exec)\s+)*(?:(?:const\s+)?fn|const)\s+(\w+)")
def enclosing(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = FNLINE.match(lines[i])
        if m: return m.group(1)
    return "?"

def verify_unit(unit, cfg, tier, threads):
    tpl = os.path.join(ROOT, "verus", unit)
    gen = os.path.join(WORK, "gen", cfg["id"])
    os.makedirs(gen, exist_ok=True)
    res = dict(unit=unit, limits=[], failures=[], fns=[], verified=0, errors=0, smt_ms=0, trusted=[], vacuous=[], wall=0.0, slow=[])
    rx._cache.clear()
    try:
        text, fns, lost = rx.render(tpl, REPO)
    except Exception as e:
        res["limits"].append(f"extraction: {type(e).__name__}: {e}")
        return res
    res["fns"] = fns
    res["limits"] += [f"anchor lost: {x}" for x in lost]
    path = os.path.join(gen, unit)
    open(path, "w").write(text)
    lines = text.split("\n")
    ptext, pfns, _ = rx.render(tpl, REPO, probe=True)
    ppath = os.path.join(gen, "probe_" + unit)
    open(ppath, "w").write(ptext)
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(run_verus, path, cfg.get("rlimit", 60), threads)
        fb = ex.submit(run_verus, ppath, 10, max(1, threads // 2), 0)
        a, b = fa.result(), fb.result()
    res["cmd"], res["wall"] = a["cmd"], a["wall"]
    vr = a["js"].get("verification-results") or {}
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = a["js"].get("times-ms", {}).get("smt", {})
    res["smt_ms"] = smt.get("smt-run", 0)
    fb_ = [x for m in smt.get("smt-run-module-times", []) for x in m.get("function-breakdown", [])]
    res["slow"] = sorted(({"function": x["function"], "ms": x["time"]} for x in fb_), key=lambda x: -x["ms"])[:5]
    ok = bool(vr) and not vr.get("encountered-vir-error") and vr.get("success") and not vr.get("encountered-error") and res["verified"] > 0
    if not ok:
        got = False
        for d in a["diags"]:
            msg = d.get("message", "")
            if d["level"] == "raw" or msg.startswith("aborting due to"): continue
            low = msg.lower()
            spans = d.get("spans", [])
            mine = [s for s in spans if s["file_name"].endswith(os.path.basename(path))]
            loc = None
            for s in sorted(mine, key=lambda s: not s["is_primary"]):
                loc = line_fn(fns, s["line_start"])
                if loc: break
            name = (f"{loc['container']} :: {loc['name']}" if loc else "declaration " + (enclosing(lines, mine[0]["line_start"]) if mine else "?"))
            got = True
            rec = dict(function=name, file=loc["file"] if loc else unit, message=msg, rendered=d.get("rendered", "")[:3000], line=mine[0]["line_start"] if mine else 0)
            if any(x in low for x in LIMIT): res["limits"].append(f"{name}: {msg}")
            elif d.get("code") or not vr or vr.get("encountered-vir-error") or not any(x in low for x in GENUINE):
                res["limits"].append(f"{name}: unsupported or not typeable: {msg[:300]}")
            elif loc and (loc["lost"] or loc["unannotated"]):
                res["limits"].append(f"{name}: {msg} (contract could not be placed: {loc['lost'] or 'loop or closure without contract'})")
            else: res["failures"].append(rec)
        if not got: res["limits"].append("verus gave no verdict: " + (a["stderr"][-600:] or "no output"))
    if res["verified"] == 0 and not res["failures"] and not res["limits"]:
        res["limits"].append("no obligations generated")
    # vacuity probe: every function under contract must fail its assert(false)
    if ok:
        hit = set()
        for d in b["diags"]:
            for s in d.get("spans", []):
                f = line_fn(pfns, s["line_start"])
                if f and "assertion failed" in d.get("message", ""): hit.add(f["gen"])
        res["vacuous"] = [f"{f['container']} :: {f['name']}" for f in pfns if f["gen"] not in hit and not f.get("unclaimed")]
        res["probed"] = len(pfns)
        if res["vacuous"]: res["limits"].append("vacuous precondition: " + ", ".join(res["vacuous"]))
    # mechanical scan for assumptions
    for i, l in enumerate(lines):
        if re.search(r"\bexternal_body\b|\bexternal_type_specification\b", l):
            nm = next((m.group(2) for x in lines[i:i+8] for m in [re.search(r"\b(fn|struct|type|enum)\s+(\w+)", x)] if m), "?")
            res["trusted"].append(f"external_body {nm}")
        m = re.search(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", l)
        if m: res["trusted"].append(f"assumed contract of {m.group(1)}")
        m = re.search(r"\baxiom\s+fn\s+(\w+)|\buninterp\s+spec\s+fn\s+(\w+)", l)
        if m: res["trusted"].append(("axiom " if m.group(1) else "uninterpreted ") + (m.group(1) or m.group(2)))
        if re.search(r"(?<![\w:])(assume|admit)\s*\(", l): res["trusted"].append("assume/admit: " + l.strip()[:120])
    res["trusted"] = sorted(set(res["trusted"]))
    return res

# ---------------------------------------------------------------- harness
def build(crate):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(HERE, "mirror.py")], check=True)
        p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", crate], cwd=os.path.join(ROOT, "harness"), env=ENV, capture_output=True, text=True)
        if p.returncode: return None, p.stderr[-4000:]
        return os.path.join(ROOT, "harness", "target", "debug", crate), ""

def run_harness(binary, pid, seed, secs, scratch, threads=6, extra=()):
    out = os.path.join(scratch, "out.json")
    for x in (out, out + ".trace"):
        if os.path.exists(x): os.remove(x)
    env = dict(ENV, VERIF_SCRATCH=scratch, RUST_BACKTRACE="0")
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    cmd = [binary, "--prop", pid, "--seed", str(seed), "--secs", str(secs), "--out", out, "--threads", str(threads), *extra]
    try:
        p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=secs + 150, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        return dict(failure=dict(case=-1, seed=seed, message="the harness did not finish", input=[])), cmd
    if p.returncode in (0, 10) and os.path.exists(out):
        return json.load(open(out)), cmd
    # died (signal, abort): find the case single-threaded
    if "--trace" not in extra:
        r, c = run_harness(binary, pid, seed, secs * 2, scratch, 1, (*extra, "--trace"))
        if r.get("failure"): return r, c
        return dict(failure=dict(case=-1, seed=seed, message=f"the process died (status {p.returncode}) {p.stderr[-500:]}", input=[])), cmd
    tr = out + ".trace"
    case = int(open(tr).read()) if os.path.exists(tr) else -1
    return dict(failure=dict(case=case, seed=seed, message=f"the process died (status {p.returncode}) {p.stderr[-500:]}", input=[])), cmd

def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = dict(REG[pid], id=pid)
    t0 = time.time()
    units = cfg["units"]
    shutil.rmtree(os.path.join(WORK, "gen", pid), ignore_errors=True)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/dev/shm" if os.path.isdir("/dev/shm") and cfg.get("shm", True) else None)
    try:
        with ThreadPoolExecutor(8) as ex:
            hb = ex.submit(build, cfg["harness"]) if cfg.get("harness") else None
            us = [ex.submit(verify_unit, u, cfg, tier, 3) for u in units]
            ures = [u.result() for u in us]
            binary, berr = hb.result() if hb else (None, "")
        only = cfg.get("fns")
        # a failed contract of a function this property only relies on is that function's own property's violation:
        # here the proof is then undecided, and the executable contract decides
        everything = [f for u in ures for f in u["failures"]]
        failures = [f for f in everything if not only or f["function"].startswith("ghost") or any(o in f["function"] for o in only)]
        failures = [f for f in failures if not any(o in f["function"] for o in cfg.get("not_fns", []))]
        limits = [l for u in ures for l in u["limits"]]
        limits += [f"{f['function']}: a contract relied on fails (decided under its own property): {f['message'][:200]}" for f in everything if f not in failures]
        secs = cfg.get(tier, 8 if tier == "quick" else 120)
        if failures or limits: secs = max(secs, cfg.get("search", 60))
        h, hcmd, nobuild = {}, [], False
        if cfg.get("harness"):
            if binary is None:
                print(f"{pid}: the harness does not build against /repo:\n{berr}", file=sys.stderr)
                nobuild = True
            else:
                h, hcmd = run_harness(binary, pid, seed, secs, scratch)
        if nobuild and not failures and (limits or not units):
            print(f"{pid}: no answer: neither the proof nor the harness can be built", file=sys.stderr)
            return 2
        hf = h.get("failure")
        obligations = sum(u["verified"] + u["errors"] for u in ures)
        discharged = sum(u["verified"] for u in ures)
        known = known_findings(pid)
        proved = bool(units) and not failures and not limits and obligations > 0
        level = cfg["level"] if (proved or not units) else "exploration"
        cov = dict(obligations=obligations, discharged=discharged,
                   checker_cmd=" && ".join(u.get("cmd", "") for u in ures) or " ".join(hcmd),
                   trusted_base=sorted({t for u in ures for t in u["trusted"]}),
                   functions_under_contract=[dict(file=f["file"], line=f["line"], container=f["container"], name=f["name"], loops=f["loops"], rewrites=[f"{a}  =>  {b}  (x{n})" for a, b, n in f["rewrites"]]) for u in ures for f in u["fns"] if not f.get("unclaimed")],
                   functions_probed_for_vacuity=sum(u.get("probed", 0) for u in ures),
                   back_end="Verus 0.2026.09.13 / Z3", solver_ms=sum(u["smt_ms"] for u in ures), verus_wall_s=round(sum(u["wall"] for u in ures), 2),
                   slowest=[x for u in ures for x in u["slow"]][:8],
                   undecided=limits, failed_obligations=[dict(function=f["function"], message=f["message"]) for f in failures],
                   bounded=dict(what=cfg.get("bounded", ""), seconds=secs if h else 0),
                   evaluations=h.get("evaluations", 0), distinct_nontrivial=h.get("distinct_nontrivial", 0), rule=h.get("rule", ""), samples=h.get("samples", []))
        if not units: cov["explanation"] = cfg.get("explanation", "")
        viol = 1 if (failures or hf) else 0
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cfg.get("assumptions", []) + (["UNDECIDED BY PROOF ON THIS RUN (bounded stand-in decided): " + l for l in limits]), wall_s=round(time.time() - t0, 2), violations=viol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        rc = 0
        for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if viol:
            rd = os.path.join(ROOT, "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{pid}.json")
            rep = dict(property=pid, failed_obligations=failures, undecided=limits)
            if hf:
                rep["failing_input"] = hf
                rep["replay_command"] = f"python3 {HERE}/check.py --replay {pid} {hf['seed']} {hf['case']}"
            json.dump(rep, open(rp, "w"), indent=1)
            for f in failures: print(f"{pid}: failed obligation in {f['function']} ({f['file']}): {f['message']}")
            if hf: print(f"{pid}: failing input: {hf['message']} [{'; '.join(hf['input'])[-1500:]}]")
            print(f"VIOLATION property={pid} replay={rp}" + ("" if hf else " no-failing-input-found"))
            rc = 1
        else:
            for l in limits: print(f"{pid}: undecided by proof: {l}")
            print(f"{pid}: {'proved' if proved else 'bounded only'}: {discharged}/{obligations} obligations, {cov['evaluations']} evaluations, {time.time()-t0:.1f} s")
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def known_findings(pid):
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append(dict(what=m.group(2)))
    return out

def replay():
    pid, seed, case = sys.argv[2], sys.argv[3], sys.argv[4]
    binary, err = build(REG[pid]["harness"])
    if not binary: print(err); return 2
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try: return subprocess.run([binary, "--prop", pid, "--seed", seed, "--case", case], env=dict(ENV, VERIF_SCRATCH=scratch)).returncode
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(replay() if sys.argv[1] == "--replay" else main())
