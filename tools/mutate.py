#!/usr/bin/env python3
"""Mutation campaign: how much of each property the executable contracts alone decide.

mutate.py gen OUT.jsonl [FILE...]            list the mutants of the anchored files
mutate.py run OUT.jsonl RES.jsonl [-w N]     per mutant, in scratch copies: build the harness, run the
                                             file's properties; RES gets one line per mutant
mutate.py proof RES.jsonl PRES.jsonl         for the survivors: run the properties' Verus units
Scratch copies live under $MUT_S (default /tmp/mut); nothing here is part of a check."""
import json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import rx
S = os.environ.get("MUT_S", "/tmp/mut")
FILES = {
 "core/src/value.rs": ("h-core", "C03 C04 C05"), "core/src/balance.rs": ("h-core", "C06"), "core/src/utxo_store.rs": ("h-core", "C07 C08"),
 "core/src/tx/utxo.rs": ("h-core", "C07"),
 "core/src/block_number.rs": ("h-core", "C01 C02"), "core/src/slot_number.rs": ("h-core", "C01 C02"), "core/src/output_index.rs": ("h-core", "C01 C02"),
 "core/src/timestamp.rs": ("h-core", "C01 C02"), "core/src/number_visitor.rs": ("h-core", "C02 C05"),
 "cardano-utils/src/cip14.rs": ("h-cardano", "D02"), "blockchain-source/src/cardano/point.rs": ("h-cardano", "D03"), "blockchain-source/src/cardano/time.rs": ("h-cardano", "D01"),
 "core/src/block_id.rs": ("h-cardano", "D03"),
 "utxo-selection/src/common.rs": ("h-utxo", "U04 U01 U05 U03 U02"), "utxo-selection/src/algorithms/largest_first.rs": ("h-utxo", "U01"),
 "utxo-selection/src/algorithms/random_improve.rs": ("h-utxo", "U05"), "utxo-selection/src/algorithms/balance_change_fee.rs": ("h-utxo", "U02"),
 "utxo-selection/src/algorithms/balance_change_single_output.rs": ("h-utxo", "U02"), "utxo-selection/src/algorithms/thermostat.rs": ("h-utxo", "U03"),
 "fraos/src/seqno.rs": ("h-fraos", "F01 F02 F03 L01"), "fraos/src/database.rs": ("h-fraos", "F01 F02 F03"), "fraos/src/growable_mmap.rs": ("h-fraos", "F01 F02 F03"),
 "fraos/src/index_on_mmaps.rs": ("h-fraos", "F01 F02 F03"), "fraos/src/appender.rs": ("h-fraos", "F01 F02 F03"), "fraos/src/seqno_iter.rs": ("h-fraos", "F01"),
 "fraos/src/flatfile.rs": ("h-fraos", "F01 F02 F03"), "fraos/src/shared_mmap.rs": ("h-fraos", "F04 F01"), "indexed-log-map/src/storage.rs": ("h-fraos", "L01"),
 "multiverse/src/lib.rs": ("h-multiverse", "M01 M02 M03 M04"), "multiverse/src/entry.rs": ("h-multiverse", "M01 M02 M03"), "multiverse/src/visitor/depth_ordered.rs": ("h-multiverse", "M03"),
 "blockchain-source/src/cardano/mod.rs": ("h-network", "B03"), "blockchain-source/src/cardano/event.rs": ("h-network", "B03"),
 "blockchain-source/src/multiverse/mod.rs": ("h-source", "B02 B01"), "blockchain-source/src/multiverse/rollback.rs": ("h-source", "B01"),
 "utxo-selection/src/estimators/thermostat_estimator.rs": ("h-fees", "U06"), "utxo-selection/src/estimators/cml_fee_estimator.rs": ("h-fees", "U06"),
 "cardano-utils/src/utxo.rs": ("h-fees", "D05"), "cardano-utils/src/multisig_plan.rs": ("h-fees", "D06"), "cardano-utils/src/network_id.rs": ("h-fees", "U06"),
 "multiverse/src/variant.rs": ("h-multiverse", "M01 M02"),
}
IDS = dict(saturating_add="wrapping_add", saturating_sub="wrapping_sub", checked_add="saturating_add", min="max", max="min", first="last", last="first", is_some="is_none", is_none="is_some",
  is_ok="is_err", any="all", all="any", pop_front="pop_back", pop_back="pop_front", push_front="push_back", push_back="push_front", Less="Greater", Greater="Less", Included="Excluded", Excluded="Included",
  Debt="Excess", Excess="Debt", take="skip", skip="take", true="false", false="true", in_excess="in_debt", in_debt="in_excess", input="output", inputs="outputs", inputs_value="outputs_value", parent="id",
  fixed_inputs="available_inputs", main_token_balance="fee", start="end", end="start", offset="length", length="offset", next="last", tips="roots", roots="tips", to_be_bytes="to_le_bytes", to_le_bytes="to_be_bytes",
  min_value="max_value", le="ge", lt="gt", gt="lt", ge="le", max_by="min_by", max_by_key="min_by_key", pop_last="pop_first", pop_first="pop_last", with_capacity="new")
IDS["and"] = "or"; IDS["break"] = "continue"; IDS["continue"] = "break"

def fnspans(path):
    src = open(path).read(); toks = rx.lex(src); out = []
    rx.parse_items(src, toks, 0, len(toks), "", out)
    fns = [i for i in out if i.kind == "fn" and i.body is not None and not i.test]
    # macro_rules bodies too
    for m in re.finditer(r"macro_rules!\s*(\w+)\s*\{", src):
        k = next(j for j, t in enumerate(toks) if t.s == m.end() - 1)
        fns.append(rx.Item(kind="fn", name=m.group(1) + "!", container="macro", start=m.start(), body=m.end() - 1, end=toks[rx.match_close(toks, k)].e, test=False))
    return src, toks, fns

def muts(path):
    src, toks, fns = fnspans(path)
    idx = {t.s: k for k, t in enumerate(toks)}
    seen = set()
    def emit(fn, s, e, new, op):
        if (s, e, new) in seen: return None
        seen.add((s, e, new))
        return dict(fn=fn.name, s=s, e=e, old=src[s:e], new=new, op=op, line=src.count("\n", 0, s) + 1)
    for fn in fns:
        lo, hi = fn.body, fn.end
        body = [k for k, t in enumerate(toks) if lo <= t.s < hi]
        for k in body:
            t = toks[k]
            nx = toks[k + 1] if k + 1 < len(toks) else None
            sp = src[t.s - 1] == " "
            if t.k == "p" and sp:
                two = src[t.s:t.s + 2]
                for a, bs in {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-="], "-=": ["+="], "..": []}.items():
                    if two == a and src[t.s + 2] == " ":
                        for b in bs:
                            yield emit(fn, t.s, t.s + 2, b, "op")
                if src[t.s + 1:t.s + 2] == " ":
                    for b in {"<": ["<="], ">": [">="], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["/"]}.get(t.t, []):
                        yield emit(fn, t.s, t.e, b, "op")
            if t.t == "!" and not (src[t.s - 1].isalnum() or src[t.s - 1] == "_") and src[t.e] not in "=[":
                yield emit(fn, t.s, t.e, "", "not")
            if t.t == "." and src[t.s:t.s + 3] == "..=": yield emit(fn, t.s, t.s + 3, "..", "range")
            if t.k == "num" and re.fullmatch(r"\d+", t.t) and src[t.s - 1] != ".":
                n = int(t.t)
                yield emit(fn, t.s, t.e, str(n + 1), "num")
                if n: yield emit(fn, t.s, t.e, str(n - 1), "num")
            if t.k == "id" and t.t in IDS: yield emit(fn, t.s, t.e, IDS[t.t], "id")
            if t.t == "rev" and src[t.s - 1] == ".": yield emit(fn, t.s - 1, t.e + 2, "", "rev")
            if t.t in ("if", "while") and nx and nx.t != "let":
                j = k + 1
                while toks[j].t != "{": j = rx.match_close(toks, j) + 1 if toks[j].t in "([" else j + 1
                c = src[nx.s:toks[j].s].rstrip()
                yield emit(fn, nx.s, nx.s + len(c), f"!({c})", "cond")
                if t.t == "if":
                    yield emit(fn, nx.s, nx.s + len(c), "true", "cond"); yield emit(fn, nx.s, nx.s + len(c), "false", "cond")
            # argument swap: f(a, b)
            if t.t == "(" and k and toks[k - 1].k == "id" and toks[k - 1].t not in ("if", "while", "match", "for", "in", "fn", "Fn", "return"):
                c = rx.match_close(toks, k); parts, d, st = [], 0, t.e
                for q in range(k + 1, c):
                    x = toks[q].t
                    if toks[q].k == "p" and x in "([{": d += 1
                    elif toks[q].k == "p" and x in ")]}": d -= 1
                    elif x == "," and d == 0: parts.append((st, toks[q].s)); st = toks[q].e
                parts.append((st, toks[c].s))
                parts = [(a, b) for a, b in parts if src[a:b].strip()]
                if len(parts) == 2 and "|" not in src[parts[0][0]:parts[1][1]]:
                    (a, b), (c2, d2) = parts
                    yield emit(fn, a, d2, src[c2:d2].strip() + ", " + src[a:b].strip(), "args")
            # statements of a block
            if t.t == "{":
                c = rx.match_close(toks, k); j = k + 1; st = []
                while j < c:
                    b = j
                    kw = toks[j].t
                    ctl = kw in ("if", "for", "while", "loop", "match", "unsafe") 
                    while j < c:
                        if toks[j].t in "([{" and toks[j].k == "p":
                            br = toks[j].t; j = rx.match_close(toks, j) + 1
                            if br == "{" and ctl and (j >= c or toks[j].t != "else") and (j >= c or toks[j].t not in (".", "?")): break
                            continue
                        j += 1
                        if toks[j - 1].t == ";": break
                    st.append((b, j))
                for n, (b, e) in enumerate(st):
                    s0, e0 = toks[b].s, toks[e - 1].e
                    last = toks[e - 1].t
                    if toks[b].t in ("let", "use", "const", "fn", "struct"): pass
                    elif last == ";" or (last == "}" and n + 1 < len(st)): yield emit(fn, s0, e0, "", "del")
                    if n + 1 < len(st):
                        b2, e2 = st[n + 1]
                        if toks[e2 - 1].t == ";" and last == ";" :
                            yield emit(fn, s0, toks[e2 - 1].e, src[toks[b2].s:toks[e2 - 1].e] + "\n" + src[s0:e0], "swap")

def gen(out, files):
    n = 0
    with open(out, "w") as f:
        for p in files or FILES:
            for m in muts("/repo/" + p):
                if m and m["old"] != m["new"]:
                    m["file"] = p; m["id"] = n; n += 1
                    f.write(json.dumps(m) + "\n")
    print(n)

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def worker_dir(w):
    d = f"{S}/w{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        print(sh(f"git clone -q /repo {d}/repo; mkdir {d}/verif; cp -a {ROOT}/harness {ROOT}/tools {ROOT}/verus {ROOT}/KNOWN_FINDINGS.txt {d}/verif/; mkdir {d}/verif/.work; cp -a {ROOT}/.work/ws {d}/verif/.work/").stdout)
    else:
        sh(f"rsync -a --delete --exclude target {ROOT}/harness/ {d}/verif/harness/ 2>/dev/null || cp -a {ROOT}/harness/h-* {ROOT}/harness/common {d}/verif/harness/; cp -a {ROOT}/tools {ROOT}/verus {d}/verif/; git -C {d}/repo checkout -q -- . && git -C {d}/repo fetch -q /repo HEAD && git -C {d}/repo checkout -q FETCH_HEAD")
    return d

def one(d, m, secs, threads):
    path = f"{d}/repo/{m['file']}"
    src = open(path).read()
    assert src[m["s"]:m["e"]] == m["old"], m
    open(path, "w").write(src[:m["s"]] + m["new"] + src[m["e"]:])
    env = dict(os.environ, VERIF_REPO=f"{d}/repo", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    crate, props = FILES[m["file"]]
    r = dict(m)
    try:
        subprocess.run([sys.executable, f"{d}/verif/tools/mirror.py"], check=True, env=env)
        p = subprocess.run(["nice", "cargo", "build", "--offline", "-q", "-p", crate], cwd=f"{d}/verif/harness", env=env, capture_output=True, text=True)
        if p.returncode: return dict(r, verdict="nobuild")
        for pid in props.split():
            sc = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
            try:
                p = subprocess.run(["nice", f"{d}/verif/harness/target/debug/{crate}", "--prop", pid, "--seed", "1", "--secs", str(secs), "--out", f"{sc}/out.json", "--threads", str(threads)], env=dict(env, VERIF_SCRATCH=sc, RUST_BACKTRACE="0"), capture_output=True, text=True, timeout=secs + 60)
                if p.returncode == 0: continue
                msg = json.load(open(f"{sc}/out.json")).get("failure", {}).get("message", "") if p.returncode == 10 else f"died {p.returncode}"
                return dict(r, verdict="killed", by=pid, msg=msg[:200])
            except subprocess.TimeoutExpired:
                return dict(r, verdict="killed", by=pid, msg="hang")
            finally: shutil.rmtree(sc, ignore_errors=True)
        return dict(r, verdict="survived")
    finally: open(path, "w").write(src)

def run(inp, out, workers, secs, threads):
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    todo = [m for m in map(json.loads, open(inp)) if m["id"] not in done]
    lock = threading.Lock(); f = open(out, "a")
    # by crate, so that one worker keeps to one crate as long as it can
    groups = {}
    for m in todo: groups.setdefault(FILES[m["file"]][0], []).append(m)
    queue = [m for g in groups.values() for m in g]
    def loop(w):
        d = worker_dir(w)
        while True:
            with lock:
                if not queue: return
                m = queue.pop(0)
            try: r = one(d, m, secs, threads)
            except Exception as e: r = dict(m, verdict="error", msg=repr(e)[:300])
            with lock: f.write(json.dumps(r) + "\n"); f.flush()
    with ThreadPoolExecutor(workers) as ex: list(ex.map(loop, range(workers)))

def proof(inp, out):
    """For survivors: does a Verus unit of one of the file's properties fail?"""
    import check
    from registry import REG
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    todo = [m for m in map(json.loads, open(inp)) if m["verdict"] == "survived" and m["id"] not in done]
    f = open(out, "a"); d = worker_dir("p")
    check.REPO = f"{d}/repo"; check.WORK = f"{d}/verif/.work"
    for m in todo:
        path = f"{d}/repo/{m['file']}"; src = open(path).read()
        open(path, "w").write(src[:m["s"]] + m["new"] + src[m["e"]:])
        try:
            v, seen = "survived", []
            for u in dict.fromkeys(u for p in FILES[m["file"]][1].split() for u in REG[p]["units"]):
                r = check.verify_unit(u, dict(REG[FILES[m["file"]][1].split()[0]], id="mut"), "quick", 6)
                if r["failures"]: v = "proof"; seen += [f"{x['function']}: {x['message']}" for x in r["failures"]]; break
                if r["limits"]: seen += r["limits"][:2]
            f.write(json.dumps(dict(m, proof=v if v == "proof" else ("limit" if seen else "passes"), why=[s[:200] for s in seen[:3]])) + "\n"); f.flush()
        finally: open(path, "w").write(src)

if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen": gen(a[2], a[3:])
    elif a[1] == "run": run(a[2], a[3], int(a[4]) if len(a) > 4 else 3, int(a[5]) if len(a) > 5 else 4, int(a[6]) if len(a) > 6 else 2)
    elif a[1] == "proof": proof(a[2], a[3])
