#!/usr/bin/env python3
"""Plants bugs: plant.py gen [ids]     writes seeded/<id>/ from tools/plants.py
              plant.py verify [ids]  confirms each in a scratch copy: applies, builds, passes the
                                     repository's tests, demo passes without and fails with it
              plant.py catch [ids]   applies each to /repo, runs the quick check, undoes it"""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_S", "/tmp/plant")
DEMO = open(f"{V}/tools/demo.sh.in").read()
DEMO_PEER = open(f"{V}/tools/demo_peer.sh.in").read()
DEMO_CML = open(f"{V}/tools/demo_cml.sh.in").read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    if os.path.isdir(f"{S}/repo"):
        sh(f"git -C {S}/repo checkout -q -- . && git -C {S}/repo fetch -q /repo HEAD && git -C {S}/repo checkout -q FETCH_HEAD")
        return
    os.makedirs(S, exist_ok=True)
    print(sh(f"git clone -q /repo {S}/repo && cp -a /opt/vp {S}/vp").stdout)
    for f in ["build.sh", "test.sh", "lib/env.sh", "lib/mirror.py", "results.py"]:
        p = f"{S}/vp/{f}"
        t = open(p).read().replace("/opt/vp", f"{S}/vp").replace('"/repo"', f'"{S}/repo"')
        open(p, "w").write(t)
    sh(f"find {S}/vp/ws -maxdepth 3 -lname '/repo/*' -delete")


def gen(ids):
    sys.path.insert(0, f"{V}/tools")
    from plants import PLANTS
    scratch()
    for p in PLANTS:
        if ids and p["id"] not in ids:
            continue
        d = f"{V}/seeded/{p['id']}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in p["edits"]:
            path = f"{S}/repo/{f}"
            t = open(path).read()
            n = t.count(old)
            assert n == 1, (p["id"], f, n, old)
            open(path, "w").write(t.replace(old, new))
        diff = sh(f"git -C {S}/repo diff").stdout
        sh(f"git -C {S}/repo checkout -q -- .")
        open(f"{d}/patch.diff", "w").write(diff)
        deps = p["deps"]
        members = dict(core="dcspark-core", fraos="fraos", log="indexed-log-map", multiverse="multiverse", utxo="utxo-selection", cardano="cardano-utils", source="dcspark-blockchain-source", peer="peer-stub", cml="cardano-multiplatform-lib")
        paths = dict(core="core", fraos="fraos", log="indexed-log-map", multiverse="multiverse", utxo="utxo-selection", cardano="cardano-utils", source="blockchain-source", peer="peer-stub", cml="cml-stub")
        toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
        for x in deps:
            if x in paths:
                toml += f'{members[x]} = {{ path = "../{paths[x]}" }}\n'
            elif x == "deps":
                toml += 'deps = { path = "../deps" }\n'
            else:
                toml += x + "\n"
        open(f"{d}/Demo.toml", "w").write(toml)
        open(f"{d}/main.rs", "w").write(p["main"].lstrip())
        open(f"{d}/demo.sh", "w").write(DEMO_PEER if "peer" in deps else DEMO_CML if "cml" in deps else DEMO)
        if "peer" in deps:
            shutil.copy(f"{V}/harness/peer-stub/Cargo.toml", f"{d}/peer.toml")
            shutil.copy(f"{V}/harness/peer-stub/src/lib.rs", f"{d}/peer.rs")
        if "cml" in deps:
            shutil.copy(f"{V}/harness/cml-stub/Cargo.toml", f"{d}/cml.toml")
            shutil.copy(f"{V}/harness/cml-stub/src/lib.rs", f"{d}/cml.rs")
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy("/opt/vp/ws/Cargo.lock", f"{d}/Cargo.lock")
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        print("gen", p["id"], len(diff.splitlines()))


def each(ids):
    return [os.path.basename(d) for d in sorted(glob.glob(f"{V}/seeded/*")) if not ids or os.path.basename(d) in ids]


def verify(ids):
    scratch()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"] if "stable" in base else base["tests"])
    for i in each(ids):
        d = f"{V}/seeded/{i}"
        tmp = f"{S}/demo-{i}"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(os.environ)
        a = sh(f"timeout 300 bash {tmp}/demo.sh", cwd=f"{S}/repo")
        ok = [a.returncode == 0]
        ap = sh(f"git -C {S}/repo apply {d}/patch.diff")
        ok.append(ap.returncode == 0)
        b = sh(f"timeout 300 bash {tmp}/demo.sh", cwd=f"{S}/repo")
        ok.append(b.returncode != 0)
        bad = "skipped"
        if all(ok) and "--notest" not in sys.argv:
            r = sh(f"bash {S}/vp/build.sh")
            ok.append(r.returncode == 0)
            r = sh(f"bash {S}/vp/test.sh {S}/out.json")
            res = json.load(open(f"{S}/out.json"))
            passed = set(res.get("passed") or [k for k, v in res.items() if v == "pass"])
            bad = sorted(stable - passed)[:4]
            ok.append(not bad)
        sh(f"git -C {S}/repo checkout -q -- .")
        shutil.rmtree(tmp, ignore_errors=True)
        print("OK " if all(ok) else "BAD", i, ok, bad, flush=True)
        if not all(ok):
            print(a.stdout[-1500:] if not ok[0] else b.stdout[-600:], ap.stdout, flush=True)


def catch(ids):
    for i in each(ids):
        d = f"{V}/seeded/{i}"
        pid = json.load(open(f"{d}/meta.json"))["property"]
        sh(f"git -C /repo apply {d}/patch.diff")
        try:
            r = sh(f"timeout 900 python3 {V}/tools/check.py {pid} quick", cwd=V)
        finally:
            sh("git -C /repo checkout -q -- .")
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print("CAUGHT" if r.returncode == 1 and v else "MISSED", i, pid, r.returncode, v[:1], flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:])


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    dict(gen=gen, verify=verify, catch=catch)[sys.argv[1]](ids)
