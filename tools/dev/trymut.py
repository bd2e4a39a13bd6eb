"""trymut.py tests|checks [ids...]: applies each mutant to a copy under /tmp/mut and runs the
repository's tests (tests) or the matching quick checks (checks); results in /tmp/mut/results.json"""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import MUT
T = "/tmp/mut"; os.makedirs(T, exist_ok=True)
V = os.environ.get("VCOPY", "/verif")
def prep(m, sub):
    d = f"{T}/{sub}-{m[0]}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
    p = os.path.join(d, m[2]); s = open(p).read()
    for o, n in m[3]:
        if s.count(o) != 1: raise SystemExit(f"{m[0]}: {s.count(o)} matches of {o[:80]!r}")
        s = s.replace(o, n)
    open(p, "w").write(s)
    return d
def save(id, k, v):
    f = f"{T}/results.json"
    r = json.load(open(f)) if os.path.exists(f) else {}
    r.setdefault(id, {})[k] = v
    json.dump(r, open(f, "w"), indent=1)
def tests(m):
    d = prep(m, "t")
    sc = open("/opt/vp/build.sh").read().replace("/repo", d)
    open(d + "/b.sh", "w").write(sc)
    p = subprocess.run(["bash", d + "/b.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: shutil.rmtree(d); return "nobuild: " + p.stdout[-300:]
    os.makedirs(d + "/rep")
    subprocess.run(["python3", "/opt/vp/run_suites.py", d + "/_build/test/test-all", d + "/rep"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    subprocess.run(["python3", "/opt/vp/results.py", d + "/out.json", f"lines:{d}/rep/*.lines"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    o = json.load(open(d + "/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [x for x in st if x not in o["passed"]]
    shutil.rmtree(d)
    return "ok" if not bad else f"fails {len(bad)}: {bad[0]}"
def check(m, prop):
    d = prep(m, "c")
    t = time.time()
    p = subprocess.run(["python3", V + "/run.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NUDB_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    shutil.rmtree(d)
    v = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
    return f"rc={p.returncode} {time.time()-t:.0f}s " + (p.stdout[-300:] if p.returncode not in (0,) else "")
if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    ms = [m for m in MUT if not ids or m[0] in ids or any(m[0].startswith(i) for i in ids)]
    for m in ms: shutil.rmtree(prep(m, "x" + what))
    if what == "tests":
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
            for m, r in zip(ms, ex.map(tests, ms)):
                print(m[0], r, flush=True); save(m[0], "tests", r)
    else:
        for m in ms:
            for prop in (m[1] if what == "all" else m[1][:1]):
                r = check(m, prop); print(m[0], prop, r.replace("\n", " | "), flush=True); save(m[0], prop, r)
