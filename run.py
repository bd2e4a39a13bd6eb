#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   decide one property (see MANIFEST.json)
   run.py --build-all                          compile every harness (not needed by the checks)

Builds the harnesses the property needs from /repo's working tree, runs their
workers, and turns what the monitors reported into the verdict, the evidence
file and, for a violation, a replay file.  Exit 0 held, 1 VIOLATION, 2 error of
the check itself."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("NUDB_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN  # noqa: E402

NCPU = os.cpu_count() or 8
FLAGS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LIBS = ["-lboost_thread", "-lboost_system", "-lpthread", "-ldl"]
ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:print_legend=0",
    "MALLOC_PERTURB_": "165",       # fresh memory is not zero
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:io_sync=0:second_deadlock_stack=1:detect_deadlocks=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=77",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(R, "include"), os.path.join(R, "tools"), os.path.join(V, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build(name, variant, th):
    """Returns the path of the binary, compiled from the current tree."""
    os.makedirs(B, exist_ok=True)
    out = os.path.join(B, f"{name}-{variant}-{th}")
    if os.path.exists(out):
        return out, 0.0, ""
    t = time.time()
    tmp = out + f".{os.getpid()}.tmp"
    if name == "nudb_cli":      # the command line tool itself
        src = [os.path.join(R, "tools", "nudb.cpp")]
        extra = ["-lboost_program_options", "-lboost_filesystem"]
    else:
        src = [os.path.join(V, "harness", name + ".cpp")]
        extra = []
    cmd = ["g++", "-std=c++14" if name == "nudb_cli" else "-std=c++17", "-g1", "-w", *FLAGS[variant], "-include", "stdexcept", "-I" + os.path.join(R, "include"), "-I" + os.path.join(V, "harness"), *src, "-o", tmp, *extra, *LIBS]
    p = sh(cmd)
    if p.returncode:
        return None, time.time() - t, " ".join(cmd) + "\n" + p.stdout[-6000:]
    os.rename(tmp, out)
    for old in glob.glob(os.path.join(B, f"{name}-{variant}-*")):
        if old != out and not old.endswith(".tmp"):
            try:
                if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)   # another run may be using it
            except OSError: pass
    return out, time.time() - t, ""


class Run:
    def __init__(self, prop, job, worker, workers, binary, seed, tier, scratch):
        self.job, self.prop, self.w = job, prop, worker
        self.scratch = os.path.join(scratch, f"w{id(self)}")
        os.makedirs(self.scratch)
        self.out = os.path.join(self.scratch, "out.json")
        q = job[tier] if tier in job else job["quick"]
        a = [binary, "--mode", job.get("mode", ""), "--seed", str(seed), "--worker", str(worker), "--workers", str(workers),
             "--cases", str(q["cases"]), "--secs", str(q["secs"]), "--tier", tier, "--out", self.out, "--scratch", self.scratch]
        for k, v in {**job.get("args", {}), **q.get("args", {})}.items():
            a += ["--" + k, str(v)]
        self.cmd = a
        self.limit = q["secs"] * 2 + 200
        if job["bin"].endswith(".py"):
            self.cmd = [sys.executable] + a

    def once(self):
        env = dict(os.environ, **ENV)
        for f in (self.out, self.out + ".cur"):
            if os.path.exists(f): os.unlink(f)
        err = os.path.join(self.scratch, "stderr")
        t = time.time()
        with open(err, "wb") as e:
            p = subprocess.Popen(self.cmd, stdout=e, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=self.scratch)
            try:
                rc = p.wait(timeout=self.limit)
            except subprocess.TimeoutExpired:
                rc = 4
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        self.wall = time.time() - t
        with open(err, "rb") as e:
            e.seek(0, 2); n = e.tell(); e.seek(max(0, n - 200000)); self.err = e.read().decode("utf8", "replace")
        self.note = ""
        try: self.note = open(self.out + ".cur", "rb").read().split(b"\0")[0].decode("utf8", "replace")
        except OSError: pass
        self.res = None
        try: self.res = json.load(open(self.out))
        except (OSError, ValueError): pass
        return rc

    def go(self):
        rc = self.once()
        if rc in (4, -9, -15):      # a hang or kill has to repeat before it is believed
            self.first = rc
            rc = self.once()
        self.rc = rc
        self.verdict, self.msg = "ok", ""
        if rc == 0 and self.res:
            pass
        elif rc == 3:
            self.verdict, self.msg = "error", (self.res or {}).get("violation", "") or self.err[-1500:]
        elif rc == 1 and self.res and self.res.get("rc") == 1:
            self.verdict, self.msg = "violation", self.res["violation"]
        elif rc == 4:
            self.verdict, self.msg = "violation", "HANG (twice): " + self.note + " | " + self.err[-800:]
        elif rc in (-9, -15):
            self.verdict, self.msg = "violation" if self.job.get("kill_is_violation") else "error", f"killed by signal {-rc} twice in: {self.note}"
        elif rc in (126, 127):
            self.verdict, self.msg = "error", self.err[-1500:]
        else:
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|LeakSanitizer[^\n]*|Assertion[^\n]*|terminate called[^\n]*|File requirement violated[^\n]*|HANG[^\n]*)", self.err)
            head = m.group(1) if m else ""
            s = re.search(r"SUMMARY:[^\n]*", self.err)
            self.verdict = "violation"
            self.msg = f"process ended with status {rc} in: {self.note} | {head} {s.group(0) if s else ''}"
            self.msg += "" if head else " | " + self.err[-600:]
        return self


def known(prop):
    r = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"KNOWN property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop: r.append((re.compile(m.group(2)), m.group(3)))
    except OSError: pass
    return r


def main():
    if "--build-all" in sys.argv:
        th = tree_hash()
        todo = sorted({(j["bin"], j.get("variant", "plain")) for p in PLAN.values() for j in p["jobs"] if not j["bin"].endswith(".py")} | {("nudb_cli", "plain")})
        bad = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (n, v), (o, t, e) in zip(todo, ex.map(lambda x: build(*x, th), todo)):
                print(f"{n} {v} {'ok' if o else 'FAILED'} {t:.1f}s {e}")
                bad += not o
        return 2 if bad else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"), 0)
    except ValueError: seed = 1
    t0 = time.time()
    plan = PLAN[prop]
    jobs = [j for j in plan["jobs"] if tier == "thorough" or j["quick"]]
    th = tree_hash()
    need = sorted({(j["bin"], j.get("variant", "plain")) for j in jobs if not j["bin"].endswith(".py")} | {x for j in jobs for x in j.get("needs", [])})
    bins = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for k, (o, t, e) in zip(need, ex.map(lambda x: build(*x, th), need)):
            if not o:
                print(f"cannot build harness {k}:\n{e}"); return 2
            bins[k] = o
    tbuild = time.time() - t0
    os.makedirs("/dev/shm", exist_ok=True)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="nudbv-", dir=base)
    os.chmod(scratch, 0o755)
    runs, done = [], []
    try:
        for j in jobs:
            b = os.path.join(V, "harness", j["bin"]) if j["bin"].endswith(".py") else bins[(j["bin"], j.get("variant", "plain"))]
            n = min(j.get("workers", NCPU), (j[tier] if tier in j else j["quick"])["cases"])
            for w in range(n):
                r = Run(prop, j, w, n, b, seed, tier, scratch)
                for k in j.get("needs", []): r.cmd += ["--" + k[0], bins[k]]
                runs.append(r)
        runs.sort(key=lambda r: -r.job.get("weight", 1))
        stop = []
        def go(r):
            if stop: return None
            r.go()
            if r.verdict == "violation": stop.append(r)
            return r
        par = plan.get("parallel", NCPU)
        with cf.ThreadPoolExecutor(par) as ex:
            done = [r for r in ex.map(go, runs) if r]
        return report(prop, plan, tier, seed, done, t0, tbuild)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, plan, tier, seed, done, t0, tbuild):
    ev, counts, peaks, sigs, samples = 0, {}, {}, set(), []
    for r in done:
        if not r.res: continue
        s = r.res["stats"]; tag = r.job.get("tag", "")
        ev += s["evaluations"]
        for k, v in s["counts"].items(): counts[tag + k] = counts.get(tag + k, 0) + v
        for k, v in s["peaks"].items(): peaks[tag + k] = max(peaks.get(tag + k, 0), v)
        sigs.update((r.job["bin"] + r.job.get("mode", ""), x) for x in s["sigs"])
        samples += [x for x in s["samples"] if x not in samples][:2]
    kn = known(prop); viol = []; seen_known = []
    for r in done:
        if r.verdict != "violation": continue
        for rx, d in kn:
            if rx.search(r.msg): seen_known.append(d); break
        else: viol.append(r)
    errs = [r for r in done if r.verdict == "error"]
    jobs = sorted({f"{r.job['bin']}[{r.job.get('variant', 'plain')}] {r.job.get('mode', '')}".strip() for r in done})
    evd = {"property": prop, "tier": tier, "seed": seed, "level": plan["level"],
           "coverage": {"evaluations": ev, "distinct_nontrivial": len(sigs), "rule": plan["rule"], "samples": samples[:8],
                        "observed": counts, "peaks": peaks, "runs": jobs, "worker_processes": len(done), "build_s": round(tbuild, 1)},
           "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for d in dict.fromkeys(seen_known): print(f"KNOWN-FINDING: property={prop} {d}")
    print(f"{prop} {tier} seed={seed}: {ev} evaluations, {len(sigs)} distinct non-trivial, {len(done)} worker processes, {time.time() - t0:.1f} s")
    for k in sorted(counts): print(f"   {k} = {counts[k]}")
    for k in sorted(peaks): print(f"   {k} (max) = {peaks[k]}")
    if viol:
        r = viol[0]
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", f"{prop}-{hashlib.sha256(r.msg.encode()).hexdigest()[:10]}.txt")
        m = re.search(r"case=(\d+)", r.note or r.msg)
        cmd = [x for x in r.cmd]
        for flag in ("--out", "--scratch"):
            if flag in cmd: i = cmd.index(flag); del cmd[i:i + 2]
        with open(path, "w") as f:
            f.write(f"property: {prop}\nviolation: {r.msg}\nharness: {r.job['bin']} variant {r.job.get('variant', 'plain')}\n")
            f.write("environment: " + " ".join(f"{k}='{v}'" for k, v in ENV.items()) + "\n")
            f.write("replay (after run.py has built the harness; --only repeats one case): " + " ".join(cmd) + (f" --only {m.group(1)}" if m else "") + "\n\n--- output of the run ---\n" + r.err[-20000:])
        print("violation:", r.msg[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        print("check error:", errs[0].msg); return 2
    mn = plan.get("min", {})
    for k, v in mn.items():
        x = counts.get(k, 0)
        if x < v:
            print(f"check error: only {x} {k} observed, at least {v} expected"); return 2
    return 0


sys.exit(main())
