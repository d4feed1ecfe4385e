"""Driver: runs the simulated runs of a property, judges, minimises, reports."""
import hashlib, json, os, random, re, selectors, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
NHOSTS = int(os.environ.get("VERIF_JOBS", "8"))
HASHSEEDS = [1, 2, 3, 4]
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "780"))
T0 = time.monotonic()

sys.path.insert(0, HERE)
import registry

# ------------------------------------------------------------------ build
def build_ext():
    """Compile the extension of the tree under test outside of it; returns the
    path of the shared object, or None if the tree has none."""
    pyx = os.path.join(REPO, "pacal", "bary_interp.pyx")
    if not os.path.exists(pyx):
        return None
    h = hashlib.sha256(open(pyx, "rb").read())
    for f in sorted(os.listdir(os.path.join(REPO, "pacal"))):
        if f.endswith((".pxd", ".pxi", ".h")):
            h.update(open(os.path.join(REPO, "pacal", f), "rb").read())
    h.update(sys.version.encode())
    d = os.path.join(VERIF, ".cache", "ext-" + h.hexdigest()[:20])
    so = os.path.join(d, "bary_interp.so")
    if os.path.exists(so):
        return so
    os.makedirs(os.path.dirname(d), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=os.path.dirname(d))
    try:
        code = r'''
import sys, os, glob, shutil
src, tmp = sys.argv[1:]
os.makedirs(os.path.join(tmp, "pacal"))
open(os.path.join(tmp, "pacal", "__init__.py"), "w").close()
for f in glob.glob(os.path.join(src, "*.pyx")) + glob.glob(os.path.join(src, "*.pxd")):
    shutil.copy(f, os.path.join(tmp, "pacal"))
os.chdir(tmp)
import numpy
from setuptools import Distribution, Extension
from Cython.Build import cythonize
ext = cythonize([Extension("pacal.bary_interp", ["pacal/bary_interp.pyx"], include_dirs=[numpy.get_include()])], quiet=True)
d = Distribution({"name": "x", "ext_modules": ext})
c = d.get_command_obj("build_ext")
c.inplace = 0; c.build_lib = os.path.join(tmp, "out"); c.build_temp = os.path.join(tmp, "tmp")
c.ensure_finalized(); c.run()
'''
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        e.pop("PYTHONPATH", None)
        r = subprocess.run([PY, "-c", code, os.path.join(REPO, "pacal"), tmp], env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        out = []
        for root, _, fs in os.walk(os.path.join(tmp, "out")):
            out += [os.path.join(root, f) for f in fs if f.endswith(".so")]
        if r.returncode or not out:
            sys.stderr.write("building the extension failed:\n" + r.stdout.decode(errors="replace")[-3000:] + "\n")
            raise SystemExit(2)
        os.makedirs(d, exist_ok=True)
        os.replace(out[0], so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so

# ------------------------------------------------------------------ hosts
class Host:
    def __init__(self, hashseed, ext, scratch):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "MPL", "PACAL"))}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HOME=scratch, LC_ALL="C.UTF-8", TZ="UTC")
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, "-u", os.path.join(HERE, "host.py"), REPO, ext or "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=scratch, stderr=None if os.environ.get("VERIF_DEBUG") else open(os.path.join(scratch, "host%d.err" % hashseed), "ab"))
        self.scratch = scratch
        self.buf = b""
        self.job = None
        os.set_blocking(self.p.stdout.fileno(), True)
    def wait_ready(self):
        l = self.p.stdout.readline()
        if not l:
            sys.stderr.write("host did not start:\n")
            try:
                sys.stderr.write(open(os.path.join(self.scratch, "host%d.err" % self.hashseed)).read()[-3000:])
            except OSError:
                pass
            raise SystemExit(2)
    def send(self, req):
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
    def recv(self):
        l = self.p.stdout.readline()
        if not l:
            raise SystemExit("host died")
        return json.loads(l)
    def call(self, req):
        self.send(req)
        return self.recv()
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()

class Farm:
    def __init__(self, ext, n=NHOSTS, hashseeds=HASHSEEDS):
        self.scratch = tempfile.mkdtemp(prefix="verif-")
        self.ext = ext
        self.hosts = [Host(hashseeds[i % len(hashseeds)], ext, self.scratch) for i in range(n)]
        for h in self.hosts:
            h.wait_ready()
    def close(self):
        for h in self.hosts:
            h.close()
        shutil.rmtree(self.scratch, ignore_errors=True)
    def run(self, jobs, stop=None):
        """jobs: list of (hashseed, req).  Yields (job, result) as they come.
        stop(job) -> True drops a job that has not started."""
        queues = {}
        for j in jobs:
            queues.setdefault(j[0], []).append(j)
        for q in queues.values():
            q.reverse()
        sel = selectors.DefaultSelector()
        busy = 0
        for h in self.hosts:
            sel.register(h.p.stdout, selectors.EVENT_READ, h)
        def feed(h):
            q = queues.get(h.hashseed)
            while q:
                j = q.pop()
                if stop and stop(j):
                    continue
                h.job = j
                h.send(j[1])
                return 1
            h.job = None
            return 0
        for h in self.hosts:
            busy += feed(h)
        try:
            while busy:
                for key, _ in sel.select(timeout=60):
                    h = key.data
                    res = h.recv()
                    j, h.job = h.job, None
                    busy -= 1
                    yield j, res
                    busy += feed(h)
        finally:
            sel.close()

def hashseed_of(index):
    return HASHSEEDS[index % len(HASHSEEDS)]

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) plan=(\S+) sig=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"plan": os.path.join(VERIF, m.group(2)), "sig": m.group(3), "text": m.group(4)})
    return out

def corpus(prop):
    d = os.path.join(VERIF, "corpus", prop)
    return [os.path.join(d, f) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []

# ------------------------------------------------------------------ minimise
def plan_size(p):
    return len(json.dumps(p))

def minimise(farm, prop, plan, hs, sig, limits, max_tries=150, max_s=150):
    t0 = time.monotonic()
    hosts = [h for h in farm.hosts if h.hashseed == hs]
    h = hosts[0]
    tries = 0
    best = plan
    msg = None
    improved = True
    seen = set()
    while improved and tries < max_tries and time.monotonic() - t0 < max_s and time.monotonic() - T0 < DEADLINE + 40:
        improved = False
        r = h.call(dict(limits, cmd="shrink", prop=prop, plan=best))
        cands = r.get("cands")
        if not cands:
            break
        for c in cands:
            k = json.dumps(c, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            tries += 1
            res = h.call(dict(limits, cmd="run", prop=prop, plan=c))
            if res["verdict"] == "violation" and res["sig"] == sig:
                best, improved, msg = c, True, res
                break
            if tries >= max_tries or time.monotonic() - t0 > max_s or time.monotonic() - T0 > DEADLINE + 40:
                break
    return best, msg, tries

# ------------------------------------------------------------------ replay
def replay(path, quiet=False):
    rec = json.load(open(path))
    ext = build_ext()
    farm = Farm(ext, 1, [rec["hashseed"]])
    try:
        res = farm.hosts[0].call(dict(registry.limits(rec["property"], "thorough"), cmd="run", prop=rec["property"], plan=rec["plan"], want_log=True, seed=rec.get("seed"), index=rec.get("index")))
    finally:
        farm.close()
    same = res["verdict"] == "violation" and res.get("sig") == rec.get("sig") and res.get("digest") == rec.get("digest")
    if not quiet:
        print("verdict=%s sig=%s" % (res["verdict"], res.get("sig")))
        print(res.get("msg", ""))
        print("digest=%s recorded=%s %s" % (res.get("digest"), rec.get("digest"), "identical" if same else "DIFFERENT"))
    return res, same

# ------------------------------------------------------------------ check
def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = registry.PROPS[prop]
    limits = registry.limits(prop, tier)
    n = int(os.environ.get("VERIF_RUNS", P["runs"][tier]))
    print("VERIF_SEED=%d property=%s tier=%s runs=%d repo=%s" % (seed, prop, tier, n, REPO), flush=True)
    ext = build_ext()
    farm = Farm(ext)
    errors, viols, timeouts, results = [], [], [], {}
    known_hit, known_gone = [], []
    try:
        # --- directed plans: known findings and corpus
        jobs = []
        for k in known_findings(prop):
            rec = json.load(open(k["plan"]))
            jobs.append((rec.get("hashseed", 1), dict(limits, cmd="run", prop=prop, plan=rec["plan"], index=-1, want_plan=True), ("known", k)))
        for c in corpus(prop):
            rec = json.load(open(c))
            jobs.append((rec.get("hashseed", 1), dict(limits, cmd="run", prop=prop, plan=rec["plan"], index=-1, want_plan=True), ("corpus", c)))
        ndirected = len(jobs)
        for i in range(n):
            jobs.append((hashseed_of(i), dict(limits, cmd="run", prop=prop, seed=seed, index=i, tier=tier), ("run", i)))
        first = [None]
        def stop(j):
            if time.monotonic() - T0 > DEADLINE:
                return True
            return first[0] is not None and (j[2][0] != "run" or j[2][1] > first[0])
        skipped = 0
        directed = []
        for j, res in farm.run(jobs, stop):
            kind, ref = j[2]
            res["hashseed"] = j[0]
            if kind == "run":
                results[ref] = res
            else:
                directed.append(res)
            if res["verdict"] == "error":
                errors.append((j[2], res))
                if len(errors) > 20:
                    first[0] = -1
            elif res["verdict"] == "timeout":
                timeouts.append((j, res))
            elif res["verdict"] == "violation":
                if kind == "known" and res["sig"] == ref["sig"]:
                    known_hit.append((ref, res))
                else:
                    viols.append((j, res))
                    if kind == "run" and (first[0] is None or ref < first[0]):
                        first[0] = ref
            elif kind == "known":
                known_gone.append(ref)
        # --- slow runs again with more time, before calling them hanging
        for j, res in sorted(timeouts, key=lambda t: str(t[0][2])):
            if viols and time.monotonic() - T0 > 120:
                break
            if time.monotonic() - T0 > DEADLINE:
                errors.append((j[2], res))
                continue
            req = dict(j[1], cpu=limits["cpu"] * 4, wall=limits["wall"] * 4, want_plan=True)
            h = [h for h in farm.hosts if h.hashseed == j[0]][0]
            r2 = h.call(req)
            r2["hashseed"] = j[0]
            if r2["verdict"] == "timeout":
                pl = h.call(dict(j[1], cmd="plan")).get("plan") if "plan" not in j[1] else j[1]["plan"]
                r2.update(verdict="violation", sig="hang", msg="run does not end within %d s of CPU time (normally %s)" % (limits["cpu"] * 4, "far less than %d" % limits["cpu"]), plan=pl, digest=None)
                viols.append((j, r2))
            elif r2["verdict"] == "violation":
                viols.append((j, r2))
            elif r2["verdict"] == "error":
                errors.append((j[2], r2))
            if j[2][0] == "run":
                results[j[2][1]] = r2
        # --- report
        for ref, res in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, ref["text"]))
        for ref in known_gone:
            print("note: known finding no longer fails: %s" % ref["text"])
        incomplete = len([i for i in range(n) if i not in results])
        path = None
        if viols:
            viols.sort(key=lambda t: (t[1]["sig"] == "hang", t[0][2][0] == "run", t[0][2][1] if t[0][2][0] == "run" else 0))
            j, res = viols[0]
            path = report(farm, prop, seed, j, res, limits)
        write_evidence(prop, tier, seed, P, results, directed, viols, errors, known_hit, n, incomplete)
        if viols:
            sys.stdout.flush()
            return 1
        if errors:
            for ref, res in errors[:5]:
                sys.stderr.write("ERROR in run %s: %s\n" % (ref, res.get("msg", "")[-1500:]))
            print("check error: %d runs failed in the machinery" % len(errors))
            return 2
        if incomplete:
            # a slow machine: the seeds that were executed are a prefix-dense sample; say so
            print("note: %d of %d runs not executed within %d s" % (incomplete, n, DEADLINE))
            if incomplete > 0.8 * n:
                print("check error: too few runs executed in time")
                return 2
        print("OK property=%s runs=%d nontrivial=%d wall=%.1fs" % (prop, n, sum(1 for r in results.values() if not r["trivial"]), time.monotonic() - T0))
        return 0
    finally:
        farm.close()

def report(farm, prop, seed, j, res, limits):
    plan, hs, sig = res["plan"], res["hashseed"], res["sig"]
    tries = 0
    mini = plan
    final = res
    if sig != "hang":
        mini, r, tries = minimise(farm, prop, plan, hs, sig, limits)
        if r is not None:
            final = r
    d = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]))
    rec = {"property": prop, "seed": seed, "index": j[2][1] if j[2][0] == "run" else j[2][0], "hashseed": hs, "sig": sig, "msg": final.get("msg"),
           "detail": final.get("detail"), "digest": final.get("digest"), "minimise_tries": tries, "plan": mini}
    if mini is not plan:
        rec["original_plan"] = plan
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    verified = "not tried"
    if sig != "hang":
        f2 = Farm(farm.ext, 1, [hs])
        try:
            r2 = f2.hosts[0].call(dict(limits, cmd="run", prop=prop, plan=mini))
        finally:
            f2.close()
        verified = "reproduced exactly" if (r2["verdict"], r2.get("digest")) == ("violation", final.get("digest")) else "NOT reproduced identically (%s)" % r2["verdict"]
    print("run %s (seed %d, hash seed %d): %s" % (rec["index"], seed, hs, sig))
    print("  " + str(final.get("msg")).replace("\n", "\n  "))
    print("  minimised in %d attempts from %d to %d bytes of plan; replay in a fresh process: %s" % (tries, plan_size(plan), plan_size(mini), verified))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path

def write_evidence(prop, tier, seed, P, results, directed, viols, errors, known_hit, n, incomplete):
    import collections
    stats = collections.Counter()
    states, nontriv = set(), set()
    samples = []
    cpu = 0.0
    for i in sorted(results):
        r = results[i]
        for k, v in r.get("stats", {}).items():
            stats[k] += v
        states.update(r.get("states", ()))
        if not r.get("trivial", True):
            nontriv.add(r.get("digest"))
        if r.get("sample") and len(samples) < 4:
            samples.append(r["sample"])
        cpu += r.get("cpu", 0.0)
    wall = time.monotonic() - T0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    cov = {"evaluations": len(results), "distinct_nontrivial": len(nontriv), "rule": P["rule"], "samples": samples,
           "simulated_runs": len(results), "runs_per_hour": round(3600 * len(results) / max(wall, 1e-9)), "cpu_s": round(cpu, 1),
           "distinct_states": len(states), "state_measure": P["measure"], "faults_injected": faults,
           "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
           "directed_plans": len(directed), "known_findings_seen": len(known_hit), "runs_not_executed": incomplete, "machinery_errors": len(errors),
           "simulated_time": P.get("simtime", "no clock or timer in the code under test; simulated progress is counted in scheduling steps and operations (see counters)"),
           "real_components": P["real"], "stubbed_components": P["stub"], "hash_seeds": HASHSEEDS}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P["assumptions"],
          "wall_s": round(wall, 2), "violations": len(viols)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

# ------------------------------------------------------------------ self test
def selftest(props, count=24):
    """Every run twice, in different processes, at different worker counts: digests must agree."""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ext = build_ext()
    bad = 0
    for prop in props:
        digs = []
        for nh in (8, 4):
            farm = Farm(ext, nh)
            try:
                d = {}
                jobs = [(hashseed_of(i), dict(registry.limits(prop, "quick"), cmd="run", prop=prop, seed=seed, index=i, tier="quick"), i) for i in range(count)]
                if nh == 4:
                    jobs.reverse()
                for j, r in farm.run(jobs):
                    d[j[2]] = (r["verdict"], r.get("digest"))
                digs.append(d)
            finally:
                farm.close()
        diff = [i for i in digs[0] if digs[0][i] != digs[1][i]]
        bad += len(diff)
        print("%s: %d runs twice, %d differ %s" % (prop, count, len(diff), diff[:5]), flush=True)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build_ext()
        return 0
    if a[:1] == ["replay"]:
        res, same = replay(a[1])
        if res["verdict"] == "violation":
            print("VIOLATION property=%s replay=%s" % (json.load(open(a[1]))["property"], a[1]))
            return 1
        return 0 if res["verdict"] == "ok" else 2
    if a[:1] == ["selftest"]:
        return selftest(a[1:] or sorted(registry.PROPS))
    if a[:1] == ["plan"]:
        ext = build_ext()
        farm = Farm(ext, 1, [1])
        print(json.dumps(farm.hosts[0].call({"cmd": "plan", "prop": a[1], "seed": int(os.environ.get("VERIF_SEED", "1")), "index": int(a[2]), "tier": "quick"}), indent=1))
        farm.close()
        return 0
    if len(a) == 2 and a[0] in registry.PROPS:
        return check(a[0], a[1])
    print("usage: check PROPERTY quick|thorough | replay FILE | setup | selftest [PROPERTY...] | plan PROPERTY INDEX")
    return 2

if __name__ == "__main__":
    sys.exit(main())
