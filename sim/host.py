"""Host of simulated runs: one pristine interpreter with PaCal imported, which
forks a child for every run.  Speaks JSON lines on stdin/stdout."""
import importlib, json, os, random, resource, select, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))

def _load_ext(path):
    """Make `pacal.bary_interp` come from the freshly built extension."""
    import importlib.machinery, importlib.util
    class F:
        @staticmethod
        def find_spec(name, p=None, target=None):
            if name == "pacal.bary_interp":
                ld = importlib.machinery.ExtensionFileLoader(name, path)
                return importlib.util.spec_from_file_location(name, path, loader=ld)
            return None
    sys.meta_path.insert(0, F)

def boot(repo, ext):
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)
    sys.setrecursionlimit(1000)
    import warnings
    import seams
    seams.preimport()
    if ext:
        _load_ext(ext)
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(devnull, 1)
    try:
        import pacal
        import pacal.depvars.nddistr, pacal.depvars.models, pacal.depvars.copulas, pacal.stats.distr_est
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1); os.close(keep); os.close(devnull)
    f = os.path.abspath(pacal.__file__)
    if os.path.dirname(os.path.dirname(f)) != os.path.abspath(repo):
        raise SystemExit("pacal imported from %s, not from %s" % (f, repo))
    seams.postimport()

def prop_module(p):
    return importlib.import_module("props." + p.lower())

def execute(req):
    """Runs in the forked child."""
    from core import Ctx, Violation, HarnessError, IsolatedTimeout, digest, canon
    import seams
    prop = req["prop"]
    mod = prop_module(prop)
    plan = req.get("plan")
    if plan is None:
        rng = random.Random("%s:%s:%s" % (req["seed"], prop, req["index"]))
        plan = mod.plan(rng, req["tier"], req["index"])
    if req["cmd"] == "plan":
        return {"plan": plan}
    if req["cmd"] == "shrink":
        return {"cands": mod.shrink(plan)}
    ctx = Ctx(prop)
    out = {"index": req.get("index")}
    t0 = time.process_time()
    try:
        seams.arm(plan, ctx)
        mod.execute(plan, ctx)
        out["verdict"] = "ok"
    except Violation as v:
        out["verdict"] = "violation"
        out["sig"], out["msg"], out["detail"] = v.sig, v.msg[:4000], v.detail
    except IsolatedTimeout as e:
        out["verdict"] = "timeout"
        out["msg"] = str(e)
    except HarnessError as e:
        out["verdict"] = "error"
        out["msg"] = str(e)[-4000:]
    except BaseException as e:
        out["verdict"] = "error"
        out["msg"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-4000:])
    out["digest"] = digest([out["verdict"], out.get("sig"), canon(ctx.log), sorted(ctx.states)])
    out["stats"] = dict(ctx.stats)
    out["states"] = sorted(ctx.states)
    out["trivial"] = ctx.trivial
    out["sample"] = ctx.sample
    if out["verdict"] != "ok" or req.get("want_plan"):
        out["plan"] = plan
    if req.get("want_log"):
        out["log"] = canon(ctx.log)
    out["cpu"] = time.process_time() - t0 + sum(resource.getrusage(resource.RUSAGE_CHILDREN)[:2])
    return out

def child(req, w):
    os.setsid()
    n = os.open(os.devnull, os.O_RDWR)
    os.dup2(n, 0); os.dup2(n, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(n, 2)
    lim = int(req.get("cpu", 120))
    resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
    mem = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        res = execute(req)
    except BaseException as e:
        res = {"verdict": "error", "msg": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-4000:]), "index": req.get("index")}
    data = (json.dumps(res) + "\n").encode()
    off = 0
    while off < len(data):
        off += os.write(w, data[off:off + 65536])
    os._exit(0)

def main():
    repo, ext = sys.argv[1], sys.argv[2]
    out_fd = os.dup(1)
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    boot(repo, ext if ext != "-" else None)
    import seams
    def send(o):
        data = (json.dumps(o) + "\n").encode()
        off = 0
        while off < len(data):
            off += os.write(out_fd, data[off:])
    send({"ready": True})
    inp = os.fdopen(0, "rb", buffering=0)
    while True:
        line = inp.readline()
        if not line:
            break
        req = json.loads(line)
        if req["cmd"] == "quit":
            break
        r, w = os.pipe()
        seams.reset_process()
        pid = os.fork()
        if pid == 0:
            os.close(r); os.close(out_fd)
            child(req, w)
        os.close(w)
        buf = b""
        deadline = time.monotonic() + float(req.get("wall", 300))
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rd, _, _ = select.select([r], [], [], min(left, 5))
            if rd:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, st = os.waitpid(pid, 0)
        try:
            res = json.loads(buf.decode())
        except ValueError:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            if timed_out or sig in (signal.SIGXCPU,):
                res = {"verdict": "timeout", "msg": "no answer within limits (wall=%s signal=%s)" % (timed_out, sig), "index": req.get("index")}
            else:
                res = {"verdict": "error", "msg": "run child died, status %r" % (st,), "index": req.get("index")}
        send(res)

if __name__ == "__main__":
    main()
