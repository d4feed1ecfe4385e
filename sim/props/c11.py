"""C11: a failure in a worker reaches the caller and the pool stays usable."""
import core, expr, simpool, work
from core import Violation

EXC = ["MemoryError", "Injected", "ValueError", "ZeroDivisionError", "FloatingPointError", "ArithmeticError", "TypeError", "IndexError", "AssertionError", "StopIteration"]
QUERIES = ["mean", "var", "fp", "pwv", "int_error", "cdf", "median", "segments"]

def gen_fault(rng):
    k = rng.choice(["raise", "raise", "inner", "inner", "inner", "user", "os", "args", "result", "start"])
    f = {"kind": k, "rel": rng.choice([1, 1, 1, 2, 3]), "task": rng.randrange(12), "item": rng.randrange(40)}
    if k == "raise": f["exc"] = rng.choice(EXC)
    if k in ("inner", "user"):
        f["exc"] = rng.choice(["MemoryError", "WorkerError", "ValueError", "OSError"])
        f["n"] = int(2 ** rng.uniform(0, 8 if k == "inner" else 5))
    if k == "start": f["exc"], f["times"] = rng.choice(["OSError", "MemoryError", "EMFILE"]), rng.choice([1, 1, 2])
    return f

def plan(rng, tier, index):
    g = expr.Gen(rng, budget=rng.choice([0.8, 1.2, 2.0]), maxdepth=3, families=rng.choice([[("b", 1)], [("b", 2), ("u", 2)], [("b", 4), ("u", 2), ("d", 1)]]), unary=[("scale", 1), ("shift", 1), ("exp", 1), ("sq", 1), ("abs", 1), ("iid_sum", 2), ("gt", 1)])
    if rng.random() < 0.5: g.leaf(cls="FunDistr")
    g.program(rng.choice([2, 3, 4]), un=0.25)
    steps = []
    for s in g.prog:
        steps.append(["stmt", s["v"]])
        if s["k"] == "op" and rng.random() < 0.9:
            q = rng.choice(QUERIES)
            steps.append(["ask", s["v"], q, g.points(s["v"]) if q == "fp" else work.query_args(rng, g, s["v"], q), [gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]])
    ops = [s["v"] for s in g.prog if s["k"] == "op"] or [g.prog[-1]["v"]]
    for v in rng.sample(ops, min(2, len(ops))):
        steps.append(["ask", v, "fp", g.points(v), [gen_fault(rng)] if rng.random() < 0.2 else []])
    steps.append(["ask", rng.choice(ops), "fpfull", g.points(ops[-1]), []])
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": "mono"}, "prog": g.prog, "steps": steps, "conf": simpool.gen_conf(rng)}

def do(st, env, d):
    import numpy as np
    with np.errstate(all="ignore"):
        if st[0] == "stmt":
            return work.build_guarded(d[st[1]], env)
        return work.observe(env, st[1], st[2], st[3])

def has_exc(o):
    if isinstance(o, list):
        return (len(o) == 2 and o[0] == "exc") or any(has_exc(x) for x in o)
    if isinstance(o, dict):
        return any(has_exc(x) for x in o.values())
    return False

def execute(plan, ctx):
    d = {s["v"]: s for s in plan["prog"]}
    def ser():
        work.serial()
        env = {}
        return [do(st, env, d) for st in plan["steps"]]
    ref = core.isolated(ser)
    def par():
        from pacal import params
        c = core.Ctx("C11")
        work.parallel()
        s = simpool.install(plan["seed"], plan["conf"], c)
        env, hist = {}, []
        for st, want in zip(plan["steps"], ref):
            name = "build %s" % work.describe([d[st[1]]]) if st[0] == "stmt" else "%s(%s)" % (st[2], st[1])
            for f in (st[4] if st[0] == "ask" else []):
                if has_exc(want): continue       # raises by itself
                if f["kind"] == "start":
                    # the pool has to be started anew, as after a change of the number of processes
                    if params.general.process_pool is not None:
                        params.general.process_pool.terminate()
                        params.general.process_pool = None
                    s.conf["start_fail"] = {"at": s.pools + 1, "times": f["times"], "exc": f["exc"]}
                else:
                    s.conf["faults"] = [dict(f, map=s.maps + f["rel"])]
                n0 = sum(s.fired.values())
                got = do(st, env, d)
                s.conf["faults"] = []
                fired = sum(s.fired.values()) - n0
                hist.append("%s with fault %s%s" % (name, {k: v for k, v in f.items()}, "" if fired else " (not reached)"))
                c.count("attempts_with_fault" if fired else "fault_not_reached")
                # (a query that needs the pool once per attempt fails as often as the start fails)
                if fired and not has_exc(got):
                    raise Violation("swallowed", "program %s\n%s\nthe failure did not reach the caller: it got %s" % (work.describe(plan["prog"]), "; ".join(hist), core.readable(got)))
                if not fired and got != want:
                    raise Violation("wrong", "program %s\n%s\ndiffers from the undisturbed result: %s" % (work.describe(plan["prog"]), "; ".join(hist), core.first_diff(want, got)))
                s.conf.pop("start_fail", None)
            got = do(st, env, d)
            hist.append(name)
            if got != want:
                raise Violation("after", "program %s\n%s\nthe last step differs from the undisturbed result: %s" % (work.describe(plan["prog"]), "; ".join(hist), core.first_diff(want, got)))
        simpool.report(s, c)
        return c.stats, c.states, c.log, hist
    stats, states, log, hist = core.isolated(par)
    ctx.stats.update(stats); ctx.states |= states; ctx.log += log
    ctx.event("hist", hist, core.digest(ref))
    ctx.trivial = not stats.get("attempts_with_fault")
    ctx.sample = {"program": work.describe(plan["prog"]), "history": hist, "pool": plan["conf"]}

def shrink(plan):
    out = []
    st = plan["steps"]
    for i in range(len(st) - 1, -1, -1):
        if st[i][0] != "stmt":
            out.append(dict(plan, steps=st[:i] + st[i + 1:]))
            for j in range(len(st[i][4])):
                ns = [list(x) for x in st]
                ns[i][4] = st[i][4][:j] + st[i][4][j + 1:]
                out.append(dict(plan, steps=ns))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        out.append(dict(plan, prog=p, steps=[t for t in st if t[1] in names]))
    for k, simple in (("workers", 1), ("chunk", "all"), ("order", "fifo"), ("assign", "first")):
        if plan["conf"][k] != simple:
            out.append(dict(plan, conf=dict(plan["conf"], **{k: simple})))
    return out
