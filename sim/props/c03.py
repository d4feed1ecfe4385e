"""C03: an aborted computation leaves everything as if it had never started."""
import core, expr, simpool, work, aborts
from core import Violation
from props import c04

def _rand(X, p):
    import numpy as np
    np.random.seed(int(abs(p[0]) * 1000) % 10000)
    return X.rand(4)
def _rand_shared(X, p):
    import numpy as np
    np.random.seed(7)
    cache = {}
    return [X.rand(3, cache), X.rand(3, cache)]
def _umeanf(X, p):
    def f(x):
        if expr.USER[0] is not None: expr.USER[0]()
        return x * x
    return X.meanf(f)
OWN = {"rand": _rand, "rand_shared": _rand_shared, "umeanf": _umeanf, "invcdf3": lambda X, p: X.get_piecewise_invcdf()(0.3),
       "randinv": lambda X, p: (__import__("numpy").random.seed(3), X.rand_invcdf(5))[1],
       "depwarn": lambda X, p: (X - X).getName(), "cond": lambda X, p: (X | __import__("pacal").Gt(p[0])).mean(),
       "iid": lambda X, p: __import__("pacal").iid_sum(X, 2).getName(), "iidmean": lambda X, p: __import__("pacal").iid_max(X, 2).mean(),
       "summary_map": lambda X, p: X.summary_map()}
PRINTS = ("summary_print", "print_pw")

def plan(rng, tier, index):
    par = rng.random() < 0.12
    fam = rng.choice([[("b", 4), ("u", 3), ("d", 2)], [("b", 1)], [("u", 2), ("b", 1)], [("d", 2), ("b", 1)]])
    g = expr.Gen(rng, budget=rng.choice([0.2, 0.4, 0.7]), maxdepth=2, families=fam)
    if rng.random() < 0.3:
        g.leaf(cls="FunDistr")
    g.program(rng.choice([1, 1, 2, 3]), fresh=0.35, last=0.5)
    hasfun = any(s.get("c") == "FunDistr" for s in g.prog)
    def abort(kinds=("pt",)):
        k = rng.choice(kinds)
        u = [rng.random(), rng.random()]
        if k == "pt":
            return {"k": rng.choice(["kbd", "kbd", "mem"]), "u": u}
        return {"k": k, "u": u}
    steps = []
    def questions(names, k):
        for _ in range(k):
            v = rng.choice(names)
            t = rng.random()
            if t < 0.15:
                st = ["side", v, rng.choice(sorted(c04.SIDE)), g.points(v)]
            elif t < 0.35:
                st = ["ask", v, rng.choice(sorted(c04.EXTRA)), g.points(v)]
            elif t < 0.6:
                st = ["ask", v, rng.choice(sorted(OWN)), g.points(v)]
            else:
                q, a = work.pick_query(rng, g, v)
                st = ["ask", v, q, a]
            ab = []
            if rng.random() < 0.6:
                kinds = ["pt"] * 3
                if hasfun or st[2] == "umeanf": kinds += ["user"] * 3
                if st[2] in PRINTS: kinds += ["os"] * 6
                ab = [abort(kinds) for _ in range(rng.choice([1, 1, 1, 2]))]
            steps.append(st + [ab])
    names = []
    for s in g.prog:
        ab = [abort(["pt"])] if rng.random() < (0.35 if s["k"] == "op" else 0.2) else []
        steps.append(["stmt", s["v"], "", [], ab])
        names.append(s["v"])
        if rng.random() < 0.4:
            questions(names, 1)
    questions(names, rng.choice([1, 2, 3]))
    for v in rng.sample(names, min(2, len(names))):
        steps.append(["ask", v, "fp", g.points(v), []])
    steps.append(["ask", names[-1], "depwarn", [], []])
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": "mono"}, "prog": g.prog, "steps": steps, "parallel": par, "conf": simpool.gen_conf(rng)}

def do(st, env, d):
    """One step, answering its observation."""
    import numpy as np
    w = []
    with work.dep_warnings(w), np.errstate(all="ignore"):
        if st[0] == "stmt":
            r = work.build_guarded(d[st[1]], env)
        elif st[1] not in env:
            return ["skipped"]
        elif st[0] == "side":
            c04.SIDE[st[2]](env[st[1]], list(st[3]))
            r = None
        elif st[2] in OWN:
            r = core.guarded(OWN[st[2]], env[st[1]], list(st[3]))
        elif st[2] in c04.EXTRA:
            r = core.guarded(c04.EXTRA[st[2]], env[st[1]], list(st[3]))
        else:
            r = work.observe(env, st[1], st[2], st[3])
    return [r, w[0]]

def complete(st, env, d):
    try:
        return do(st, env, d)
    except Violation:
        raise
    except Exception as e:
        return ["exc", type(e).__name__]

def state():
    s = core.process_state()
    s.pop("rng"); s.pop("pyrandom")
    return s

def aborted(st, env, d, ab, c):
    """Perform the step cut short as described by ab.  Returns a description of what happened."""
    def probe():
        from pacal import params
        params.general.process_pool = None
        if ab["k"] == "user":
            with aborts.user_faults() as u: complete(st, env, d)
            return u.n
        if ab["k"] == "os":
            with aborts.stdout_faults() as s: complete(st, env, d)
            return s.n
        return aborts.record(lambda: complete(st, env, d))
    got = core.isolated(probe)
    if not got:
        return None
    before = state()
    x = res = None
    try:
        if ab["k"] == "user":
            at = 1 + int(ab["u"][0] * got) % got
            desc = "evaluation %d of a user-supplied function fails" % at
            with aborts.user_faults(at) as inj: res = do(st, env, d)
        elif ab["k"] == "os":
            at = 1 + int(ab["u"][0] * got) % got
            desc = "write %d to the output stream fails" % at
            with aborts.stdout_faults(at) as inj: res = do(st, env, d)
        else:
            site, occ = aborts.choose(got, *ab["u"])
            c.count("sites_seen", len(got))
            c.state("site", site)
            desc = "%s at %s (%s) pass %d of %d" % (aborts.KINDS[ab["k"]].__name__, site[0], {"S": "entry", "C": "call", "J": "loop"}[site[1]], occ, got[site])
            inj = aborts.armed(site, occ, ab["k"])
            with inj: res = do(st, env, d)
    except (KeyboardInterrupt, Exception) as e:
        if isinstance(e, Violation): raise
        x = e
    finally:
        aborts.off()
    if st[0] == "stmt":
        env.pop(st[1], None)
    if not inj.fired:
        c.count("abort_not_reached")
        return None
    if isinstance(x, aborts.Abort) or (res and isinstance(res[0], list) and res[0][:1] == ["exc"] and "Injected" in res[0][1]): c.count("fault:abort_" + ab["k"])
    else: c.count("fault:abort_" + ab["k"] + "_absorbed")
    after = state()
    if after != before:
        raise Violation("state", "after %s in %s, process-wide state differs: %s" % (desc, st[:3], core.first_diff(before, after)))
    return desc

def session(plan, with_aborts):
    import sys
    d = {s["v"]: s for s in plan["prog"]}
    c = core.Ctx("C03")
    (work.parallel if plan["parallel"] else work.serial)()
    s = simpool.install(plan["seed"], plan["conf"], c)
    env, out, descs = {}, [], []
    for i, st in enumerate(plan["steps"]):
        if with_aborts:
            for ab in st[4]:
                if st[0] != "stmt" and st[1] not in env:
                    continue
                if ab["k"] in ("user",) and plan["parallel"]:
                    continue
                de = aborted(st[:4], env, d, ab, c)
                if de:
                    descs.append((i, de))
                    c.event("abort", i, de)
        out.append(complete(st[:4], env, d))
    if with_aborts:
        simpool.report(s, c)
    return out, c.stats, c.log, descs, c.states

def execute(plan, ctx):
    ref = core.isolated(session, plan, False)[0]
    got, stats, log, descs, states = core.isolated(session, plan, True)
    ctx.stats.update(stats); ctx.log += log; ctx.states |= states
    ctx.trivial = not descs
    ctx.count("answers_compared", len(ref))
    ctx.event("ref", core.digest(core.canon(ref)))
    name = lambda st: "build " + st[1] if st[0] == "stmt" else "%s(%s)" % (st[2], st[1])
    for i, (a, b) in enumerate(zip(ref, got)):
        if a != b:
            raise Violation("retry", "program %s\nsession [%s]\naborts %s\nstep %d %s answers differently: (undisturbed, after aborts) %s" % (
                work.describe(plan["prog"]), "; ".join(map(name, plan["steps"][:i + 1])), [(name(plan["steps"][j]), t) for j, t in descs if j <= i], i, name(plan["steps"][i]), core.first_diff(a, b)))
    if descs:
        ctx.sample = {"program": work.describe(plan["prog"]), "session": [name(s) for s in plan["steps"]], "aborts": [list(t) for t in descs]}

def shrink(plan):
    out = []
    st = plan["steps"]
    for i in range(len(st) - 1, -1, -1):
        if st[i][0] != "stmt":
            out.append(dict(plan, steps=st[:i] + st[i + 1:]))
    for i in range(len(st)):
        for j in range(len(st[i][4])):
            ns = [list(x) for x in st]
            ns[i][4] = st[i][4][:j] + st[i][4][j + 1:]
            out.append(dict(plan, steps=ns))
    if plan["parallel"]:
        out.insert(0, dict(plan, parallel=False))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        out.append(dict(plan, prog=p, steps=[t for t in st if t[1] in names]))
    return out
