"""C13: seeded programs repeat exactly; computing touches no global state."""
import core, expr, simpool, work, aborts
from core import Violation
from props import c02, c04

SAMPLERS = ["rand", "rand", "rand1", "rand_cache", "rand_invcdf", "hist"]
QUIET = sorted(set(c04.SIDE) - {"rand", "rand1", "randinv", "hist", "boxplot"})
START = [("general.warn_on_dependent", [False]), ("general.distr.independent", [False]), ("convergence.abstol", [1e-6]), ("convergence.min_quit_iter", [2, 3]), ("segments.unique_eps", [1e-12]),
         ("interpolation.maxn", [60]), ("integration_finite.maxn", [300]), ("integration.wide_condition", [2.0]), ("pole_detection.max_pole_exponent", [-0.1]), ("segments.cumint.maxiter", [12])]

def plan(rng, tier, index):
    g = expr.Gen(rng, budget=rng.choice([0.3, 0.6, 1.0]), maxdepth=3, families=rng.choice([[("b", 4), ("u", 3), ("d", 2)], [("b", 1)], [("u", 2), ("b", 1)], [("d", 2), ("b", 1)]]))
    g.program(rng.choice([1, 2, 3, 4]), fresh=0.35, last=0.4)
    steps, names = [], []
    def more(k):
        for _ in range(k):
            v = rng.choice(names)
            t = rng.random()
            if t < 0.35:
                steps.append(["sample", v, rng.choice(SAMPLERS), rng.choice([1, 3, 10]), rng.choice(["c1", "c2"])])
                continue
            ab = [rng.choice(["kbd", "mem"]), [rng.random(), rng.random()]] if rng.random() < 0.2 else None
            if t < 0.6:
                steps.append(["quiet", v, "side", rng.choice(QUIET), g.points(v), ab])
            elif t < 0.75:
                steps.append(["quiet", v, "extra", rng.choice(sorted(c04.EXTRA)), g.points(v), ab])
            elif t < 0.8:
                steps.append(["quiet", v, "pair", rng.choice(sorted(c04.PAIR)), rng.choice(names), ab])
            else:
                q, a = work.pick_query(rng, g, v)
                steps.append(["quiet", v, "query", q, a, ab])
    for s in g.prog:
        steps.append(["stmt", s["v"]])
        names.append(s["v"])
        more(rng.choice([0, 1, 2]))
    more(rng.choice([2, 3, 4]))
    steps.append(["sample", rng.choice(names), "rand", 5, "c1"])
    start = []
    if rng.random() < 0.6:
        for path, vals in rng.sample(START, rng.choice([1, 2, 3])):
            start.append([path, rng.choice(vals)])
    return {"seed": rng.randrange(1 << 30), "npseed": rng.randrange(1 << 31), "seams": {"addr": rng.choice(["mono", "reuse"])}, "prog": g.prog, "steps": steps, "start": start,
            "err": [rng.choice(["ignore", "warn"]) for _ in range(4)], "parallel": rng.random() < 0.3, "conf": simpool.gen_conf(rng), "rounds": rng.choice([1, 1, 2])}

def sample(X, st, caches):
    import numpy as np
    q, n = st[2], st[3]
    if q == "rand": return X.rand(n)
    if q == "rand1": return X.rand()
    if q == "rand_cache": return X.rand(n, caches.setdefault((st[4], n), {}))
    if q == "rand_invcdf": return X.rand_invcdf(n)
    c04._hist(X, [])

def quiet(env, st):
    X = env[st[1]]
    if st[2] == "side": c04.SIDE[st[3]](X, list(st[4]))
    elif st[2] == "extra": core.guarded(c04.EXTRA[st[3]], X, list(st[4]))
    elif st[2] == "pair":
        if st[4] in env: core.guarded(c04.PAIR[st[3]], X, env[st[4]])
    else: core.ask(X, st[3], st[4])

def environment(plan):
    """The program's own settings, error handling and filters: not the defaults."""
    import numpy as np, warnings
    c02.remember()
    for path, v in plan["start"]:
        try:
            c02.apply(path, v)
        except AttributeError:
            pass
    e = plan["err"]
    np.seterr(divide=e[0], over=e[1], under=e[2], invalid=e[3])
    np.set_printoptions(precision=5 + len(plan["prog"]))
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    warnings.filterwarnings("ignore", message="simulated filter")

def session(plan, full):
    import random as pyrandom
    import numpy as np
    c = core.Ctx("C13")
    (work.parallel if plan["parallel"] and full else work.serial)()
    s = simpool.install(plan["seed"], plan["conf"], c)
    environment(plan)
    d = {x["v"]: x for x in plan["prog"]}
    out = []
    for rnd in range(plan["rounds"] if full else 1):
        np.random.seed(plan["npseed"])
        pyrandom.seed(plan["npseed"])
        env, caches, got = {}, {}, []
        for st in plan["steps"]:
            if st[0] == "sample":
                if st[1] in env and hasattr(env[st[1]], "rand"):
                    got.append([st, core.guarded(sample, env[st[1]], st, caches)])
                    c.count("samples_drawn")
                continue
            if st[0] == "quiet" and (not full or st[1] not in env or not hasattr(env[st[1]], "rand")):
                continue
            before = core.process_state()
            desc = "building %s" % work.describe([d[st[1]]]) if st[0] == "stmt" else "%s(%s)" % (st[3], st[1])
            try:
                if st[0] == "stmt":
                    work.build_guarded(d[st[1]], env)
                elif st[5] and rnd == 0:
                    site, occ = pick(env, st)
                    if site is None: continue
                    with aborts.armed(site, occ, st[5][0]) as inj:
                        quiet(env, st)
                    if inj.fired: c.count("fault:abort_absorbed")
                else:
                    quiet(env, st)
            except (KeyboardInterrupt, Exception) as e:
                if isinstance(e, (Violation, core.HarnessError)): raise
                if isinstance(e, aborts.Abort):
                    c.count("fault:abort_" + st[5][0])
                    desc += " cut short by %s" % e
            finally:
                aborts.off()
            after = core.process_state()
            c.count("states_compared")
            if before != after:
                raise Violation("state", "program %s (round %d)\n%s changed process-wide state: %s" % (work.describe(plan["prog"]), rnd, desc, core.first_diff(before, after)))
        out.append(got)
    if full: simpool.report(s, c)
    return out, c.stats, c.log, c.states

def pick(env, st):
    def probe():
        from pacal import params
        params.general.process_pool = None
        return aborts.record(lambda: quiet(env, st))
    sites = core.isolated(probe)
    if not sites: return None, None
    return aborts.choose(sites, *st[5][1])

def execute(plan, ctx):
    ref = core.isolated(session, plan, False)[0][0]
    outs, stats, log, states = core.isolated(session, plan, True)
    ctx.stats.update(stats); ctx.log += log; ctx.states |= states
    ctx.state("samples", core.digest(core.canon(ref)))
    nq = sum(1 for s in plan["steps"] if s[0] == "quiet")
    ctx.trivial = not ref or not nq
    ctx.count("samples_compared", len(ref) * len(outs))
    for rnd, got in enumerate(outs):
        for a, b in zip(ref, got):
            if a != b:
                i = plan["steps"].index(a[0])
                raise Violation("samples", "program %s (round %d, %s)\nafter [%s] the sample %s(%s) differs from the one drawn without the computations: %s" % (
                    work.describe(plan["prog"]), rnd, "pool" if plan["parallel"] else "serial", "; ".join("%s(%s)" % (s[3] if s[0] == "quiet" else s[0], s[1]) for s in plan["steps"][:i]), a[0][2], a[0][1], core.first_diff(a[1], b[1])))
        if len(ref) != len(got):
            raise Violation("samples", "number of samples differs")
    ctx.sample = {"program": work.describe(plan["prog"]), "session": [(s[3] if s[0] == "quiet" else s[2] if s[0] == "sample" else "build") + "(" + s[1] + ")" for s in plan["steps"]][:15], "parallel": plan["parallel"]}

def shrink(plan):
    out = []
    st = plan["steps"]
    if plan["parallel"]: out.append(dict(plan, parallel=False))
    if plan["rounds"] > 1: out.append(dict(plan, rounds=1))
    if plan["start"]: out.append(dict(plan, start=[]))
    for i in range(len(st) - 1, -1, -1):
        if st[i][0] != "stmt":
            out.append(dict(plan, steps=st[:i] + st[i + 1:]))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        out.append(dict(plan, prog=p, steps=[t for t in st if t[1] in names]))
    return out
