"""C02: the settings in force at the call decide the result, in every process."""
import core, expr, simpool, work
from core import Violation

SETTINGS = [
    ("interpolation.maxn", [5, 9, 30]), ("interpolation_finite.maxn", [5, 12, 50]), ("interpolation_infinite.maxn", [5, 20]),
    ("interpolation_infinite.exponent", [2, 4]), ("interpolation_asymp.maxn", [5, 17]), ("interpolation_pole.maxn", [9, 40]),
    ("interpolation.use_cheb_2nd", [False]), ("interpolation.convergence.abstol", [1e-3, 1e-8]), ("interpolation.convergence.reltol", [1e-3, 1e-8]),
    ("interpolation_asymp.convergence.abstol", [1e-4]), ("interpolation_asymp.convergence.reltol", [1e-4]),
    ("integration.maxn", [20, 100]), ("integration_finite.maxn", [15, 60]), ("integration_asymp.maxn", [20]), ("integration_infinite.maxn", [20]),
    ("integration_infinite.exponent", [3]), ("integration_pole.exponent", [4]), ("integration_pole.maxn", [30]),
    ("integration.convergence.abstol", [1e-3]), ("integration.convergence.reltol", [1e-3]), ("integration.wide_condition", [2.0]),
    ("convergence.abstol", [1e-4]), ("convergence.reltol", [1e-4]), ("convergence.min_quit_iter", [3]), ("convergence.min_quit_no_improvement", [1]),
    ("convergence.min_improvement_ratio", [0.9]),
    ("pole_detection.max_pole_exponent", [-0.3]), ("pole_detection.derivative", [False]), ("pole_detection.continuity_eps", [1e-3]),
    ("segments.unique_eps", [1e-6]), ("segments.abstol", [1e-4]), ("segments.reltol", [1e-4]), ("segments.cumint.maxiter", [30]), ("segments.cumint.reltol", [1e-5]), ("segments.cumint.abstol", [1e-5]),
    ("segments.integration.maxn", [25]),
    ("general.warn_on_dependent", [False]), ("general.distr.independent", [False]),
]

def resolve(path):
    from pacal import params
    c = params
    parts = path.split(".")
    for p in parts[:-1]:
        c = getattr(c, p)
    return c, parts[-1]

def apply(path, value):
    """value None: back to the state at import (the attribute the class had, or none)."""
    c, a = resolve(path)
    if value is None:
        if ORIG[path][0]:
            setattr(c, a, ORIG[path][1])
        elif a in vars(c):
            delattr(c, a)
    elif value == "same":       # assign the original value explicitly
        setattr(c, a, ORIG[path][1])
    else:
        setattr(c, a, value)

# settings which matter where points are evaluated, i.e. in the workers
WORKER = [("integration_infinite.exponent", [3, 2, 4]), ("integration.wide_condition", [2.0, 1.5]), ("convergence.reltol", [1e-4, 1e-2]), ("convergence.abstol", [1e-4, 1e-2]),
          ("integration_pole.exponent", [4, 2]), ("pole_detection.max_pole_exponent", [-0.3, -0.6]), ("convergence.min_quit_iter", [3]),
          ("integration.convergence.reltol", [1e-2]), ("integration.convergence.abstol", [1e-2]), ("integration_finite.maxn", [5]), ("integration_infinite.maxn", [5]), ("integration.maxn", [5]),
          ("segments.cumint.maxiter", [3]), ("segments.unique_eps", [1e-3])]

ORIG = {}
def remember():
    for path, _ in SETTINGS + WORKER:
        try:
            c, a = resolve(path)
            ORIG[path] = (a in vars(c), getattr(c, a))
        except AttributeError:
            pass

def plan(rng, tier, index):
    # swarm: few settings per run, biased to those which matter for arithmetic
    focus = rng.random() < 0.6
    pool = rng.sample(WORKER if focus else SETTINGS, rng.choice([1, 1, 2, 3, 5]))
    fam = rng.choice([[("u", 1)], [("u", 2), ("b", 1)]]) if focus else rng.choice([[("b", 4), ("u", 2), ("d", 1)], [("b", 1)], [("u", 2), ("b", 1)]])
    binary = [("add", 4), ("sub", 3), ("mul", 3), ("div", 2)] if focus else None
    steps = []
    n = rng.choice([3, 4, 5, 6])
    last = None
    for k in range(n):
        for _ in range(rng.choice([1, 1, 2]) if focus and k else rng.choice([0, 0, 1, 2])):
            path, vals = rng.choice(pool)
            v = rng.choice(list(vals) + [None, None, "same"] if k % 2 == 0 or not focus else list(vals))
            steps.append(["set", path, v])
        if rng.random() < 0.12:
            steps.append(["newpool"])
        if rng.random() < 0.12:
            steps.append(["parallel", rng.random() < 0.6])
        if last is not None and rng.random() < (0.6 if focus else 0.4):
            steps.append(last)       # the same program again under other settings
            continue
        g = expr.Gen(rng, budget=rng.choice([0.8, 1.2] if focus else [0.4, 0.8, 1.2]), maxdepth=2, families=fam, binary=binary)
        g.program(rng.choice([1, 1, 2]), fresh=0.8, un=0.15 if focus else 0.45)
        v = g.prog[-1]["v"]
        obs = {"end": [[v, rng.choice(["fp", "fp", "fpfull"]), g.points(v)]]}
        if rng.random() < 0.4:
            obs["end"].append([v] + list(work.pick_query(rng, g, v)))
        last = ["prog", g.prog, obs]
        steps.append(last)
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": rng.choice(["mono", "shuffle", "reuse"])}, "steps": steps,
            "parallel": rng.random() < (0.95 if focus else 0.75), "conf": simpool.gen_conf(rng),
            "effect": rng.randrange(len(EFFECTS)) if rng.random() < 0.25 else None}

def _reference(sets, prog, obs):
    work.serial()
    for path, v in sets:
        if path in ORIG:
            apply(path, v)
    return work.run_program(prog, obs)

def execute(plan, ctx):
    remember()
    def sut():
        c = core.Ctx("C02")
        (work.parallel if plan["parallel"] else work.serial)()
        s = simpool.install(plan["seed"], plan["conf"], c)
        from pacal import params
        outs = []
        for st in plan["steps"]:
            if st[0] == "set":
                if st[1] in ORIG:
                    apply(st[1], st[2])
            elif st[0] == "newpool":
                params.general.process_pool = None
            elif st[0] == "parallel":
                params.general.parallel = st[1]
            else:
                outs.append(work.run_program(st[1], st[2]))
        simpool.report(s, c)
        return outs, c.stats, c.states, c.log, s.tasks
    outs, stats, states, log, tasks = core.isolated(sut)
    ctx.stats.update(stats); ctx.states |= states; ctx.log += log
    cur, k, nset = {}, 0, 0
    hist = []
    for st in plan["steps"]:
        if st[0] == "set":
            cur.pop(st[1], None)
            cur[st[1]] = st[2]
            hist.append("%s=%s" % (st[1], st[2]))
            nset += 1
            ctx.count("setting_changes")
        elif st[0] == "newpool":
            hist.append("new pool")
            ctx.count("pool_restarts")
        elif st[0] == "parallel":
            hist.append("parallel=%s" % st[1])
        else:
            ref = core.isolated(_reference, list(cur.items()), st[1], st[2])
            ctx.event("ref", core.digest(ref))
            ctx.count("computations")
            if nset:
                ctx.trivial = False
            ctx.state("settings", sorted(map(str, cur.items())), k)
            d = work.diff_history(ref, outs[k], "pristine", "session")
            if d:
                raise Violation("settings", "after [%s] computing %s: a fresh serial session with the same settings and this session differ: %s"
                                % ("; ".join(hist), work.describe(st[1]), d))
            hist.append("compute " + work.describe(st[1]))
            k += 1
    ctx.sample = {"session": hist[:8], "parallel": plan["parallel"], "tasks": tasks}
    effects(ctx, plan)

# Settings which visibly change these results: if one stops having an effect,
# the result no longer depends on the settings in force.
def _leaf(v, c, *p):
    return {"v": v, "k": "leaf", "c": c, "p": list(p)}
_ADD = [_leaf("a", "NormalDistr", 0.0, 1.0), _leaf("b", "ExponentialDistr", 1.0), {"v": "c", "k": "op", "f": "add", "x": ["a", "b"], "p": []}]
_BETA = [_leaf("a", "ChiSquareDistr", 1), _leaf("b", "BetaDistr", 0.5, 0.5), {"v": "c", "k": "op", "f": "add", "x": ["a", "b"], "p": []}]
EFFECTS = [("interpolation.maxn", 5, _ADD), ("interpolation_finite.maxn", 5, _ADD), ("interpolation_infinite.maxn", 5, _ADD), ("interpolation_infinite.exponent", 2, _ADD),
           ("interpolation_asymp.maxn", 5, _ADD), ("interpolation_pole.maxn", 9, _BETA), ("interpolation.use_cheb_2nd", False, _ADD),
           ("interpolation.convergence.abstol", 1e-3, _ADD), ("interpolation.convergence.reltol", 1e-3, _ADD), ("integration_infinite.exponent", 3, _ADD),
           ("integration_pole.exponent", 4, _BETA), ("integration.wide_condition", 2.0, _ADD), ("convergence.abstol", 1e-4, _ADD), ("convergence.reltol", 1e-4, _ADD),
           ("convergence.min_quit_iter", 3, _BETA), ("pole_detection.max_pole_exponent", -0.3, _BETA)]

def effects(ctx, plan):
    if plan.get("effect") is None:
        return
    path, value, prog = EFFECTS[plan["effect"]]
    obs = {"end": [["c", "fp", [0.1, 0.7, 1.5, 4.0]]]}
    a = core.isolated(_reference, [], prog, obs)
    b = core.isolated(_reference, [(path, value)], prog, obs)
    ctx.count("effect_probes")
    ctx.event("effect", core.digest([a, b]))
    if a == b:
        raise Violation("no-effect", "setting %s=%r no longer changes the computation of %s" % (path, value, work.describe(prog)))

def shrink(plan):
    out = []
    st = plan["steps"]
    for i in range(len(st)):
        out.append(dict(plan, steps=st[:i] + st[i + 1:]))
    for i, s in enumerate(st):
        if s[0] == "prog":
            for p in work.drop_statements(s[1]):
                names = {t["v"] for t in p}
                v = p[-1]["v"]
                end = [[v if o[0] not in names else o[0]] + o[1:] for o in s[2]["end"]]
                out.append(dict(plan, steps=st[:i] + [["prog", p, {"end": end}]] + st[i + 1:]))
            if len(s[2]["end"]) > 1:
                for o in s[2]["end"]:
                    out.append(dict(plan, steps=st[:i] + [["prog", s[1], {"end": [o]}]] + st[i + 1:]))
    if plan.get("effect") is not None:
        out.append(dict(plan, effect=None))
        out.append(dict(plan, steps=[]))
    for k, simple in (("workers", 1), ("chunk", "all"), ("order", "fifo"), ("assign", "first")):
        if plan["conf"][k] != simple:
            out.append(dict(plan, conf=dict(plan["conf"], **{k: simple})))
    return out
