"""C05: with dependence tracking on, a sample of an expression is one joint draw."""
import itertools, math
import core, expr, work
from core import Violation

_SLOW = {"log": 0.3, "sqrt": 0.3, "powr": 0.3}
UN = [(f, _SLOW.get(f, w)) for f, w in expr.Gen.UN if not f.startswith("iid") and f not in ("order_stat", "median", "gt", "lt", "between")] + [("gt", 0.3), ("between", 0.2)]
BIN = [(f, 0.3 if f == "pow" else w) for f, w in expr.Gen.BIN]
LEAFOPS = ("gt", "lt", "between", "mix")

def plan(rng, tier, index):
    g = expr.Gen(rng, budget=6.0, maxdepth=rng.choice([3, 5, 6]), families=rng.choice([[("b", 4), ("u", 4), ("d", 2)], [("b", 1), ("u", 1)], [("d", 1), ("u", 2)]]), unary=UN, binary=BIN)
    g.program(rng.choice([2, 3, 5, 7]), fresh=rng.choice([0.15, 0.3, 0.5]), last=0.5, un=0.35)
    # conditioning draws until the condition holds: only on plain variables, where
    # tracking cannot make it impossible (X-X > 1)
    info = {s["v"]: s for s in g.prog}
    gone = set()
    for s in list(g.prog):
        if set(s.get("x", ())) & gone or (s.get("f") in ("gt", "lt", "between") and info[s["x"][0]]["k"] != "leaf"):
            gone.add(s["v"])
            g.prog.remove(s)
    mode = rng.choice(["dep", "dep", "dep", "mixed", "indep"])
    ops = [s["v"] for s in g.prog if s["k"] == "op"] or [g.prog[-1]["v"]]
    leaves = [s["v"] for s in g.prog if s["k"] == "leaf"]
    calls = []
    for _ in range(rng.choice([3, 4, 6, 8])):
        v = rng.choice(ops) if rng.random() < 0.85 else rng.choice(leaves)
        c = {"v": v, "cache": rng.choice([None, None, 1, 1, 2])}
        if rng.random() < 0.15:
            c["fail"] = rng.randrange(4)
            c["exc"] = rng.choice(["MemoryError", "KeyboardInterrupt", "ValueError", "FloatingPointError"])
        if rng.random() < 0.15 and g.info[v].depth <= 1 and g.info[v].cost < 0.3:
            c["compute"] = rng.choice(["mean", "cdf", "range_"])
        if rng.random() < 0.1:
            c["gc"] = True
        calls.append(c)
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": rng.choice(["mono", "shuffle", "reuse", "reuse"])}, "prog": g.prog, "mode": mode,
            "indep": sorted(rng.sample(leaves, rng.randint(0, len(leaves)))) if mode == "mixed" else [], "calls": calls,
            "n": rng.choice([1, 3, 8, 8, 8, None]), "strict_hist": True}

class Draws:
    """Records the values drawn for every leaf variable (only the outermost
    draw: what a mixture draws from its components is its own business)."""
    def __init__(self):
        self.level, self.rec, self.fail, self.exc = 0, [], None, None
    def wrap(self, name, X):
        orig = X.rand_raw
        def rand_raw(*a, **k):
            import numpy as np
            if self.level == 0 and self.fail is not None:
                if self.fail == 0:
                    self.fail = None
                    self.fired = True
                    raise {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "FloatingPointError": FloatingPointError}[self.exc]("injected")
                self.fail -= 1
            self.level += 1
            try:
                r = orig(*a, **k)
            finally:
                self.level -= 1
            if self.level == 0:
                self.rec.append((name, np.array(r, dtype=float, copy=True)))
            return r
        X.rand_raw = rand_raw

def is_leaf(s):
    return s["k"] == "leaf" or s["f"] in LEAFOPS

def mark(X, seen):
    if id(X) in seen or not hasattr(X, "indep"):
        return
    seen[id(X)] = X
    X.indep = False
    for p in list(X.parents) + [getattr(X, a) for a in ("d", "d1", "d2") if hasattr(X, a)]:
        mark(p, seen)

def close(a, b):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b)) + 1e-11)))

def execute(plan, ctx):
    import numpy as np, gc, random
    work.serial()
    d = {s["v"]: s for s in plan["prog"]}
    env = {}
    np.random.seed(plan["seed"] % (1 << 32))
    with work.dep_warnings([]), np.errstate(all="ignore"):
        for s in plan["prog"]:
            if work.build_guarded(s, env) is not None:
                pass
        rec = Draws()
        alias = {}
        for s in plan["prog"]:
            if s["v"] not in env or not hasattr(env[s["v"]], "rand"):
                continue
            if any(env[s["v"]] is env[o] for o in env if o != s["v"] and o in alias):
                continue
            alias[s["v"]] = True
            if is_leaf(s):
                rec.wrap(s["v"], env[s["v"]])
        if plan["mode"] != "indep":
            seen = {}
            for X in env.values():
                mark(X, seen)
            for v in plan["indep"]:
                if v in env:
                    env[v].indep = True
        fresh = set(plan["indep"]) if plan["mode"] == "mixed" else (set(d) if plan["mode"] == "indep" else set())
        caches, worlds, sampled = {}, {}, {}
        hist = []
        n = plan["n"]
        for ci, c in enumerate(plan["calls"]):
            v = c["v"]
            if v not in env or not hasattr(env[v], "rand"):
                continue
            X = env[v]
            if c.get("gc"):
                gc.collect()
            if c.get("compute"):
                core.guarded(lambda: core.ask(X, c["compute"], [0.5]) if c["compute"] == "cdf" else core.ask(X, c["compute"]))
            key = c["cache"] if c["cache"] is not None else "call%d" % ci
            cache = caches.setdefault(key, {}) if c["cache"] is not None else None
            rec.rec, rec.fail, rec.exc, rec.fired = [], c.get("fail"), c.get("exc"), False
            text = "%s.rand(%s, cache=%s)" % (v, n, c["cache"])
            got = None
            for attempt in (0, 1):
                try:
                    got = X.rand(n) if cache is None else X.rand(n, cache)
                    break
                except (MemoryError, KeyboardInterrupt, ValueError, FloatingPointError) as e:
                    if not rec.fired or attempt:
                        if rec.fired or isinstance(e, (MemoryError, KeyboardInterrupt)):
                            raise
                        got = None
                        break
                    ctx.count("fault:draw_" + c["exc"])
                    rec.fired = "used"
                    if cache is None:
                        rec.rec = []
                except Exception as e:
                    got = None
                    break
            rec.fail = None
            if got is None:
                ctx.count("calls_failed")
                continue
            failed_once = rec.fired == "used"
            got = np.array(got, dtype=float, copy=True)
            hist.append(text + (" (first attempt failed)" if failed_once else ""))
            ctx.count("samples_checked")
            want_shape = () if n is None else (n,)
            if got.shape != want_shape:
                raise Violation("shape", "%s of %s returns shape %s" % (text, work.describe(plan["prog"]), got.shape))
            check(plan, d, fresh, v, got, rec.rec, worlds, key, sampled, text, hist, failed_once, ctx, c["cache"] is not None)
    ctx.state(plan["mode"], work.describe(plan["prog"]))
    ctx.sample = {"program": work.describe(plan["prog"]), "mode": plan["mode"], "independent": plan["indep"], "calls": hist}

def check(plan, d, fresh, v, got, recs, worlds, key, sampled, text, hist, failed_once, ctx, has_cache):
    """worlds[key]: the explanations of all samples made with this cache so far, each a
    pair (value of every dependent leaf, value of every operation); usually just one."""
    import numpy as np
    W = worlds.setdefault(key, [({}, {})])
    if W is None:
        ctx.count("unchecked_samples")
        return
    values = W[0][1]
    for name, val in recs:
        for old in sampled.get(name, ()):
            if val.size > 1 and d[name]["k"] == "leaf" and d[name].get("c") not in ("ConstDistr", "DiscreteDistr", "BinomialDistr", "BernoulliDistr", "PoissonDistr") and val.shape == old.shape and np.all(val == old):
                raise Violation("reused", "%s in %s: the values of %s were drawn before\nhistory %s" % (text, work.describe(plan["prog"]), name, hist))
        sampled.setdefault(name, []).append(val)
    new = {}
    for name, val in recs:
        new.setdefault(name, []).append(val)
    # variables below v: dependent leaves and number of fresh occurrences of independent leaves
    indep_all = plan["mode"] == "indep"
    dep_leaves, slots = set(), []
    todo = set()
    def walk(u, path):
        s = d[u]
        if is_leaf(s):
            if u in fresh:
                slots.append((path, u))
            else:
                dep_leaves.add(u)
            return
        if not indep_all:
            if u in values or u in todo:
                return
            todo.add(u)
        for i, x in enumerate(s["x"]):
            # dependent operation nodes are evaluated once per cache
            walk(x, (path + (i,)) if indep_all else (u, i))
    walk(v, ())
    nslots = {}
    for p, u in slots:
        nslots[u] = nslots.get(u, 0) + 1
    for u, k in nslots.items():
        if len(new.get(u, ())) < k:
            raise Violation("not-fresh", "%s in %s: independent variable %s occurs %d times but was drawn %d times\nhistory %s" % (text, work.describe(plan["prog"]), u, k, len(new.get(u, ())), hist))
    for u in dep_leaves:
        if u not in W[0][0] and not new.get(u):
            raise Violation("not-drawn", "%s in %s: %s was never drawn" % (text, work.describe(plan["prog"]), u))
        if not failed_once and len(new.get(u, ())) > (0 if u in W[0][0] else 1):
            raise Violation("drawn-again", "%s in %s: %s was drawn again although its value was settled\nhistory %s" % (text, work.describe(plan["prog"]), u, hist))
    ctx.trivial = False
    # arrangements of the fresh draws over their occurrences
    dl = sorted(dep_leaves)
    cand = [[None] if u in W[0][0] else range(len(new[u])) for u in dl]
    total = len(W)
    for c in cand: total *= len(c)
    for u, k in nslots.items(): total *= math.perm(len(new[u]), k)
    if total > 3000:
        ctx.count("unchecked_samples")
        worlds[key] = None
        return
    per = [(u, list(itertools.permutations(range(len(new[u])), k))) for u, k in sorted(nslots.items())]
    best = None
    found = {}
    for dv0, vals0 in W:
        for pick in itertools.product(*cand):
            dv = dict(dv0)
            for u, i in zip(dl, pick):
                if i is not None:
                    dv[u] = new[u][i]
            for arr in itertools.product(*[a for _, a in per]):
                fv = {}
                for (u, _), order in zip(per, arr):
                    for p, k in zip([p for p, w in slots if w == u], order):
                        fv[p] = new[u][k]
                memo = dict(vals0)
                def ev(u, path):
                    s = d[u]
                    if is_leaf(s):
                        return fv[path] if u in fresh else dv[u]
                    if not indep_all and u in memo:
                        return memo[u]
                    r = expr.np_op(s["f"], [ev(x, (path + (i,)) if indep_all else (u, i)) for i, x in enumerate(s["x"])], s["p"])
                    if not indep_all:
                        memo[u] = r
                    return r
                want = ev(v, ())
                if close(got, want):
                    found[core.digest(core.canon([dv, memo]))] = (dv, memo)
                else:
                    best = want
    if found:
        worlds[key] = list(found.values()) if len(found) <= 50 else None
        return
    raise Violation("not-joint", "%s of %s (mode %s, independent %s)\nreturns %s but evaluating the expression on the values drawn gives %s\nhistory %s"
                    % (text, work.describe(plan["prog"]), plan["mode"], plan["indep"], np.asarray(got).tolist(), np.asarray(best).tolist(), hist))

def shrink(plan):
    out = []
    for c in work.drop_each(plan["calls"]):
        out.append(dict(plan, calls=c))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        out.append(dict(plan, prog=p, calls=[c for c in plan["calls"] if c["v"] in names], indep=[v for v in plan["indep"] if v in names]))
    for i, c in enumerate(plan["calls"]):
        for k in ("fail", "compute", "gc"):
            if k in c:
                out.append(dict(plan, calls=plan["calls"][:i] + [{a: b for a, b in c.items() if a != k}] + plan["calls"][i + 1:]))
    if plan["indep"]:
        out.append(dict(plan, indep=[], mode="dep"))
    return out
