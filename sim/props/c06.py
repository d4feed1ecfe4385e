"""C06: sampling survives every value the random generator may return.

The adversary owns the bits: the state of the Mersenne Twister is set so that
the next 198 uniform doubles are chosen ones; numpy's own algorithms turn them
into variates, so everything they return is legal by construction."""
import math, random
import core, expr, work
from core import Violation
from props import c05

INF = float("inf")
X = {   # parameters beyond those of the general generator
 "UniformDistr": [[0.0, 1e-8], [-1e6, 1e6], [0.1, 0.3], [1.0, 1.0000001], [0.1, 0.7]],
 "TrapezoidalDistr": [[0.0, 0.0, 1.0, 1.0], [0.0, 0.0, 1.0, 2.0], [-1.0, 0.0, 0.0, 1.0], [0.0, 1e-3, 1.0, 1.1]],
 "BetaDistr": [[0.1, 0.1], [0.5, 2.0], [20.0, 0.5], [1.0, 5.0]],
 "GammaDistr": [[0.1, 1.0], [0.05, 2.0], [30.0, 0.1]],
 "ChiSquareDistr": [[1], [4], [30]],
 "FDistr": [[1, 1], [2, 2], [1, 10], [20, 20]],
 "ParetoDistr": [[0.5, 1.0], [0.1, 1.0], [10.0, 2.0]],
 "WeibullDistr": [[0.3, 1.0], [10.0, 2.0]],
 "FrechetDistr": [[0.5, 1.0, -1.0], [10.0, 2.0, 0.0]],
 "LogLogisticDistr": [[0.5, 1.0], [8.0, 2.0]],
 "StudentTDistr": [[1], [3], [30]],
 "LevyDistr": [[0.1, 0.0], [5.0, -2.0]],
 "CauchyDistr": [[1.0, 0.0], [0.1, 5.0]],
 "SemicircleDistr": [[0.1], [3.0]],
 "MollifierDistr": [[0.1], [5.0]],
 "DiscreteDistr": [[[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0], [0.1] * 10], [[0.0, 1.0, 2.0], [0.0, 1.0, 0.0]], [[0.0, 1.0, 2.0, 3.0], [0.5, 0.0, 0.5, 0.0]],
                   [[0.0, 1.0, 2.0], [1 / 3., 1 / 3., 1 / 3.]], [[-5.0, 7.0], [1e-9, 1 - 1e-9]], [[3.0], [1.0]], [[0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0], [1 / 7.] * 7],
                   [[2.0, 1.0, 0.0], [0.2, 0.5, 0.3]]],
 "BinomialDistr": [[30, 0.1], [1, 0.5], [7, 1 / 3.]],
 "BernoulliDistr": [[0.1], [0.999], [1.0], [0.0]],
 "PoissonDistr": [[0.01], [7.0], [20.0]],
 "ConstDistr": [[0.0], [3.0]],
}

def words(spec):
    """624 output words of the generator from a specification."""
    r = random.Random("bits:%s" % (spec["s"],))
    ks = []
    atoms = spec["atoms"]
    for i in range(312):
        # the last words stay plain: the generator derives its next block from them
        if i < 198 and r.random() < spec["p"]:
            t = r.random()
            if t < 0.3: k = r.choice([1, 2, 3, 7, 1 << 10, 1 << 20])
            elif t < 0.6: k = (1 << 53) - r.choice([1, 1, 2, 3, 1 << 10])
            elif t < 0.7: k = (1 << 52) + r.choice([1, -1, 2, -2])
            elif atoms:
                k = int(r.choice(atoms) * (1 << 53)) + r.choice([-1, 0, 0, 1, 2])
                k = min(max(k, 1), (1 << 53) - 1)
                if k == 1 << 52: k += 1
            else: k = r.getrandbits(53) | 1
        else:
            k = r.getrandbits(53) | 1
        ks.append(k)
    # exact zero and exact one half once: two extremes of measure zero meeting in one
    # sample are excluded (see DESIGN)
    if spec.get("zero") is not None: ks[spec["zero"]] = 0
    if spec.get("half") is not None: ks[spec["half"]] = 1 << 52
    out = []
    for k in ks:
        out.append(((k >> 26) << 5) | r.getrandbits(5))
        out.append(((k & ((1 << 26) - 1)) << 6) | r.getrandbits(6))
    return out

def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    t = y
    for _ in range(5):
        t = y ^ ((t << 7) & 0x9d2c5680)
    y = t & 0xffffffff
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xffffffff

def set_bits(spec):
    import numpy as np
    key = np.array([untemper(w) for w in words(spec)], dtype=np.uint32)
    np.random.set_state(("MT19937", key, 0, 0, 0.0))

def plan(rng, tier, index):
    g = expr.Gen(rng, budget=3.0, maxdepth=3, families=rng.choice([[("b", 1), ("u", 1)], [("d", 1)], [("b", 1), ("u", 1), ("d", 1)]]), unary=None, binary=c05.BIN)
    g.UN = [(f, 0.3 if f in ("log", "sqrt", "powr", "order_stat", "median") else w) for f, w in g.UN]
    # leaf classes in turn, so that each is visited often
    classes = sorted(expr.LEAF)
    first = classes[index % len(classes)]
    def leaf(c):
        pool = X.get(c, []) + expr.PARAMS[c]
        p = list(rng.choice(pool))
        v = g.put_leaf(c, p)
        if c in ("BetaDistr", "GammaDistr", "WeibullDistr", "LogLogisticDistr", "ChiSquareDistr", "FDistr") and p not in expr.PARAMS[c]:
            g.info[v].pole = True     # unbounded density: conditioning and min/max do not support it
        return v
    leaf(first)
    for _ in range(rng.choice([0, 0, 1])):
        leaf(rng.choice(classes))
    if rng.random() < 0.65:
        g.program(rng.choice([1, 1, 2]), fresh=0.25)
    if rng.random() < 0.15:
        cs = [s["v"] for s in g.prog if g.info[s["v"]].kind == "c"]
        if len(cs) >= 1:
            w = rng.choice([[0.1, 0.9], [1 / 3., 2 / 3.], [0.0, 1.0], [1.0, 0.0], [1e-3, 0.999]])
            g.op("mix", [rng.choice(cs), rng.choice(cs)], [w])
    atoms = []
    for s in g.prog:
        if s["k"] == "leaf" and g.info[s["v"]].kind == "d":
            if s["c"] == "DiscreteDistr":
                t = 0.0
                for q in s["p"][1]:
                    t += q
                    atoms.append(t)
            else:
                sm = sorted(g.info[s["v"]].s.tolist())
                atoms += [0.5]
        elif s.get("f") == "mix":
            atoms.append(s["p"][0][0])
    if "TrapezoidalDistr" in [s.get("c") for s in g.prog]:
        atoms += [0.5, 0.25, 0.75, 0.125]
    atoms = [min(max(a, 0.0), 1.0) for a in atoms][:12]
    calls = []
    names = [s["v"] for s in g.prog]
    for _ in range(rng.choice([3, 5, 8])):
        v = rng.choice(names[-3:]) if rng.random() < 0.7 else rng.choice(names)
        n = rng.choice([None, None, 1, 2, 5, 17, 40, 0])
        top = 4 if n is None else min(2 * n + 2, 60)
        ext = rng.choice([None, "zero", "zero", "half", "half"])
        calls.append({"v": v, "n": n, "cache": rng.random() < 0.3,
                      "bits": {"s": rng.randrange(1 << 30), "p": rng.choice([0.0, 0.2, 0.6, 0.95]), "atoms": atoms,
                               "zero": rng.randrange(top) if ext == "zero" else None, "half": rng.randrange(top) if ext == "half" else None}})
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": "mono"}, "prog": g.prog, "calls": calls, "dep": rng.random() < 0.5 and not any(s.get("f") in ("gt", "lt", "between") for s in g.prog),
            "sup": {v: [repr(g.info[v].lo), repr(g.info[v].hi), g.info[v].kind] for v in names}}

def execute(plan, ctx):
    import numpy as np
    work.serial()
    d = {s["v"]: s for s in plan["prog"]}
    env = {}
    rec = c05.Draws()
    with work.dep_warnings([]), np.errstate(all="ignore"):
        for s in plan["prog"]:
            if work.build_guarded(s, env) is not None:
                continue
            if hasattr(env[s["v"]], "rand_raw") and c05.is_leaf(s) and "rand_raw" not in vars(env[s["v"]]):
                rec.wrap(s["v"], env[s["v"]])
        if plan["dep"]:
            seen = {}
            for X_ in env.values():
                c05.mark(X_, seen)
        for c in plan["calls"]:
            v, n = c["v"], c["n"]
            if v not in env or not hasattr(env[v], "rand"):
                continue
            V = env[v]
            what = "%s.rand(%s) of %s with generator bits %s" % (v, "" if n is None else n, work.describe(expr.needed(plan["prog"], v)), {k: x for k, x in c["bits"].items() if k != "atoms"})
            # distributions computed on the way must not eat the chosen bits
            set_bits(c["bits"])
            rec.rec = []
            ctx.count("fault:extreme_bits" if c["bits"]["p"] > 0 else "plain_bits")
            if c["bits"]["zero"] is not None: ctx.count("fault:zero_uniform")
            if c["bits"]["half"] is not None: ctx.count("fault:exact_half_uniform")
            try:
                if n is None:
                    x = V.rand(cache={}) if c["cache"] else V.rand()
                else:
                    x = V.rand(n, {}) if c["cache"] else V.rand(n)
            except Exception as e:
                raise Violation("raises", "%s raises %s: %s" % (what, type(e).__name__, e))
            ctx.trivial = False
            ctx.count("draws", 1 if n is None else n)
            ctx.state(d[v].get("c") or d[v]["f"], n, c["bits"]["p"], c["bits"]["zero"], c["bits"]["half"])
            if n is None:
                if isinstance(x, (list, tuple, np.ndarray)) or not np.isscalar(x) or isinstance(x, (str, bytes)):
                    raise Violation("not-a-number", "%s returns %s %r instead of a single number" % (what, type(x).__name__, x))
            elif not isinstance(x, np.ndarray) or x.shape != (n,):
                raise Violation("count", "%s returns %s of shape %s instead of %d values" % (what, type(x).__name__, np.shape(x), n))
            a = np.atleast_1d(np.asarray(x, dtype=float))
            ctx.event(v, n, core.digest(core.canon(a)))
            nan = np.isnan(a)
            if nan.any():
                ok = undefined(plan, d, v, rec.rec, a.shape)
                if (nan & ~ok).any():
                    raise Violation("nan", "%s returns nan: %s" % (what, a.tolist()))
                ctx.count("undefined_by_arithmetic", int(nan.sum()))
            b = a[~nan]
            inf = np.isinf(b)
            if inf.any() and divides(d, d[v]) and any(np.any((x == 0) | ~np.isfinite(x)) for _, x in rec.rec):
                # a divisor was exactly 0 (its sign is meaningless)
                ctx.count("division_by_zero_draws", int(inf.sum()))
                b = b[~inf]
            lo, hi, kind = float(plan["sup"][v][0]), float(plan["sup"][v][1]), plan["sup"][v][2]
            tl = 1e-9 * max(abs(lo), 1e-3) if abs(lo) != INF else 0
            th = 1e-9 * max(abs(hi), 1e-3) if abs(hi) != INF else 0
            # cancellation in sums of large numbers
            big = max([abs(t) for t in (lo, hi) if abs(t) != INF] + [0])
            tl += 1e-12 * big; th += 1e-12 * big
            if ((b < lo - tl) | (b > hi + th)).any():
                raise Violation("outside", "%s returns %s outside the support [%r, %r]" % (what, b[(b < lo - tl) | (b > hi + th)].tolist()[:5], lo, hi))
            s = d[v]
            if s.get("c") in ("DiscreteDistr", "BinomialDistr", "BernoulliDistr", "PoissonDistr", "ConstDistr"):
                if s["c"] == "DiscreteDistr": atoms = [t for t, p in zip(*s["p"]) if p > 0]
                elif s["c"] == "ConstDistr": atoms = [s["p"][0]]
                elif s["c"] == "BernoulliDistr": atoms = [t for t, p in ((0.0, 1 - s["p"][0]), (1.0, s["p"][0])) if p > 0]
                else: atoms = None
                badm = (b != np.floor(b)) if atoms is None else ~np.isin(b, atoms)
                if badm.any():
                    raise Violation("outside", "%s returns %s which the variable cannot take" % (what, b[badm].tolist()[:5]))
    ctx.sample = {"program": work.describe(plan["prog"]), "calls": [[c["v"], c["n"], c["bits"]["p"]] for c in plan["calls"]], "tracking": plan["dep"]}

RISKY = ("div", "mul", "sub", "add", "rdiv", "inv", "log", "pow", "powr", "sqrt", "sin", "cos", "iid_sum", "iid_prod", "iid_average", "iid_average_geom")
def undefined(plan, d, v, recs, shape):
    """Where the expression itself is undefined (0/0, inf-inf, 0*inf) for the values drawn."""
    import numpy as np
    no = np.zeros(shape, bool)
    s = d[v]
    if c05.is_leaf(s):
        return no if not risky(d, s, top=True) else ~no
    if plan["dep"]:
        dv = {}
        for name, x in recs:
            dv.setdefault(name, np.atleast_1d(x))
        memo = {}
        def ev(u):
            if u not in memo:
                t = d[u]
                if c05.is_leaf(t):
                    memo[u] = dv[u]
                elif t["f"] in expr.IID or t["f"] in ("nct", "ncchi2"):
                    raise KeyError
                else:
                    memo[u] = np.atleast_1d(expr.np_op(t["f"], [ev(x) for x in t["x"]], t["p"]))
            return memo[u]
        try:
            return np.isnan(ev(v))
        except KeyError:
            pass
    # independent draws: an extreme value must be involved
    ext = any(np.any((x == 0) | ~np.isfinite(x)) for _, x in recs)
    return ~no if ext and risky(d, s) else no

def risky(d, s, top=False):
    return (not top and s.get("f") in RISKY) or any(risky(d, d[x]) for x in s.get("x", []))

def divides(d, s):
    # numpy's F variate is a quotient too
    return s.get("f") in ("div", "inv", "rdiv") or s.get("c") == "FDistr" or any(divides(d, d[x]) for x in s.get("x", []))

def shrink(plan):
    out = []
    for c in work.drop_each(plan["calls"]):
        out.append(dict(plan, calls=c))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        if any(t["k"] == "leaf" and t not in plan["prog"] for t in p):
            continue
        out.append(dict(plan, prog=p, calls=[c for c in plan["calls"] if c["v"] in names]))
    for i, c in enumerate(plan["calls"]):
        for k, e in (("zero", None), ("half", None), ("p", 0.0)):
            if c["bits"][k] != e:
                out.append(dict(plan, calls=plan["calls"][:i] + [dict(c, bits=dict(c["bits"], **{k: e}))] + plan["calls"][i + 1:]))
        if c["n"] not in (None, 1):
            out.append(dict(plan, calls=plan["calls"][:i] + [dict(c, n=1)] + plan["calls"][i + 1:]))
    if plan["dep"]:
        out.append(dict(plan, dep=False))
    return out
