"""Expression language of the workloads.

A program is a list of statements (JSON), each building one variable:

  {"v": "a", "k": "leaf", "c": "NormalDistr", "p": [0.0, 1.0]}
  {"v": "c", "k": "op", "f": "add", "x": ["a", "b"], "p": []}

`Gen` generates programs.  It carries along, for every variable, its support,
kind and a small sample obtained from *independent* leaf samplers (not from
PaCal), which serves to place thresholds and to reject degenerate expressions.
The same independent samplers are the experiment oracle of property C07.
"""
import math
import numpy as np

INF = float("inf")

# ------------------------------------------------------------------ leaf samplers
def _s_trapz(r, n, a, b, c, d):
    h = 2.0 / (d + c - a - b)
    w = np.array([(b - a) * h / 2, (c - b) * h, (d - c) * h / 2])
    k = r.choice(3, size=n, p=w / w.sum())
    u = r.random(n)
    return np.where(k == 0, a + (b - a) * np.sqrt(u), np.where(k == 1, b + (c - b) * u, d - (d - c) * np.sqrt(u)))

def _s_moll(r, n, eps):
    out = np.empty(0)
    while len(out) < n:
        x = r.uniform(-1, 1, 4 * n + 16)
        u = r.random(len(x)) * math.exp(-1.0)
        with np.errstate(all="ignore"):
            d = np.exp(-1.0 / (1.0 - x * x))
        out = np.concatenate((out, x[u < d]))
    return out[:n] * eps

def _s_disc(r, n, xi, pi):
    p = np.array(pi, float)
    return np.array(xi, float)[r.choice(len(xi), size=n, p=p / p.sum())]

def _s_funquad(r, n, kind):
    u = r.random(n)
    if kind == "lin":      # 2x on [0,1]
        return np.sqrt(u)
    if kind == "quad":     # 3x^2 on [0,1]
        return u ** (1.0 / 3)
    if kind == "tri":      # triangular on [-1,1]
        return r.random(n) - r.random(n)
    raise KeyError(kind)

# name -> (sampler(rng, n, *p), support(*p), kind, pole, heavy)
LEAF = {
 "NormalDistr": (lambda r, n, m, s: r.normal(m, s, n), lambda m, s: (-INF, INF), "c"),
 "UniformDistr": (lambda r, n, a, b: r.uniform(a, b, n), lambda a, b: (a, b), "c"),
 "TrapezoidalDistr": (_s_trapz, lambda a, b, c, d: (a, d), "c"),
 "CauchyDistr": (lambda r, n, g, c: c + g * r.standard_cauchy(n), lambda g, c: (-INF, INF), "c"),
 "ChiSquareDistr": (lambda r, n, df: r.chisquare(df, n), lambda df: (0.0, INF), "c"),
 "ExponentialDistr": (lambda r, n, l: r.exponential(1.0 / l, n), lambda l: (0.0, INF), "c"),
 "GammaDistr": (lambda r, n, k, t: r.gamma(k, t, n), lambda k, t: (0.0, INF), "c"),
 "BetaDistr": (lambda r, n, a, b: r.beta(a, b, n), lambda a, b: (0.0, 1.0), "c"),
 "ParetoDistr": (lambda r, n, a, m: m * (1 + r.pareto(a, n)), lambda a, m: (m, INF), "c"),
 "LevyDistr": (lambda r, n, c, m: m + c / r.standard_normal(n) ** 2, lambda c, m: (m, INF), "c"),
 "LaplaceDistr": (lambda r, n, l, m: r.laplace(m, l, n), lambda l, m: (-INF, INF), "c"),
 "StudentTDistr": (lambda r, n, df: r.standard_t(df, n), lambda df: (-INF, INF), "c"),
 "SemicircleDistr": (lambda r, n, R: R * np.sqrt(r.random(n)) * np.cos(np.pi * r.random(n)), lambda R: (-R, R), "c"),
 "FDistr": (lambda r, n, a, b: r.f(a, b, n), lambda a, b: (0.0, INF), "c"),
 "WeibullDistr": (lambda r, n, k, l: l * r.weibull(k, n), lambda k, l: (0.0, INF), "c"),
 "GumbelDistr": (lambda r, n, m, s: r.gumbel(m, s, n), lambda m, s: (-INF, INF), "c"),
 "FrechetDistr": (lambda r, n, a, s, m: m + s * r.standard_exponential(n) ** (-1.0 / a), lambda a, s, m: (m, INF), "c"),
 "LogLogisticDistr": (lambda r, n, k, s: s * np.exp(r.logistic(0, 1, n) / k), lambda k, s: (0.0, INF), "c"),
 "MollifierDistr": (_s_moll, lambda e: (-e, e), "c"),
 "FunDistr": (_s_funquad, lambda kind: {"lin": (0.0, 1.0), "quad": (0.0, 1.0), "tri": (-1.0, 1.0)}[kind], "c"),
 "DiscreteDistr": (_s_disc, lambda xi, pi: (min(xi), max(xi)), "d"),
 "BinomialDistr": (lambda r, n, k, p: r.binomial(k, p, n).astype(float), lambda k, p: (0.0, float(k)), "d"),
 "BernoulliDistr": (lambda r, n, p: r.binomial(1, p, n).astype(float), lambda p: (0.0, 1.0), "d"),
 "PoissonDistr": (lambda r, n, l: r.poisson(l, n).astype(float), lambda l: (0.0, INF), "d"),
 "ConstDistr": (lambda r, n, c: np.full(n, float(c)), lambda c: (float(c), float(c)), "d"),
}
# parameter sets used by the generators
PARAMS = {
 "NormalDistr": [[0.0, 1.0], [2.0, 0.5], [-1.0, 3.0], [5.0, 1.0], [100.0, 0.1]],
 "UniformDistr": [[0.0, 1.0], [-1.0, 2.0], [1.0, 3.0], [-3.0, -1.0], [0.5, 0.75], [0.0, 10.0]],
 "TrapezoidalDistr": [[0.0, 1.0, 2.0, 4.0], [-2.0, -1.0, 1.0, 2.0], [0.0, 0.5, 1.5, 2.0]],
 "CauchyDistr": [[1.0, 0.0], [0.5, 2.0]],
 "ChiSquareDistr": [[1], [2], [3], [5], [10]],
 "ExponentialDistr": [[1.0], [0.5], [3.0]],
 "GammaDistr": [[2.0, 2.0], [0.5, 1.0], [3.5, 0.5], [1.0, 1.0]],
 "BetaDistr": [[1.0, 1.0], [2.0, 3.0], [0.5, 0.5], [1.0, 2.0], [5.0, 1.0], [3.0, 0.7]],
 "ParetoDistr": [[1.0, 1.0], [3.0, 0.5], [2.5, 2.0]],
 "LevyDistr": [[1.0, 0.0], [2.0, 1.0]],
 "LaplaceDistr": [[1.0, 0.0], [0.5, 2.0]],
 "StudentTDistr": [[2], [5], [1], [10]],
 "SemicircleDistr": [[1.0], [2.0]],
 "FDistr": [[1, 1], [3, 5], [10, 4], [2, 7]],
 "WeibullDistr": [[3.0, 1.0], [1.5, 2.0], [0.8, 1.0], [1.0, 1.0]],
 "GumbelDistr": [[0.0, 1.0], [2.0, 0.5]],
 "FrechetDistr": [[2.0, 1.0, 0.0], [1.5, 2.0, 1.0], [4.0, 1.0, 0.0]],
 "LogLogisticDistr": [[2.0, 1.0], [1.0, 2.0], [4.0, 0.5]],
 "MollifierDistr": [[1.0], [0.5]],
 "FunDistr": [["lin"], ["quad"], ["tri"]],
 "DiscreteDistr": [[[0.0, 1.0], [0.5, 0.5]], [[-1.0, 0.5, 2.0], [0.2, 0.3, 0.5]], [[1.0, 2.0, 3.0, 4.5], [0.1, 0.2, 0.3, 0.4]], [[0.0, 2.0], [0.25, 0.75]]],
 "BinomialDistr": [[4, 0.5], [10, 0.3], [3, 0.9]],
 "BernoulliDistr": [[0.5], [0.25]],
 "PoissonDistr": [[1.0], [2.5], [0.3]],
 "ConstDistr": [[2.0], [-1.5], [0.5]],
}

# ------------------------------------------------------------------ operations: numpy side
def np_op(f, x, p, rng=None):
    """Apply operation f to sample arrays x (independent draws supplied by the caller)."""
    with np.errstate(all="ignore"):
        if f == "add": return x[0] + x[1]
        if f == "sub": return x[0] - x[1]
        if f == "mul": return x[0] * x[1]
        if f == "div": return x[0] / x[1]
        if f == "min": return np.minimum(x[0], x[1])
        if f == "max": return np.maximum(x[0], x[1])
        if f == "pow": return x[0] ** x[1]
        if f == "neg": return -x[0]
        if f == "abs": return np.abs(x[0])
        if f == "shift": return x[0] + p[0]
        if f == "rsub": return p[0] - x[0]
        if f == "scale": return x[0] * p[0]
        if f == "divc": return x[0] / p[0]
        if f == "rdiv": return p[0] / x[0]
        if f == "inv": return 1.0 / x[0]
        if f == "sq": return x[0] ** 2
        if f == "powr": return x[0] ** p[0]
        if f == "rpow": return p[0] ** x[0]
        if f == "exp": return np.exp(x[0])
        if f == "log": return np.log(x[0])
        if f == "sqrt": return np.sqrt(x[0])
        if f == "atan": return np.arctan(x[0])
        if f == "tanh": return np.tanh(x[0])
        if f == "sigmoid": return 1.0 / (1.0 + np.exp(-x[0]))
        if f == "sin": return np.sin(x[0])
        if f == "cos": return np.cos(x[0])
        if f == "sign": return np.sign(x[0])
        if f == "minc": return np.minimum(x[0], p[0])
        if f == "maxc": return np.maximum(x[0], p[0])
    raise KeyError(f)

COND = ("gt", "lt", "between")
IID = ("iid_sum", "iid_prod", "iid_min", "iid_max", "iid_average", "iid_average_geom", "order_stat", "median")

def iid_np(f, X, p):
    """X: array (n_rep, N) of independent draws"""
    with np.errstate(all="ignore"):
        if f == "iid_sum": return X.sum(0)
        if f == "iid_prod": return X.prod(0)
        if f == "iid_min": return X.min(0)
        if f == "iid_max": return X.max(0)
        if f == "iid_average": return X.mean(0)
        if f == "iid_average_geom": return X.prod(0) ** (1.0 / len(X))
        if f == "order_stat": return np.sort(X, 0)[p[1] - 1]
        if f == "median": return np.sort(X, 0)[(p[0] + 1) // 2 - 1]
    raise KeyError(f)

# ------------------------------------------------------------------ experiment oracle
class Experiment:
    """Draws the random experiment described by a program; every occurrence of
    an operand is drawn independently (PaCal's documented semantics of
    arithmetic on distributions)."""
    def __init__(self, prog, rng):
        self.d = {s["v"]: s for s in prog}
        self.r = rng
    def draw(self, v, n):
        s = self.d[v]
        if s["k"] == "leaf":
            return LEAF[s["c"]][0](self.r, n, *s["p"])
        f, x, p = s["f"], s["x"], s["p"]
        if f in COND:
            return self._cond(f, x[0], p, n)
        if f in IID:
            return iid_np(f, np.array([self.draw(x[0], n) for _ in range(p[0])]), p)
        if f == "mix":
            w = np.array(p[0], float)
            k = self.r.choice(len(w), size=n, p=w / w.sum())
            cols = [self.draw(y, n) for y in x]
            return np.choose(k, cols)
        if f == "nct":
            df, mu = p
            return self.r.normal(mu, 1, n) / np.sqrt(self.r.chisquare(df, n) / df)
        if f == "ncchi2":
            df, lm = p
            return (self.r.normal(math.sqrt(lm), 1, n)) ** 2 + (self.r.chisquare(df - 1, n) if df > 1 else 0)
        return np_op(f, [self.draw(y, n) for y in x], p)
    def _cond(self, f, x, p, n):
        out = np.empty(0)
        tries = 0
        while len(out) < n:
            y = self.draw(x, max(n, 64))
            if f == "gt": y = y[y > p[0]]
            elif f == "lt": y = y[y < p[0]]
            else: y = y[(y > p[0]) & (y < p[1])]
            out = np.concatenate((out, y))
            tries += 1
            if tries > 200:
                raise ValueError("condition has too little probability")
        return out[:n]

# ------------------------------------------------------------------ operations: PaCal side
USER = [None]    # called at every evaluation of a user-supplied density
def fun_lin(x):
    if USER[0] is not None: USER[0]()
    return 2.0 * x
def fun_quad(x):
    if USER[0] is not None: USER[0]()
    return 3.0 * x * x
def fun_tri(x):
    if USER[0] is not None: USER[0]()
    return 1.0 - abs(x)
_FUNS = {"lin": (fun_lin, [0.0, 1.0]), "quad": (fun_quad, [0.0, 1.0]), "tri": (fun_tri, [-1.0, 0.0, 1.0])}

def build_stmt(s, env):
    """Execute one statement with PaCal; env maps names to variables."""
    import pacal
    from pacal import distr as D
    if s["k"] == "leaf":
        c, p = s["c"], s["p"]
        if c == "FunDistr":
            fun, brk = _FUNS[p[0]]
            v = pacal.FunDistr(fun, breakPoints=list(brk))
        elif c == "DiscreteDistr":
            v = pacal.DiscreteDistr(list(p[0]), list(p[1]))
        else:
            v = getattr(pacal, c)(*p)
        if s.get("dep"):
            v.indep = False
        return v
    v = apply_op(s["f"], [env[n] for n in s["x"]], s["p"])
    if s.get("dep"):
        v.indep = False
    return v

def apply_op(f, x, p):
    import pacal
    from pacal import distr as D
    if f == "add": return x[0] + x[1]
    if f == "sub": return x[0] - x[1]
    if f == "mul": return x[0] * x[1]
    if f == "div": return x[0] / x[1]
    if f == "min": return D.min(x[0], x[1])
    if f == "max": return D.max(x[0], x[1])
    if f == "pow": return x[0] ** x[1]
    if f == "neg": return -x[0]
    if f == "abs": return abs(x[0])
    if f == "shift": return x[0] + p[0]
    if f == "rsub": return p[0] - x[0]
    if f == "scale": return x[0] * p[0]
    if f == "divc": return x[0] / p[0]
    if f == "rdiv": return p[0] / x[0]
    if f == "inv": return x[0] ** -1
    if f == "sq": return x[0] ** 2
    if f == "powr": return x[0] ** p[0]
    if f == "rpow": return p[0] ** x[0]
    if f == "exp": return D.exp(x[0])
    if f == "log": return D.log(x[0])
    if f == "sqrt": return D.sqrt(x[0])
    if f == "atan": return D.atan(x[0])
    if f == "tanh": return D.tanh(x[0])
    if f == "sigmoid": return D.sigmoid(x[0])
    if f == "sin": return D.sin(x[0])
    if f == "cos": return D.cos(x[0])
    if f == "sign": return D.sign(x[0])
    if f == "minc": return D.min(x[0], p[0])
    if f == "maxc": return D.max(x[0], p[0])
    if f == "gt": return x[0] | pacal.Gt(p[0])
    if f == "lt": return x[0] | pacal.Lt(p[0])
    if f == "between": return x[0] | pacal.Between(p[0], p[1])
    if f == "mix": return pacal.MixDistr(list(p[0]), list(x))
    if f == "iid_sum": return pacal.iid_sum(x[0], p[0])
    if f == "iid_prod": return pacal.iid_prod(x[0], p[0])
    if f == "iid_min": return pacal.iid_min(x[0], p[0])
    if f == "iid_max": return pacal.iid_max(x[0], p[0])
    if f == "iid_average": return pacal.iid_average(x[0], p[0])
    if f == "iid_average_geom": return pacal.iid_average_geom(x[0], p[0])
    if f == "order_stat": return pacal.iid_order_stat(x[0], p[0], p[1])
    if f == "median": return pacal.iid_median(x[0], p[0])
    if f == "nct": return pacal.NoncentralTDistr(*p)
    if f == "ncchi2": return pacal.NoncentralChiSquareDistr(*p)
    raise KeyError(f)

def build(prog, env=None):
    env = {} if env is None else env
    for s in prog:
        env[s["v"]] = build_stmt(s, env)
    return env

def needed(prog, v):
    """Statements needed to build v, in program order."""
    d = {s["v"]: s for s in prog}
    need = set()
    st = [v]
    while st:
        a = st.pop()
        if a in need: continue
        need.add(a)
        st += d[a].get("x", [])
    return [s for s in prog if s["v"] in need]

def show(prog):
    o = []
    for s in prog:
        if s["k"] == "leaf":
            o.append("%s=%s(%s)" % (s["v"], s["c"], ",".join(map(str, s["p"]))))
        else:
            o.append("%s=%s(%s%s)" % (s["v"], s["f"], ",".join(s["x"]), "".join(";" + str(q) for q in s["p"])))
    return " ".join(o)

# ------------------------------------------------------------------ generator
# leaves whose density is unbounded (or treated as such) at an end: PaCal's
# min/max and conditioning are documented not to handle poles
POLE = {("ChiSquareDistr", (1,)), ("GammaDistr", (0.5, 1.0)), ("BetaDistr", (1.0, 1.0)), ("BetaDistr", (0.5, 0.5)),
        ("BetaDistr", (1.0, 2.0)), ("BetaDistr", (5.0, 1.0)), ("BetaDistr", (3.0, 0.7)), ("FDistr", (1, 1)),
        ("WeibullDistr", (0.8, 1.0)), ("LogLogisticDistr", (1.0, 2.0))}
HEAVY = {"CauchyDistr", "LevyDistr", "ParetoDistr", "FDistr", "FrechetDistr", "LogLogisticDistr"}
BOUNDED = ["UniformDistr", "UniformDistr", "TrapezoidalDistr", "BetaDistr", "SemicircleDistr", "FunDistr", "MollifierDistr"]
UNBOUNDED = ["NormalDistr", "ExponentialDistr", "GammaDistr", "ChiSquareDistr", "LaplaceDistr", "GumbelDistr",
             "WeibullDistr", "StudentTDistr", "CauchyDistr", "ParetoDistr", "LevyDistr", "FDistr", "FrechetDistr", "LogLogisticDistr"]
DISCRETE = ["DiscreteDistr", "DiscreteDistr", "BernoulliDistr", "BinomialDistr", "PoissonDistr", "ConstDistr"]

class Info:
    """What the generator knows about a variable."""
    __slots__ = ("kind", "lo", "hi", "pole", "heavy", "cost", "depth", "s", "atoms", "dirty")
    def __init__(self, kind, lo, hi, pole=False, heavy=False, cost=0.02, depth=0, s=None, atoms=0, dirty=False):
        self.kind, self.lo, self.hi, self.pole, self.heavy = kind, lo, hi, pole, heavy
        self.cost, self.depth, self.s, self.atoms, self.dirty = cost, depth, s, atoms, dirty
    def ends(self):
        return (self.lo == -INF) + (self.hi == INF)

def _tup(p):
    return tuple(tuple(q) if isinstance(q, list) else q for q in p)

class Gen:
    """Generates programs.  strict=True keeps to the region in which PaCal's
    results are meant to be numerically right (used by the law oracle)."""
    NS = 400
    def __init__(self, rng, budget=3.0, strict=False, maxdepth=3, families=None, unary=None, binary=None, heavy=True):
        self.r = rng
        self.prog = []
        self.info = {}
        self.budget = budget
        self.strict = strict
        self.maxdepth = maxdepth
        self.families = families or [("b", 4), ("u", 3), ("d", 2)]
        self.unary, self.binary = unary, binary
        self.heavy = heavy
        self.np = np.random.RandomState(rng.randrange(1 << 30))
        self.n = 0
    def _name(self):
        self.n += 1
        return "v%d" % self.n
    def _put(self, s, info):
        self.prog.append(s)
        self.info[s["v"]] = info
        self.budget -= info.cost
        return s["v"]
    def _pick(self, pairs):
        t = self.r.random() * sum(w for _, w in pairs)
        for x, w in pairs:
            t -= w
            if t <= 0:
                return x
        return pairs[-1][0]
    # ---- leaves
    def leaf(self, fam=None, cls=None):
        r = self.r
        fam = fam or self._pick(self.families)
        for _ in range(50):
            c = cls or r.choice({"b": BOUNDED, "u": UNBOUNDED, "d": DISCRETE}[fam])
            if c in HEAVY and not self.heavy and cls is None:
                continue
            p = r.choice(PARAMS[c])
            if self.strict and c == "NormalDistr" and p[0] == 100.0:
                continue
            break
        return self.put_leaf(c, list(p))
    def put_leaf(self, c, p):
        sampler, sup, kind = LEAF[c]
        lo, hi = sup(*p)
        s = sampler(self.np, self.NS, *p)
        heavy = c in HEAVY or (c == "StudentTDistr" and p[0] <= 2)
        atoms = len(set(s.tolist())) if kind == "d" else 0
        if c == "PoissonDistr": atoms = 20
        return self._put({"v": self._name(), "k": "leaf", "c": c, "p": p},
                         Info(kind, lo, hi, (c, _tup(p)) in POLE, heavy, 0.02, 0, s, atoms))
    # ---- operations
    def _shuf(self, s):
        s = s.copy()
        self.np.shuffle(s)
        return s
    def op(self, f, x, p=()):
        """Add the operation if it is acceptable; return its name or None."""
        I = [self.info[v] for v in x]
        out = self._check(f, I, list(p))
        if out is None or out.cost > self.budget:
            return None
        return self._put({"v": self._name(), "k": "op", "f": f, "x": list(x), "p": list(p)}, out)
    def _check(self, f, I, p):
        a = I[0] if I else None
        b = I[1] if len(I) > 1 else None
        depth = 1 + max([i.depth for i in I] or [0])
        if depth > self.maxdepth:
            return None
        st = self.strict
        with np.errstate(all="ignore"):
            if f in ("add", "sub", "mul", "div", "min", "max", "pow", "mix"):
                return self._check2(f, I, p, depth)
            o = Info(a.kind, a.lo, a.hi, a.pole, a.heavy, 0.01, depth, None, a.atoms, a.dirty)
            s = a.s
            if f == "neg": o.lo, o.hi = -a.hi, -a.lo
            elif f == "shift": o.lo, o.hi = a.lo + p[0], a.hi + p[0]
            elif f == "rsub": o.lo, o.hi = p[0] - a.hi, p[0] - a.lo
            elif f in ("scale", "divc"):
                k = p[0] if f == "scale" else 1.0 / p[0]
                o.lo, o.hi = sorted((a.lo * k, a.hi * k))
            elif f == "abs":
                if st and a.kind == "m": return None
                o.lo = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
                o.hi = max(abs(a.lo), abs(a.hi))
                o.cost = 0.05
            elif f in ("inv", "rdiv"):
                if a.kind != "c": return None
                o.cost, o.pole = 0.05, True
                o.heavy = o.heavy or a.lo <= 0 <= a.hi
                if a.lo > 0 or a.hi < 0:
                    e = sorted(((1 / a.hi if a.hi != INF else 0.0), (1 / a.lo if a.lo != -INF else 0.0)))
                    o.lo, o.hi = e
                elif a.lo == 0: o.lo, o.hi = (1 / a.hi if a.hi != INF else 0.0), INF
                elif a.hi == 0: o.lo, o.hi = -INF, (1 / a.lo if a.lo != -INF else 0.0)
                else: o.lo, o.hi = -INF, INF
                if f == "rdiv":
                    o.lo, o.hi = sorted((o.lo * p[0], o.hi * p[0]))
            elif f == "sq":
                if st and a.kind == "m": return None
                o.lo = 0.0 if a.lo <= 0 <= a.hi else min(a.lo ** 2, a.hi ** 2)
                o.hi = max(a.lo ** 2, a.hi ** 2)
                o.pole, o.cost = o.lo == 0.0 or a.pole, 0.05
            elif f in ("log", "sqrt", "powr"):
                if a.lo < 0 or a.hi <= 0 or (st and (a.kind != "c" or a.heavy)): return None
                o.cost, o.pole = 0.1, True
                if f == "log":
                    o.lo = math.log(a.lo) if a.lo > 0 else -INF
                    o.hi = math.log(a.hi) if a.hi != INF else INF
                else:
                    e = 0.5 if f == "sqrt" else p[0]
                    if e < 0:
                        return None
                    o.lo, o.hi = a.lo ** e, a.hi ** e
            elif f in ("exp", "rpow"):
                k = 1.0 if f == "exp" else math.log(p[0])
                hi = a.hi * k if k > 0 else a.lo * k
                if st and (a.kind != "c" or a.heavy or hi > 6 or a.dirty): return None
                if not st and a.heavy: return None
                e = sorted((a.lo * k, a.hi * k))
                o.lo = math.exp(e[0]) if e[0] != -INF else 0.0
                o.hi = math.exp(min(e[1], 700)) if e[1] != INF else INF
                o.cost, o.pole = 0.1, True
            elif f == "atan":
                if st and (a.kind != "c" or a.pole): return None
                o.lo, o.hi, o.cost, o.pole, o.heavy = math.atan(a.lo), math.atan(a.hi), 0.1, True, False
            elif f in ("tanh", "sigmoid"):
                if st and (a.kind != "c" or a.pole or max(abs(a.lo), abs(a.hi)) > 3): return None
                g = math.tanh if f == "tanh" else (lambda t: 1 / (1 + math.exp(-max(-700, t))))
                o.lo, o.hi, o.cost, o.pole, o.heavy = g(a.lo), g(a.hi), 0.1, True, False
            elif f in ("sin", "cos"):
                L, H = (-math.pi / 2, 1.5 * math.pi) if f == "sin" else (0.0, 2 * math.pi)
                if a.lo < L or a.hi > H: return None
                if st and (a.kind != "c" or a.pole): return None
                o.lo, o.hi, o.cost, o.pole = -1.0, 1.0, 0.1, True
                o.dirty = True
            elif f == "sign":
                if np.mean(s > 0) < 0.05 or np.mean(s < 0) < 0.05: return None
                if st and a.kind == "m": return None
                o = Info("d", -1.0, 1.0, False, False, 0.1, depth, None, 3, False)
            elif f in ("minc", "maxc"):
                q = np.mean(s < p[0])
                if not 0.1 < q < 0.9: return None
                if a.kind == "m" or (st and (a.pole or a.dirty)): return None
                o.kind, o.cost, o.pole = ("d" if a.kind == "d" else "m"), 0.1, a.pole
                o.lo, o.hi = (a.lo, p[0]) if f == "minc" else (p[0], a.hi)
            elif f in ("gt", "lt", "between"):
                if f == "gt": m = s > p[0]; o.lo = p[0]
                elif f == "lt": m = s < p[0]; o.hi = p[0]
                else: m = (s > p[0]) & (s < p[1]); o.lo, o.hi = p
                if m.sum() < 60: return None
                if a.kind != "c" or a.pole or (st and a.dirty): return None
                if m.sum() > 0.97 * len(m): return None
                o.cost = 0.15
                o.s = self._shuf(np.resize(s[m], len(s)))
                return o
            elif f in ("iid_sum", "iid_average"):
                n = p[0]
                if a.kind == "m": return None
                if a.kind == "d":
                    if a.atoms * n > 30 or (f == "iid_average"): return None
                    o.atoms = a.atoms * n
                o.cost = 0.1 * n if a.ends() == 0 else (0.5 if a.ends() == 1 else 0.7) * n
                k = n if f == "iid_sum" else 1
                o.lo, o.hi = a.lo * k, a.hi * k
                o.heavy = a.heavy
            elif f in ("iid_prod", "iid_average_geom"):
                n = p[0]
                if a.kind != "c" or a.ends() or a.pole: return None
                if f == "iid_average_geom" and (a.lo < 0): return None
                if st and a.lo <= 0: return None
                e = [a.lo, a.hi]
                for _ in range(n - 1): e = [u * v for u in e for v in (a.lo, a.hi)]
                o.lo, o.hi, o.pole, o.cost = min(e), max(e), True, 0.2 * n
                if f == "iid_average_geom": o.lo, o.hi = a.lo, a.hi
            elif f in ("iid_min", "iid_max"):
                if a.kind == "m" or (a.kind == "c" and a.pole) or (st and a.dirty): return None
                if a.kind == "d" and a.atoms > 8: return None
                o.cost = 0.05 * p[0]
            elif f in ("order_stat", "median"):
                if a.kind != "c" or a.pole or a.heavy or a.dirty or a.depth > 0: return None
                o.cost = 0.2 + 0.3 * a.ends()
                if st and a.ends(): return None
                o.dirty = True
            else:
                return None
            if o.s is None:
                if f in IID:
                    o.s = iid_np(f, np.array([self._shuf(s) for _ in range(p[0])]), p)
                else:
                    o.s = np_op(f, [s], p)
        return self._sane(o)
    def _sane(self, o):
        if not np.all(np.isfinite(o.s)): return None
        q = np.quantile(np.abs(o.s), 0.5)
        if q > 1e4 or (q < 1e-4 and o.kind == "c"): return None
        return o
    def _check2(self, f, I, p, depth):
        a, b = I[0], I[1]
        st = self.strict
        kind = {("c", "c"): "c", ("c", "d"): "c", ("d", "c"): "c", ("d", "d"): "d"}.get((a.kind, b.kind), "m")
        if kind == "m" and f not in ("add", "sub"): return None
        if (a.kind, b.kind) in (("m", "d"), ("d", "m"), ("m", "m")) and st: return None
        if kind == "m" and (a.kind == "c" or b.kind == "c"): kind = "c"
        o = Info(kind, 0, 0, a.pole or b.pole, a.heavy or b.heavy, 0, depth, None, 0, a.dirty or b.dirty)
        if st and a.dirty and b.dirty: return None
        ends = a.ends() + b.ends()
        o.cost = [0.1, 0.25, 0.45, 0.6, 0.8][ends] * (1.5 if a.depth else 1) * (1.5 if b.depth else 1)
        if kind == "d":
            o.atoms = a.atoms * b.atoms
            if o.atoms > 60: return None
            o.cost = 0.001 * o.atoms ** 2 + 0.01
        elif "d" in (a.kind, b.kind):
            at = max(a.atoms, b.atoms)
            if at > 12: return None
            o.cost *= 0.5 + 0.2 * at
        sa, sb = self._shuf(a.s), self._shuf(b.s)
        if f == "add": o.lo, o.hi = a.lo + b.lo, a.hi + b.hi
        elif f == "sub": o.lo, o.hi = a.lo - b.hi, a.hi - b.lo
        elif f in ("mul", "div"):
            if f == "div":
                if b.kind != "c": return None
                if st and (b.dirty or b.pole or a.kind == "d"): return None
            if st and (a.heavy and b.heavy): return None
            # atom at zero times continuous gives an atom
            for u, v in ((a, b), (b, a)):
                if u.kind == "d" and v.kind == "c" and np.any(u.s == 0): o.kind = "m"
            if st and o.kind == "m": return None
            if st and kind == "c" and (a.pole and b.pole): return None
            blo, bhi = b.lo, b.hi
            if f == "div":
                if b.lo <= 0 <= b.hi:
                    o.heavy = True
                    blo, bhi = (-INF if b.lo < 0 else (1 / b.hi if b.hi != INF else 0.0)), (INF if b.hi > 0 else (1 / b.lo if b.lo != -INF else 0.0))
                else:
                    blo, bhi = sorted((1 / b.lo if abs(b.lo) != INF else 0.0, 1 / b.hi if abs(b.hi) != INF else 0.0))
            e = []
            for u in (a.lo, a.hi):
                for v in (blo, bhi):
                    e.append(0.0 if u == 0 or v == 0 else u * v)
            o.lo, o.hi = min(e), max(e)
            if kind == "c": o.pole = True
            o.cost *= 1.6
        elif f in ("min", "max"):
            if kind == "c" and (a.pole or b.pole): return None
            if st and o.dirty: return None
            g = min if f == "min" else max
            o.lo, o.hi = g(a.lo, b.lo), g(a.hi, b.hi)
            o.cost *= 0.4
            if kind == "c" and "d" in (a.kind, b.kind): o.kind = "m"
            # one operand always smaller: degenerate
            if a.hi <= b.lo or b.hi <= a.lo: return None
            if st and o.kind == "m": return None
        elif f == "pow":
            if a.kind != "c" or b.kind != "c" or a.lo <= 0 or a.ends() or b.ends() or a.pole or b.pole or a.depth or b.depth: return None
            o.pole, o.cost = True, 0.4
            e = [u ** v for u in (a.lo, a.hi) for v in (b.lo, b.hi)]
            o.lo, o.hi = min(e), max(e)
        elif f == "mix":
            if not (a.kind == b.kind == "c"): return None
            if st and (a.pole or b.pole or o.dirty): return None
            o.lo, o.hi, o.cost = min(a.lo, b.lo), max(a.hi, b.hi), 0.1
            w = np.array(p[0][:2])
            k = self.np.rand(len(sa)) < w[0] / w.sum()
            o.s = np.where(k, sa, sb)
            return self._sane(o)
        o.s = np_op(f, [sa, sb], p)
        return self._sane(o)
    # ---- random steps
    UN = [("neg", 2), ("abs", 2), ("shift", 2), ("rsub", 2), ("scale", 2), ("divc", 1), ("inv", 1), ("rdiv", 1), ("sq", 2), ("powr", 1),
          ("rpow", 1), ("exp", 2), ("log", 1), ("sqrt", 1), ("atan", 1), ("tanh", 1), ("sigmoid", 1), ("sin", 1), ("cos", 1), ("sign", 1),
          ("minc", 2), ("maxc", 2), ("gt", 2), ("lt", 2), ("between", 2), ("iid_sum", 2), ("iid_prod", 1), ("iid_min", 1), ("iid_max", 1),
          ("iid_average", 1), ("iid_average_geom", 1), ("order_stat", 1), ("median", 1)]
    BIN = [("add", 4), ("sub", 3), ("mul", 3), ("div", 2), ("min", 2), ("max", 2), ("pow", 1), ("mix", 1)]
    def _par(self, f, i):
        r = self.r
        q = sorted(i.s.tolist())
        qt = lambda t: round(q[int(t * (len(q) - 1))], 3)
        if f == "shift": return [r.choice([1.0, -2.5, 0.25, 3])]
        if f == "rsub": return [r.choice([1.0, 2.5, 0.0])]
        if f in ("scale", "divc"): return [r.choice([2.0, -1.0, 0.5, -3.0, 4])]
        if f == "rdiv": return [r.choice([1.0, 2.0, -1.5])]
        if f == "powr": return [r.choice([3, 1.5, 0.5])]
        if f == "rpow": return [r.choice([2.0, 0.5])]
        if f in ("minc", "maxc"): return [qt(r.uniform(0.15, 0.85))]
        if f == "gt": return [qt(r.uniform(0.1, 0.7))]
        if f == "lt": return [qt(r.uniform(0.3, 0.9))]
        if f == "between":
            t = r.uniform(0.05, 0.4)
            return [qt(t), qt(r.uniform(t + 0.3, 0.95))]
        if f in ("iid_sum", "iid_min", "iid_max", "iid_prod", "iid_average", "iid_average_geom"): return [r.choice([2, 2, 3])]
        if f == "order_stat":
            n = r.choice([2, 3, 4])
            return [n, r.randint(1, n)]
        if f == "median": return [r.choice([3, 5])]
        return []
    def step(self, tries=40, fresh=0.5, last=0.6, un=0.45):
        """Add one random operation (adding leaves when wanted); returns its name or None."""
        r = self.r
        for _ in range(tries):
            names = [s["v"] for s in self.prog]
            def operand():
                if not names or r.random() < fresh:
                    return self.leaf()
                if r.random() < last:
                    return names[-1]
                return r.choice(names)
            mark = len(self.prog), self.budget, self.n
            if r.random() < un:
                x = operand()
                f = self._pick(self.unary or self.UN)
                v = self.op(f, [x], self._par(f, self.info[x]))
            else:
                f = self._pick(self.binary or self.BIN)
                x = operand()
                y = operand()
                p = []
                if f == "mix":
                    w = r.choice([[0.5, 0.5], [0.25, 0.75], [0.9, 0.1]])
                    p = [w]
                v = self.op(f, [x, y], p)
            if v is not None:
                return v
            for s in self.prog[mark[0]:]:
                del self.info[s["v"]]
            del self.prog[mark[0]:]
            self.budget, self.n = mark[1], mark[2]
        return None
    def program(self, nops, **k):
        if not self.prog:
            self.leaf()
        for _ in range(nops):
            if self.step(**k) is None:
                break
        return self.prog
    def points(self, v, k=7):
        """Evaluation points in and around the support of v."""
        i = self.info[v]
        q = np.quantile(i.s, [0.02, 0.2, 0.4, 0.5, 0.65, 0.85, 0.98]).tolist()
        q = [round(t, 4) for t in q]
        for e in (i.lo, i.hi):
            if abs(e) != INF:
                q.append(round(e + self.r.choice([-0.5, 0.0, 0.25]), 4))
        self.r.shuffle(q)
        return q[:k]
