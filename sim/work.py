"""Workload helpers shared by the properties."""
import contextlib, random, warnings
import core, expr
from core import ask, guarded, canon, Violation

def serial():
    from pacal import params
    params.general.parallel = False
    params.general.process_pool = None

def parallel():
    from pacal import params
    params.general.parallel = True
    params.general.process_pool = None

DEPMSG = "treated as independent"

@contextlib.contextmanager
def dep_warnings(out):
    """Collect the dependence warnings emitted in the body."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("ignore")
        warnings.filterwarnings("always", message=".*%s.*" % DEPMSG)
        yield
    out.append(sum(1 for w in rec if DEPMSG in str(w.message)))

def build_guarded(s, env):
    """Build one statement; an exception of the library is an observation."""
    try:
        env[s["v"]] = expr.build_stmt(s, env)
        return None
    except (Violation, core.HarnessError):
        raise
    except KeyError as e:
        if any(x not in env for x in s.get("x", [])):
            return ["skipped"]
        return ["exc", type(e).__name__]
    except Exception as e:
        return ["exc", type(e).__name__]

def run_program(prog, obs, ctx=None):
    """Build prog statement by statement, asking obs[name] = [(query, args)...]
    right after the statement (eager) and obs["end"] = [(name, query, args)...]
    at the end.  Returns the canonical history."""
    import numpy as np
    env, out = {}, []
    with np.errstate(all="ignore"):
        for s in prog:
            w = []
            with dep_warnings(w):
                e = build_guarded(s, env)
            out.append([s["v"], e, w[0]])
            for q, a in obs.get(s["v"], ()):
                out.append([s["v"], q, a, observe(env, s["v"], q, a)])
        for v, q, a in obs.get("end", ()):
            out.append([v, q, a, observe(env, v, q, a)])
    return out

def observe(env, v, q, a):
    if v not in env:
        return ["skipped"]
    X = env[v]
    w = []
    with dep_warnings(w):
        if not hasattr(X, "get_piecewise_pdf"):
            r = canon(X)
        elif q == "fp":
            r = core.fingerprint(X, list(a))
        elif q == "fpfull":
            r = core.fingerprint(X, list(a), full=True)
        else:
            r = ask(X, q, a)
    return [r, w[0]]

def describe(prog):
    return expr.show(prog)

def diff_history(a, b, la="serial", lb="simulated"):
    """First difference of two histories, as text, or None."""
    for x, y in zip(a, b):
        if x != y:
            return "%s %s: %s" % (x[0], x[1] if len(x) > 3 else "build", core.first_diff(x, y, ""))
    if len(a) != len(b):
        return "histories differ in length"
    return None

CHEAP = ["mean", "var", "std", "int_error", "range_", "is_nonneg", "tailexp", "cdf", "pdf", "pw", "pwv", "ccdf", "moment", "cdfv", "segments", "breaks"]
MID = ["median", "skewness", "kurtosis", "entropy", "interp_error", "quantile", "ci", "interval", "iqrange", "medianad", "mode", "ccdf_value", "summary", "cdf_interp", "summary_print"]

def pick_query(r, g, v):
    """A random query on v with arguments."""
    q = r.choice(CHEAP + MID)
    return q, query_args(r, g, v, q)

def query_args(r, g, v, q):
    pts = g.points(v)
    if q in ("quantile",): return [r.choice([0.05, 0.25, 0.5, 0.9, 0.99])]
    if q == "invcdf": return [r.choice([0.1, 0.5, 0.8])]
    if q == "moment": return [r.choice([1, 2, 3])]
    if q == "mgf": return [r.choice([0.1, -0.2])]
    if q in ("cdf", "pdf", "pw", "ccdf", "ccdf_value", "cdf_interp"): return [pts[0]]
    if q in ("pwv", "cdfv"): return pts
    return []

# ------------------------------------------------------------------ shrinking
def drop_statements(prog, keep=()):
    """Programs with one statement (and its dependents) removed, or a statement
    replaced by one of its operands."""
    out = []
    for s in reversed(prog):
        gone = {s["v"]}
        p = []
        for t in prog:
            if t["v"] in gone or any(x in gone for x in t.get("x", [])):
                gone.add(t["v"])
            else:
                p.append(t)
        if p and not (set(keep) & gone):
            out.append(p)
        for x in s.get("x", [])[:2]:
            p = []
            for t in prog:
                if t["v"] == s["v"]:
                    continue
                t = dict(t)
                if "x" in t:
                    t["x"] = [x if y == s["v"] else y for y in t["x"]]
                p.append(t)
            if not set(keep) & {s["v"]}:
                out.append(p)
    for i, s in enumerate(prog):
        if s["k"] == "leaf" and not (s["c"] == "UniformDistr" and s["p"] == [1.0, 3.0]):
            t = dict(s, c="UniformDistr", p=[1.0, 3.0])
            out.append(prog[:i] + [t] + prog[i + 1:])
    return out

def drop_each(lst):
    return [lst[:i] + lst[i + 1:] for i in range(len(lst))]
