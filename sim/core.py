"""Shared pieces of the simulator: run context, isolated executions, canonical
observations."""
import collections, hashlib, json, math, os, pickle, random, signal, struct, sys, traceback

class Violation(Exception):
    """Raised by an oracle.  `sig` is a short stable class of the violation,
    `msg` a human readable description."""
    def __init__(self, sig, msg, detail=None):
        Exception.__init__(self, "%s: %s" % (sig, msg))
        self.sig, self.msg, self.detail = sig, msg, detail

class HarnessError(Exception):
    """Something is wrong with the check itself."""

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.stats = collections.Counter()
        self.states = set()
        self.log = []
        self.trivial = True       # set to False by execute() when the run did something the rule counts
        self.sample = None
    def count(self, k, n=1):
        self.stats[k] += n
    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])
    def event(self, *a):
        self.log.append(a)

# ------------------------------------------------------------------ canonical values
def canon(x, depth=0):
    """Deterministic JSON form of a result; floats exactly (hex)."""
    import numpy as np
    if depth > 8:
        return "..."
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return "nan" if f != f else f.hex()
    if isinstance(x, complex):
        return ["complex", canon(x.real), canon(x.imag)]
    if isinstance(x, np.ndarray):
        return ["arr", list(x.shape), [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    return "<%s>" % type(x).__name__

def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:24]

def uncanon(x):
    if isinstance(x, str):
        if x == "nan": return float("nan")
        try:
            return float.fromhex(x)
        except ValueError:
            return x
    if isinstance(x, list):
        if x and x[0] == "arr":
            return [uncanon(v) for v in x[2]]
        return [uncanon(v) for v in x]
    if isinstance(x, dict):
        return {k: uncanon(v) for k, v in x.items()}
    return x

def readable(x, n=300):
    s = json.dumps(uncanon(x), default=str)
    return s if len(s) <= n else s[:n] + "..."

def guarded(fn, *a, **k):
    """Run fn; an exception of the library is an observation."""
    try:
        return canon(fn(*a, **k))
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ["exc", type(e).__name__]

# ------------------------------------------------------------------ isolated executions
class IsolatedTimeout(Exception):
    pass

def _read_all(fd):
    buf = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b"".join(buf)
        buf.append(b)

def isolated(fn, *a, **k):
    """Run fn(*a) in a fork of the current process; return its (picklable)
    result.  Exceptions raised by fn are re-raised here."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = _real_fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn(*a, **k))
            except Violation as v:
                res = ("viol", (v.sig, v.msg, v.detail))
            except BaseException as e:
                res = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
            try:
                data = pickle.dumps(res)
            except Exception as e:
                data = pickle.dumps(("err", "unpicklable result: %r" % (e,)))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + (1 << 16)])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            raise IsolatedTimeout("child ended by signal %d" % os.WTERMSIG(st))
        raise HarnessError("isolated child gave no answer (status %r)" % (st,))
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "viol":
        raise Violation(*val)
    raise HarnessError("in isolated child: " + val)

_real_fork = os.fork

def first_diff(a, b, path=""):
    """Human readable description of the first difference of two canonical values."""
    if type(a) != type(b):
        return "%s: %s != %s" % (path, readable(a, 120), readable(b, 120))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = first_diff(a[k], b[k], path + "." + str(k))
            if d: return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: length %d != %d: %s | %s" % (path, len(a), len(b), readable(a, 100), readable(b, 100))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s[%d]" % (path, i))
            if d: return d
        return None
    if a != b:
        return "%s: %s != %s" % (path, readable(a, 120), readable(b, 120))
    return None

# ------------------------------------------------------------------ observing variables
QUERIES = {
    "mean": lambda X, p: X.mean(),
    "var": lambda X, p: X.var(),
    "std": lambda X, p: X.std(),
    "median": lambda X, p: X.median(),
    "skewness": lambda X, p: X.skewness(),
    "kurtosis": lambda X, p: X.kurtosis(),
    "entropy": lambda X, p: X.entropy(),
    "mode": lambda X, p: X.mode(),
    "int_error": lambda X, p: X.int_error(),
    "interp_error": lambda X, p: X.interp_error(),
    "medianad": lambda X, p: X.medianad(),
    "range_": lambda X, p: X.range_(),
    "iqrange": lambda X, p: X.iqrange(),
    "tailexp": lambda X, p: X.tailexp(),
    "is_nonneg": lambda X, p: X.is_nonneg(),
    "ci": lambda X, p: X.ci(0.1),
    "interval": lambda X, p: X.interval(0.8),
    "quantile": lambda X, p: X.quantile(p[0]),
    "cdf": lambda X, p: X.cdf(p[0]),
    "ccdf": lambda X, p: X.ccdf(p[0]),
    "ccdf_value": lambda X, p: X.ccdf_value(p[0]),
    "pdf": lambda X, p: X.pdf(p[0]),
    "pw": lambda X, p: X.get_piecewise_pdf()(p[0]),
    "pwv": lambda X, p: X.get_piecewise_pdf()(_arr(p)),
    "cdfv": lambda X, p: X.cdf(_arr(p)),
    "moment": lambda X, p: X.moment(p[0], 0.0),
    "mgf": lambda X, p: X.mgf()(p[0]),
    "log_pdf": lambda X, p: X.get_piecewise_pdf()(p[0]),
    "summary": lambda X, p: X.summary_map(),
    "summary_print": lambda X, p: X.summary(),
    "invcdf": lambda X, p: X.get_piecewise_invcdf()(p[0]),
    "cdf_interp": lambda X, p: X.get_piecewise_cdf_interp()(p[0]),
    "segments": lambda X, p: segs(X.get_piecewise_pdf()),
    "breaks": lambda X, p: list(X.get_piecewise_pdf().getBreaks()),
    "name": lambda X, p: X.getName(),
}
def _arr(p):
    import numpy as np
    return np.array(p, float)

def segs(pw):
    """Structure and nodes of a piecewise function."""
    out = []
    for s in pw.segments:
        o = [type(s).__name__, canon(s.a), canon(s.b)]
        f = s.f
        if not callable(f):
            o.append(canon(f))
        else:
            for at in ("Xs", "Ys"):
                if hasattr(f, at):
                    try:
                        o.append(digest(canon(getattr(f, at))))
                    except Exception:
                        pass
        out.append(o)
    return out

def ask(X, q, p=()):
    return guarded(QUERIES[q], X, list(p))

def fingerprint(X, pts, full=False):
    """The observations two executions are compared by."""
    o = {}
    o["segments"] = ask(X, "segments")
    o["pwv"] = ask(X, "pwv", pts)
    for q in ("mean", "var", "int_error"):
        o[q] = ask(X, q)
    o["cdf"] = [ask(X, "cdf", [p]) for p in pts[1::3]]
    if full:
        o["median"] = ask(X, "median")
        o["range_"] = ask(X, "range_")
    return o

# ------------------------------------------------------------------ process-wide state
def settings_snapshot():
    """All library settings reachable from pacal.params."""
    from pacal import params
    out = {}
    def walk(c, name):
        for k, v in sorted(vars(c).items()):
            if k.startswith("__") or k in ("str", "process_pool"):
                continue
            if isinstance(v, type):
                if v.__module__ == "pacal.params":
                    walk(v, name + "." + k)
            elif isinstance(v, (int, float, str, bool, type(None))) or hasattr(v, "dtype"):
                out[name + "." + k] = canon(v)
    for k, v in sorted(vars(params).items()):
        if isinstance(v, type) and getattr(v, "__module__", "") == "pacal.params":
            walk(v, k)
    return out

RNG0 = []
def process_state():
    """Process-wide state a computation must not touch."""
    import numpy as np, warnings
    if not RNG0: RNG0.append(np.random.mtrand._rand)
    st = np.random.get_state()
    return {
        "settings": settings_snapshot(),
        "rng": [st[0], hashlib.sha1(st[1].tobytes()).hexdigest(), int(st[2]), int(st[3]), canon(st[4])],
        "pyrandom": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "errstate": dict(np.geterr()),
        "errcall": repr(np.geterrcall()),
        "filters": hashlib.sha1(repr([(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters]).encode()).hexdigest(),
        "showwarning": getattr(warnings.showwarning, "__module__", "") + "." + getattr(warnings.showwarning, "__qualname__", ""),
        "printoptions": digest(canon({k: v for k, v in np.get_printoptions().items() if isinstance(v, (int, float, str))})),
        "cwd": os.getcwd(),
        "environ": hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
        "recursion": sys.getrecursionlimit(),
        "sigint": repr(getattr(signal.getsignal(signal.SIGINT), "__name__", signal.getsignal(signal.SIGINT))),
        "streams": [type(sys.stdout).__name__, type(sys.stderr).__name__, sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__],
        "hooks": [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__],
        "gc": __import__("gc").isenabled(),
        "switch": sys.getswitchinterval(),
        "rngobj": np.random.mtrand._rand is RNG0[0] if RNG0 else None,
        "decimal": repr(__import__("decimal").getcontext()),
    }
