"""Aborts at chosen program points: an exception raised at a call, at a function
entry or at a loop back-edge of the library, where interrupts and failed
allocations really surface.  `record` lists the points a computation passes,
`armed` raises at one of them."""
import ast, dis, os, sys
import core

mon = sys.monitoring
TOOL = mon.DEBUGGER_ID
EV = mon.events
EVENTS = EV.PY_START | EV.CALL | EV.JUMP
ROOT = [None]
_info = {}     # code -> False or (key, excluded line ranges)
_ranges = {}

class Abort:
    """Marker mixed into injected exceptions."""
class InjectedInterrupt(KeyboardInterrupt, Abort): pass
class InjectedMemoryError(MemoryError, Abort): pass
class InjectedUserError(Exception, Abort): pass
class InjectedOSError(OSError, Abort): pass
KINDS = {"kbd": InjectedInterrupt, "mem": InjectedMemoryError, "user": InjectedUserError, "os": InjectedOSError}

def _cleanup_lines(filename):
    """Lines of clean-up code: finally suites, exception handlers, __exit__ and __del__ methods."""
    if filename not in _ranges:
        out = []
        try:
            t = ast.parse(open(filename, encoding="utf-8", errors="replace").read())
            for n in ast.walk(t):
                if isinstance(n, ast.Try):
                    for s in n.finalbody + [x for h in n.handlers for x in h.body]:
                        out.append((s.lineno, s.end_lineno))
                elif isinstance(n, (ast.FunctionDef,)) and n.name in ("__exit__", "__del__"):
                    out.append((n.lineno, n.end_lineno))
        except (OSError, SyntaxError):
            pass
        _ranges[filename] = out
    return _ranges[filename]

def _look(code):
    r = _info.get(code)
    if r is None:
        if ROOT[0] is None:
            import pacal
            ROOT[0] = os.path.dirname(os.path.abspath(pacal.__file__)) + os.sep
        f = code.co_filename
        if f.startswith(ROOT[0]) and code.co_name != "<module>":
            r = (f[len(ROOT[0]):] + ":" + code.co_qualname + ":" + str(code.co_firstlineno), _cleanup_lines(f), {})
        else:
            r = False
        _info[code] = r
    return r

def _with_exits(code):
    """Offsets of the implicit calls of __exit__ at the end of a with suite."""
    out, last = set(), []
    for i in dis.get_instructions(code):
        if i.opname == "CALL" and i.arg == 2 and [x.opname for x in last[-3:]] == ["LOAD_CONST"] * 3 and all(x.argval is None for x in last[-3:]):
            out.add(i.offset)
        if i.opname != "CACHE":
            last.append(i)
    return out

def _excluded(info, code, off):
    d = info[2]
    if not d:
        for o in _with_exits(code):
            d[o] = True
    if off not in d:
        ex = False
        if info[1]:
            for a, b, ln in code.co_lines():
                if a <= off < b:
                    ex = ln is not None and any(x <= ln <= y for x, y in info[1])
                    break
        d[off] = ex
    return d[off]

class _Tool:
    def __init__(self, cb):
        self.cb = cb
        self.pid = os.getpid()
    def __enter__(self):
        cb = self.cb
        mon.use_tool_id(TOOL, "sim")
        def start(code, off):
            i = _look(code)
            if not i: return mon.DISABLE
            if _excluded(i, code, off): return mon.DISABLE
            cb(i[0], "S", 0)
        def call(code, off, fn, arg0):
            i = _look(code)
            if not i: return mon.DISABLE
            if _excluded(i, code, off): return mon.DISABLE
            cb(i[0], "C", off)
        def jump(code, off, dest):
            i = _look(code)
            if not i or dest > off: return mon.DISABLE
            if _excluded(i, code, off): return mon.DISABLE
            cb(i[0], "J", off)
        mon.register_callback(TOOL, EV.PY_START, start)
        mon.register_callback(TOOL, EV.CALL, call)
        mon.register_callback(TOOL, EV.JUMP, jump)
        mon.restart_events()
        mon.set_events(TOOL, EVENTS)
        return self
    def __exit__(self, *a):
        off()

def off():
    """Stop monitoring in this process."""
    if mon.get_tool(TOOL) is not None:
        mon.set_events(TOOL, 0)
        for e in (EV.PY_START, EV.CALL, EV.JUMP, EV.LINE):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)

def record(fn):
    """Run fn and return {site: number of times passed}."""
    sites = {}
    def cb(key, kind, off_):
        k = (key, kind, off_)
        sites[k] = sites.get(k, 0) + 1
    with _Tool(cb):
        try:
            fn()
        except Exception:
            pass
    return sites

def choose(sites, u1, u2):
    """Choose a program point (every site alike) and an occurrence of it."""
    ks = sorted(sites)
    k = ks[int(u1 * len(ks)) % len(ks)]
    n = sites[k]
    if u2 < 0.35: occ = 1
    elif u2 < 0.5: occ = n
    else: occ = 1 + int((u2 - 0.5) * 2 * n) % n
    return k, occ

class armed:
    """Raise exc at the occ-th passage through the site."""
    def __init__(self, site, occ, kind):
        self.site, self.left, self.kind, self.fired = site, occ, kind, False
        key, ev, off_ = site
        def cb(k, e, o):
            if k == key and e == ev and o == off_ and not self.fired:
                self.left -= 1
                if self.left == 0:
                    self.fired = True
                    raise KINDS[self.kind]("injected at %s" % (site,))
        self.t = _Tool(cb)
    def __enter__(self):
        self.t.__enter__()
        return self
    def __exit__(self, *a):
        self.t.__exit__(*a)

# ------------------------------------------------------------------ user-supplied functions
class user_faults:
    """Counts the evaluations of user-supplied functions (expr.USER) and makes the at-th one fail."""
    def __init__(self, at=None, kind="user"):
        self.at, self.kind, self.n, self.fired = at, kind, 0, False
    def __call__(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise KINDS[self.kind]("injected into a user-supplied function")
    def __enter__(self):
        import expr
        expr.USER[0] = self
        return self
    def __exit__(self, *a):
        import expr
        expr.USER[0] = None

# ------------------------------------------------------------------ output streams
class Stream:
    """A text stream failing at its at-th write."""
    encoding = "utf-8"
    def __init__(self, at=None):
        self.at, self.n, self.fired = at, 0, False
    def write(self, s):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise InjectedOSError(28, "No space left on device (injected)")
        return len(s)
    def flush(self): pass
    def isatty(self): return False
class stdout_faults:
    def __init__(self, at=None):
        self.s = Stream(at)
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = self.s
        return self.s
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old
