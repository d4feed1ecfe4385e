"""SimPool: the pool of worker processes under the simulator's control.

Workers are real forks made when the pool is made (so they inherit exactly the
state a real pool's workers inherit), functions, arguments and results are
really pickled, and the worker initialiser and the evaluated code are the real
ones.  Only one process runs at any time: the simulator decides how many
workers there are, how the points are split into tasks, which worker executes
which task when, and in which order results arrive.  Faults: a task fails in a
worker, arguments or results cannot be transferred, the pool cannot be
started."""
import collections, io, os, pickle, random, struct, sys, traceback

import multiprocessing
import multiprocessing.pool
import multiprocessing.context
from multiprocessing.reduction import ForkingPickler

import core, seams

class InjectedTaskError(Exception):
    """Failure injected into one evaluated point."""

def _send(fd, b):
    b = struct.pack("<Q", len(b)) + b
    off = 0
    while off < len(b):
        off += os.write(fd, b[off:off + 65536])

def _recv(fd):
    def rd(n):
        o = b""
        while len(o) < n:
            c = os.read(fd, min(1 << 20, n - len(o)))
            if not c:
                raise EOFError
            o += c
        return o
    return rd(struct.unpack("<Q", rd(8))[0])

class Sched:
    """Configuration, seeded decisions and statistics of one simulated run."""
    def __init__(self, seed, conf, ctx=None):
        self.rng = random.Random("pool:%s" % (seed,))
        self.conf = conf
        self.ctx = ctx
        self.pools = 0
        self.maps = 0
        self.tasks = 0
        self.trace = []
        self.next_pid = 2000
        self.fired = collections.Counter()
    def workers(self, asked):
        w = self.conf.get("workers")
        if w == "asked" and asked:
            return asked
        return w if isinstance(w, int) else 2

class Worker:
    def __init__(self, sched, initializer, initargs, parent_fds):
        self.sched = sched
        pids = sched.conf.get("pids")
        if pids == "reuse":
            pid = 2000 + len(parent_fds)
        else:
            pid = sched.next_pid
            sched.next_pid += 1
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid_sim = pid
        self.tasks_done = 0
        name = "w%d.%d" % (sched.pools, pid)
        self.os_pid = core._real_fork()
        if self.os_pid == 0:
            try:
                os.close(b); os.close(c)
                for f in parent_fds:
                    for x in f:
                        try: os.close(x)
                        except OSError: pass
                self._loop(a, d, pid, name, initializer, initargs)
            finally:
                os._exit(0)
        os.close(a); os.close(d)
        self.w, self.r = b, c
        self.dead = False
        self.init_ok = _recv(self.r) == b"ready"
    def _loop(self, r, w, pid, name, initializer, initargs):
        seams.enter_process(pid, name)
        import aborts
        aborts.off()
        # what multiprocessing does in a forked worker: a process object of its own
        p = multiprocessing.process.BaseProcess.__new__(multiprocessing.process.BaseProcess)
        try:
            cur = multiprocessing.process._current_process
            count = next(multiprocessing.process._process_counter)
            p.__dict__.update(cur.__dict__)
            p._identity = tuple(cur._identity) + (count,)
            p._config = dict(getattr(cur, "_config", {}))
            p._config["daemon"] = True
            p._name = "SimPoolWorker-" + ":".join(str(i) for i in p._identity)
            p._parent_pid = 1000
            p._popen = None
            p._children = set() if hasattr(p, "_children") else None
            multiprocessing.process._current_process = p
        except Exception:
            pass
        multiprocessing.process._children = set()
        multiprocessing.Pool = _nested_pool
        try:
            if initializer is not None:
                initializer(*initargs)
        except BaseException:
            _send(w, b"initfail")
            return
        _send(w, b"ready")
        while True:
            try:
                msg = _recv(r)
            except EOFError:
                return
            fault, data = pickle.loads(msg)
            try:
                func, chunk, star = pickle.loads(data)
                res = []
                if fault and fault["kind"] in ("inner", "user"):
                    inner = fault["_tool"] = _inner(fault)
                    inner.__enter__()
                for i, x in enumerate(chunk):
                    if fault and fault.get("item", 0) == i:
                        if fault["kind"] == "raise":
                            raise {"MemoryError": MemoryError, "Injected": InjectedTaskError, "ValueError": ValueError,
                                   "ZeroDivisionError": ZeroDivisionError, "FloatingPointError": FloatingPointError,
                                   "ArithmeticError": ArithmeticError, "TypeError": TypeError, "IndexError": IndexError,
                                   "AssertionError": AssertionError, "StopIteration": StopIteration}[fault["exc"]]("injected")
                        if fault["kind"] == "os":
                            raise OSError(12, "Cannot allocate memory (injected)")
                    res.append(func(*x) if star else func(x))
                out = (True, res)
            except (SystemExit, KeyboardInterrupt):
                raise
            except Exception as e:
                out = (False, multiprocessing.pool.ExceptionWithTraceback(e, e.__traceback__))
            finally:
                if fault and "_tool" in fault:
                    fault["_tool"].__exit__(None, None, None)
            if fault and fault["kind"] == "result":
                out = (False, multiprocessing.pool.MaybeEncodingError(pickle.PicklingError("injected"), "result"))
            try:
                b = bytes(ForkingPickler.dumps(out))
            except Exception as e:
                b = bytes(ForkingPickler.dumps((False, multiprocessing.pool.MaybeEncodingError(e, out[1]))))
            _send(w, pickle.dumps((b, fault["_tool"].fired if fault and "_tool" in fault else bool(fault))))
    def run(self, fault, data):
        _send(self.w, pickle.dumps((fault, data)))
        self.tasks_done += 1
        try:
            b, self.fired = pickle.loads(_recv(self.r))
            return pickle.loads(b)
        except EOFError:
            self.dead = True
            raise core.HarnessError("simulated worker ended unexpectedly")
    def close(self):
        if self.dead is not None:
            try:
                os.close(self.w); os.close(self.r)
            except OSError:
                pass
            try:
                os.waitpid(self.os_pid, 0)
            except OSError:
                pass
            self.dead = None

class WorkerError(Exception):
    """Failure injected inside the evaluation of a point."""

class _inner:
    """Raises inside the library code which evaluates a point: at the n-th function entry ("inner") or
    at the n-th call of a user-supplied density ("user")."""
    def __init__(self, fault):
        import aborts, expr
        self.fired, self.left, self.fault = False, fault["n"], fault
        def hit(*a):
            self.left -= 1
            if self.left == 0 and not self.fired:
                self.fired = True
                raise {"MemoryError": MemoryError, "WorkerError": WorkerError, "ValueError": ValueError, "OSError": OSError}[fault["exc"]]("injected")
        self.hit = hit
        self.tool = aborts._Tool(lambda k, ev, off: hit() if ev == "S" else None) if fault["kind"] == "inner" else None
    def __enter__(self):
        import expr
        if self.tool: self.tool.__enter__()
        else: expr.USER[0] = self.hit
    def __exit__(self, *a):
        import expr
        if self.tool: self.tool.__exit__()
        else: expr.USER[0] = None

def _nested_pool(*a, **k):
    raise AssertionError("daemonic processes are not allowed to have children")

class SimAsyncResult:
    def __init__(self, fn):
        self._fn, self._done = fn, False
    def _force(self):
        if not self._done:
            try:
                self._v, self._e = self._fn(), None
            except Exception as e:
                self._v, self._e = None, e
            self._done = True
    def get(self, timeout=None):
        self._force()
        if self._e is not None:
            raise self._e
        return self._v
    def wait(self, timeout=None):
        self._force()
    def ready(self):
        self._force()
        return True
    def successful(self):
        self._force()
        return self._e is None

class SimPool:
    current = None   # Sched
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = self.s = SimPool.current
        s.pools += 1
        f = s.conf.get("start_fail")
        if f and f["at"] <= s.pools < f["at"] + f.get("times", 1):
            s.fired["start_" + f["exc"]] += 1
            if f["exc"] == "OSError":
                raise OSError(11, "Resource temporarily unavailable (injected)")
            if f["exc"] == "MemoryError":
                raise MemoryError("injected")
            raise OSError(24, "Too many open files (injected)")
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._init = (initializer, initargs)
        self._max = maxtasksperchild
        self.workers = []
        n = s.workers(processes)
        for _ in range(n):
            self.workers.append(self._spawn())
        self._state = "RUN"
        s.trace.append(("pool", n))
    def _spawn(self):
        w = Worker(self.s, self._init[0], self._init[1], [(x.w, x.r) for x in self.workers if x.dead is False])
        if not w.init_ok:
            raise core.HarnessError("pool initialiser failed")
        return w
    # ---- scheduling
    def _chunks(self, items):
        s, n = self.s, len(items)
        if n == 0:
            return []
        mode = s.conf.get("chunk", "default")
        if mode == "default":
            c, extra = divmod(n, len(self.workers) * 4)
            c += bool(extra)
            cut = list(range(0, n, c)) + [n]
        elif mode == "one":
            cut = list(range(n + 1))
        elif mode == "all":
            cut = [0, n]
        else:
            k = s.rng.randint(1, min(n, 12))
            cut = sorted(set([0, n] + [s.rng.randrange(n) for _ in range(k)]))
        return [(a, items[a:b]) for a, b in zip(cut, cut[1:])]
    def _map(self, func, items, star=False):
        self._check()
        s = self.s
        s.maps += 1
        items = list(items)
        chunks = self._chunks(items)
        order = list(range(len(chunks)))
        om = s.conf.get("order", "shuffle")
        if om == "shuffle": s.rng.shuffle(order)
        elif om == "reverse": order.reverse()
        results = [None] * len(chunks)
        error = None
        fault_at = None
        for f in s.conf.get("faults", ()):
            if f["map"] == s.maps:
                fault_at = f
        for pos, ci in enumerate(order):
            wi = self._pick()
            w = self.workers[wi]
            s.tasks += 1
            s.trace.append((s.maps, wi, chunks[ci][0], len(chunks[ci][1])))
            fault = None
            if fault_at is not None and ci == fault_at["task"] % len(chunks):
                fault = dict(fault_at)
                fault["item"] = fault.get("item", 0) % len(chunks[ci][1])
            if fault is not None and fault["kind"] == "args":
                ok, val = False, pickle.PicklingError("cannot pickle arguments (injected)")
            else:
                try:
                    data = bytes(ForkingPickler.dumps((func, tuple(chunks[ci][1]), star)))
                except Exception as e:      # what the real task handler does: the map fails with that error
                    ok, val = False, e
                else:
                    ok, val = w.run(fault, data)
                    if fault is not None and not w.fired:
                        fault = None
            if fault is not None:
                s.fired["task_" + fault["kind"] + ("_" + fault["exc"] if "exc" in fault else "")] += 1
            if ok:
                results[ci] = val
            elif error is None:
                error = val
            if self._max and w.tasks_done >= self._max:
                w.close()
                self.workers[wi] = self._spawn()
        if error is not None:
            raise error
        return [y for r in results for y in r]
    def _pick(self):
        s = self.s
        m = s.conf.get("assign", "random")
        if m == "first":
            return 0
        if m == "rr":
            return s.tasks % len(self.workers)
        return s.rng.randrange(len(self.workers))
    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")
    # ---- Pool interface
    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable)
    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, star=True)
    def imap(self, func, iterable, chunksize=1):
        return iter(self._map(func, iterable))
    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._map(func, iterable)
        self.s.rng.shuffle(r)
        return iter(r)
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult(lambda: self._map(func, iterable))
    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult(lambda: self._map(func, iterable, star=True))
    def apply(self, func, args=(), kwds={}):
        return self._map(_Apply(func, kwds), [tuple(args)])[0]
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return SimAsyncResult(lambda: self.apply(func, args, kwds))
    def close(self):
        self._state = "CLOSE"
    def terminate(self):
        self._state = "TERMINATE"
        for w in self.workers:
            w.close()
    def join(self):
        for w in self.workers:
            w.close()
    def __enter__(self):
        self._check()
        return self
    def __exit__(self, *a):
        self.terminate()
    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")
    def __del__(self):
        pass

class _Apply:
    def __init__(self, f, k):
        self.f, self.k = f, dict(k)
    def __call__(self, a):
        return self.f(*a, **self.k)

def install(seed, conf, ctx=None):
    """Route every way to make a pool to the simulator."""
    s = Sched(seed, conf, ctx)
    SimPool.current = s
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    multiprocessing.context.BaseContext.Pool = ctx_pool
    for m in seams.PACAL_MODULES:
        for k, v in list(vars(m).items()):
            if getattr(v, "__name__", "") == "Pool" and getattr(v, "__module__", "").startswith("multiprocessing"):
                vars(m)[k] = SimPool
    return s

def gen_conf(rng):
    """A seeded pool configuration (swarm)."""
    c = {"workers": rng.choice([1, 2, 2, 3, 4, 7]),
         "chunk": rng.choice(["default", "one", "all", "random", "random"]),
         "order": rng.choice(["shuffle", "shuffle", "reverse", "fifo"]),
         "assign": rng.choice(["random", "random", "first", "rr"])}
    return c

def report(s, ctx):
    ctx.count("pools_started", s.pools)
    ctx.count("maps", s.maps)
    ctx.count("tasks_scheduled", s.tasks)
    for k, v in s.fired.items():
        ctx.count("fault:" + k, v)
    ctx.event("pooltrace", core.digest(core.canon(s.trace)))
    ctx.state("sched", core.digest(core.canon(s.trace)))
