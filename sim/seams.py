"""The seams: every source of nondeterminism around PaCal, owned by the simulator."""
import gc, hashlib, itertools, os, random, struct, sys, threading, weakref

_real_id = id
_real_getpid = os.getpid
_real_urandom = os.urandom
_real_Lock = threading.Lock
_real_RLock = threading.RLock

PACAL_MODULES = []

# ------------------------------------------------------------------ addresses
class Allocator:
    """Simulated addresses.  mode: 'mono' growing, 'shuffle' in random order,
    'reuse' hands out the address of a dead object whenever there is one."""
    def __init__(self, seed=0, mode="mono"):
        self.rng = random.Random("addr:%s" % (seed,))
        self.mode = mode
        self.live = {}
        self.strong = {}
        self.free = []
        self.next = 0x7f0000000000
        self.used = set()
        self.reused = 0
    def __call__(self, obj):
        k = _real_id(obj)
        e = self.live.get(k)
        if e is not None and (e[0] is None or e[0]() is obj):
            return e[1]
        addr = self._new()
        try:
            def gone(_r, self=self, k=k, addr=addr):
                e = self.live.get(k)
                if e is not None and e[1] == addr:
                    del self.live[k]
                self.free.append(addr)
            ref = weakref.ref(obj, gone)
        except TypeError:
            ref = None
            self.strong[k] = obj
        self.live[k] = (ref, addr)
        return addr
    def _new(self):
        if self.mode == "reuse" and self.free:
            self.reused += 1
            # the most recently freed address, as a real allocator would
            i = -1 if self.rng.random() < 0.7 else self.rng.randrange(len(self.free))
            return self.free.pop(i)
        if self.mode == "shuffle" or self.mode == "reuse":
            while True:
                a = 0x7f0000000000 + 64 * self.rng.randrange(1 << 24)
                if a not in self.used:
                    self.used.add(a)
                    return a
        self.next += 64
        return self.next

ALLOC = Allocator()
def sim_id(obj):
    return ALLOC(obj)

def sim_hash(self):
    return (ALLOC(self) * 0x9E3779B97F4A7C15 >> 17) & 0xffffffff

# ------------------------------------------------------------------ process identity
class Proc:
    """Identity of the simulated process."""
    pid = 1000
    name = "main"
    counter = 0
    forks = 0
PROC = Proc()
def _before_fork():
    PROC.forks += 1
def _in_child():
    PROC.name += ".%d" % PROC.forks
    PROC.forks = 0
    PROC.counter = 0
def reset_process():
    """Called in the host before it forks a run: every run starts alike."""
    PROC.pid, PROC.name, PROC.counter, PROC.forks = 1000, "main", 0, 0
def sim_getpid():
    return PROC.pid
def sim_urandom(n):
    PROC.counter += 1
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(("%s|%s|%d|%d" % (SEED, PROC.name, PROC.counter, i)).encode()).digest()
        i += 1
    return out[:n]
SEED = "0"

def enter_process(pid, name=None):
    """Called in a forked child that plays another process."""
    PROC.pid = pid

# ------------------------------------------------------------------ locks made by pacal
class SimLock:
    """A lock that, under the thread scheduler, never blocks the OS thread but
    hands the turn to another thread."""
    def __init__(self, real):
        self._l = real
    def acquire(self, blocking=True, timeout=-1):
        sched = SCHED[0]
        if sched is None or not sched.mine() or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            sched.blocked(self)
        return True
    def release(self):
        self._l.release()
    __enter__ = acquire
    def __exit__(self, *a):
        self.release()
    def locked(self):
        return self._l.locked()
    def __getattr__(self, n):
        return getattr(self._l, n)
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")
SCHED = [None]

# ------------------------------------------------------------------ boot
def preimport():
    """Import everything pacal needs before patching what pacal itself sees."""
    os.register_at_fork(before=_before_fork, after_in_child=_in_child)
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    import multiprocessing, multiprocessing.pool, multiprocessing.context, multiprocessing.reduction  # noqa
    import numpy, numpy.random, numpy.polynomial, numpy.polynomial.chebyshev, numpy.linalg, numpy.fft  # noqa
    import scipy, scipy.optimize, scipy.special, scipy.linalg, scipy.interpolate, scipy.stats, scipy.fftpack, scipy.integrate, scipy.ndimage  # noqa
    import sympy  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, pylab  # noqa
    try:
        import mpl_toolkits.mplot3d  # noqa
    except Exception:
        pass
    threading.Lock = lambda: SimLock(_real_Lock())
    threading.RLock = lambda: SimLock(_real_RLock())

def postimport():
    threading.Lock = _real_Lock
    threading.RLock = _real_RLock
    for n, m in sorted(sys.modules.items()):
        if (n == "pacal" or n.startswith("pacal.")) and m is not None and not n.endswith("bary_interp"):
            PACAL_MODULES.append(m)
    for m in PACAL_MODULES:
        if "id" not in vars(m) or getattr(vars(m)["id"], "__module__", None) == "builtins":
            vars(m)["id"] = sim_id
    from pacal.rv import RV
    from pacal.depvars.nddistr import NDFun
    for c in (RV, NDFun):
        if c.__hash__ is object.__hash__:
            c.__hash__ = sim_hash

def arm(plan, ctx=None):
    """Install the seams in the forked run child, all derived from the plan."""
    global SEED, ALLOC
    import numpy as np
    s = plan.get("seams", {})
    SEED = str(plan.get("seed", 0))
    gc.disable()
    ALLOC = Allocator(SEED, s.get("addr", "mono"))
    os.getpid = sim_getpid
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    for m in PACAL_MODULES:
        for k, v in list(vars(m).items()):
            if v is _real_getpid:
                vars(m)[k] = sim_getpid
            elif v is _real_urandom:
                vars(m)[k] = sim_urandom
    random.seed(12345)
    np.random.seed(12345)

def quiet_warnings():
    import warnings
    warnings.simplefilter("ignore")
