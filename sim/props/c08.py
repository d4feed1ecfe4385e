"""C08: the dependence warning appears exactly when operands share a variable."""
import copy, gc, os, pickle, struct
import core, expr, seams, simpool, work
from core import Violation

LEAVES = [("UniformDistr", [1.0, 3.0]), ("UniformDistr", [0.5, 0.75]), ("NormalDistr", [0.0, 1.0]), ("ExponentialDistr", [1.0]), ("BetaDistr", [2.0, 3.0]),
          ("DiscreteDistr", [[0.0, 1.0], [0.5, 0.5]]), ("ConstDistr", [2.0]), ("GammaDistr", [2.0, 2.0]), ("CauchyDistr", [1.0, 0.0]), ("FunDistr", ["lin"]),
          ("TrapezoidalDistr", [0.0, 1.0, 2.0, 4.0]), ("BinomialDistr", [4, 0.5]), ("ParetoDistr", [3.0, 0.5]), ("StudentTDistr", [5])]
BINARY = ["add", "add", "sub", "mul", "mul", "div", "min", "max", "add"]
UNARY = [("neg", []), ("abs", []), ("shift", [1.0]), ("rsub", [2.0]), ("scale", [2.0]), ("divc", [4.0]), ("inv", []), ("rdiv", [2.0]), ("sq", []), ("exp", []),
         ("atan", []), ("tanh", []), ("sigmoid", []), ("minc", [1.5]), ("maxc", [1.2]), ("rpow", [2.0]), ("powi", [])]
IIDOPS = ["iid_sum", "iid_prod", "iid_min", "iid_max", "iid_average", "iid_sum_all", "iid_prod_all", "iid_average_all"]
# what evaluates densities: only done on leaves
LEAFOPS = ["gt", "mix", "order_stat", "median", "sign", "log", "sqrt", "pow", "iid_average_geom", "nct", "ncchi2", "ncbeta", "ncf"]

# ------------------------------------------------------------------ plans
class G:
    def __init__(self, rng):
        self.r, self.n, self.tags = rng, 0, 0
    def name(self):
        self.n += 1
        return "v%d" % self.n
    def combine(self, live, leaves):
        """One step which creates a variable out of live ones."""
        r = self.r
        t = r.random()
        v = self.name()
        if t < 0.62:
            x = r.choice(live)
            y = r.choice(live[-6:] if r.random() < 0.5 else live)
            return ["op", v, r.choice(BINARY), [x, y], []]
        if t < 0.85:
            f, p = r.choice(UNARY)
            return ["op", v, f, [r.choice(live)], p]
        if t < 0.95:
            return ["op", v, r.choice(IIDOPS), [r.choice(live)], [r.choice([2, 3, 5, 8])]]
        f = r.choice(LEAFOPS)
        ok = [x for x in live if leaves.get(x) in (0, 1)]
        if f in ("nct", "ncchi2", "ncbeta", "ncf") or not ok:
            return ["op", v, r.choice(["nct", "ncchi2", "ncbeta", "ncf"]), [], [r.choice([2, 3]), 1.0]]
        x = r.choice(ok)
        y = r.choice(ok)
        return ["op", v, f, [x, y] if f in ("mix", "pow") else [x], {"gt": [1.2], "mix": [[0.5, 0.5]], "order_stat": [3, 2], "median": [3], "iid_average_geom": [2]}.get(f, [])]
    def steps(self, k, live, leaves, depth, zombies):
        """k random steps; live: names alive, leaves: name -> index into LEAVES."""
        r, out = self.r, []
        tags = []
        for _ in range(k):
            t = r.random()
            if t < 0.22 or not live:
                v = self.name()
                i = r.choice([0, 1, r.randrange(len(LEAVES)), r.randrange(len(LEAVES))])
                leaves[v] = i
                out.append(["leaf", v, i]); live.append(v)
            elif t < 0.62:
                s = self.combine(live, leaves)
                out.append(s); live.append(s[1])
            elif t < 0.75 and len(live) > 1:
                gone = r.sample(live, r.randint(1, max(1, len(live) // 2)))
                for g in gone: live.remove(g)
                out.append(["drop", gone])
            elif t < 0.80:
                xs = r.sample(live, min(len(live), r.choice([1, 1, 2, 3])))
                ns = [self.name() for _ in xs]
                for a, b in zip(xs, ns):
                    if a in leaves: leaves[b] = leaves[a]
                out.append(["pickle", xs, ns, r.choice([2, 4, 5])]); live += ns
                if r.random() < 0.5:
                    out.append(["drop", xs])
                    for x in xs: live.remove(x)
            elif t < 0.83:
                x, v = r.choice(live), self.name()
                if x in leaves: leaves[v] = leaves[x]
                out.append([r.choice(["copy", "deepcopy"]), x, v]); live.append(v)
            elif t < 0.85:
                out.append(["warn", r.random() < 0.3])
            elif t < 0.865:
                out.append(["free", r.choice(live)])
            elif t < 0.885:
                out.append(["ask", r.choice(live), r.choice(["id", "anc", "name", "str"])])
            elif t < 0.895 and [x for x in live if x in leaves]:
                out.append(["ask", r.choice([x for x in live if x in leaves]), r.choice(["mean", "median", "rand"])])
            elif t < 0.95 and depth < 2:
                kind = r.choice(["fork", "fork", "spawn", "spawn", "earlier"]) if depth == 0 else "fork"
                tag = "t%d" % self.tags; self.tags += 1
                l2, lv2 = (list(live), dict(leaves)) if kind == "fork" else ([], {})
                recv = []
                if kind == "spawn" and live:
                    recv = r.sample(live, min(len(live), r.choice([1, 2, 3])))
                    l2 = list(recv)
                    lv2 = {x: leaves[x] for x in recv if x in leaves}
                sub = self.steps(r.choice([2, 4, 8]), l2, lv2, depth + 1, zombies)
                send = r.sample(l2, min(len(l2), r.choice([1, 2, 4]))) if l2 else []
                out.append([kind, {"pid": r.choice([1000, 1001, 1001, 1002]), "recv": recv, "steps": sub, "send": send}, tag])
                tags.append((tag, send, lv2))
            if tags and r.random() < 0.35:
                tag, send, lv2 = tags.pop(r.randrange(len(tags)))
                ns = [self.name() for _ in send]
                for a, b in zip(send, ns):
                    if a in lv2: leaves[b] = lv2[a]
                out.append(["recv", tag, ns]); live += ns
        for tag, send, lv2 in tags:
            ns = [self.name() for _ in send]
            out.append(["recv", tag, ns]); live += ns
        if live:
            for _ in range(r.choice([1, 3])):
                out.append(["op", self.name(), "sub", [r.choice(live), r.choice(live)], []])
        return out

def plan(rng, tier, index):
    g = G(rng)
    k = rng.choice([15, 30, 30, 60, 120 if tier == "thorough" else 60])
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": rng.choice(["reuse", "reuse", "reuse", "mono", "shuffle"])}, "steps": g.steps(k, [], {}, 0, []),
            "parallel": rng.random() < 0.5, "gc": rng.random() < 0.8}

# ------------------------------------------------------------------ model
class M:
    """Model of a variable object: who it is and what it was made of."""
    __slots__ = ("ident", "parents")
    def __init__(self, ident, parents):
        self.ident, self.parents = ident, parents
    def anc(self):
        out, st, seen = set(), [self], set()
        while st:
            m = st.pop()
            if id(m) in seen: continue
            seen.add(id(m)); out.add(m.ident); st += m.parents
        return out

class Proc:
    """State of one simulated process: real variables and their models."""
    def __init__(self, label, ctx):
        self.label, self.ctx = label, ctx
        self.env, self.mod, self.n, self.blobs, self.hist, self.copied = {}, {}, 0, {}, [], set()
    def new(self, parents):
        self.n += 1
        return M("%s:%d" % (self.label, self.n), parents)

def pack(P, names):
    """Send variables to another process."""
    names = [n for n in names if n in P.env and can_travel(P, n)]
    return names, pickle.dumps([P.env[n] for n in names]), pickle.dumps([P.mod[n] for n in names])

def mark(P, names):
    for n in names:
        P.copied |= P.mod[n].anc()

def can_travel(P, n):
    """Variables holding closures (order statistics) cannot be pickled at all."""
    try:
        pickle.dumps(P.env[n])
        return True
    except (AttributeError, TypeError, pickle.PicklingError):
        P.ctx.count("not_picklable")
        return False

def run_steps(P, steps, plan, zyg):
    import numpy as np
    from pacal import params
    for st in steps:
        k = st[0]
        if k == "leaf":
            w = []
            with work.dep_warnings(w):
                c, p = LEAVES[st[2]]
                P.env[st[1]] = expr.build_stmt({"k": "leaf", "c": c, "p": p}, {})
            P.mod[st[1]] = P.new([])
            expect(P, st, w[0], False, "%s=%s()" % (st[1], c))
        elif k == "op":
            op(P, st, params)
        elif k == "drop":
            for n in st[1]:
                P.env.pop(n, None); P.mod.pop(n, None)
            if plan["gc"]: gc.collect()
            P.hist.append("del " + ",".join(st[1]))
            P.ctx.count("destroyed", len(st[1]))
        elif k == "pickle":
            xs = [(a, b) for a, b in zip(st[1], st[2]) if a in P.env]
            xs = [(a, b) for a, b in xs if can_travel(P, a)]
            ys = pickle.loads(pickle.dumps([P.env[a] for a, _ in xs], st[3]))
            mark(P, [a for a, _ in xs])
            ms = copy.deepcopy([P.mod[a] for a, _ in xs])
            for (a, b), y, m in zip(xs, ys, ms):
                P.env[b], P.mod[b] = y, m
            P.hist.append("%s=unpickle(pickle(%s))" % (",".join(b for _, b in xs), ",".join(a for a, _ in xs)))
            P.ctx.count("pickled", len(xs))
        elif k in ("copy", "deepcopy"):
            if st[1] not in P.env: continue
            P.env[st[2]] = getattr(copy, k)(P.env[st[1]])
            mark(P, [st[1]])
            m = P.mod[st[1]]
            P.mod[st[2]] = M(m.ident, list(m.parents)) if k == "copy" else copy.deepcopy(m)
            P.hist.append("%s=%s(%s)" % (st[2], k, st[1]))
        elif k == "warn":
            params.general.warn_on_dependent = st[1]
            P.hist.append("warn_on_dependent=%s" % st[1])
        elif k == "free":
            # a copy of it would keep its parents: then the two are no longer the same variable
            if st[1] not in P.env or P.mod[st[1]].ident in P.copied: continue
            P.env[st[1]].make_free()
            P.mod[st[1]].parents = []
            P.hist.append("%s.make_free()" % st[1])
        elif k == "ask":
            if st[1] not in P.env: continue
            X = P.env[st[1]]
            with work.dep_warnings([]), np.errstate(all="ignore"):
                core.guarded({"id": lambda: X.id(), "anc": lambda: len(X.getAncestorIDs()), "name": lambda: X.getName(), "str": lambda: str(X),
                              "mean": lambda: X.mean(), "median": lambda: X.median(), "rand": lambda: X.rand(2)}[st[2]])
            P.hist.append("%s(%s)" % (st[2], st[1]))
        elif k == "fork":
            a = st[1]
            mark(P, P.mod)
            def child():
                seams.enter_process(a["pid"])
                Q = Proc(P.label + "/" + st[2], core.Ctx("C08"))
                Q.env, Q.mod = P.env, P.mod
                Q.blobs, Q.copied = P.blobs, P.copied
                Q.hist = P.hist + ["in forked process %s (pid %d):" % (st[2], a["pid"])]
                run_steps(Q, a["steps"], plan, None)
                return pack(Q, a["send"]), Q.ctx.stats
            P.blobs[st[2]], s = core.isolated(child)
            P.ctx.stats.update(s)
            P.ctx.count("fault:fork_exit")
            P.hist.append("fork %s [%s]" % (st[2], len(a["steps"])))
        elif k in ("spawn", "earlier"):
            if zyg is None: continue
            a = st[1]
            mark(P, [n for n in a["recv"] if n in P.mod])
            P.blobs[st[2]], s = zyg[st[2]].call((pack(P, a["recv"]), list(P.hist)))
            P.ctx.stats.update(s)
            P.ctx.count("fault:other_process_exit")
            P.hist.append("%s process %s (pid %d) got %s" % (k, st[2], a["pid"], a["recv"]))
        elif k == "recv":
            if st[1] not in P.blobs: continue
            names, b, m = P.blobs[st[1]]
            xs, ms = pickle.loads(b), pickle.loads(m)
            for a, y, mm in zip(st[2], xs, ms):
                P.env[a], P.mod[a] = y, mm
            mark(P, [a for a, _ in zip(st[2], xs)])
            P.hist.append("%s=received from %s (%s)" % (",".join(st[2][:len(xs)]), st[1], ",".join(names)))
            P.ctx.count("received", len(xs))

def expect(P, st, got, want, text):
    from pacal import params
    want = want and params.general.warn_on_dependent
    P.hist.append(text + (" [warned]" if got else ""))
    P.ctx.count("combinations")
    if got: P.ctx.count("warnings")
    if bool(got) != bool(want):
        raise Violation("missing-warning" if want else "false-warning", "%s: the dependence warning was %s but the operands %s a variable\nhistory: %s"
                        % (text, "not emitted" if want else "emitted", "share" if want else "do not share", "; ".join(P.hist)))

def op(P, st, params):
    _, v, f, xs, p = st
    if any(x not in P.env or not hasattr(P.env[x], "rand") for x in xs):
        return
    import pacal, numpy as np
    X = [P.env[x] for x in xs]
    m = [P.mod[x] for x in xs]
    w = []
    try:
        with work.dep_warnings(w), np.errstate(all="ignore"):
            if f.endswith("_all"):
                Y = getattr(pacal, f[:-4])(X[0], p[0], all=True)[-1]
            elif f == "powi":
                Y = X[0] ** -1 * 1.0
            elif f == "ncbeta":
                from pacal.stats.noncentral_distr import NoncentralBetaDistr as C
                Y = C(p[0], 2, p[1])
            elif f == "ncf":
                from pacal.stats.noncentral_distr import NoncentralFDistr as C
                Y = C(p[0], 2, p[1])
            else:
                Y = expr.apply_op(f, X, p)
    except (Violation, core.HarnessError):
        raise
    except Exception as e:
        P.ctx.count("op_exceptions")
        P.hist.append("%s=%s(%s) raised %s" % (v, f, ",".join(xs), type(e).__name__))
        # not judged: operands may not allow it (log of a negative variable, symbolic X/(Y-Y))
        return
    want = len(X) == 2 and f not in ("mix",) and bool(m[0].anc() & m[1].anc())
    fresh = f in ("gt", "mix", "order_stat", "median")
    if hasattr(Y, "rand"):
        same = [i for i, x in enumerate(X) if Y is x]
        P.env[v] = Y
        P.mod[v] = m[same[0]] if same else P.new([] if fresh else list(m))
    expect(P, st, w[0], want, "%s=%s(%s)" % (v, f, ",".join(xs)))

# ------------------------------------------------------------------ other processes
class Zygote:
    """A process started before the session; runs its steps when called."""
    def __init__(self, tag, a, kind, plan):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        self.pid = core._real_fork()
        if self.pid == 0:
            try:
                os.close(w1); os.close(r2)
                (blob, hist) = pickle.loads(simpool._recv(r1))
                seams.enter_process(a["pid"], tag)
                Q = Proc(tag, core.Ctx("C08"))
                for n, y, m in zip(blob[0], pickle.loads(blob[1]), pickle.loads(blob[2])):
                    Q.env[n], Q.mod[n] = y, m
                mark(Q, list(Q.mod))
                Q.hist = hist + ["in process %s (pid %d) with %s:" % (tag, a["pid"], ",".join(blob[0]))]
                try:
                    run_steps(Q, a["steps"], plan, None)
                    res = ("ok", (pack(Q, a["send"]), Q.ctx.stats))
                except Violation as v:
                    res = ("viol", (v.sig, v.msg, v.detail))
                except BaseException as e:
                    import traceback
                    res = ("err", traceback.format_exc()[-2000:])
                simpool._send(w2, pickle.dumps(res))
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(r1); os.close(w2)
        self.r, self.w = r2, w1
    def call(self, msg):
        simpool._send(self.w, pickle.dumps(msg))
        kind, val = pickle.loads(simpool._recv(self.r))
        if kind == "viol": raise Violation(*val)
        if kind == "err": raise core.HarnessError(val)
        return val
    def close(self):
        for fd in (self.w, self.r):
            os.close(fd)
        os.waitpid(self.pid, 0)

def execute(plan, ctx):
    def session():
        import gc
        c = core.Ctx("C08")
        (work.parallel if plan["parallel"] else work.serial)()
        simpool.install(plan["seed"], {"workers": 1}, c)
        P = Proc("main", c)
        zyg = {}
        for st in plan["steps"]:
            if st[0] in ("spawn", "earlier"):
                zyg[st[2]] = Zygote(st[2], st[1], st[0], plan)
        try:
            run_steps(P, plan["steps"], plan, zyg)
        finally:
            for z in reversed(list(zyg.values())): z.close()
        c.count("addresses_reused", seams.ALLOC.reused)
        return c.stats, P.hist
    stats, hist = core.isolated(session)
    ctx.stats.update(stats)
    ctx.event("hist", core.digest(hist))
    ctx.state(hist)
    ctx.trivial = not stats.get("combinations")
    ctx.sample = {"history": hist[:25]}

def _names(st):
    if st[0] in ("leaf", "op"): return [st[1]]
    return []

def shrink(plan):
    out = []
    st = plan["steps"]
    n = len(st)
    if n > 8:
        for a in range(0, n, max(1, n // 6)):
            out.append(dict(plan, steps=st[:a] + st[a + max(1, n // 6):]))
    for i in range(n - 1, -1, -1):
        out.append(dict(plan, steps=st[:i] + st[i + 1:]))
    for i in range(n):
        if st[i][0] in ("fork", "spawn", "earlier"):
            sub = st[i][1]["steps"]
            for j in range(len(sub)):
                out.append(dict(plan, steps=st[:i] + [[st[i][0], dict(st[i][1], steps=sub[:j] + sub[j + 1:]), st[i][2]]] + st[i + 1:]))
    if plan["parallel"]:
        out.append(dict(plan, parallel=False))
    return out
