"""C04: answers depend only on the variable, not on the history of the session."""
import core, expr, simpool, work
from core import Violation

def _plot(X, p):
    import pylab
    X.plot(); pylab.close("all")
def _plotcdf(X, p):
    import pylab
    X.get_piecewise_cdf().plot(numberOfPoints=50); pylab.close("all")
def _semilogx(X, p):
    import pylab
    X.get_piecewise_pdf().semilogx(); pylab.close("all")
def _tails(X, p):
    import pylab
    X.get_piecewise_pdf().plot_tails(); pylab.close("all")
def _hist(X, p):
    import pylab
    X.hist(500); pylab.close("all")
def _box(X, p):
    import pylab
    X.boxplot(); pylab.close("all")
def _arr(p):
    import numpy as np
    a = np.array(p, float)
    return a
def _args_kept(f):
    """Query with an array argument which must not be altered."""
    def q(X, p):
        a = _arr(p)
        b = a.copy()
        r = f(X, a)
        if not (a == b).all():
            raise Violation("argument-altered", "the array of points passed in was changed by the query")
        return r
    return q

def _half(X, a):
    return X.get_piecewise_pdf().integrate(None, a[0])

# things done to variables whose result is not compared (drawing consumes
# randomness, plots show things)
SIDE = {
    "plot": _plot, "plotcdf": _plotcdf, "semilogx": _semilogx, "plot_tails": _tails, "hist": _hist, "boxplot": _box,
    "rand": lambda X, p: X.rand(20), "rand1": lambda X, p: X.rand(), "randinv": lambda X, p: X.rand_invcdf(10),
    "str": lambda X, p: str(X) + X.getName(), "print_pw": lambda X, p: str(X.get_piecewise_pdf()),
    "latex": lambda X, p: repr(X.getSym()), "pickle": lambda X, p: __import__("pickle").loads(__import__("pickle").dumps(X)),
    "copy": lambda X, p: __import__("copy").copy(X), "deepcopy": lambda X, p: __import__("copy").deepcopy(X),
    "pw_arith": lambda X, p: (X.get_piecewise_pdf() * 2 + X.get_piecewise_pdf(), 1 - X.get_piecewise_cdf(), X.get_piecewise_pdf() * X.get_piecewise_cdf()),
    "iid": lambda X, p: __import__("pacal").iid_sum(X, 2), "iidmax": lambda X, p: __import__("pacal").iid_max(X, 3),
    "shift_noeval": lambda X, p: X + 1, "self_op": lambda X, p: X - X, "cond_eval": lambda X, p: (X | __import__("pacal").Gt(p[0])).mean(),
    "lt_eval": lambda X, p: (X | __import__("pacal").Lt(p[0])).cdf(p[0]), "sum_eval": lambda X, p: (X + X).mean(), "scale_eval": lambda X, p: (X * 3).median(),
    "min_eval": lambda X, p: __import__("pacal").min(X, p[0]).mean(), "abs_eval": lambda X, p: abs(X).mean(), "exp_eval": lambda X, p: __import__("pacal").exp(X).median(),
    "mix_eval": lambda X, p: __import__("pacal").MixDistr([0.5, 0.5], [X, X + 1]).mean(), "invcdf": lambda X, p: X.get_piecewise_invcdf()(0.3),
    "tointerp": lambda X, p: X.get_piecewise_pdf().toInterpolated(), "getsegvals": lambda X, p: X.get_piecewise_pdf().getSegVals(),
}
EXTRA = {
    "charpts": lambda X, p: X.get_piecewise_pdf().characteristicPoints(),
    "maximum": lambda X, p: X.get_piecewise_pdf().maximum(), "minimum": lambda X, p: X.get_piecewise_pdf().minimum(), "max_abs": lambda X, p: X.get_piecewise_pdf().max_abs(),
    "pdfv": _args_kept(lambda X, a: X.pdf(a)), "cdfv2": _args_kept(lambda X, a: X.cdf(a)), "ccdfv": _args_kept(lambda X, a: X.ccdf(a)), "interpcdfv": _args_kept(lambda X, a: X.get_piecewise_cdf_interp()(a)),
    "half": _args_kept(_half), "meanf": lambda X, p: X.meanf(lambda x: x * x), "interp_errs": lambda X, p: X.interp_error_by_segment(), "breaksext": lambda X, p: [str(b) for b in X.get_piecewise_pdf().getBreaksExtended()],
    "five": lambda X, p: X.five_number_summary(), "diracs": lambda X, p: [(d.a, d.f) for d in X.get_piecewise_pdf().getDiracs()],
    "call": _args_kept(lambda X, a: X(a)), "ccdf_interp": lambda X, p: X.get_piecewise_ccdf_interp()(p[0]), "cdfsegs": lambda X, p: core.segs(X.get_piecewise_cdf()),
    "moment4": lambda X, p: X.moment(4), "diff": lambda X, p: X.get_piecewise_pdf().diff()(p[0]), "roots": lambda X, p: X.get_piecewise_pdf().roots(),
    "sym": lambda X, p: X.getName(), "range": lambda X, p: X.range(), "segvals": lambda X, p: X.get_piecewise_pdf().getSegVals(), "space": lambda X, p: X.get_piecewise_pdf().getPiecewiseSpace(numberOfPoints=5),
}
PAIR = {"KL": lambda X, Y: X.KL_dist(Y), "L2": lambda X, Y: X.L2_dist(Y),
        "pwsum": lambda X, Y: core.segs(X.get_piecewise_pdf() + Y.get_piecewise_pdf()), "pwmul": lambda X, Y: core.segs(X.get_piecewise_cdf() * Y.get_piecewise_cdf())}

def plan(rng, tier, index):
    par = rng.random() < 0.25
    fam = rng.choice([[("b", 4), ("u", 3), ("d", 2)], [("b", 1)], [("u", 2), ("b", 1)], [("d", 2), ("b", 1)]])
    g = expr.Gen(rng, budget=rng.choice([0.4, 0.8, 1.2]), maxdepth=3, families=fam)
    g.program(rng.choice([1, 2, 3, 4]), fresh=0.35, last=0.4)
    steps = []
    def questions(names, k):
        for _ in range(k):
            v = rng.choice(names)
            t = rng.random()
            if t < 0.4:
                q = rng.choice(sorted(SIDE))
                steps.append(["side", v, q, g.points(v)])
            elif t < 0.6:
                steps.append(["ask", v, rng.choice(sorted(EXTRA)), g.points(v)])
            elif t < 0.65:
                steps.append(["pair", v, rng.choice(names), rng.choice(sorted(PAIR))])
            else:
                q, a = work.pick_query(rng, g, v)
                steps.append(["ask", v, q, a])
    names = []
    for s in g.prog:
        steps.append(["stmt", s["v"]])
        names.append(s["v"])
        if s["k"] == "op" or rng.random() < 0.5:
            questions(names, rng.choice([0, 1, 2, 3]))
    questions(names, rng.choice([2, 3, 4]))
    # the comparison everybody gets at the end
    for v in rng.sample(names, min(2, len(names))):
        steps.append(["ask", v, "fp", g.points(v)])
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": rng.choice(["mono", "shuffle", "reuse"])}, "prog": g.prog, "steps": steps,
            "parallel": par, "conf": simpool.gen_conf(rng)}

def question(env, st):
    import numpy as np
    w = []
    with work.dep_warnings(w), np.errstate(all="ignore"):
        if st[0] == "pair":
            r = core.guarded(PAIR[st[3]], env[st[1]], env[st[2]])
        elif st[2] in EXTRA:
            r = core.guarded(EXTRA[st[2]], env[st[1]], list(st[3]))
        else:
            r = work.observe(env, st[1], st[2], st[3])
    return [r, w[0]]

def execute(plan, ctx):
    prog = plan["prog"]
    d = {s["v"]: s for s in prog}
    def session():
        import numpy as np
        c = core.Ctx("C04")
        (work.parallel if plan["parallel"] else work.serial)()
        s = simpool.install(plan["seed"], plan["conf"], c)
        env, out = {}, []
        for st in plan["steps"]:
            if st[0] == "stmt":
                w = []
                with work.dep_warnings(w), np.errstate(all="ignore"):
                    e = work.build_guarded(d[st[1]], env)
                out.append([e, w[0]])
            elif any(v not in env for v in ([st[1]] if st[0] != "pair" else st[1:3])):
                out.append(None)
            elif st[0] == "side":
                with work.dep_warnings([]), np.errstate(all="ignore"):
                    try:
                        SIDE[st[2]](env[st[1]], list(st[3]))
                        c.count("side_" + st[2])
                    except Exception as e:
                        c.count("side_exceptions")
                out.append(None)
            else:
                out.append(question(env, st))
        simpool.report(s, c)
        return out, c.stats, c.log, s.tasks
    outs, stats, log, tasks = core.isolated(session)
    ctx.stats.update(stats); ctx.log += log
    done = {}
    hist = []
    for st, got in zip(plan["steps"], outs):
        if st[0] == "stmt":
            hist.append("build " + work.describe([d[st[1]]]))
            continue
        if st[0] == "side":
            hist.append("%s(%s)" % (st[2], st[1]))
            continue
        if got is None:
            continue
        ctx.count("answers_compared")
        if len(hist) > 1:
            ctx.trivial = False
        k = repr(st)
        if k not in done:
            def fresh():
                import numpy as np
                work.serial()
                env = {}
                vs = [st[1]] if st[0] == "ask" else st[1:3]
                need = {s["v"] for v in vs for s in expr.needed(prog, v)}
                with work.dep_warnings([]), np.errstate(all="ignore"):
                    for s in prog:
                        if s["v"] in need:
                            work.build_guarded(s, env)
                if any(v not in env for v in vs):
                    return None
                return question(env, st)
            done[k] = core.isolated(fresh)
            ctx.event("fresh", core.digest(done[k]))
        if done[k] != got:
            what = "%s(%s)" % (st[2], st[1]) if st[0] == "ask" else "%s(%s,%s)" % (st[3], st[1], st[2])
            raise Violation("history", "program %s\nafter [%s] the query %s answers differently from a fresh copy of the variable: (fresh, session) %s"
                            % (work.describe(prog), "; ".join(hist), what, core.first_diff(done[k], got)))
        ctx.state(st[0], st[2:], core.digest(done[k]), len(hist))
        hist.append("%s(%s)" % (st[2] if st[0] == "ask" else st[3], st[1]))
    ctx.sample = {"program": work.describe(prog), "session": hist[:14], "parallel": plan["parallel"]}

def shrink(plan):
    out = []
    st = plan["steps"]
    for i in range(len(st) - 1, -1, -1):
        if st[i][0] != "stmt":
            out.append(dict(plan, steps=st[:i] + st[i + 1:]))
    if plan["parallel"]:
        out.insert(0, dict(plan, parallel=False))
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        ns = [t for t in st if t[1] in names and (t[0] != "pair" or t[2] in names)]
        out.append(dict(plan, prog=p, steps=ns))
    return out
