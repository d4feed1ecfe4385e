"""C01: parallel evaluation is indistinguishable from serial evaluation."""
import core, expr, simpool, work
from core import Violation

def plan(rng, tier, index):
    g = expr.Gen(rng, budget=rng.choice([0.6, 1.0, 1.5, 2.5]), maxdepth=3, families=rng.choice([[("b", 4), ("u", 3), ("d", 2)], [("b", 1)], [("u", 1)], [("b", 2), ("d", 2)]]))
    if rng.random() < 0.12:       # densities built by other means than interpolation take part in arithmetic
        x = g.leaf(fam=rng.choice("bbu"))
        f = rng.choice(["order_stat", "median", "gt", "between", "iid_max", "mix"])
        y = g.op(f, [x] if f != "mix" else [x, g.leaf(fam="b")], g._par(f, g.info[x]) if f != "mix" else [[0.5, 0.5]])
        if y: g.op(rng.choice(["add", "mul", "sub", "div", "min"]), [y, rng.choice([y, g.leaf(fam="b")])])
    g.program(rng.choice([1, 2, 3, 4]))
    obs = {"end": []}
    for s in g.prog:
        if s["k"] == "op" and rng.random() < 0.6:
            obs[s["v"]] = [["fp", g.points(s["v"])]]
            if rng.random() < 0.3:
                obs[s["v"]].append(list(work.pick_query(rng, g, s["v"])))
        elif rng.random() < 0.15:
            obs[s["v"]] = [list(work.pick_query(rng, g, s["v"]))]
    for s in g.prog:
        if s["k"] == "op" and rng.random() < 0.8:
            obs["end"].append([s["v"], rng.choice(["fp", "fpfull"]), g.points(s["v"])])
    rng.shuffle(obs["end"])
    return {"seed": rng.randrange(1 << 30), "seams": {"addr": rng.choice(["mono", "shuffle", "reuse"])}, "prog": g.prog, "obs": obs,
            "conf": simpool.gen_conf(rng), "nprocs": rng.choice([None, 1, 2, 5])}

def execute(plan, ctx):
    def ser():
        work.serial()
        return work.run_program(plan["prog"], plan["obs"])
    ref = core.isolated(ser)
    def par():
        c = core.Ctx("C01")
        work.parallel()
        from pacal import params
        params.general.nprocs = plan["nprocs"]
        s = simpool.install(plan["seed"], plan["conf"], c)
        out = work.run_program(plan["prog"], plan["obs"])
        simpool.report(s, c)
        return out, c.stats, c.states, c.log, s.tasks
    got, stats, states, log, tasks = core.isolated(par)
    ctx.stats.update(stats)
    ctx.states |= states
    ctx.log += log
    ctx.event("hist", core.digest(ref))
    ctx.count("observations", len(ref))
    ctx.trivial = tasks == 0
    if tasks:
        ctx.sample = {"program": work.describe(plan["prog"]), "pool": plan["conf"], "tasks": tasks}
    d = work.diff_history(ref, got, "serial", "pool")
    if d:
        raise Violation("differs", "program %s\nserial and pool evaluation differ: %s" % (work.describe(plan["prog"]), d))

def shrink(plan):
    out = []
    for p in work.drop_statements(plan["prog"]):
        names = {s["v"] for s in p}
        obs = {v: o for v, o in plan["obs"].items() if v in names}
        obs["end"] = [o for o in plan["obs"]["end"] if o[0] in names]
        out.append(dict(plan, prog=p, obs=obs))
    for i in range(len(plan["obs"]["end"])):
        out.append(dict(plan, obs=dict(plan["obs"], end=plan["obs"]["end"][:i] + plan["obs"]["end"][i + 1:])))
    for v in plan["obs"]:
        if v != "end":
            out.append(dict(plan, obs={k: o for k, o in plan["obs"].items() if k != v}))
    for k, simple in (("workers", 1), ("chunk", "all"), ("order", "fifo"), ("assign", "first")):
        if plan["conf"][k] != simple:
            out.append(dict(plan, conf=dict(plan["conf"], **{k: simple})))
    return out
