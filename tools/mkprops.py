#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

# ---------------------------------------------------------------- claimed
prop("C01", "Parallel evaluation is indistinguishable from serial evaluation",
 "Arithmetic on random variables computed through the pool of worker processes gives exactly the numbers that the same program gives when every point is evaluated in the calling process: same densities, distribution functions, statistics and warnings. This holds for every number of workers, every way the points are split into tasks, every order in which tasks run and finish, and every copy made of the operands to reach a worker.",
 ["schedules", "configurations", "programs"],
 "every number of workers, split of the evaluation points into tasks, assignment of tasks to workers and completion order; every expression built from the library's distributions and operations, including joint distributions being marginalised",
 "The suite runs each expression under whatever single schedule the operating system happens to give one pool size, and compares statistics of the result to a loose theoretical value; it never varies the schedule and never compares with a serial run.",
 ["pacal/utils.py", "pacal/indeparith.py", "pacal/depvars/nddistr.py", "pacal/segments.py", "pacal/__init__.py", "pacal/rv.py"],
 [("get_parmap / worker detection", "pacal/utils.py:get_parmap"), ("Convxrunner point-wise maps", "pacal/indeparith.py:Convxrunner"), ("InterpRunner.interpxx", "pacal/depvars/nddistr.py:InterpRunner"), ("bound-method pickling", "pacal/__init__.py:_pickle_method"), ("picklable wrappers", "pacal/utils.py:wrap_pdf, pacal/segments.py:wrap_f")],
 [("process_pool", "the pool, created on first use", "pacal/params.py:general")],
 ["nodes and values of every computed segment, query results, emitted warnings"])

prop("C02", "Settings in force at the call decide the result, in every process",
 "The result of a computation depends on the numerical settings in force when it is made and not on the settings that were in force when the worker pool was started or during earlier computations. Changing a setting therefore has the same effect with the pool as without it, and setting it back restores the earlier results.",
 ["histories", "schedules", "configurations"],
 "every interleaving of settings changes with computations, every pool size and every moment at which the pool is first needed",
 "Tests set parameters once at import, before the pool exists, and never change a setting and recompute.",
 ["pacal/utils.py", "pacal/params.py", "pacal/indeparith.py", "pacal/integration.py", "pacal/interpolation.py", "pacal/segments.py"],
 [("settings are class attributes read at call time", "pacal/params.py"), ("pool forked on first use", "pacal/utils.py:get_parmap")],
 [("settings", "numerical parameters consulted by integration and interpolation", "pacal/params.py")],
 ["densities and statistics after a settings change"])

prop("C03", "An aborted computation leaves everything as if it had never started",
 "If a query or arithmetic operation is cut short at any point - by an interrupt, lack of memory, an exception from a user-supplied density or a failing output stream - then repeating it gives the result an undisturbed run gives. Every other random variable, and every library setting, behaves as before the aborted call.",
 ["crash_points", "fault_sequences", "histories"],
 "every point inside the library at which the abort can arrive, every kind of abort, every operation or query on any distribution, followed by any continuation of the session",
 "No test interrupts a computation; the abort point ranges over thousands of program points per call.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py", "pacal/stats/iid_ops.py", "pacal/depvars/models.py", "pacal/integration.py", "pacal/sympy_utils.py"],
 [("lazily built and cached density / distribution functions", "pacal/distr.py:get_piecewise_pdf, get_piecewise_cdf, ..."), ("module caches of quadrature weights and equation solutions", "pacal/integration.py, pacal/sympy_utils.py"), ("temporary suppression of dependence warnings", "pacal/stats/iid_ops.py:iid_op")],
 [("piecewise_pdf and the other per-variable caches", "None until computed", "pacal/distr.py:Distr.__init__")],
 ["result of the retry, results on all other live variables, settings after the abort"])

prop("C04", "Answers depend only on the variable, not on the history of the session",
 "A query on a random variable always returns what it returns on a freshly built copy asked nothing before, whatever queries, operations, plots, samples or models were evaluated earlier on it or on others and in whatever order. In particular no operation alters its operands.",
 ["histories", "programs"],
 "every sequence of queries and operations over a shared set of random variables, in every order and with any repetition, including garbage collection, pickling round trips and switching the worker pool on and off in between",
 "Tests build each variable, ask it once or twice in one fixed order and throw it away; sharing of state between operands, caches and results only shows over longer histories.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py", "pacal/indeparith.py", "pacal/integration.py", "pacal/interpolation.py", "pacal/stats/iid_ops.py"],
 [("lazy per-variable caches", "pacal/distr.py"), ("segments shared between piecewise functions", "pacal/segments.py"), ("module-level quadrature caches", "pacal/integration.py")],
 [("caches and shared segments", "mutable state that survives a call", "pacal/distr.py, pacal/segments.py")],
 ["values returned by the public queries"])

prop("C05", "With dependence tracking on, a sample of an expression is one joint draw",
 "When the variables of an expression are marked as not independent, every sample of the expression equals the expression evaluated on a single draw of each underlying variable, however often and through whatever sub-expressions the variable occurs, and expressions sampled with the same cache share those draws. Where a variable is marked independent each occurrence and each call draws afresh, and two calls never reuse old draws unless a cache is passed.",
 ["programs", "histories", "inputs"],
 "every expression graph with shared sub-expressions, every marking of its nodes as tracked or independent, every sequence of sampling calls with or without a shared cache, and every random stream",
 "The suite draws samples only to plot histograms; sharing of draws inside an expression is a relation between random numbers that statistics on single variables cannot see.",
 ["pacal/distr.py", "pacal/standard_distr.py"],
 [("sample cache keyed by variable identity", "pacal/distr.py:Distr.rand, OpDistr.rand"), ("per-operation sampling", "pacal/distr.py:*.rand_op")],
 None, ["values returned by sampling, draws taken from the random generator"])

prop("C06", "Sampling survives every value the random generator may return",
 "For every sequence of values the underlying random generators may legally return, drawing n values from a random variable returns exactly n values, all inside the support of the variable, and raises no exception; drawing with no count given returns a single number.",
 ["inputs", "fault_sequences"],
 "every legal sequence of generator outputs, including the end points and extreme values a seeded run practically never meets, for every distribution, conditional, mixture and arithmetic result, and every sample size",
 "Tests draw from the real generator, which does not return its extreme values within any feasible number of draws.",
 ["pacal/standard_distr.py", "pacal/distr.py", "pacal/segments.py"],
 [("per-distribution samplers", "pacal/standard_distr.py:*.rand_raw"), ("inverse-cdf sampling", "pacal/distr.py:rand_invcdf"), ("rejection sampling of conditionals", "pacal/distr.py:CondGtDistr.rand_raw")],
 None, ["values returned by sampling"])

prop("C07", "Simulated experiments agree with the computed distribution",
 "Carrying out the random experiment an expression describes - drawing every operand independently and applying the operations - produces values whose empirical distribution converges to the distribution function the library computes for the expression. The library's own samples of the expression obey the same law, for continuous, discrete, mixed, conditional and mixture variables alike.",
 ["programs", "inputs"],
 "every expression over the library's distributions and operations, with independent operands, and every random stream",
 "Tests compare a few fixed expressions with known closed forms; there is no oracle in them for arbitrary expressions, and samples are never compared with densities.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/indeparith.py", "pacal/segments.py", "pacal/stats/iid_ops.py", "pacal/stats/noncentral_distr.py"],
 [("arithmetic on densities", "pacal/indeparith.py"), ("function composition on densities", "pacal/segments.py:copyComposition ..."), ("samplers", "pacal/standard_distr.py:*.rand_raw, pacal/distr.py:*.rand_op")],
 None, ["distribution function and samples of the same variable"])

prop("C08", "Dependence is reported exactly when operands share a variable",
 "Combining two random variables emits the dependence warning if and only if the warning is enabled and some random variable is an ancestor of (or is) both of them. This holds however long the variables live, whether or not variables have since been destroyed, copied, pickled, or sent to or received from other processes (a copy that travelled counts as the same variable), and helpers for independent identically distributed samples never emit it.",
 ["histories", "configurations", "schedules"],
 "every history of creating, combining, pickling, unpickling, forking and destroying variables, with every possible reuse of memory addresses and process identifiers",
 "No test checks warnings at all, and address or process-id reuse is decided by the allocator and the operating system, which tests do not control.",
 ["pacal/distr.py", "pacal/rv.py", "pacal/stats/iid_ops.py"],
 [("ancestor identity check", "pacal/distr.py:Distr.__init__"), ("identity that survives pickling", "pacal/rv.py:RV.id, getAncestorIDs"), ("warning suppression for i.i.d. helpers", "pacal/stats/iid_ops.py")],
 [("variable identity", "must be unique for ever and survive pickling", "pacal/rv.py:RV.id")],
 ["warnings emitted by operations"])

prop("C09", "Model inference is deterministic in its question and leaves the model intact",
 "Asking a model of dependent variables for the distribution of some variables given values of others yields the same distribution (to numerical accuracy) whatever order internal collections happen to iterate in, wherever objects lie in memory, and whatever was asked before. Inference never changes the model it is asked of, nor the variables and joint distributions the model was built from.",
 ["schedules", "configurations", "histories"],
 "every iteration order of hash-based collections, every relative order of object addresses, every sequence of questions on the same model, for models built from joint distributions and equations",
 "No test touches models, and hash and address order are fixed by the interpreter within one test run.",
 ["pacal/depvars/models.py", "pacal/depvars/nddistr.py", "pacal/depvars/copulas.py", "pacal/sympy_utils.py"],
 [("elimination / variable exchange heuristic", "pacal/depvars/models.py:Model.inference"), ("copy before inference", "pacal/depvars/models.py:Model.copy"), ("variable ordering of substituted joint distributions", "pacal/depvars/nddistr.py:NDDistrWithVarSubst"), ("cache of solved equations", "pacal/sympy_utils.py:eq_solve")],
 None, ["densities of the inferred distribution, structure and joint density of the model before and after"])

prop("C10", "Computations end after boundedly many evaluations of user functions",
 "Whatever a user-supplied density or probability function returns - noise, NaN, infinities, zeros, wrong normalisation - or whenever it raises, every construction or query on a variable built from it ends, with a result or an exception, after a bounded number of evaluations of that function. The library's parametric discrete distributions likewise finish their construction for every legal parameter.",
 ["inputs", "fault_sequences"],
 "every behaviour of the supplied function over time, including behaviour that changes between calls, and every query",
 "Tests supply a handful of well-behaved functions.",
 ["pacal/integration.py", "pacal/interpolation.py", "pacal/segments.py", "pacal/utils.py", "pacal/standard_distr.py"],
 [("bounded refinement", "pacal/integration.py:integrate_fejer2, pacal/interpolation.py:adaptive_interp"), ("bracket expansion and bisection", "pacal/utils.py:findinv*, bisect"), ("truncation loops of discrete distributions", "pacal/standard_distr.py:PoissonDistr, TruncDiscreteFunDistr")],
 None, ["number of evaluations of the supplied function until the call ends"])

prop("C11", "A failure in a worker reaches the caller and the pool stays usable",
 "If evaluating any point fails in a worker process, or the operands or result cannot be transferred, or the pool cannot be started, the caller gets an exception and never a result with missing or made-up values. The next computation works and gives the correct result.",
 ["fault_sequences", "schedules"],
 "every choice of failing task and failure kind, on any schedule, at any position in a sequence of computations",
 "Tests never make a worker fail.",
 ["pacal/utils.py", "pacal/indeparith.py", "pacal/depvars/nddistr.py", "pacal/distr.py"],
 [("worker pool", "pacal/utils.py:get_parmap"), ("result collection", "pacal/indeparith.py:Convxrunner")],
 [("process_pool", "must not be left half set up", "pacal/params.py:general")],
 ["exception or result of the failing call, results of later calls"])

prop("C12", "Threads working on separate variables do not influence one another",
 "When several threads each build and query their own random variables, every thread obtains the values and the dependence warnings it obtains when running alone, and the library settings afterwards are those before. This holds for every interleaving of the threads.",
 ["schedules"],
 "every interleaving of two or more threads at the granularity of source lines, each running any program over variables no other thread uses",
 "The suite is single threaded.",
 ["pacal/stats/iid_ops.py", "pacal/integration.py", "pacal/sympy_utils.py", "pacal/utils.py", "pacal/distr.py", "pacal/interpolation.py"],
 [("temporary suppression of dependence warnings", "pacal/stats/iid_ops.py:iid_op"), ("module caches", "pacal/integration.py:_clenshaw_cache, _fejer2_cache; pacal/sympy_utils.py:_eq_cache"), ("pool creation on first use", "pacal/utils.py:get_parmap")],
 [("process-wide flags and caches", "shared by all threads", "pacal/params.py, pacal/integration.py")],
 ["results, warnings and settings seen by each thread"])

prop("C13", "Seeded programs repeat exactly; computing touches no global state",
 "After seeding the random generator a program draws the same samples whatever computations it makes in between, whatever the worker pool does and however often it is repeated, because only sampling consumes randomness. Building, combining and querying variables changes no library setting, random state, floating-point error handling or warning filter of the process.",
 ["histories", "schedules", "configurations"],
 "every program mixing sampling with other operations, every pool schedule and size",
 "Tests do not compare samples between runs and do not look at process-wide state.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py", "pacal/stats/iid_ops.py", "pacal/params.py", "pacal/utils.py"],
 [("samplers call the generator only on demand", "pacal/standard_distr.py:*.rand_raw"), ("settings are only read", "pacal/params.py")],
 [("numpy random state, settings, error state, warning filters", "process-wide", "numpy, pacal/params.py")],
 ["samples, random state, settings, error handling and filters before and after"])

# ---------------------------------------------------------------- not applicable (pure functions)
NA = {}
def na(id, title, statement, qtext, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], qtext, why, files, mech)
    NA[id] = reason
PURE = "The property is a relation between the inputs and the output of a pure numerical function: no schedule, fault, clock, I/O or other party can influence it, so a simulator has nothing to control. "
na("C14", "Arithmetic results are accurate to near machine precision",
 "The density computed for a sum, difference, product, quotient, minimum, maximum, power or function of independent variables agrees with the exact density to close to machine precision away from singularities.",
 "every pair of distributions, every parameter value and every evaluation point",
 "Tests check a few dozen closed-form cases.",
 ["pacal/indeparith.py", "pacal/segments.py", "pacal/distr.py"],
 [("convolution-type integrals on segments", "pacal/indeparith.py:conv, convprod, convdiv, convmin, convmax")],
 PURE + "Deciding it needs an exact numerical oracle (quadrature in higher precision); C07 decides only the coarse statistical version through the randomness of the experiment.")
na("C15", "Every computed variable obeys the laws of probability",
 "Every density is non-negative and integrates to one, its distribution function is non-decreasing from 0 to 1, and the quantile function inverts the distribution function.",
 "every constructible variable and every evaluation point",
 "Tests check int_error on their fixed cases only.",
 ["pacal/segments.py", "pacal/distr.py"],
 [("piecewise densities and cumulative integrals", "pacal/segments.py:PiecewiseDistribution, CumulativePiecewiseFunction")],
 PURE)
na("C16", "Adaptive interpolation and integration meet their tolerance",
 "For functions that are smooth on each segment the adaptive interpolator and integrator return values within the requested tolerance.",
 "every smooth function and every interval, finite or infinite",
 "Tests sample some analytic functions.",
 ["pacal/interpolation.py", "pacal/integration.py", "pacal/vartransforms.py"],
 [("adaptive refinement", "pacal/interpolation.py, pacal/integration.py")],
 PURE)
na("C17", "Compiled and pure-Python kernels agree",
 "The compiled barycentric and sparse-grid kernels return the same values as the Python implementation they replace.",
 "every node set, weights and evaluation points",
 "Only the kernel that happens to be importable is exercised.",
 ["pacal/bary_interp.pyx", "pacal/interpolation.py", "pacal/depvars/sparse_grids.py"],
 [("kernel selection at import", "pacal/interpolation.py")],
 PURE)
na("C18", "Copulas and joint distributions have the stated marginals",
 "Integrating all but one variable out of a joint distribution gives that variable's own density, and its distribution function and density are consistent.",
 "every copula family, parameter and pair of marginals",
 "No test touches joint distributions.",
 ["pacal/depvars/copulas.py", "pacal/depvars/nddistr.py"],
 [("copula densities and distribution functions", "pacal/depvars/copulas.py")],
 PURE)
na("C19", "Order statistics and non-central laws match their formulas",
 "Order statistics, sample medians and the non-central t, chi-square, beta and F variables have exactly the distributions their names say.",
 "every base distribution, sample size and rank or parameter",
 "Tests check isolated cases.",
 ["pacal/stats/iid_ops.py", "pacal/stats/noncentral_distr.py"],
 [("formulas on piecewise functions", "pacal/stats/iid_ops.py:iid_order_stat")],
 PURE)
na("C20", "The symbolic expression of a variable matches the operation performed",
 "The symbolic formula carried by a variable is the formula of the operations that built it, so solving and substituting it gives the same relation as the numerical operation.",
 "every expression",
 "No test looks at symbolic forms.",
 ["pacal/rv.py", "pacal/sympy_utils.py"],
 [("symbolic bookkeeping", "pacal/rv.py:*RV")],
 PURE)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties,", len(NA), "not applicable")
