"""What each check runs, and how its evidence describes it."""
REAL = ["pacal (all modules of the tree under test, compiled extension rebuilt from its source)", "numpy", "scipy", "sympy", "pickle", "os.fork"]
COMMON_ASSUME = ["runs are sampled, not enumerated: silence is evidence, not proof",
                 "numpy/scipy/sympy and the interpreter behave deterministically for equal inputs (same machine, single-threaded BLAS)"]
PROPS = {}

def prop(pid, runs, rule, measure, stub, level="exploration", assume=(), cpu=60, wall=240, real=(), tmul=12, simtime=None):
    PROPS[pid] = {"runs": {"quick": runs, "thorough": runs * tmul}, "rule": rule, "measure": measure, "stub": stub, "level": level,
                  "assumptions": COMMON_ASSUME + list(assume), "real": REAL + list(real), "cpu": cpu, "wall": wall}
    if simtime:
        PROPS[pid]["simtime"] = simtime

def limits(pid, tier):
    P = PROPS[pid]
    return {"cpu": P["cpu"], "wall": P["wall"]}

prop("C01", 240,
     "seeded random programs of variables (1-4 operations over bounded/unbounded/discrete leaves) evaluated serially in a pristine fork and again through the simulated pool; non-trivial when at least one task ran in a simulated worker",
     "distinct task schedules (worker, chunk bounds, order of every map)",
     ["multiprocessing.Pool replaced by SimPool (forked workers, real pickling; the simulator steps one process at a time and decides chunking, assignment, order)", "id()/getpid/urandom simulated"])
prop("C02", 160,
     "seeded sessions of setting changes, resets, pool restarts and computations on fresh variables, through the simulated pool or serially; each computation is compared with a pristine serial fork having just those settings; non-trivial when a setting was changed before a computation",
     "distinct (settings in force, position of the computation)",
     ["multiprocessing.Pool replaced by SimPool", "id()/getpid/urandom simulated"])
prop("C04", 160,
     "seeded sessions of building, querying, plotting, sampling, combining, copying over shared variables (serial or through the simulated pool); every answer is compared with a pristine fork that builds only that variable and asks only that query; non-trivial when answers were compared after other activity",
     "distinct (query, answer, length of the history before it)",
     ["multiprocessing.Pool replaced by SimPool", "matplotlib Agg backend", "id()/getpid/urandom simulated"])
prop("C05", 2500,
     "seeded expressions sampled through sequences of calls with and without shared caches, some variables marked independent, some draws failing half way and repeated; every value drawn for a leaf is recorded and the returned sample compared with a reference evaluation of the expression on those values; non-trivial when a sample was compared",
     "distinct (tracking mode, program)",
     ["rand_raw of leaf variables wrapped by a recorder", "id()/getpid/urandom simulated"])
prop("C06", 2000,
     "seeded variables and expressions (all leaf classes in turn, extreme parameters) sampled while the bits of the generator are chosen by an adversary: the Mersenne Twister state is set so that the next 198 uniforms are extreme values, probability boundaries or plain ones; numpy's own algorithms run on them; non-trivial when a draw was made",
     "distinct (class or operation, count, density of extreme bits, position of exact 0 and 1/2)",
     ["state of the global Mersenne Twister", "rand_raw of leaf variables wrapped by a recorder"], cpu=30,
     assume=["two exact measure-zero extremes (a uniform exactly 0 or exactly 1/2) do not occur in the same call"])
prop("C03", 360,
     "seeded sessions in which building, querying, printing or sampling is cut short at chosen program points (interrupt or failed allocation at a call, entry or loop back-edge of the library, failing user-supplied function, failing output stream) and then repeated; all answers are compared with the same session undisturbed; non-trivial when an abort was delivered",
     "distinct abort sites (function, kind of point, offset)",
     ["multiprocessing.Pool replaced by SimPool", "sys.monitoring raises at the chosen point", "matplotlib Agg backend", "id()/getpid/urandom simulated"],
     assume=["aborts do not arrive inside clean-up code (finally suites, exception handlers, __exit__)", "aborts arrive in the main process, not in pool workers"])
prop("C08", 700,
     "seeded histories of creating, combining, copying, pickling, freeing and destroying variables in a process, in forked children and in separately started processes that exchange pickled variables; after every combination the warning is compared with a model holding the true identities; non-trivial when something was combined",
     "distinct histories",
     ["id() simulated: addresses of dead objects are handed out again", "pids simulated: reused", "os.urandom simulated: different in every process", "process start: fork of a pristine interpreter"])
prop("C13", 360,
     "seeded programs mixing sampling with building, querying, plotting and aborted computations, serially or through the simulated pool, possibly repeated; samples are compared with the same program without the computations, and a digest of process-wide state is compared around every non-sampling step; non-trivial when there was something to compare",
     "distinct sample streams and pool schedules",
     ["multiprocessing.Pool replaced by SimPool", "sys.monitoring raises aborts", "matplotlib Agg backend", "id()/getpid/urandom simulated"])
prop("C11", 260,
     "seeded programs evaluated through the simulated pool while chosen tasks fail (exception in the worker, inside the evaluated code, in a user-supplied density), arguments or results cannot be transferred, or the pool cannot be started; the caller must get an exception and the repetition and all later answers must equal a serial undisturbed run; non-trivial when a fault was delivered",
     "distinct task schedules (worker, chunk bounds, order of every map)",
     ["multiprocessing.Pool replaced by SimPool", "id()/getpid/urandom simulated"], assume=["workers do not die (the standard pool hangs then, whatever the library does)"])
