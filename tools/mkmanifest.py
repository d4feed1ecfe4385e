"""Writes /verif/MANIFEST.json from the registry and mkprops."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "sim"), os.path.join(here, "tools")]
import registry, mkprops
NOTE = {
 "C01": "SimPool replaces multiprocessing.Pool: real forked workers and pickling, the simulator decides worker count, chunking, assignment, order. Oracle: serial evaluation in a pristine fork, exact equality. Trusts the fork/pickle stand-in for the pool protocol.",
 "C02": "Setting histories around pool start; oracle is a pristine serial fork under just those settings. Settings are restricted to the ones that take effect after import.",
 "C03": "Aborts (KeyboardInterrupt, MemoryError, failing user density or stream) raised at sampled calls, entries and loop back-edges of pacal; retry and continuation compared with an undisturbed fork. Points inside finally/except/__exit__ code are not abort points.",
 "C04": "Long sessions over shared variables; every answer compared exactly with a pristine fork that builds only that variable.",
 "C05": "Leaf draws recorded; returned sample compared with a reference evaluation of the expression on the recorded draws, over all arrangements consistent with the cache.",
 "C06": "Adversary chooses the Mersenne-Twister state so numpy's real samplers run on extreme uniforms; count, support, type and absence of exceptions checked.",
 "C07": "Seeded experiments; Dvoretzky-Kiefer-Wolfowitz bound, confirmed by a second, larger independent experiment. Detects only discrepancies above the resolution of the experiment (about 0.01 in distribution function).",
 "C08": "Histories of create/combine/pickle/fork/destroy with simulated addresses, pids and entropy; oracle is a true-identity ancestry model.",
 "C09": "Same question under different hash seeds, simulated address orders and question histories; densities compared to numerical accuracy, model and sources compared exactly.",
 "C10": "User functions misbehave by a seeded script and count their evaluations; computation must end within a fixed budget of evaluations and loop steps.",
 "C11": "Seeded task, transfer and start failures in SimPool; the caller must see an exception and the next computation must be right.",
 "C12": "Real threads run one at a time, the simulator picks the runner at source lines of pacal; oracle is each thread alone.",
 "C13": "Samples of seeded programs with and without interleaved computations and pool schedules; digest of process-wide state before and after.",
}
TECH = "deterministic simulation with fault injection: "
WHAT = {
 "C01": "seeded pool schedules against serial reference", "C02": "seeded settings/pool histories against pristine reference",
 "C03": "seeded abort injection with retry against undisturbed reference", "C04": "seeded session histories against pristine reference",
 "C05": "seeded sampling histories against recorded-draw reference model", "C06": "adversarial generator states", "C07": "seeded experiments against computed law",
 "C08": "seeded identity histories (address, pid, fork, pickle) against ancestry model", "C09": "seeded hash/address order and question histories",
 "C10": "seeded misbehaving callables with step budgets", "C11": "seeded worker/transfer/start faults", "C12": "seeded thread schedules against solo reference", "C13": "seeded interleaved histories against undisturbed sample streams",
}
checks = [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
           "technique": TECH + WHAT[p], "level": registry.PROPS[p]["level"], "level_note": NOTE[p] + " Sampled, not exhaustive."} for p in sorted(registry.PROPS)]
na = [{"property": q["id"], "reason": mkprops.NA.get(q["id"], "check under construction")} for q in mkprops.P if q["id"] not in registry.PROPS]
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is installed from outside by sim/seams.py. One VERIF_SEED decides all runs; see DESIGN.md."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
