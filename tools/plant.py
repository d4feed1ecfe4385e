#!/usr/bin/env python3
"""plant.py confirm ID... : for each seeded bug check in a scratch copy that the patch
applies, the tests pass with it, and demo.sh fails with it and passes without it.
plant.py check ID... : does the quick check of its property catch it (scratch copy via VERIF_REPO)?"""
import json, os, shutil, subprocess, sys, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=900, env=None):
    e = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=cwd,
             MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/sv/mpl", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, timeout=t, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout
def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    w = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", w])
    return d, w
def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        s = V + "/seeded/" + i
        prop = json.load(open(s + "/meta.json"))["property"]
        d, w = copy()
        try:
            if cmd == "confirm":
                r0, o0 = sh("bash %s/demo.sh" % s, w, 300)
                ra, oa = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (s, s), w)
                if ra: print(i, "PATCH DOES NOT APPLY", oa[-300:]); continue
                r1, o1 = sh("bash %s/demo.sh" % s, w, 300)
                rt, ot = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=120 -o python_files='test_*.py *_test.py testPlot.py' tests 2>&1 | tail -4", w)
                ok = r0 == 0 and r1 != 0 and "105 passed" in ot and " failed" not in ot
                print("%-28s %s demo %d/%d tests: %s" % (i, "ok " if ok else "BAD", r0, r1, ot.strip().splitlines()[-1][-90:]))
                if r0: print("   unpatched:", o0[-600:])
                if r1 == 0 or r1 == 124: print("   patched:", o1[-600:])
            else:
                sh("git apply %s/patch.diff" % s, w)
                t = time.time()
                props = [prop] if cmd == "check" else cmd.split(",")
                for pr in props:
                    r, o = sh("%s/check %s quick" % (V, pr), V, 900, {"VERIF_REPO": w, "PYTHONPATH": "", "VERIF_REPLAY_DIR": "/tmp/plant.replays"})
                    v = [l for l in o.splitlines() if "VIOLATION" in l]
                    print("%-28s %s rc=%d %ds %s" % (i, pr, r, time.time() - t, "caught" if r == 1 and v else "MISSED"), (v or [""])[0][:160], flush=True)
        finally:
            shutil.rmtree(d)
main()
