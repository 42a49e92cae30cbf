#!/usr/bin/env python3
"""Replay a violation on the real code:  python3 vf/replay.py replays/<file>.json
Rebuilds the contract natively (ASan+UBSan) against /repo's current sources and runs it on the recorded inputs."""
import sys, os, json, importlib.util, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); VERIF = os.path.dirname(HERE)
import run as R
def main():
    rep = json.load(open(sys.argv[1])); pid = rep["property"]
    prop = R.load_prop(pid)
    print("property %s, contract %s, obligation: %s" % (pid, rep["contract"], rep["failed_obligation"]))
    if not rep["inputs"] and not rep["replayed_on_real_code"]:
        print("no failing input was found; verifier output:\n" + rep["verifier_output"]); return 0
    wd = os.path.join(VERIF, ".work", "replay_" + pid); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    R.make_config(wd)
    for u in prop["units"]:
        if any(c["entry"] == rep["contract"] for c in u["contracts"]):
            un = R.Unit(pid, u, wd); un.build_native()
            if un.native_err: print(un.native_err); return 2
            f = os.path.join(un.dir, "in"); open(f, "w").write("\n".join(map(str, rep["inputs"])) + "\n")
            rc, out = R.native_run(un, [rep["contract"], "replay", f], 60)
            print(out); print("exit", rc, "(42-45: the obligation fails on the real code)" if rc in R.FAILRC else "")
            shutil.rmtree(wd, ignore_errors=True)
            return 1 if rc in R.FAILRC else 0
    print("contract not found"); return 2
if __name__ == "__main__": sys.exit(main())
