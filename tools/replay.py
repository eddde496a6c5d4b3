#!/usr/bin/env python3
"""replay.py FILE - executes the recorded input of a replay file against /repo's current tree.
Exit 1 if the contract still fails, 0 if it holds. For a failed obligation without an input it re-runs the check."""
import json, os, sys, subprocess
d = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
if d["kind"] != "failing-input":
    print("no input was found; the failed obligations are:"); print(json.dumps(d["failed_obligations"], indent=1))
    sys.exit(subprocess.call([sys.executable, os.path.join(here, "run.py"), d["property"]]))
sys.argv = ["run.py", d["property"]]
sys.path.insert(0, here)
import run
os.makedirs(run.BUILD, exist_ok=True)
if not run.native_build(): sys.exit(2)
bad, txt = run.replay_vals(d["harness"], d["values"])
print(txt)
sys.exit(1 if bad else 0)
