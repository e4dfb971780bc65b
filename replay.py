#!/usr/bin/env python3
"""replay.py DIR: rebuild the native harness of a saved counterexample and replay it.  Exit 1 if it still fails."""
import json, os, sys, tempfile, shutil
import run
d = sys.argv[1]
v = json.load(open(os.path.join(d, "violation.json")))
q = run.Query(v["harness"], v["entry"], {})
w = tempfile.mkdtemp(prefix="vt-replay-")
try:
    b = run.Builder(w, None)
    r = None
    for msan in (False, True):
        rc, out = run.replay(b.native(q, v["config"], v["defs"], msan=msan), v["entry"], v["violation"]["inputs"], w)
        r = run.confirmed(rc, out, v["violation"]["kind"])
        print(out[-3000:])
        if r or v["violation"]["kind"] != "uninit":
            break
    print("REPRODUCED: " + r if r else "not reproduced")
    sys.exit(1 if r else 0)
finally:
    shutil.rmtree(w, ignore_errors=True)
