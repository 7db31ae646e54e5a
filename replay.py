#!/usr/bin/env python3
"""replay.py FILE : run a replay file against the current /repo; exit 1 if it fails the same way, 0 if it passes, 3 if it fails differently."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
r = json.load(open(sys.argv[1]))
exe = B.build()
with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
    f.write("\n".join(str(x) for x in r["choices"]) + "\n")
    f.flush()
    p = subprocess.run([exe, "exec", "--prop", r["property"], "--choices", f.name, "--trace", "-"]
                       + (["--seed", str(r["seed"]), "--before", ",".join(map(str, r["runs_before"]))] if r.get("runs_before") else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
lines = p.stdout.decode(errors="replace").splitlines()
print("\n".join(lines[-60:]))
res = json.loads([l for l in lines if l.startswith('{"outcome"')][-1])
if res["outcome"] != 2:
    print("the run passes")
    sys.exit(0)
same = res["cls"] == r["class"] and res["hash"] == r["hash"]
print("fails " + ("exactly as recorded" if same else "differently than recorded"))
sys.exit(1 if same else 3)
