#!/usr/bin/env python3
"""replay.py ID HARNESS SPACE:TRAIL  - rebuilds one harness from /repo and replays one execution with its trace."""
import os, subprocess, sys, tempfile, shutil
import run
pid, name, trail = sys.argv[1:4]
root = os.path.join(run.V, "build"); os.makedirs(root, exist_ok=True)
d = tempfile.mkdtemp(prefix="rep-", dir=root)
try:
    bins = [b for b in run.PROPS[pid]["bins"] if b["name"] == name]
    err = run.build(d, bins)
    if err: print("\n".join(err)); sys.exit(2)
    env = dict(os.environ); env["TZ"] = bins[0].get("tz", "UTC"); env["LC_ALL"] = "C"
    cmd = [os.path.join(d, name), "--replay", trail]
    if "--thorough" in sys.argv: cmd += ["--tier", "thorough"]
    sys.exit(subprocess.call(cmd, env=env))
finally:
    shutil.rmtree(d, ignore_errors=True)
