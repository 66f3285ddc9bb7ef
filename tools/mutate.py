#!/usr/bin/env python3-vt
"""dev tool: apply a textual change to a copy of /repo and run a check on the copy.
   mutate.py ID file 'old' 'new' [units|full]"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
mode = sys.argv[5] if len(sys.argv) > 5 else "full"
tmp = tempfile.mkdtemp(prefix="verif-mut-")
try:
    for d in ("src", "include"):
        shutil.copytree("/repo/" + d, tmp + "/" + d)
    p = os.path.join(tmp, f)
    s = open(p).read()
    if old not in s:
        sys.exit("text not found")
    open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=tmp)
    if mode == "units":
        r = subprocess.run(["python3-vt", "/tmp/w/run.py", pid.lower()], env=env)
    else:
        r = subprocess.run(["python3-vt", "/verif/run.py", pid], env=env) if mode == "full" else subprocess.run(["python3-vt", "/tmp/w/run.py", pid.lower(), mode], env=env)
    print("exit", r.returncode)
finally:
    shutil.rmtree(tmp)
