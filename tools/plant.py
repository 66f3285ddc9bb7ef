#!/usr/bin/env python3
"""dev tool: make and validate a planted bug.
   plant.py make NAME ID FILE   (FILE: python with EDITS=[(path, old, new)], NEEDS, BREAKS; demo.cpp beside it)
   plant.py test NAME...        build, tests, demo with and without, the property's check"""
import json, os, shutil, subprocess, sys
S = "/verif/seeded"
R = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


DEMO = '''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_ess_singleton_isolated=1 TMPDIR="$t"
L=$PWD/_build/src
g++-11 -std=c++17 -w -g -fno-access-control -DSYSTEM_BIG_ENDIAN=0 -DHXHIM_HAVE_LEVELDB=1 -DHXHIM_HAVE_ROCKSDB=1 -I"$PWD/include" \\
    -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$d/demo.cpp" -o "$t/demo" -L"$L" -lhxhim -Wl,-rpath,"$L" \\
    -lleveldb -lrocksdb -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -lpthread || exit 2
cd "$t" && timeout -k 5 120 ./demo
'''


def make(name, pid, f):
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(S, name)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    try:
        for p, old, new in ns["EDITS"]:
            q = os.path.join(R, p)
            s = open(q).read()
            assert s.count(old) == 1, (p, old, s.count(old))
            open(q, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=pid, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)


def test(name, check=True):
    d = os.path.join(S, name)
    pid = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    out = [name]
    b = sh("bash /opt/vp/build.sh")
    assert not b.returncode, b.stdout[-2000:]
    r = sh("bash %s/demo.sh" % d, cwd=R)
    out.append("clean demo %d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        assert not a.returncode, a.stderr
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(b.stdout[-2000:])
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        res = json.load(open("/tmp/plant.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base if isinstance(base, list) else base.get("tests") or base.get("passed") or base.get("stable")
        bad = [x for x in stable if x not in res["passed"]]
        out.append("build %d tests broken %s" % (b.returncode, bad))
        r = sh("bash %s/demo.sh" % d, cwd=R)
        out.append("patched demo %d %s" % (r.returncode, (r.stdout + r.stderr).strip()[-150:]))
        if check:
            c = sh("python3-vt /verif/run.py %s quick" % pid)
            out.append("check %d %s" % (c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith(pid + ":")]))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(" | ".join(out), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(*sys.argv[2:5])
        test(sys.argv[2])
    else:
        for n in sys.argv[2:]:
            test(n)
