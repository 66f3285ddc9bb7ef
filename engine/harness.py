"""Bounded replay/search harnesses: compile /repo's current sources together
with a driver from /verif/harness and run it."""
import os, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "g++-11"
FLAGS = ["-DHXHIM_HAVE_LEVELDB=1", "-DHXHIM_HAVE_ROCKSDB=1", "-DSYSTEM_BIG_ENDIAN=0",
         "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
         "-g1", "-DDEBUG", "-fPIC", "-w"]
MPILIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi"]
ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1",
           OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_plm="isolated")


NOT_BUILT = ("src/transport/Options.cpp", "src/utils/elapsed.c")     # in no library target


def full_sources():
    """every source file of the library as configured here (no Thallium)"""
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if p.endswith((".cpp", ".c")) and "Thallium" not in p and p not in NOT_BUILT:
                out.append(p)
    return out


FULL_LIBS = ["-lleveldb", "-lrocksdb"] + MPILIBS + ["-lm", "-ldl"]


class Harness:
    def __init__(self, driver, sources, libs=(), opt="-O1", san=(), defs=(), budget=6, timeout=120, cxx=CXX, ld=None):
        self.driver = driver
        self.sources = sources
        self.libs = list(libs)
        self.opt = opt
        self.san = list(san)
        self.defs = list(defs)
        self.budget = budget
        self.timeout = timeout
        self.cxx = cxx
        self.ld = ld or cxx


class Built:
    def __init__(self, h, tmp, exe, error=None):
        self.h = h
        self.tmp = tmp
        self.exe = exe
        self.error = error

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


def build(h, jobs=8):
    tmp = tempfile.mkdtemp(prefix="verif-h-")

    def one(args):
        i, s = args
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        o = os.path.join(tmp, "o%d.o" % i)
        std = [] if src.endswith(".c") else ["-std=c++17"]
        cc = "gcc-11" if src.endswith(".c") and shutil.which("gcc-11") else ("gcc" if src.endswith(".c") else h.cxx)
        cmd = [cc] + FLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")] + std + [h.opt] + h.san + h.defs + ["-c", src, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return o, r.returncode, r.stderr[-3000:]
    drv = os.path.join(HERE, "harness", h.driver)
    objs = {}
    exe = os.path.join(tmp, "harness")
    # the named sources first; should the code have come to need others, all of them
    for srcs, libs in ((list(h.sources), h.libs), (full_sources(), h.libs + FULL_LIBS)):
        srcs = [drv] + srcs
        todo = [x for x in enumerate(srcs, len(objs)) if x[1] not in objs]
        with ThreadPoolExecutor(jobs) as ex:
            for (i, s), (o, rc, e) in zip(todo, ex.map(one, todo)):
                if rc:
                    return Built(h, tmp, None, "compile: " + e)
                objs[s] = o
        r = subprocess.run([h.ld] + h.san + ["-o", exe] + [objs[s] for s in srcs] + libs + ["-lpthread"], capture_output=True, text=True)
        if not r.returncode:
            return Built(h, tmp, exe)
    return Built(h, tmp, None, "link: " + r.stderr[-3000:])


def run(b, seed, budget=None, timeout=None, args=()):
    """-> dict(status 'ok'|'fail'|'error', ...)"""
    h = b.h
    if b.exe is None:
        return dict(status="error", why=b.error)
    work = tempfile.mkdtemp(prefix="verif-hw-", dir=b.tmp)
    env = dict(os.environ)
    env.update(ENV)
    case = os.path.join(work, "case.txt")
    env.update(VERIF_SEED=str(seed), HARNESS_BUDGET=str(budget or h.budget), HARNESS_CASE=case, HARNESS_DIR=work, HOME=work, TMPDIR=work,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1")
    env.pop("DISPLAY", None)
    t0 = time.time()
    try:
        p = subprocess.run([b.exe] + list(args), cwd=work, env=env, capture_output=True, text=True, errors="replace",
                           timeout=timeout or (h.timeout + (budget or h.budget)))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err, rc = "", "timeout"
    last = open(case, errors="replace").read() if os.path.exists(case) else ""
    d = dict(rc=rc, out=out[-4000:], err=err[-4000:], seconds=time.time() - t0, seed=seed, budget=budget or h.budget)
    if rc == 0 and "OK evaluations=" in out:
        d["status"] = "ok"
        for l in out.splitlines():
            if l.startswith("OK "):
                for kv in l.split()[1:]:
                    k, v = kv.split("=")
                    d[k] = int(v)
            elif l.startswith("RULE "):
                d["rule"] = l[5:]
            elif l.startswith("SAMPLE "):
                d.setdefault("samples", []).append(l[7:])
    elif "FAIL " in out:
        d["status"] = "fail"
        d["why"] = [l for l in out.splitlines() if l.startswith("FAIL ")][0][5:]
        d["case"] = [l for l in out.splitlines() if l.startswith("CASE ")][0][5:] if "CASE " in out else last
    else:
        # crash, sanitizer report or hang inside the code under test
        d["status"] = "fail" if last else "error"
        d["why"] = "the run ended with %s in this case" % ("no answer (hang)" if rc == "timeout" else "exit/signal %s" % rc)
        d["case"] = last
    return d
