"""Mechanical extraction: compile the needed translation units of /repo's
working tree to LLVM IR with clang, promote locals to SSA with opt, parse."""
import os, re, subprocess, hashlib, json, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import irparse

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
OPT = "opt-18"
DEFS = ["-DHXHIM_HAVE_LEVELDB=1", "-DHXHIM_HAVE_ROCKSDB=1", "-DSYSTEM_BIG_ENDIAN=0"]
MPI = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
PASSES = "function(sroa,simplifycfg,loop-simplify)"


class ExtractError(Exception):
    pass


def overlay(tmp):
    """clang rejects the template default arguments that transform.tpp repeats
    from transform.hpp (g++ accepts them); a copy of that one header with the
    repeated defaults dropped is put in front of it."""
    d = os.path.join(tmp, "overlay")
    p = os.path.join(d, "datastore")
    os.makedirs(p, exist_ok=True)
    src = os.path.join(REPO, "include/datastore/transform.tpp")
    s = open(src).read()
    s = re.sub(r"typename\s*=\s*enable_if_t\s*<\s*(std::is_\w+)<T>::value\s*>\s*>", r"typename>", s)
    open(os.path.join(p, "transform.tpp"), "w").write(s)
    # headers including it by a quoted path resolve relative to the include dirs
    y = {"version": 0, "roots": [{"type": "file", "name": src, "external-contents": os.path.join(p, "transform.tpp")}]}
    yf = os.path.join(d, "vfs.yaml")
    json.dump(y, open(yf, "w"))
    return ["-ivfsoverlay", yf]


def compile_one(src, out, extra):
    raw = out + ".raw"
    lang = [] if src.endswith(".c") else ["-std=c++17", "-include", "cstdint"]
    cmd = [CLANG] + (["-x", "c"] if src.endswith(".c") else []) + DEFS + ["-I" + os.path.join(REPO, "include")] + MPI + lang + extra + (["-fno-access-control"] if src.startswith(HERE) else []) + \
          ["-O0", "-w", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("clang failed on %s:\n%s" % (src, r.stderr[-3000:]))
    r = subprocess.run([OPT, "-passes=" + PASSES, "-S", raw, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("opt failed on %s:\n%s" % (src, r.stderr[-3000:]))
    os.unlink(raw)
    return irparse.Module(out)


def load(sources, extra_text=None, keep=None):
    """sources: paths relative to /repo (or absolute).  Returns Program."""
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        extra = overlay(tmp)
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for i, s in enumerate(sources):
                src = s if os.path.isabs(s) else os.path.join(HERE if s.startswith("specs/") else REPO, s)
                if not os.path.exists(src):
                    raise ExtractError("source file %s is missing" % s)
                jobs.append(ex.submit(compile_one, src, os.path.join(tmp, "m%d.ll" % i), extra))
            mods = [j.result() for j in jobs]
        if keep:
            for i, s in enumerate(sources):
                shutil.copy(os.path.join(tmp, "m%d.ll" % i), os.path.join(keep, os.path.basename(s) + ".ll"))
        return irparse.Program(mods)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
