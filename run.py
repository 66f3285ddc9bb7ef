#!/usr/bin/env python3-vt
"""Decide one property:  run.py <ID> [quick|thorough]"""
import importlib, json, os, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import extract, session, harness


def imprecise(o):
    """an obligation refuted only over values an abstraction (loop havoc,
    uninitialised or unmodelled data) left open"""
    d = o[5] or ""
    g = d.split("\nmodel:")[0]
    return any(x in g for x in ("hv!", "undef!", "ext!", "m8.lp.", "m4.lp.", "m1.lp.", "cell0!", "off!"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = importlib.import_module("checks." + pid.lower())
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    hs = getattr(chk, "HARNESSES", [])
    hout = [None] * len(hs)
    built = [None] * len(hs)
    

    def hrun(i):
        try:
            built[i] = harness.build(hs[i])
            hout[i] = harness.run(built[i], seed, hs[i].budget * (10 if tier == "thorough" else 1))
        except Exception as e:
            hout[i] = dict(status="error", why="%s: %s" % (type(e).__name__, e))
    threads = [threading.Thread(target=hrun, args=(i,)) for i in range(len(hs))]
    results = []
    xerr = None
    try:
        prog = extract.load(chk.SOURCES)
        results = None
        units = list(chk.UNITS)
        if callable(getattr(chk, "units", None)):
            units += chk.units(prog, tier)
        if tier == "thorough":
            for u in units:
                u.budget *= 4
        # fork the provers before threads exist
        results = session.run_units(prog, units, jobs=8) if not hs else run_with(prog, units, threads)
    except extract.ExtractError as e:
        xerr = "extraction: " + str(e)
        results = []
        for t in threads:
            if not t.is_alive() and t.ident is None:
                t.start()
    except Exception as e:
        xerr = "internal: %s\n%s" % (e, traceback.format_exc())
        results = results or []
        for t in threads:
            if t.ident is None:
                t.start()
    for t in threads:
        if t.ident is not None:
            t.join()

    obl = [(r, o) for r in results for o in r.obligs]
    disc = sum(1 for _, o in obl if o[1] == "proved")
    refuted = [(r, o) for r, o in obl if o[1] == "refuted"]
    unknown = [(r, o) for r, o in obl if o[1] == "unknown"]
    errors = [r for r in results if r.error]
    precise = [(r, o) for r, o in refuted if not imprecise(o)]
    vac = [r for r in errors if r.error_kind == "vacuous"]

    known = load_known(pid)
    hfail = [d for d in hout if d and d["status"] == "fail"]
    herr = [d for d in hout if d and d["status"] == "error"]
    violation = None
    notes = []
    if hfail:
        violation = ("input", hfail[0])
    elif precise:
        # look harder for a failing input
        for i, b in enumerate(built):
            if b and b.exe:
                for k in range(2):
                    d = harness.run(b, seed + 1000 + k, hs[i].budget * 6)
                    if d["status"] == "fail":
                        violation = ("input", d)
                        break
            if violation:
                break
        if not violation:
            violation = ("obligation", precise)
    undecided = bool(errors or unknown or xerr or (refuted and not precise))
    nothing = not disc and not any(d and d["status"] == "ok" for d in hout)

    write_evidence(chk, pid, tier, seed, results, hout, xerr, time.time() - t0, violation, obl, disc)
    for b in built:
        if b:
            b.close()
    print("%s: %d functions/lemmas, %d obligations, %d discharged, %d refuted, %d unknown, %d units undecided, harness %s, %.1fs" % (
        pid, len(results), len(obl), disc, len(refuted), len(unknown), len(errors),
        ",".join(d["status"] if d else "none" for d in hout) or "none", time.time() - t0))
    for r in errors:
        print("UNDECIDED %s: %s" % (r.name, r.error.splitlines()[0]))
    if xerr:
        print("UNDECIDED " + xerr)
    for r, o in refuted + unknown:
        print("%s obligation: %s in %s (%s)" % (o[1].upper(), o[0], o[4], o[3]))
    for d in herr:
        print("HARNESS-ERROR %s" % d.get("why", "")[:1500])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation:
        path = os.path.join(evdir, "%s.replay.txt" % pid)
        with open(path, "w") as f:
            if violation[0] == "input":
                d = violation[1]
                f.write("property %s broken on real code\nwhat: %s\ncase: %s\nseed: %s budget: %s\nexit: %s\n\nstdout:\n%s\n\nstderr:\n%s\n" % (
                    pid, d.get("why"), d.get("case"), d.get("seed"), d.get("budget"), d.get("rc"), d.get("out"), d.get("err")))
            for r, o in refuted:
                f.write("\nfailed obligation: %s\nunit: %s\nat: %s\nsolver: %s\n%s\n" % (o[0], o[4], o[3], o[2], o[5]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if violation[0] == "input" else " no-failing-input-found"))
        return 1
    if nothing:
        print("nothing was decided")
        return 2
    return 0


def run_with(prog, units, threads):
    """provers run in forked workers; harness threads start once those exist"""
    import multiprocessing as mp
    session._PROG, session._UNITS = prog, units
    ex = session.Exec(prog)
    ex.demangle_all()
    session.DEMANGLED.update(ex.demangled)
    if not units:
        for t in threads:
            t.start()
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(units))) as pool:
        it = pool.imap_unordered(session._work, range(len(units)), chunksize=1)
        for t in threads:
            t.start()
        rs = list(it)
    order = {u.name: i for i, u in enumerate(units)}
    rs.sort(key=lambda r: order.get(r.name, 0))
    return rs


def load_known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def write_evidence(chk, pid, tier, seed, results, hout, xerr, wall, violation, obl, disc):
    backends = {}
    for _, o in obl:
        if o[1] == "proved":
            backends[o[2]] = backends.get(o[2], 0) + 1
    trusted = {}
    inl = set()
    for r in results:
        trusted.update(r.trusted)
        inl.update(r.inlined)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(chk, "LEVEL", "proof"), "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "obligations": len(obl), "discharged": disc,
            "checker_cmd": "python3-vt /verif/run.py %s %s (VC generator over clang IR of /repo; z3 %s, cvc5 fallback)" % (pid, tier, z3v()),
            "trusted_base": ["/verif/engine (VC generator)", "clang-18 -O0 + opt (sroa, simplifycfg, loop-simplify)", "z3", "cvc5"] +
                            ["%s: %s" % kv for kv in sorted(trusted.items())] + list(getattr(chk, "TRUSTED", [])),
            "functions_under_contract": [{"unit": r.name, "kind": r.kind, "functions": r.functions, "obligations": len(r.obligs),
                                          "discharged": sum(o[1] == "proved" for o in r.obligs), "paths": r.paths, "reachable_outcomes": r.reach,
                                          "loops_by_invariant": getattr(r, "loops", (0, 0))[0], "loops_fully_unrolled": getattr(r, "loops", (0, 0))[1],
                                          "seconds": round(r.seconds, 2), "undecided": r.error} for r in results],
            "inlined_helpers": sorted(inl)[:200],
            "obligations_by_backend": backends,
            "solver_s": round(sum(getattr(r, "solver", 0) for r in results), 2),
            "solver_queries": sum(r.stats.get("queries", 0) for r in results),
            "undecided_units": [r.name for r in results if r.error] + ([xerr] if xerr else []),
            "bounded_standin": [dict((k, d.get(k)) for k in ("status", "evaluations", "nontrivial", "rule", "samples", "seconds", "why")) for d in hout if d],
        },
        "assumptions": list(getattr(chk, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    "allocation never fails and no exception leaves the functions under contract (unwind edges are not followed)",
    "signed overflow wraps as two's complement where the code reaches it; machine integers are otherwise exact (every add/sub/mul is proved in range or taken modulo 2^n)",
    "distinct objects do not overlap; pointers to distinct objects compare unequal",
    "clang's IR at -O0 means what g++-11's code for the same source means",
    "sequential execution: locks are taken to succeed and other threads are not modelled",
    "the harness counts under bounded_standin are a bounded check (random and enumerated inputs), never counted as proved",
]

if __name__ == "__main__":
    sys.exit(main())
