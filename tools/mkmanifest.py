#!/usr/bin/env python3
"""MANIFEST.json from the list of checks below and checks/*.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the real code (weakest-precondition style VC generation over clang IR of /repo, loop invariants, callee contracts; z3 with cvc5 fallback), failing obligations replayed by a bounded harness on the real code"
NOTES = {
    "C06": "All placement functions in both directions proved for all ratios, ranks, IDs and offsets (lemmas give the inverse in both directions). Assumes every ratio below 2^31.",
    "C07": "All nine hash functions proved for every key content and every length below 2^31, any datastore count below 2^31, with a read frame (only the given bytes). The bit mixing of the hashes is left uninterpreted (its value does not matter).",
}
NA = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd="python3-vt /verif/run.py %s quick" % i, thorough_cmd="python3-vt /verif/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T, level=LEVELS.get(i, "proof"), level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt /verif/tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks: the checks take /repo's sources as they are. Bounded harness runs accompany every proof and are labelled bounded in the evidence."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
