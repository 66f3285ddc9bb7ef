#!/usr/bin/env python3-vt
"""Nothing to build: check that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("clang++-18", "opt-18", "g++-11", "c++filt") if not shutil.which(t)]
import z3
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("z3", z3.get_version_string())
