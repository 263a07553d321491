#!/usr/bin/env python3
"""python3 check.py <property id>: runs the check of one property (VERIF_SEED, VERIF_TIER)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core

if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--setup":
        # nothing is kept between runs: every check builds the library from /repo itself
        import shutil
        missing = [t for t in ("java", "clang++", "cmake", "ninja") if not shutil.which(t)]
        print("missing tools: %s" % missing if missing else "tools present")
        sys.exit(1 if missing or not os.path.exists(core.TLAJAR) else 0)
    mod = importlib.import_module("vf." + prop.lower())
    sys.exit(core.main(prop, mod.check))
