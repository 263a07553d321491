#!/usr/bin/env python3
"""mkseed.py SPECFILE: writes seeded/<id>/ from a python file defining id, prop, edits [(file, old, new)], demo (C++ source), needs, breaks."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
clang++ -std=c++17 -w -I/repo/include -I/repo/include/caliper -I/repo/_build/include/caliper -I/repo/src -I/repo/_build/include "$D/demo.cpp" -o "$T/demo" -L/repo/_build/src -Wl,-rpath,/repo/_build/src -lcaliper -lpthread %(flags)s || exit 3
cd "$T" || exit 3
export CALI_LOG_VERBOSITY=0 CALI_CONFIG_FILE=/nonexistent
timeout 120 ./demo
'''
def make(d):
    out = os.path.join(V, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    subprocess.check_call(["git", "-C", "/repo", "diff", "--quiet"])
    try:
        for f, old, new in d["edits"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (d["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    if "demo" in d:
        open(os.path.join(out, "demo.cpp"), "w").write(d["demo"].lstrip())
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(flags=d.get("flags", "")))
    else:
        open(os.path.join(out, "demo.sh"), "w").write(d["demosh"].lstrip())
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for n, c in d.get("files", {}).items():
        open(os.path.join(out, n), "w").write(c.lstrip())
    json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("wrote", d["id"])
if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for d in g["seeds"]:
        if len(sys.argv) < 3 or d["id"] in sys.argv[2:]:
            make(d)
