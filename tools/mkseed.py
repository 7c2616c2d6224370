"""Development aid: mk(id, property, [(file, old, new)...], needs, breaks, demo_cpp, full) writes seeded/<id>."""
import subprocess, os, json, shutil, sys
V = "/verif"; R = os.environ.get("SEED_REPO", "/tmp/sw2")   # a scratch clone of /repo: rm -rf /tmp/sw && git clone -q /repo /tmp/sw
DEMO_TOK = """#!/bin/bash
# cwd: the repository. Builds the demonstration against its sources; exit 0 if the property holds in it.
D=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d); trap "rm -rf $T" EXIT
g++ -std=c++20 -O1 -w -Iinclude "$D/demo.cpp" src/token.cpp src/exception-handler.cpp -o $T/demo || exit 3
timeout 60 $T/demo
"""
DEMO_FULL = """#!/bin/bash
# cwd: the repository. Builds the demonstration against its sources (with stand-ins for the two libraries
# that are not installed); exit 0 if the property holds in it.
D=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d); trap "rm -rf $T" EXIT
ls src/*.cpp src/model/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O0 -w %(cf)s -DSIMFIL_WITH_MODEL_JSON -Iinclude -I'"$D"'/shim -include '"$D"'/shim/prelude.h -c {} -o '$T'/$(echo {} | tr / _).o' || exit 3
g++ -std=c++20 -O0 -w %(cf)s -DSIMFIL_WITH_MODEL_JSON -Iinclude -I"$D/shim" -include "$D/shim/prelude.h" "$D/demo.cpp" $T/*.o -lfmt -pthread %(cf)s -o $T/demo || exit 3
timeout 100 $T/demo
"""
def mk(id, prop, edits, needs, breaks, demo, full=True, cf=""):
    assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain", "-uno"]), "repo not clean"
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = f"{R}/{f}"; s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO_FULL % dict(cf=cf) if full else DEMO_TOK)
    os.chmod(f"{d}/demo.sh", 0o755)
    if full:
        shutil.rmtree(f"{d}/shim", ignore_errors=True)
        shutil.copytree(f"{V}/shim", f"{d}/shim")
    return d
