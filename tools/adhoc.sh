#!/bin/bash
# adhoc.sh FILE.cpp [variant] -> builds FILE with the library and runs it (development aid)
V=/verif; v=${2:-fast}
python3 - "$1" "$v" <<'P'
import sys, importlib.util, importlib.machinery, concurrent.futures as cf, os, glob
l = importlib.machinery.SourceFileLoader("chk", "/verif/bin/check"); s = importlib.util.spec_from_loader("chk", l); m = importlib.util.module_from_spec(s); l.exec_module(m)
v = sys.argv[2]
srcs = m.files(f"{m.REPO}/src", (".cpp",)) + [f"{m.HERE}/harness/mc.cpp"]
jobs = [m.obj_for(x, v) for x in srcs]
with cf.ThreadPoolExecutor(10) as ex: list(ex.map(lambda t: m.sh(t[1], None), [j for j in jobs if not os.path.exists(j[0])]))
cxx, fl, ln = m.VARIANTS[v]
assert m.sh(f"{cxx} {m.COMMON} {fl} {sys.argv[1]} {' '.join(j[0] for j in jobs)} {ln} -o /tmp/adhoc", None)
P
[ $? = 0 ] && /tmp/adhoc
