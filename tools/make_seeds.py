#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo sources, shim, meta.json) from the definitions in seed_src/*.py.
usage: make_seeds.py [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("CRASHDEBUG_REPO", "/repo")

HEAD = '''#!/bin/bash
# Run in the repository. Exit 0: the property holds in this scenario.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export ASAN_OPTIONS=detect_leaks=0
INC="-I$D/shim/include -I$R/include -I$R/libCrashDebug/src -I$R/libCrashDebug/mocks -I$D"
CF="-g -O1 -w -std=gnu11 -include stdlib.h -include string.h -include strings.h"
'''
KIND = {
 # demo.c with everything but main.c
 "lib": 'gcc $CF -fsanitize=address $INC "$D/demo.c" "$R"/libcommon/src/*.c "$R"/libCrashDebug/src/*.c "$R"/main/MockDefaults.c "$D"/shim/core/mricore.c -o "$T/demo" || exit 2\n'
        'cd "$T" && timeout 120 ./demo\n',
 # demo.c supplies hooks and console itself
 "bare": 'gcc $CF -fsanitize=address $INC "$D/demo.c" "$R"/libcommon/src/*.c "$R"/libCrashDebug/src/*.c "$D"/shim/core/mricore.c -o "$T/demo" || exit 2\n'
         'cd "$T" && timeout 120 ./demo\n',
 # demo.c with libmocks
 "mocks": 'gcc $CF -fsanitize=address $INC "$D/demo.c" "$R"/libcommon/src/*.c "$R"/libmocks/src/*.c "$R"/libCrashDebug/mocks/*.c -o "$T/demo" || exit 2\n'
          'cd "$T" && timeout 120 ./demo\n',
 # demo.c with libmocks and the C++ double
 "icomm": 'for f in "$R"/libcommon/src/*.c "$R"/libmocks/src/*.c "$R"/libCrashDebug/mocks/*.c; do gcc $CF $INC -c "$f" -o "$T/$(basename "$f").o" || exit 2; done\n'
          'g++ -g -w -std=gnu++98 -fpermissive -include stdlib.h -include string.h $INC "$D/demo.cpp" "$R"/libCrashDebug/mocks/*.cpp "$T"/*.o -o "$T/demo" || exit 2\n'
          'cd "$T" && timeout 120 ./demo\n',
 # the real program, driven by demo.py
 "exe": 'gcc $CF $INC "$R"/main/*.c "$R"/libcommon/src/*.c "$R"/libCrashDebug/src/*.c "$D"/shim/core/mricore.c -o "$T/CrashDebug" || exit 2\n'
        'cd "$T" && timeout 120 python3 -B "$D/demo.py" "$T/CrashDebug" "$T"\n',
}
UTIL_H = open(os.path.join(V, "tools/seed_src/util.h")).read()
UTIL_PY = open(os.path.join(V, "tools/seed_src/gdb.py")).read()

def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/seed_src/s_*.py"))):
        ns = {"V": V}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def edit(root, path, edits):
    p = os.path.join(root, path)
    b = open(p, "rb").read()
    crlf = b"\r\n" in b
    t = b.decode("latin1").replace("\r\n", "\n") if crlf else b.decode("latin1")
    for old, new in edits:
        n = t.count(old)
        assert n == 1, "%s: %d matches of %r" % (path, n, old)
        t = t.replace(old, new)
    if crlf:
        t = t.replace("\n", "\r\n")
    open(p, "wb").write(t.encode("latin1"))

def write(s, tree):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["git", "-C", tree, "checkout", "-q", "--", "."])
    for path, edits in s["edits"].items():
        edit(tree, path, edits)
    patch = subprocess.check_output(["git", "-C", tree, "diff", "--no-color", "--binary"])
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    subprocess.check_call(["git", "-C", tree, "checkout", "-q", "--", "."])
    kind = s["kind"]
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(HEAD + KIND[kind])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if kind == "exe":
        open(os.path.join(d, "demo.py"), "w").write(UTIL_PY + "\n" + s["demo"].strip("\n") + "\n")
    else:
        open(os.path.join(d, "util.h"), "w").write(UTIL_H)
        name = "demo.cpp" if kind == "icomm" else "demo.c"
        open(os.path.join(d, name), "w").write(s["demo"].strip("\n") + "\n")
    shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

if __name__ == "__main__":
    seeds = load()
    ids = sys.argv[1:] or sorted(seeds)
    with tempfile.TemporaryDirectory(prefix="mkseed.") as t:
        tree = os.path.join(t, "r")
        subprocess.check_call(["git", "clone", "-q", R, tree])
        for i in ids:
            write(seeds[i], tree)
            print(i)
