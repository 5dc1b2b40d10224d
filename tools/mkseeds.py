#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from tools/seeds/*.py.

Each seed: dict(id, property, file, old, new, needs, breaks, demo (C++ text), and
optionally san=True, extra="sources", flags, script (instead of demo)). A seed may
have edits=[(file, old, new), ...] instead of file/old/new.
"""
import glob, json, os, shutil, subprocess, sys
V = "/verif"
REPO = "/repo"
BASE = "072f7e6"
seeds = []
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    ns = {"seeds": seeds}
    exec(open(f).read(), ns)
only = sys.argv[1:]
TEMPLATE = '''#!/bin/bash
# exit 0: the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++14 -w -g %(san)s -I"$repo/include/eni" -I"$repo/tools" -isystem "$repo/_build/deps" %(flags)s \\
  "$here/demo.cpp" %(extra)s -o "$tmp/demo" %(lib)s -ldl -lssl -lcrypto -lpthread || exit 2
%(pre)s
cd "$tmp"
ASAN_OPTIONS=detect_leaks=0 LD_LIBRARY_PATH="$repo/_build" timeout 100 "$tmp/demo" "$repo"
'''
LIB = ('"$repo/lib/eni.cpp" "$repo/lib/eni_types.cpp" "$repo"/lib/json/*.cpp "$repo/lib/diagnostic/Exception.cpp"')
for s in seeds:
    if only and s["id"] not in only:
        continue
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", REPO, w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
        # the removed lines have to be lines of the original repository
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    for f in {e[0] for e in edits}:
        blame = subprocess.check_output(["git", "-C", w, "blame", "-s", "-l", "HEAD", "--", f], text=True).split("\n")
        base = subprocess.check_output(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        hunks = subprocess.check_output(["git", "-C", w, "diff", "-U0", "--", f], text=True)
        import re
        removed = 0
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            for i in range(a, a + n):
                removed += 1
                if not blame[i - 1].lstrip("^").startswith(base[:30]):
                    print("NOT ORIGINAL:", s["id"], blame[i - 1][40:])
        if not removed:
            print("NO LINE REMOVED:", s["id"], f)
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "script" in s:
        sh = s["script"]
    else:
        open(d + "/demo.cpp", "w").write(s["demo"])
        san = s.get("san")
        sh = TEMPLATE % dict(san="-fsanitize=address" if san else "", flags=s.get("flags", ""), extra=s.get("extra", ""), pre=s.get("pre", ""),
                             lib=LIB if san or s.get("compile_lib") else '"$repo/_build/libeni.so"')
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(w)
print(len(seeds), "seeds")
