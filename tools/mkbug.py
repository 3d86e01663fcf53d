#!/usr/bin/env python3
"""mkbug.py FILE [id ...]: write seeded/<id>/ from descriptions of planted bugs

FILE defines B = [dict(id, prop, edits=[(file, old, new)], demo=C++ text, needs,
breaks, mode="so"|"full")]; edits are relative to libexactreal/ in /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = '''#!/bin/bash
# run in the repository's root after the build
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
B=$root/_build/libexactreal
g++ -std=c++17 -w -I"$root/libexactreal" -I"$B/exact-real" -I"$B" "$here/demo.cc" -o "$tmp/demo" -L"$B/src/.libs" -lexactreal -lflint -lgmpxx -lgmp || exit 3
LD_LIBRARY_PATH="$B/src/.libs" timeout 100 "$tmp/demo"
'''
FULL = '''#!/bin/bash
# run in the repository's root after the build; compiles the whole library with
# small stand-ins (in lib/) for the submodules that are not checked out
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
I="-std=c++17 -w -O1 -DNDEBUG -DBUILD_LIBEXACTREAL -I/opt/vp/include -I$here/lib -I$root/libexactreal"
export DEMO_FLAGS="$I"
for f in "$root"/libexactreal/src/*.cc "$here/lib/impl.cc" "$here/demo.cc"; do
  g++ $I -c "$f" -o "$tmp/$(basename "$f" .cc).o" &
done
wait
g++ "$tmp"/*.o -o "$tmp/demo" -leanticxx -leantic -lflint -lmpfr -lgmpxx -lgmp -lpthread || exit 3
cd "$tmp" && timeout 100 "$tmp/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["B"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    files = sorted({e[0] for e in b["edits"]})
    diff = ""
    for f in files:
        p = os.path.join("libexactreal", f) if not f.startswith("pyexactreal") else f
        s = open(os.path.join("/repo", p)).read()
        for g, old, new in b["edits"]:
            if g == f:
                assert s.count(old) == 1, (b["id"], f, old, s.count(old))
                s = s.replace(old, new)
        open(os.path.join(t, "new"), "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + p, "--label", "b/" + p, os.path.join("/repo", p), os.path.join(t, "new")], stdout=subprocess.PIPE, text=True)
        diff += r.stdout
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if b.get("mode") == "sh":
        open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
    else:
        open(os.path.join(d, "demo.cc"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(FULL if b.get("mode", "full") == "full" else SO)
    if b.get("mode", "full") == "full" or b.get("lib"):
        shutil.copytree(os.path.join(V, "tools", "flib"), os.path.join(d, "lib"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(b["id"])
