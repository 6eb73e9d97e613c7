#!/usr/bin/env python3
"""Developer tool: plant.py FILE.py -- writes seeded/<id>/ from bug definitions (edits against /repo's HEAD).
A definition file sets BUGS = [dict(id, prop, edits=[(file, old, new[, count])], demo=<C++ source>, flags='', srcs='', needs, breaks)]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
WT = "/tmp/wt"
DEMO = """#!/bin/bash
# Exit 0: the property holds for this scenario; nonzero: it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 %(cxx)s -DRAPIDJSON_HAS_STDSTRING=1 -I"$PWD/include" "$here/demo.cpp" %(srcs)s -o "$tmp/demo" %(libs)s -lpthread || exit 98
cd "$tmp" && timeout 120 ./demo
"""
def main(fn, only):
    ns = {}
    exec(open(fn).read(), ns)
    subprocess.run([V + "/tools/bug.sh", "sync"])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."])
        for e in b["edits"]:
            p = os.path.join(WT, e[0]); s = open(p).read()
            n = s.count(e[1])
            if n != (e[3] if len(e) > 3 else 1):
                sys.exit("%s: %d matches of %r in %s" % (b["id"], n, e[1][:60], e[0]))
            open(p, "w").write(s.replace(e[1], e[2]))
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % dict(cxx=b.get("flags", "-O1 -g"), libs=b.get("libs", ""), srcs=" ".join('"$PWD/%s"' % s for s in b.get("srcs", "").split())))
        for n, c in b.get("files", {}).items():
            os.makedirs(os.path.dirname(d + "/" + n) or d, exist_ok=True); open(d + "/" + n, "w").write(c)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."])
        print("planted", b["id"])
main(sys.argv[1], sys.argv[2:])
