#!/usr/bin/env python3
"""mkseed.py: helper used while planting bugs.
seed(id, prop, file, old, new, demo_cc, needs, breaks, srcs)"""
import json, os, subprocess, sys
V = "/verif/seeded"


def seed(id, prop, edits, demo, needs, breaks, srcs, sh=None):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    try:
        diff = subprocess.run(["git", "-C", "/repo", "diff"],
                              stdout=subprocess.PIPE, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."],
                       check=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(demo)
    need_scan = any("Logical" in s or "LL_" in s or s == "*" for s in srcs)
    lines = ["#!/bin/bash", "set -e", 'here=$(cd "$(dirname "$0")" && pwd)',
             "t=$(mktemp -d)", "trap 'rm -rf \"$t\"' EXIT"]
    if need_scan:
        lines.append('flex --outfile="$t/scan_fort.cc" --header-file='
                     '"$t/scan_fort.hh" src/flpr/scan_fort.l')
    if srcs == ["*"]:
        lines.append('g++ -std=c++17 -w -Isrc -I"$t" "$here/demo.cc" '
                     '_build/src/flpr/libflpr.a -o "$t/demo" 2>/dev/null || '
                     'g++ -std=c++17 -w -Isrc -I"$t" "$here/demo.cc" '
                     'src/flpr/*.cc "$t/scan_fort.cc" -o "$t/demo"')
    else:
        ss = " ".join("src/flpr/" + s for s in srcs)
        if need_scan:
            ss += ' "$t/scan_fort.cc"'
        lines.append('g++ -std=c++17 -w -Isrc -I"$t" "$here/demo.cc" %s -o '
                     '"$t/demo"' % ss)
    lines.append('timeout 60 "$t/demo"')
    open(os.path.join(d, "demo.sh"), "w").write("\n".join(lines) + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
