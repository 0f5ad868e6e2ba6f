#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (planted bugs) from tools/seeds/*.txt.
   seed.py [ID...]   with --try: also builds the demo on both trees and runs the property's check on the changed one."""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "tools", "seeds")
DEMO_CC = """#!/bin/bash
# exit 0: the property holds on this tree
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -DCPP -include cstdint -w -O1 -g %(flags)s -fopenmp -I. -IGTgraph/sprng2.0-lite/include -I"$D" "$D/demo.cpp" -o "$T/demo" %(libs)s || exit 99
cd "$T"
export OMP_DYNAMIC=false
timeout 200 ./demo
"""
def parse(p):
    s = open(p).read()
    d = {}
    for m in re.finditer(r"^@@(\w+)(?: (.*))?\n((?:(?!@@).*\n)*)", s, re.M):
        d.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return d
want = [a for a in sys.argv[1:] if not a.startswith("--")]
for f in sorted(os.listdir(SD)):
    if not f.endswith(".txt"): continue
    sid = f[:-4]
    if want and sid not in want: continue
    d = parse(os.path.join(SD, f))
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    new = {}
    edits = d["old"]
    for (path, old), (_, nw) in zip(edits, d["new"]):
        src = new.get(path) or open("/repo/" + path).read()
        old, nw = old[:-1], nw[:-1]
        assert src.count(old) == 1, (sid, path, src.count(old))
        new[path] = src.replace(old, nw)
    diff = ""
    for path, txt in new.items():
        o = open("/repo/" + path).read()
        diff += "diff --git a/%s b/%s\n" % (path, path)
        for l in difflib.unified_diff(o.splitlines(True), txt.splitlines(True), "a/" + path, "b/" + path):
            diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": d["property"][0][0], "needs": d["needs"][0][1].strip(), "what_it_breaks": d["breaks"][0][1].strip()},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    if "sh" in d:
        open(os.path.join(out, "demo.sh"), "w").write(d["sh"][0][1])
    else:
        fl = d.get("flags", [("", "")])[0][0] or ""
        lb = d.get("libs", [("-lgraphblas", "")])[0][0] or ""
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_CC % {"flags": fl, "libs": lb})
    if "demo" in d:
        open(os.path.join(out, "demo.cpp"), "w").write(d["demo"][0][1])
        if '"d.h"' in d["demo"][0][1]: shutil.copy(os.path.join(SD, "d.h"), out)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    if "--try" in sys.argv:
        t = tempfile.mkdtemp(prefix="seed-")
        r = os.path.join(t, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        a = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r, capture_output=True, text=True)
        p = subprocess.run(["git", "apply", os.path.join(out, "patch.diff")], cwd=r, capture_output=True, text=True)
        assert p.returncode == 0, p.stderr
        b = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r, capture_output=True, text=True)
        c = subprocess.run(["python3", os.path.join(V, "run.py"), d["property"][0][0]], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        print(sid, d["property"][0][0], "demo before", a.returncode, "after", b.returncode, "check rc", c.returncode,
              [l[:160] for l in c.stdout.splitlines() if l.startswith(("VIOL", "ERR"))])
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        shutil.rmtree(t)
    else:
        print(sid)
