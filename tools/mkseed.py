#!/usr/bin/env python3
"""tools/mkseed.py: writes seeded/<id>/ from one bug description file (python literal dict on stdin)."""
import ast, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = ast.literal_eval(sys.stdin.read())
w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % w, shell=True)
    for f, old, new in d["edits"]:
        p = os.path.join(w, "src/GTMesh", f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = d.get("count", 1)
        assert t.count(old) == n, (f, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    patch = subprocess.check_output(["git", "-C", w, "diff"])
    o = os.path.join(V, "seeded", d["id"])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "wb").write(patch)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    open(os.path.join(o, "demo.cpp"), "w").write(d["demo"].lstrip("\n"))
    open(os.path.join(o, "demo.sh"), "w").write("""#!/bin/bash
# run with cwd = root of GTMesh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
g++ -std=c++14 -O0 -g -w -include array %s -I src -I src/GTMesh "$here/demo.cpp" -o "$w/demo" || exit 98
cd "$w" && timeout 120 ./demo
""" % d.get("flags", ""))
finally:
    shutil.rmtree(w)
