"""newseed.seed(id, property, needs, breaks, [(file, old, new)], demo_cpp, env='', config='default')"""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.cpp against the library built from this tree and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -I"$repo/include" -I"$repo/src" -I"$repo/_build/%(config)s" "$here/demo.cpp" \\
    "$repo/_build/%(config)s/src/libapollo.a" %(libs)s -o "$d/demo" || exit 99
cd "$d" && %(env)s timeout 120 %(run)s "$d/demo" > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
[ $rc -eq 0 ]
'''


def seed(i, prop, needs, breaks, edits, demo, env="", config="default", libs="-ldl -lpthread", run="", script=None):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        for f in {e[0] for e in edits}:
            s = open("/repo/" + f).read()
            os.makedirs(os.path.dirname(w + "/a/" + f), exist_ok=True)
            os.makedirs(os.path.dirname(w + "/b/" + f), exist_ok=True)
            open(w + "/a/" + f, "w").write(s)
            for g, old, new in edits:
                if g == f:
                    assert s.count(old) == 1, (i, f, old, s.count(old))
                    s = s.replace(old, new)
            open(w + "/b/" + f, "w").write(s)
        r = subprocess.run(["diff", "-ru", "a", "b"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        out = "\n".join(l for l in r.split("\n") if not l.startswith("diff -ru"))
        open(d + "/patch.diff", "w").write(out)
    finally:
        shutil.rmtree(w)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(script or DEMO % {"env": env, "config": config, "libs": libs, "run": run})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], stderr=subprocess.PIPE, text=True)
    assert not r.returncode, r.stderr
