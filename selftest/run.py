#!/usr/bin/env python3
"""Self-test of the checks: breaking edits have to be reported, harmless rewrites have to stay quiet.
usage: run.py [property ...] ; works on a scratch copy of /repo, one per worker."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
os.environ.setdefault("VERIF_TU_CACHE", "/tmp/apollo-tu")
spec = importlib.util.spec_from_file_location("cases", os.path.join(HERE, "cases.py"))
cases = importlib.util.module_from_spec(spec)
spec.loader.exec_module(cases)


def one(c):
    pid, want, name, edits = c
    d = tempfile.mkdtemp(prefix="apollo-st-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(os.environ.get("SELFTEST_BASE", "/repo"), r, ignore=shutil.ignore_patterns(".git", "build*", "_build"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return (c, "STALE", "%s: text not found: %s" % (f, old[:80]))
            open(p, "w").write(s.replace(old, new, 1))
        ev = os.path.join(d, "ev")
        env = dict(os.environ, APOLLO_REPO=r, VERIF_EVIDENCE=ev)
        q = subprocess.run([sys.executable, os.path.join(V, "run.py"), pid], env=env, capture_output=True, text=True)
        got = {0: "quiet", 1: "bad"}.get(q.returncode, "error%d" % q.returncode)
        return (c, "ok" if got == want else "WRONG got " + got, q.stdout[-1500:] + q.stderr[-1500:])
    finally:
        shutil.rmtree(d)


def main():
    sel = set(sys.argv[1:])
    todo = [c for c in cases.CASES if not sel or c[0] in sel or c[2] in sel]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for c, r, out in ex.map(one, todo):
            if r != "ok":
                bad += 1
            print("%-4s %-5s %-40s %s" % (c[0], c[1], c[2], r))
            if r != "ok" or os.environ.get("SHOW"):
                print("    " + out.replace("\n", "\n    ")[:3000])
    print("%d cases, %d wrong" % (len(todo), bad))
    return 1 if bad else 0


sys.exit(main())
