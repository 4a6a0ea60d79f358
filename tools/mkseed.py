#!/usr/bin/env python3
"""mkseed.py <id>...: confirm a planted change in a scratch copy of /repo: builds, passes the stable tests, the demo
tells it from the unchanged tree. Uses namespaces-free path: the scratch tree is built with the flags of build.sh."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    r = run(["bash", "/opt/vp/build.sh"])
    if r.returncode:
        return "build: " + r.stdout[-1500:]
    run(["bash", "/opt/vp/test.sh", "/tmp/seed-t.json"])
    passed = set(json.load(open("/tmp/seed-t.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [t for t in base if t not in passed]
    return "tests fail: %s" % miss if miss else None


def demo(i):
    d = tempfile.mkdtemp()
    shutil.copytree(os.path.join(V, "seeded", i), d + "/x")
    for f in ("patch.diff", "meta.json"):
        if os.path.exists(d + "/x/" + f):
            os.remove(d + "/x/" + f)
    r = run(["bash", d + "/x/demo.sh"], cwd="/repo", timeout=300)
    shutil.rmtree(d)
    return r


def main():
    ids = sys.argv[1:]
    assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "dirty"
    e = tests()
    assert not e, e
    for i in ids:
        r = demo(i)
        print(i, "unchanged:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
    for i in ids:
        p = os.path.join(V, "seeded", i, "patch.diff")
        r = run(["git", "-C", "/repo", "apply", p])
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        try:
            e = tests()
            if e:
                print(i, e)
                continue
            r = demo(i)
            print(i, "patched:", r.returncode, r.stdout[-200:].strip())
            pid = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
            if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
                c = run(["python3", "run.py", pid, "quick"], cwd=V, env=dict(os.environ, VERIF_EVIDENCE="/tmp/seed-ev"))
                print(i, "check", pid, c.returncode, c.stdout[-300:] if c.returncode != 1 else
                      next((l.strip() for l in c.stdout.splitlines() if l.startswith("  ")), "")[:200])
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
    print(tests() or "restored")


main()
