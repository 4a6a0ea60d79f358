#!/usr/bin/env python3
"""Behaviour-preserving rewrites (refactor.py): every check has to stay quiet on every one of them.
usage: refactor_run.py [name ...]; also shows which obligations are no longer decided."""
import importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
os.environ.setdefault("VERIF_TU_CACHE", "/tmp/apollo-tu")
spec = importlib.util.spec_from_file_location("refactor", os.path.join(HERE, "refactor.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
IDS = os.environ.get("IDS", "").split() or ["C%02d" % i for i in range(1, 40) if os.path.exists(V + "/checks/c%02d.py" % i)]


def check(r, pid, ev):
    q = subprocess.run([sys.executable, os.path.join(V, "run.py"), pid], env=dict(os.environ, APOLLO_REPO=r, VERIF_EVIDENCE=ev), capture_output=True, text=True)
    m = re.search(r"(\d+) obligations discharged, (\d+) undecided", q.stdout)
    return pid, q.returncode, m and (int(m.group(1)), int(m.group(2))), q.stdout + q.stderr


def main():
    sel = sys.argv[1:]
    wrong = 0
    with ThreadPoolExecutor(8) as ex:
        for name, edits in mod.CASES:
            if sel and not any(name == s or name.startswith(s + "-") for s in sel):
                continue
            d = tempfile.mkdtemp(prefix="apollo-rf-")
            try:
                r = os.path.join(d, "repo")
                shutil.copytree(os.environ.get("SELFTEST_BASE", "/repo"), r, ignore=shutil.ignore_patterns(".git", "build*", "_build"))
                stale = 0
                for f, old, new in edits:
                    p = os.path.join(r, f)
                    s = open(p).read()
                    if s.count(old) < 1:
                        print("%-30s STALE %s: %s" % (name, f, old[:80]))
                        stale = 1
                        break
                    open(p, "w").write(s.replace(old, new, 1))
                if stale:
                    wrong += 1
                    continue
                first = check(r, IDS[0], d + "/ev")
                res = [first] + list(ex.map(lambda p: check(r, p, d + "/ev"), IDS[1:]))
                bad = [x for x in res if x[1] != 0]
                lost = ["%s:%d" % (x[0], x[2][1]) for x in res if x[2] and x[2][1]]
                print("%-30s %s %s" % (name, "ok" if not bad else "WRONG " + " ".join("%s=%d" % (x[0], x[1]) for x in bad), "undecided " + " ".join(lost) if lost else ""), flush=True)
                if bad:
                    wrong += 1
                    for x in bad:
                        print("   " + "\n   ".join(l[:400] for l in x[3].split("\n") if l.strip())[:1500])
                elif os.environ.get("SHOW"):
                    for x in res:
                        print("\n".join("      " + l.strip()[:300] for l in x[3].split("\n") if "undecided:" in l))
            finally:
                shutil.rmtree(d)
    print("%d wrong" % wrong)
    return 1 if wrong else 0


sys.exit(main())
