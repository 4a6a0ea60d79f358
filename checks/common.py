"""Shared by all checks: obligations, verdicts, summaries, evidence."""
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))

from terms import *          # noqa
import terms                 # noqa
from values import *         # noqa
import values                # noqa
import ir                    # noqa
import interp                # noqa
from interp import flat, Undecided, Ref      # noqa
from ir import AnalysisError  # noqa

CONFIG = "Config::"
USED = set()        # member names the checks rely on


def field_ptr(p, f):
    USED.add(f)
    return values.field_ptr(p, f)


def sel(v, f):
    USED.add(f)
    return values.sel(v, f)

UNKNOWN_OPS = {"unk", "riter", "unkiter", "unkidx", "opx", "mapfrom", "mbad", "psize", "text", "concurrent", "erased",
               "inserted", "resized", "mmerge", "app", "strrange", "range"}


def understood(t):
    """no part of the value or guard stems from an idiom without a model"""
    return not contains(t, lambda x: x.op in UNKNOWN_OPS or (x.op == "trip") or
                        x.op == "less" and contains(x, lambda y: y.op == "lb"))


class Sum:
    """value-flow summary of one function"""

    def __init__(self, I, f, st, res):
        self.I, self.f, self.st, self.res = I, f, st, res
        self.events = I.events
        self.flat = list(flat(I.events))

    def calls(self, *names, kind=None):
        return [(e, l) for e, l in self.flat
                if (e.name in names) and (kind is None or e.kind == kind)]

    def kinds(self, *kinds):
        return [(e, l) for e, l in self.flat if e.kind in kinds]

    def read(self, p):
        return self.I.read(self.st, p)

    def this(self, *fields):
        p = addr(("mem", T("this")))
        for f in fields:
            USED.add(f)
            p = field_ptr(p, f)
        return p

    def get(self, *fields):
        return self.read(self.this(*fields))

    @property
    def loc(self):
        return "%s:%s %s" % (rel(self.f.get("file")), self.f.get("line"), self.f.get("qn"))


def in_this(*fields):
    """initial value of a member"""
    v = T("in", (("mem", T("this")), ()))
    for f in fields:
        v = sel(v, f)
    return v


def argv(f, i):
    """value of parameter i of function f (a Sum or a function)"""
    f = f.f if isinstance(f, Sum) else f
    prm = f["p"][i]
    if is_ref_t(prm["t"]):
        return T("in", (("arg", i, prm["n"]), ()))
    return interp.Interp.param_value(i, prm)


def argp(f, i):
    """address of the object reference parameter i is bound to"""
    f = f.f if isinstance(f, Sum) else f
    return addr(("arg", i, f["p"][i]["n"]))


def init(p, *fields):
    """initial content of the object at p"""
    a = as_addr(p)
    v = interp.init_of(a.args[0])
    for s in a.args[1]:
        v = select(v, s)
    for f in fields:
        v = sel(v, f)
    return v


def cfg(name):
    return T("in", (("glob", CONFIG + name), ()))


def on(name):
    """guard: integer setting is non zero"""
    return cmp_("!=", cfg(name), ZERO, True)


def rel(p):
    p = p or ""
    return p[len(ir.REPO) + 1:] if p.startswith(ir.REPO + "/") else p


def where(x):
    if isinstance(x, Sum):
        return x.loc
    if isinstance(x, dict):
        return "%s:%s %s" % (rel(x.get("file")), x.get("line"), x.get("qn"))
    if isinstance(x, interp.Ev) or isinstance(x, interp.LoopEv):
        return "%s:%s %s" % (rel(x.file), x.line, x.fn)
    if isinstance(x, tuple):
        return where(x[0])
    return str(x)


def canon_b(b):
    """guard with the bound variables of its atoms renamed"""
    return terms.map_b(b, canon)


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []           # (rule, where, text) discharged
        self.viol = []          # (rule, where, text)
        self.und = []
        self.known = []
        self.functions = set()
        self.events = 0
        self.configs = set()
        self._sum = {}
        self.cut = set()        # functions whose calls are looked for
        self.assume = []
        self.errors = []

    # ------------------------------------------------------------ verdicts
    def ok(self, rule, w, text=""):
        self.obl.append((rule, where(w), text))

    def bad(self, rule, w, text):
        v = (rule, where(w), text)
        if v not in self.viol:
            self.viol.append(v)

    def undecided(self, rule, w, text):
        v = (rule, where(w), text)
        if v not in self.und:
            self.und.append(v)

    def need(self, cond, rule, w, text, good=None):
        """cond True: discharged; False: violated; None: undecided"""
        if cond is None:
            self.undecided(rule, w, text)
        elif cond:
            self.ok(rule, w, good or rule)
        else:
            self.bad(rule, w, text)
        return cond

    # ------------------------------------------------------------ analysis
    def prog(self, config="default"):
        p = ir.load(config)
        self.configs.add(config)
        if p.errors:
            raise AnalysisError("configuration %s does not parse: %s" % (config, p.errors[0][1][:2000]))
        return p

    def sum(self, qn, np=None, pt=None, opaque=(), pure=(), keeps=(), config="default", track=False, args=None,
            pre=None, f=None, writes=(), mods=()):
        opaque = set(opaque) | set(writes) | set(mods)
        key = (qn, np, tuple(pt or ()), frozenset(opaque), frozenset(pure), frozenset(keeps), frozenset(writes), frozenset(mods), config, track,
               f and f["key"])
        if key in self._sum and args is None and pre is None:
            return self._sum[key]
        self.cut |= set(opaque) | set(pure)
        p = self.prog(config)
        f = f or p.find(qn, np, pt)
        I = interp.Interp(p, opaque=opaque, track=track, pure=pure, keeps=keeps, writes=writes,
                          mods={m: self.sets(m, config) for m in mods})
        st, r = I.run(f, args=args, pre=pre)
        s = Sum(I, f, st, r)
        self.functions |= {f["qn"]} | I.inlined
        self.events += len(s.flat)
        if args is None and pre is None:
            self._sum[key] = s
        return s

    def sets(self, qn, config="default"):
        """members of its object a method changes"""
        c = self.sum(qn, config=config)
        v = c.read(addr(THIS))
        return sorted({k for k, x in v.args[1] if x is not in_this(k)}) if v.op == "rec" else []

    def renamed(self):
        """member names relied upon that no class declares any more"""
        have, fns = {"first", "second", "tv_sec", "tv_nsec"}, set()
        for c in self.configs | {"default", "jit", "opencv", "mpi"}:
            for q, r in ir.load(c).records.items():
                have |= {x["n"] for x in r["f"]}
                fns |= {q + "::" + x["n"] for x in r["m"]}
            fns |= set(ir.load(c).by_qn)
        return sorted(USED - have) + sorted(x for x in self.cut - fns if not x.startswith(("std::", "cv::", "MPI_")))

    def guarded(self, f, *a):
        """run a sub-check; idioms without a model leave it undecided"""
        try:
            return f(*a)
        except Undecided as e:
            if getattr(e, "bad", None):
                self.bad(e.bad[0], e.bad[1], str(e))
            else:
                self.undecided("analysis", f.__name__, str(e))
        except ir.AnchorMissing as e:
            self.undecided("anchor", f.__name__, str(e))
        except AnalysisError:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided("analysis", f.__name__, "%s: %s (%s:%d)" % (type(e).__name__, e, tb.filename, tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        return None

    # ------------------------------------------------------------ comparisons
    def same(self, a, b, care=TRUE, depth=0):
        """True / False / None (not decided)"""
        if a is b:
            return True
        a2, b2 = canon(deep(a, care)), canon(deep(b, care))
        if a2 is b2:
            return True
        if a2.op == "b" and b2.op == "b":
            return self.same_guard(a2.args[0], b2.args[0], care)
        a1, b1 = deep(a, care), deep(b, care)
        v = split_atom(a1, b1)
        if v is not None and depth < 12:
            r = True
            g = terms._mkb(v, FALSE, TRUE)
            for c in (care & g, care & ~g):
                if not terms.sat(c):
                    continue
                q = self.same(a1, b1, c, depth + 1)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        if v is not None or not understood(a2) or not understood(b2):
            return None
        return False

    def same_guard(self, a, b, care=TRUE):
        if terms.equiv(a, b, care):
            return True
        if terms.equiv(canon_b(a), canon_b(b), canon_b(care)):
            return True
        if not understood(bterm(a)) or not understood(bterm(b)):
            return None
        return False

    def keys(self, rule, rec, field):
        """entries of the map are told apart by their whole key"""
        p = self.prog()
        r = p.records.get(rec)
        t = next((f["t"] for f in r["f"] if f["n"] == field), None) if r else None
        if t is None or not t.startswith(("std::map<", "std::unordered_map<", "std::multimap<")):
            return
        args, depth, cur = [], 0, ""
        for ch in t[t.index("<") + 1:t.rindex(">")]:
            depth += (ch in "<(") - (ch in ">)")
            if ch == "," and depth == 0:
                args.append(cur.strip())
                cur = ""
            else:
                cur += ch
        args.append(cur.strip())
        own = [a for a in args[2:] if not a.startswith(("std::less<", "std::greater<", "std::allocator<", "std::hash<", "std::equal_to<"))]
        w = r
        if not own:
            self.ok(rule, w, "%s::%s tells entries apart by the whole key" % (rec, field))
            return

        def casts(x):
            if isinstance(x, dict):
                if x.get("k") == "cast" and x.get("ck") == "FloatingToIntegral":
                    yield x
                for v in x.values():
                    yield from casts(v)
            elif isinstance(x, list):
                for v in x:
                    yield from casts(v)

        for a in own:
            fs = [f for q, l in p.by_qn.items() if q.startswith(a + "::") for f in l]
            lossy = any(True for f in fs for _ in casts(f))
            if lossy:
                self.bad(rule, w, "%s::%s takes keys for the same that differ by a fraction (%s)" % (rec, field, a))
            else:
                self.undecided(rule, w, "%s::%s is ordered by %s" % (rec, field, a))

    def kept(self, rule, *fields):
        """members declared wide enough to keep what is stored in them: whole numbers at least as wide as int, and no fraction
        dropped where real numbers are stored"""
        p = self.prog()
        for rec, field, real in fields:
            r = p.records.get(rec)
            t = next((f["t"] for f in r["f"] if f["n"] == field), None) if r else None
            if t is None:
                continue
            n = re.sub(r"std::basic_\w+<char[^<>]*>", "", t)
            if re.search(r"\b(?:char|short|bool|__int8|int8_t|int16_t)\b", n):
                self.bad(rule, r, "%s::%s keeps its value in a %s" % (rec, field, t))
            elif real and re.match(r"^(?:unsigned )?(?:int|long|long long)$", t):
                self.bad(rule, r, "%s::%s drops the fraction of its value: %s" % (rec, field, t))
            else:
                self.ok(rule, r, "%s::%s keeps its value" % (rec, field))

    def advances(self, rule, e):
        """a draw moves on the generator that is kept, not a copy of it"""
        g = e.extra.get("gen")
        if g is not None and g.args[0][0] in ("var", "tmp") and len(e.args) > 1:
            v = e.args[1]
            if v.op == "in" or v.op == "sel" and contains(v, lambda t: t.op == "in") and understood(v):
                self.bad(rule, e, "draws from a copy of the generator, which stays where it was")

    def whole(self, lp, rule, w, what, care=TRUE):
        """no turn of the loop ends it before its last"""
        ex = lp.exits
        care = care & cmp_(">=", lp.k, ZERO, True) & cmp_("<", lp.k, lp.n, True)
        if ex is FALSE or not terms.sat(ex & care):
            return
        self.need(False if understood(bterm(ex)) and understood(lp.n) else None, rule, w,
                  "%s: stops early when %s" % (what, showb(ex)[:200]))

    def replaces(self, rule, e, what):
        """the file opened for writing starts empty, whatever it held"""
        m = e.extra.get("mode")
        if m is None:
            return
        if m.op == "defmode":
            if "ofstream" in m.args[0]:
                self.ok(rule, e, what + " starts empty")
            elif "fstream" in m.args[0] and "ifstream" not in m.args[0]:
                self.bad(rule, e, what + " is opened without discarding what it held")
            return
        for g, v in terms.cases(m, e.guard):
            if is_num(v):
                b = int(v.args[0])
                self.need(not b & 1 and (bool(b & 32) or not b & 8), rule, e, "%s keeps what an earlier run left in it" % what)
            else:
                self.undecided(rule, e, "%s is opened with mode %s" % (what, show(v)[:100]))

    def once(self, rule, evs, want, w, what, care=TRUE):
        """the events happen exactly once when want holds and never otherwise"""
        tot = FALSE
        clean = True
        ex = lambda b: terms.exists(b, lambda t: not understood(t))
        for e in evs:
            e = e[0] if isinstance(e, tuple) else e
            g = e.guard
            if not understood(bterm(g)):
                # what is not understood may not matter where it is asked about
                h = ex(g & care)
                if care is not TRUE and not terms.sat(h & ex(~g & care)):
                    g = h
                else:
                    clean = False
            if terms.sat(tot & g & care):
                self.need(False if clean else None, rule, e, "%s can happen twice: again when %s" % (what, showb(g)))
                return False
            tot = tot | g
        if not terms.equiv(tot, want, care):
            tot, want, care = canon_b(tot), canon_b(want), canon_b(care)
        if terms.equiv(tot, want, care):
            self.ok(rule, w, what)
            return True
        if not clean or not understood(bterm(want)):
            self.undecided(rule, w, what + ": condition not understood")
            return None
        miss, extra = want & ~tot & care, tot & ~want & care
        at = evs[0] if evs else w
        if terms.sat(miss):
            self.bad(rule, at, "%s does not happen when %s" % (what, showb(miss)[:600]))
        if terms.sat(extra):
            self.bad(rule, at, "%s happens although %s" % (what, showb(extra)[:600]))
        return False

    def before(self, s, a, b):
        """event a comes before event b in program order"""
        i = [e for e, _ in s.flat]
        return i.index(a) < i.index(b)

    # ------------------------------------------------------------ output
    def finish(self, out=sys.stdout):
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        known, viol = [], []
        gone = self.renamed() if self.viol else []
        if gone:
            for v in self.viol:
                self.undecided("renamed-members", v[1], "%s (no member is called %s any more)" % (v[2], ", ".join(gone)))
            self.viol = []
        kf = load_known()
        for v in self.viol:
            hit = next((k for k in kf if k["property"] == self.pid and k["rule"] == v[0] and k["match"] in
                        (v[1] + " " + v[2])), None)
            (known if hit else viol).append(v)
        level = "other"
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": "Interprocedural gated value-flow analysis of the resolved program: each listed "
                               "function is summarised for all inputs at once; every obligation below is decided "
                               "from those summaries. Nothing is executed.",
                "configurations": sorted(self.configs),
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:200],
                "effects_inspected": self.events,
                "obligations": len(self.obl) + len(self.viol) + len(self.und),
                "discharged": len(self.obl),
                "undecided": ["%s at %s: %s" % u for u in self.und],
                "rules": sorted({r for r, _, _ in self.obl + self.viol + self.und}),
                "samples": ["%s @ %s: %s" % o for o in self.obl[:12]],
            },
            "assumptions": self.assume,
            "violations": len(viol),
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in self.und:
            print("NOTE undecided: %s at %s: %s" % u, file=out)
        print("%s: %d functions, %d effects, %d obligations discharged, %d undecided, %d violated" %
              (self.pid, len(self.functions), self.events, len(self.obl), len(self.und), len(viol)), file=out)
        for v in known:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.pid, v[0], v[1], v[2]), file=out)
        if viol:
            rp = os.path.join(d, self.pid + "-violation.txt")
            with open(rp, "w") as f:
                for v in viol:
                    f.write("rule: %s\nwhere: %s\nwhat: %s\n\n" % v)
            for v in viol:
                print("  %s: at %s: %s" % v, file=out)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), file=out)
            return 1
        return 0


def load_known():
    """entries 'known: property=<id> rule=<rule> match=<text>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = {}
                for part in l[6:].strip().split(" | "):
                    k, _, v = part.partition("=")
                    d[k.strip()] = v.strip()
                out.append(d)
    return out


def fold1(t):
    """(k, n, init, step, acc) of a fold over one location"""
    if t.op == "fold" and len(t.args[3]) == 1:
        return t.args[0], t.args[1], t.args[3][0], t.args[4][0], t.args[5][0]
    return None


def same_map(ck, got, want, keys, care=TRUE):
    """maps agree at every listed key and at every other key"""
    r = True
    q = T("anykey")
    other = care
    for k in keys:
        other = other & ~keq(k, q)
    for k, c in [(k, care) for k in keys] + [(q, other)]:
        a = ck.same_guard(has(got, k), has(want, k), c)
        b = ck.same(mget(got, k), mget(want, k), c & has(want, k)) if a else a
        if a is False or b is False:
            return False
        if a is None or b is None:
            r = None
    return r


THIS = ("mem", T("this"))


def plug(t, val, root=THIS):
    """t (term or guard) with the initial content of root replaced by val"""
    src = bterm(t) if isinstance(t, B) else t
    m = {}
    for x in subterms(src):
        if x.op == "in" and x.args[0][0] == root:
            v = val
            for s in x.args[0][1]:
                v = select(v, s)
            m[x] = v
    if isinstance(t, B):
        return interp.map_b_subst(t, m) if m else t
    return deep(subst(t, m), TRUE)


def whole(s):
    """the object after a constructor or method"""
    return s.read(addr(THIS))


def members(t, root=THIS):
    """names of the members of the object a value depends on"""
    return {x.args[0][1][0][1] for x in subterms(t) if x.op == "in" and x.args[0][0] == root and x.args[0][1]}
