"""C25: tracing and storing only observe."""
from common import *

RG = "Apollo::Region::"
OBS = ("APOLLO_TRACE_CSV", "APOLLO_TRACE_POLICY", "APOLLO_TRACE_BEST_POLICIES", "APOLLO_TRACE_ALLGATHER", "APOLLO_TRACE_RETRAIN",
       "APOLLO_STORE_MODELS", "APOLLO_STORE_EXEC_INFO")
TRACES = {"trace_file", "gtrace_file"}
# what an observer may do: write text or files, look at the time, read
OUTPUT = {"put", "print", "adopt", "new", "open", "close", "stream", "flush", "getline", "access", "alloc", "free"}
MODEL = "apollo::PolicyModel::"


def at(x, name, v):
    m = {cfg(name): num(v)}
    return interp.map_b_subst(x, m) if isinstance(x, B) else subst(x, m)


def writable(b):
    """the case that every file can be opened"""
    for a in list(terms.batoms(b)):
        if a.op == "good":
            b = restrict(b, terms.atom(a))
    return b


def depends(x, name):
    t = bterm(x) if isinstance(x, B) else x
    return cfg(name) in set(subterms(t))


def state(s):
    """everything outside the function that it changes, except files and output"""
    out = []
    for key, v in s.st.store.items():
        if key[0] not in ("mem", "glob", "each") or (key[0] == "glob" and str(key[1]).startswith("std::")):
            continue
        who = "this" if key == addr(THIS).args[0] else show(T("in", (key, ()))) [:60]
        if v.op == "rec":
            for k, x in v.args[1]:
                if k not in TRACES and not str(k).startswith("$"):
                    out.append(("%s of %s" % (k, who), x))
        else:
            out.append((who, v))
    if s.res is not None:
        out.append(("the result", s.res))
    return out


def compare(ck, s, name):
    if not any(depends(e.guard, name) or any(isinstance(a, T) and depends(a, name) for a in e.args) for e, _ in s.flat) and \
            not any(depends(x, name) for _, x in state(s)) and not depends(s.st.pc, name):
        ck.ok("observes", s, "%s is not looked at" % name)
        return
    bad = 0
    for e, ls in s.flat:
        if e.kind in OUTPUT or e.name in ALLOWED or e.kind == "ctor" or (e.extra or {}).get("const"):
            continue
        if e.kind in ("abort", "throw"):
            a, b = writable(at(e.guard, name, 1)), writable(at(e.guard, name, 0))
            r = terms.equiv(a, b) or not terms.sat(a & ~b)
        else:
            a, b = writable(at(e.guard, name, 1)), writable(at(e.guard, name, 0))
            r = terms.equiv(a, b)
        if not r:
            und = understood(bterm(a)) and understood(bterm(b))
            if only_output(e):
                continue
            bad += 1
            ck.need(False if und else None, "observes", e, "%s happens %s %s" %
                    (e.name, "only with" if not terms.sat(b) else "only without" if not terms.sat(a) else "depending on", name))
            continue
        for x in e.args:
            if not isinstance(x, T) or not depends(x, name):
                continue
            p, q = at(x, name, 1), at(x, name, 0)
            r = ck.same(p, q, writable(a))
            if r is not True and not only_output(e):
                bad += 1
                ck.need(r, "observes", e, "an argument of %s depends on %s: %s" % (e.name, name, show(x)[:150]))
    for what, v in state(s):
        if not depends(v, name):
            continue
        p, q = at(v, name, 1), at(v, name, 0)
        g = writable(at(s.st.pc, name, 1)) & writable(at(s.st.pc, name, 0))
        r = ck.same(p, q, g)
        if r is not True:
            bad += 1
            ck.need(r, "observes", s, "%s depends on %s: %s" % (what, name, show(v)[:200]))
    pa, pb = writable(at(s.st.pc, name, 1)), writable(at(s.st.pc, name, 0))
    if not terms.equiv(pa, pb):
        bad += 1
        ck.need(False if understood(bterm(pa)) and understood(bterm(pb)) else None, "observes", s,
                "whether %s returns depends on %s" % (s.f["qn"], name))
    if not bad:
        ck.ok("observes", s, "%s changes no effect, value or result" % name)


ALLOWED = {MODEL + "store", "TimingModel::store", "apollo::TimingModel::store", MODEL + "name", "Apollo::Dataset::store",
           "Apollo::Dataset::findMinMetricPolicyByFeatures", "apolloUtils::createDir", "mkdir", "opendir", "closedir", "stat",
           "clock_gettime", "time", "abort"}


def only_output(e):
    """functions of the system that change nothing the library uses"""
    return e.kind in ("ext", "call") and not e.name.startswith(("Apollo", "apollo", "DecisionTree", "RandomForest", "Timer",
                                                                "TimingModel", "MPI_", "srand", "rand", "setenv", "putenv", "cv::", "exit", "_exit", "raise", "kill"))


OPAQUE = {"Apollo::Dataset::findMinMetricPolicyByFeatures", "Apollo::Dataset::insert", "Apollo::Dataset::store", "Apollo::Dataset::load",
          "Apollo::instance", "apollo::ModelFactory::createPolicyModel", "apollo::ModelFactory::createRegressionTree"}


def functions(ck):
    """(name, parameters, types, config, opaque)"""
    ctx = {RG + "train", "Apollo::train"}
    yield RG + "getPolicyIndex", 1, None, "default", set()
    yield RG + "getPolicyIndex", 0, None, "default", set()
    for np, pt in ((0, []), (1, ["TimingKind"]), (1, ["vector"])):
        yield RG + "begin", np, pt, "default", set()
    yield RG + "end", 2, ["RegionContext", "double"], "default", ctx
    yield RG + "end", 1, ["RegionContext"], "default", ctx
    yield RG + "train", 3, None, "default", {RG + "collectPendingContexts"}
    yield RG + "train", 3, None, "opencv", {RG + "collectPendingContexts"}
    yield RG + "~Region", 0, None, "default", {RG + "collectPendingContexts"}
    yield RG + "Region", 6, None, "default", ctx | {RG + "parsePolicyModel"}
    yield "Apollo::train", 2, None, "default", {RG + "train"}
    yield "Apollo::~Apollo", 0, None, "default", {RG + "~Region"}
    yield "Apollo::gatherCollectiveTrainingData", 1, None, "mpi", set()


def one(ck, qn, np, pt, config, opaque):
    s = ck.sum(qn, np, pt, config=config, opaque=OPAQUE | opaque, pure={MODEL + "isTrainable"})
    for name in OBS:
        compare(ck, s, name)


def models(ck):
    """no model looks at them at all"""
    p = ck.prog()
    for m in ("getIndex", "train"):
        for f in p.overriders(MODEL + m):
            r = reads(ck, f)
            for name in OBS:
                if r is not None and any(x.endswith(name) for x in r):
                    ck.guarded(one_model, ck, f, name)
                else:
                    ck.ok("observes", f["qn"], "%s is not read" % name)


def reads(ck, f):
    """globals named in the function and everything it calls"""
    p = ck.prog()
    seen, todo, out = set(), [f], set()
    while todo:
        g = todo.pop()
        if g["key"] in seen:
            continue
        seen.add(g["key"])
        ck.functions.add(g["qn"])
        for n in nodes(g["b"]):
            for k in ("qn", "n"):
                if isinstance(n.get(k), str) and "APOLLO_" in n[k]:
                    out.add(n[k])
            h = p.funcs.get(n.get("key"))
            if h is not None and h.get("b") is not None:
                todo.append(h)
    return out


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def one_model(ck, f, name):
    s = ck.sum(f["qn"], f=f, opaque=OPAQUE)
    compare(ck, s, name)


def check(ck):
    for q in functions(ck):
        ck.guarded(one, ck, *q)
    ck.guarded(models, ck)
