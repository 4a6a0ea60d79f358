"""C22: the C interface and the calls without a context do what the C++ calls do."""
from common import *

RG = "Apollo::Region::"
OPS = {RG + x for x in ("Region", "begin", "end", "setFeature", "getPolicyIndex", "train", "~Region")} | {"Apollo::instance"}


def own(s, name):
    """calls of region methods other than name"""
    return [e for e, _ in s.flat if e.name in OPS and e.name not in (RG + name, "Apollo::instance")]


def delegate(ck, fn, method, args, nargs):
    s = ck.sum(fn, opaque=OPS)
    r = argv(s, 0)
    ev = s.calls(RG + method)
    for e in own(s, method):
        ck.need(False, "forwarded", e, "%s also calls %s" % (fn, e.name))
    if not ck.once("forwarded", ev, TRUE, s, "%s is forwarded to the region" % method, s.st.pc):
        return None
    e = ev[0][0]
    ck.need(ck.same(e.obj, r), "own-region", e, "%s is called on %s" % (method, show(e.obj)[:80]))
    want = args(s)
    got = list(e.args)
    if len(got) != len(want):
        # an overload
        ck.need(False if len(got) < len(want) or nargs else None, "same-arguments", e, "%s gets %s" % (method, [show(x)[:40] for x in got]))
        return s, e
    for a, b in zip(got, want):
        ck.need(ck.same(a, b), "same-arguments", e, "%s gets %s instead of %s" % (method, show(a)[:80], show(b)[:80]))
    return s, e


def begin(ck):
    s = ck.sum("__apollo_region_begin", opaque=OPS)
    ev = s.calls(RG + "begin")
    for e in own(s, "begin"):
        ck.need(False, "forwarded", e, "__apollo_region_begin also calls %s" % e.name)
    if not ck.once("forwarded", ev, TRUE, s, "begin is forwarded to the region", s.st.pc):
        return
    e = ev[0][0]
    ck.need(ck.same(e.obj, argv(s, 0)), "own-region", e, "begin is called on %s" % show(e.obj)[:80])
    if e.args:
        # begin(TIMING_SYNC) or begin with no features
        a = e.args[0]
        ok = True if is_num(a) and a.args[0] == 0 or a is EMPTYSEQ else (False if is_num(a) else None)
        ck.need(ok, "same-arguments", e, "begin gets %s" % show(a)[:80])


def simple(ck):
    B_ = lambda x: bterm(TRUE if x else FALSE)
    delegate(ck, "__apollo_region_end", "end", lambda s: [], True)
    delegate(ck, "__apollo_region_set_feature", "setFeature", lambda s: [argv(s, 1)], True)
    r = delegate(ck, "__apollo_region_get_policy", "getPolicyIndex", lambda s: [], True)
    if r:
        s, e = r
        ck.need(ck.same(s.res, e.res, e.guard), "policy-returned", s, "the caller gets %s" % show(s.res)[:100])
    delegate(ck, "__apollo_region_train", "train", lambda s: [argv(s, 1), B_(True), B_(False)], True)


def create(ck):
    s = ck.sum("__apollo_region_create", opaque=OPS)
    ev = s.calls(RG + "Region")
    if not ck.once("created", ev, TRUE, s, "one region is created", s.st.pc):
        return
    e = ev[0][0]
    ck.need(ck.same(s.res, e.obj), "created", s, "the caller gets %s" % show(s.res)[:80])
    names = ("number of features", "name", "number of policies", "minimum amount of training data", "model")
    for i, what in enumerate(names):
        a = e.args[i] if i < len(e.args) else UNDEF
        ck.need(ck.same(a, argv(s, i)), "same-arguments", e, "the %s of the region is %s" % (what, show(a)[:80]))
    if len(e.args) > 5:
        ck.need(ck.same(e.args[5], T("str", "")), "same-arguments", e, "a model file is given: %s" % show(e.args[5])[:60])
    dl = [x for x, _ in s.flat if x.kind == "delete"]
    ck.need(not dl, "created", s, "the region is deleted again")


def contextless(ck):
    """without a context the region's current execution is meant"""
    ops = {RG + "end", RG + "setFeature", RG + "getPolicyIndex"}
    cur = in_this("current_context")
    for qn, np, pt in ((RG + "end", 0, []), (RG + "end", 1, ["double"]), (RG + "setFeature", 1, None), (RG + "getPolicyIndex", 0, None)):
        s = ck.sum(qn, np, pt, opaque=ops, f=ck.prog().find(qn, np, pt))
        ev = [(e, l) for e, l in s.flat if e.name in ops]
        if not ev:
            continue        # inlined there: C01 and C02 decide the effect
        if not ck.once("current", ev, TRUE, s, "the call with a context", s.st.pc):
            continue
        for e, _ in ev:
            ck.need(e.name == qn, "current", e, "%s calls %s" % (qn, e.name))
            ck.need(ck.same(e.obj, addr(THIS)), "current", e, "on %s" % show(e.obj)[:60])
            want = [cur] + [argv(s, i) for i in range(np)]
            if len(e.args) != len(want):
                ck.need(False, "current", e, "with %s" % [show(x)[:40] for x in e.args])
                continue
            for a, b in zip(e.args, want):
                ck.need(ck.same(a, b), "current", e, "with %s instead of %s" % (show(a)[:80], show(b)[:80]))
            if s.res is not None and qn.endswith("getPolicyIndex"):
                ck.need(ck.same(s.res, e.res), "policy-returned", s, "the caller gets %s" % show(s.res)[:80])


def flush(ck):
    s = ck.sum("Apollo::flushAllRegionMeasurements", 1, opaque={"Apollo::train"})
    ev = s.calls("Apollo::train")
    if not ck.once("flush", ev, TRUE, s, "flushAllRegionMeasurements trains", s.st.pc):
        return
    e = ev[0][0]
    ck.need(ck.same(e.args[0], argv(s, 0)), "flush", e, "with step %s" % show(e.args[0])[:60])
    ck.need(ck.same_guard(truth(e.args[1]), TRUE) if len(e.args) > 1 else None, "flush", e, "pending executions are collected: %s" % show(e.args[1])[:60])


def check(ck):
    ck.assume.append("The C caller passes the pointer __apollo_region_create returned, and no null strings.")
    for f in (create, begin, simple, contextless, flush):
        ck.guarded(f, ck)
