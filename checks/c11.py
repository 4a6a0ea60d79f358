"""C11: training trains a trainable model once on all data collected for it."""
from common import *

PEND = "Apollo::Region::collectPendingContexts"
FIND = "Apollo::Dataset::findMinMetricPolicyByFeatures"
TRAINABLE, TRAIN, STORE = "apollo::PolicyModel::isTrainable", "apollo::PolicyModel::train", "apollo::PolicyModel::store"
KEEP = {TRAIN, TRAINABLE, STORE}


def aborts(s):
    g = FALSE
    for e, _ in s.kinds("abort", "throw"):
        g = g | e.guard
    return g


def c_region(ck):
    for config in ("default", "opencv"):
        s = ck.sum("Apollo::Region::train", 3, opaque={PEND, FIND, "apollo::ModelFactory::createRegressionTree"}, keeps=KEEP, config=config)
        force, coll = truth(argv(s, 2)), truth(argv(s, 1))
        qs = s.calls(TRAINABLE)
        tr = FALSE
        for e, _ in qs:
            ck.need(ck.same(e.obj, in_this("model")), "own-model", e, "asks %s" % show(e.obj)[:150])
            tr = tr | (truth(e.res) & e.guard)
        go = force | tr
        # pending executions are collected first
        ps = s.calls(PEND)
        ck.once("collects-pending", ps, go & coll, s, "collecting pending executions")
        some = cmp_(">", size(values.sel(in_this("dataset"), "data")), ZERO, True)
        ts = s.calls(TRAIN)
        per = on("APOLLO_REGION_MODEL")
        ck.once("trains-once", ts, go & some & per, s, "training the model")
        for e, _ in ts:
            ck.need(ck.same(e.obj, in_this("model")), "own-model", e, "trains %s" % show(e.obj)[:150])
            ck.need(ck.same(e.args[0], in_this("dataset")), "own-data", e, "trains with %s" % show(e.args[0])[:150])
            for q, _ in ps:
                ck.need(ck.before(s, q, e), "collects-first", e, "trains before the pending executions are collected")
        ck.need(ck.same(s.get("dataset"), in_this("dataset"), s.st.pc & ~on("APOLLO_RETRAIN_ENABLE")), "data-kept", s,
                "training changes the data of the region to %s" % show(s.get("dataset"))[:200])
        ab = aborts(s)
        ck.need(terms.implies(go & some & ~per, ab), "shared-model-refused", s, "trains a region on its own although the model is shared")
        ck.need(not terms.sat(ab & ~(go & some)), "no-training-no-error", s, "stops although there is nothing to train: %s" % showb(ab & ~(go & some))[:200])
        re = on("APOLLO_RETRAIN_ENABLE")
        ck.need(not terms.sat(ab & per & ~re), "training-succeeds", s, "stops although %s" % showb(ab & per & ~re)[:200])
        if config == "default":
            ck.need(terms.implies(go & some & per & re, ab), "retraining-needs-opencv", s, "goes on although retraining is not built in")
        # the stored model
        st = s.calls(STORE)
        want = go & some & per & on("APOLLO_STORE_MODELS")
        if config == "default":
            want = want & ~re
        both = [(e, l) for e, l in st if ck.same(e.obj, in_this("model"))]
        lat = [(e, l) for e, l in both if contains(e.args[0], lambda x: x.op == "str" and "latest" in x.args[0])]
        stp = [(e, l) for e, l in both if (e, l) not in lat]
        ck.once("stores-latest", lat, want, s, "storing the model as the latest one")
        ck.once("stores-step", stp, want, s, "storing the model of this step")
        rank = init(addr(("mem", in_this("apollo"))), "mpiRank")
        for e, _ in st:
            for t, _ in ts:
                ck.need(ck.before(s, t, e), "stores-trained", e, "stores the model before it is trained")
        for e, _ in both:
            nm = e.args[0]
            ps_ = nm.args if nm.op == "cat" else (nm,)
            ck.need(has_part(nm, in_this("name")) and has_part(nm, T("dec", rank)), "stored-apart", e,
                    "the file %s does not name region and rank" % show(nm)[:200])
            ck.need(ps_[0] is cfg("APOLLO_OUTPUT_DIR") and has_part(nm, cfg("APOLLO_MODELS_DIR")) or None, "stored-in-models", e, "stored as %s" % show(nm)[:200])
        for e, _ in stp:
            ck.need(has_part(e.args[0], T("dec", argv(s, 0))), "stored-per-step", e, "the file %s does not name the step" % show(e.args[0])[:200])


def has_part(t, x):
    return contains(t, lambda y: y is x)


def c_latest(ck):
    """what is stored as latest is what a region with the load option and no file name looks for"""
    s = ck.sum("Apollo::Region::train", 3, opaque={PEND, FIND}, keeps=KEEP)
    lat = [e for e, _ in s.calls(STORE) if contains(e.args[0], lambda x: x.op == "str" and "latest" in x.args[0])]
    c = region_ctor(ck)
    ld = [e for e, _ in c.calls("apollo::PolicyModel::load") if contains(e.args[0], lambda x: x.op == "str" and "latest" in x.args[0])]
    if not lat or not ld:
        ck.undecided("latest-found-again", s, "no latest file stored or loaded")
        return
    a = lat[0].args[0]
    for e in ld:
        for g, b in cases(e.args[0], e.guard):
            if not contains(b, lambda x: x.op == "str" and "latest" in x.args[0]):
                continue
            m = {in_this("name"): c.get("name"), sel(init(addr(("mem", in_this("model")))), "name"): T("modelname")}
            # the model's name is the name it is created by
            mn = deep(c.get("model_name"), g)
            if mn.op == "str":
                continue        # models without training
            a2 = strip(subst(a, m))
            b2 = strip(subst(deep(b, g), {mn: T("modelname")}))
            r = ck.same(a2, b2) if contains(b2, lambda x: x.op == "modelname") else None
            ck.need(r, "latest-found-again", e, "stored as %s, loaded from %s" % (show(a2)[:250], show(b2)[:250]))


def strip(t):
    """character strings and std::string alike; rank of the region's own Apollo"""
    m = {}
    for x in subterms(t):
        if x.op == "cstr":
            m[x] = x.args[0]
        if x.op == "dec":
            m[x] = T("dec", T("rank"))
    return subst(t, m)


def region_ctor(ck):
    p = ck.prog()
    f = next(x for x in p.by_qn["Apollo::Region::Region"] if len(x["p"]) >= 4)
    return ck.sum("Apollo::Region::Region", len(f["p"]), f=f, opaque={"apollo::ModelFactory::createPolicyModel",
                  "Apollo::Dataset::load", "Apollo::Region::train", "Apollo::Region::autoTrain"})


def c_all(ck):
    RT, GATHER = "Apollo::Region::train", "Apollo::gatherCollectiveTrainingData"
    for config in ("default", "mpi"):
        s = ck.sum("Apollo::train", 2, opaque={RT, GATHER}, keeps=KEEP, config=config)
        single, coll = on("APOLLO_SINGLE_MODEL"), on("APOLLO_COLLECTIVE_TRAINING")
        gs = s.calls(GATHER)
        ck.once("gathers-first", gs, coll, s, "gathering the data of all ranks")
        for g, _ in gs:
            for e, _ in s.calls(RT, TRAIN):
                ck.need(ck.before(s, g, e), "gathers-first", e, "trains before the data is gathered")
        regs = in_this("regions")
        each(ck, s, s.calls(RT), ~single, regs, "every-region-trained", lambda k: sel(elt(regs, k), "second"))
        for e, l in s.calls(RT):
            ck.need(ck.same(e.args[0], argv(s, 0)), "step-passed", e, "step %s" % show(e.args[0])[:100])
            ck.need(ck.same_guard(truth(e.args[1]), truth(argv(s, 1)), e.guard), "pending-passed", e, "collects pending executions: %s" % show(e.args[1])[:100])
            if len(e.args) > 2:
                ck.need(ck.same_guard(truth(e.args[2]), FALSE, e.guard), "not-forced", e, "trains untrainable models")
        # one data set for all
        ts = s.calls(TRAIN)
        if len(ts) != 1 or len(ts[0][1]) != 1:
            ck.undecided("shared-model", s, "%d trainings of a shared model" % len(ts))
            continue
        e, (lp,) = ts[0][0], ts[0][1]
        reg = init(addr(("mem", sel(elt(regs, lp.k), "second"))))
        ck.need(ck.same(e.obj, sel(reg, "model")), "every-shared-model", e, "trains %s" % show(e.obj)[:150])
        ck.need(ck.same(lp.n, size(regs)), "every-shared-model", e, "%s models trained" % show(lp.n)[:150])
        ck.whole(lp, "every-shared-model", e, "training of the models")
        qs = [q for q, l in s.calls(TRAINABLE) if l and l[0] is lp]
        tr = FALSE
        for q in qs:
            if ck.same(q.obj, sel(reg, "model")):
                tr = tr | (truth(q.res) & q.guard)
        merged = values.sel(e.args[0], "data")
        some = cmp_(">", size(merged), ZERO, True)
        inr = cmp_("<", lp.k, size(regs), True)
        care = cmp_(">=", lp.k, ZERO, True) & inr
        ck.need(ck.same_guard(e.guard, single & some & tr, care), "shared-model-trained", e, "trains when %s" % showb(e.guard)[:300])
        f = fold1(merged)
        if f is None:
            ck.undecided("all-data-merged", e, "merged data not understood")
            continue
        k, n, ini, step, acc = f
        ck.need(ck.same(n, size(regs)), "all-data-merged", e, "data of %s regions" % show(n)[:150])
        ck.need(ck.same(ini, T("mempty")), "all-data-merged", e, "starts from %s" % show(ini)[:150])
        ins = ck.sum("Apollo::Dataset::insert", 1, config=config)
        src = sel(init(addr(("mem", sel(elt(regs, k), "second")))), "dataset")
        A, K = T("merged_so_far"), T("k", "merge")
        want = plug(plug(values.sel(whole(ins), "data"), rec(UNDEF, (("data", A),))), src, argp(ins, 0).args[0])
        ck.need(same_fold(ck, subst(step, {acc: A}), want), "all-data-merged", e, "a region adds %s" % show(step)[:200])


def same_fold(ck, a, b):
    """the same accumulation, up to the names of counter and accumulator"""
    x, y = fold1(a), fold1(b)
    if x is None or y is None:
        return ck.same(a, b)
    K, A = T("k", "common"), T("common_acc")
    r = [ck.same(x[1], y[1]), ck.same(x[2], y[2]), ck.same(subst(x[3], {x[0]: K, x[4]: A}), subst(y[3], {y[0]: K, y[4]: A}))]
    return False if False in r else (None if None in r else True)


def each(ck, s, evs, when, regs, rule, obj):
    if len(evs) != 1 or len(evs[0][1]) != 1:
        ck.need(None if evs else False, rule, s, "%d calls" % len(evs))
        return
    e, (lp,) = evs[0][0], evs[0][1]
    ck.need(ck.same(lp.n, size(regs)), rule, e, "%s regions" % show(lp.n)[:150])
    ck.whole(lp, rule, e, "training of the regions")
    ck.need(ck.same(e.obj, obj(lp.k)), rule, e, "region %s" % show(e.obj)[:150])
    inr = cmp_(">=", lp.k, ZERO, True) & cmp_("<", lp.k, size(regs), True)
    ck.need(ck.same_guard(e.guard, when, inr), rule, e, "only when %s" % showb(e.guard)[:200])


def check(ck):
    ck.guarded(c_region, ck)
    ck.guarded(c_latest, ck)
    ck.guarded(c_all, ck)
