"""C12: automatic training happens exactly at its configured triggers, once, and never from within itself."""
from common import *

PEND = "Apollo::Region::collectPendingContexts"
RT, AT = "Apollo::Region::train", "Apollo::train"
TRAINABLE = "apollo::PolicyModel::isTrainable"
OPQ = {RT, AT}


def zmod(a, b):
    return cmp_("==", mod(a, b), ZERO, True)


def triggers(ck, s, tr, execs, idx, n, w, care, loops=()):
    """the three triggers, in this order"""
    gp, rp, mt = cfg("APOLLO_GLOBAL_TRAIN_PERIOD"), cfg("APOLLO_PER_REGION_TRAIN_PERIOD"), in_this("min_training_data")
    G = on("APOLLO_GLOBAL_TRAIN_PERIOD") & zmod(execs, gp)
    R = on("APOLLO_PER_REGION_TRAIN_PERIOD") & zmod(idx, rp)
    M = cmp_("<", ZERO, mt, True) & cmp_("<=", mt, n, True)
    return tr & G, tr & ~G & (R | M)


def c_end(ck):
    for config in ("default", "mpi", "opencv"):
        s = ck.sum("Apollo::Region::end", 2, opaque=OPQ | {PEND}, pure={TRAINABLE}, config=config)
        tr = FALSE
        for e, _ in s.calls(TRAINABLE):
            if ck.same(e.obj, in_this("model")):
                tr = truth(e.res)
        ex = init(addr(("mem", in_this("apollo"))), "region_executions")
        done = s.read(field_ptr(addr(("mem", in_this("apollo"))), "region_executions"))
        idx = s.get("idx")
        n = size(values.sel(s.get("dataset"), "data"))
        g, r = triggers(ck, s, tr, add(ex, ONE), idx, n, s, TRUE)
        ats, rts = s.calls(AT), s.calls(RT)
        # a negative training threshold is the same as none; sizes are never negative
        ck.once("global-trigger", ats, g, s, "training all regions")
        ck.once("region-trigger", rts, r, s, "training the region")
        for e, _ in ats:
            ck.need(ck.same(e.obj, in_this("apollo"), e.guard), "global-trigger", e, "trains %s" % show(e.obj)[:150])
            ck.need(ck.same_guard(truth(e.args[1]), FALSE, e.guard), "no-reentry", e, "automatic training collects pending executions, which train again")
            ck.need(ck.same(e.args[0], add(ex, ONE), e.guard), "step-passed", e, "step %s" % show(e.args[0])[:100])
        for e, _ in rts:
            ck.need(ck.same(e.obj, addr(THIS), e.guard), "region-trigger", e, "trains %s" % show(e.obj)[:150])
            ck.need(ck.same_guard(truth(e.args[1]), FALSE, e.guard), "no-reentry", e, "automatic training collects pending executions, which train again")
            if len(e.args) > 2:
                ck.need(ck.same_guard(truth(e.args[2]), FALSE, e.guard), "not-forced", e, "automatic training is forced")
            ck.need(ck.same(e.args[0], idx, e.guard), "step-passed", e, "step %s" % show(e.args[0])[:100])


def c_load(ck):
    """data restored at construction counts for the triggers"""
    p = ck.prog()
    f = next(x for x in p.by_qn["Apollo::Region::Region"] if len(x["p"]) >= 4)
    LOAD = "Apollo::Dataset::load"
    s = ck.sum("Apollo::Region::Region", len(f["p"]), f=f, pure={TRAINABLE}, writes={LOAD},
               opaque=OPQ | {"apollo::ModelFactory::createPolicyModel", "Apollo::instance"})
    ats, rts, lds = s.calls(AT), s.calls(RT), s.calls(LOAD)
    per = on("APOLLO_PERSISTENT_DATASETS")
    for e, _ in ats + rts:
        ck.need(ck.before(s, lds[0][0], e) if lds else None, "restores-first", e, "trains before the stored data is restored")
    # restored data counts for the triggers
    auto = lambda es: [(e, l) for e, l in es if not terms.sat(truth(e.args[1]) & e.guard)]
    trs = {truth(e.res) for e, _ in s.calls(TRAINABLE)}
    exs = {x for e, _ in auto(ats) for t in terms.batoms(e.guard) for y in subterms(t) if y.op == "mod" for x in (y.args[0],)}
    if len(trs) != 1 or len(exs) != 1 or not lds or lds[0][1]:
        ck.undecided("restored-data-counts", s, "triggers at construction not recognised")
    else:
        (tr,), (ex,), ld = trs, exs, lds[0][0]
        n = size(values.sel(T("out", LOAD, -1, *ld.res.args[1:]), "data"))
        gp, rp, mt = cfg("APOLLO_GLOBAL_TRAIN_PERIOD"), cfg("APOLLO_PER_REGION_TRAIN_PERIOD"), s.get("min_training_data")
        G = on("APOLLO_GLOBAL_TRAIN_PERIOD") & zmod(ex, gp)
        M = cmp_("<", ZERO, mt, True) & cmp_("<=", mt, n, True)
        care = s.st.pc & per & ld.guard
        ck.once("restored-data-counts", auto(ats), tr & G, s, "training all regions after restoring data", care)
        ck.once("restored-data-counts", auto(rts), tr & ~G & (on("APOLLO_PER_REGION_TRAIN_PERIOD") | M), s,
                "training the region after restoring data", care)
    # started with the load-dataset option: trains whatever its size
    forced = [(e, l) for e, l in rts if e.args[0] is ZERO and terms.sat(e.guard & ~per)]
    for e, _ in forced:
        hs = [x for t in terms.batoms(e.guard) for x in subterms(t) if x.op == "str" and x.args[0] == "load-dataset"]
        ck.need(bool(hs) or None, "load-dataset-trains", e, "trains at construction when %s" % showb(e.guard)[:200])
    if not forced:
        ck.undecided("load-dataset-trains", s, "no training at construction")


def c_destructor(ck):
    s = ck.sum("Apollo::Region::~Region", 0, opaque=OPQ, pure={TRAINABLE})
    ats = [(e, l) for e, l in s.calls(AT) if terms.sat(e.guard)]
    for e, _ in ats:
        ck.need(False if understood(bterm(e.guard)) else None, "no-global-training-at-end", e,
                "a region being destroyed trains all regions, some of which are already gone")
    if not ats:
        ck.ok("no-global-training-at-end", s, "the destructor never trains all regions")
    for e, _ in s.calls(RT):
        ck.need(ck.same_guard(truth(e.args[1]), FALSE, e.guard), "no-reentry", e, "automatic training collects pending executions, which train again")


def c_training_collects(ck):
    """training without collection of pending executions never ends an execution"""
    INS, CC = "Apollo::Dataset::insert", "Apollo::Region::collectContext"
    s = ck.sum(RT, 3, opaque={PEND, "Apollo::Dataset::findMinMetricPolicyByFeatures"})
    coll = truth(argv(s, 1))
    for e, _ in s.calls(PEND, CC):
        ck.need(not terms.sat(e.guard & ~coll), "collects-only-on-request", e, "training ends executions when %s" % showb(e.guard & ~coll)[:200])
    s = ck.sum(AT, 2, opaque={RT, "Apollo::gatherCollectiveTrainingData", PEND})
    for e, _ in s.calls(PEND, CC):
        ck.need(not terms.sat(e.guard & ~truth(argv(s, 1))), "collects-only-on-request", e, "training ends executions when %s" % showb(e.guard)[:200])
    ck.ok("collects-only-on-request", s, "training ends no execution by itself")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::Region", "min_training_data", False), ("Apollo::Region", "idx", False), ("Apollo",
               "region_executions", False))
    ck.guarded(c_end, ck)
    ck.guarded(c_load, ck)
    ck.guarded(c_destructor, ck)
    ck.guarded(c_training_collects, ck)
