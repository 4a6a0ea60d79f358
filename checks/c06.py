"""C06: a learning model asks its explorer until it was trained or loaded, and from then on only its own predictor."""
from common import *

ASK = "apollo::PolicyModel::getIndex"
MODELS = (("DecisionTree", "DecisionTreeImpl", "dtree", 3, 2, "DTrees"), ("RandomForest", "RandomForestImpl", "rfc", 4, 3, "RTrees"))
FIND = "Apollo::Dataset::findMinMetricPolicyByFeatures"


def ops(impl):
    return {impl + "::" + m for m in ("predict", "train", "load", "save", impl)} | {FIND}


def trained(s):
    """is the model trainable, as seen by its own query"""
    return s


def flag(ck, cls, impl, config):
    s = ck.sum("apollo::%s::isTrainable" % cls, 0, opaque=ops(impl), config=config)
    return s, truth(s.res)


def predictors(s):
    return [(e, l) for e, l in s.flat if e.name.endswith("::predict")]


def answers(ck, cls, impl, member, config):
    q, tr = flag(ck, cls, impl, config)
    s = ck.sum("apollo::%s::getIndex" % cls, 1, opaque=ops(impl), config=config)
    es, ps = s.calls(ASK), predictors(s)
    ck.once("explores-until-trained", es, tr, s, "asking the explorer", s.st.pc)
    ck.once("predicts-once-trained", ps, ~tr, s, "asking the predictor", s.st.pc)
    ck.need(ck.same_guard(s.st.pc, TRUE), "always-answers", s, "does not answer unless %s" % showb(s.st.pc)[:200])
    want = UNDEF
    for e, _ in es:
        ck.need(ck.same(e.obj, in_this("explorer"), e.guard), "own-explorer", e, "asks %s" % show(e.obj)[:200])
        ck.need(ck.same(e.args[0], argv(s, 0), e.guard), "own-features", e, "asks about %s" % show(e.args[0])[:200])
        want = join(e.guard, e.res, want)
    for e, _ in ps:
        ck.need(ck.same(e.obj, in_this(member), e.guard), "own-predictor", e, "asks %s" % show(e.obj)[:200])
        a = e.args[0]
        if config == "default":
            ck.need(ck.same(a, argv(s, 0), e.guard), "own-features", e, "asks about %s" % show(a)[:200])
        else:
            ck.need(contains(a, lambda x: x is argv(s, 0)) or None, "own-features", e, "asks about %s" % show(a)[:200])
        want = join(e.guard, e.res, want)
    ck.need(ck.same(s.res if config == "default" else untrunc(s.res), want, s.st.pc), "answer-returned", s, "answers %s" % show(s.res)[:300])


def untrunc(t):
    """OpenCV predicts a policy as a float"""
    if t.op == "trunc":
        return untrunc(t.args[0])
    return terms.rebuild(t, untrunc)


def after(ck, s, q, want, what):
    """the query's answer on the object s leaves behind"""
    got = plug(bterm(truth(q.res)), whole(s))
    ck.need(ck.same(got, bterm(want), s.st.pc), "trainable-" + what, s, "after %s it can be trained: %s" % (what, show(got)[:200]))


def states(ck, cls, impl, member, np, xi, cv, config):
    q, tr = flag(ck, cls, impl, config)
    ck.need(ck.same(whole(q), T("in", (THIS, ())), q.st.pc), "query-pure", q, "asking changes the model")
    s = ck.sum("apollo::%s::%s" % (cls, cls), np, opaque=ops(impl), config=config)
    after(ck, s, q, TRUE, "construction")
    ck.need(ck.same(s.get("explorer"), argv(s, xi), s.st.pc), "explorer-kept", s, "explores with %s" % show(s.get("explorer"))[:200])
    s = ck.sum("apollo::%s::%s" % (cls, cls), 2, opaque=ops(impl), config=config)
    after(ck, s, q, FALSE, "construction-from-file")
    s = ck.sum("apollo::%s::train" % cls, 1, opaque=ops(impl), config=config)
    after(ck, s, q, FALSE, "training")
    ck.need(ck.same(s.get("explorer"), in_this("explorer"), s.st.pc), "explorer-kept", s, "training changes the explorer")
    s = ck.sum("apollo::%s::load" % cls, 1, opaque=ops(impl), config=config)
    after(ck, s, q, FALSE, "loading")
    s = ck.sum("apollo::%s::store" % cls, 1, opaque=ops(impl), config=config)
    ck.need(ck.same(whole(s), T("in", (THIS, ())), s.st.pc), "store-pure", s, "storing changes the model")


def files(ck, cls, impl, member, cv, config):
    """load and store go to the predictor with the given file name"""
    s = ck.sum("apollo::%s::load" % cls, 1, opaque=ops(impl), config=config)
    if config == "default":
        es = s.calls(impl + "::load")
        ck.once("loads-predictor", es, TRUE, s, "loading the predictor", s.st.pc)
        for e, _ in es:
            ck.need(ck.same(e.obj, in_this(member), e.guard), "loads-predictor", e, "loads into %s" % show(e.obj)[:200])
            ck.need(ck.same(e.args[0], argv(s, 0), e.guard), "loads-given-file", e, "loads %s" % show(e.args[0])[:200])
    else:
        es = [(e, l) for e, l in s.flat if e.name.startswith("cv::ml::") and e.name.endswith("::load")]
        ck.once("loads-predictor", es, TRUE, s, "loading the predictor", s.st.pc)
        for e, _ in es:
            ck.need(ck.same(s.get(member), e.res, s.st.pc), "loads-predictor", e,
                    "the loaded predictor is discarded, the model keeps %s" % show(s.get(member))[:200])
            ck.need(ck.same(e.args[0], argv(s, 0), e.guard), "loads-given-file", e, "loads %s" % show(e.args[0])[:200])
    s = ck.sum("apollo::%s::store" % cls, 1, opaque=ops(impl), config=config)
    es = [(e, l) for e, l in s.flat if e.name.endswith("::save")]
    ck.once("stores-predictor", es, TRUE, s, "storing the predictor", s.st.pc)
    for e, _ in es:
        ck.need(ck.same(e.obj, in_this(member), e.guard), "stores-predictor", e, "stores %s" % show(e.obj)[:200])
        ck.need(ck.same(e.args[0], argv(s, 0), e.guard), "stores-given-file", e, "stores to %s" % show(e.args[0])[:200])


def depth(ck, cls, impl, np, config):
    """the configured sizes reach the predictor"""
    s = ck.sum("apollo::%s::%s" % (cls, cls), np, opaque=ops(impl), config=config)
    es = [(e, l) for e, l in s.flat if e.kind == "ctor" and e.name.split("::")[-1] == impl]
    ck.once("predictor-built", es, TRUE, s, "building the predictor", s.st.pc)
    for e, _ in es:
        for i in range(np - 1):
            ck.need(ck.same(e.args[i], argv(s, i), e.guard), "predictor-parameters", e,
                    "parameter %d of the predictor is %s" % (i, show(e.args[i])[:200]))
    s = ck.sum("apollo::%s::%s" % (cls, cls), 2, opaque=ops(impl), config=config)
    es = [(e, l) for e, l in s.flat if e.kind == "ctor" and e.name.split("::")[-1] == impl]
    ck.once("predictor-built", es, TRUE, s, "building the predictor", s.st.pc)
    for e, _ in es:
        for i in range(2):
            ck.need(ck.same(e.args[i], argv(s, i), e.guard), "predictor-parameters", e,
                    "parameter %d of the predictor is %s" % (i, show(e.args[i])[:200]))
    # a missing file is an error
    ab = FALSE
    for e, _ in s.kinds("abort", "throw"):
        ab = ab | e.guard
    ck.need(terms.sat(ab), "missing-file-aborts", s, "goes on although the model file is missing")


def c_answers(ck):
    for config in ("default", "opencv"):
        for cls, impl, member, np, xi, cv in MODELS:
            answers(ck, cls, impl, member, config)
            states(ck, cls, impl, member, np, xi, cv, config)
            files(ck, cls, impl, member, cv, config)
            if config == "default":
                depth(ck, cls, impl, np, config)


def c_net(ck):
    """a policy net can always be trained; a map never through the region"""
    q = ck.sum("apollo::PolicyNet::isTrainable", 0)
    c = ck.sum("apollo::PolicyNet::PolicyNet", 7, opaque={"apollo::FCLayer::FCLayer"})
    after(ck, c, q, TRUE, "construction")
    for m in ("train", "load", "store", "getIndex"):
        s = ck.sum("apollo::PolicyNet::" + m, 1, opaque={"apollo::Net::forward", "apollo::PolicyNet::trainNet"})
        got = plug(bterm(truth(q.res)), whole(s))
        ck.need(ck.same(got, bterm(truth(q.res)), s.st.pc), "net-stays-trainable", s, "%s changes whether the net can be trained" % m)
    q = ck.sum("apollo::DatasetMap::isTrainable", 0)
    ck.need(ck.same(bterm(truth(q.res)), bterm(FALSE), q.st.pc), "map-not-trainable", q, "a map is trainable: %s" % show(q.res))


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("apollo::DatasetMap", "best_policies", False), ("apollo::PolicyModel", "policy_count", False))
    ck.guarded(c_answers, ck)
    ck.guarded(c_net, ck)
