"""C01: the policy an execution gets is the model's choice for its own features."""
from common import *

GETINDEX = "apollo::PolicyModel::getIndex"


def choice(ck, s, ctx):
    """one question to the region's model about the features of ctx; the answer is returned and recorded"""
    evs = s.calls(GETINDEX)
    feats = init(ctx, "features")
    if not ck.once("model-asked-once", evs, TRUE, s, "the model is asked for an index", s.st.pc):
        return
    res = UNDEF
    for e, loops in evs:
        ck.need(ck.same(e.obj, in_this("model"), e.guard), "region-model-asked", e,
                "the index comes from %s, not from the region's model" % show(e.obj))
        ck.need(ck.same(e.args[0], feats, e.guard), "own-features-passed", e,
                "the model gets %s instead of the features of the execution" % show(e.args[0]))
        res = join(e.guard, e.res, res)
    ck.need(ck.same(s.res, res, s.st.pc), "choice-returned", s,
            "returns %s instead of the model's choice" % show(s.res))
    pol = s.read(field_ptr(ctx, "policy"))
    ck.need(ck.same(pol, res, s.st.pc), "choice-recorded", s,
            "the recorded policy is %s instead of the model's choice" % show(pol))
    f2 = s.read(field_ptr(ctx, "features"))
    ck.need(ck.same(f2, feats, s.st.pc), "features-kept", s, "the features of the execution change: %s" % show(f2))


def c_choice(ck):
    s = ck.sum("Apollo::Region::getPolicyIndex", 1, keeps={GETINDEX})
    choice(ck, s, argv(s, 0))


def c_choice_deprecated(ck):
    s = ck.sum("Apollo::Region::getPolicyIndex", 0, keeps={GETINDEX})
    choice(ck, s, in_this("current_context"))


def c_feature(ck):
    s = ck.sum("Apollo::Region::setFeature", 2)
    one_feature(ck, s, argv(s, 0), argv(s, 1))


def c_feature_deprecated(ck):
    s = ck.sum("Apollo::Region::setFeature", 1)
    one_feature(ck, s, in_this("current_context"), argv(s, 0))


def one_feature(ck, s, ctx, v):
    got = s.read(field_ptr(ctx, "features"))
    want = append(init(ctx, "features"), v)
    ck.need(ck.same(got, want, s.st.pc), "feature-appended", s,
            "the features become %s instead of the old ones followed by the new value" % show(got))


def begin(ck, config, np, pt, feats):
    s = ck.sum("Apollo::Region::begin", np, pt, config=config)
    n = 0
    for g, p in cases(s.res, s.st.pc):
        n += 1
        ck.need(False if p.op in ("null", "undef") else True, "context-given", s, "begin returns no context when %s" % showb(g))
        if p.op in ("null", "undef"):
            continue
        got = s.read(field_ptr(p, "features"))
        want = feats(s)
        ck.need(ck.same(got, want, g), "features-start", s,
                "an execution starts with features %s instead of %s" % (show(got), show(want)))
        got = s.read(field_ptr(p, "idx"))
        ck.need(ck.same(got, in_this("idx"), g), "execution-index", s,
                "the execution is numbered %s" % show(got))
        got = s.get("current_context")
        ck.need(ck.same(got, p, g), "current-context", s, "the current execution is %s" % show(got))
    got = s.get("idx")
    ck.need(ck.same(got, add(in_this("idx"), ONE), s.st.pc), "executions-counted", s,
            "the number of begun executions becomes %s" % show(got))
    ck.once("timer-started-once", s.calls("Apollo::Timer::start"), TRUE, s, "starting the timer", s.st.pc)
    for e, _ in s.calls("Apollo::Timer::start"):
        t = s.read(field_ptr(s.res, "timer"))
        ck.need(ck.same(e.obj, t, e.guard & s.st.pc), "own-timer-started", e, "starts %s, not the timer of the context" % show(e.obj))
    ck.need(not s.calls(GETINDEX), "no-choice-at-begin", s, "the model is asked before the features are known")


def c_begin(ck):
    begin(ck, "default", 0, [], lambda s: EMPTYSEQ)
    begin(ck, "default", 1, ["TimingKind"], lambda s: EMPTYSEQ)
    begin(ck, "default", 1, ["vector"], lambda s: argv(s, 0))


def c_begin_cuda(ck):
    begin(ck, "cuda", 1, ["TimingKind"], lambda s: EMPTYSEQ)


def c_begin_hip(ck):
    begin(ck, "hip", 1, ["TimingKind"], lambda s: EMPTYSEQ)


def c_models(ck):
    """no model changes the features it is asked about"""
    p = ck.prog()
    fs = p.overriders(GETINDEX)
    if len(fs) < 6:
        raise AnalysisError("only %d models found" % len(fs))
    for f in fs:
        s = ck.sum(f["qn"], f=f, keeps={GETINDEX}, opaque={"DecisionTreeImpl::predict", "RandomForestImpl::predict",
                                                          "apollo::Net::forward"})
        got = s.read(argp(f, 0))
        ck.need(ck.same(got, argv(f, 0), s.st.pc), "model-keeps-features", s,
                "choosing an index changes the features to %s" % show(got))


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::RegionContext", "policy", False), ("Apollo::RegionContext", "features", False), ("Apollo::Region",
               "idx", False))
    for f in (c_choice, c_choice_deprecated, c_feature, c_feature_deprecated, c_begin, c_begin_cuda, c_begin_hip,
              c_models):
        ck.guarded(f, ck)
