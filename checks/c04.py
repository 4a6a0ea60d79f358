"""C04: what is learnt from the data is, per feature vector, a policy with the least recorded metric."""
from common import *

FIND = "Apollo::Dataset::findMinMetricPolicyByFeatures"


def entry(m, k):
    e = elt(m, k)
    return sel(sel(e, "first"), "first"), sel(sel(e, "first"), "second"), sel(e, "second")


def c_min(ck):
    s = ck.sum(FIND, 3)
    m = in_this("data")
    best = s.read(argp(s, 2))
    f = fold1(best)
    if f is None:
        ck.need(None, "least-metric", s, "the table of best policies is %s" % show(best)[:400])
    else:
        k, n, iv, step, acc = f
        ck.need(ck.same(n, size(m), s.st.pc), "all-entries-considered", s,
                "considers %s of %s entries" % (show(n), show(size(m))))
        ck.need(ck.same(iv, MEMPTY, s.st.pc), "starts-empty", s, "the search starts from %s" % show(iv)[:300])
        feat, pol, met = entry(m, k)
        rng = cmp_(">=", k, ZERO, True) & cmp_("<", k, n, True)
        old = mget(acc, feat)
        new = mkpair(pol, met)
        h = has(acc, feat)
        lt, gt = cmp_("<", met, sel(old, "second"), False), cmp_(">", met, sel(old, "second"), False)
        for care, opts, what in ((rng & ~h, [new], "the first policy seen for a feature vector"),
                                 (rng & h & lt, [new], "a policy with a smaller metric"),
                                 (rng & h & gt, [old], "a policy with a larger metric"),
                                 (rng & h & ~lt & ~gt, [old, new], "a policy with the same metric")):
            rs = [same_map(ck, step, mset(acc, feat, o), [feat], care) for o in opts]
            rs += [same_map(ck, step, acc, [feat], care)] if old in opts else []
            ck.need(True if any(rs) else (None if None in rs else False), "least-metric", s,
                    "%s leads to %s" % (what, show(deep(step, care))[:500]))
    k2 = T("k", "best")
    for i, path, what in ((0, ("first",), "feature vectors"), (1, ("second", "first"), "policies")):
        v = elt(best, k2)
        for p in path:
            v = sel(v, p)
        want = concat(argv(s, i), seq((T("comp", k2, size(best), (T("item", v),)),)))
        got = s.read(argp(s, i))
        ck.need(ck.same(got, want, s.st.pc), "training-set-is-best", s,
                "the %s to learn from are %s" % (what, show(got)[:500]))
    ck.need(ck.same(s.get("data"), m, s.st.pc), "data-kept", s, "the recorded data changes")


def outs(e, i):
    return T("out", FIND, i, *e.res.args[1:])


def learns(ck, cls, impl, member, config="default"):
    s = ck.sum("apollo::%s::train" % cls, 1, opaque={FIND, impl + "::train"}, config=config)
    fs = s.calls(FIND)
    ck.once("search-once", fs, TRUE, s, "searching the best policies", s.st.pc)
    ts = s.calls(impl + "::train")
    ck.once("learns-once", ts, TRUE, s, "building the tree model", s.st.pc)
    for e, _ in fs:
        ck.need(ck.same(e.obj, argp(s, 0), e.guard), "given-data-searched", e, "searches %s" % show(e.obj)[:200])
        for t, _ in ts:
            ck.need(ck.same(t.obj, in_this(member), t.guard), "own-tree-built", t, "builds %s" % show(t.obj)[:200])
            for i in (0, 1):
                ck.need(ck.same(t.args[i], outs(e, i), t.guard), "learns-best", t,
                        "learns from %s" % show(t.args[i])[:300])
    got = s.read(argp(s, 0))
    ck.need(ck.same(got, argv(s, 0), s.st.pc), "data-kept", s, "training changes the data")


def c_trees(ck):
    learns(ck, "DecisionTree", "DecisionTreeImpl", "dtree")
    learns(ck, "RandomForest", "RandomForestImpl", "rfc")
    learns(ck, "DecisionTree", "DecisionTreeImpl", "dtree", "jit")


def c_map(ck):
    s = ck.sum("apollo::DatasetMap::train", 1, opaque={FIND})
    fs = s.calls(FIND)
    ck.once("search-once", fs, TRUE, s, "searching the best policies", s.st.pc)
    got = s.get("best_policies")
    for e, _ in fs:
        ck.need(ck.same(e.obj, argp(s, 0), e.guard), "given-data-searched", e, "searches %s" % show(e.obj)[:200])
        ok = ck.same(got, outs(e, 2), s.st.pc)
        if got.op == "mmerge" and got.args[0] is in_this("best_policies"):
            ok = False          # entries of an earlier training win
        ck.need(ok, "map-is-best", s, "the map becomes %s" % show(got)[:300])
    s = ck.sum("apollo::DatasetMap::getIndex", 1)
    b, f = in_this("best_policies"), argv(s, 0)
    ck.need(ck.same_guard(s.st.pc, has(b, f)), "unknown-features-abort", s,
            "answers when %s" % showb(s.st.pc)[:300])
    ck.need(ck.same(s.res, sel(mget(b, f), "first"), s.st.pc & has(b, f)), "map-answers-best", s,
            "answers %s" % show(s.res)[:300])


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::Dataset", "data", False))
    for f in (c_min, c_trees, c_map):
        ck.guarded(f, ck)
    ck.guarded(ck.keys, "whole-key", "Apollo::Dataset", "data")
    ck.guarded(ck.keys, "whole-key", "apollo::DatasetMap", "best_policies")
