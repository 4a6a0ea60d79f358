"""C03: the data of a region maps (features, policy) to the metric: first value kept, later ones averaged in."""
from common import *

INSERT = "Apollo::Dataset::insert"


def inserted(m, key, x):
    old = mget(m, key)
    return join(has(m, key), mset(m, key, mul(num(Fraction(1, 2)), add(old, x))), mset(m, key, x))


def c_insert(ck):
    s = ck.sum(INSERT, 3)
    m = in_this("data")
    key = mkpair(argv(s, 0), argv(s, 1))
    got = s.get("data")
    ck.need(same_map(ck, got, inserted(m, key, argv(s, 2)), [key], s.st.pc), "insert-averages", s,
            "the stored data becomes %s" % show(got)[:600])


def c_merge(ck):
    s = ck.sum(INSERT, 1)
    src = sel(argv(s, 0), "data")
    got = s.get("data")
    f = fold1(got)
    if f is None:
        ck.need(None if got is not in_this("data") else False, "merge-inserts-all", s, "merging yields %s" % show(got)[:400])
    else:
        k, n, iv, step, acc = f
        ck.need(ck.same(n, size(src), s.st.pc), "merge-inserts-all", s,
                "merging inserts %s of %s entries" % (show(n), show(size(src))))
        ck.need(ck.same(iv, in_this("data"), s.st.pc), "merge-keeps-own", s, "merging starts from %s" % show(iv)[:300])
        e = elt(src, k)
        key = mkpair(sel(sel(e, "first"), "first"), sel(sel(e, "first"), "second"))
        care = cmp_(">=", k, ZERO, True) & cmp_("<", k, n, True)
        ck.need(same_map(ck, step, inserted(acc, key, sel(e, "second")), [key], care), "merge-inserts-each", s,
                "merging an entry makes the data %s" % show(step)[:600])
    after = s.read(field_ptr(argp(s, 0), "data"))
    ck.need(ck.same(after, src, s.st.pc), "merge-leaves-source", s, "the merged data set changes: %s" % show(after)[:300])


def c_views(ck):
    s = ck.sum("Apollo::Dataset::size", 0)
    ck.need(ck.same(s.res, size(in_this("data")), s.st.pc), "size-is-entries", s, "size is %s" % show(s.res))
    ck.need(ck.same(s.get("data"), in_this("data"), s.st.pc), "size-pure", s, "asking for the size changes the data")
    s = ck.sum("Apollo::Dataset::clear", 0)
    got = s.get("data")
    ck.need(ck.same(got, MEMPTY, s.st.pc), "clear-empties", s, "clearing leaves %s" % show(got)[:300])
    s = ck.sum("Apollo::Dataset::toVectorOfTuples", 0)
    m = in_this("data")
    k = T("k", "tup")
    e = elt(m, k)
    want = seq((T("comp", k, size(m), (T("item", rec(UNDEF, {0: sel(sel(e, "first"), "first"),
                                                            1: sel(sel(e, "first"), "second"),
                                                            2: sel(e, "second")})),)),))
    want2 = subst_keys(want)
    r = ck.same(s.res, want, s.st.pc)
    ck.need(r if r or r is None else ck.same(s.res, want2, s.st.pc), "export-is-entries", s,
            "the exported entries are %s" % show(s.res)[:500])


def subst_keys(t):
    """tuple slots written as text"""
    def f(x):
        if x.op == "rec":
            return T("rec", f(x.args[0]), tuple((str(a), f(b)) for a, b in x.args[1]))
        return terms.rebuild(x, f)
    return f(t)


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::Dataset", "data", False))
    for f in (c_insert, c_merge, c_views):
        ck.guarded(f, ck)
    ck.guarded(ck.keys, "whole-key", "Apollo::Dataset", "data")
