"""C08: a random forest has the configured number of trees, each learned from resampled examples, and answers by majority."""
from common import *
from c07 import identical

RF, DT = "RandomForestImpl", "DecisionTreeImpl"
CT = DT + "::" + DT
ASK = DT + "::predict"


def rename(t, a, b):
    return subst(t, {a: b})


def c_train(ck):
    for qn, np, config in ((RF + "::train", 2, "default"), (RF + "::" + RF, 5, "default"), (RF + "::train", 2, "jit"), (RF + "::" + RF, 5, "jit")):
        s = ck.sum(qn, np, opaque={CT}, config=config)
        ix = [k for k in range(np) if "vector" in s.f["p"][k]["t"]]
        X, Y = argv(s, ix[0]), argv(s, ix[1])
        nt, md, nc = s.get("num_trees"), s.get("max_depth"), s.get("num_classes")
        if np == 5:
            for f, i in (("num_classes", 0), ("num_trees", 3), ("max_depth", 4)):
                ck.need(ck.same(s.get(f), argv(s, i)), "sizes-kept", s, "%s is %s" % (f, show(s.get(f))[:100]))
        else:
            for f in ("num_classes", "num_trees", "max_depth"):
                ck.need(ck.same(s.get(f), in_this(f)), "sizes-kept", s, "training changes %s" % f)
        rfc = s.get("rfc")
        ck.need(ck.same(size(rfc), nt, s.st.pc), "number-of-trees", s, "the forest has %s trees" % show(size(rfc))[:200])
        es = [(e, l) for e, l in s.flat if e.kind == "ctor" and e.name.split("::")[-1] == DT]
        if len(es) != 1 or len(es[0][1]) != 1:
            ck.undecided("trees", s, "%d constructions of trees" % len(es))
            continue
        e, (lp,) = es[0][0], es[0][1]
        ck.need(ck.same(lp.n, nt), "number-of-trees", e, "%s trees are built" % show(lp.n)[:200])
        ck.whole(lp, "number-of-trees", e, "building of the trees")
        # the forest holds exactly the trees built now
        i = T("anytree")
        care = cmp_(">=", i, ZERO, True) & cmp_("<", i, nt, True)
        ck.need(ck.same(elt(rfc, i), subst(e.obj, {lp.k: i}), care), "own-trees", e, "tree i of the forest is %s" % show(elt(rfc, i))[:200])
        if len(e.args) != 4:
            ck.undecided("trees", e, "tree built from %d arguments" % len(e.args))
            continue
        cl, fs, rs, d = e.args
        ck.need(ck.same(cl, nc), "tree-policies", e, "the trees know %s policies" % show(cl)[:100])
        ck.need(ck.same(d, md), "tree-depth", e, "the trees have depth %s" % show(d)[:100])
        j = T("anysample")
        n = size(X)
        jc = cmp_(">=", j, ZERO, True) & cmp_("<", j, n, True)
        ck.need(ck.same(size(fs), n), "sample-size", e, "a tree learns from %s examples" % show(size(fs))[:150])
        ck.need(ck.same(size(rs), n), "sample-size", e, "a tree learns %s policies" % show(size(rs))[:150])
        f, r = deep(elt(fs, j), jc), deep(elt(rs, j), jc)
        own = [x for g, x in cases(f) if x.op == "elt" and not contains(x.args[1], lambda t: t.op == "draw") and
               understood(x.args[1])] if f.op == "ite" else []
        if own and all(x.op == "elt" for _, x in cases(f)):
            ck.bad("resamples-all", e, "example %s is not drawn" % show(own[0].args[1])[:150])
            continue
        if f.op != "elt" or r.op != "elt":
            ck.undecided("examples-paired", e, "sample not understood: %s" % show(f)[:150])
            continue
        ck.need(ck.same(f.args[0], X), "own-examples", e, "features from %s" % show(f.args[0])[:150])
        ck.need(ck.same(r.args[0], Y), "own-examples", e, "policies from %s" % show(r.args[0])[:150])
        p, q = f.args[1], r.args[1]
        ck.need(ck.same(p, q), "examples-paired", e, "features of example %s with the policy of example %s" % (show(p)[:150], show(q)[:150]))
        if p.op == "trunc":
            p = p.args[0]
        if p.op == "draw":
            lo, hi = p.args[0], p.args[1]
            ck.need(ck.same(lo, ZERO), "resamples-all", e, "examples drawn from %s on" % show(lo)[:100])
            ck.need(ck.same(hi, sub(n, ONE)), "resamples-all", e, "examples drawn up to %s" % show(hi)[:100])
            ck.need(contains(T("x", *p.args[2:]), lambda x: x is j), "fresh-draws", e, "every example of a tree is the same draw")
            ck.need(contains(T("x", *p.args[2:]), lambda x: x is lp.k), "fresh-draws", e, "all trees learn from the same draws")
        else:
            ck.need(None, "resamples-all", e, "example %s is taken" % show(p)[:150])


def defined(v, i):
    """guard: the element was given a value"""
    if v.op == "tab":
        base, k, n, idx, _ = v.args
        off = sub(idx, k)
        if contains(off, lambda t: t is k):
            return None
        j = sub(i, off)
        g = cmp_("<=", ZERO, j, True) & cmp_("<", j, n, True)
        b = defined(base, i)
        return None if b is None else g | b
    if v.op == "undef":
        return FALSE
    if v.op in ("fill", "seq"):
        return TRUE
    return None


def table(ck, s, t, nc):
    """votes: a zeroed table where each tree of the forest adds one at its answer"""
    f = fold1(t)
    if f is None:
        return None
    k, n, ini, step, acc = f
    cs = s.calls(ASK)
    if len(cs) != 1 or len(cs[0][1]) != 1:
        return None
    e, (lp,) = cs[0][0], cs[0][1]
    i = T("anyclass")
    care = cmp_(">=", i, ZERO, True) & cmp_("<", i, nc, True)
    ck.need(ck.same(elt(ini, i), ZERO, care), "votes-start-at-zero", s, "votes of policy i start at %s" % show(deep(elt(ini, i), care))[:150])
    d = defined(ini, i)
    ck.need(None if d is None else terms.implies(care, d), "votes-start-at-zero", s, "votes of some policies are never initialised")
    ck.need(ck.same(n, size(in_this("rfc"))), "every-tree-votes", e, "%s trees vote" % show(n)[:150])
    ck.need(ck.same(lp.n, size(in_this("rfc"))), "every-tree-votes", e, "%s trees vote" % show(lp.n)[:150])
    ck.need(ck.same(subst(e.obj, {lp.k: k}), elt(in_this("rfc"), k)), "every-tree-votes", e, "asks %s" % show(e.obj)[:150])
    ck.need(ck.same(e.args[0], argv(s, 0)), "own-features", e, "asks about %s" % show(e.args[0])[:150])
    vote = subst(e.res, {lp.k: k})
    want = upd(acc, vote, add(elt(acc, vote), ONE))
    ck.need(ck.same(step, want), "one-vote-each", e, "a vote changes the counts to %s" % show(step)[:200])
    return t


def c_vote(ck):
    for config in ("default", "jit"):
        s = ck.sum(RF + "::predict", 1, opaque={ASK}, config=config)
        nc = in_this("num_classes")
        ck.need(ck.same(whole(s), T("in", (THIS, ()))), "answer-pure", s, "answering changes the forest")
        for e, lps in s.calls(ASK):
            for lp in lps[:1]:
                if contains(bterm(lp.exits), lambda t: t.op in ("res", "acc", "sacc", "fold", "loopv")):
                    ck.undecided("every-tree-votes", e, "voting stops early when %s" % showb(lp.exits)[:200])     # perhaps once the majority is certain
                else:
                    ck.whole(lp, "every-tree-votes", e, "voting")
        t = s.res
        if t.op == "trunc":
            t = t.args[0]
        if t.op in ("argmax", "argmin"):
            ck.need(t.op == "argmax", "majority", s, "answers the policy with the fewest votes")
            table(ck, s, t.args[0], nc) or ck.undecided("majority", s, "votes not understood")
            continue
        f = fold1(t)
        if f is None:
            ck.undecided("majority", s, "choice not understood: %s" % show(t)[:150])
            continue
        k, n, ini, step, acc = f
        if step.op != "ite" or acc not in step.args[1:] or ini.op != "num":
            ck.undecided("majority", s, "choice not understood: %s" % show(step)[:150])
            continue
        g, new = (step.args[0], step.args[1]) if step.args[2] is acc else (~step.args[0], step.args[2])
        off = sub(new, k)
        if off.op != "num" or off.args[0] not in (0, 1):
            ck.undecided("majority", s, "candidates not understood: %s" % show(new)[:150])
            continue
        ck.need(ini is ZERO, "majority", s, "the search starts at policy %s" % show(ini))
        c = sub(add(n, off), nc)
        ck.need(True if c is ZERO else (False if c.op == "num" else None), "every-policy-counted", s, "only %s policies considered" % show(add(n, off))[:150])
        ts = [x.args[0] for x in subterms(bterm(g)) if x.op == "elt" and (x.args[1] is new or x.args[1] is acc)]
        if not ts or any(x is not ts[0] for x in ts):
            ck.undecided("majority", s, "votes not understood")
            continue
        gt, ge = cmp_(">", elt(ts[0], new), elt(ts[0], acc), True), cmp_(">=", elt(ts[0], new), elt(ts[0], acc), True)
        ck.need(terms.equiv(g, gt) or terms.equiv(g, ge) or (False if understood(bterm(g)) else None), "majority", s,
                "a policy replaces the best when %s" % showb(g)[:300])
        table(ck, s, ts[0], nc) or ck.undecided("majority", s, "votes not understood")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("RandomForestImpl", "num_trees", False), ("RandomForestImpl", "max_depth", False), ("RandomForestImpl",
               "num_classes", False))
    ck.guarded(c_train, ck)
    ck.guarded(c_vote, ck)
