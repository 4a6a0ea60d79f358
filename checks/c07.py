"""C07: the decision tree learned from examples answers every example with its policy, within its depth, and splits
where the Gini impurity is least; the compiled tree answers the same."""
from fractions import Fraction

from common import *

DT = "DecisionTreeImpl"
B_, E_ = T("in", (("sym", "B"), ())), T("in", (("sym", "E"), ()))
LO, HI, SPL, FEAT = T("gap_lo"), T("gap_hi"), T("split_k"), T("feature_k")


def second(data, i):
    return sel(elt(data, i), "second")


def counts(t):
    """sums that count the samples of one class become cnt(data, from, n, class), sums of their squares sq(data, from, n)"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            if r.op == "sum":
                r = count1(r) or square(r) or r
            memo[x] = r
        return r
    return f(t) if isinstance(t, T) else terms.map_b(t, f)


def count1(x):
    k, n, body = x.args[0], x.args[1], x.args[2]
    body = body[0] if isinstance(body, tuple) else body
    for y in subterms(body):
        if y.op == "fld" and y.args[1] == "second" and y.args[0].op == "elt" and contains(y.args[0].args[1], lambda z: z is k):
            data, i = y.args[0].args
            a = sub(i, k)
            if contains(a, lambda z: z is k):
                continue
            for c in subterms(body):
                if c.op == "elt" and not contains(c, lambda z: z is k):
                    if canon(body) is canon(ite(cmp_("==", y, c, True), ONE, ZERO)) or \
                            canon(body) is canon(ite(cmp_("!=", y, c, True), ZERO, ONE)):
                        return T("cnt", data, a, n, c)
    return None


def square(x):
    k, n, body = x.args[0], x.args[1], x.args[2]
    body = body[0] if isinstance(body, tuple) else body
    for y in subterms(body):
        if y.op == "cnt" and y.args[3].op == "elt" and y.args[3].args[1] is k:
            if body is mul(y, y) and n is size(y.args[3].args[0]):
                return T("sq", *y.args[:3], y.args[3].args[0])
    return None


# ---------------------------------------------------------------- polynomial identities
def atoms_of(t):
    out = set()
    for m in to_poly(t):
        for x in m:
            out |= atoms_of(x.args[0]) if x.op == "inv" else {x}
    return out


def value(t, env):
    r = Fraction(0)
    for m, c in to_poly(t).items():
        v = Fraction(c)
        for x in m:
            v *= 1 / value(x.args[0], env) if x.op == "inv" else env[x]
        r += v
    return r


def identical(a, b, also=()):
    """do two rational functions agree (evaluation at pseudo random points); None when they use other quantities"""
    if a is b:
        return True
    xs = sorted(atoms_of(a) | atoms_of(b), key=lambda x: x.id)
    env = {}
    p, q = 1000003, 7919
    hit = 0
    for r in range(6):
        for i, x in enumerate(xs):
            q = (q * 48271 + 11 * i + r) % 2147483647
            env[x] = Fraction(q % 99991 + 2, 1 + q % 89)
        try:
            if value(a, env) != value(b, env):
                return False if atoms_of(a) <= atoms_of(b) | set(also) else None
            hit += 1
        except ZeroDivisionError:
            continue
    return True if hit else None


def gini(data, a, n, classes):
    iv = T("inv", n)
    return sub(ONE, mul(T("sq", data, a, n, classes), mul(iv, iv)))


# ---------------------------------------------------------------- answering
def node_of(ptr):
    return T("in", (("mem", ptr), ()))


def invariant(nd):
    f, l, r = sel(nd, "feature_idx"), eq(sel(nd, "left"), NULL), eq(sel(nd, "right"), NULL)
    leaf = cmp_("==", f, num(-1), True)
    return (leaf & l & r) | (cmp_(">=", f, ZERO, True) & ~l & ~r), leaf


def c_answer(ck):
    """below the threshold left, otherwise right, at a leaf its class"""
    s = ck.sum(DT + "::predict", 1)
    nd = node_of(in_this("root"))
    inv, leaf = invariant(nd)
    calls = [(e, l) for e, l in s.kinds("call") if e.obj is not None or e.name.startswith(DT)]
    if not calls or s.kinds("abort", "throw"):
        ck.undecided("evaluation", s, "no recursive evaluation found")
        return
    low = cmp_("<", elt(argv(s, 0), sel(nd, "feature_idx")), sel(nd, "threshold"), False)
    seen = {"left": FALSE, "right": FALSE}
    want = ite(leaf, sel(nd, "predicted_class"), UNDEF)
    for e, l in calls:
        g = e.guard & inv
        if not terms.sat(g):
            continue
        side = None
        for a in e.args:
            for f in seen:
                if isinstance(a, T) and (ck.same(a, sel(nd, f), g) or ck.same(a, node_of(sel(nd, f)), g)):
                    side = f
        if l or side is None:
            ck.undecided("evaluation", e, "descends into an unknown node")
            return
        seen[side] = seen[side] | g
        ck.need(any(isinstance(a, T) and ck.same(a, argv(s, 0), g) for a in e.args) or None, "same-features", e,
                "descends with other features")
        want = join(g, e.res, want)
    ck.need(ck.same_guard(seen["left"], inv & ~leaf & low, inv), "less-goes-left", s,
            "goes left when %s" % showb(terms.restrict(seen["left"], inv))[:300])
    ck.need(ck.same_guard(seen["right"], inv & ~leaf & ~low, inv), "otherwise-right", s,
            "goes right when %s" % showb(terms.restrict(seen["right"], inv))[:300])
    ck.need(ck.same(s.res, want, inv), "answers-class", s, "answers %s" % show(deep(s.res, inv))[:300])
    ck.need(ck.same(whole(s), T("in", (THIS, ())), s.st.pc), "answer-pure", s, "answering changes the tree")


# ---------------------------------------------------------------- learning
def builder(ck, s):
    fs = s.calls(*{e.name for e, _ in s.kinds("call") if e.name.startswith(DT + "::")}, kind="call")
    return fs


def find_builder(ck, config="default"):
    """the recursive function that training uses"""
    p = ck.prog(config)
    probe = ck.sum(DT + "::train", 2, config=config)
    names = [e.name for e, _ in probe.kinds("call") if e.name.startswith(DT + "::") and e.name.split("::")[-1] != DT]
    for n in dict.fromkeys(names):
        if p.by_qn.get(n):
            return n
    raise Undecided("no recursive construction of the tree found")


def setof(ck, t, X, Y, care):
    """policies added one by one are those of the list"""
    f = fold1(t)
    if f is None:
        return T("unk", t) if contains(t, lambda x: x.op in ("fold", "obj")) else t
    k, n, ini, step, acc = f
    if step.op != "sadd" or step.args[0] is not acc:
        return T("unk", t)
    if ini.op == "mempty" and (ck.same(n, size(Y), care) or ck.same(n, size(X), care)):
        x = step.args[1]
        if ck.same(x, elt(Y, k), care & cmp_(">=", k, ZERO, True) & cmp_("<", k, n, True)):
            return T("setof", Y)
        if not (x.op == "elt" and x.args[0] is Y):
            return T("unk", t)
    return t


def c_examples(ck, rec):
    """the tree is built from exactly the given examples"""
    for qn, np, config in ((DT + "::train", 2, "default"), (DT + "::" + DT, 4, "default"), (DT + "::train", 2, "jit"),
                           (DT + "::" + DT, 4, "jit")):
        f = None
        if np == 4:
            f = next((x for x in ck.prog(config).by_qn[qn] if len(x["p"]) == 4), None)
        s = ck.sum(qn, np, f=f, opaque={rec, DT + "::generate_source"}, config=config)
        i = [k for k in range(np) if "vector" in s.f["p"][k]["t"]]
        X, Y = argv(s, i[0]), argv(s, i[1])
        cs = s.calls(rec)
        ck.once("builds-once", cs, TRUE, s, "building the tree", s.st.pc)
        if len(cs) != 1:
            continue
        e = cs[0][0]
        ck.need(ck.same(s.get("root"), e.res, s.st.pc), "root-replaced", e, "the tree used is %s" % show(s.get("root"))[:200])
        cl = setof(ck, s.get("classes"), X, Y, s.st.pc)
        ck.need(ck.same(cl, T("setof", Y), s.st.pc), "classes-replaced", e, "the known policies are %s" % show(cl)[:200])
        data = s.get("data")
        ck.need(ck.same(size(data), size(X), s.st.pc), "every-example", e, "it learns from %s examples" % show(size(data))[:200])
        j = T("anyidx")
        for fld, src in (("first", X), ("second", Y)):
            got = sel(elt(data, j), fld)
            ck.need(ck.same(got, elt(src, j), cmp_(">=", j, ZERO, True) & cmp_("<", j, size(X), True)), "examples-paired", e,
                    "example j has %s %s" % (fld, show(got)[:200]))
        dp = s.this("data")
        its = [a for a in e.args if isinstance(a, T) and a.op == "iter"]
        ck.need(len(its) == 2 and its[0].args[0] is dp and its[1].args[0] is dp or None, "whole-range", e, "range not understood")
        if len(its) == 2:
            ck.need(ck.same(its[0].args[1], ZERO), "whole-range", e, "starts at %s" % show(its[0].args[1]))
            ck.need(ck.same(its[1].args[1], size(X)), "whole-range", e, "ends at %s" % show(its[1].args[1]))


def build(ck, rec):
    f = ck.prog().by_qn[rec][0]
    its = [i for i, p in enumerate(f["p"]) if "iterator" in p["t"]]
    if len(its) != 2:
        raise Undecided("the range being split is not a pair of iterators")

    def pre(I, st):
        for i, v in zip(its, (B_, E_)):
            st.store[("arg", i, f["p"][i]["n"])] = T("iter", addr(THIS, (("f", "data"),)), v)
    args = None
    if not is_ref_t(f["p"][its[0]]["t"]):
        args = [interp.Interp.param_value(i, p) if i not in its else
                T("iter", addr(THIS, (("f", "data"),)), (B_, E_)[its.index(i)]) for i, p in enumerate(f["p"])]
        pre = None
    s = ck.sum(rec, len(f["p"]), pre=pre, args=args, f=f)
    return s, its


def c_depth(ck, rec):
    s0 = ck.sum(DT + "::train", 2, opaque={rec})
    e0 = s0.calls(rec)[0][0]
    s, its = build(ck, rec)
    cs = s.calls(rec, kind="call")
    if len(cs) != 2 or any(l for _, l in cs):
        ck.undecided("depth", s, "not two recursive calls")
        return
    md = in_this("max_depth")
    ck.need(ck.same(s0.get("max_depth"), md), "depth-kept", s0, "training changes the depth")
    for f in ck.prog("default").by_qn[DT + "::" + DT]:
        ints = [i for i, x in enumerate(f["p"]) if is_int_t(x["t"])]
        if len(ints) == 2:
            sc = ck.sum(f["qn"], len(f["p"]), f=f, opaque={rec})
            ck.need(ck.same(sc.get("num_classes"), argv(sc, ints[0])), "depth-kept", sc, "the number of policies is kept as %s" % show(sc.get("num_classes"))[:100])
            ck.need(ck.same(sc.get("max_depth"), argv(sc, ints[1])), "depth-kept", sc, "the depth is kept as %s" % show(sc.get("max_depth"))[:100])
    vs = [i for i in range(len(s.f["p"])) if i not in its and is_int_t(s.f["p"][i]["t"])]
    cand = [(argv(s, i), lambda a, i=i: a[i]) for i in vs]
    cand += [(sub(argv(s, i), argv(s, j)), lambda a, i=i, j=j: sub(a[i], a[j])) for i in vs for j in vs if i != j]
    if not vs or not cand:
        ck.undecided("depth", s, "no depth parameter")
        return
    best = None
    for rank, of in cand:
        d = [sub(of(e.args), rank) for e, _ in cs]
        c = sub(of(e0.args), md)
        if all(x.op == "num" for x in d) and c.op == "num":
            ok = all(x.args[0] == -1 for x in d) and c.args[0] == 0
            sc = (ok, all(x.args[0] < 0 for x in d))
            if best is None or sc > best[0]:
                best = (sc, rank, d, c)
    if best is None:
        ck.undecided("depth", s, "no measure for the depth")
        return
    (ok, dec), rank, d, c = best
    if not ck.need(ok or (False if dec else None), "depth-measure", s, "remaining depth %s starts %s off the configured depth and changes by %s"
                   % (show(rank), show(c), [show(x) for x in d])):
        return
    for e, _ in cs:
        g = e.guard
        pos = cmp_(">=", rank, ONE, True)
        good = terms.implies(g, pos)
        ck.need(good or (False if understood(bterm(g)) else None), "depth-bounded", e, "splits although %s" %
                showb(terms.restrict(g & ~pos, TRUE))[:200])
    return rank


def c_growth(ck, rec, rank):
    """a node is split whenever depth remains and its samples differ in policy"""
    s, its = build(ck, rec)
    cs = s.calls(rec, kind="call")
    g = cs[0][0].guard
    n = sub(E_, B_)
    nd = s.res
    if nd.op != "addr":
        ck.undecided("growth", s, "no node returned")
        return None
    G = counts(g)
    care = cmp_(">=", n, num(2), True)
    data, classes = in_this("data"), in_this("classes")
    want = cmp_(">=", rank, ONE, True) & cmp_(">", gini(data, B_, n, classes), ZERO, False)
    miss = want & care & ~G
    known = all(x.op in ("sq", "in", "cnt") for t in terms.batoms(G) for x in atoms_of(t.args[0]) if t.op in ("ge0", "gt0", "lt0"))
    if terms.sat(miss):
        ck.need(False if known and understood(bterm(G)) else None, "splits-mixed", cs[0][0],
                "a node with samples of several policies is not split when %s" % showb(miss)[:500])
    else:
        ck.ok("splits-mixed", cs[0][0], "every mixed node above the depth limit is split")
    ck.need(terms.equiv(cs[1][0].guard, g) or None, "both-children", cs[1][0], "children built under different conditions")
    # children
    for f, e in (("left", cs[0][0]), ("right", cs[1][0])):
        v = s.read(field_ptr(nd, f))
        o = cs[1][0] if e is cs[0][0] else cs[0][0]
        r = ck.same(v, e.res, g)
        if r is not True and ck.same(v, o.res, g) is True:
            r = "swap"
        lowr = sub(rng(e, its)[0], B_)
        if r == "swap":
            e = o
        if r is True or r == "swap":
            a, b = rng(e, its)
            if f == "left":
                ck.need(ck.same(a, B_), "left-is-lower", e, "the left child starts at %s" % show(a)[:200])
            else:
                ck.need(ck.same(b, E_), "right-is-upper", e, "the right child ends at %s" % show(b)[:200])
        else:
            ck.need(r, "children-linked", e, "%s is %s" % (f, show(v)[:200]))
        ck.need(ck.same(v, NULL, ~g), "leaf-has-no-child", s, "%s of a leaf is %s" % (f, show(deep(v, ~g))[:200]))
    fi = s.read(field_ptr(nd, "feature_idx"))
    ck.need(ck.same(fi, num(-1), ~g), "leaf-marked", s, "feature of a leaf is %s" % show(deep(fi, ~g))[:200])
    # most frequent policy
    pc = counts(s.read(field_ptr(nd, "predicted_class")))
    k = T("k", "c")
    if pc.op == "elt" and pc.args[0] is classes and pc.args[1].op in ("argmax", "argmin"):
        am = pc.args[1]
        ck.need(am.op == "argmax", "majority", s, "predicts the least frequent policy")
        c = elt(am.args[0], k)
        ck.need(ck.same(counts(c), T("cnt", data, B_, n, elt(classes, k))), "majority", s, "predicts by %s" % show(c)[:300])
        ck.need(ck.same(size(am.args[0]), size(classes)), "majority", s, "counts %s policies" % show(size(am.args[0]))[:200])
    else:
        place = pc.op in ("argmax", "argmin") and \
            ck.same(counts(elt(pc.args[0], k)), T("cnt", data, B_, n, elt(classes, k))) is True
        ck.need(False if pc.op == "undef" or place else None, "majority", s, "prediction not understood: %s" % show(pc)[:200])
    return g


def rng(e, its):
    out = []
    for i in its:
        a = e.args[i]
        if a.op != "iter":
            raise Undecided("range of a child is not understood")
        out.append(a.args[1])
    return out


def last_sort(s, e):
    out = None
    for x, l in s.flat:
        if x is e:
            break
        if x.kind == "sort":
            out = (x, l)
    return out


def keys(r):
    """the positions two samples are compared at"""
    b = r.args[0] if isinstance(r.args[0], B) else truth(r.args[0])
    return [y.args[1] for t in terms.batoms(b) if t.op in ("gt0", "lt0", "ge0") for y in atoms_of(t.args[0]) if y.op == "elt"
            and y.args[0].op == "fld" and y.args[0].args[0].op in ("sa", "sb")]


def c_split(ck, rec, g):
    s, its = build(ck, rec)
    cs = s.calls(rec, kind="call")
    nd = s.res
    rs = [rng(e, its) for e, _ in cs]
    lo = 0 if rs[0][0] is B_ else 1
    S1, S2 = rs[lo][1], rs[1 - lo][0]
    ck.need(ck.same(S1, S2, g), "children-partition", cs[1][0], "left child ends at %s, right starts at %s" % (show(S1)[:200], show(S2)[:200]))
    FI = deep(s.read(field_ptr(nd, "feature_idx")), g)
    TH = deep(s.read(field_ptr(nd, "threshold")), g)
    # sorted by the feature of the node
    so = last_sort(s, cs[0][0])
    if so is None or so[1]:
        ck.undecided("sorted-by-split", s, "no sort before the children are built")
    else:
        e = so[0]
        a, b, r = e.args[1:4]
        ck.need(ck.same(a, B_, g) and ck.same(b, E_, g), "sorted-by-split", e, "sorts %s to %s" % (show(a)[:100], show(b)[:100]))
        X = keys(r)
        if X and all(x is X[0] for x in X):
            ck.need(samefold(ck, X[0], FI, g), "sorted-by-split", e, "samples sorted by feature %s, node splits feature %s" %
                    (show(X[0])[:150], show(FI)[:150]))
            asc = cmp_("<", elt(T("fld", T("sa"), "first"), X[0]), elt(T("fld", T("sb"), "first"), X[0]), False)
            ck.need(ck.same_guard(r.args[0] if isinstance(r.args[0], B) else truth(r.args[0]), asc), "sorted-ascending", e, "sorted by %s" % show(r)[:200])
        else:
            ck.undecided("sorted-by-split", e, "order not understood")
    # the chosen split
    inner = {}
    for nm, t in (("split", S1), ("feature", FI), ("threshold", TH)):
        r = nest(t)
        if r is None:
            ck.undecided("best-split", s, "%s is not chosen in two nested loops: %s" % (nm, show(t)[:150]))
            return
        inner[nm] = r
    one = inner["split"]
    n = sub(E_, B_)
    D, L, R = T("sorted_range"), T("left_value"), T("right_value")
    for nm, r in inner.items():
        g_, new, best, nb, inits, ns = r["guard"], r["new"], r["acc"], r["best"], r["inits"], r["n"]
        sz, nf = size(sel(elt(in_this("data"), B_), "first")), in_this("num_features")
        v = ck.same(r["n1"], sz) or ck.same(r["n1"], nf)
        if v is not True:
            rest = subst(r["n1"], {sz: T("features"), nf: T("features")})
            if not contains(rest, lambda x: x.op == "features") or contains(rest, lambda x: x.op in ("size", "in", "elt")):
                v = None            # the length of something else
        ck.need(v, "every-feature", s, "features tried: %s" % show(r["n1"])[:150])
        c = sub(r["n2"], sub(n, ONE))
        ok = True if c is ZERO else (False if c.op == "num" else None)
        if ok is None and r["n2"].op == "trip":
            ok = trips(*r["n2"].args[:2])
        ck.need(ok, "every-gap", s, "gaps tried: %s" % show(r["n2"])[:150])
        # the samples are sorted by the outer feature while the gaps are tried
    # split point
    j = add(one["k2"], ONE)
    ck.need(diffc(one["new"], add(B_, j)), "split-at-gap", s, "split point %s for gap %s" % (show(one["new"])[:150], show(one["k2"])))
    ft = inner["feature"]
    ck.need(diffc(ft["new"], ft["k1"]), "split-feature", s, "split feature %s while trying feature %s" % (show(ft["new"])[:150], show(ft["k1"])))
    th = inner["threshold"]
    v = th["new"]
    # data as seen in the loop
    ds = [y for y in subterms(v) if y.op == "sorted"]
    if not ds or any(y is not ds[0] for y in ds):
        ck.undecided("threshold-separates", s, "threshold not understood: %s" % show(v)[:150])
    else:
        D = ds[0]
        X = keys(D.args[3])
        ck.need(all(x is th["k1"] for x in X) or (False if all(x.op in ("num", "k") for x in X) else None), "gaps-sorted", s,
                "gaps of feature %s tried with samples sorted by %s" % (show(th["k1"]), [show(x)[:60] for x in X][:2]))
        L = elt(sel(elt(D, add(B_, th["k2"])), "first"), th["k1"])
        R = elt(sel(elt(D, add(B_, add(th["k2"], ONE))), "first"), th["k1"])
        lt = cmp_("<", L, R, False) | cmp_("<", R, L, False)
        gg = th["guard"]
        ck.need(terms.implies(gg, lt) or (False if understood(bterm(gg)) else None), "gap-distinct", s, "a split between equal values is possible")
        separates(ck, s, v, L, R, gg & cmp_("<", L, R, False))
    # impurity
    for nm, r in inner.items():
        best_gini(ck, s, nm, r, n)


def diffc(a, b):
    d = sub(a, b)
    return True if d is ZERO else (False if d.op == "num" or understood(a) and not contains(a, lambda x: x.op in ("fold", "acc")) else None)


def samefold(ck, a, b, care):
    """values accumulated by the same loops"""
    r = ck.same(a, b, care)
    if r is True:
        return True
    x, y = nest(deep(a, care)), nest(deep(b, care))
    if x and y:
        p = subst(x["new"], {x["k1"]: y["k1"], x["k2"]: y["k2"]})
        q = ck.same(p, y["new"])
        if q is not True:
            return q
        return True
    if (x or y) and (a.op == "num" or b.op == "num"):
        return False
    return None


def nest(t):
    """an accumulator updated in an inner loop over gaps inside a loop over features"""
    if t.op == "trunc":
        t = t.args[0]
    if t.op != "fold":
        return None
    k1, n1, i, ini, steps, accs = t.args[:6]
    t2 = steps[i]
    if t2.op != "fold":
        return None
    k2, n2, i2, ini2, steps2, accs2 = t2.args[:6]
    if ini2[i2] is not accs[i]:
        return None
    st = steps2[i2]
    if st.op != "ite":
        return None
    if st.args[2] is accs2[i2]:
        g, new = st.args[0], st.args[1]
    elif st.args[1] is accs2[i2]:
        g, new = ~st.args[0], st.args[2]
    else:
        return None
    # the quantity being minimised: another accumulator of the inner loop that the guard reads
    best = None
    for x in range(len(accs2)):
        if contains(bterm(g), lambda y: y is accs2[x]):
            best = (x, accs2[x], steps2[x], ini2[x])
    init = None
    if best is not None:
        for x in range(len(accs)):
            if best[3] is accs[x]:
                init = ini[x]
    return {"k1": k1, "n1": n1, "k2": k2, "n2": n2, "guard": g, "new": new, "acc": accs2[i2], "best": best, "init": init,
            "inits": ini, "n": n2}


def separates(ck, s, v, L, R, g):
    """left value < threshold <= right value in every case"""
    for c, x in cases(v, g):
        if not terms.sat(c):
            continue
        if x is R:
            ck.ok("threshold-separates", s, "the right value")
            continue
        if x is L:
            ck.bad("threshold-separates", s, "the threshold can equal the left value, whose samples would go right")
            continue
        y = x.args[0] if x.op == "f32" else x
        p = to_poly(y)
        ws = {m: c2 for m, c2 in p.items()}
        wl, wr = ws.pop((L,), Fraction(0)), ws.pop((R,), Fraction(0))
        if ws:
            if set(a for m in ws for a in m) == set() or all(m == () for m in ws):
                ck.bad("threshold-separates", s, "the threshold is %s" % show(y)[:200])
            else:
                ck.need(None, "threshold-separates", s, "threshold not understood: %s" % show(y)[:200])
            continue
        if wl + wr != 1 or wl < 0 or wr <= 0:
            ck.bad("threshold-separates", s, "the threshold is not between the values: %s" % show(y)[:200])
            continue
        if x.op == "f32":
            gt = cmp_(">", x, L, False)
            ck.need(terms.implies(c, gt) or (False if understood(bterm(c)) else None), "threshold-rounding", s,
                    "rounded to float the threshold can equal the left value, whose samples would go right")
            ck.ok("threshold-separates", s, "rounded mean above the left value")
        else:
            # computed in float: the sum of two floats may round to the left value
            ck.ok("threshold-separates", s, "between the values")


def trips(k, cond):
    """False if the loop that goes on while cond tries other than n - 1 gaps for some small number of samples"""
    cond = cond if not hasattr(cond, "op") else truth(cond)
    ats = terms.batoms(cond)
    for t in ats:
        if t.op != "ge0" or any(x not in (k, B_, E_) for m in to_poly(t.args[0]) for x in m):
            return None
    for n in range(2, 7):
        for i in range(n + 2):
            env = {k: i, B_: 0, E_: n}
            g = cond
            for t in ats:
                v = 0
                for m, c in to_poly(t.args[0]).items():
                    for x in m:
                        c = c * env[x]
                    v += c
                g = terms.exists(g & (atom(t) if v >= 0 else ~atom(t)), lambda u, t=t: u is t)
            if g is FALSE:
                break
        if i != n - 1:
            return False
    return None


def best_gini(ck, s, nm, r, n):
    if r["best"] is None or r["init"] is None:
        ck.undecided("least-impurity", s, "quantity minimised for the %s not found" % nm)
        return
    x, acc, step, _ = r["best"]
    if step.op != "ite":
        ck.undecided("least-impurity", s, "best impurity not updated conditionally")
        return
    if step.args[2] is acc:
        gb, nb = step.args[0], step.args[1]
    elif step.args[1] is acc:
        gb, nb = ~step.args[0], step.args[2]
    else:
        ck.undecided("least-impurity", s, "best impurity not updated conditionally")
        return
    ck.need(ck.same_guard(gb, r["guard"]), "updated-together", s, "the best impurity and the %s are updated under different conditions" % nm)
    ck.need((r["init"].args[0] >= 1) if r["init"].op == "num" else None, "first-split-taken", s, "search starts at impurity %s" % show(r["init"]))
    g = counts(r["guard"])
    nb = counts(nb)
    acc_atoms = [t for t in terms.batoms(g) if contains(t, lambda y: y is acc)]
    if len(acc_atoms) != 1 or acc_atoms[0].op not in ("gt0", "lt0"):
        ck.undecided("least-impurity", s, "comparison with the best impurity not understood")
        return
    a = acc_atoms[0]
    p = a.args[0]
    ca = to_poly(p).get((acc,), Fraction(0))
    if ca == 0 or contains(from_poly({m: c for m, c in to_poly(p).items() if m != (acc,)}), lambda y: y is acc):
        ck.undecided("least-impurity", s, "comparison with the best impurity not understood")
        return
    # value compared: rest, so that p = ca * (acc - cmp)
    cmpv = scale(sub(p, scale(acc, ca)), -1 / ca)
    pos = (a.op == "gt0") == (ca > 0)          # atom says: acc > cmp
    on_ = terms.sat(g & terms.atom(a))
    off = terms.sat(g & ~terms.atom(a))
    less = (pos and on_ and not off)           # update only if cmp < best
    lesseq = (not pos and off and not on_)
    if not (less or lesseq):
        ck.bad("least-impurity", s, "the split is not taken when the impurity is less than the best so far")
        return
    ck.need(identical(cmpv, nb) if cmpv is not nb else True, "best-remembered", s, "compares one impurity but remembers another")
    sq = [y for y in subterms(cmpv) if y.op == "sq"]
    whole_ = [y for y in subterms(cmpv) if y.op == "idiv"]
    if whole_:
        ck.bad("least-impurity", s, "the impurity of a split divides whole numbers: %s" % show(whole_[0])[:200])
        return
    if not sq:
        ck.undecided("least-impurity", s, "impurity not understood: %s" % show(cmpv)[:200])
        return
    data, cl = sq[0].args[0], sq[0].args[3]
    j = add(r["k2"], ONE)
    w = mul(add(mul(j, gini(data, B_, j, cl)), mul(sub(n, j), gini(data, add(B_, j), sub(n, j), cl))), T("inv", n))
    q = identical(cmpv, w)
    if q is not True and identical(cmpv, mul(w, n)) is True:
        ck.undecided("least-impurity", s, "impurity scaled by the number of samples")
        return
    ck.need(q, "least-impurity", s, "the impurity of a split is computed as %s" % show(cmpv)[:500])
    # and nothing else prevents the update
    L_ = terms.exists(g, lambda t: t is a) if False else terms.cof(g, terms.support(terms.atom(a)).__iter__().__next__(), pos and True or False)
    other = [t for t in terms.batoms(L_)]
    ds = [y for y in subterms(bterm(r["guard"])) if y.op == "sorted"]
    if ds:
        D = ds[0]
        L = elt(sel(elt(D, add(B_, r["k2"])), "first"), r["k1"])
        R = elt(sel(elt(D, add(B_, add(r["k2"], ONE))), "first"), r["k1"])
        ck.need(ck.same_guard(L_, cmp_("<", L, R, False), ~cmp_("<", R, L, False)), "every-distinct-gap", s,
                "a better split is skipped unless %s" % showb(L_)[:300])


# ---------------------------------------------------------------- the compiled tree
def text_of(ck, s, gen, nd, care):
    """what is written under care, as text without blanks and with named holes"""
    out = []
    for e, l in s.flat:
        if not terms.sat(e.guard & care):
            continue
        if e.kind == "call" and e.name == gen:
            h = None
            for a in e.args:
                for f in ("left", "right"):
                    if isinstance(a, T) and (ck.same(a, sel(nd, f), care) or ck.same(a, node_of(sel(nd, f)), care)):
                        h = "<%s>" % f
            if h is None or l or not terms.implies(care, e.guard):
                return None
            out.append(h)
        elif e.kind == "put":
            a = e.args[0]
            for x in (a.args if a.op == "cat" else (a,)):
                if x.op == "str":
                    t = "".join(x.args[0].split())
                    if not t:
                        continue
                elif x.op == "dec" and x.args[0] is sel(nd, "predicted_class"):
                    t = "<class>"
                elif x.op == "dec" and x.args[0] is sel(nd, "feature_idx"):
                    t = "<feature>"
                elif x.op == "flt" and x.args[0] is sel(nd, "threshold"):
                    t = "<threshold>"
                elif x.op in ("dec", "flt") and understood(x) and contains(x, lambda y: y is nd or y.op == "in" and y.args[0][0] == nd.args[0][0]):
                    t = "<%s>" % show(x.args[0])[-20:]
                else:
                    return None
                if l or not terms.implies(care, e.guard):
                    return None
                out.append(t)
        elif e.kind in ("call", "ext", "abort", "throw"):
            return None
    return "".join(out)


import re
IF = re.compile(r"^if\((?:features\[<feature>\](<|<=|>|>=)<threshold>f?|<threshold>f?(<|<=|>|>=)features\[<feature>\])\)\{?(<left>|<right>)\}?(?:else)?\{?(<left>|<right>)\}?$")


def c_jit(ck, rec):
    p = ck.prog("jit")
    probe = ck.sum(DT + "::train", 2, opaque={rec}, config="jit")
    gens = [e.name for e, _ in probe.kinds("call") if e.name.startswith(DT + "::") and e.name != rec and p.by_qn.get(e.name)]
    if not gens:
        raise Undecided("no recursive generation of the compiled tree found")
    gen = gens[0]
    f = p.by_qn[gen][0]
    s = ck.sum(gen, len(f["p"]), f=f, config="jit")
    ni = next((i for i, q in enumerate(f["p"]) if "Node" in q["t"]), None)
    if ni is None:
        raise Undecided("generator takes no node")
    v = argv(s, ni)
    nd = v if is_ref_t(f["p"][ni]["t"]) else node_of(v)
    inv, leaf = invariant(nd)
    t = text_of(ck, s, gen, nd, inv & leaf)
    ck.need(None if t is None else t == "return<class>;", "compiled-leaf", s, "the code of a leaf is %s" % t)
    t = text_of(ck, s, gen, nd, inv & ~leaf)
    suffix = ""
    m = IF.match(t) if t else None
    if m is None:
        ck.need(None, "compiled-split", s, "the code of a split is %s" % t)
        if t is not None and "<feature>" in t and "<threshold>" in t and t.count("<left>") + t.count("<right>") != 2:
            ck.bad("compiled-split", s, "the code of a split is %s" % t)
    else:
        op, rop, a, b = m.groups()
        op = op or {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[rop]
        good = (op, a, b) in (("<", "<left>", "<right>"), (">=", "<right>", "<left>"))
        ck.need(good, "compiled-split", s, "the code of a split is %s" % t)
        suffix = "f" if "<threshold>f" in t else ""
    for qn, np, pred in ((DT + "::train", 2, None), (DT + "::load", 1, None), (DT + "::" + DT, 4, None), (DT + "::" + DT, 2, "istream"),
                         (DT + "::" + DT, 2, "string")):
        fs = [x for x in p.by_qn.get(qn, []) if len(x["p"]) == np and (pred is None or any(pred in y["t"] for y in x["p"]))]
        if not fs:
            continue
        ops = {rec, gen} | {x for x in p.by_qn if x.startswith("Parser::")}
        ops |= {y["qn"] for x in p.by_qn.values() for y in x if y["qn"].startswith(DT + "::") and y["qn"] != qn and
                any("Parser" in z["t"] or "istream" in z["t"] for z in y["p"])}
        s = ck.sum(qn, np, f=fs[0], config="jit", opaque=ops)
        linked(ck, s, gen, suffix)
    s = ck.sum(DT + "::predict", 1, config="jit")
    cs = [(e, l) for e, l in s.kinds("call", "ext") if e.name == "<indirect>"]
    ck.once("compiled-answers", cs, TRUE, s, "calling the compiled tree", s.st.pc)
    for e, _ in cs:
        ck.need(ck.same(e.obj, in_this("jit_evaluate_function")), "compiled-answers", e, "calls %s" % show(e.obj)[:200])
        ck.need(ck.same(e.args[0], argv(s, 0)), "compiled-answers", e, "with %s" % show(e.args[0])[:200])
        ck.need(ck.same(s.res, e.res), "compiled-answers", e, "answers %s" % show(s.res)[:200])


def linked(ck, s, gen, suffix):
    """the function called is the one generated from the current tree"""
    gs = s.calls(gen, kind="call")
    if not ck.once("compiles-new-tree", gs, TRUE, s, "generating code for the tree", s.st.pc):
        return
    e = gs[0][0]
    root = s.get("root")
    ck.need(any(isinstance(a, T) and (ck.same(a, root) or ck.same(a, node_of(root))) for a in e.args) or
            (None if not understood(root) else False), "compiles-new-tree", e, "code is generated for another tree")
    do, dc, ds = s.calls("dlopen"), s.calls("dlclose"), s.calls("dlsym")
    sy = s.calls("system")
    if len(do) != 1 or len(ds) != 1:
        ck.undecided("loads-new-code", s, "%d dlopen, %d dlsym" % (len(do), len(ds)))
        return
    o, y = do[0][0], ds[0][0]
    ck.need(ck.same(y.args[0], o.res), "loads-new-code", y, "function looked up in %s" % show(y.args[0])[:200])
    ck.need(ck.same(s.get("jit_evaluate_function"), y.res, s.st.pc), "loads-new-code", y, "the function called is %s" % show(s.get("jit_evaluate_function"))[:200])
    ck.need(ck.same(s.get("jit_library"), o.res, s.st.pc), "library-kept", o, "the library kept is %s" % show(s.get("jit_library"))[:200])
    old = in_this("jit_library")
    if s.f.get("qn") in (DT + "::train", DT + "::load"):
        xs = [x for x, _ in dc if ck.before(s, x, o)]
        r = False
        for x in xs:
            mine = ck.same(x.args[0], old, x.guard) or contains(x.args[0], lambda t: t.op in ("out", "havoc"))
            if mine and terms.implies(~eq(x.args[0], NULL) & o.guard, x.guard):
                r = True
            elif r is False and not mine:
                r = None
        ck.need(r, "closes-old-code", o, "the library of the earlier tree stays open, so the same name loads it again")
    bad = FALSE
    for x, _ in s.kinds("abort", "throw"):
        bad = bad | x.guard
    ck.need(terms.implies(eq(o.res, NULL) | (eq(y.res, NULL) & y.guard), bad) or None, "missing-code-aborts", o, "goes on without compiled code")
    ck.need(not terms.sat(s.st.pc & (eq(o.res, NULL) | eq(y.res, NULL))), "missing-code-aborts", o, "goes on without compiled code")
    # same name everywhere, distinct between trees and processes
    fn = y.args[1]
    ck.need(contains(fn, lambda x: x.op == "res" and x.args[0] == "getpid") and contains(fn, lambda x: x is s.get("unique_id")), "own-name",
            y, "the code of different trees shares the name %s" % show(fn)[:200])
    for nm, t in (("library", o.args[0]),):
        ck.need(contains(t, lambda x: x.op == "res" and x.args[0] == "getpid") and contains(t, lambda x: x is s.get("unique_id")),
                "own-file", o, "different trees share the file %s" % show(t)[:200])
    if len(sy) == 1:
        cmd = [x for x in (sy[0][0].args[0].args if sy[0][0].args[0].op == "cat" else (sy[0][0].args[0],))]
        flat_ = cat(*cmd)
        tgt = show(o.args[0])
        ck.need(ck.before(s, sy[0][0], o) and ck.before(s, e, sy[0][0]), "compiled-before-loaded", o, "loaded before it is compiled")
    # exact thresholds
    os_ = None
    for a in e.args:
        if isinstance(a, T):
            q = values.sel(a, "os")
            if q.op == "addr":
                os_ = q
    if os_ is not None:
        pr = s.read(values.field_ptr(os_, "$prec"))
        if pr.op == "num":
            ck.need(pr.args[0] >= (9 if suffix else 17), "exact-thresholds", e, "thresholds are printed with %s digits only" % show(pr))
        else:
            ck.undecided("exact-thresholds", e, "precision %s" % show(pr)[:100])
    else:
        ck.undecided("exact-thresholds", e, "stream not found")


def c_ids(ck):
    """every tree has its own identity"""
    p = ck.prog("jit")
    cnt = T("in", (("glob", DT + "::unique_counter"), ()))
    for f in p.by_qn[DT + "::" + DT]:
        if len(f["p"]) < 2:
            continue
        s = ck.sum(f["qn"], len(f["p"]), f=f, config="jit", opaque={x for x in p.by_qn if x.startswith((DT + "::", "Parser::")) and x != f["qn"]})
        new = s.read(addr(("glob", DT + "::unique_counter")))
        u = s.get("unique_id")
        ck.need(ck.same(new, add(cnt, ONE)), "own-identity", s, "the counter becomes %s" % show(new)[:200])
        d = sub(u, cnt)
        ck.need(d.op == "num" or None, "own-identity", s, "the identity is %s" % show(u)[:200])


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("DecisionTreeImpl::Node", "predicted_class", False), ("DecisionTreeImpl::Node", "feature_idx", False),
               ("DecisionTreeImpl::Node", "threshold", True), ("DecisionTreeImpl::Node", "num_samples", False),
               ("DecisionTreeImpl::Node", "count_per_class", False), ("DecisionTreeImpl", "max_depth", False),
               ("DecisionTreeImpl", "num_classes", False), ("DecisionTreeImpl", "num_features", False), ("DecisionTreeImpl",
               "data", False), ("DecisionTreeImpl", "classes", False))
    ck.guarded(c_answer, ck)
    rec = ck.guarded(find_builder, ck)
    if not rec:
        return
    ck.guarded(c_examples, ck, rec)
    rank = ck.guarded(c_depth, ck, rec)
    if rank is not None:
        g = ck.guarded(c_growth, ck, rec, rank)
        if g is not None:
            ck.guarded(c_split, ck, rec, g)
    ck.guarded(c_jit, ck, rec)
    ck.guarded(c_ids, ck)
