"""C09: a stored dataset loads back as the same dataset."""
from common import *
import fmt

DS = "Apollo::Dataset::"
RG = "Apollo::Region::"


def stream_is(s, i):
    p = argp(s, i)
    return lambda o: o is p


def sequence(ck, v, want, care=TRUE):
    """is v, element by element, the sequence want"""
    if v is want:
        return True
    if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "comp":
        k, n, its = v.args[0].args[:3]
        a = ck.same(n, size(want), care)
        if len(its) != 1 or its[0].op != "item":
            return None
        b = ck.same(its[0].args[0], elt(want, k), care & cmp_(">=", k, ZERO, True) & cmp_("<", k, size(want), True))
        if a is False or b is False:
            return False
        return a and b
    return ck.same(v, want, care)


def format_(ck):
    s = ck.sum(DS + "store", 1)
    r = ck.sum(DS + "load", 1, opaque=fmt.OPS | {DS + "insert"})
    g = fmt.grammar(fmt.write_tree(s.events, stream_is(s, 0), {}))
    if not g:
        ck.bad("format", s, "nothing is written")
        return
    R = fmt.agree(ck, "format", g, r, {}, w=s)
    if R is None:
        return
    data = in_this("data")
    # every measurement is written
    tops = [x for x in g if isinstance(x, fmt.Loop)]
    if len(tops) != 1:
        ck.undecided("all-written", s, "%d loops write the entries" % len(tops))
        return
    L = tops[0]
    ck.need(ck.same(L.n, size(data)), "all-written", L.ev, "%s of %s entries are written" % (show(L.n)[:100], show(size(data))))
    ins = r.calls(DS + "insert")
    if not ins:
        ck.bad("all-read", r, "nothing that is read is kept")
        return
    tr = [(e, w) for e, w in R.trips if w is L]
    if not tr:
        ck.undecided("all-read", r, "loop over the entries")
        return
    loop = tr[0][0]
    tot = FALSE
    for e, ls in ins:
        if loop not in ls:
            ck.undecided("all-read", e, "insertion outside the loop")
            return
        gd = R.value(e.guard)
        if terms.sat(tot & gd):
            ck.bad("all-read", e, "an entry is inserted twice")
        tot = tot | gd
        k = loop.k
        want = elt(data, k)
        key = sel(want, "first")
        care = gd
        f, p, m = R.value(e.args[0]), R.value(e.args[1]), R.value(e.args[2])
        ck.need(sequence(ck, f, sel(key, "first")), "same-features", e, "the features read back are %s" % show(f)[:200])
        ck.need(ck.same(p, sel(key, "second")), "same-policy", e, "the policy read back is %s" % show(p)[:200])
        ck.need(ck.same(m, sel(want, "second")), "same-metric", e, "the metric read back is %s" % show(m)[:200])
    live = restrict(R.value(loop.cont), TRUE)
    ck.need(True if terms.equiv(restrict(tot, live), TRUE) or terms.implies(live, tot) else
            (False if understood(bterm(tot)) else None),
            "all-read", ins[0][0], "an entry is kept only if %s" % showb(tot)[:200])
    for gd, e in R.fails:
        v = R.value(gd)
        ck.need(False if understood(bterm(v)) and terms.sat(v) else None if terms.sat(v) else True, "accepted", e,
                "a stored dataset is rejected when %s" % showb(v)[:200])
    lossless(ck, R, s)


def lossless(ck, R, s):
    for i in sorted(R.used):
        h, put, loops, ev = R.holes[i]
        t = fmt.lossless(h, put, ev)
        ck.need(None if t is None else not t, "exact", put, "%s: %s" % (show(h.args[0])[:80], t or "precision not known"))


def paths(ck):
    """the destructor stores where the constructor of the next run loads"""
    OP = {RG + "train", "Apollo::train", "apollo::ModelFactory::createPolicyModel", "Apollo::instance",
          RG + "parsePolicyModel"}
    c = ck.sum(RG + "Region", 6, opaque=OP, writes={DS + "load"})
    d = ck.sum(RG + "~Region", 0, opaque={DS + "store", RG + "collectPendingContexts", "Apollo::instance"})
    st = d.calls(DS + "store")
    ck.once("stored", st, on("APOLLO_PERSISTENT_DATASETS"), d, "storing the dataset when the region ends", d.st.pc)
    ds = field_ptr(addr(THIS), "dataset")
    name = c.get("name")

    def path(e):
        return values.sel(e.args[0], "$path")
    for e, _ in st:
        ck.need(True if e.obj is ds else None, "stored", e, "what is stored is %s" % show(e.obj)[:100])
        p = path(e)
        ck.need(None if p.op == "undef" else in_this("name") in set(subterms(p)), "own-file", e,
                "the file %s does not depend on the region's name" % show(p)[:200])
        for o, _ in d.kinds("open"):
            if o.args[0] is p:
                ck.replaces("file-replaced", o, "the dataset file")
        where_ = plug(p, whole(c))
        for e2, _ in c.calls(DS + "load"):
            if e2.obj is not ds:
                ck.undecided("own-file", e2, "what is loaded is %s" % show(e2.obj)[:100])
                continue
            q = path(e2)
            ck.need(ck.same(where_, q), "own-file", e2, "the dataset is stored in %s but loaded from %s" %
                    (show(p)[:150], show(q)[:150]))


def scripts(ck):
    """every dataset the trace conversion script writes is readable by load"""
    import ast
    import os
    import pytext
    path = os.path.join(ir.REPO, "src/python/modeling/create-dataset.py")
    if not os.path.exists(path):
        ck.undecided("script-format", "create-dataset.py", "no such file")
        return
    mod = ast.parse(open(path).read())
    r = ck.sum(DS + "load", 1, opaque=fmt.OPS | {DS + "insert"})
    ins = r.calls(DS + "insert")
    n = 0
    for f in mod.body:
        if not isinstance(f, ast.FunctionDef) or len(f.args.args) != 1 or not f.name.startswith("agg_by"):
            continue
        n += 1
        ck.functions.add("create-dataset.py:" + f.name)
        try:
            items = pytext.Text(mod, path).function(f, {f.args.args[0].arg: "data"})
            R = fmt.agree(ck, "script-format", fmt.grammar(items), r, {}, w="%s:%d %s" % (rel(path), f.lineno, f.name))
        except Undecided as e:
            ck.undecided("script-format", "%s:%d %s" % (rel(path), f.lineno, f.name), str(e))
            continue
        if R is None:
            continue
        for e, _ in ins:
            names = [str(show(R.value(a))) for a in e.args]
            for got, want, other in ((names[1], "policy", "xtime"), (names[2], "xtime", "policy")):
                if other in got and want not in got:
                    ck.bad("script-format", "%s:%d %s" % (rel(path), f.lineno, f.name),
                           "the %s of the dataset is the trace's %s" % (want, got))
                else:
                    ck.ok("script-format", "%s:%d %s" % (rel(path), f.lineno, f.name), "%s is %s" % (want, got[:80]))


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::Dataset", "data", False))
    ck.guarded(format_, ck)
    ck.guarded(scripts, ck)
    ck.guarded(paths, ck)
