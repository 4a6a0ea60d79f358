"""C10: a stored model loads back as the same model."""
from common import *
import fmt
from c09 import sequence, lossless

DT = "DecisionTreeImpl::"
RF = "RandomForestImpl::"
STORED = ("mem", T("stored"))
NODE = ("mem", T("node"))


def stored(t):
    """the writer's object is not the reader's"""
    return plug(t, T("in", (STORED, ())))


def was(*fields):
    v = T("in", (STORED, ()))
    for f in fields:
        v = sel(v, f)
    return v


def file_stream(o):
    return not (isinstance(o, T) and o.op == "addr" and o.args[0][0] == "glob")


def recursive(ck, qn, np, opaque=(), config="default"):
    """functions that call themselves while qn runs"""
    p = ck.prog(config)
    s = ck.sum(qn, np, opaque=opaque, config=config)
    out = []
    for e, _ in s.kinds("call"):
        if e.name not in opaque and e.name in s.I.inlined and p.by_qn.get(e.name) and e.name not in out:
            out.append(e.name)
    return out


def expansion(ck, names, ren, config="default"):
    """what a writer function puts, with the arguments of its call"""
    p = ck.prog(config)

    def expand(r):
        f = p.by_qn[r.ev.name][0]
        s = ck.sum(r.ev.name, len(f["p"]), f=f, opaque=names, keeps=names, config=config)

        def sub(t):
            for i, a in enumerate(r.args):
                if isinstance(a, T) and ("tring" in f["p"][i]["t"] or "char" in f["p"][i]["t"]):
                    t = plug(t, a, ("arg", i, f["p"][i]["n"]))
                    if isinstance(t, T):
                        t = subst(t, {argv(f, i): a})
                elif isinstance(a, T) and a.op == "b":
                    m = {argv(f, i): a}
                    for x in subterms(argv(f, i)):
                        if x.op in ("in", "arg"):
                            m[x] = a
                    t = subst(t, m) if isinstance(t, T) else interp.map_b_subst(t, m)
            return ren(t)
        return fmt.grammar(fmt.write_tree(s.events, file_stream, {n: expand for n in names}, sub=sub))
    return expand


def opened(s):
    return [(e, l) for e, l in s.kinds("open")]


def missing_file(ck, r, rule="missing-file"):
    """loading throws exactly when the file cannot be opened; the condition that it can"""
    op = opened(r)
    if len(op) != 1:
        ck.undecided(rule, r, "%d files opened" % len(op))
        return None
    e = op[0][0]
    ck.need(ck.same(e.args[0], argv(r, 0)), "named-file", e, "opens %s" % show(e.args[0])[:200])
    good = FALSE
    for t, _ in r.kinds("throw", "abort"):
        for a in terms.batoms(t.guard):
            if a.op in ("good", "isopen", "opened"):
                good = atom(a)
    if good is FALSE:
        ck.bad(rule, e, "a file that cannot be read goes unnoticed")
        return None
    lost = FALSE
    for t, _ in r.kinds("throw", "abort"):
        lost = lost | t.guard
    ck.need(True if terms.implies(~good, lost) else False, rule, e, "a file that cannot be read goes unnoticed")
    return good


def named_file(ck, s):
    for e, _ in opened(s):
        ck.replaces("file-replaced", e, "the model file")
    op = opened(s)
    if len(op) != 1:
        ck.undecided("named-file", s, "%d files opened" % len(op))
        return
    e = op[0][0]
    ck.need(ck.same(e.args[0], argv(s, 0)), "named-file", e, "writes to %s" % show(e.args[0])[:200])
    ck.need(TRUE is e.guard or None, "named-file", e, "opened only if %s" % showb(e.guard)[:100])


def rejected(ck, R, care, what):
    for gd, e in R.fails:
        v = R.value(gd) & care
        ck.need(True if not terms.sat(v) else False if understood(bterm(v)) else None, "accepted", e,
                "a stored %s is rejected when %s" % (what, showb(v)[:300]))


def fields(ck, rule, w, got, want, names, care=TRUE):
    for f in names:
        g, x = sel(got, f), sel(want, f)
        ck.need(ck.same(g, x, care), rule, w, "%s is read back as %s" % (f, show(deep(g, care))[:200]))


def set_of(ck, v, want, care=TRUE):
    """is v the set with the elements of want"""
    f = fold1(v)
    if f is None:
        return ck.same(v, want, care)
    k, n, i, step, acc = f
    if i.op != "mempty":
        return False if understood(i) else None
    a = ck.same(n, size(want), care)
    if step.op != "sadd" or step.args[0] is not acc:
        return None
    b = ck.same(step.args[1], elt(want, k), care)
    if a is False or b is False:
        return False
    return a and b


def c_tree(ck, config):
    wrec = recursive(ck, DT + "save", 1, config=config)
    rrec = recursive(ck, DT + "load", 1, opaque=fmt.OPS, config=config)
    if len(wrec) != 1:
        raise Undecided("writers %s" % wrec)
    # reading back also generates code when that is configured: look at what reads
    p = ck.prog(config)
    rrec = [n for n in rrec if any("Parser" in q["t"] for q in p.by_qn[n][0]["p"])]
    if len(rrec) != 1:
        raise Undecided("readers %s" % rrec)
    other = {n for n in p.by_qn if "jit" in n.lower() and n.startswith(DT)}
    wr, rd = wrec[0], rrec[0]
    exp = expansion(ck, {wr}, stored, config)
    # ---------------------------------------------------------- whole file
    s = ck.sum(DT + "save", 1, opaque={wr}, keeps={wr}, config=config)
    named_file(ck, s)
    for np_, what in ((1, "load"), (2, "DecisionTreeImpl")):
        cands = [f for f in p.by_qn.get(DT + what, []) if len(f["p"]) == np_]
        for f in cands:
            if what != "load" and "tring" not in f["p"][1]["t"] and "stream" not in f["p"][1]["t"]:
                continue
            r = ck.sum(DT + what, np_, f=f, opaque=fmt.OPS | {rd} | other, config=config)
            fi = next((i for i, q in enumerate(f["p"]) if "tring" in q["t"]), None)
            care = TRUE
            if what == "load":
                g = missing_file(ck, r)
                if g is None:
                    continue
                care = g
            elif fi is not None:
                care = TRUE
                for t, _ in r.kinds("throw", "abort"):
                    for a in terms.batoms(t.guard):
                        if a.op in ("good", "isopen", "opened"):
                            care = atom(a)
            g = fmt.grammar(fmt.write_tree(s.events, file_stream, {wr: exp}, sub=stored))
            R = fmt.agree(ck, "tree-format", g, r, {rd: wr}, care=care, w=s, alive=care)
            if R is None:
                return
            me = R.value(whole(r))
            fields(ck, "tree-same", r, me, T("in", (STORED, ())), ("max_depth", "num_features"), care)
            ck.need(set_of(ck, sel(me, "classes"), was("classes"), care), "tree-same", r,
                    "the classes are read back as %s" % show(sel(me, "classes"))[:200])
            ck.need(ck.same(sel(me, "root"), T("copy", was("root")), care), "tree-same", r,
                    "the root is read back as %s" % show(sel(me, "root"))[:200])
            examples(ck, r, sel(me, "data"), care)
            rejected(ck, R, care, "tree")
            lossless(ck, R, s)
            start = R.skip.get(wr, 0)
    c_node(ck, wr, rd, start, config)
    return wr


def examples(ck, w, v, care):
    """the training examples stored with the tree"""
    want = was("data")
    ok = None
    if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "comp":
        k, n, its = v.args[0].args[:3]
        if len(its) == 1 and its[0].op == "item":
            x, y = its[0].args[0], elt(want, k)
            rs = [ck.same(n, size(want), care), sequence(ck, sel(x, "first"), sel(y, "first"), care),
                  ck.same(sel(x, "second"), sel(y, "second"), care)]
            ok = False if False in rs else None if None in rs else True
    if ok is None and v.op == "seq" and len(v.args) > 1 and understood(v):
        ok = False
    ck.need(ok, "tree-same", w, "the examples are read back as %s" % show(v)[:300])


def c_node(ck, wr, rd, start, config):
    p = ck.prog(config)
    fw, fr = p.by_qn[wr][0], p.by_qn[rd][0]
    ni = next((i for i, q in enumerate(fw["p"]) if "Node" in q["t"]), None)
    if ni is None:
        raise Undecided("the writer of a node takes no node")
    s = ck.sum(wr, len(fw["p"]), f=fw, opaque={wr}, keeps={wr}, config=config)
    r = ck.sum(rd, len(fr["p"]), f=fr, opaque=fmt.OPS | {rd}, config=config)
    isref = is_ref_t(fw["p"][ni]["t"])
    nd = T("in", (NODE, ()))

    def ren(t):
        t = stored(t)
        if isref:
            t = plug(t, nd, ("arg", ni, fw["p"][ni]["n"]))
        else:
            m = {argv(s, ni): T("node")}
            t = interp.map_b_subst(t, m) if isinstance(t, B) else deep(subst(t, m), TRUE)
        # the name of the node and the precision come from the caller
        m = {}
        for x in subterms(bterm(t) if isinstance(t, B) else t):
            if x.op == "in" and x.args[0][0][0] == "arg" and "tring" in fw["p"][x.args[0][0][1]]["t"]:
                m[x] = T("str", "name")
            elif x.op == "in" and len(x.args[0][1]) and x.args[0][1][-1] == ("f", "$prec"):
                m[x] = PREC[0]
        if m:
            t = interp.map_b_subst(t, m) if isinstance(t, B) else subst(t, m)
        return t
    PREC = [ambient(ck, config, wr)]
    exp = expansion(ck, {wr}, ren, config)
    g = fmt.grammar(fmt.write_tree(s.events, file_stream, {wr: exp}, sub=ren))
    inv = cmp_(">=", sel(nd, "predicted_class"), ZERO, True) & cmp_("<", sel(nd, "predicted_class"), in_this("num_classes"), True) & \
        cmp_(">=", sel(nd, "feature_idx"), num(-1), True) & cmp_("<", sel(nd, "feature_idx"), in_this("num_features"), True) & \
        cmp_("==", size(sel(nd, "count_per_class")), size(was("classes")), True)
    R = fmt.agree(ck, "node-format", g, r, {rd: wr}, care=inv, w=s, start=start)
    if R is None:
        return
    if R.skip.get(wr, start) != start:
        ck.bad("node-format", r, "children are read %d tokens into their text, the root %d" % (R.skip[wr], start))
        return
    rejected(ck, R, inv, "node")
    if r.res is None or as_addr(r.res).op != "addr":
        ck.undecided("node-same", r, "returns %s" % show(r.res)[:100])
        return
    new = R.value(r.read(r.res))
    care = inv
    fields(ck, "node-same", r, new, nd, ("gini", "num_samples", "predicted_class", "feature_idx", "threshold"), care)
    c = sel(new, "count_per_class")
    ok = None
    if c.op == "seq" and len(c.args) == 1 and c.args[0].op == "comp":
        k, n, its = c.args[0].args[:3]
        if len(its) == 1 and its[0].op == "item":
            rs = [ck.same(n, size(was("classes")), care), ck.same(its[0].args[0], elt(sel(nd, "count_per_class"), k), care)]
            ok = False if False in rs else None if None in rs else True
        elif len(its) == 1 and its[0].op == "opt":
            ok = False if ck.same_guard(its[0].args[0], TRUE, care) is False else None
    ck.need(ok, "node-same", r, "count_per_class is read back as %s" % show(c)[:200])
    for side in ("left", "right"):
        want = ite(eq(sel(nd, side), NULL), NULL, T("copy", sel(nd, side)))
        ck.need(ck.same(sel(new, side), want, care), "node-same", r, "the %s child is read back as %s" %
                (side, show(deep(sel(new, side), care))[:200]))
    lossless(ck, R, s)


def ambient(ck, config, wr):
    """the precision a file is written with: that of the numbers outside nodes"""
    s = ck.sum(DT + "save", 1, opaque={wr}, keeps={wr}, config=config)
    ps = {x.args[2] for e, _ in s.kinds("put") if isinstance(e.args[0], T) for x in subterms(e.args[0]) if x.op == "flt"}
    if len(ps) == 1:
        return ps.pop()
    return T("unk", "precision")


def c_forest(ck, config):
    p = ck.prog(config)
    dts = {n for n in p.by_qn if n.startswith(DT)}
    s = ck.sum(RF + "save", 1, opaque=dts, keeps=dts, config=config)
    named_file(ck, s)
    wt = list(dict.fromkeys(e.name for e, _ in s.kinds("call") if e.name in dts))
    if len(wt) != 1:
        raise Undecided("writers of a tree %s" % wt)
    wt = wt[0]
    exp = expansion(ck, {wt} | set(recursive(ck, DT + "save", 1, config=config)), stored, config)

    def ren(t):
        # a trained forest has as many trees as it was asked for (C08); it is read for as many classes
        t = stored(t)
        m = {size(was("rfc")): was("num_trees"), was("num_classes"): nc}
        return interp.map_b_subst(t, m) if isinstance(t, B) else subst(t, m)
    for what, np_ in (("load", 1), ("RandomForestImpl", 2)):
        for f in [f for f in p.by_qn.get(RF + what, []) if len(f["p"]) == np_]:
            r = ck.sum(RF + what, np_, f=f, opaque=fmt.OPS | dts, config=config)
            care = TRUE
            nc = in_this("num_classes")
            if what == "load":
                g = missing_file(ck, r)
                if g is None:
                    continue
                care = care & g
            else:
                nc = argv(r, 0)
                for t, _ in r.kinds("throw", "abort"):
                    for a in terms.batoms(t.guard):
                        if a.op in ("good", "isopen", "opened"):
                            care = care & atom(a)
            care = care & cmp_(">=", nc, ZERO, True)
            g = fmt.grammar(fmt.write_tree(s.events, file_stream, {wt: exp}, sub=ren))
            R = fmt.agree(ck, "forest-format", g, r, {"DecisionTreeImpl": wt}, care=care, w=s, alive=care)
            if R is None:
                return
            me = R.value(whole(r))
            fields(ck, "forest-same", r, me, T("in", (STORED, ())), ("num_trees", "max_depth"), care)
            trees(ck, r, R, sel(me, "rfc"), nc, care)
            rejected(ck, R, care, "forest")
            for x, _, _ in R.recs.values():
                os_ = values.sel(x.args[0], "os")
                pr = values.sel(s.read(os_), "$prec") if as_addr(os_).op == "addr" else T("unk", "stream")
                ck.need(None if not is_num(pr) else pr.args[0] >= 9, "exact", x.ev,
                        "thresholds are printed with %s significant digits, 9 are needed" % show(pr))
            if R.skip.get(wt, 0):
                ck.undecided("forest-format", r, "part of a tree is read by the forest")
    # one tree inside the forest
    rec, _, ev = next(iter(R.recs.values()))
    c_inner(ck, wt, rec, ev, config)


def trees(ck, w, R, v, nc, care):
    ok = None
    if v.op == "seq" and len(v.args) == 1 and v.args[0].op == "comp":
        k, n, its = v.args[0].args[:3]
        if len(its) == 1 and its[0].op == "item":
            x = its[0].args[0]
            made = {e.obj for _, _, e in R.recs.values()}
            ok = ck.same(n, was("num_trees"), care)
            a = as_addr(x)
            if ok and not (a.op == "addr" and a.args[0][0] == "heap" and k in subterms(x)):
                ok = None
    if ok is None and v.op == "seq" and len(v.args) > 1 and understood(v):
        ok = False
    ck.need(ok, "forest-same", w, "the trees are read back as %s" % show(v)[:200])
    for r, _, e in R.recs.values():
        c = R.value(e.args[0])
        ck.need(ck.same(c, nc, care), "forest-same", e, "a tree is read for %s classes" % show(c)[:100])


def c_inner(ck, wt, rec, ev, config):
    p = ck.prog(config)
    wr = recursive(ck, DT + "save", 1, config=config)[0]
    rrec = [n for n in recursive(ck, DT + "load", 1, opaque=fmt.OPS, config=config)
            if any("Parser" in q["t"] for q in p.by_qn[n][0]["p"])]
    rd = rrec[0]
    f = p.funcs.get(ev.key) or next(x for x in p.by_qn[DT + "DecisionTreeImpl"] if len(x["p"]) == 2 and "stream" in x["p"][1]["t"])
    other = {n for n in p.by_qn if "jit" in n.lower() and n.startswith(DT)}
    r = ck.sum(f["qn"], len(f["p"]), f=f, opaque=fmt.OPS | {rd} | other, config=config)
    fw = p.by_qn[wt][0]
    s = ck.sum(wt, len(fw["p"]), f=fw, opaque={wr}, keeps={wr}, config=config)
    g = rec.body
    fmt.agree(ck, "tree-in-forest", g, r, {rd: wr}, w=s)


def c_wrappers(ck, config):
    for cls, impl, mem in (("apollo::DecisionTree::", DT, "dtree"), ("apollo::RandomForest::", RF, "rfc")):
        for what, to in (("store", impl + "save"), ("load", impl + "load")):
            s = ck.sum(cls + what, 1, opaque={to}, config=config)
            ev = s.calls(to)
            ck.once("whole-model", ev, TRUE, s, "%s of the model" % what)
            for e, _ in ev:
                ck.need(ck.same(e.args[0], argv(s, 0)), "named-file", e, "uses the file %s" % show(e.args[0])[:100])
                ck.need(ck.same(e.obj, in_this(mem)), "whole-model", e, "uses %s" % show(e.obj)[:100])
            if what == "load":
                ck.need(ck.same_guard(truth(s.get("trainable")), FALSE), "loaded-is-trained", s,
                        "a loaded model can still be trained: %s" % show(s.get("trainable")))


def c_net(ck):
    """the arrays and counters of the network are read in the order and sizes they were written in"""
    PN = "apollo::PolicyNet::"
    s, r = ck.sum(PN + "store", 1), ck.sum(PN + "load", 1)
    named_file(ck, s)
    e = opened(r)
    if len(e) != 1:
        ck.undecided("net-format", r, "%d files" % len(e))
        return
    ck.need(ck.same(e[0][0].args[0], argv(r, 0)), "named-file", e[0][0], "reads %s" % show(e[0][0].args[0])[:100])
    ws, rs = s.kinds("fwrite"), r.kinds("fread")
    if any(l for _, l in ws + rs) or not ws or not rs:
        ck.undecided("net-format", r, "the file is not written and read as a sequence of blocks")
        return

    def ok_guard(x, es):
        for e, _ in es:
            a = [y for y in terms.batoms(e.guard)]
            if any(y.op != "good" for y in a):
                return e
        return None
    for es in (ws, rs):
        b = ok_guard(None, es)
        if b is not None:
            ck.need(False if understood(bterm(b.guard)) else None, "net-format", b, "happens only if %s" % showb(b.guard)[:200])
            return
    for (w, _), (q, _) in zip(ws, rs):
        a, b = ck.same(w.args[0], q.args[0]), ck.same(w.args[1], q.args[1])
        ck.need(a if a is not True else b, "net-format", q, "%s bytes of %s are written but %s bytes of %s are read" %
                (show(w.args[1])[:100], show(w.args[0])[:100], show(q.args[1])[:100], show(q.args[0])[:100]))
    if len(ws) != len(rs):
        ck.bad("net-format", r, "%d blocks are written, %d read" % (len(ws), len(rs)))
    # everything that is learned is stored, completely
    net = T("in", (("mem", in_this("net")), ()))
    rec = ck.prog().records.get("apollo::Net")
    sizes = {}
    f = next(iter(ck.prog().by_qn.get("apollo::FCLayer::FCLayer", [])), None)
    for fl in (rec or {"f": []})["f"]:
        if "FCLayer" not in fl["t"]:
            continue
        ly = sel(net, fl["n"])
        for m, n in (("weights", mul(sel(ly, "inputSize"), sel(ly, "outputSize"))), ("bias", sel(ly, "outputSize"))):
            hit = [w for w, _ in ws if ck.same(w.args[0], sel(ly, m))]
            if not hit:
                ck.bad("net-complete", s, "%s of %s are not stored" % (m, fl["n"]))
                continue
            want = mul(num(8), n)
            ck.need(ck.same(hit[0].args[1], want), "net-complete", hit[0], "%s bytes of the %s of %s are stored, there are %s" %
                    (show(hit[0].args[1])[:100], m, fl["n"], show(want)[:100]))
    for m, n in (("rewardMovingAvg", 8), ("trainCount", 4)):
        hit = [w for w, _ in ws if ck.same(w.args[0], field_ptr(addr(THIS), m))]
        if not hit:
            ck.bad("net-complete", s, "%s is not stored" % m)
            continue
        ck.need(ck.same(hit[0].args[1], num(n)), "net-complete", hit[0], "%s bytes of %s" % (show(hit[0].args[1]), m))
    g = atom(next(y for y in terms.batoms(rs[0][0].guard)))
    c = r.get("actionProbabilityMap")
    ck.need(True if deep(c, g).op == "mempty" else False if understood(c) else None, "net-no-stale-answers", r,
            "answers of the network before loading are kept: %s" % show(c)[:150])


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("DecisionTreeImpl::Node", "predicted_class", False), ("DecisionTreeImpl::Node", "feature_idx", False),
               ("DecisionTreeImpl::Node", "threshold", True), ("DecisionTreeImpl::Node", "num_samples", False),
               ("DecisionTreeImpl::Node", "count_per_class", False), ("DecisionTreeImpl", "max_depth", False),
               ("DecisionTreeImpl", "num_classes", False), ("DecisionTreeImpl", "num_features", False), ("DecisionTreeImpl",
               "data", False), ("DecisionTreeImpl", "classes", False), ("RandomForestImpl", "num_trees", False),
               ("RandomForestImpl", "max_depth", False), ("RandomForestImpl", "num_classes", False))
    ck.guarded(c_net, ck)
    for config in ("default", "jit"):
        ck.guarded(c_tree, ck, config)
        ck.guarded(c_forest, ck, config)
        ck.guarded(c_wrappers, ck, config)
