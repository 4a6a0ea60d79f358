"""C20: the policy network computes its forward pass, its policy gradient and its Adam update exactly."""
from common import *
import arr
from arr import Point, at_

FC, RE, SM, NET = "apollo::FCLayer::", "apollo::ReLU::", "apollo::Softmax::", "apollo::Net::"


def content(s, p):
    """content of the array at p in the final state"""
    a = as_addr(p)
    return s.st.store.get(a.args[0], interp.init_of(a.args[0]))


def ptr_cases(s, p, care):
    out = []
    for g, x in terms.cases(p, care):
        out.append((g, x, deep(content(s, x), g)))
    return out


def E(p, i):
    return values.elt(init(p), i)


R, C = T("k", "row"), T("k", "col")
K = T("k", "sum")


def expect(ck, rule, s, A, digits, want, what, dom, care=TRUE):
    pt = Point(dom)
    for v, n in digits:
        pt.dom[v] = n
    try:
        got = pt.at(A, digits)
    except Undecided as e:
        ck.undecided(rule, s, "%s: %s" % (what, e))
        return None
    got = deep(got, care)
    r = ck.same(got, want, care)
    if r is False and contains(got, lambda x: x.op in ("acc", "sfold", "fold", "tab", "upd")):
        r = None
    ck.need(r, rule, s, "%s is %s, not %s" % (what, show(canon(got))[:400], show(canon(want))[:300]), what)
    return got


def starts_null(ck, cls, m):
    """the member is null in a new object (freeing null does nothing)"""
    r = ck.prog().records.get(cls) or {}
    for f in r.get("f", ()):
        if f["n"] == m and f.get("i") is not None:
            x = f["i"]
            while x.get("k") in ("cast", "init") and (x.get("a") or x.get("e")):
                y = x.get("a") or x.get("e")
                x = y[0] if isinstance(y, list) else y
            return x.get("k") in ("null", "nullptr") or x.get("k") in ("int", "num", "lit") and str(x.get("v")) == "0" or None
    return False


def owned(ck, s, room, need, arrays):
    """the buffers are replaced exactly when they are too small, the old ones freed, the new ones large enough"""
    outs = in_this("outputs")
    have = eq(outs, NULL)
    news = {e.obj: (e, l) for e, l in s.kinds("new") if e.name == "new[]"}
    dels = s.kinds("delete")
    grow = FALSE
    after = {}
    for m, n in arrays:
        v = s.get(m)
        after[m] = v
        g_new = FALSE
        for g, x in terms.cases(v):
            if x in news:
                e = news[x][0]
                ck.need(ck.same(e.args[0], n, g), "room", e, "%s is made for %s elements" % (m, show(e.args[0])[:100]))
                ck.need(ck.same_guard(e.guard, g), "room", e, "%s is made when %s" % (m, showb(e.guard)[:150]))
                g_new = g_new | g
            elif x is not in_this(m):
                ck.undecided("room", s, "%s becomes %s" % (m, show(x)[:100]))
        # exactly when the old one is too small
        miss = need & ~g_new
        ck.need(False if terms.sat(miss) and understood(bterm(g_new)) else (None if terms.sat(miss) else True), "room", s,
                "%s keeps its size although %s" % (m, showb(miss)[:200]))
        grow = grow | g_new
        gone = [(e, l) for e, l in dels if e.obj is in_this(m)]
        null = starts_null(ck, s.f["qn"].rsplit("::", 1)[0], m)
        ck.once("freed-once", gone, g_new & ~have, s, "the old %s is freed" % m, care=~have & ~eq(in_this(m), NULL) if null else TRUE)
    used = {x for m in after for g, x in terms.cases(after[m])}
    for o, (e, l) in news.items():
        if o not in used:
            d = [x for x, _ in dels if x.obj is o]
            if not d:
                ck.undecided("freed-once", e, "an array of its own")
    # remembered size
    v = s.get(room[0])
    for c, n in ((grow, room[1]), (~grow, in_this(room[0]))):
        if terms.sat(c):
            ck.need(ck.same(v, n, c), "room", s, "%s becomes %s" % (room[0], show(deep(v, c))[:150]))
    # the outputs array is known to exist once it does
    for e, l in dels:
        if e.obj not in [in_this(m) for m, _ in arrays] + list(news):
            ck.need(None, "freed-once", e, "frees %s" % show(e.obj)[:100])
    return grow


def sizes(tab):
    def f(a):
        return tab.get(a)
    return f


def fc_forward(ck):
    s = ck.sum(FC + "forward", 2)
    B, I, O = argv(s, 1), in_this("inputSize"), in_this("outputSize")
    X, W, b = argv(s, 0), in_this("weights"), in_this("bias")
    need = cmp_(">", B, in_this("maxBatchSize"), True)
    owned(ck, s, ("maxBatchSize", B), need, [("outputs", mul(B, O)), ("inputGrad", mul(B, I))])
    dom = {R: B, C: O}
    want = add(E(b, C), mk_sum(K, I, mul(E(W, add(mul(C, I), K)), E(X, add(mul(R, I), K)))))
    ck.need(ck.same(s.res, s.get("outputs")), "forward", s, "returns %s" % show(s.res)[:100])
    for g, p, A in ptr_cases(s, s.res, TRUE):
        expect(ck, "forward", s, A, [(R, B), (C, O)], want, "output (row, column)", dom, g)
        full = {init(X): mul(B, I), init(W): mul(O, I), init(b): O, init(in_this("outputs")): mul(B, O), UNDEF: mul(B, O)}
        sz = lambda a: full.get(a) if a.op != "fill" else a.args[0]
        arr.in_bounds(ck, "in-bounds", s, A, sz, dom)


def fc_backward(ck):
    s = ck.sum(FC + "backward", 3)
    B, I, O = argv(s, 2), in_this("inputSize"), in_this("outputSize")
    X, G, W = argv(s, 0), argv(s, 1), in_this("weights")
    gi, gw, gb = (in_this(m) for m in ("inputGrad", "weights_grad", "bias_grad"))
    ck.need(ck.same(s.res, gi), "backward", s, "returns %s" % show(s.res)[:100])
    full = {init(X): mul(B, I), init(G): mul(B, O), init(W): mul(O, I), init(gi): mul(B, I), init(gw): mul(O, I), init(gb): O}
    for p, dg, want, what in (
            (gi, [(R, B), (C, I)], mk_sum(K, O, mul(E(W, add(mul(K, I), C)), E(G, add(mul(R, O), K)))), "gradient of the inputs"),
            (gw, [(R, O), (C, I)], mk_sum(K, B, mul(E(X, add(mul(K, I), C)), E(G, add(mul(K, O), R)))), "gradient of the weights"),
            (gb, [(C, O)], mk_sum(K, B, E(G, add(mul(K, O), C))), "gradient of the bias")):
        A = content(s, p)
        expect(ck, "backward", s, A, dg, want, what, dict(dg))
        arr.in_bounds(ck, "in-bounds", s, A, full.get, dict(dg))


def fc_step(ck):
    s = ck.sum(FC + "step", 4)
    lr, b1, b2, eps = (argv(s, i) for i in range(4))
    I, O = in_this("inputSize"), in_this("outputSize")
    n = add(in_this("stepNum"), ONE)
    ck.need(ck.same(s.get("stepNum"), n), "adam", s, "stepNum becomes %s" % show(s.get("stepNum"))[:100])
    for w, dg in (("weights", [(R, O), (C, I)]), ("bias", [(C, O)])):
        i = Point().flat(dg)
        g = E(in_this(w + "_grad"), i)
        m = add(mul(b1, E(in_this(w + "_m"), i)), mul(sub(ONE, b1), g))
        v = add(mul(b2, E(in_this(w + "_v"), i)), mul(sub(ONE, b2), mul(g, g)))
        mh = mul(m, T("inv", sub(ONE, T("pow", b1, n))))
        vh = mul(v, T("inv", sub(ONE, T("pow", b2, n))))
        new = add(E(in_this(w), i), mul(mul(lr, mh), T("inv", add(T("sqrt", vh), eps))))
        full = {init(in_this(w + x)): (mul(O, I) if w == "weights" else O) for x in ("", "_m", "_v", "_grad")}
        for p, want, what in ((w + "_m", m, "first moment of the %s" % w), (w + "_v", v, "second moment of the %s" % w), (w, new, "updated %s" % w)):
            A = content(s, in_this(p))
            expect(ck, "adam", s, A, dg, want, what, dict(dg))
            arr.in_bounds(ck, "in-bounds", s, A, full.get, dict(dg))
        A = content(s, in_this(w + "_grad"))
        ck.need(A is init(in_this(w + "_grad")) or None, "adam", s, "%s_grad changes" % w)


def relu(ck):
    s = ck.sum(RE + "forward", 3)
    X, B, O = argv(s, 0), argv(s, 1), argv(s, 2)
    n = mul(B, O)
    owned(ck, s, ("maxArraySize", n), cmp_(">", n, in_this("maxArraySize"), True), [("outputs", n), ("inputGrad", n)])
    ck.need(ck.same(s.res, s.get("outputs")), "relu", s, "returns %s" % show(s.res)[:100])
    x = E(X, add(mul(R, O), C))
    for g, p, A in ptr_cases(s, s.res, TRUE):
        for c, want, what in ((cmp_(">", x, ZERO, False), x, "output for a positive input"), (cmp_("<", x, ZERO, False), ZERO, "output for a negative input")):
            expect(ck, "relu", s, A, [(R, B), (C, O)], want, what, {R: B, C: O}, g & c)
        full = {init(X): n, init(in_this("outputs")): n, UNDEF: n}
        arr.in_bounds(ck, "in-bounds", s, A, full.get, {R: B, C: O})
    s = ck.sum(RE + "backward", 4)
    X, G, B, I = (argv(s, i) for i in range(4))
    gi = in_this("inputGrad")
    ck.need(ck.same(s.res, gi), "relu-gradient", s, "returns %s" % show(s.res)[:100])
    A = content(s, gi)

    def sb(t):
        return terms.rebuild(t, sb) if t.op != "signbit" else t
    A = unsign(A)
    i = add(mul(R, I), C)
    x, g = E(X, i), E(G, i)
    for c, want, what in ((cmp_(">", x, ZERO, False), g, "gradient where the input is positive"), (cmp_("<", x, ZERO, False), ZERO, "gradient where the input is negative")):
        expect(ck, "relu-gradient", s, A, [(R, B), (C, I)], want, what, {R: B, C: I}, c)
    full = {init(X): mul(B, I), init(G): mul(B, I), init(gi): mul(B, I)}
    arr.in_bounds(ck, "in-bounds", s, A, full.get, {R: B, C: I})


def unsign(t):
    """signbit(x) as x < 0 (they differ at zero only)"""
    def fb(b):
        for a in terms.batoms(b):
            if a.op == "signbit":
                v = terms.support(atom(a))
                b = terms.bite(cmp_("<", a.args[0], ZERO, False), terms.restrict(b, atom(a)), terms.restrict(b, ~atom(a)))
        return b

    def f(x):
        if x.op == "ite":
            return ite(fb(x.args[0]), f(x.args[1]), f(x.args[2]))
        return terms.rebuild(x, f)
    return f(t)


def softmax(ck):
    s = ck.sum(SM + "forward", 3)
    X, B, O = argv(s, 0), argv(s, 1), argv(s, 2)
    n = mul(B, O)
    owned(ck, s, ("maxArraySize", n), cmp_(">", n, in_this("maxArraySize"), True), [("outputs", n), ("inputGrad", n)])
    ck.need(ck.same(s.res, s.get("outputs")), "softmax", s, "returns %s" % show(s.res)[:100])
    for g, p, A in ptr_cases(s, s.res, TRUE):
        one_softmax(ck, s, g, A, X, B, O)
        full = {init(X): n, init(in_this("outputs")): n, UNDEF: None}
        arr.in_bounds(ck, "in-bounds", s, A, full.get, {R: B, C: O})


def one_softmax(ck, s, g, A, X, B, O):
    pt = Point({R: B, C: O})
    try:
        got = deep(pt.at(A, [(R, B), (C, O)]), g)
    except Undecided as e:
        ck.undecided("softmax", s, str(e))
        return
    box = cmp_("<=", ZERO, C, True) & cmp_("<", C, O, True) & cmp_("<=", ZERO, R, True) & cmp_("<", R, B, True)
    for g2, x in terms.cases(got, g & box):
        one_case(ck, s, g2, x, X, B, O)


def one_case(ck, s, g, got, X, B, O):
    x = E(X, add(mul(R, O), C))
    p = to_poly(got)
    ex = [f for m in p for f in m if f.op == "exp"]
    if len(p) != 1 or len(ex) != 1:
        if any(f.op in ("acc", "fold", "sfold") for f in subterms(got)) or not understood(got):
            ck.undecided("softmax", s, "probability is %s" % show(got)[:300])
        else:
            ck.bad("softmax", s, "probability is %s" % show(got)[:300])
        return
    a = sub(x, ex[0].args[0])
    if contains(a, lambda t: t is C):
        ck.bad("softmax", s, "probability is %s" % show(got)[:300])
        return
    xk = E(X, add(mul(R, O), K))
    want = mul(T("exp", sub(x, a)), T("inv", mk_sum(K, O, T("exp", sub(xk, a)))))
    r = ck.same(got, want, g)
    ck.need(r, "softmax", s, "probability is %s" % show(canon(got))[:400], "exponential over the sum of the row's exponentials")
    # the largest input of the row is subtracted, so no exponential overflows
    if a is ZERO:
        ck.bad("no-overflow", s, "exp of the plain input overflows for inputs above 710")
        return
    if a.op == "sfold":
        k, n, i0, st = a.args
        sa = T("sacc")
        mx = [ite(cmp_("<", sa, E(X, add(mul(R, O), k)), False), E(X, add(mul(R, O), k)), sa),
              ite(cmp_("<=", sa, E(X, add(mul(R, O), k)), False), E(X, add(mul(R, O), k)), sa)]
        ok = any(st is y for y in mx) and n is O
        st_ok = ok and i0 is E(X, mul(R, O))
        if ok and (st_ok or i0.op in ("num", "unset")):
            ck.need(st_ok, "no-overflow", s, "the largest input starts as %s" % show(i0)[:80], "the largest input of the row is subtracted")
        elif ok and i0.op == "elt" and i0.args[0] is E(X, ZERO).args[0] and not contains(i0.args[1], lambda t: t is R):
            ck.bad("no-overflow", s, "the largest input of a row starts as %s, of another row" % show(i0)[:80])
        else:
            ck.undecided("no-overflow", s, "subtracts %s" % show(a)[:200])
        return
    ck.undecided("no-overflow", s, "subtracts %s" % show(a)[:200])


def loss(ck):
    s = ck.sum(SM + "lossGrad", 5)
    A0, PR, RW, B, I = (argv(s, i) for i in range(5))
    gi = in_this("inputGrad")
    ck.need(ck.same(s.res, gi), "policy-gradient", s, "returns %s" % show(s.res)[:100])
    A = content(s, gi)
    i = add(mul(R, I), C)
    act = E(A0, R)
    dom = {R: B, C: I}
    for t in subterms(A):
        if t.op == "elt" and t.args[0] is init(A0):
            dom[t] = I
    dom[act] = I
    care = cmp_("<=", ZERO, act, True) & cmp_("<", act, I, True)
    base = mul(scale(mul(E(RW, R), E(PR, i)), -1), T("inv", B))
    hit = add(base, mul(E(RW, R), T("inv", B)))
    pt = Point(dom)
    try:
        got = pt.at(A, [(R, B), (C, I)])
    except Undecided as e:
        ck.undecided("policy-gradient", s, str(e))
        return
    h = at_(act, C) & cmp_("==", act, C, True)
    care = care & cmp_("<=", ZERO, C, True) & cmp_("<", C, I, True)
    for c, want, what in ((h, hit, "gradient of the chosen policy"), (~at_(act, C) & cmp_("!=", act, C, True), base, "gradient of another policy")):
        r = ck.same(deep(got, c & care), want, c & care)
        ck.need(r, "policy-gradient", s, "%s is %s" % (what, show(canon(deep(got, c & care)))[:300]), what)
    full = {init(A0): B, init(PR): mul(B, I), init(RW): B, init(gi): mul(B, I)}
    arr.in_bounds(ck, "in-bounds", s, A, full.get, dom)


def fc_life(ck):
    s = ck.sum(FC + "FCLayer", 2)
    I, O = argv(s, 0), argv(s, 1)
    news = {e.obj: e for e, l in s.kinds("new") if e.name == "new[]"}
    mine = {}
    for m, v in (("inputSize", I), ("outputSize", O), ("stepNum", ZERO), ("maxBatchSize", ZERO), ("outputs", NULL)):
        ck.need(ck.same(s.get(m), v), "new-layer", s, "%s of a new layer is %s" % (m, show(s.get(m))[:100]))
    for w in ("weights", "bias"):
        n = mul(O, I) if w == "weights" else O
        for x in ("", "_m", "_v", "_grad"):
            p = s.get(w + x)
            if p not in news:
                ck.undecided("new-layer", s, "%s is %s" % (w + x, show(p)[:100]))
                continue
            ck.need(ck.same(news[p].args[0], n), "new-layer", news[p], "%s has %s elements" % (w + x, show(news[p].args[0])[:80]))
            ck.need(p not in mine, "new-layer", s, "%s and %s share an array" % (w + x, mine.get(p)))
            mine[p] = w + x
            A = content(s, p)
            if x in ("_m", "_v"):
                dg = [(R, O), (C, I)] if w == "weights" else [(C, O)]
                expect(ck, "new-layer", s, A, dg, ZERO, "initial %s" % (w + x), dict(dg))
            if not x:
                dg = [(R, O), (C, I)] if w == "weights" else [(C, O)]
                pt = Point(dict(dg))
                try:
                    g = pt.at(A, dg)
                    ck.need(not contains(g, lambda t: t.op == "unset"), "new-layer", s, "initial %s is not set" % w)
                except Undecided as e:
                    ck.undecided("new-layer", s, str(e))
            full = {UNDEF: n}
            arr.in_bounds(ck, "in-bounds", s, A, lambda a: a.args[0] if a.op == "fill" else full.get(a))
    for cls, always in ((FC + "~FCLayer", ("weights", "weights_m", "weights_v", "weights_grad", "bias", "bias_m", "bias_v", "bias_grad")),
                        (RE + "~ReLU", ()), (SM + "~Softmax", ())):
        d = ck.sum(cls, 0)
        left = d.kinds("delete")
        for m in always + ("outputs", "inputGrad"):
            evs = [(e, l) for e, l in left if e.obj is in_this(m)]
            if m in always:
                ck.once("freed-once", evs, TRUE, d, "%s is freed" % m)
            elif m == "outputs":        # freeing null does nothing
                ck.once("freed-once", evs, TRUE, d, "%s is freed" % m, care=~eq(in_this("outputs"), NULL))
            else:
                have = ~eq(in_this("outputs"), NULL)
                null = starts_null(ck, cls.rsplit("::", 1)[0], m)       # then both are null or neither is
                ck.once("freed-once", evs, have, d, "%s is freed" % m, care=have & ~eq(in_this(m), NULL) if null else TRUE)
            for e, l in evs:
                ck.need(e.name == "delete[]", "freed-once", e, "%s is freed with %s" % (m, e.name))


LAYERS = {FC + "forward", FC + "backward", FC + "step", RE + "forward", RE + "backward", SM + "forward", SM + "lossGrad"}


def net(ck):
    s = ck.sum(NET + "Net", opaque={FC + "FCLayer"})
    i, h, o = (argv(s, j) for j in range(3))
    cs = s.calls(FC + "FCLayer")
    for m, a, b in (("layer1", i, h), ("layer2", h, h), ("layer3", h, o)):
        ev = [e for e, l in cs if e.obj is s.this(m)]
        if len(ev) != 1:
            ck.undecided("shape", s, "%d constructions of %s" % (len(ev), m))
            continue
        ck.need(ck.same(ev[0].args[0], a), "shape", ev[0], "%s has %s inputs" % (m, show(ev[0].args[0])[:80]))
        ck.need(ck.same(ev[0].args[1], b), "shape", ev[0], "%s has %s outputs" % (m, show(ev[0].args[1])[:80]))
    for m, j in (("inputSize", 0), ("hiddenSize", 1), ("outputSize", 2), ("learnRate", 3), ("beta1", 4), ("beta2", 5)):
        ck.need(ck.same(s.get(m), argv(s, j)), "shape", s, "%s is %s" % (m, show(s.get(m))[:80]))
    for q, np, nb in ((NET + "forward", 2, 1), (NET + "trainStep", 4, 3)):
        f = ck.sum(q, np, opaque=LAYERS)
        B, H, O = argv(f, nb), in_this("hiddenSize"), in_this("outputSize")
        evs = f.calls(*LAYERS)
        pos = [0]

        def call(name, obj, *want):
            if pos[0] >= len(evs):
                ck.bad("chain", f, "no call of %s on %s" % (name, obj))
                raise StopIteration
            # backward calls and updates may come in any order their arguments allow: take the one on this object
            hit = [(e, l) for e, l in evs if e.name == name and e.obj is f.this(obj)]
            if len(hit) != 1:
                ck.need(None if any(not understood(e.obj) or e.obj.op == "ite" for e, _ in evs) else False, "chain", f,
                        "%d calls of %s on %s" % (len(hit), name, obj))
                raise StopIteration
            e, l = hit[0]
            ck.need(ck.same_guard(e.guard, TRUE) if not l else None, "chain", e, "%s on %s only when %s" % (name, obj, showb(e.guard)[:100]))
            for k, w in enumerate(want):
                if w is not None:
                    ck.need(ck.same(e.args[k], w), "chain", e, "argument %d of %s on %s is %s" % (k + 1, name, obj, show(e.args[k])[:150]))
            return e

        try:
            o1 = call(FC + "forward", "layer1", argv(f, 0), B)
            a1 = call(RE + "forward", "relu1", o1.res, B, H)
            o2 = call(FC + "forward", "layer2", a1.res, B)
            a2 = call(RE + "forward", "relu2", o2.res, B, H)
            o3 = call(FC + "forward", "layer3", a2.res, B)
            a3 = call(SM + "forward", "softmax", o3.res, B, O)
            order = [o1, a1, o2, a2, o3, a3]
            if nb == 1:
                ck.need(ck.same(f.res, a3.res), "chain", f, "returns %s" % show(f.res)[:100])
            else:
                lg = call(SM + "lossGrad", "softmax", argv(f, 1), a3.res, argv(f, 2), B, O)
                b3 = call(FC + "backward", "layer3", a2.res, lg.res, B)
                r2 = call(RE + "backward", "relu2", o2.res, b3.res, B, H)
                b2 = call(FC + "backward", "layer2", a1.res, r2.res, B)
                r1 = call(RE + "backward", "relu1", o1.res, b2.res, B, H)
                b1 = call(FC + "backward", "layer1", argv(f, 0), r1.res, B)
                order += [lg, b3, r2, b2, r1, b1]
                for m, bw in (("layer1", b1), ("layer2", b2), ("layer3", b3)):
                    st = call(FC + "step", m, in_this("learnRate"), in_this("beta1"), in_this("beta2"))
                    ck.need(ck.before(f, bw, st), "chain", st, "%s is updated before its gradient is known" % m)
                    # a layer's weights may change only after the gradient that passes through them
        except StopIteration:
            pass
        extra = [e for e, l in evs if e.name == NET + "forward"]
        for e in extra:
            ck.undecided("chain", e, "another pass")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("apollo::Net", "inputSize", False), ("apollo::Net", "hiddenSize", False), ("apollo::Net", "outputSize",
               False), ("apollo::Net", "learnRate", True), ("apollo::Net", "beta1", True), ("apollo::Net", "beta2", True),
               ("apollo::FCLayer", "inputSize", False), ("apollo::FCLayer", "outputSize", False), ("apollo::FCLayer",
               "stepNum", False), ("apollo::FCLayer", "maxBatchSize", False), ("apollo::ReLU", "maxArraySize", False),
               ("apollo::Softmax", "maxArraySize", False))
    ck.assume.append("Real arithmetic: rounding, overflow of int products and NaN are not modelled.")
    ck.assume.append("Sizes are at least 1 and every action lies in [0, number of policies).")
    for f in (fc_forward, fc_backward, fc_step, relu, softmax, loss, fc_life, net):
        ck.guarded(f, ck)
