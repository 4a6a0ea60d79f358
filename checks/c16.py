"""C16: the policy network draws an existing policy with the probabilities its current network gives for these features,
and learns from every measurement with the same encoding."""
from common import *
import arr
from arr import Point

PN = "apollo::PolicyNet::"
FWD, TS = "apollo::Net::forward", "apollo::Net::trainStep"
R, C = T("k", "row"), T("k", "col")
W = num(64)


def bit(v, j):
    """1 if bit j of feature value v is set"""
    return ite(atom(T("elt", T("bitsof", T("trunc", v, 64)), j)), ONE, ZERO)


def bits_set(j):
    pass


def baseline(ma, n, beta):
    return mul(ma, T("inv", sub(ONE, T("pow", beta, n))))


def freed(ck, s, news, dels):
    for o, (e, l) in news.items():
        d = [(x, y) for x, y in dels if x.obj is o]
        kept = any(o is x or contains(subst(x, {y: UNDEF for y in subterms(x) if y.op == "freed" and y.args[0] is o}), lambda t: t is o) for k, v in s.st.store.items() if k[0] in ("mem", "arg", "glob") for x in [v])
        if kept:
            ck.undecided("freed-once", e, "the array stays reachable")
            continue
        if not d and any(x.kind == "adopt" and x.args[0] is o for x, _ in s.flat):
            ck.ok("freed-once", e, "owned by a smart pointer")
            continue
        ck.once("freed-once", d, e.guard, e, "the array is freed")
        for x, y in d:
            ck.need(x.name == ("delete[]" if e.name == "new[]" else "delete"), "freed-once", x, "freed with %s" % x.name)
            after = [z for z, _ in s.flat if z.kind == "call" and any(a is o for a in z.args if isinstance(a, T)) and not ck.before(s, z, x)]
            for z in after:
                if terms.sat(z.guard & x.guard):
                    ck.bad("freed-once", z, "used after it was freed")


def get_index(ck):
    s = ck.sum(PN + "getIndex", 1, opaque={FWD})
    F = argv(s, 0)
    P, th, n, ma, beta = (in_this(m) for m in ("numPolicies", "threshold", "trainCount", "rewardMovingAvg", "beta"))
    base = ite(cmp_(">", n, ZERO, True), baseline(ma, n, beta), ZERO)
    low = cmp_("<", base, th, False)
    # the answer
    draws = s.kinds("draw")
    ck.once("draws-once", draws, ~low, s, "a policy is drawn")
    ck.need(ck.same(s.res, ZERO, low), "default-policy", s, "below the threshold the answer is %s" % show(deep(s.res, low))[:150])
    fw = s.calls(FWD)
    if len(draws) != 1 or len(fw) != 1:
        ck.undecided("draws-once", s, "%d draws, %d evaluations" % (len(draws), len(fw)))
        return
    d, f = draws[0][0], fw[0][0]
    ck.advances("draws-once", d)
    ans = deep(s.res, ~low)
    drawn = ans.op == "draw" and d.id in ans.args
    ck.need(drawn or (None if contains(ans, lambda t: t.op == "draw") and not understood(ans) else False), "answer-is-drawn", s, "answers %s" % show(ans)[:200])
    dist = d.args[0]
    if dist.op != "discrete":
        ck.undecided("drawn-from-network", d, "draws from %s" % show(dist)[:200])
        return
    probs = dist.args[0]
    # the cache
    m0, m1 = in_this("actionProbabilityMap"), s.get("actionProbabilityMap")
    keys = {x.args[1] for e, _ in s.flat for a in terms.batoms(e.guard) for x in subterms(a) if x.op == "has" and x.args[0] is m0}
    net = init(f.res)
    fresh = f.guard
    k = T("k", "p")

    def is_fresh(v, care, rule, w):
        """v holds the network's numPolicies results"""
        v = deep(v, care)
        ck.need(ck.same(size(v), P, care), rule, w, "%s probabilities" % show(size(v))[:80])
        try:
            x = Point({k: P}).at(v, [(k, P)])
        except Undecided as e:
            ck.undecided(rule, w, str(e))
            return
        ck.need(ck.same(x, values.elt(net, k), care), rule, w, "probability k is %s" % show(x)[:150])
    if not keys and fresh is not FALSE and ck.same_guard(fresh, ~low) is True:
        is_fresh(probs, fresh, "drawn-from-network", d)        # no cache at all
    elif len(keys) == 1:
        (key,) = keys
        hit = has(m0, key)
        ck.need(key_ok(ck, s, key, F), "cache-key", s, "the cache key is %s" % show(key)[:200], "the key determines the encoded features")
        ck.need(ck.same_guard(fresh, ~low & ~hit), "cache", f, "the network is evaluated when %s" % showb(fresh)[:200])
        ck.need(ck.same(probs, mget(m0, key), ~low & hit), "drawn-from-network", d, "on a cached state draws from %s" % show(deep(probs, ~low & hit))[:200])
        is_fresh(probs, ~low & ~hit, "drawn-from-network", d)
        # only this entry is added, with what was drawn from
        q = T("anykey")
        for c, nm in ((low, "below the threshold"), (~low & hit, "on a cached state")):
            ck.need(same_map(ck, deep(m1, c), m0, [key], c), "cache", s, "%s the cache becomes %s" % (nm, show(deep(m1, c))[:150]))
        c = ~low & ~hit
        m2 = deep(m1, c)
        oth = c & ~keq(key, q)
        ck.need(ck.same_guard(has(m2, q), has(m0, q), oth), "cache", s, "other entries change: %s" % show(m2)[:200])
        ck.need(ck.same(mget(m2, q), mget(m0, q), oth & has(m0, q)), "cache", s, "other entries change: %s" % show(m2)[:200])
        inn = c & has(m2, key)
        if terms.sat(inn):
            is_fresh(mget(m2, key), inn, "cached-is-network", s)
    else:
        ck.undecided("cache", s, "%d cache keys" % len(keys))
    # evaluation
    ck.need(ck.same(f.args[1], ONE), "encoding", f, "evaluates %s states" % show(f.args[1])[:80])
    ck.need(ck.same(f.obj, in_this("net")), "drawn-from-network", f, "evaluates %s" % show(f.obj)[:80])
    encoding(ck, f, 0, [(R, size(F)), (C, W)], values.elt(F, R), "evaluated")
    news = {e.obj: (e, l) for e, l in s.kinds("new")}
    freed(ck, s, news, s.kinds("delete"))
    for o, (e, l) in news.items():
        if f.args[0] is o:
            ck.need(ck.same(e.args[0], mul(W, size(F))), "room", e, "the state has %s elements" % show(e.args[0])[:80])
            bounds(ck, f, f.heap[0], e.args[0])
    for m in ("rewardMovingAvg", "trainCount", "numPolicies", "threshold", "beta", "net"):
        ck.need(ck.same(s.get(m), in_this(m)), "asking-only-asks", s, "%s becomes %s" % (m, show(s.get(m))[:100]))
    ck.need(ck.same(s.read(argp(s, 0)), F), "asking-only-asks", s, "the features change")


def bounds(ck, e, A, n):
    arr.in_bounds(ck, "in-bounds", e, A, lambda a: n if a.op == "undef" else (a.args[0] if a.op == "fill" else None))


def key_ok(ck, s, key, F):
    """the key is the text of all 64 bits (or the whole value) of every feature, in order"""
    if key.op == "cat" and len(key.args[0] if isinstance(key.args[0], tuple) else key.args) == 1:
        key = key.args[0][0]
    if key.op == "ite":
        rs = [key_ok(ck, s, x, F) for g, x in terms.cases(key) if x is not T("str", "")]
        return False if False in rs else None if None in rs or not rs else True
    ps = key.args[0] if key.op == "cat" and isinstance(key.args[0], tuple) else key.args if key.op == "cat" else ()
    if key.op not in ("rep", "cat") and understood(key) and not contains(key, lambda t: t.op in ("fold", "k", "bv", "rep")) and contains(key, lambda t: t is F):
        return False            # some elements only
    if key.op == "rep":
        k, n, t = key.args
        if ck.same(n, size(F)) is not True:
            return False if understood(n) else None
        v = values.elt(F, k)
        if t is T("bitstext", T("bitsof", T("trunc", v, 64))):
            return True
        if t.op == "bitstext":
            return ck.same(t.args[0], T("bitsof", T("trunc", v, 64))) or (False if understood(t) else None)
        if not contains(t, lambda x: x is k):
            return False
        if t.op == "dec":
            return False        # numbers of any length, one after the other
        return None
    if key.op == "str" or not contains(key, lambda x: x is F):
        return False if understood(key) else None
    if key is F:
        return True
    return None


def encoding(ck, e, i, digits, v, what):
    """bit c of feature r of the state is at 64 r + c"""
    h = (getattr(e, "heap", None) or {}).get(i)
    if h is None:
        ck.undecided("encoding", e, "the %s state is %s" % (what, show(e.args[i])[:100]))
        return
    try:
        x = Point(dict(digits)).at(h, digits)
    except Undecided as u:
        # every bit is stored, but elsewhere
        ws = writes(h)
        if len(ws) == 1:
            i, v2 = ws[0]
            ks = [t for t in subterms(v2) if t.op == "k"]
            F = v.args[0]
            for a in ks:
                for b in ks:
                    if a is not b and flatbits(v2) is bit(values.elt(F, a), b):
                        ck.need(ck.same(i, add(mul(W, a), b)), "encoding", e, "bit c of feature r is element %s of the %s state" % (show(i)[:150], what))
                        return
        ck.undecided("encoding", e, "the %s state: %s" % (what, u))
        return
    x = flatbits(x)
    care = cmp_("<=", ZERO, digits[-1][0], True) & cmp_("<", digits[-1][0], W, True)
    want = bit(v, C)
    r = ck.same(x, want, care & e.guard)
    if r is False and contains(x, lambda t: t.op in OTHER):
        r = None
    ck.need(r, "encoding", e, "element 64 r + c of the %s state is %s" % (what, show(canon(x))[:300]), "bit c of feature r is element 64 r + c")


def writes(t):
    """(index, value) of the stores a loop nest makes, None if one is conditional"""
    if t.op == "fold":
        return writes(t.args[3][t.args[2]]) + writes(t.args[4][t.args[2]])
    if t.op == "tab":
        return writes(t.args[0]) + [(t.args[3], t.args[4])]
    if t.op == "upd":
        return writes(t.args[0]) + [(t.args[1], t.args[2])]
    if t.op in ("undef", "acc", "fill"):
        return []
    return [(None, t), (None, t)]


def flatbits(x):
    """(v >> j) & 1 is bit j of v"""
    def f(t):
        t = terms.rebuild(t, f)
        if t.op == "bit&" and ONE in t.args:
            o = t.args[0] if t.args[1] is ONE else t.args[1]
            if o.op == "bit>>":
                return ite(atom(T("elt", T("bitsof", o.args[0]), o.args[1])), ONE, ZERO)
        return t
    return f(x)


OTHER = ("comp", "seq", "fold", "acc", "slice", "bit&", "bit>>", "bit<<", "bit|", "bit^", "mod", "idiv")


def train(ck):
    s = ck.sum(PN + "train", 1, opaque={TS})
    D = sel(argv(s, 0), "data")
    N = size(D)
    th, n, ma, beta = (in_this(m) for m in ("threshold", "trainCount", "rewardMovingAvg", "beta"))
    some = cmp_(">", N, ZERO, True)
    row = lambda r: values.elt(D, r)
    met = lambda r: sel(row(r), "second")
    feats = lambda r: sel(sel(row(r), "first"), "first")
    pol = lambda r: sel(sel(row(r), "first"), "second")
    k = T("k", "m")
    rew = lambda r: T("exp", scale(met(r), -1))
    mean = mul(mk_sum(k, N, rew(k)), T("inv", N))
    ma1 = add(mul(beta, ma), mul(sub(ONE, beta), mean))
    n1 = add(n, ONE)
    b1 = baseline(ma1, n1, beta)
    for m, v in (("rewardMovingAvg", ma1), ("trainCount", n1)):
        ck.need(ck.same(s.get(m), v, some), "reward-average", s, "%s becomes %s" % (m, show(deep(s.get(m), some))[:250]))
        ck.need(ck.same(s.get(m), in_this(m), ~some), "no-data", s, "without data %s becomes %s" % (m, show(deep(s.get(m), ~some))[:150]))
    ts = s.calls(TS)
    ck.once("one-step", ts, some & ~cmp_("<", b1, th, False), s, "the network is trained")
    # nothing evaluated before the training survives it
    mp = s.get("actionProbabilityMap")
    q = T("anykey")
    trained = bor_([e.guard for e, l in ts])
    ck.need(ck.same_guard(has(mp, q), FALSE, trained), "cache-dropped", s, "after training the cache is %s" % show(deep(mp, trained))[:150])
    for m in ("numPolicies", "threshold", "beta", "net"):
        ck.need(ck.same(s.get(m), in_this(m)), "training-only-trains", s, "%s becomes %s" % (m, show(s.get(m))[:100]))
    ck.need(ck.same(s.read(field_ptr(argp(s, 0), "data")), D), "training-only-trains", s, "the data set changes")
    if len(ts) != 1:
        return
    e = ts[0][0]
    care = e.guard
    ck.need(ck.same(e.args[3], N, care), "one-example-each", e, "trains on %s examples" % show(e.args[3])[:100])
    ck.need(ck.same(e.obj, in_this("net")), "one-step", e, "trains %s" % show(e.obj)[:80])
    news = {x.obj: (x, l) for x, l in s.kinds("new")}
    for i, (want, what) in ((1, (pol(R), "action")), (2, (sub(rew(R), b1), "reward"))):
        h = (getattr(e, "heap", None) or {}).get(i)
        if h is None:
            ck.undecided("one-example-each", e, "the %ss are %s" % (what, show(e.args[i])[:100]))
            continue
        try:
            x = Point({R: N}).at(h, [(R, N)])
        except Undecided as u:
            ck.undecided("one-example-each", e, "the %ss: %s" % (what, u))
            continue
        ck.need(ck.same(x, want, care), "one-example-each", e, "the %s of example r is %s" % (what, show(canon(x))[:300]), "%s of every example" % what)
        if e.args[i] in news:
            nn = news[e.args[i]][0]
            bounds(ck, e, h, nn.args[0])
            ck.need(ck.same(nn.args[0], N, care), "room", nn, "room for %s %ss" % (show(nn.args[0])[:80], what))
    # states: row r of 64 * (number of features) elements
    w = mul(W, size(feats(ZERO)))
    h = (getattr(e, "heap", None) or {}).get(0)
    if h is None:
        ck.undecided("encoding", e, "the states are %s" % show(e.args[0])[:100])
    else:
        try:
            x = Point({R: N, C: w}).at(h, [(R, N), (C, w)])
            want = seq_bits(feats(R), C)
            ok = state_row(ck, x, feats(R), C)
            ck.need(ok, "encoding", e, "element c of the state of example r is %s" % show(canon(x))[:300], "bit c of feature r is element 64 r + c")
        except Undecided as u:
            ck.undecided("encoding", e, str(u))
        if e.args[0] in news:
            nn = news[e.args[0]][0]
            bounds(ck, e, h, nn.args[0])
            ck.need(ck.same(nn.args[0], mul(N, w), care), "room", nn, "room for %s state elements" % show(nn.args[0])[:100])
    freed(ck, s, news, s.kinds("delete"))


def seq_bits(f, c):
    return None


def bor_(gs):
    r = FALSE
    for g in gs:
        r = r | g
    return r


def state_row(ck, x, feats, c):
    """x is element c of the list of all 64 bits of every feature in order"""
    if x.op == "elt" and x.args[1] is c and x.args[0].op == "seq":
        ps = x.args[0].args[0] if isinstance(x.args[0].args[0], tuple) else x.args[0].args
        if len(ps) == 1 and ps[0].op == "comp":
            i, n, body = ps[0].args[:3]
            if ck.same(n, size(feats)) is not True:
                return False if understood(n) else None
            body = body if isinstance(body, tuple) else (body,)
            if len(body) == 1 and body[0].op == "comp":
                j, m, b2 = body[0].args[:3]
                b2 = b2 if isinstance(b2, tuple) else (b2,)
                if m is not W:
                    return False if is_num(m) else None
                if len(b2) == 1 and b2[0].op == "item":
                    return ck.same(b2[0].args[0], bit(values.elt(feats, i), j))
        return None
    # written element by element
    j, i = T("mod", c, W), T("idiv", c, W)
    if ck.same(x, bit(values.elt(feats, i), j)) is True:
        return True
    return None if contains(x, lambda t: t.op in ("comp", "seq", "fold", "acc", "slice", "mod", "idiv")) or not understood(x) else False


def ctor(ck):
    f = ck.prog().by_qn[PN + "PolicyNet"][0]
    s = ck.sum(PN + "PolicyNet", len(f["p"]), f=f, opaque={"apollo::Net::Net"})
    P, NF = argv(s, 0), argv(s, 1)
    for m, v in (("numPolicies", P), ("policy_count", P), ("beta", argv(s, 3)), ("threshold", argv(s, 6)), ("rewardMovingAvg", ZERO), ("trainCount", ZERO)):
        ck.need(ck.same(s.get(m), v), "new-model", s, "%s of a new model is %s" % (m, show(s.get(m))[:100]))
    ck.need(ck.same_guard(has(s.get("actionProbabilityMap"), T("anykey")), FALSE), "new-model", s, "the cache starts as %s" % show(s.get("actionProbabilityMap"))[:80])
    cs = [(e, l) for e, l in s.flat if e.kind == "ctor" and e.name in ("apollo::Net", "apollo::Net::Net")]
    if len(cs) != 1:
        ck.undecided("shape", s, "%d networks" % len(cs))
        return
    e = cs[0][0]
    for i, v, what in ((0, mul(W, NF), "inputs"), (2, P, "outputs"), (3, argv(s, 2), "learning rate"), (4, argv(s, 4), "beta1"), (5, argv(s, 5), "beta2")):
        ck.need(ck.same(e.args[i], v), "shape", e, "the network's %s: %s" % (what, show(e.args[i])[:100]))
    ck.need(ck.same(s.get("net"), e.obj), "shape", s, "the model's network is %s" % show(s.get("net"))[:80])
    c = ck.sum(PN + "isTrainable", 0)
    ck.need(ck.same(c.res, in_this("trainable")) if True else None, "trainable", c, "isTrainable is %s" % show(c.res)[:80])
    ck.need(ck.same(s.get("trainable"), bterm(TRUE)), "trainable", s, "trainable starts as %s" % show(s.get("trainable"))[:50])


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("apollo::PolicyNet", "numPolicies", False), ("apollo::PolicyNet", "rewardMovingAvg", True),
               ("apollo::PolicyNet", "beta", True), ("apollo::PolicyNet", "threshold", True), ("apollo::PolicyNet",
               "trainCount", False))
    ck.assume.append("Features are non-negative and below 2^64 (the conversion to an unsigned integer is undefined otherwise), and every measurement has the region's number of features.")
    ck.assume.append("std::discrete_distribution draws an index below the number of weights it was given.")
    for f in (get_index, train, ctor):
        ck.guarded(f, ck)
