"""C15: a model specification is split into name and parameters, checked, and turned into exactly that model."""
from fractions import Fraction

from common import *

FAC = "apollo::ModelFactory::createPolicyModel"
KEYS = {
    "Static": {"policy"},
    "DecisionTree": {"max_depth", "explore", "load", "load-dataset"},
    "RandomForest": {"num_trees", "max_depth", "explore", "load", "load-dataset"},
    "PolicyNet": {"lr", "beta", "beta1", "beta2", "threshold", "load", "load-dataset"},
    "Random": set(), "RoundRobin": set(), "DatasetMap": set(), "Optimal": set(),
}
CLASSES = ("Static", "Random", "RoundRobin", "DatasetMap", "DecisionTree", "RandomForest", "PolicyNet", "Optimal")
CUT = {FAC, "DecisionTreeImpl::DecisionTreeImpl", "RandomForestImpl::RandomForestImpl", "apollo::Net::Net"}


def S(x):
    return T("str", x)


def named(v, n, guard_terms):
    """v is the string n (and none of the other strings it is compared with)"""
    g = eq(v, S(n))
    for o in guard_terms | set(KEYS) | {"StaticRegion"}:
        if o != n:
            g = g & ~eq(v, S(o))
    return g


def compared(v, bs):
    """the strings v is compared with"""
    out = set()
    for b in bs:
        for a in terms.batoms(b):
            if a.op == "eq" and v in a.args:
                o = a.args[0] if a.args[1] is v else a.args[1]
                if o.op == "str":
                    out.add(o.args[0])
    return out


# ------------------------------------------------------------------ parsing
def c_parse(ck):
    s = ck.sum("Apollo::Region::parsePolicyModel", 1)
    info = argv(s, 0)
    name, P = s.get("model_name"), s.get("model_params")
    comma = T("find", info, S(","))
    F = [x for x in subterms(P) if x.op == "fold"]
    ck.need(ck.same(name, T("substr", info, ZERO, comma)), "model-name", s, "the model's name is %s" % show(name)[:200])
    tops = [x for x in F if len(x.args[4]) >= 2 and is_map_step(x)]
    if len({(x.args[3], x.args[4], x.args[5]) for x in tops}) != 1:
        ck.undecided("parameters", s, "loop over the parameters not recognised")
        return s, name, P
    f = tops[0]
    k, n, me, inits, steps, accs = f.args[:6]
    if len(accs) != 2:
        ck.undecided("parameters", s, "loop carries %d values" % len(accs))
        return s, name, P
    X = accs[1 - me]
    x0 = inits[1 - me]
    if not any(t.op == "substr" for t in subterms(x0)):
        ck.undecided("parameters", s, "loop over the parameters not recognised")
        return s, name, P
    big = [t for t in subterms(steps[1 - me]) if t.op in ("in", "npos", "glob") and "npos" in show(t)]
    end = big[0] if big else None
    if end is None:
        ck.undecided("parameters", s, "loop over the parameters not recognised")
        return s, name, P
    ck.need(ck.same(x0, T("substr", info, add(ONE, comma), end)), "parameters", s,
            "the parameters start at %s" % show(x0)[:200])
    ck.need(ck.same(inits[me], in_this("model_params")), "parameters", s, "parameters start from %s" % show(inits[me])[:100])
    cm = T("find", X, S(","))
    more = cmp_("!=", cm, end, True)
    ck.need(ck.same(steps[1 - me], T("substr", X, add(ONE, cm), end), more), "next-parameter", s,
            "goes on at %s" % show(deep(steps[1 - me], more))[:200])
    item = T("substr", X, ZERO, cm)
    sep = T("find", item, S("="))
    flag = cmp_("==", sep, end, True)
    key = T("substr", item, ZERO, sep)
    val = T("substr", item, add(ONE, sep), end)
    st = steps[me]
    for what, care, kk, vv in (("key=value", ~flag, key, val), ("flag", flag, item, S(""))):
        # without a separator, the text up to it is the whole text
        g = st if what != "flag" else subst(deep(st, care), {T("substr", item, ZERO, sep): item})
        new = ~mhas_(accs[me], kk)
        got = deep(g, care & new)
        want = mset(accs[me], kk, vv)
        ck.need(ck.same(got, want, care & new), "parameter-" + what, s, "a parameter %s is kept as %s" % (what, show(got)[:300]))
    # the loop ends with the last parameter
    cond = [x for x in subterms(n) if x.op == "trip"]
    if len(cond) == 1 and n is add(ONE, cond[0]):
        tk, b = cond[0].args[:2]
        Xk = [x for x in subterms(b) if x.op == "fold"]
        Xk = [x for x in Xk if x.args[4] == (subst(steps[1 - me], {X: x.args[5][x.args[2]]}),)] or Xk
        okx = [x for x in Xk if ck.same_guard(truth(b), cmp_("!=", T("find", x, S(",")), end, True))]
        lost = False
        for x in Xk:
            w = cmp_("!=", T("find", x, S(",")), end, True)
            lost = lost or terms.implies(truth(b), w) and not terms.implies(w, truth(b)) and understood(b)
        ck.need(True if okx else False if lost else None, "last-parameter", s, "loop condition %s" % show(b)[:200])
    elif n.op == "first" and n.args[1].op == "trip" and n.args[1].args[1] is bterm(TRUE):
        # a loop that is left in its middle: the last round is what follows the fold
        fk, b = n.args[0], truth(n.args[2])
        Xs = [x for a in terms.batoms(b) for x in subterms(a) if x.op == "fold" and x.args[1] is fk]
        okx = [x for x in Xs if x.args[4] == (subst(steps[1 - me], {X: x.args[5][x.args[2]]}),) and
               ck.same_guard(b, cmp_("==", T("find", x, S(",")), end, True))]
        last = [x for x in subterms(P) if x.op == "mset" and x.args[0] is f]
        if okx and last:
            at = {accs[me]: f, X: subst(okx[0], {fk: n})}
            ck.need(True if all(ck.same(x, subst(st, at)) for x in last) else None, "last-parameter", s, "the last parameter is kept as %s" % show(last[0])[-200:])
        elif okx:
            ck.need(False, "last-parameter", s, "the last parameter is not kept")
        else:
            ck.undecided("last-parameter", s, "loop is left when %s" % showb(b)[:200])
    else:
        ck.undecided("last-parameter", s, "loop not recognised")
    return s, name, P


def is_map_step(f):
    st = f.args[4][f.args[2]]
    return any(x.op == "mset" for x in subterms(st))


def mhas_(m, k):
    return atom(T("has", m, k))


def c_validate(ck):
    s = ck.sum("Apollo::Region::parsePolicyModel", 1)
    name, info = s.get("model_name"), argv(s, 0)
    P = s.get("model_params")
    ab = s.kinds("abort", "throw", "exit")
    gs = [e.guard for e, _ in ab]
    others = compared(name, gs)
    for m in list(KEYS) + ["StaticRegion"]:
        care = named(name, m, others)
        evs = [(e, l) for e, l in ab if terms.sat(e.guard & care)]
        inloop = [(e, l) for e, l in evs if l]
        plain = [(e, l) for e, l in evs if not l]
        want = KEYS.get(m)
        if want is None:
            for e, _ in evs:
                ck.need(False if understood(bterm(e.guard)) else None, "known-parameters", e, "parameters of %s are refused" % m)
            ck.ok("known-parameters", s, "%s takes any parameter" % m)
            continue
        if not want:
            # refused whenever there are parameters
            if not plain:
                ck.need(None if inloop else False, "known-parameters", s, "parameters given to %s are ignored" % m)
                continue
            ck.ok("known-parameters", plain[0][0], "%s takes no parameter" % m)
            continue
        if plain and not inloop:
            e = plain[0][0]
            ck.need(None, "known-parameters", e, "parameters of %s" % m)
            continue
        if not inloop:
            ck.need(False if not evs else None, "known-parameters", s, "no parameter of %s is checked" % m)
            continue
        e, l = inloop[0]
        # the key of the k-th parameter
        kvs = set()
        for a in terms.batoms(e.guard):
            if a.op == "eq":
                for x, y in (a.args, a.args[::-1]):
                    if x.op == "str" and contains(y, lambda t: t is l[-1].k):
                        kvs.add(y)
        kv = kvs.pop() if len(kvs) == 1 else None
        if kv is None:
            ck.undecided("known-parameters", e, "key not recognised")
            continue
        cont = next((y.args[0] for y in subterms(kv) if y.op == "elt" and y.args[1] is l[-1].k), None)
        if cont is not None:
            ck.need(ck.same(l[-1].n, size(cont)) and not terms.sat(l[-1].exits & care), "every-parameter", e,
                    "only %s parameters of %s are checked%s" % (show(l[-1].n)[:100], m, "" if l[-1].exits is FALSE else ", until %s" % showb(l[-1].exits)[:200]))
        seen = compared(kv, [e.guard])
        for c in sorted(want | seen | {"no-such-key"}):
            here = eq(kv, S(c))
            for o in want | seen:
                if o != c:
                    here = here & ~eq(kv, S(o))
            refused = any(terms.sat(x.guard & care & here) for x, _ in inloop)
            ck.need(refused == (c not in want), "known-parameters", e,
                    "parameter %s of %s is %s" % (c, m, "refused" if refused else "accepted"))


# ------------------------------------------------------------------ factory
def given(P, key, conv, default):
    """value of a parameter: converted if given, else the default"""
    v = mget(P, S(key))
    return ite(mhas_(P, S(key)), T(conv, v) if conv else v, default)


def heap_obj(s, r):
    if r.op == "addr" and not r.args[1]:
        return s.st.store.get(r.args[0])
    return None


def near(x):
    return num(Fraction(x))


def c_factory(ck):
    for config in ("default", "opencv"):
        s = ck.sum(FAC, 4, opaque=CUT, config=config)
        name, nf, np_, P = argv(s, 0), argv(s, 1), argv(s, 2), argv(s, 3)
        others = compared(name, [e.guard for e, _ in s.flat])
        news = {e.obj: e.extra.get("cls") for e, _ in s.kinds("new") if isinstance(e.obj, T)}
        for m in CLASSES:
            care = named(name, m, others)
            r = deep(s.res, care)
            if not terms.sat(s.st.pc & care):
                ck.need(False if understood(bterm(s.st.pc)) else None, "model-made", s, "%s cannot be made" % m)
                continue
            r = deep(s.res, care & s.st.pc)
            o = heap_obj(s, r)
            cls = news.get(r)
            if o is None or cls is None:
                ck.undecided("model-made", s, "what is returned for %s: %s" % (m, show(r)[:150]))
                continue
            ck.need(cls == "apollo::" + m, "model-made", s, "asked for %s, makes %s" % (m, cls))
            if cls != "apollo::" + m:
                continue
            c = care & s.st.pc
            if m == "Static":
                p = given(P, "policy", "stoi", ZERO)
                low = c & cmp_(">=", p, ZERO, True)
                fit = low & cmp_("<", p, np_, True)
                ck.need(ck.same(sel(o, "policy_choice"), p, fit), "parameter-used", s, "Static policy is %s" % show(sel(o, "policy_choice"))[:200])
                ck.need(not terms.sat(s.st.pc & care & cmp_("<", p, ZERO, True)), "refuses-negative", s, "a negative policy is accepted")
                ok_ = care & cmp_(">=", p, ZERO, True)
                ck.need(ck.same_guard(s.st.pc & ok_, ok_), "model-made", s, "Static refused when %s" % showb(ok_ & ~s.st.pc)[:200])
            elif terms.sat(care & ~s.st.pc):
                ck.need(False if understood(bterm(s.st.pc)) else None, "model-made", s, "%s refused when %s" % (m, showb(care & ~s.st.pc)[:200]))
            if m != "Optimal":
                ck.need(ck.same(sel(o, "policy_count"), np_, c), "policies", s, "%s chooses among %s policies" % (m, show(sel(o, "policy_count"))[:100]))
            if m != "Static":
                ck.need(ck.same(sel(o, "name"), S(m), c), "own-name", s, "%s is called %s" % (m, show(sel(o, "name"))[:100]))
            if m in ("DecisionTree", "RandomForest", "PolicyNet"):
                ck.need(ck.same_guard(truth(sel(o, "trainable")), TRUE, c), "trainable", s, "a new %s is not trainable" % m)
            if m in ("DecisionTree", "RandomForest"):
                impl(ck, s, m, o, c, np_, P, config)
                ex = sel(o, "explorer")
                for cc, want in ((mhas_(P, S("explore")), mget(P, S("explore"))), (~mhas_(P, S("explore")), S("RoundRobin"))):
                    x = deep(ex, c & cc)
                    ev = next((e for e, _ in s.calls(FAC) if e.res is x), None)
                    if ev is None:
                        ck.undecided("explorer", s, "explorer of %s is %s" % (m, show(x)[:150]))
                        continue
                    ck.need(ck.same(ev.args[0], want, c & cc), "explorer", ev, "%s explores with %s" % (m, show(ev.args[0])[:150]))
                    ck.need(ck.same(ev.args[2], np_, c & cc), "explorer", ev, "the explorer of %s chooses among %s policies" % (m, show(ev.args[2])[:100]))
            if m == "PolicyNet":
                for f_, d in (("beta", 0.5), ("threshold", 0.0)):
                    ck.need(ck.same(sel(o, f_), given(P, f_, "stod", near(d)), c), "parameter-used", s, "PolicyNet %s is %s" % (f_, show(sel(o, f_))[:150]))
                ev = next((e for e, _ in s.kinds("ctor") if e.name in ("apollo::Net::Net", "apollo::Net") and terms.sat(e.guard & c)), None)
                if ev is None:
                    ck.undecided("parameter-used", s, "network not found")
                    continue
                ctor = next((x for x in ck.prog(config).by_qn.get("apollo::Net::Net", []) if len(x["p"]) == len(ev.args)), None)
                pn = [q["n"] for q in ctor["p"]] if ctor else []
                want = {"learnRate": ("lr", 1e-2), "lr": ("lr", 1e-2), "beta1": ("beta1", 0.5), "beta2": ("beta2", 0.9)}
                for i, q in enumerate(pn):
                    if q in want:
                        key, d = want[q]
                        ck.need(ck.same(ev.args[i], given(P, key, "stod", near(d)), c), "parameter-used", ev, "PolicyNet %s is %s" % (key, show(ev.args[i])[:150]))
                if pn and "outputSize" in pn:
                    ck.need(ck.same(ev.args[pn.index("outputSize")], np_, c), "policies", ev, "the network has %s outputs" % show(ev.args[pn.index("outputSize")])[:100])
        # anything else is refused
        none = TRUE
        for o in others | set(CLASSES):
            none = none & ~eq(name, S(o))
        ck.need(not terms.sat(s.st.pc & none) or (False if understood(bterm(s.st.pc)) else None), "unknown-model", s, "an unknown model is accepted")


def impl(ck, s, m, o, c, np_, P, config):
    depth = given(P, "max_depth", "stoul", num(2))
    trees = given(P, "num_trees", "stoul", num(10))
    if config == "opencv":
        for what, want in (("setMaxDepth", depth), ("setMaxCategories", np_)):
            hit = [e for e, _ in s.kinds("ext") if e.name.endswith("::" + what) and terms.sat(e.guard & c)]
            if not hit:
                ck.undecided("parameter-used", s, "%s of %s" % (what, m))
            for e in hit:
                ck.need(ck.same(e.args[0], want, c & e.guard), "parameter-used", e, "%s: %s(%s)" % (m, what, show(e.args[0])[:150]))
        if m == "RandomForest":
            hit = [e for e, _ in s.kinds("ext") if e.name.endswith("::setTermCriteria") and terms.sat(e.guard & c)]
            for e in hit:
                a = e.args[0]
                if a.op == "obj" and len(a.args) > 3:
                    ck.need(ck.same(a.args[3], trees, c & e.guard), "parameter-used", e, "RandomForest trees %s" % show(a.args[3])[:150])
        return
    cls = m + "Impl"
    ev = next((e for e, _ in s.kinds("ctor") if e.name.split("::")[-1] == cls and terms.sat(e.guard & c)), None)
    if ev is None:
        ck.undecided("parameter-used", s, "%s not found" % cls)
        return
    ctor = next((x for x in ck.prog(config).by_qn.get(cls + "::" + cls, []) if x.get("key") == ev.key), None) or \
        next((x for x in ck.prog(config).by_qn.get(cls + "::" + cls, []) if len(x["p"]) == len(ev.args) and x["p"][-1]["n"] == "max_depth"), None)
    # what the implementation keeps of its arguments
    t = ck.sum(cls + "::" + cls, len(ev.args), f=ctor, config=config)
    sub = {argv(t, i): a for i, a in enumerate(ev.args)}
    for f_, want in (("num_classes", np_), ("max_depth", depth)) + ((("num_trees", trees),) if m == "RandomForest" else ()):
        got = subst(t.get(f_), sub)
        ck.need(ck.same(got, want, c), "parameter-used", ev, "%s %s is %s" % (m, f_, show(got)[:150]))


def c_file(ck):
    s = ck.sum(FAC, 3, opaque={"apollo::%s::%s" % (x, x) for x in CLASSES})
    name = argv(s, 0)
    others = compared(name, [e.guard for e, _ in s.flat])
    news = {e.obj: (e.extra.get("cls"), e) for e, _ in s.kinds("new") if isinstance(e.obj, T)}
    for m in ("DecisionTree", "RandomForest", "Optimal"):
        care = named(name, m, others)
        r = deep(s.res, care & s.st.pc)
        cls, ev = news.get(r, (None, None))
        if cls is None:
            ck.undecided("model-from-file", s, "%s gives %s" % (m, show(r)[:100]))
            continue
        ck.need(cls == "apollo::" + m, "model-from-file", s, "asked for %s, makes %s" % (m, cls))
        ck.need(any(ck.same(a, argv(s, 2), care) for a in ev.args), "model-from-file", ev, "%s is not made from the given file" % m)
    for m in ("Static", "Random", "RoundRobin", "DatasetMap"):
        care = named(name, m, others)
        ck.need(not terms.sat(s.st.pc & care), "model-from-file", s, "%s is made without its file" % m)


def c_trainable(ck):
    p = ck.prog()
    for m in CLASSES:
        f = p.by_qn.get("apollo::%s::isTrainable" % m)
        if not f:
            ck.undecided("trainable", "apollo::" + m, "isTrainable not found")
            continue
        s = ck.sum("apollo::%s::isTrainable" % m, 0)
        want = truth(in_this("trainable")) if m in ("DecisionTree", "RandomForest", "PolicyNet") else FALSE
        ck.need(ck.same_guard(truth(s.res), want), "trainable", s, "%s is trainable when %s" % (m, show(s.res)[:100]))


def check(ck):
    ck.guarded(c_parse, ck)
    ck.guarded(c_validate, ck)
    ck.guarded(c_factory, ck)
    ck.guarded(c_file, ck)
    ck.guarded(c_trainable, ck)
