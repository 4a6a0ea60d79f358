"""C26: the Kokkos connector: every combination of candidates is one policy, every tuned context one execution."""
from common import *

RG = "Apollo::Region::"
OPS = {RG + x for x in ("Region", "begin", "setFeature", "getPolicyIndex", "end", "train")} | \
      {"Apollo::flushAllRegionMeasurements", "Apollo::instance"}
DOUBLE, INT, STRING = 0, 1, 2
SET, RANGE, FREE = 0, 1, 2
FIELD = {DOUBLE: "double_value", INT: "int_value", STRING: "string_value"}
TNAME = {DOUBLE: "floating", INT: "integer", STRING: "string"}
MAXVARS = 50


def mem(p):
    return addr(("mem", p)) if p.op != "addr" else p


def glob(n):
    return addr(("glob", n))


def ini(p, *fields):
    return init(mem(p), *fields)


def no_eps(t):
    """the term without the vanishing amounts that open and close floating ranges"""
    if t.op == "ite":
        return ite(t.args[0], no_eps(t.args[1]), no_eps(t.args[2]))
    if t.op == "trunc":
        return T("trunc", no_eps(t.args[0]), *t.args[1:])
    p = terms.to_poly(t)
    return terms.from_poly({m: c for m, c in p.items() if abs(c) > 1e-20})


def strip(t):
    """the array a bounded copy of a string came from"""
    return t.args[0] if t.op == "strncpy" else t


def name_of(ck, s, m):
    n = s.read(field_ptr(m, "name"))
    src = argv(s, 0)
    c = [e for e, _ in s.flat if e.kind == "copy"]
    ok = True if n.op == "strncpy" and n.args[0] is src else (None if not understood(n) or contains(n, lambda x: x is src) else False)
    ck.need(ok, "variable-name", s, "the variable is called %s" % show(n)[:150])
    if n.op == "strncpy":
        k = n.args[1]
        room = [e.args[0] for e, _ in s.kinds("new") if e.name == "malloc"]
        if is_num(k) and len(room) == 1 and is_num(room[0]):
            ck.need(k.args[0] < room[0].args[0], "variable-name", s, "%s characters are copied into %s" % (show(k), show(room[0])))
        end = s.read(T("addr", ("mem", n), (("i", k),)))
        done = end is ZERO
        ck.need(True if done else (False if end.op == "elt" and c else None), "variable-name", s, "the copy of a long name is not terminated")


def declared(ck, t, q, lo=None, up=None):
    """candidates of an output variable of type t declared by a set, a range or nothing"""
    f = ck.prog().find("kokkosp_declare_output_type", 3)
    info = argv(f, 2)
    P = mem(info)

    def pre(I, st):
        I.write(st, field_ptr(P, "type"), num(t))
        I.write(st, field_ptr(P, "valueQuantity"), num(q))
        if lo is not None:
            r = field_ptr(field_ptr(P, "candidates"), "range")
            I.write(st, field_ptr(r, "openLower"), bterm(TRUE if lo else FALSE))
            I.write(st, field_ptr(r, "openUpper"), bterm(TRUE if up else FALSE))
    s = ck.sum("kokkosp_declare_output_type", 3, pre=pre)
    what = "%s variable declared by a %s" % (TNAME[t], ("set", "range", "name only")[q])
    m = s.read(field_ptr(P, "toolProvidedInfo"))
    ck.need(m.op == "addr" and m.args[0][0] == "heap" or None, "declared", s, "the variable's data are %s" % show(m)[:100])
    if m.op != "addr":
        return
    name_of(ck, s, m)
    n = s.read(field_ptr(m, "candidate_set_size"))
    cv = s.read(field_ptr(m, "candidate_values"))
    x = T("k", "x")
    V = lambda *fs: ini(info, "candidates", *fs)
    if q == FREE or (q == RANGE and t == STRING):
        g = cmp_("<=", n, ZERO, True)
        ck.need(True if g is TRUE else (False if understood(n) else None), "candidate-count", s, "%s: %s candidates" % (what, show(n)[:100]))
        return
    some = TRUE
    if q == SET:
        want_n = V("set", "size")
        want = elt(ini(V("set", "values", FIELD[t])), x)
        ok = ck.same(n, want_n)
    elif t == INT:
        a = add(V("range", "lower", "int_value"), ONE if lo else ZERO)
        b = sub(V("range", "upper", "int_value"), ONE if up else ZERO)
        st_ = V("range", "step", "int_value")
        some = cmp_(">=", st_, ONE, True)
        want_n = add(ONE, terms.div(sub(b, a), st_, True))
        want = add(a, mul(x, st_))
        ok = ck.same(n, want_n, some)
    else:
        a, b, st_ = (V("range", z, "double_value") for z in ("lower", "upper", "step"))
        some = cmp_(">", st_, ZERO, False)
        want_n = T("trunc", terms.div(sub(b, a), st_, False), 64)
        want = add(a, mul(x, st_))
        got = no_eps(terms.simp(n, some))
        ok = ck.same(got, no_eps(want_n), some)
        z = terms.simp(n, ~cmp_(">", st_, ZERO, False) & ~cmp_("<", st_, ZERO, False))
        ck.need(ck.same(z, num(100)), "candidate-count", s, "a floating range without a step has %s candidates" % show(z)[:100])
    ck.need(ok, "candidate-count", s, "%s%s: %s candidates, not %s" % (what, "" if lo is None else " %s..%s" % ("(" if lo else "[", ")" if up else "]"), show(n)[:250], show(want_n)[:250]))
    # the values
    have = some & cmp_(">=", n, ONE, True)
    arrs = [(g, v) for g, v in terms.cases(cv) if terms.sat(g & have)]
    if len(arrs) != 1 or arrs[0][1].op != "addr":
        if all(v.op == "undef" or v is NULL or is_num(v) for g, v in arrs):
            ck.bad("candidate-values", s, "%s: no candidates are kept" % what)
        else:
            ck.undecided("candidate-values", s, "candidates are %s" % show(cv)[:150])
        return
    A = s.read(arrs[0][1])
    for e, l in s.kinds("new"):
        if e.obj is arrs[0][1] and e.name == "new[]":
            ck.need(ck.same(e.args[0], n, have), "candidate-room", e, "room for %s candidates" % show(e.args[0])[:150])
    v = one(ck, "candidate-values", s, A, x, n, have)
    if v is None:
        return
    ck.need(ck.same(sel(v, "type_id"), argv(s, 1), have), "candidate-values", s, "%s: candidates are values of variable %s" % (what, show(sel(v, "type_id"))[:80]))
    y = sel(sel(v, "value"), FIELD[t])
    if t == STRING:
        full = not (y.op == "strncpy" and is_num(y.args[1]) and y.args[1].args[0] < 64)
        ck.need(full, "candidate-values", s, "only %s characters of a candidate are kept" % show(y.args[1] if y.op == "strncpy" else y)[:50])
        y = strip(y)
    if t == DOUBLE:
        y = no_eps(y) if q == RANGE else y
    ck.need(ck.same(y, want, have), "candidate-values", s, "%s: candidate x is %s, not %s" % (what, show(y)[:200], show(want)[:200]))


def one(ck, rule, s, A, x, n, care):
    """element x < n of A"""
    A = terms.simp(A, care)
    while A.op == "ite":
        p, r = A.args[1], A.args[2]
        if not terms.sat(A.args[0] & care):
            A = r
        elif not terms.sat(~A.args[0] & care):
            A = p
        else:
            break
        A = terms.simp(A, care)
    if A.op == "tab" and A.args[3] is A.args[1]:
        k, m = A.args[1], A.args[2]
        if m.op == "trip":
            # iterations while a condition holds: all x below n
            c = truth(subst(m.args[1], {m.args[0]: x}))
            inside = cmp_("<", x, n, True) & cmp_(">=", x, ZERO, True) & care
            a, b = terms.implies(inside, c), terms.implies(care & c & cmp_(">=", x, ZERO, True), cmp_("<", x, n, True))
            ck.need(a and b or (None if not (understood(bterm(c)) and understood(n)) else False), rule, s, "candidates are made while %s" % showb(c)[:200])
        else:
            ck.need(ck.same(m, n, care), rule, s, "%s candidates are made, not %s" % (show(m)[:150], show(n)[:150]))
        return subst(A.args[4], {k: x})
    ck.undecided(rule, s, "candidates are %s" % show(A)[:200])
    return None


def declarations(ck):
    for t in (DOUBLE, INT, STRING):
        declared(ck, t, SET)
        declared(ck, t, FREE)
    declared(ck, STRING, RANGE)
    for t in (INT, DOUBLE):
        for lo in (False, True):
            for up in (False, True):
                declared(ck, t, RANGE, lo, up)
    s = ck.sum("kokkosp_declare_input_type", 3)
    m = s.read(field_ptr(mem(argv(s, 2)), "toolProvidedInfo"))
    ck.need(m.op == "addr" and m.args[0][0] == "heap" or None, "declared", s, "the variable's data are %s" % show(m)[:100])
    if m.op == "addr":
        name_of(ck, s, m)


def grows(ck, g):
    """some function adds to a global container"""
    p = ck.prog()
    for q in p.by_qn:
        for f in p.by_qn[q]:
            for n in ast_nodes(f.get("b") or {}):
                if n.get("k") in ("call", "mcall") and (n.get("obj") or {}).get("k") == "ref" and \
                        ((n["obj"].get("qn") or n["obj"].get("n")) == g) and \
                        (n.get("fn") or "").rsplit("::", 1)[-1] not in ("find", "end", "begin", "count", "contains", "cend", "size", "empty"):
                    return True
    return False


def ast_nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from ast_nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from ast_nodes(v)


def product(ck, t, n, size):
    """t is the product of size(k) over k < n"""
    if t.op == "cast" or t.op == "trunc":
        t = t.args[0]
    if t.op != "fold" or len(t.args[4]) != 1:
        return False if understood(t) and t.op != "ite" else None
    k, m, me, inits, steps, accs = t.args[:6]
    a = ck.same(inits[0], ONE)
    b = ck.same(m, n)
    c = ck.same(steps[0], mul(accs[0], size(k)))
    r = [a, b, c]
    return False if False in r else (None if None in r else True)


def request(ck):
    free = "untunables" in ck.prog().globals and not grows(ck, "untunables")

    def pre(I, st):
        if free:            # nothing is ever put into it
            I.write(st, glob("untunables"), MEMPTY)
    s = ck.sum("kokkosp_request_values", 5, opaque=OPS, pre=pre)
    C, TN = argv(s, 1), argv(s, 3)
    cin, tin = ini(argv(s, 2)), ini(argv(s, 4))
    meta = lambda v: ini(sel(v, "metadata"), "toolProvidedInfo")
    tv = lambda k: elt(tin, k)
    size_ = lambda k: ini(meta(tv(k)), "candidate_set_size")
    bs = s.calls(RG + "begin")
    if len(bs) != 1 or bs[0][1]:
        ck.need(False if not bs else None, "one-execution", s, "a request begins %d executions" % len(bs))
        return
    b = bs[0][0]
    G = b.guard
    # who is served
    ck.need(terms.implies(G, cmp_(">=", TN, ONE, True)) or (False if understood(bterm(G)) else None), "served", b, "a request without tuning variables begins an execution")
    room = capacity(ck)
    fits = cmp_("<=", add(C, TN), num(room), True)
    ck.need(terms.implies(G, fits) or (False if understood(bterm(G)) else None), "served", b, "more than %d variables are accepted" % room)
    anys = [a for a in terms.batoms(G) if a.op == "any"]
    k0 = T("k", "v")
    ok = None
    for a in anys:
        body = truth(subst(a.args[2], {a.args[0]: k0}))
        inr = cmp_(">=", k0, ZERO, True) & cmp_("<", k0, TN, True)
        none_ = cmp_("<=", size_(k0), ZERO, True)
        if ck.same(a.args[1], TN) and terms.implies(inr & none_, body) and terms.implies(G, ~atom(a)):
            ok = True
            ck.need(terms.implies(inr & body, none_) or (False if understood(bterm(body)) else None), "served", b,
                    "a request is refused when %s" % showb(body)[:200])
    if ok is None and understood(bterm(G)) and all(understood(bterm(truth(a.args[2]))) and understood(a.args[1]) for a in anys):
        ok = False
    ck.need(ok, "served", b, "a variable without candidates is accepted")
    if ok:
        full = cmp_(">=", TN, ONE, True) & fits
        for a in anys:
            full = full & ~atom(a)
        left = full & ~G
        ck.need(not terms.sat(left) or (False if understood(bterm(left)) else None), "served", b, "a request is refused although %s" % showb(left)[:200])
    # which region
    R, X = b.obj, b.res
    regs = s.read(glob("tuning_regions"))
    keys = [t.args[1] for t in subterms(R) if t.op == "get" and t.args[0] is T("in", (("glob", "tuning_regions"), ()))]
    keys += [a.args[1] for a in guards_of(R) if a.op == "has" and len(a.args) > 1]
    keys = list(dict.fromkeys(keys))
    old = T("in", (("glob", "tuning_regions"), ()))
    if len(keys) == 1:
        key = keys[0]
        ck.need(ck.same(sel(key, "num_variables"), add(C, TN)), "same-problem", b, "a problem has %s variables" % show(sel(key, "num_variables"))[:150])
        ids = sel(key, "variable_ids")
        x = T("k", "c")
        for want, at, n, w in ((elt(cin, x), x, C, "context"), (tv(x), add(C, x), TN, "tuning")):
            care = cmp_(">=", x, ZERO, True) & cmp_("<", x, n, True) & cmp_(">=", C, ZERO, True) & cmp_(">=", TN, ZERO, True)
            got = elt(ids, at)
            r = ck.same(got, want, care)
            ck.need(r, "same-problem", b, "%s variable c of a problem is %s" % (w, show(terms.simp(got, care))[:200]))
        known = has(old, key)
        got = terms.simp(R, known)
        ck.need(ck.same(got, sel(mget(old, key), "second"), known & G), "same-region", b, "a known problem uses region %s" % show(got)[:150])
        # a new one
        new = G & ~known
        ctors = [(e, l) for e, l in s.flat if e.kind == "ctor" and e.name == RG + "Region"]
        seen = FALSE
        for e, l in ctors:
            if l:
                ck.undecided("new-region", e, "made in a loop")
                continue
            if terms.sat(seen & e.guard):
                ck.need(False if understood(bterm(seen & e.guard)) else None, "new-region", e, "two regions are made")
            seen = seen | e.guard
            ck.need(ck.same(e.args[0], C), "new-region", e, "the region has %s features" % show(e.args[0])[:100])
            ck.need(product(ck, e.args[2], TN, size_), "policies-are-combinations", e, "the region has %s policies" % show(e.args[2])[:250])
            ck.need(ck.same(R, e.obj, e.guard & new), "new-region", e, "the new region is not the one used: %s" % show(terms.simp(R, e.guard))[:100])
        r = ck.same_guard(seen, new)
        ck.need(r, "new-region", s, "a region is made when %s" % showb(seen)[:250])
        after = terms.simp(regs, G)
        kept = sel(mget(after, key), "second")
        ck.need(ck.same(kept, R, G), "same-region", s, "the region remembered for the problem is %s" % show(kept)[:150])
        stored(ck, s, ctors)
        # counting the regions that still explore
        u0, u1 = T("in", (("glob", "num_unconverged_regions"), ())), s.read(glob("num_unconverged_regions"))
        fresh = FALSE
        for e, l in ctors:
            if len(e.args) > 5 and e.args[5].op == "str" and e.args[5].args[0] == "":
                fresh = fresh | e.guard
        ck.need(ck.same(u1, ite(fresh, add(u0, ONE), u0)), "exploring-count", s, "the number of exploring regions becomes %s" % show(u1)[:150])
    else:
        ck.undecided("same-region", b, "%d problems" % len(keys))
    # the execution is remembered by its context
    tc0, tc = T("in", (("glob", "tuned_contexts"), ())), s.read(glob("tuned_contexts"))
    cid = argv(s, 0)
    ent = mget(terms.simp(tc, G), cid)
    ck.need(ck.same_guard(has(tc, cid), TRUE, G), "context-kept", s, "the execution is not remembered when %s" % showb(G & ~has(tc, cid))[:200])
    ck.need(ck.same(sel(ent, "first"), R, G), "context-kept", s, "the region remembered for a context is %s" % show(sel(ent, "first"))[:150])
    ck.need(ck.same(sel(ent, "second"), X, G), "context-kept", s, "the execution remembered for a context is %s" % show(sel(ent, "second"))[:150])
    ck.need(ck.same(terms.simp(tc, ~G), tc0, ~G), "context-kept", s, "a refused request changes the remembered executions")
    # its features
    fs = s.calls(RG + "setFeature")
    if len(fs) == 1 and len(fs[0][1]) == 1:
        e, (L,) = fs[0]
        ck.need(ck.same(e.obj, R, e.guard), "features", e, "features go to region %s" % show(e.obj)[:100])
        ck.need(ck.same(e.args[0], X, e.guard), "features", e, "features go to execution %s" % show(e.args[0])[:100])
        kk = L.k
        inr = cmp_(">=", kk, ZERO, True) & cmp_("<", kk, C, True)
        ck.need(ck.same(L.n, C), "features", e, "%s features" % show(L.n)[:100])
        ck.need(ck.same_guard(e.guard, G, inr), "features", e, "a feature is given when %s" % showb(e.guard)[:200])
        cv = elt(cin, kk)
        ty = ini(sel(cv, "metadata"), "type")
        for t in (INT, DOUBLE, STRING):
            is_t = cmp_("==", ty, num(t), True)
            v = terms.simp(e.args[1], is_t)
            want = sel(sel(cv, "value"), FIELD[t])
            if t == STRING:
                r = True if contains(v, lambda y: y is want) or v.op in ("cast", "res", "f32") or "res" in {y.op for y in subterms(v)} else (False if is_num(v) else None)
                for x, _ in s.flat:
                    if "hash" in str(x.name) and x.res is not None and contains(v, lambda y: y is x.res) and len(x.args) == 1:
                        q = ck.same(x.args[0], want, is_t & G)
                        ck.need(q, "features", e, "a string feature is the hash of %s" % show(x.args[0])[:150])
                ck.need(r, "features", e, "a string feature is %s" % show(v)[:150])
                continue
            w = v
            while w.op in ("cast", "f32", "round") and w.args and isinstance(w.args[0], T):
                w = w.args[0]
            ck.need(ck.same(w, want, is_t & G), "features", e, "a %s feature is %s" % (TNAME[t], show(v)[:150]))
    else:
        ck.need(False if not fs else None, "features", s, "features are given %d times" % len(fs))
    # the choice
    ps = s.calls(RG + "getPolicyIndex")
    if len(ps) != 1 or ps[0][1]:
        ck.need(False if not ps or len(ps) == 1 else None, "one-choice", s, "a policy is asked for %d times" % len(ps))
        return
    p = ps[0][0]
    ck.need(ck.same_guard(p.guard, G), "one-choice", p, "a policy is asked for when %s" % showb(p.guard)[:200])
    ck.need(ck.same(p.obj, R, G), "one-choice", p, "region %s is asked" % show(p.obj)[:100])
    ck.need(len(p.args) > 0 and ck.same(p.args[0], X, G) or (False if p.args == [] or len(p.args) == 0 else None), "one-choice", p, "asked for execution %s" % [show(a)[:60] for a in p.args])
    if fs:
        order = [e.name for e, _ in s.flat]
        ck.need(order.index(RG + "setFeature") < order.index(RG + "getPolicyIndex"), "one-choice", p, "the policy is asked for before the features are given")
    values_given(ck, s, G, p.res, TN, tin, meta)


def guards_of(t):
    """the atoms the cases of a term depend on"""
    return {a for x in subterms(t) if x.op == "ite" for a in terms.batoms(x.args[0])}


def capacity(ck):
    for q, r in ck.prog().records.items():
        if q.endswith("variableSet"):
            for x in r["f"]:
                if x["n"] == "variable_ids" and "[" in x["t"]:
                    return int(x["t"].split("[")[1].split("]")[0])
    return MAXVARS


def stored(ck, s, ctors):
    """a model is loaded exactly when training has stored one, from where it stored it"""
    st = [e for e, _ in s.flat if e.name in ("stat", "access", "fopen", "open") or "ifstream" in (e.name or "") or "exists" in (e.name or "")]
    names = [e.args[1] for e, _ in ctors]
    loads = [e for e, _ in ctors if len(e.args) > 5 and not (e.args[5].op == "str" and e.args[5].args[0] == "")]
    if len(st) != 1 or not names:
        ck.undecided("stored-model", s, "%d looks for a stored model" % len(st))
        return
    N = names[0]
    for n in names[1:]:
        ck.need(ck.same(n, N), "stored-model", s, "the region is called %s or %s" % (show(N)[:80], show(n)[:80]))
    ck.need(N.op == "substr" and is_num(N.args[2]) and N.args[2].args[0] <= 63 or None, "region-name", s, "the region is called %s" % show(N)[:100])
    tr = ck.sum(RG + "train", opaque=OPS | {"apollo::PolicyModel::store"})
    stores = [e for e, _ in tr.flat if e.name.endswith("::store") and e.kind == "call" and e.args and e.name.split("::")[-2] in ("PolicyModel", "RandomForest")]
    places = set()
    for e in stores:
        m = {}
        for y in subterms(e.args[0]):
            if y.op == "in" and y.args[0][0] == ("glob", "Config::APOLLO_OUTPUT_DIR"):
                m[y] = T("str", ".apollo")
            elif y.op == "in" and y.args[0][0] == ("glob", "Config::APOLLO_MODELS_DIR"):
                m[y] = T("str", "models")
            elif y.op == "dec":
                m[y] = T("str", "0")
            elif y is in_this("name"):
                m[y] = T("str", "<name>")
            elif y.op in ("in", "fld") and show(y).endswith(".name"):
                m[y] = T("str", "RandomForest")
        t = deepcat(subst(e.args[0], m))
        if t is not None:
            places.add(t)
    look = deepcat(subst(st[0].args[0], {N: T("str", "<name>")}))
    if not places or look is None:
        ck.undecided("stored-model", st[0], "looks for %s, stored at %s" % (show(st[0].args[0])[:100], sorted(places)))
    else:
        ck.need(look in places, "stored-model", st[0], "a stored model is looked for at %s, training stores it at %s" % (look, sorted(places)))
    for e in loads:
        ck.need(ck.same(e.args[5], st[0].args[0]), "stored-model", e, "the model is loaded from %s" % show(e.args[5])[:150])
        ck.need(True if e.args[4].op == "str" and e.args[4].args[0].split(",")[0] == "RandomForest" else (False if e.args[4].op == "str" else None), "stored-model", e,
                "a stored RandomForest is loaded as %s" % show(e.args[4])[:80])
        g = e.guard
        if st[0].name in ("stat", "access"):
            r = cmp_("==", st[0].res, ZERO, True)
            ck.need(terms.implies(g, r) or (False if understood(bterm(g)) else None), "stored-model", e, "a model is loaded when %s" % showb(g)[-150:])
            miss = [x for x, _ in ctors if x is not e and terms.sat(x.guard & r)]
            ck.need(not miss or (False if all(understood(bterm(x.guard)) for x in miss) else None), "stored-model", e, "a stored model is not loaded")


def deepcat(t):
    if t.op == "str":
        return t.args[0]
    if t.op == "cat":
        r = [deepcat(x) for x in t.args]
        return None if None in r else "".join(r)
    return None


def values_given(ck, s, G, policy, TN, tin, meta):
    after = terms.simp(s.read(mem(argv(s, 4))), G)
    out = terms.simp(s.read(mem(argv(s, 4))), ~G)
    ck.need(ck.same(out, tin, ~G), "values", s, "a refused request changes the values")
    if after.op == "ite":
        after = terms.simp(after, G)
    if after.op == "fold":
        k, n, me, inits, steps, accs = after.args[:6]
        ck.need(ck.same(n, TN), "values", s, "%s values are given" % show(n)[:80])
        u = steps[me]
        if u.op != "upd" or u.args[0] is not accs[me] or u.args[1] is not k or inits[me] is not tin:
            ck.undecided("values", s, "values become %s" % show(u)[:200])
            return
        others = [i for i in range(len(accs)) if i != me]
        m = {T("elt", accs[me], k): elt(tin, k)}
        val = subst(u.args[2], m)
        if len(others) != 1:
            ck.undecided("values", s, "%d running values" % len(others))
            return
        o = others[0]
        run, rest = accs[o], subst(steps[o], m)
        first = inits[o]
    elif after.op == "tab" and after.args[3] is after.args[1]:
        k, n, val = after.args[1], after.args[2], after.args[4]
        ck.need(ck.same(n, TN), "values", s, "%s values are given" % show(n)[:80])
        run = rest = first = None
    else:
        ck.undecided("values", s, "values become %s" % show(after)[:200])
        return
    v = elt(tin, k)
    sz = ini(meta(v), "candidate_set_size")
    ck.need(ck.same(sel(val, "type_id"), sel(v, "type_id"), G), "values", s, "the variable's id becomes %s" % show(sel(val, "type_id"))[:100])
    ck.need(ck.same(sel(val, "metadata"), sel(v, "metadata"), G), "values", s, "the variable's description becomes %s" % show(sel(val, "metadata"))[:100])
    if run is not None:
        ck.need(ck.same(first, policy), "combination", s, "choices are taken from %s, not from the policy" % show(first)[:100])
        ck.need(ck.same(rest, terms.div(run, sz, True)), "combination", s, "what is left of the policy after a variable is %s" % show(rest)[:200])
        num_ = run
    else:
        num_ = None
    for t in (INT, DOUBLE, STRING):
        is_t = cmp_("==", ini(sel(v, "metadata"), "type"), num(t), True)
        got = strip(terms.simp(sel(sel(val, "value"), FIELD[t]), is_t))
        if num_ is None:
            # nothing is carried from variable to variable: only the first one can be right
            plain = understood(got) and not contains(got, lambda y: y.op in ("fold", "tab", "any", "res") and y is not policy)
            ck.need(False if plain else None, "combination", s, "a %s variable gets %s whatever the variables before it" % (TNAME[t], show(got)[:200]))
            continue
        cand = elt(ini(ini(meta(v), "candidate_values")), terms.mod(num_, sz))
        want = sel(sel(cand, "value"), FIELD[t])
        ck.need(ck.same(got, want, is_t), "combination", s, "a %s variable gets %s, not %s" % (TNAME[t], show(got)[:250], show(want)[:200]),
                "variable x gets candidate (policy / sizes before) mod size")


def ends(ck):
    s = ck.sum("kokkosp_end_context", 1, opaque=OPS)
    cid = argv(s, 0)
    tc0 = T("in", (("glob", "tuned_contexts"), ()))
    known = has(tc0, cid)
    ev = s.calls(RG + "end")
    ck.once("ended-once", ev, known, s, "the execution of a context is ended")
    for e, l in ev:
        ck.need(ck.same(e.obj, sel(mget(tc0, cid), "first"), known), "ended-once", e, "ended in region %s" % show(e.obj)[:100])
        if len(e.args) < 1:
            ck.need(False, "ended-once", e, "ends the current execution, not the one of the context")
        else:
            ck.need(ck.same(e.args[0], sel(mget(tc0, cid), "second"), known), "ended-once", e, "ends execution %s" % show(e.args[0])[:100])
            if len(e.args) > 1:
                ck.undecided("ended-once", e, "ended with a metric")
    tc = s.read(glob("tuned_contexts"))
    ck.need(ck.same_guard(has(tc, cid), FALSE), "forgotten", s, "an ended context stays known when %s" % showb(has(tc, cid))[:150])
    ck.need(ck.same(terms.simp(tc, ~known), tc0, ~known), "forgotten", s, "ending an unknown context changes %s" % show(tc)[:100])
    a = subterms(tc)
    bad = [t for t in a if t.op == "mdel" and t.args[1] is not cid] + [t for t in a if t is MEMPTY]
    ck.need(not bad or (False if all(understood(x) for x in bad) else None), "forgotten", s, "other contexts are forgotten")
    fl = s.calls("Apollo::flushAllRegionMeasurements")
    if len(fl) != 1 or fl[0][1]:
        ck.need(False if not fl else None, "flush", s, "measurements are flushed %d times" % len(fl))
        return
    e = fl[0][0]
    ck.need(ck.same(e.args[0], ZERO) if e.args else None, "flush", e, "flushed as step %s" % show(e.args[0])[:50])
    mods = {t for a in terms.batoms(e.guard) for t in subterms(a) if t.op == "mod"}
    iv = T("in", (("glob", "flush_interval"), ()))
    if len(mods) == 1 and list(mods)[0].args[1] is iv:
        mm = list(mods)[0]
        gl = {t for t in subterms(mm.args[0]) if t.op == "in" and t.args[0][0][0] == "glob"}
        if len(gl) == 1:
            c = list(gl)[0]
            nxt = s.read(T("addr", c.args[0][0], ()))
            ck.need(ck.same(nxt, add(c, ONE), known), "flush", e, "the count of ended contexts becomes %s" % show(nxt)[:150])
            ck.need(ck.same(terms.simp(nxt, ~known), c, ~known), "flush", e, "the count of ended contexts becomes %s without an end" % show(nxt)[:150])
            want = known & cmp_("==", terms.mod(add(c, ONE), iv), ZERO, True)
            ck.need(ck.same_guard(e.guard, want), "flush", e, "measurements are flushed when %s" % showb(e.guard)[:200])
        else:
            ck.undecided("flush", e, "flushed when %s" % showb(e.guard)[:150])
    else:
        ck.need(None, "flush", e, "flushed when %s" % showb(e.guard)[:150])
    if ev and fl:
        order = [x.name for x, _ in s.flat]
        ck.need(order.index(RG + "end") < order.index("Apollo::flushAllRegionMeasurements"), "flush", e, "flushed before the execution is ended")


def problems(ck):
    """problems are told apart by the number and the ids of their variables, in order"""
    f = [q for q in ck.prog().by_qn if q.startswith("std::less<") and "variableSet" in q]
    if not f:
        ck.undecided("same-problem", "variableSet", "no order found")
        return
    s = ck.sum(f[0], 2)
    l, r = (init(argp(s, i)) for i in (0, 1))
    nl, nr = sel(l, "num_variables"), sel(r, "num_variables")
    res = truth(s.res)
    lt, gt = cmp_("<", nl, nr, True), cmp_(">", nl, nr, True)
    ck.need(ck.same_guard(res, TRUE, lt), "same-problem", s, "fewer variables do not come first: %s" % showb(res & lt)[:150])
    ck.need(ck.same_guard(res, FALSE, gt), "same-problem", s, "more variables come first: %s" % showb(res & gt)[:150])
    eqn = ~lt & ~gt
    anys = [a for a in terms.batoms(res) if a.op == "any"]
    k = T("k", "i")
    if len(anys) != 1:
        ck.need(False if not anys and understood(s.res) else None, "same-problem", s, "problems are told apart by %s" % showb(res)[:200])
        return
    a = anys[0]
    inr = cmp_(">=", k, ZERO, True) & cmp_("<", k, nl, True)
    il, ir_ = (sel(elt(sel(x, "variable_ids"), k), "type_id") for x in (l, r))
    differ = ~cmp_("==", il, ir_, True)
    body = truth(subst(a.args[2], {a.args[0]: k}))
    ck.need(ck.same(a.args[1], nl, eqn), "same-problem", s, "%s variables are compared" % show(a.args[1])[:80])
    ck.need(ck.same_guard(body, differ, inr & eqn), "same-problem", s, "variables differ when %s" % showb(body)[:200])
    none = terms.restrict(res, eqn & ~atom(a))
    ck.need(not terms.sat(res & eqn & ~atom(a)) or (False if understood(bterm(none)) else None), "same-problem", s, "equal problems are told apart")
    f0 = {x for t in terms.batoms(res) for x in subterms(t) if x.op == "first"}
    if len(f0) == 1:
        i = list(f0)[0]
        fl, fr = (sel(elt(sel(x, "variable_ids"), i), "type_id") for x in (l, r))
        ck.need(ck.same_guard(res, cmp_("<", fl, fr, True), eqn & atom(a)), "same-problem", s, "the first difference decides by %s" % showb(terms.restrict(res, eqn & atom(a)))[:200])
    else:
        ck.undecided("same-problem", s, "%d deciding positions" % len(f0))


def fences(ck):
    fence = T("in", (("glob", "helper_functions"), ()))
    un = T("in", (("glob", "num_unconverged_regions"), ()))
    for w in ("for", "scan", "reduce"):
        for fn, dev in (("kokkosp_begin_parallel_" + w, 1), ("kokkosp_end_parallel_" + w, 0)):
            s = ck.sum(fn)
            ev = [(e, l) for e, l in s.flat if e.name == "<indirect>"]
            ptr = sel(fence, "fence")
            ck.once("fence", ev, ~eq(ptr, NULL) & cmp_(">=", un, ONE, True), s, "%s waits for the device" % fn, care=cmp_(">=", un, ZERO, True))
            for e, l in ev:
                ck.need(ck.same(e.args[0], argv(s, dev)), "fence", e, "waits for device %s" % show(e.args[0])[:80])
            if dev == 1:
                v = s.read(T("addr", ("mem", argv(s, 2)), (("i", ZERO),)))
                ck.need(ck.same(v, argv(s, 1)), "fence", s, "the kernel is numbered %s" % show(v)[:80])
    s = ck.sum("kokkosp_provide_tool_programming_interface")
    ck.need(ck.same(s.read(field_ptr(glob("helper_functions"), "fence")), sel(argv(s, 1), "fence")), "fence", s, "the fence given is not used")


def starts(ck):
    s = ck.sum("kokkosp_init_library", opaque={"Apollo::instance"})
    order = [(e, l) for e, l in s.flat if e.kind == "setenv" or e.name == "Apollo::instance"]
    inst = [i for i, (e, l) in enumerate(order) if e.name == "Apollo::instance"]
    if not inst:
        ck.need(None, "settings", s, "the runtime is not started")
        return
    ck.need(ck.same(s.read(glob("apolloRuntime")), order[inst[0]][0].res), "settings", s, "the runtime is %s" % show(s.read(glob("apolloRuntime")))[:80])
    got = {}
    for i, (e, l) in enumerate(order):
        if e.kind != "setenv":
            continue
        if e.name == "putenv" and e.args[0].op == "str" and "=" in e.args[0].args[0]:
            k, v = e.args[0].args[0].split("=", 1)
        elif e.name == "setenv" and e.args[0].op == "str" and e.args[1].op == "str":
            k, v = e.args[0].args[0], e.args[1].args[0]
        else:
            ck.undecided("settings", e, "%s sets %s" % (e.name, [show(a)[:40] for a in e.args]))
            return
        ck.need(i < inst[0] or False, "settings", e, "%s is set after the runtime has read its settings" % k)
        got[k] = v
    want = {"APOLLO_STORE_MODELS": "1", "APOLLO_RETRAIN_ENABLE": "0", "APOLLO_REGION_MODEL": "1", "APOLLO_LOCAL_TRAINING": "1",
            "APOLLO_COLLECTIVE_TRAINING": "0", "APOLLO_TRACE_BEST_POLICIES": "1"}
    for k, v in want.items():
        ck.need(got.get(k) == v, "settings", s, "%s is %s" % (k, got.get(k)), "%s=%s" % (k, v))


def check(ck):
    for f in (declarations, request, ends, problems, fences, starts):
        ck.guarded(f, ck)
