"""C21: a region starts with the model, data and identity that were asked for, or not at all."""
from common import *

PARSE = "Apollo::Region::parsePolicyModel"
FAC = "apollo::ModelFactory::createPolicyModel"
LOAD, MLOAD, MTRAIN, MSTORE = "Apollo::Dataset::load", "apollo::PolicyModel::load", "apollo::PolicyModel::train", "apollo::PolicyModel::store"
RT, AT = "Apollo::Region::train", "Apollo::train"


def S(x):
    return T("str", x)


def path_of(v):
    return values.sel(v, "$path")


def region(ck):
    f = next(x for x in ck.prog().by_qn["Apollo::Region::Region"] if len(x["p"]) >= 4)
    return ck.sum("Apollo::Region::Region", len(f["p"]), f=f, opaque={RT, AT, FAC, "Apollo::instance"}, keeps={FAC},
                  mods={PARSE}, writes={LOAD})


def exists(s, p, ck):
    """guard: the file at p is there, as the constructor finds out"""
    out = []
    for e, _ in s.flat:
        if e.kind == "ext" and e.name == "stat" and ck.same(e.args[0], p, e.guard):
            out.append(cmp_("==", e.res, ZERO, True))
    return out


def opened(s, p, ck, after=None):
    out = []
    for t in {x for e, _ in s.flat for a in terms.batoms(e.guard) for x in subterms(a) if x.op == "good"}:
        if any(x.op == "opened" and ck.same(x.args[0], p) for x in subterms(t)):
            out.append(atom(t))
    return out


def check_(ck):
    s = region(ck)
    f = s.f
    nf, rn, npol, mt, info, yaml = (argv(s, i) for i in range(6))
    pc = s.st.pc
    # identity
    for m, v in (("num_features", nf), ("num_policies", npol), ("min_training_data", mt), ("idx", ZERO)):
        ck.need(ck.same(s.get(m), v, pc), "identity", s, "%s of a new region is %s" % (m, show(s.get(m))[:150]))
    name = s.get("name")
    cp = [(e, l) for e, l in s.flat if e.kind == "copy"]
    buf = next((x["t"] for x in ck.prog().records["Apollo::Region"]["f"] if x["n"] == "name"), "")
    room = int(buf[buf.index("[") + 1:buf.index("]")]) if "[" in buf else None
    if room is None:
        ck.undecided("name-fits", s, "name is a %s" % buf)
    else:
        ck.need(room >= 64, "name", s, "only %d characters of the name are kept" % (room - 1))
        for e, _ in cp:
            if e.obj is not field_ptr(addr(THIS), "name"):
                continue
            if e.name == "snprintf" and len(e.args) == 3 and e.args[1] is S("%s"):
                n = const(e.args[0])
                ck.need(ck.same(e.args[2], rn), "name", e, "the name is copied from %s" % show(e.args[2])[:150])
                ck.need(n <= room if n is not None else None, "name-fits", e, "%s characters are copied to %d" % (n, room))
                continue
            if e.name != "strncpy":
                ck.undecided("name", e, "copied with %s" % e.name)
                continue
            ck.need(ck.same(e.args[0], rn), "name", e, "the name is copied from %s" % show(e.args[0])[:150])
            n = const(e.args[1]) if len(e.args) > 1 else None
            ck.need(n < room if n is not None else None, "name-fits", e, "%s characters are copied to %d" % (n, room))
            ck.need(n >= room - 1 if n is not None else None, "name", e, "only %s characters of the name are kept" % n)
        if name.op == "upd":
            i, v = name.args[1], name.args[2]
            ck.need(ck.same(v, ZERO), "name-ends", s, "the name ends with %s" % show(v)[:50])
            far = [v for _, v in cases(i, TRUE) if const(v) is not None and const(v) >= room]
            ck.need((const(i) == room - 1 if const(i) is not None else False if far else None), "name-ends", s, "the name is ended at %s" % show(i)[:50])
        elif name.op == "snprintf":
            ck.ok("name-ends", s, "snprintf ends it")
        elif name.op == "strncpy":
            ck.bad("name-ends", s, "a name of %d characters or more has no end" % room)
        else:
            ck.undecided("name-ends", s, "name is %s" % show(name)[:150])
    # the specification
    ps = s.calls(PARSE)
    want = ite(eq(info, S("")), cfg("APOLLO_POLICY_MODEL"), info)
    ck.once("specification", ps, TRUE, s, "the specification is parsed")
    if len(ps) != 1:
        return
    ck.need(ck.same(ps[0][0].args[0], want), "specification", ps[0], "parses %s" % show(ps[0][0].args[0])[:200])
    pid = ps[0][0].id
    mname, mparams = T("out", PARSE, "model_name", pid), T("out", PARSE, "model_params", pid)
    static = eq(mname, S("StaticRegion"))
    # the model
    fs = s.calls(FAC)
    found = has(mparams, name)
    ck.once("one-model", fs, ~static | found, s, "the model is made")
    if len(fs) != 1:
        return
    e = fs[0][0]
    n2 = ite(static, S("Static"), mname)
    care = e.guard
    ck.need(ck.same(e.args[0], n2, care), "model-asked-for", e, "makes a model %s" % show(e.args[0])[:200])
    ck.need(ck.same(e.args[1], nf, care), "model-asked-for", e, "makes a model for %s features" % show(e.args[1])[:100])
    ck.need(ck.same(e.args[2], npol, care), "model-asked-for", e, "makes a model for %s policies" % show(e.args[2])[:100])
    # parameters
    got = e.args[3]
    q = T("anykey")
    pol = S("policy")
    ck.need(ck.same_guard(has(got, q), has(mparams, q), ~static & care), "parameters", e, "the model's parameters are %s" % show(got)[:200])
    ck.need(ck.same(mget(got, q), mget(mparams, q), ~static & care & has(mparams, q)), "parameters", e, "the model's parameters are %s" % show(got)[:200])
    ck.need(ck.same_guard(has(got, q), keq(q, pol), static & care), "own-static-policy", e, "the model's parameters are %s" % show(got)[:200])
    ck.need(ck.same(mget(got, pol), mget(mparams, name), static & care), "own-static-policy", e, "the policy is %s" % show(mget(got, pol))[:200])
    ck.need(ck.same(s.get("model"), e.res, pc), "own-model", s, "the region's model is %s" % show(s.get("model"))[:150])
    model = e.res
    has_load, has_ds = has(mparams, S("load")) & ~static, has(mparams, S("load-dataset")) & ~static
    # the factory leaves the parameters alone
    ff = ck.prog().find(FAC, 4)
    c = ck.sum(FAC, 4, opaque={FAC})
    after, before = c.read(argp(c, 3)), argv(c, 3)
    for k in ("load", "load-dataset"):
        ck.need(ck.same_guard(has(after, S(k)), has(before, S(k)), c.st.pc), "parameters", c, "making the model changes the parameter %s" % k)
    # files
    rank = init(s.get("apollo"), "mpiRank")
    out = cfg("APOLLO_OUTPUT_DIR")
    dsfile = cat(out, S("/"), cfg("APOLLO_DATASETS_DIR"), S("/Dataset-"), name, S(".yaml"))
    latest = cat(out, S("/"), cfg("APOLLO_MODELS_DIR"), S("/"), n2, S("-latest-rank-"), T("dec", rank), S("-"), name, S(".yaml"))
    given = mget(mparams, S("load"))
    mfile = ite(eq(given, S("")), latest, given)
    optfile = cat(S("opt-"), name, S("-rank-"), T("dec", rank), S(".txt"))
    opt, dmap = eq(mname, S("Optimal")), eq(mname, S("DatasetMap"))
    per = on("APOLLO_PERSISTENT_DATASETS")
    # model loads
    ml = s.calls(MLOAD)
    for e, _ in ml:
        ck.need(ck.same(e.obj, model, e.guard), "own-model", e, "loads %s" % show(e.obj)[:150])

    def fits(e, p, g):
        return ck.same(e.args[0], p, e.guard & g)

    kinds = (("given-file", ~eq(yaml, S("")), yaml), ("load-parameter", has_load, mfile), ("optimal-file", opt, optfile))
    left = list(ml)
    for rule, cond, p in kinds:
        es = [x for x in left if ck.same(x[0].args[0], p, x[0].guard) and not terms.sat(x[0].guard & ~cond)]
        if not es:
            near = [x for x in left if terms.sat(x[0].guard & cond) and not terms.sat(x[0].guard & ~cond)]
            if near:
                e = near[0][0]
                ck.need(ck.same(e.args[0], p, e.guard), rule, e, "loads %s" % show(e.args[0])[:250])
                left.remove(near[0])
                continue
            un = [x for x in left if not understood(bterm(x[0].guard)) or not understood(x[0].args[0])]
            over = [x for x in left if ck.same(x[0].args[0], p, x[0].guard)]
            if over:
                ck.need(None if un else False, rule, over[0], "loads %s when %s" % (show(p)[:150], showb(over[0][0].guard & ~cond)[:300]))
                left.remove(over[0])
                continue
            ck.need(None if un else False, rule, s, "no model is loaded from %s" % show(p)[:200])
            continue
        ck.once(rule, es, cond & pc, s, "the model is loaded from %s" % show(p)[:100], care=pc)
        for x in es:
            left.remove(x)
    for e, _ in left:
        ck.need(False if understood(bterm(e.guard)) and understood(e.args[0]) else None, "no-other-model", e,
                "loads a model from %s when %s" % (show(e.args[0])[:150], showb(e.guard)[:200]))
    order = [e for e, _ in ml]
    # a model file that is not there ends the program
    for rule, cond, p in kinds[1:]:
        ex = exists(s, p, ck)
        if not ex:
            ck.undecided(rule + "-missing", s, "existence of %s is not tested with stat" % show(p)[:100])
            continue
        for x in ex:
            ck.need(not terms.sat(pc & cond & ~x) if understood(bterm(pc)) else None, rule + "-missing", s,
                    "the program continues without the file %s" % show(p)[:150])
    # datasets
    ds = field_ptr(addr(THIS), "dataset")
    dl = s.calls(LOAD)
    for e, _ in dl:
        ck.need(True if e.obj is ds else None, "own-dataset", e, "loads into %s" % show(e.obj)[:100])
        p = path_of(e.args[0])
        ck.need(None if p.op == "undef" else ck.same(p, dsfile, e.guard), "own-dataset", e, "loads the dataset %s" % show(p)[:250])
    op = opened(s, dsfile, ck)
    if not op:
        ck.undecided("dataset-missing", s, "opening the dataset is not understood")
    else:
        anyop = FALSE
        for x in op:
            anyop = anyop | x
        for rule, cond in (("load-dataset", has_ds), ("dataset-map", dmap)):
            ck.need(not terms.sat(pc & cond & ~anyop) if understood(bterm(pc)) else None, rule + "-missing", s,
                    "the program continues without the dataset")
        got = FALSE
        for e, _ in dl:
            got = got | e.guard
        und = any(not understood(bterm(e.guard)) for e, _ in dl)
        allop = TRUE
        for x in op:
            allop = allop & x
        want = per | has_ds | dmap
        ck.need(None if und else not terms.sat(got & ~want), "restores", s, "a dataset is loaded although %s" % showb(got & ~want)[:300])
        ck.need(None if und else not terms.sat(pc & allop & want & ~got), "restores", s, "no dataset is loaded when %s" % showb(pc & allop & want & ~got)[:300])
        ck.need(None if und else terms.sat(pc & per & ~anyop), "persistent-optional", s, "a first run without stored dataset is refused")
    # training with the loaded data
    idxs = {id(e): i for i, (e, _) in enumerate(s.flat)}

    def trained(rule, evs, cond, what):
        tot = FALSE
        und = False
        for e, _ in evs:
            und = und or not understood(bterm(e.guard))
            tot = tot | e.guard
        miss = pc & cond & ~tot
        ck.need(None if und else not terms.sat(miss), rule, evs[0] if evs else s, "%s does not happen when %s" % (what, showb(miss)[:300]))
        for e, _ in evs:
            # data comes before the training, and there is data
            prior = [x for x, _ in dl if idxs[id(x)] < idxs[id(e)]]
            g = FALSE
            for x in prior:
                g = g | x.guard
            ck.need(None if und else not terms.sat(e.guard & cond & ~g), rule, e, "%s happens before the data is loaded" % what)
            last = [x for x in prior if terms.sat(x.guard & cond)]
            if last:
                x = last[-1]
                empty = cmp_("==", size(sel(T("out", LOAD, -1, x.id), "data")), ZERO, True)
                ck.need(None if und else not terms.sat(e.guard & cond & x.guard & empty), rule, e, "%s happens with an empty dataset" % what)

    rt = [(e, l) for e, l in s.calls(RT) if terms.sat(e.guard & has_ds & ~per)]
    trained("load-dataset", rt, has_ds, "training with the loaded dataset")
    for e, _ in rt:
        ck.need(ck.same(e.obj, addr(THIS)), "load-dataset", e, "trains %s" % show(e.obj)[:100])
    mt_ = s.calls(MTRAIN)
    trained("dataset-map", mt_, dmap, "filling the map")
    for e, _ in mt_:
        ck.need(ck.same(e.obj, model), "dataset-map", e, "trains %s" % show(e.obj)[:100])
        ck.need(None if not understood(bterm(e.guard)) else not terms.sat(e.guard & ~dmap), "dataset-map", e, "trains the model directly when %s" % showb(e.guard & ~dmap)[:300])
        if e.ptrs and e.ptrs[0] is not None:
            ck.need(True if e.ptrs[0] is ds else None, "dataset-map", e, "trains with %s" % show(e.ptrs[0])[:100])
    for e, _ in s.calls(RT):
        x = e.guard & ~has_ds & ~per
        ck.need(None if not understood(bterm(e.guard)) else not terms.sat(x), "no-other-training", e, "a new region trains when %s" % showb(x)[:300])
    # registered
    a = s.get("apollo")
    regs = s.read(field_ptr(a, "regions"))
    old = init(a, "regions")
    ck.need(ck.same_guard(has(regs, name), TRUE, pc), "registered", s, "the region is not registered")
    ck.need(ck.same(mget(regs, name), addr(THIS), pc & ~has(old, name)), "registered", s, "under its name is registered %s" % show(mget(regs, name))[:150])
    q = T("anykey")
    ck.need(ck.same_guard(has(regs, q), has(old, q), pc & ~keq(q, name)), "registered", s, "other regions are changed")
    ck.need(ck.same(mget(regs, q), mget(old, q), pc & ~keq(q, name) & has(old, q)), "registered", s, "other regions are changed")
    # files agree with what training stores
    t = ck.sum(RT, 3, opaque={"Apollo::Region::collectPendingContexts", "Apollo::Dataset::findMinMetricPolicyByFeatures"})
    st = t.calls(MSTORE)
    mdl = in_this("model")
    here = rec_of(s)
    hits = []
    for e, _ in st:
        if not ck.same(e.obj, mdl, e.guard):
            continue
        own = init(mdl, "name") if mdl.op != "null" else None
        p = subst(e.args[0], {own: n2, in_this("name"): name, init(in_this("apollo"), "mpiRank"): rank}) if own is not None else e.args[0]
        hits.append((e, ck.same(p, latest, pc), p))
    if not hits:
        ck.undecided("latest-model", t, "no model is stored by training")
    elif not any(r for _, r, _ in hits):
        r = None if any(r is None for _, r, _ in hits) else False
        ck.need(r, "latest-model", hits[-1][0], "the latest model is stored in %s but a region with an empty load parameter reads %s" %
                (show(hits[-1][2])[:200], show(latest)[:200]))
    else:
        ck.ok("latest-model", t, "the model file read is the one written")


def rec_of(s):
    return whole(s)


def const(t):
    return t.args[0] if t.op == "num" else None


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::Region", "num_features", False), ("Apollo::Region", "num_policies", False), ("Apollo::Region",
               "min_training_data", False), ("Apollo::Region", "idx", False))
    ck.guarded(check_, ck)
