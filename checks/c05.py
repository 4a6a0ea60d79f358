"""C05: the models that do not learn answer exactly as advertised: round robin cycles, random stays in range,
static is constant, optimal replays its file."""
from common import *

PASSIVE = ("load", "store", "train", "isTrainable")


def steady(ck, cls, fields, allow=()):
    """no other method changes what the answers depend on"""
    for m in PASSIVE:
        if m in allow:
            continue
        s = ck.sum("apollo::%s::%s" % (cls, m), 0 if m == "isTrainable" else 1)
        for f in fields:
            ck.need(ck.same(s.get(f), in_this(f), s.st.pc), "state-kept", s, "%s changes %s" % (m, show(s.get(f))[:200]))
        if m == "isTrainable":
            ck.need(ck.same(s.res, bterm(FALSE), s.st.pc), "not-trainable", s, "is trainable: %s" % show(s.res))


def c_roundrobin(ck):
    c = ck.sum("apollo::RoundRobin::RoundRobin", 1)
    s = ck.sum("apollo::RoundRobin::getIndex", 1)
    n = argv(c, 0)
    pc = in_this("policy_count")
    some = cmp_(">=", pc, ONE, True)
    ck.need(ck.same_guard(s.st.pc, TRUE, some), "always-answers", s, "does not answer unless %s" % showb(s.st.pc))
    first = plug(s.res, whole(c))
    ck.need(ck.same(first, ZERO, cmp_(">=", n, ONE, True)), "starts-at-zero", c, "the first answer is %s" % show(first)[:200])
    nxt = plug(s.res, whole(s))
    r1 = add(s.res, ONE)
    wants = [mod(r1, pc), ite(cmp_(">=", r1, pc, True), ZERO, r1), ite(eq(r1, pc), ZERO, r1)]
    inr = some
    rs = []
    for a in [nxt, collapse(nxt)]:
        for w in wants + [collapse(x) for x in wants]:
            rs.append(ck.same(a, w, inr))
    # refuted only when the plain successor, away from the wrap around, is missed
    r = True if True in rs else (None if None in rs else False)
    ck.need(r, "cycles-in-order", s, "after answering %s the next answer is %s" % (show(s.res)[:200], show(nxt)[:300]))
    for f in ("policy_count",):
        ck.need(ck.same(c.get(f), n, c.st.pc), "number-of-policies", c, "assumes %s policies" % show(c.get(f)))
        ck.need(ck.same(s.get(f), pc, s.st.pc), "state-kept", s, "changes the number of policies")
    steady(ck, "RoundRobin", [f for f in state_of(s)] + ["policy_count"])


def collapse(t):
    """mod(mod(a, n) + c, n) = mod(a + c, n)"""
    def f(x):
        if x.op == "mod":
            n = x.args[1]
            m = {}
            for y in subterms(x.args[0]):
                if y.op == "mod" and y.args[1] is n:
                    m[y] = y.args[0]
            if m:
                return f(mod(subst(x.args[0], m), n))
        return terms.rebuild(x, f)
    return f(t)


def state_of(s):
    """members the answer depends on or changes"""
    out = set()
    w = whole(s)
    if w.op == "rec":
        out |= {k for k, _ in w.args[1]}
    return sorted(out | members(s.res))


def c_random(ck):
    c = ck.sum("apollo::Random::Random", 1)
    s = ck.sum("apollo::Random::getIndex", 1)
    n = argv(c, 0)
    r = plug(s.res, whole(c))
    some = cmp_(">=", n, ONE, True)
    ck.need(ck.same_guard(plug(s.st.pc, whole(c)), TRUE, some), "always-answers", s, "does not answer unless %s" % showb(s.st.pc))
    for g, v in cases(r, some):
        if v.op == "draw":
            lo, hi = v.args[0], v.args[1]
            ck.need(ck.same(lo, ZERO, g), "random-in-range", s, "the least policy drawn is %s" % show(lo)[:200])
            ck.need(ck.same(hi, sub(n, ONE), g), "random-in-range", s,
                    "the greatest policy drawn is %s, not the last policy" % show(hi)[:200])
        elif v.op == "num":
            ck.need(ck.same_guard(g, FALSE, g & cmp_(">=", n, num(2), True)), "random-draws", s,
                    "answers %s without drawing when %s" % (show(v), showb(g)))
            ck.need(ck.same(v, ZERO, g), "random-in-range", s, "answers %s when %s" % (show(v), showb(g)))
        else:
            ck.need(None if not understood(v) or v.op in ("draw2", "mod", "rand") else False, "random-draws", s,
                    "answers %s" % show(v)[:300])
    for e, _ in s.kinds("draw"):
        ck.advances("random-draws", e)
        if len(e.args) > 1 and e.args[1].op == "gen":
            x = e.args[1].args[0]
            same = understood(x) and not contains(x, lambda t: t.op in ("rand", "call", "res", "out", "draw", "obj", "objn"))
            same = same and all(ck.same(s.get(f), in_this(f), s.st.pc) is True for f in members(x))
            ck.need(False if same else None, "random-draws", e, "every answer is the first draw of a generator seeded with %s" % show(x)[:100])
    for f in ("policy_count", "random_dist"):
        ck.need(ck.same(s.get(f), in_this(f), s.st.pc), "state-kept", s, "drawing changes %s" % f)
    steady(ck, "Random", ["policy_count", "random_dist"])


def c_static(ck):
    c = ck.sum("apollo::Static::Static", 2)
    s = ck.sum("apollo::Static::getIndex", 1)
    r = plug(s.res, whole(c))
    ck.need(ck.same(r, argv(c, 1), TRUE), "static-constant", s, "answers %s instead of the configured policy" % show(r)[:200])
    ck.need(ck.same_guard(s.st.pc, TRUE), "always-answers", s, "does not answer unless %s" % showb(s.st.pc))
    for f in state_of(s):
        ck.need(ck.same(s.get(f), in_this(f), s.st.pc), "state-kept", s, "answering changes %s" % f)
    steady(ck, "Static", state_of(s))


def c_optimal(ck):
    s = ck.sum("apollo::Optimal::getIndex", 1)
    q = in_this("optimal_policy")
    some = cmp_(">=", size(q), ONE, True)
    ck.need(ck.same_guard(s.st.pc, some), "replay-ends", s, "answers when %s" % showb(s.st.pc)[:300])
    ck.need(ck.same(s.res, elt(q, ZERO), some), "replays-in-order", s, "answers %s" % show(s.res)[:200])
    got = s.get("optimal_policy")
    ck.need(ck.same(got, T("tail", q), some), "replays-in-order", s,
            "keeps %s" % show(got)[:200])
    steady(ck, "Optimal", ["optimal_policy"], allow=("load",))
    for name, np, old in (("load", 1, q), ("Optimal", 1, EMPTYSEQ)):
        s = ck.sum("apollo::Optimal::" + name, np)
        reads(ck, s, old)


def reads(ck, s, old):
    """every comma separated number of the file, in order, once"""
    opens = [e for e, _ in s.kinds("open")]
    ck.need(len(opens) == 1 and ck.same(opens[0].args[0], argv(s, 0), s.st.pc) if opens else False, "reads-given-file", s,
            "opens %s" % [show(e.args[0])[:100] for e in opens])
    lines = s.kinds("getline")
    if len(lines) == 2 and not lines[0][1] and len(lines[1][1]) == 1 and lines[0][0].res is not None:
        # an entry read ahead of the loop and never looked at
        x = lines[0][0].res
        seen = [s.get("optimal_policy")] + [y for e2, _ in s.flat if e2 is not lines[0][0] for y in e2.args] + \
            [bterm(e2.guard) for e2, _ in s.flat]
        if not any(y is not None and contains(y, lambda t: t is x) for y in seen) and ck.same_guard(lines[0][0].guard, TRUE, s.st.pc):
            ck.bad("reads-every-entry", lines[0][0], "an entry is read and dropped")
            return
    if len(lines) != 1 or len(lines[0][1]) != 1:
        ck.undecided("reads-every-entry", s, "the file is not read by one loop over its entries")
        return
    e, (loop,) = lines[0]
    d = e.args[-1]
    ck.need(ck.same(d, num(44), TRUE), "reads-every-entry", e, "entries end at character %s" % show(d))
    if loop.n.op == "trip":
        # goes on exactly as long as an entry was got
        c = truth(loop.n.args[1])
        ats = terms.batoms(c)
        mine = [a for a in ats if a.op == "good" and a.args[0].op == "after" and e.id in a.args[0].args[1:]]
        r = None
        if len(mine) == 1:
            g = atom(mine[0])
            if ck.same_guard(c, g):
                r = True
            elif terms.implies(c, g) and all(a in mine or a.op == "eof" for a in ats):
                r = False
        ck.need(r, "reads-every-entry", e, "an entry that was got is kept only while %s" % showb(c)[:250])
    got = s.get("optimal_policy")
    k2 = T("k", "opt")
    want = concat(old, seq((T("comp", k2, loop.n, (T("item", T("stoi", subst(e.res, {loop.k: k2}))),)),)))
    a, b = canon(deep(got, s.st.pc)), canon(deep(want, s.st.pc))
    if a is b:
        ck.ok("replay-is-file", s, "the sequence is the numbers of the file in order")
    else:
        # the trip count of a reading loop has no closed form: compare what is appended per entry
        per = [x for x in subterms(got) if x.op == "comp" and x.args[0] is not None and x.args[1] is loop.n]
        one = [i for c in per for i in c.args[2]]
        if got is old:
            ck.bad("replay-is-file", s, "the entries read are dropped")
        elif len(per) == 1 and len(one) == 1 and one[0].op == "item":
            w = T("stoi", subst(e.res, {loop.k: per[0].args[0]}))
            ck.need(True if canon(one[0].args[0]) is canon(w) else (None if not understood_entry(one[0].args[0]) else False),
                    "replay-is-file", s, "an entry becomes %s" % show(one[0])[:200])
        elif got.op == "fold" and len(got.args[4]) == 1 and got.args[4][0].op == "seq" and loop.n is got.args[1] and \
                [x.op for x in got.args[4][0].args] == ["spread", "opt"] and got.args[4][0].args[0].args[0].op == "acc" and \
                all(a.op in ("ge0", "eq", "eq0", "==") for a in terms.batoms(got.args[4][0].args[1].args[0])) and \
                understood_entry(bterm(got.args[4][0].args[1].args[0])):
            ck.bad("replay-is-file", s, "an entry is kept only when %s" % showb(got.args[4][0].args[1].args[0])[:200])
        elif len(per) == 1 and len(one) == 1 and one[0].op == "opt":
            ck.bad("replay-is-file", s, "an entry is kept only when %s" % show(one[0])[:200])
        else:
            ck.undecided("replay-is-file", s, "the sequence becomes %s" % show(got)[:300])


def understood_entry(t):
    return not contains(t, lambda x: x.op in UNKNOWN_OPS)


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("apollo::Static", "policy_choice", False), ("apollo::RoundRobin", "policies", False), ("apollo::RoundRobin",
               "last_policy", False), ("apollo::Optimal", "optimal_policy", False), ("apollo::PolicyModel", "policy_count",
               False))
    for f in (c_roundrobin, c_random, c_static, c_optimal):
        ck.guarded(f, ck)
    ck.guarded(ck.keys, "whole-key", "apollo::RoundRobin", "policies")
