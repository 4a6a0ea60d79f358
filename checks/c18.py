"""C18: the policy trace and the best-policies trace report the decisions that were taken."""
from common import *
from c19 import pieces, S

GET = "apollo::PolicyModel::getIndex"
FIND = "Apollo::Dataset::findMinMetricPolicyByFeatures"
PEND = "Apollo::Region::collectPendingContexts"
MT = "apollo::PolicyModel::train"
APP, TRUNC = 1, 32


class Skips(Exception):
    pass


def is_cout(e):
    return e.obj is not None and e.obj.op == "addr" and e.obj.args[0] == ("glob", "std::cout")


def to_file(e):
    p = (e.extra or {}).get("path")
    return p is not None and p.op in ("cat", "str", "ite") and not is_cout(e)


def join(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def norm(t):
    """pieces with loops as (k, n, pieces)"""
    def go(xs):
        return join([("loop", x[2].k, x[2].n, go(x[2].items)) if isinstance(x, tuple) else x for x in xs])
    skipped(t)
    return go(pieces(t))


def skipped(t):
    """entries that are left out depending on what they are"""
    for x in subterms(t):
        if x.op == "first" and len(x.args) == 3 and understood(x.args[2]) and not contains(x.args[1], lambda y: y.op == "trip") and \
                contains(x.args[2], lambda y: y.op == "elt" and y.args[1] is x.args[0]):
            raise Skips("entries are left out from the first one with %s on" % show(x.args[2])[:200])
    if t.op == "rep":
        b = t.args[2]
        if b.op == "ite" and EMPTY in b.args[1:] and understood(bterm(b.args[0])) and \
                any(x.op == "elt" and x.args[1] is t.args[0] for a in terms.batoms(b.args[0]) for x in subterms(a)):
            raise Skips("entries are left out depending on %s" % showb(b.args[0])[:200])
        skipped(b)
    elif t.op == "cat":
        for a in t.args:
            skipped(a)


def written(ck, evs, pred):
    """what the events put into the streams: pieces, in order; the puts that are not guarded like their loop"""
    items, evl = [], []
    for e in evs:
        if e.loop:
            sub, l = written(ck, e.body, pred)
            if not l:
                continue
            for x in l:
                if e.n is None or not ck.same_guard(x.guard, e.guard & e.cont if isinstance(e.cont, B) else e.guard, TRUE):
                    raise Undecided("parts of the trace are written by a loop that is not understood")
            items.append(("loop", e.k, e.n, sub))
            evl.append(e)
        elif e.kind == "put" and pred(e):
            items += norm(e.args[0])
            evl.append(e)
    return join(items), evl


def loops(xs):
    return sum(1 + loops(x[3]) for x in xs if isinstance(x, tuple))


def plain(xs):
    return all(plain(x[3]) and understood(x[2]) if isinstance(x, tuple) else isinstance(x, str) or understood(x) for x in xs)


def text(xs):
    return "".join(x if isinstance(x, str) else "{%s}*" % text(x[3]) if isinstance(x, tuple) else "<%s>" % show(x)[-60:] for x in xs)


def same_text(ck, got, want, care):
    if loops(got) > loops(want):
        return None
    if len(got) != len(want) or loops(got) < loops(want):
        return False if plain(got) else None
    res = True
    for a, b in zip(got, want):
        if isinstance(a, str) or isinstance(b, str):
            r = True if a == b else (False if plain(got) else None)
        elif isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                r = False if plain(got) else None
            else:
                m = {a[1]: b[1]}

                def sub(xs):
                    return [("loop", x[1], subst(x[2], m), sub(x[3])) if isinstance(x, tuple) else x if isinstance(x, str) else subst(x, m) for x in xs]
                r = ck.same(a[2], b[2], care)
                q = same_text(ck, sub(a[3]), b[3], care)
                r = False if r is False or q is False else None if r is None or q is None else True
        else:
            r = ck.same(a, b, care)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def silent(s, when):
    """False if nothing else in the function could write the trace"""
    return None if any(e.kind in ("print", "ext", "stream", "unk") and terms.sat(e.guard & when) for e, _ in s.flat) else False


def report(ck, s, cl, want, path, when, append, care):
    for where, pred in (("the output", is_cout), ("the file", to_file)):
        def mine(e):
            return pred(e) and terms.sat(e.guard & when)
        try:
            got, evs = written(ck, s.events, mine)
        except Undecided as u:
            ck.undecided(cl, s, str(u))
            continue
        except Skips as u:
            ck.bad(cl, s, str(u))
            continue
        if not evs:
            ck.need(silent(s, when), cl, s, "nothing is written to %s" % where)
            continue
        for e in evs:
            ck.need(ck.same_guard(e.guard, when, care), cl, e, "written to %s when %s" % (where, showb(e.guard)[:200]))
        ck.need(same_text(ck, got, norm(want), when), cl, evs[0], "%s gets %s" % (where, text(got)[:300]))
        if where == "the file":
            for e, _ in s.flat:
                if e.kind == "put" and mine(e):
                    ck.need(ck.same(e.extra["path"], path, when), cl, e, "the trace is in %s" % show(e.extra["path"])[:200])
                    m = e.extra["mode"]
                    if append:
                        for g, v in cases(m, e.guard):
                            ck.need(bool(v.args[0] & APP) and not v.args[0] & TRUNC if is_num(v) else None, "appended", e, "the file is opened with mode %s when %s" % (show(v), showb(g)[:100]))


def policy_trace(ck):
    s = ck.sum("Apollo::Region::getPolicyIndex", 1, keeps={GET})
    c = s.calls(GET)
    if len(c) != 1 or c[0][1]:
        ck.undecided("policy", s, "%d requests to the model" % len(c))
        return
    rank = init(s.get("apollo"), "mpiRank")
    f = init(argv(s, 0), "features")
    k = T("k", "c18")
    want = cat(S("Rank "), T("dec", rank), S(" region "), s.get("name"), S(" model "), init(s.get("model"), "name"), S(" features [ "),
               T("rep", k, size(f), cat(T("dec", T("trunc", elt(f, k))), S(", "))), S("] policy "), T("dec", s.res), S("\n"))
    path = cat(S("rank-"), T("dec", rank), S("-policies.txt"))
    when = on("APOLLO_TRACE_POLICY")
    report(ck, s, "policy", want, path, when, True, TRUE)
    for e, _ in s.flat:
        if e.kind == "put" and (is_cout(e) or to_file(e)) and not terms.sat(e.guard & when):
            ck.bad("policy", e, "a trace is written though it is off")


def best_trace(ck):
    s = ck.sum("Apollo::Region::train", 3, opaque={PEND}, writes={FIND})
    tr = [(e, l) for e, l in s.calls(MT)]
    fs = s.calls(FIND)
    if len(tr) != 1 or tr[0][1]:
        ck.undecided("best", s, "%d trainings" % len(tr))
        return
    when = tr[0][0].guard & on("APOLLO_TRACE_BEST_POLICIES")
    if not fs:
        ck.need(silent(s, when), "best", s, "the best policies are not looked for")
        return
    if len(fs) != 1 or fs[0][1]:
        ck.undecided("best", s, "%d searches of the best policies" % len(fs))
        return
    fe = fs[0][0]
    ck.need(ck.same(fe.obj, field_ptr(addr(THIS), "dataset")), "best", fe, "the best policies of %s are reported" % show(fe.obj)[:100])
    # what the dataset holds at that point
    best = T("out", FIND, 2, fe.id)
    rank = init(s.get("apollo"), "mpiRank")
    i, k = T("k", "c18"), T("k", "c18b")
    b = elt(best, i)
    f = sel(b, "first")
    one = cat(S("[ "), T("rep", k, size(f), cat(T("dec", T("trunc", elt(f, k))), S(", "))), S("] P:"), T("dec", sel(sel(b, "second"), "first")),
              S(" T: "), T("flt", sel(sel(b, "second"), "second"), "double", num(6)), S("\n"))
    want = cat(S("=== Rank "), T("dec", rank), S(" BEST POLICIES Region "), s.get("name"), S(" ===\n"), T("rep", i, size(best), one))
    path = cat(S("step-"), T("dec", argv(s, 0)), S("-rank-"), T("dec", rank), S("-"), s.get("name"), S("-best_policies.txt"))
    report(ck, s, "best", want, path, when, False, TRUE)
    ck.need(ck.before(s, fe, tr[0][0]), "best", fe, "the best policies are reported after training")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::RegionContext", "policy", False))
    ck.guarded(policy_trace, ck)
    ck.guarded(best_trace, ck)
