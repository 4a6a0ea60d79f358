"""C02: every finished execution is recorded exactly once, with its own features, policy and metric."""
from common import *

INSERT = "Apollo::Dataset::insert"
TRAINABLE = "apollo::PolicyModel::isTrainable"
ISDONE = "Apollo::Timer::isDone"
STOP = "Apollo::Timer::stop"
OPAQUE = {INSERT, "Apollo::train", "Apollo::Region::train", "Apollo::instance"}


def trainable():
    return atom(T("res", TRAINABLE, in_this("model")))


def recording():
    return on("APOLLO_PERSISTENT_DATASETS") | trainable()


def metric_of(e):
    """the metric a completion query wrote back"""
    return T("out", ISDONE, 0, *e.res.args[1:])


def is3(e):
    return len(e.args) == 3


def record(ck, s, evs, ctx, metric, want, care):
    """exactly one insertion of (features, policy, metric) of ctx into the region's data when want"""
    ck.once("recorded-once", evs, want & recording(), s, "recording a finished execution", care)
    for e, _ in evs:
        g = e.guard & care
        ck.need(ck.same(e.obj, s.this("dataset"), g), "into-own-dataset", e, "recorded into %s" % show(e.obj))
        for i, (name, w) in enumerate((("features", init(ctx, "features")), ("policy", init(ctx, "policy")),
                                       ("metric", metric))):
            ck.need(ck.same(e.args[i], w, g), "records-own-" + name, e,
                    "the recorded %s is %s instead of %s" % (name, show(e.args[i])[:300], show(w)[:300]))


def drain(ck, s, pend, want):
    """every pending execution is asked whether it finished; the finished ones are recorded, freed and removed.
    Returns the number of them."""
    asks = [(e, l) for e, l in s.calls(ISDONE) if l]
    sync = s.this("sync_context")
    if not asks:
        ck.need(False, "pending-examined", s, "pending executions are never asked whether they finished")
        return None
    tot = ZERO
    if len(asks) != 1 or len(asks[0][1]) != 1:
        ck.undecided("pending-examined", asks[0], "pending executions are examined at several places")
        return None
    e, (loop,) = asks[0]
    k = loop.k
    item = elt(pend, k)
    ck.need(ck.same(loop.n, size(pend), loop.guard), "pending-examined", loop,
            "examines %s of %s pending executions" % (show(loop.n), show(size(pend))))
    if loop.exits is not FALSE and terms.sat(loop.exits):
        ck.bad("pending-examined", loop, "stops examining pending executions early when %s" % showb(loop.exits))
    ck.need(ck.same_guard(loop.guard, want & s.st.pc | want & loop.guard), "pending-examined", loop,
            "pending executions are examined only when %s" % showb(loop.guard))
    inr = cmp_("<", k, loop.n, True) & cmp_(">=", k, ZERO, True)
    care = e.guard & ~eq(item, sync)
    throws = FALSE
    for t, l in s.kinds("throw", "abort"):
        if l and l[0] is loop:
            throws = throws | t.guard
    ck.need(ck.same_guard(e.guard | throws, loop.guard, inr), "pending-examined", e,
            "a pending execution is skipped unless %s" % showb(e.guard)[:400])
    ck.need(ck.same(e.obj, init(item, "timer"), care), "own-timer-asked", e, "asks %s" % show(e.obj)[:300])
    done = truth(e.res)
    ins = [(x, l) for x, l in s.calls(INSERT) if l and l[0] is loop and is3(x)]
    record(ck, s, ins, item, metric_of(e), done, care)
    dels = [(x, l) for x, l in s.kinds("delete") if l and l[0] is loop]
    ck.once("freed-once", dels, done, loop, "freeing a finished asynchronous execution", care)
    for x, _ in dels:
        ck.need(ck.same(x.obj, item, x.guard & care), "frees-own", x, "frees %s" % show(x.obj)[:300])
        for y, _ in ins:
            ck.need(ck.before(s, y, x), "recorded-before-freed", x, "the execution is freed before it is recorded")
    got = s.get("pending_contexts")
    k2 = T("k", "pend")
    left = seq((T("comp", k2, loop.n, (T("opt", subst_b(~done, {k: k2}), (T("item", subst(item, {k: k2})),)),)),))
    ck.need(ck.same(got, left, want & s.st.pc), "finished-leave-pending", s,
            "pending executions become %s" % show(got)[:400])
    return mk_sum(k2, loop.n, ite(subst_b(done, {k: k2}), ONE, ZERO))


def subst_b(b, m):
    return interp.map_b_subst(b, m)


def counted(ck, s, n, care):
    if n is None:
        return
    p = in_this("apollo")
    got = s.read(field_ptr(p, "region_executions"))
    want = add(init(p, "region_executions"), n)
    ck.need(ck.same(got, want, care), "finished-counted", s,
            "the count of finished executions becomes %s" % show(deep(got, care))[:500])


def after_free(ck, s):
    """nothing of an execution is used once it was released"""
    isf = lambda x: x.op == "freed"
    for e, _ in s.flat:
        if e.kind == "delete":
            continue
        ts = [t for t in (e.obj,) + tuple(e.args or ()) if t is not None and contains(t, isf)]
        g = [t for t in terms.batoms(e.guard) if contains(t, isf)]
        ts = [t for t in ts if contains(deep(t, e.guard), isf)]
        ck.need(not (ts or g), "released-last", e, "uses %s after the execution was released" % show((ts + g)[0])[:200] if ts or g else "")


def no_choice(ck, s):
    ck.need(not s.calls("apollo::PolicyModel::getIndex"), "policy-kept", s, "a new policy is chosen at the end")


def end_metric(ck, config, np, ctxf):
    s = ck.sum("Apollo::Region::end", np, ["RegionContext", "double"] if np == 2 else ["double"], opaque=OPAQUE,
               pure={TRAINABLE}, config=config)
    ctx, m = ctxf(s), argv(s, np - 1)
    top = [(e, l) for e, l in s.calls(INSERT) if not l and is3(e)]
    record(ck, s, top, ctx, m, TRUE, s.st.pc)
    sync = eq(ctx, s.this("sync_context"))
    dels = [(e, l) for e, l in s.kinds("delete") if not l]
    ck.once("freed-once", dels, ~sync, s, "freeing the execution unless it is the synchronous one", s.st.pc)
    for e, _ in dels:
        ck.need(ck.same(e.obj, ctx, e.guard), "frees-own", e, "frees %s" % show(e.obj)[:300])
        for y, _ in top:
            ck.need(ck.before(s, y, e), "recorded-before-freed", e, "the execution is freed before it is recorded")
    n = drain(ck, s, in_this("pending_contexts"), TRUE)
    counted(ck, s, add(ONE, n) if n is not None else None, s.st.pc)
    no_choice(ck, s)
    after_free(ck, s)


def end_timed(ck, config, np, ctxf):
    s = ck.sum("Apollo::Region::end", np, ["RegionContext"] if np else [], opaque=OPAQUE, pure={TRAINABLE},
               config=config)
    ctx = ctxf(s)
    sync = eq(ctx, s.this("sync_context"))
    tm = init(ctx, "timer")
    stops = s.calls(STOP)
    ck.once("timer-stopped-once", stops, TRUE, s, "stopping the timer", s.st.pc)
    for e, _ in stops:
        ck.need(ck.same(e.obj, tm, e.guard), "own-timer-stopped", e, "stops %s" % show(e.obj)[:300])
    asks = [(e, l) for e, l in s.calls(ISDONE) if not l]
    g = FALSE
    metric = UNDEF
    for e, _ in asks:
        g = g | e.guard
        ck.need(ck.same(e.obj, tm, e.guard), "own-timer-asked", e, "asks %s" % show(e.obj)[:300])
        for y, _ in stops:
            ck.need(ck.before(s, y, e), "stopped-before-read", e, "the time is read before the timer is stopped")
        metric = join(e.guard, metric_of(e), metric)
    ck.once("sync-measured-once", asks, sync, s, "reading the time of a synchronous execution", s.st.pc)
    top = [(e, l) for e, l in s.calls(INSERT) if not l and is3(e)]
    record(ck, s, top, ctx, metric, sync, s.st.pc)
    dels = [(e, l) for e, l in s.kinds("delete") if not l]
    ck.once("sync-not-freed", dels, FALSE, s, "freeing the execution at the end call itself", s.st.pc)
    n = drain(ck, s, append(in_this("pending_contexts"), ctx), ~sync)
    if n is not None:
        counted(ck, s, n, s.st.pc & ~sync)
        for e, l in s.calls(ISDONE):
            for y, _ in stops:
                ck.need(ck.before(s, y, e), "stopped-before-read", e, "the time is read before the timer is stopped")
    counted(ck, s, ONE, s.st.pc & sync)
    no_choice(ck, s)
    after_free(ck, s)


def c_end_metric(ck):
    for c in ("default", "cuda", "hip"):
        end_metric(ck, c, 2, lambda s: argv(s, 0))


def c_end_metric_current(ck):
    end_metric(ck, "default", 1, lambda s: in_this("current_context"))


def c_end_timed(ck):
    for c in ("default", "cuda", "hip"):
        end_timed(ck, c, 1, lambda s: argv(s, 0))


def c_end_timed_current(ck):
    end_timed(ck, "default", 0, lambda s: in_this("current_context"))


def c_collect(ck):
    s = ck.sum("Apollo::Region::collectPendingContexts", 0, opaque=OPAQUE, pure={TRAINABLE})
    n = drain(ck, s, in_this("pending_contexts"), TRUE)
    counted(ck, s, n, s.st.pc)


def c_drained(ck):
    """destruction waits for the pending executions, then stores"""
    s = ck.sum("Apollo::Region::~Region", 0, opaque=OPAQUE | {"Apollo::Region::collectPendingContexts",
                                                            "Apollo::Dataset::store"}, pure={TRAINABLE})
    cs = s.calls("Apollo::Region::collectPendingContexts")
    if not cs:
        ck.bad("pending-collected-at-end", s, "destruction does not collect pending executions")
        return
    e, l = cs[-1]
    ok = False
    for lp in l:
        # the loop goes on exactly while executions are pending
        ats = [a for a in batoms(lp.cont)]
        if len(ats) == 1 and ats[0].op == "ge0" and contains(ats[0], lambda t: t.op == "size") and \
                "pending_contexts" in show(ats[0]):
            pos = terms.sat(lp.cont & atom(ats[0]))
            p, c = terms.poly_split(ats[0].args[0])
            sizes = [x for x in subterms(p) if x.op == "size"]
            ok = (c == -1 and pos) if len(sizes) == 1 and p is sizes[0] else None
        else:
            ok = None
            # the loop may also end while executions are pending
            left = [a for a in ats if a.op == "ge0" and "pending_contexts" in show(a)]
            rest = [a for a in ats if a not in left]
            if len(left) == 1 and rest and all(understood(a) for a in ats) and terms.sat(atom(left[0]) & ~lp.cont) and \
                    not terms.sat(lp.cont & ~atom(left[0])) and all(not contains(a, lambda t: t.op in ("loopv", "unk")) for a in rest):
                ok = False
        if ok is not False and lp.exits is not FALSE and terms.sat(lp.exits & lp.cont):
            ok = None
    if not l:
        ck.bad("pending-collected-at-end", e, "destruction looks at pending executions once instead of until none is left")
    else:
        ck.need(ok, "pending-collected-at-end", e, "destruction does not wait until no execution is pending")
    ck.need(ck.same_guard(l[0].guard if l else e.guard, TRUE), "pending-collected-at-end", e, "only under a condition")
    for x, _ in s.calls("Apollo::Dataset::store"):
        ck.need(ck.before(s, e, x), "collected-before-stored", x, "the data is stored before pending executions are collected")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::RegionContext", "policy", False), ("Apollo::RegionContext", "features", False))
    ck.assume += ["the pointers held in different slots of one container point to different objects",
                  "a timer answers a completion query without touching the region"]
    for f in (c_end_metric, c_end_metric_current, c_end_timed, c_end_timed_current, c_collect, c_drained):
        ck.guarded(f, ck)
