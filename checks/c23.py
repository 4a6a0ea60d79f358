"""C23: timers measure the wall clock seconds between start and stop of their own execution."""
from common import *

STEADY = {1: "CLOCK_MONOTONIC", 4: "CLOCK_MONOTONIC_RAW", 7: "CLOCK_BOOTTIME"}


def marked(s, mark):
    """(object after the call, readings of the clock renamed)"""
    m = {}
    v = s.read(addr(THIS))
    for x in subterms(v):
        if x.op == "out" and x.args[0] == "clock_gettime":
            m[x] = T("clock", mark, *x.args[2:])
    return subst(v, m), m


def near(t):
    """decimal literals as written: 1e-9 is the same factor as 1 / 1e9"""
    if t.op == "ite":
        return ite(t.args[0], near(t.args[1]), near(t.args[2])) if isinstance(t.args[0], B) else t
    return terms.from_poly({m: Fraction(repr(float(c))) for m, c in terms.to_poly(t).items()})


def sync(ck):
    st, sp, dn = (ck.sum("TimerSync::" + m) for m in ("start", "stop", "isDone"))
    for s, what in ((st, "start"), (sp, "stop")):
        rd = s.calls("clock_gettime")
        others = [e for e, _ in s.flat if e.kind == "ext" and e.name != "clock_gettime"]
        if not rd:
            ck.need(None if others or s.flat else False, "reads-clock", s, "%s does not read a clock" % what)
            return
        if not ck.once("reads-clock", rd, TRUE, s, "reading the clock at %s" % what, s.st.pc):
            return
        e = rd[0][0]
        c = e.args[0]
        ck.need(None if not is_num(c) else int(c.args[0]) in STEADY, "steady-clock", e,
                "the clock read at %s is %s, which is not the steady wall clock" % (what, show(c)[:40]))
    clocks = {show(s.calls("clock_gettime")[0][0].args[0]) for s in (st, sp)}
    ck.need(len(clocks) == 1, "steady-clock", sp, "start and stop read different clocks: %s" % ", ".join(sorted(clocks)))
    v1, m1 = marked(st, "start")
    v2, m2 = marked(sp, "stop")
    if len(m1) != 1 or len(m2) != 1:
        # a reading that is dropped
        for v, m, s, what in ((v1, m1, st, "start"), (v2, m2, sp, "stop")):
            ck.need(False if not m and understood(v) else None, "reads-clock", s, "the time read at %s is not kept" % what)
        return
    obj = plug(v2, v1)
    metric = near(plug(dn.read(argp(dn, 0)), obj))
    (a,), (b,) = m1.values(), m2.values()

    def secs(t):
        return add(sel(t, "tv_sec"), mul(num(Fraction(1, 10**9)), sel(t, "tv_nsec")))
    want = sub(secs(b), secs(a))
    ck.need(ck.same(metric, want, dn.st.pc), "seconds", dn, "the metric of a timed execution is %s" % show(metric)[:300],
            "stop minus start, in seconds")
    ck.need(ck.same_guard(truth(plug(dn.res, obj)), TRUE), "done", dn, "a stopped timer is done when %s" % show(dn.res)[:100])
    again = plug(dn.read(argp(dn, 0)), plug(dn.read(addr(THIS)), obj))
    ck.need(ck.same(near(again), want, dn.st.pc), "seconds", dn, "asked again, the metric is %s" % show(again)[:200])


def device(ck, config, cls, api, not_ready):
    ctor = ck.sum("%s::%s" % (cls, cls), 0, config=config)
    dtor = ck.sum("%s::~%s" % (cls, cls), 0, config=config)
    st, sp, dn = (ck.sum("%s::%s" % (cls, m), config=config) for m in ("start", "stop", "isDone"))

    def fails(s):
        g = FALSE
        for e, _ in s.kinds("abort", "throw"):
            g = g | e.guard
        return g

    def ok(e):
        return cmp_("==", e.res, ZERO, True)

    mk = ctor.calls(api + "EventCreateWithFlags", api + "EventCreate")
    made = [e.args[0] for e, _ in mk]
    ck.need(True if len(set(made)) == 2 == len(mk) else (False if len(mk) < 2 else None), "two-events", ctor,
            "creates %d events: %s" % (len(mk), [show(x)[:60] for x in made]))
    for e, _ in mk:
        if len(e.args) > 1:
            f = e.args[1]
            # hip/cudaEventDisableTiming == 2
            ck.need(None if not is_num(f) else int(f.args[0]) & 2 == 0, "timed-events", e, "events are created with flags %s, without timing" % show(f))
    ck.need(ck.same_guard(fails(ctor), ~conj(ok(e) for e, _ in mk)) if mk else None, "errors-end", ctor, "a failed creation goes on")
    de = dtor.calls(api + "EventDestroy")
    gone = [e.args[0] for e, _ in de]
    ck.need(True if len(de) == 2 and {show(x) for x in gone} == {show(init(x)) for x in made} else (False if len(set(gone)) < len(made) else None),
            "events-freed", dtor, "destroys %s" % [show(x)[:60] for x in gone])
    rec = {}
    for s, what in ((st, "start"), (sp, "stop")):
        r = s.calls(api + "EventRecord")
        if not ck.once("recorded", r, TRUE, s, "recording the event at %s" % what, TRUE):
            return
        rec[what] = r[0][0]
        ck.need(ck.same_guard(fails(s), ~ok(r[0][0])), "errors-end", r[0][0], "a failed recording goes on")
    ck.need(rec["start"].args[0] is not rec["stop"].args[0], "recorded", rec["stop"], "start and stop record the same event")
    a, b = rec["start"].args[1:2], rec["stop"].args[1:2]
    ck.need(ck.same(a[0], b[0]) if a and b else None, "recorded", rec["stop"], "start and stop record in different streams")
    el = dn.calls(api + "EventElapsedTime")
    if not ck.once("elapsed", el, TRUE, dn, "asking for the elapsed time", TRUE):
        return
    e = el[0][0]
    for i, what in ((1, "start"), (2, "stop")):
        ck.need(ck.same(e.args[i], rec[what].args[0]), "elapsed", e, "time is taken %s %s" %
                ("from" if i == 1 else "to", show(e.args[i])[:80]))
    good = ok(e)
    pend = cmp_("==", e.res, num(not_ready), True)
    done = truth(dn.res)
    ck.need(ck.same_guard(done & dn.st.pc, good), "done", dn, "reported as done when %s" % showb(done & dn.st.pc)[:200])
    ck.need(ck.same_guard(fails(dn), ~good & ~pend), "errors-end", dn, "the program ends when %s" % showb(fails(dn))[:200])
    m = dn.read(argp(dn, 0))
    t = [x for x in subterms(m) if x.op == "out" and x.args[0] == e.name]
    if len(set(t)) != 1:
        ck.need(False if understood(m) and not t else None, "seconds", dn, "the metric is %s" % show(m)[:150])
        return
    ck.need(ck.same(near(deep(m, good)), near(mul(num(Fraction(1, 1000)), t[0])), good), "seconds", dn, "the metric is %s" % show(deep(m, good))[:150],
            "milliseconds of the device divided by 1000")


def conj(gs):
    r = TRUE
    for g in gs:
        r = r & g
    return r


def created(ck, config, kind, cls):
    p = ck.prog(config)
    n = 0
    for f in p.by_qn.get("Apollo::Timer::create", []):
        s = ck.sum("Apollo::Timer::create", f=f, config=config)
        got = {(e.extra or {}).get("cls") for e, _ in s.kinds("new", "ctor", "make")} - {None}
        if cls in got or (kind in str(f.get("ta", "")) + f["key"]):
            n += 1
            ck.need(True if cls in got else None, "right-kind", s, "creating a %s timer makes %s" % (kind, sorted(got)))
    if not n:
        ck.undecided("right-kind", "Apollo::Timer::create", "no creation of %s found" % cls)


def check(ck):
    ck.assume.append("clock_gettime does not fail, the steady clock of the system counts seconds and nanoseconds, and the device "
                     "event interface behaves as documented (elapsed times in milliseconds).")
    ck.guarded(sync, ck)
    ck.guarded(device, ck, "cuda", "TimerCudaAsync", "cuda", 600)
    ck.guarded(device, ck, "hip", "TimerHipAsync", "hip", 600)
    for c, k, cls in (("default", "Sync", "TimerSync"), ("cuda", "CudaAsync", "TimerCudaAsync"), ("hip", "HipAsync", "TimerHipAsync")):
        ck.guarded(created, ck, c, k, cls)
