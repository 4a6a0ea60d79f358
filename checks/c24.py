"""C24: one runtime per process; at its end every region is finished once, after what depends on it was written."""
from common import *

RG = "Apollo::Region::"


def instance(ck):
    s = ck.sum("Apollo::instance", 0, opaque={"Apollo::Apollo"})
    ck.need(True if s.res.op == "addr" and s.res.args[0][0] == "glob" and not s.res.args[1] else
            False if s.res.op == "addr" and s.res.args[0][0] in ("heap", "var") else None, "one-runtime", s,
            "every call gives %s" % show(s.res)[:100])
    for x in interp.ast_nodes(s.f["b"]):
        if x.get("tls") and x.get("t", "").replace("*", "").strip() == "Apollo":
            ck.bad("one-runtime", s, "every thread has a runtime of its own")
        if x.get("st") and x.get("t", "").rstrip(" &*").strip() == "Apollo" and x["t"].rstrip()[-1:] in "*&" and \
                any(y.get("k") == "new" for y in interp.ast_nodes(x.get("i"))):
            others = [f for f in ck.prog().funcs.values() if f["qn"] != "Apollo::instance" and
                      any(y.get("k") == "delete" and "Apollo *" == str(y.get("t", "")) for y in interp.ast_nodes(f.get("b")))]
            if not others and not any(y.get("fn", "").split("::")[-1] in ("atexit", "at_quick_exit") for y in interp.ast_nodes(s.f["b"])):
                ck.bad("one-runtime", s, "the runtime is never ended")
    for c in ("default", "mpi"):
        k = ck.sum("Apollo::Apollo", 0, config=c)
        ck.need(ck.same(k.get("region_executions"), ZERO, k.st.pc), "starts-at-zero", k, "executions start at %s" % show(k.get("region_executions"))[:60])
        if c == "default":
            ck.need(ck.same(k.get("mpiRank"), ZERO, k.st.pc), "rank", k, "the rank without MPI is %s" % show(k.get("mpiRank"))[:60])
            ck.need(ck.same(k.get("mpiSize"), ONE, k.st.pc), "rank", k, "the number of ranks without MPI is %s" % show(k.get("mpiSize"))[:60])
        else:
            for fld, call in (("mpiRank", "MPI_Comm_rank"), ("mpiSize", "MPI_Comm_size")):
                v = k.get(fld)
                ck.need(True if v.op == "out" and v.args[0] == call else (False if understood(v) and is_num(v) or v is in_this(fld) or v.op == "out" else None),
                        "rank", k, "%s is %s" % (fld, show(v)[:80]))
        ck.need(True if deep(k.get("regions"), k.st.pc).op == "mempty" or k.get("regions") is in_this("regions") else None, "starts-at-zero", k,
                "regions start as %s" % show(k.get("regions"))[:80])


def order(evs):
    """events in program order with their loops, numbered"""
    out, n = [], [0]

    def go(es, ls):
        for e in es:
            n[0] += 1
            if isinstance(e, interp.LoopEv):
                go(e.body, ls + (e,))
            else:
                out.append((n[0], e, ls))
    go(evs, ())
    return out


def end(ck):
    s = ck.sum("Apollo::~Apollo", 0, opaque={RG + "~Region"})
    regs = in_this("regions")
    seq = order(s.events)
    dels = [(i, e, ls) for i, e, ls in seq if e.kind == "delete" and "Region" in str((e.extra or {}).get("dt"))]
    if not dels:
        ck.bad("all-finished", s, "no region is deleted when the runtime ends")
        return
    if len(dels) > 1:
        a, b = dels[0][1], dels[1][1]
        ck.need(False if dels[0][2] and dels[1][2] and terms.sat(a.guard & b.guard) and understood(bterm(a.guard & b.guard)) and
                whole_loop(ck, dels[0], regs) and whole_loop(ck, dels[1], regs) else None, "all-finished", b, "a region is deleted twice")
        return
    i0, e, ls = dels[0]
    w = whole_loop(ck, dels[0], regs)
    ck.need(w, "all-finished", e, "%s is deleted %s" % (show(e.obj)[:80], "%s times" % show(ls[-1].n)[:60] if ls else "once"),
            "every region is deleted exactly once")
    last = i0
    # what is closed or reported before
    for i, x, l2 in seq:
        if x.kind == "close" and x.obj is field_ptr(addr(THIS), "gtrace_file"):
            ck.need(i > last, "trace-open", x, "the global trace is closed before the regions have finished their executions")
    cnt = in_this("region_executions")
    for i, x, l2 in seq:
        if x.kind == "put" and any(cnt in set(subterms(a)) for a in x.args if isinstance(a, T)):
            ck.need(i > last, "all-counted", x, "the executions are reported before the last ones are counted")
            raw = (x.extra or {}).get("raw")
            ck.need(ck.same(raw, cnt) if raw is not None else None, "all-counted", x, "the number reported is %s" % show(raw)[:80])
    rep = [x for i, x, _ in seq if x.kind == "put" and any(cnt in set(subterms(a)) for a in x.args if isinstance(a, T))]
    ck.need(True if rep else None, "all-counted", s, "the number of executions is not reported")
    exec_info(ck, s, seq, regs, i0)


def whole_loop(ck, d, regs):
    i, e, ls = d
    if len(ls) != 1:
        return None if ls else False
    L = ls[0]
    a = ck.same(L.n, size(regs))
    b = ck.same(e.obj, sel(elt(regs, L.k), "second"), in_range(L, regs))
    g = restrict(e.guard, in_range(L, regs))
    c = ck.same_guard(g, TRUE) if not terms.implies(in_range(L, regs), e.guard) else True
    if a is True and b is True and c is True:
        return True
    if not understood(L.n):
        return None
    return False if False in (a, b, c) else None


def in_range(L, regs):
    return cmp_(">=", L.k, ZERO, True) & cmp_("<", L.k, size(regs), True)


def exec_info(ck, s, seq, regs, idel):
    on_ = on("APOLLO_STORE_EXEC_INFO")
    op = [(i, e) for i, e, _ in seq if e.kind == "open" and any("exec_info" in show(a) for a in e.args if isinstance(a, T))]
    if not op:
        ck.bad("exec-info", s, "no execution information is written")
        return
    for i, e in op:
        ck.need(ck.same_guard(e.guard, on_), "exec-info", e, "written when %s" % showb(e.guard)[:150])
        want = cat(cfg("APOLLO_OUTPUT_DIR"), T("str", "/apollo_exec_info.csv"))
        ck.need(ck.same(e.args[0], want), "exec-info", e, "written to %s" % show(e.args[0])[:150])
    puts = [(i, e, ls) for i, e, ls in seq if e.kind == "put" and e.obj is not None and e.obj.op == "addr" and e.obj.args[0][0] == "var"]
    for i, e, ls in puts:
        m = (e.extra or {}).get("mode") if hasattr(e, "extra") else None
        if m is not None and is_num(m):
            ck.need(not int(m.args[0]) & 1, "exec-info", e, "lines of earlier runs stay in the file")
    loops = {id(ls[-1]): ls[-1] for i, e, ls in puts if ls}
    if len(loops) != 1:
        ck.undecided("exec-info", s, "%d loops write" % len(loops))
        return
    L = list(loops.values())[0]
    ck.need(ck.same(L.n, size(regs)), "exec-info", L, "lines for %s of the regions" % show(L.n)[:80])
    r = sel(elt(regs, L.k), "second")
    line, g = [], None
    for i, e, ls in puts:
        if not ls:
            ck.need(None, "exec-info", e, "text outside the lines: %s" % show(e.args[0])[:80])
            continue
        line.append(e)
        ck.need(i < idel, "exec-info", e, "a region is described after it was deleted")
        gd = restrict(restrict(e.guard, on_), in_range(L, regs))
        ck.need(ck.same_guard(gd, TRUE) if gd is not TRUE else True, "exec-info", e, "part of a line is written only if %s" % showb(e.guard)[:150])
    text = None
    for e in line:
        t = e.args[0]
        text = t if text is None else cat(text, t)
    want = cat(init(field_ptr(r, "name")), T("str", ", "), T("dec", init(field_ptr(r, "idx"))), T("str", "\n"))
    ck.need(ck.same(text, want, in_range(L, regs)), "exec-info", line[0] if line else s, "a line is %s" % show(text)[:200])


def region_end(ck):
    s = ck.sum(RG + "~Region", 0, opaque={"Apollo::Dataset::store", RG + "collectPendingContexts", "Apollo::instance"})
    seq = order(s.events)
    drains = [i for i, e, _ in seq if e.name == RG + "collectPendingContexts"]
    if not drains:
        ck.undecided("drained-first", s, "pending executions are collected elsewhere")
        return
    for i, e, ls in seq:
        if e.kind == "close" and e.obj is field_ptr(addr(THIS), "trace_file"):
            ck.need(i > drains[-1], "drained-first", e, "the trace of the region is closed before its pending executions are collected")
        if e.name == "Apollo::Dataset::store":
            ck.need(i > drains[-1], "drained-first", e, "the data of the region is stored before its pending executions are collected")


def check(ck):
    ck.assume.append("Regions are not deleted by the application: the runtime owns them.")
    for f in (instance, end, region_end):
        ck.guarded(f, ck)
