"""C13: collective training exchanges all measurements of all ranks, each inserted once in the region it belongs to."""
from common import *

INS = "Apollo::Dataset::insert"
CTYPE = {"ompi_mpi_int": ("int", "signed int"), "ompi_mpi_float": ("float",), "ompi_mpi_double": ("double",),
         "ompi_mpi_char": ("char",), "ompi_mpi_unsigned": ("unsigned int", "unsigned"), "ompi_mpi_long": ("long",),
         "ompi_mpi_int64_t": ("long", "long long"), "ompi_mpi_long_double": ("long double",)}


def mtype(t):
    """name of an MPI datatype"""
    if t.op == "addr" and t.args[0][0] == "glob":
        return t.args[0][1]
    return None


def bounds(loops):
    c = TRUE
    for l in loops:
        c = c & cmp_(">=", l.k, ZERO, True) & cmp_("<", l.k, l.n, True)
    return c


class Tok:
    """one item of a measurement's record: type, number of elements, loop (if written one by one), event"""

    def __init__(self, e, loops, depth):
        self.e = e
        pack = e.name == "MPI_Pack"
        self.count = e.args[1 if pack else 4]
        self.type = mtype(e.args[2 if pack else 5])
        self.inner = loops[depth:]
        self.n = self.count
        if self.inner:
            self.n = mul(self.inner[0].n, self.count)


def tokens(ck, s, name, depth):
    out = []
    for e, l in s.calls(name, kind="ext"):
        if len(l) < depth or len(l) > depth + 1:
            ck.undecided("record", e, "in %d loops" % len(l))
            return None
        out.append(Tok(e, l, depth))
    return out


def c_exchange(ck):
    s = ck.sum("Apollo::gatherCollectiveTrainingData", 1, config="mpi", opaque={INS})
    packs = s.calls("MPI_Pack", kind="ext")
    unpacks = s.calls("MPI_Unpack", kind="ext")
    if not packs or not unpacks:
        ck.need(None, "record", s, "packing not recognised")
        return
    W = tokens(ck, s, "MPI_Pack", 2)
    Rd = tokens(ck, s, "MPI_Unpack", 1)
    if W is None or Rd is None:
        return
    lr, lm = packs[0][1][:2]
    regions = in_this("regions")
    reg = sel(elt(regions, lr.k), "second")
    R = T("in", (("mem", reg), ()))
    data = sel(sel(R, "dataset"), "data")
    if any(l[:2] != [lr, lm] and tuple(l[:2]) != (lr, lm) for _, l in packs):
        ck.undecided("record", s, "measurements are packed in several loops")
        return
    # everything is sent
    ck.need(ck.same(lr.n, size(regions)), "all-sent", packs[0][0], "%s regions are sent" % show(lr.n)[:100])
    ck.need(ck.same(lm.n, size(data), bounds([lr])), "all-sent", packs[0][0], "%s measurements of a region are sent" % show(lm.n)[:150])
    ck.whole(lr, "all-sent", packs[0][0], "sending of the regions")
    ck.whole(lm, "all-sent", packs[0][0], "sending of a region", bounds([lr]))
    for t in W:
        b = bounds((lr, lm) + tuple(t.inner))
        ck.need(not terms.sat(b & ~t.e.guard) or (False if understood(bterm(t.e.guard)) else None), "all-sent", t.e,
                "not sent when %s" % showb(b & ~t.e.guard)[:200])
    # what is sent
    m = elt(data, lm.k)
    feats, pol, met = sel(sel(m, "first"), "first"), sel(sel(m, "first"), "second"), sel(m, "second")
    nf = sel(R, "num_features")
    role = {}
    for i, t in enumerate(W):
        v = t.e.extra["value"]
        if t.inner:
            j = t.inner[0].k
            if ck.same(v, elt(feats, j)):
                role[i] = "features"
                ck.need(ck.same(t.inner[0].n, size(feats)) or ck.same(t.inner[0].n, nf), "sent-features", t.e, "%s features are sent" % show(t.inner[0].n)[:150])
            continue
        for nm, want in (("rank", in_this("mpiRank")), ("num_features", nf), ("policy", pol), ("name", sel(R, "name")),
                         ("metric", met), ("features", feats), ("num_features", size(feats))):
            if ck.same(v, want):
                role[i] = nm
                break
    for nm in ("rank", "num_features", "features", "policy", "name", "metric"):
        hits = [i for i in role if role[i] == nm]
        un = [i for i in range(len(W)) if i not in role]
        ck.need(True if len(hits) == 1 else None if un and not all(understood(W[i].e.extra["value"]) for i in un) else False, "record", W[un[0]].e if un else s,
                "the %s of a measurement is sent %d times%s" % (nm, len(hits), ", but %s" % show(W[un[0]].e.extra["value"])[:150] if un else ""))
    # the same types and counts are received
    if len(W) != len(Rd):
        ck.bad("record-agrees", Rd[-1].e, "%d items are packed and %d unpacked" % (len(W), len(Rd)))
        return
    lu = unpacks[0][1][0]
    if lu.exits is not FALSE and terms.sat(lu.exits & lu.cont):
        ck.need(False if understood(bterm(lu.exits)) else None, "received-inserted", Rd[0].e, "stops reading what was received when %s" % showb(lu.exits)[:200])
    got = {}
    for i, (w, r) in enumerate(zip(W, Rd)):
        ck.need(w.type == r.type if w.type and r.type else None, "record-agrees", r.e, "packed as %s, unpacked as %s" % (w.type, r.type))
        for t in (w, r):
            ct, alen = t.e.extra["ctype"]
            if ct and t.type in CTYPE:
                ck.need(ct in CTYPE[t.type], "element-type", t.e, "%s holds %s" % (ct, t.type))
            if alen:
                ck.need(is_num(t.count) and t.count.args[0] <= alen, "array-bounds", t.e, "%s elements of an array of %d" % (show(t.count), alen))
            if alen and role.get(i) == "name" and t is w and is_num(t.count):
                zeroed = any(x.get("i") and "char[" in x.get("t", "") for f in ck.prog("mpi").funcs.values() if f["qn"].startswith("Apollo::")
                             for x in interp.ast_nodes(f.get("b")) if x.get("d"))
                ck.need(t.count.args[0] >= alen or (None if zeroed else False), "record", t.e, "%s of the %d characters of a name are sent" % (show(t.count), alen))
        got[role.get(i)] = r
    # counts, with the number of features known from the record
    known = {r.e.res: {"num_features": nf, "rank": in_this("mpiRank")}.get(role.get(i)) for i, r in enumerate(Rd) if not r.inner}
    known = {a: b for a, b in known.items() if b is not None}
    for i, (w, r) in enumerate(zip(W, Rd)):
        a = subst(w.n, {size(feats): nf})
        b = subst(r.n, known)
        ck.need(ck.same(a, b), "record-agrees", r.e, "%s elements are packed, %s unpacked" % (show(a)[:100], show(b)[:100]))
    for i, r in enumerate(Rd):
        b = bounds(r.inner)
        g = r.e.guard
        # once a record starts it is read completely
        st = Rd[0].e.guard
        ck.need(not terms.sat(b & st & ~g) or (False if understood(bterm(g)) else None), "record-read", r.e,
                "not read when %s" % showb(b & st & ~g)[:200])
    # received measurements go to the region of that name, unless they are this rank's own
    ins = s.calls(INS)
    if not ins:
        ck.bad("received-inserted", s, "received measurements are not inserted")
        return
    if any(x not in got for x in ("rank", "name", "policy", "metric", "features")):
        return
    own = cmp_("==", got["rank"].e.res, in_this("mpiRank"), True)
    nm = got["name"].e.res
    here = atom(T("has", regions, nm))
    want = Rd[0].e.guard & ~own & here
    ck.once("received-inserted", ins, want, s, "inserting a received measurement")
    for e, _ in ins:
        tgt = field_ptr(addr(("mem", mget(regions, nm))), "dataset")
        ck.need(ck.same(e.obj, tgt, e.guard), "received-region", e, "inserted into %s" % show(e.obj)[:200])
        ck.need(ck.same(e.args[1], got["policy"].e.res, e.guard), "received-values", e, "policy %s" % show(e.args[1])[:150])
        ck.need(ck.same(e.args[2], got["metric"].e.res, e.guard), "received-values", e, "metric %s" % show(e.args[2])[:150])
        fv = e.args[0]
        f = got["features"]
        ok_ = None
        if fv.op == "seq" and len(fv.args) == 1 and fv.args[0].op == "comp" and f.inner:
            k, n, its = fv.args[0].args[:3]
            ok_ = len(its) == 1 and its[0].op == "item" and its[0].args[0] is subst(f.e.res, {f.inner[0].k: k}) and ck.same(n, f.inner[0].n) is True
        elif not f.inner and fv is f.e.res:
            ok_ = True
        elif fv.op == "seq" and understood(fv) and f.inner:
            ok_ = False
        ck.need(ok_, "received-values", e, "features %s" % show(fv)[:200])
    return s, W, lr, lm, nf, feats, data


def c_buffers(ck):
    s = ck.sum("Apollo::gatherCollectiveTrainingData", 1, config="mpi", opaque={INS})
    W = tokens(ck, s, "MPI_Pack", 2)
    packs = s.calls("MPI_Pack", kind="ext")
    if not W:
        return
    lr, lm = packs[0][1][:2]
    reg = sel(elt(in_this("regions"), lr.k), "second")
    R = T("in", (("mem", reg), ()))
    data = sel(sel(R, "dataset"), "data")
    nf = sel(R, "num_features")
    m = elt(data, lm.k)
    feats = sel(sel(m, "first"), "first")
    rec = ZERO
    for t in W:
        rec = add(rec, mul(subst(t.n, {size(feats): nf}), T("mpisize", t.e.args[2])))
    per_region = mul(rec, size(data))
    need_ = mk_sum(lr.k, size(in_this("regions")), per_region)
    agv = s.calls("MPI_Allgatherv", kind="ext")
    ag = s.calls("MPI_Allgather", kind="ext")
    if len(agv) != 1 or len(ag) != 1:
        ck.undecided("buffers", s, "%d Allgather and %d Allgatherv" % (len(ag), len(agv)))
        return
    (V, vl), (G, gl) = agv[0], ag[0]
    for e, l in (agv[0], ag[0]):
        ck.need(e.guard is TRUE and not l or (False if understood(bterm(e.guard)) else None), "all-ranks-take-part", e,
                "a rank takes part only when %s" % showb(e.guard)[:200])
    sent = V.args[1]
    ck.need(ck.same(sent, need_), "send-size", V, "%s bytes are sent, %s are packed" % (show(sent)[:200], show(need_)[:200]))
    ck.need(ck.same(G.extra["value"], sent), "send-size", G, "the size announced is %s" % show(G.extra["value"])[:200])
    mal = {e.obj: e for e, _ in s.kinds("new") if e.name in ("malloc", "new", "new[]", "calloc") and isinstance(e.obj, T)}

    def cap(p):
        e = next((mal[x] for x in mal if p.op == "addr" and x.op == "addr" and x.args[0] == p.args[0]), None)
        return e
    sb, rb = cap(V.args[0]), cap(V.args[3])
    if sb is not None and sb.name == "malloc":
        ck.need(ck.same(sb.args[0], need_), "send-size", sb, "%s bytes for %s packed" % (show(sb.args[0])[:200], show(need_)[:200]))
    else:
        ck.undecided("send-size", V, "send buffer not recognised")
    # each region packs at its own place
    for t in W:
        b = t.e.args[3]
        if sb is None or b.op != "addr" or b.args[0] != V.args[0].args[0]:
            ck.undecided("send-place", t.e, "packs into %s" % show(b)[:150])
            continue
        off = ZERO
        if b.args[1]:
            if len(b.args[1]) != 1 or b.args[1][0][0] != "i":
                ck.undecided("send-place", t.e, "packs into %s" % show(b)[:150])
                continue
            off = b.args[1][0][1]
        k = T("k", "prev")
        base = mk_sum(k, lr.k, subst(per_region, {lr.k: k}))
        at = add(off, subst(t.e.extra["pos"], {size(feats): nf}))
        # records follow each other
        before = ZERO
        for w in W[:W.index(t)]:
            before = add(before, mul(subst(w.n, {size(feats): nf}), T("mpisize", w.e.args[2])))
        want = add(add(base, mul(rec, lm.k)), before)
        if t.inner:
            want = add(want, mul(t.inner[0].k, mul(t.count, T("mpisize", t.e.args[2]))))
        atn = flat_features(at, data, nf)
        q = ck.same(atn, want, bounds((lr, lm) + tuple(t.inner)))
        ck.need(q if q else None if q is None else False, "send-place", t.e, "packed at %s, expected %s" % (show(atn)[:250], show(want)[:250]))
        lim = t.e.args[4]
        a = ck.same(lim, per_region, bounds((lr,)))
        ck.need(a if a is not None else None, "send-place", t.e, "room given to packing is %s" % show(lim)[:200])
    # what is received
    cnt = V.args[4]
    ranks = in_this("mpiSize")
    ck.need(cnt.op == "allgather" or None, "receive-counts", V, "receive counts %s" % show(cnt)[:150])
    if cnt.op != "allgather":
        return
    k = T("k", "rank")
    total = mk_sum(k, ranks, elt(cnt, k))
    if rb is not None and rb.name == "malloc":
        ck.need(ck.same(rb.args[0], total), "receive-size", rb, "room for %s bytes" % show(rb.args[0])[:200])
    else:
        ck.undecided("receive-size", V, "receive buffer not recognised")
    d = V.args[5]
    if d.op == "fold" and len(d.args[4]) == 1 and d.args[4][0].op == "upd":
        k2, n, me, inits, steps, accs = d.args[:6]
        u = steps[0]
        ck.need(ck.same(elt(inits[0], ZERO), ZERO), "displacements", V, "the first rank's data is put at %s" % show(elt(inits[0], ZERO))[:100])
        ck.need(ck.same(n, add(ranks, num(-1))), "displacements", V, "%s displacements are computed" % show(n)[:100])
        ck.need(ck.same(u.args[1], add(k2, ONE)), "displacements", V, "displacement of rank %s is set" % show(u.args[1])[:100])
        ck.need(ck.same(u.args[2], add(elt(accs[0], k2), elt(cnt, k2))), "displacements", V, "displacement is %s" % show(u.args[2])[:200])
    elif d.op == "tab":
        _, k2, n, idx, val = d.args[:5]
        k3 = T("k", "before")
        ck.need(ck.same(n, ranks), "displacements", V, "%s displacements are computed" % show(n)[:100])
        ck.need(ck.same(idx, k2), "displacements", V, "displacement of rank %s is set" % show(idx)[:100])
        ck.need(ck.same(val, mk_sum(k3, k2, elt(cnt, k3))), "displacements", V, "displacement is %s" % show(val)[:200])
    else:
        ck.undecided("displacements", V, "displacements %s" % show(d)[:150])
    for e, l in s.calls("MPI_Unpack", kind="ext"):
        ck.need(ck.same(e.args[0], V.args[3]), "reads-received", e, "unpacks %s" % show(e.args[0])[:100])
        ck.need(ck.same(e.args[1], total), "reads-received", e, "unpacks %s bytes" % show(e.args[1])[:150])
    U = s.calls("MPI_Unpack", kind="ext")
    p0 = subst(U[0][0].extra["pos"], {U[0][1][0].k: ZERO})
    ck.need(ck.same(deep(p0, TRUE), ZERO), "reads-received", U[0][0], "starts reading at %s" % show(p0)[:150])
    pos = U[0][0].extra["pos"]
    c = cmp_("<", pos, U[0][0].args[1], True)
    lg = U[0][1][0]
    cont = lg.cont if isinstance(lg.cont, B) else truth(lg.cont)
    ck.need(ck.same_guard(cont, c), "reads-all", U[0][0], "goes on reading while %s" % showb(cont)[:200])
    # buffers are freed once, after use
    for e in (sb, rb):
        if e is None:
            continue
        fr = [x for x, _ in s.kinds("delete") if isinstance(x.obj, T) and x.obj.op == "addr" and x.obj.args[0] == e.obj.args[0]]
        ck.once("freed-once", fr, TRUE, e, "freeing a buffer")
        for x in fr:
            use = [y for y, _ in s.kinds("ext") if y.name in ("MPI_Allgatherv", "MPI_Unpack", "MPI_Pack") and
                   any(isinstance(a, T) and a.op == "addr" and a.args[0] == e.obj.args[0] for a in y.args)]
            for y in use:
                if not ck.before(s, y, x):
                    ck.bad("freed-once", x, "freed before %s uses it" % y.name)
    # one communicator
    comms = {show(e.args[-1]) for e, _ in s.kinds("ext") if e.name in ("MPI_Allgather", "MPI_Allgatherv")}
    ck.need(len(comms) == 1 or None, "one-communicator", V, "communicators %s" % ", ".join(sorted(comms)))


def flat_features(t, data, nf):
    """each measurement of a region has the region's number of features"""
    m = {}
    for x in subterms(t):
        if x.op == "sum":
            k, n, b = x.args
            if ck_is_features(b, data, k):
                m[x] = mul(n, nf)
    return subst(t, m) if m else t


def ck_is_features(b, data, k):
    return b is size(sel(sel(elt(data, k), "first"), "first"))


def c_rank(ck):
    s = ck.sum("Apollo::Apollo", 0, config="mpi")
    dup = s.calls("MPI_Comm_dup", kind="ext")
    for nm, f in (("MPI_Comm_rank", "mpiRank"), ("MPI_Comm_size", "mpiSize")):
        ev = s.calls(nm, kind="ext")
        if len(ev) != 1:
            ck.need(None if ev else False, "own-rank", s, "%s is called %d times" % (nm, len(ev)))
            continue
        e = ev[0][0]
        ck.need(ck.same(e.args[1], field_ptr(addr(THIS), f)), "own-rank", e, "%s sets %s" % (nm, show(e.args[1])[:100]))
        v = s.get(f)
        ck.need(contains(v, lambda x: x.op == "out" and x.args[0] == nm) or None, "own-rank", e, "%s ends as %s" % (f, show(v)[:100]))
        if dup:
            ck.need(contains(e.args[0], lambda x: x.op == "out" and x.args[0] == "MPI_Comm_dup") or None, "own-rank", e, "rank in %s" % show(e.args[0])[:100])
            g = e.args[0]
            if g.op == "addr" and g.args[0][0] == "glob" and "self" in g.args[0][1]:
                ck.bad("own-rank", e, "%s of a communicator of this process alone" % nm)
    d = ck.sum("Apollo::Apollo", 0)
    ck.need(ck.same(d.get("mpiRank"), ZERO), "own-rank", d, "without MPI the rank is %s" % show(d.get("mpiRank"))[:100])
    ck.need(ck.same(d.get("mpiSize"), ONE), "own-rank", d, "without MPI there are %s ranks" % show(d.get("mpiSize"))[:100])
    g = ck.sum("Apollo::gatherCollectiveTrainingData", 1, opaque={INS})
    ck.need(g.st.pc is FALSE, "no-mpi-refused", g, "collective training without MPI goes unnoticed")


def c_part(ck):
    """every rank takes part whenever training is collective"""
    s = ck.sum("Apollo::train", 2, config="mpi", opaque={"Apollo::gatherCollectiveTrainingData", "Apollo::Region::train"})
    gs = s.calls("Apollo::gatherCollectiveTrainingData")
    ck.once("takes-part", gs, on("APOLLO_COLLECTIVE_TRAINING"), s, "taking part in the exchange")
    for e, _ in gs:
        ck.need(ck.same(e.args[0], argv(s, 0), e.guard), "takes-part", e, "step %s" % show(e.args[0])[:100])


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo", "mpiSize", False), ("Apollo", "mpiRank", False), ("Apollo::Dataset", "data", False))
    ck.guarded(c_part, ck)
    ck.guarded(c_exchange, ck)
    ck.guarded(c_buffers, ck)
    ck.guarded(c_rank, ck)
