"""C17: a damaged model or dataset file is never read as if it were a sound one."""
from common import *
import fmt
from stdlib import offset_ptr as offset

P = "Parser::"
MAXTOK = 4096


def loop_bound(L):
    """(most complete iterations, most started iterations) of a loop, None where no constant bounds them"""
    ab = FALSE
    for e in L.body:
        if not isinstance(e, interp.LoopEv) and e.kind in ("abort", "throw"):
            ab = ab | e.guard
    cont = L.cont if isinstance(L.cont, B) else TRUE
    n = L.n
    base = cont & L.guard if isinstance(L.guard, B) else cont
    lo = [j for j in consts(base, L.k) | consts(ab, L.k)]
    cands = sorted({x + d for x in lo for d in (-1, 0, 1)})
    done = started = None
    for c in cands:
        if c < 0:
            continue
        deep_ = cmp_(">=", L.k, num(c), True)
        if done is None and not terms.sat(base & deep_ & ~ab):
            done = c            # iteration c is never completed
        if started is None and not terms.sat(base & deep_):
            started = c
    if is_num(n):
        started = int(n.args[0]) if started is None else min(started, int(n.args[0]))
    if done is None:
        done = started
    elif started is None or started > done + 1:
        started = done + 1
    return done, started


def consts(b, k):
    """constants the iteration variable is compared with"""
    out = set()
    for a in terms.batoms(b):
        if k not in set(subterms(a)):
            continue
        for x in subterms(a):
            if is_num(x):
                v = abs(x.args[0])
                if v == int(v) and v <= MAXTOK:
                    out.add(int(v))
                    out.add(int(v) + 1)
                    out.add(int(v) - 1)
        m = terms.to_poly(a.args[0]) if a.op in ("ge", "ge0") else None
        if m:
            for mono, c in m.items():
                if not mono and abs(c) <= MAXTOK:
                    out |= {int(abs(c)), int(abs(c)) + 1, int(abs(c)) - 1}
    return out


def index_bound(i, g, loops, bounds):
    """largest value the index takes, None unknown"""
    if is_num(i):
        return i.args[0]
    if i.op == "ite":
        c = i.args[0] if isinstance(i.args[0], B) else truth(i.args[0])
        bs = [index_bound(x, g & h, loops, bounds) for x, h in ((i.args[1], c), (i.args[2], ~c)) if terms.sat(g & h)]
        return None if None in bs else max(bs)
    p = terms.to_poly(i)
    best = 0
    for mono, c in p.items():
        if not mono:
            best += c
            continue
        if len(mono) != 1 or c < 0:
            return None
        a = mono[0][0] if isinstance(mono[0], tuple) else mono[0]
        if isinstance(mono[0], tuple) and mono[0][1] != 1:
            return None
        u = None
        for L in loops:
            if a is L.k:
                u = bounds[id(L)][1]
                u = None if u is None else u - 1
        if a.op == "trip":
            for L, (d, s_) in bounds.values_:
                if L.n is a or (L.n.op == "trip" and terms_same_trip(L.n, a)):
                    u = d
        if a.op in ("k", "var") and u is None:
            return None
        if u is None:
            return None
        # the guard may say more
        for c2 in range(int(u), -1, -1) if u <= MAXTOK else ():
            if terms.sat(g & cmp_(">=", a, num(c2), True)):
                u = c2
                break
        best += c * u
    return best


def terms_same_trip(a, b):
    return subst(a.args[1] if isinstance(a.args[1], T) else bterm(a.args[1]), {a.args[0]: b.args[0]}) is \
        (b.args[1] if isinstance(b.args[1], T) else bterm(b.args[1]))


class Bounds(dict):
    def __init__(self):
        dict.__init__(self)
        self.values_ = []


def capacity(ck, fld):
    """declared number of elements of an array member of the tokenizer"""
    import re
    for r in ck.prog().records["Parser"]["f"]:
        if r["n"] == fld:
            m = re.search(r"\[(\d+)\]", r["t"])
            return int(m.group(1)) if m else None
    return None


def walk(evs, loops=()):
    for e in evs:
        if isinstance(e, interp.LoopEv):
            yield e, loops
            yield from walk(e.body, loops + (e,))
        else:
            yield e, loops


SPACE = {9, 10, 11, 12, 13, 32}


def character_ends(cont):
    """[(character, it ends the loop for sure)] of the characters the condition decides by themselves"""
    ats = terms.batoms(cont)
    tops = {y for a in ats if a.op == "ge0" for m in to_poly(a.args[0]) for y in m}
    xs = {y.args[0] for y in tops if y.op == "isspace"} or {y for y in tops if y.op == "in"}
    if len(xs) != 1:
        return None
    (x,) = xs
    out = []
    for c in range(1, 127):
        g = cont
        for a in ats:
            if a.op != "ge0":
                continue
            v, ok = 0, True
            for m, k in to_poly(a.args[0]).items():
                for y in m:
                    if y is x:
                        k = k * c
                    elif y.op == "isspace" and y.args[0] is x:
                        k = k * (1 if c in SPACE else 0)
                    else:
                        ok = False
                v += k
            if ok:
                g = terms.exists(g & (atom(a) if v >= 0 else ~atom(a)), lambda u, a=a: u is a)
        if g is FALSE:
            out.append((c, True))
        elif g is TRUE or c not in SPACE:
            out.append((c, False))
    return out


def tokens(ck):
    """the tokenizer stays inside its buffer and never cuts a token"""
    s = ck.sum(P + "getNextToken", 0, track=True)
    bounds = Bounds()
    for e, ls in walk(s.events):
        if isinstance(e, interp.LoopEv):
            bounds[id(e)] = loop_bound(e)
            bounds.values_.append((e, bounds[id(e)]))
    n = 0
    this = addr(THIS)
    wloops = set()
    for e, ls in walk(s.events):
        if isinstance(e, interp.LoopEv) or e.kind != "access":
            continue
        if e.obj is None or e.obj.op != "addr" or e.obj.args[0] != this.args[0] or len(e.obj.args[1]) != 1:
            continue
        fld = e.obj.args[1][0][1]
        cap = capacity(ck, fld)
        if cap is None:
            continue
        n += 1
        wloops |= {id(x) for x in ls}
        i = e.args[0]
        ub = index_bound(i, e.guard, ls, bounds)
        if ub is None:
            # no constant bounds it: an overrun if nothing ever stops the counter
            ks = [L for L in ls if i is L.k and bounds[id(L)] == (None, None)]
            stops = [L for L in ks if not any(x.kind in ("abort", "throw") for x in L.body if not isinstance(x, interp.LoopEv))
                     and not consts(L.cont, L.k)]
            if stops:
                ck.bad("token-buffer", e, "element %s of %s[%d] is written however long the token is" % (show(i)[:40], fld, cap))
            elif any(L.n in set(subterms(i)) and id(L) in wloops and b == (None, None) for L, b in bounds.values_):
                ck.bad("token-buffer", e, "the end mark goes to an element no constant bounds, of %s[%d]" % (fld, cap))
            else:
                ck.undecided("token-buffer", e, "index %s" % show(i)[:150])
            continue
        ck.need(ub < cap, "token-buffer", e, "element %d of %s[%d] is accessed for a long token" % (ub, fld, cap))
    if not n:
        ck.undecided("token-buffer", s, "no indexed access to the buffer")
        return
    # a token ends only at white space (or at the end of the input), never because it is long
    for L, b in bounds.values_:
        if id(L) not in wloops:
            continue
        cont = L.cont if isinstance(L.cont, B) else TRUE
        cut = [a for a in terms.batoms(cont) if set(x for x in subterms(a) if x.op in ("k", "var", "fold", "acc", "res")) == {L.k}]
        ck.need(not cut, "token-whole", L, "a token ends when %s" % (show(cut[0])[:100] if cut else ""))
        ends = character_ends(cont)
        if ends is not None:
            ck.need(all((c in SPACE) == e for c, e in ends), "token-ends", L, "the character %r %s" % next(
                ((chr(c), "ends a token" if e else "does not end a token") for c, e in ends if (c in SPACE) != e), ("", "")))


def primitives(ck):
    tok = in_this("token")
    s = ck.sum(P + "parseExpected", 1)
    want = eq(tok, argv(s, 0))
    ck.need(ck.same_guard(s.st.pc, want), "expected", s, "returns when %s" % showb(s.st.pc)[:200])
    ends = FALSE
    for e, ls in s.kinds("abort", "throw"):
        if not ls:
            ends = ends | e.guard
    ck.need(ck.same_guard(ends, ~want), "expected", s, "the program ends when %s" % showb(ends)[:200])
    s = ck.sum(P + "getTokenEquals", 1)
    ck.need(ck.same_guard(truth(s.res), eq(tok, argv(s, 0))), "equals", s, "answers %s" % show(s.res)[:200])
    s = ck.sum(P + "getNextTokenEquals", 1, mods={P + "getNextToken"})
    nx = s.calls(P + "getNextToken")
    ck.once("equals", nx, TRUE, s, "reading the next token")
    if len(nx) == 1:
        now = s.get("token")
        ck.need(ck.same_guard(truth(s.res), eq(now, argv(s, 0))), "equals", s, "answers %s" % show(s.res)[:200])
        ck.need(None if now is tok else True, "equals", s, "the token is unchanged")
    n = 0
    for f in ck.prog().by_qn.get(P + "parse", []):
        t = f["p"][0]["t"]
        s = ck.sum(P + "parse", 1, f=f)
        n += 1
        v = s.read(argp(s, 0))
        for x in subterms(v):
            if x.op in ("atoi", "atol", "atof"):
                ck.bad("number", s, "text that is no number is read as 0 (%s)" % x.op)
        conv = v
        while conv.op in ("cast", "wrap", "bitsof", "narrow", "trunc"):
            conv = conv.args[0]
        if conv.op.startswith("sto"):
            wants = {"int &": {"stoi"}, "double &": {"stod", "stold"}, "float &": {"stof"},
                     "unsigned int &": {"stoul", "stoull"}, "unsigned long &": {"stoul", "stoull"},
                     "long &": {"stol", "stoll"}}.get(t)
            ck.need(None if wants is None or conv is not v and conv.op not in wants else conv.op in wants and conv.args[0] is tok,
                    "number", s, "%s is read by %s" % (t, show(v)[:100]))
        elif v.op == "ite" and any(a.op == "caught" for a in terms.batoms(v.args[0])) and \
                any(terms.implies(g, atom(a)) and (is_num(x) or x is init(argp(s, 0)))
                    for g, x in terms.cases(v, TRUE) for a in terms.batoms(v.args[0]) if a.op == "caught"):
            ck.bad("number", s, "text that is no number, or one out of range, is passed over: %s" % show(v)[:100])
        else:
            ck.need(False if v is init(argp(s, 0)) else None, "number", s, "%s is read by %s" % (t, show(v)[:100]))
        after = s.get("token")
        rest = T("numlen", tok)
        buf = offset(field_ptr(addr(THIS), "buffer"), rest)
        ok = after is buf or after is offset(tok, rest)
        ck.need(True if ok else (False if after is tok or not understood(after) is False and after.op == "addr" and "numlen" not in show(after)
                                 else None), "number", s, "after a number the rest of the token is %s" % show(after)[:150])
    if not n:
        ck.undecided("number", "Parser::parse", "no conversion found")


class Use:
    """which tokens were read but neither compared nor converted"""

    def __init__(self, ck, s, nested):
        self.ck, self.s, self.nested = ck, s, nested
        self.fresh = []            # (guard, event that read the token)
        self.said = set()
        self.n = 0

    def bad(self, g, at, how):
        if id(at) in self.said:
            return
        self.said.add(id(at))
        self.ck.need(False if understood(bterm(g)) else None, "checked", at, "the token read here is %s" % how)

    def next_(self, g, e):
        for h, at in self.fresh:
            if terms.sat(h & g):
                self.bad(h & g, at, "skipped without a look at it")
        self.drop(g)

    def drop(self, g):
        self.fresh = [(h & ~g, at) for h, at in self.fresh if terms.sat(h & ~g)]

    def res(self, e):
        r = e.res
        return truth(r) if r is not None else FALSE

    def run(self, evs, loops=()):
        for e in evs:
            if isinstance(e, interp.LoopEv):
                self.loop(e, loops)
                continue
            nm = e.name
            g = e.guard
            if nm in fmt.OPS or nm in self.nested:
                self.n += 1
            if nm == P + "getNextToken":
                self.next_(g, e)
                self.fresh.append((g, e))
            elif nm == P + "getNextTokenEquals":
                self.next_(g, e)
                r = self.res(e)
                deciding = any(isinstance(L.cont, B) and set(terms.batoms(r)) & set(terms.batoms(L.cont)) for L in loops)
                if not deciding and terms.sat(g & ~r):
                    self.fresh.append((g & ~r, e))
            elif nm == P + "getTokenEquals":
                self.drop(g & self.res(e))
            elif nm in (P + "parse", P + "parseExpected", P + "getToken"):
                self.drop(g)
            elif nm in self.nested:
                self.next_(g, e)

    def loop(self, L, loops):
        before = list(self.fresh)
        for turn in (1, 2):
            self.run(L.body, loops + (L,))
            done = L.ends if isinstance(L.ends, B) else TRUE        # the iterations that do not throw
            self.fresh = [(forget(h & done, L.k), at) for h, at in self.fresh if terms.sat(h & done)]
        cont = L.cont if isinstance(L.cont, B) else None
        if cont is None or not any(a.op == "res" and str(a.args[0]).startswith(P) for a in terms.batoms(cont)):
            self.fresh += [x for x in before if not any(x[1] is y[1] for y in self.fresh)]
        elif any(isinstance(e, interp.Ev) and e.name == P + "getTokenEquals" and terms.implies(~cont & e.guard, self.res(e))
                 for e in L.body):
            self.fresh = []         # the loop ends at a token that was compared


def forget(b, k):
    """some iteration satisfies b"""
    for a in list(terms.batoms(b)):
        if k in set(subterms(a)):
            v = terms.atom(a)
            b = restrict(b, v) | restrict(b, ~v)
    return b


def takes_parser(f):
    return any("Parser" in x["t"].replace("const ", "").split() or "Parser" in x["t"] for x in f["p"])


def readers(ck):
    p = ck.prog()
    tops = []
    recursive = {f["qn"] for q in p.by_qn for f in p.by_qn[q] if takes_parser(f) and not q.startswith(P) and calls_itself(f)}
    for q in sorted(p.by_qn):
        if q.startswith(P):
            continue
        for f in p.by_qn[q]:
            if q in recursive or (not takes_parser(f) and makes_parser(f)):
                tops.append(f)
    if not tops:
        ck.undecided("checked", "readers", "no function reads with a Parser")
    for f in tops:
        s = ck.sum(f["qn"], len(f["p"]), opaque=fmt.OPS | recursive | {"Apollo::Dataset::insert"}, f=f)
        u = Use(ck, s, recursive)
        u.run(s.events)
        for h, at in u.fresh:
            if terms.sat(h & s.st.pc):
                u.bad(h & s.st.pc, at, "never looked at")
        if not u.n:
            ck.undecided("checked", s, "reads no token")
            continue
        if not u.said:
            ck.ok("checked", s, "%d token operations: every token is compared or converted" % u.n)
        if f["qn"] not in recursive:
            closing(ck, s)


def closing(ck, s):
    """the reader has seen the closing token before it returns"""
    last = None
    for e in s.events:
        if isinstance(e, interp.LoopEv):
            if any(x.name in fmt.OPS for x, _ in walk(e.body) if not isinstance(x, interp.LoopEv)):
                last = e
        elif e.name in fmt.OPS:
            last = e
    if isinstance(last, interp.LoopEv):
        a = last.n is not None and last.n.op == "trip" and fmt.trip_test(last.n)
        ck.need(True if a else None, "complete", last, "the last loop ends without a closing token")
        return
    if last.name != P + "parseExpected":
        ck.need(False if last.name in (P + "parse", P + "getNextToken") else None, "complete", last,
                "the last thing looked at is no closing token (%s)" % last.name)
        return
    ck.need(True if terms.implies(s.st.pc, last.guard) else None, "complete", last, "the closing token is looked at only if %s"
            % showb(last.guard)[:150])
    x = last.args[0]
    ck.need(None if x.op != "str" else x.args[0].strip()[:1] in ("}", "]", ")"), "complete", last, "the last token expected is %s" % show(x)[:60])


def separators(ck):
    """every keyword, bracket and separator the writer puts is looked at by the reader"""
    import c09
    import c10
    q = Check(ck.pid)
    q._sum, q.readers = ck._sum, []
    q.guarded(c09.format_, q)
    q.guarded(c10.c_tree, q, "default")
    q.guarded(c10.c_forest, q, "default")
    ck.functions |= q.functions
    ck.events += q.events
    if not q.readers:
        ck.undecided("separators", "readers", "no reader was followed over the text of its writer")
    for R, r in q.readers:
        n = 0
        if R.short is not None:
            n += 1
            ck.bad("complete", r, "the reader returns before it has seen '%s'" % R.short)
        for ps, last, e in R.dropped:
            if any(x[0] != "lit" for x in ps) and last is not None and last.name == P + "getNextTokenEquals" and any(
                    x.op == "res" and x is last.res for L in walk_loops(r.events) if isinstance(L.cont, B) for x in terms.batoms(L.cont)):
                continue            # the running number of an element, compared with the end of the list only
            if any(x[0] == "lit" and x[1].strip() for x in ps):
                n += 1
                ck.bad("separators", last or e, "'%s' of the text is not looked at" % fmt.show_pieces(ps))
        if not n:
            ck.ok("separators", r, "every literal of the text is compared")


def node_ranges(ck):
    """a node with a class or feature that does not exist is not accepted"""
    p = ck.prog()
    rec = {f["qn"] for q in p.by_qn for f in p.by_qn[q] if takes_parser(f) and not q.startswith(P) and calls_itself(f)}
    if len(rec) != 1:
        ck.undecided("node-range", "readers", "%d recursive readers" % len(rec))
        return
    q = rec.pop()
    f = p.by_qn[q][0]
    r = ck.sum(q, len(f["p"]), f=f, opaque=fmt.OPS | {q, "Apollo::Dataset::insert"})
    a = as_addr(r.res)
    if a.op != "addr":
        ck.undecided("node-range", r, "returns %s" % show(r.res)[:80])
        return
    nd = r.read(a)
    c, i = sel(nd, "predicted_class"), sel(nd, "feature_idx")
    nc, nf = r.get("num_classes"), r.get("num_features")
    for what, v, lo, hi in (("class", c, ZERO, nc), ("feature", i, num(-1), nf)):
        for text, b in (("below %s" % show(lo), cmp_("<", v, lo, True)), ("%s and above" % show(hi)[:40], cmp_(">=", v, hi, True))):
            g = r.st.pc & b
            ck.need(True if not terms.sat(g) else False if understood(bterm(g)) else None, "node-range", r,
                    "a node of %s %s is accepted" % (what, text))


def walk_loops(evs):
    return [e for e, _ in walk(evs) if isinstance(e, interp.LoopEv)]


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def calls_itself(f):
    return any(n.get("key") == f["key"] and n is not f for n in nodes(f["b"]))


def makes_parser(f):
    return any(n.get("k") == "ctor" and n.get("cls") == "Parser" for n in nodes(f["b"]))


def check(ck):
    ck.guarded(tokens, ck)
    ck.guarded(primitives, ck)
    ck.guarded(readers, ck)
    ck.guarded(separators, ck)
    ck.guarded(node_ranges, ck)
