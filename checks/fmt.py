"""Agreement of a text writer with the token reader that reads it back.

The writer is the event tree of a function that puts text into a stream, the reader the event tree of a
function that pulls whitespace separated tokens from it.  The reader is followed, symbolically and for
every number of iterations at once, over the grammar the writer generates."""
from common import *
import stdlib

P = "Parser::"
OPS = {P + x for x in ("getNextToken", "parseExpected", "parse", "getNextTokenEquals", "getTokenEquals", "getToken",
                       "error")}


class Mismatch(Exception):
    def __init__(self, ev, text):
        Exception.__init__(self, text)
        self.ev = ev


# ------------------------------------------------------------------ writer

class Tok:
    def __init__(self, pieces):
        self.pieces = pieces

    def __repr__(self):
        return show_pieces(self.pieces)


class RepEv:
    """repetition inside a text that was put together elsewhere"""

    def __init__(self, k, n, e):
        self.k, self.n, self.guard, self.body, self.loop, self.cont = k, n, e.guard, [], True, TRUE
        self.file, self.line, self.fn, self.id = e.file, e.line, e.fn, e.id


class Loop:
    def __init__(self, ev, body, n=None):
        self.k, self.n, self.body, self.ev = ev.k, ev.n if n is None else n, body, ev

    def __repr__(self):
        return "(%s)*" % " ".join(map(repr, self.body))


class Cond:
    def __init__(self, guard, body):
        self.guard, self.body = guard, body

    def __repr__(self):
        return "(%s)?" % " ".join(map(repr, self.body))


class Rec:
    """call of another writer"""

    def __init__(self, ev, expand, args, obj):
        self.ev, self._x, self._b = ev, expand, None
        self.args, self.obj = args, obj

    @property
    def body(self):
        if self._b is None:
            self._b = self._x(self)
        return self._b

    def __repr__(self):
        return "<%s>" % self.ev.name


def show_pieces(ps):
    return "".join(p[1] if p[0] == "lit" else "<%s>" % (show(p[1])[:60] if p[0] == "hole" else p[1]) for p in ps)


def text_items(t, e):
    if t.op == "str":
        return [("lit", t.args[0])]
    if t.op == "cat":
        return [x for a in t.args for x in text_items(a, e)]
    if t.op in ("dec", "flt"):
        return [("hole", t, e)]
    if t.op == "rep":
        return [Loop(RepEv(t.args[0], t.args[1], e), text_items(t.args[2], e))]
    raise Undecided("text %s is not understood" % show(t)[:120])


def write_tree(evs, stream, recs, ctx=TRUE, sub=None):
    """nested items of what is put into the stream; recs: {function: expansion}; sub: renaming of terms and guards"""
    sub = sub or (lambda t: t)
    out = []

    def add(g, xs):
        if not xs:
            return
        if terms.implies(ctx, g) or terms.implies(sub(ctx), sub(g)):
            out.extend(xs)
        elif not terms.sat(sub(g)):
            return
        elif out and isinstance(out[-1], Cond) and out[-1].guard is sub(g):
            out[-1].body.extend(xs)
        else:
            out.append(Cond(sub(g), list(xs)))
    for e in evs:
        if e.loop:
            c = ctx & e.guard & (e.cont if isinstance(e.cont, B) else TRUE)
            body = write_tree(e.body, stream, recs, c, sub)
            if any(not (isinstance(x, tuple) and x[0] == "lit" and not x[1].strip()) for x in body):
                add(e.guard, [Loop(e, body, sub(e.n))])
            elif body:
                add(e.guard, [("lit", "")])
        elif e.kind == "put" and (stream is None or stream(e.obj)):
            add(e.guard, text_items(sub(e.args[0]), e))
        elif e.name in recs:
            add(e.guard, [Rec(e, recs[e.name], [sub(a) if isinstance(a, T) else a for a in e.args],
                              sub(e.obj) if isinstance(e.obj, T) else e.obj)])
    return out


def starts_ws(items):
    for x in items:
        if isinstance(x, tuple):
            if x[0] == "hole":
                return False
            if x[1]:
                return x[1][0].isspace()
        elif isinstance(x, (Loop, Cond)):
            if not starts_ws(x.body):
                return False
        else:
            return False
    return True


def tokenise(items, after=True):
    """items -> tokens, loops, conditions; after: what follows starts with white space (or nothing follows)"""
    out, cur, com = [], [], False

    def flush():
        nonlocal cur
        if cur:
            out.append(Tok(cur))
        cur = []

    def lit(s):
        if cur and cur[-1][0] == "lit":
            cur[-1] = ("lit", cur[-1][1] + s)
        else:
            cur.append(("lit", s))
    for i, x in enumerate(items):
        if isinstance(x, tuple) and x[0] == "lit":
            for c in x[1]:
                if com:
                    com = c != "\n"
                elif c.isspace():
                    flush()
                elif c == "#" and not cur:
                    com = True
                else:
                    lit(c)
        elif com:
            continue
        elif isinstance(x, tuple):
            cur.append(x)
        elif isinstance(x, Rec):
            if cur:
                cur.append(("glue", "the text of " + x.ev.name))
                flush()
            else:
                out.append(x)
        else:
            rest = starts_ws(items[i + 1:]) if i + 1 < len(items) else after
            first = starts_ws(x.body)
            if cur and not (first and rest):
                cur.append(("glue", "text that depends on the number of elements"))
                flush()
            flush()
            x.body, g = tokenise(x.body, (first and rest) if isinstance(x, Loop) else rest)
            if g:
                x.body.append(Tok(g + [("glue", "the next element")]))
            out.append(x)
    if cur and after:
        flush()
    return out, cur


def grammar(items):
    els, rest = tokenise(items, True)
    return els


# ------------------------------------------------------------------ reader

class Path:
    def __init__(self, pos, cur=None, facts=TRUE, cond=TRUE, eff=(), last=None):
        self.pos, self.cur, self.facts, self.cond, self.eff, self.last = pos, cur, facts, cond, eff, last

    def but(self, **kw):
        d = dict(pos=self.pos, cur=self.cur, facts=self.facts, cond=self.cond, eff=self.eff, last=self.last)
        d.update(kw)
        return Path(**d)


def norm(pos):
    while pos is not None and pos[1] == len(pos[0]) and pos[2] is not None:
        pos = pos[2]
    return pos


class Pos(tuple):
    """(elements, index, parent position)"""
    __slots__ = ()

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Pos) and self[0] is o[0] and self[1] == o[1] and self[2] == o[2]

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def upcoming(pos, eff=(), cond=TRUE, seen=()):
    """possible next tokens: (pieces, position after, effects, condition)"""
    pos = norm(pos)
    els, i, par = pos
    if i == len(els):
        return [([("end", "end of file")], pos, eff, cond)]
    x = els[i]
    nxt = Pos((els, i + 1, par))
    if isinstance(x, Tok):
        return [(list(x.pieces), nxt, eff, cond)]
    if isinstance(x, Loop):
        if any(x is y for y in seen):
            return []
        return upcoming(Pos((x.body, 0, pos)), eff + (("iter", x),), cond, seen + (x,)) + \
            upcoming(nxt, eff + (("exit", x),), cond, seen + (x,))
    if isinstance(x, Cond):
        return upcoming(Pos((x.body, 0, nxt)), eff, cond & x.guard, seen) + upcoming(nxt, eff, cond & ~x.guard, seen)
    return upcoming(Pos((x.body, 0, nxt)), eff + (("rec", x),), cond, seen)


def cmp_tok(pieces, s):
    """True / False / None: is the token the text s"""
    if any(p[0] == "glue" for p in pieces):
        return False
    if len(pieces) == 1 and pieces[0][0] == "lit":
        return pieces[0][1] == s
    if pieces and pieces[0][0] == "end":
        return s == ""
    if not pieces:
        return s == ""
    if s == "":
        return False
    # contains a number
    p = pieces[0]
    if p[0] == "lit":
        if not s.startswith(p[1]):
            return False
        return cmp_tok(pieces[1:], s[len(p[1]):])
    if s[0] in "+-0123456789.in":
        return None
    return False


class Reader:
    """follows the reader's events over the grammar; collects what every parsed value stands for"""

    def __init__(self, ck, grammar_, nonterm, w):
        self.ck, self.w = ck, w
        self.nonterm = nonterm      # reader functions that read one whole nonterminal: {name: writer function}
        self.root = Pos((grammar_, 0, None))
        self.holes = {}             # parse event id -> (text term, put event, loops of the writer, reader event)
        self.tests = {}             # test event id -> (when true, when false)
        self.recs = {}              # call event id -> Rec
        self.trips = []             # (reader loop, writer loop)
        self.fails = []             # (guard, event)
        self.alive = TRUE
        self.skip = {}              # nonterminal -> tokens consumed before its reader is called
        self.used = set()
        self.short = None           # what is left of the text when the reader returns
        self.dropped = []           # (pieces of a token nothing looked at, event before, event that moves on)

    def loops_of(self, pos):
        out = []
        while pos is not None:
            els, i, par = pos
            if par is not None:
                ch = par[0][par[1]] if par[1] < len(par[0]) else None
                if isinstance(ch, Loop) and ch.body is els:
                    out.append(ch)
            pos = par
        return out[::-1]

    def touches(self, e):
        if e.loop:
            return any(self.touches(x) for x in e.body)
        return e.name in OPS or e.name in self.nonterm

    def decide(self, e, p):
        f = p.facts & self.alive
        if not terms.sat(f & e.guard):
            return False
        if terms.implies(f, e.guard):
            return True
        return None

    def run(self, evs, paths):
        for e in evs:
            nxt = []
            if not e.loop and e.kind in ("throw", "abort", "exit", "fatal"):
                self.fails.append((e.guard, e))
                self.alive = self.alive & ~e.guard
                continue
            if not self.touches(e):
                continue
            for p in paths:
                d = self.decide(e, p)
                if d is False:
                    nxt.append(p)
                elif d is None:
                    raise Undecided("condition %s of a read at %s" % (showb(e.guard)[:200], where(e)))
                elif e.loop:
                    nxt += self.loop(e, p)
                else:
                    nxt += self.step(e, p)
            paths = merge(nxt)
            if len(paths) > 64:
                raise Undecided("too many alternatives at %s" % where(e))
        return paths

    def lit(self, e):
        a = e.args[0]
        if a.op != "str":
            raise Undecided("expected text %s at %s" % (show(a)[:80], where(e)))
        return a.args[0]

    def leave(self, p, e):
        """the current token is left; what was not looked at is lost"""
        if p.cur and len(p.cur) == 1 and p.cur[0][0] and p.cur[0][0][0][0] != "end":
            if p.last is not None and p.last.name in (P + "getNextTokenEquals", P + "getTokenEquals") and \
                    cmp_tok(p.cur[0][0], self.lit(p.last)):
                return
            self.dropped.append((tuple(p.cur[0][0]), p.last, e))

    def leave_turn(self, q, L):
        """an iteration is over: the next one moves on from the token it left"""
        x = next((x for x in L.body if isinstance(x, interp.LoopEv) or x.name in OPS or x.name in self.nonterm), None)
        if x is not None and not isinstance(x, interp.LoopEv) and x.name in (P + "getNextToken", P + "getNextTokenEquals"):
            self.leave(q, x)

    def step(self, e, p):
        if e.name in (P + "getNextToken", P + "getNextTokenEquals") or e.name in self.nonterm:
            self.leave(p, e)
        out = self.step_(e, p)
        return [q.but(last=e) for q in out]

    def step_(self, e, p):
        if e.name == P + "getNextToken":
            if p.cur is not None and len(p.cur) > 1:
                raise Undecided("the token before the one read at %s is not known" % where(e))
            a = upcoming(p.pos)
            return self.commit(p, a) if len(a) == 1 else [p.but(cur=a)]
        if e.name == P + "parseExpected":
            s = self.lit(e)
            keep = []
            for ps, pos, eff, cond in p.cur or ():
                c = cmp_tok(ps, s)
                if c is False:
                    raise Mismatch(e, "the reader expects '%s' where the writer puts '%s'" % (s, show_pieces(ps)))
                if c is None:
                    raise Undecided("token %s against %s" % (show_pieces(ps), s))
                keep.append(([], pos, eff, cond))
            if not keep:
                raise Mismatch(e, "the reader expects '%s' before it has read any token" % s)
            return self.commit(p, keep) if len(keep) == 1 else [p.but(cur=keep)]
        if e.name in (P + "getNextTokenEquals", P + "getTokenEquals"):
            s = self.lit(e)
            alts = upcoming(p.pos) if e.name == P + "getNextTokenEquals" else (p.cur or [])
            yes, no = [], []
            for a in alts:
                c = cmp_tok(a[0], s)
                if c is None:
                    raise Undecided("token %s against %s" % (show_pieces(a[0]), s))
                (yes if c else no).append(a)
            at = atom(e.res)
            out = []
            for alts_, f in ((yes, at), (no, ~at)):
                if not alts_:
                    continue
                q = p.but(facts=p.facts & f, cur=alts_)
                t = self.tests.setdefault(e.id, [FALSE, FALSE, e])
                c = FALSE
                for a in alts_:
                    c = c | (a[3] & p.cond)
                t[0 if f is at else 1] = t[0 if f is at else 1] | c
                out += self.commit(q, alts_) if len(alts_) == 1 else [q]
            return out
        if e.name == P + "parse":
            if not p.cur or len(p.cur) != 1:
                if not p.cur:
                    raise Mismatch(e, "a number is read before any token")
                kinds = {a[0][0][0] for a in p.cur if a[0]}
                if kinds != {"hole"}:
                    b = next(a for a in p.cur if not a[0] or a[0][0][0] != "hole")
                    raise Mismatch(e, "a number is read where the writer can put '%s'" % show_pieces(b[0]))
                raise Undecided("several values at %s" % where(e))
            ps, pos, eff, cond = p.cur[0]
            if not ps or ps[0][0] != "hole":
                raise Mismatch(e, "a number is read where the writer puts '%s'" % show_pieces(ps))
            rest = ps[1:]
            if rest and rest[0][0] in ("hole", "glue"):
                raise Mismatch(e, "the number %s runs into %s" % (show(ps[0][1])[:60], show_pieces(rest)))
            if rest and rest[0][1][0] in "0123456789.eExX":
                raise Mismatch(e, "the number %s runs into '%s'" % (show(ps[0][1])[:60], show_pieces(rest)))
            h = (ps[0][1], ps[0][2], self.loops_of(p.pos), e)
            old = self.holes.get(e.id)
            if old and old[0] is not h[0]:
                raise Undecided("one read stands for two values at %s" % where(e))
            self.holes[e.id] = h
            return [p.but(cur=[(rest, pos, eff, cond)])]
        if e.name in self.nonterm:
            want = self.nonterm[e.name]
            pos = norm(p.pos)
            # inside the expansion of a call of the writer, or just before it
            els, i, par = pos
            x = els[i] if i < len(els) else None
            if isinstance(x, Rec) and x.ev.name == want:
                j, after, r = 0, Pos((els, i + 1, par)), x
            else:
                q, j, r = pos, i, None
                if par is not None and par[1] > 0:
                    y = par[0][par[1] - 1]
                    if isinstance(y, Rec) and y.ev.name == want and y.body is els:
                        r, after = y, par
                if r is None:
                    raise Mismatch(e, "%s reads where the writer puts %s" % (e.name, x if x is not None else "nothing"))
            old = self.skip.setdefault(want, j)
            if old != j:
                raise Mismatch(e, "%s is called %d tokens into the text of %s, elsewhere %d" % (e.name, j, want, old))
            self.recs[e.id] = (r, self.loops_of(pos), e)
            return [p.but(pos=after, cur=None)]
        raise Undecided("use of %s at %s" % (e.name, where(e)))

    def commit(self, p, alts):
        (ps, pos, eff, cond), = alts
        return [p.but(pos=pos, cur=[(ps, pos, (), TRUE)], cond=p.cond & cond, eff=p.eff + tuple(
            x for x in eff if x[0] in ("iter", "exit")))]

    def loop(self, e, p):
        tested = any(x.op == "res" and x.args[0] in (P + "getNextTokenEquals", P + "getTokenEquals")
                     for x in subterms(bterm(e.cont)) if isinstance(e.cont, B)) if isinstance(e.cont, B) else True
        if not isinstance(e.cont, B):
            raise Undecided("loop at %s" % where(e))
        if tested:
            outs = self.run(e.body, [p.but(eff=())])
            it, ex = [], []
            for q in outs:
                f = q.facts & self.alive
                if terms.implies(f, e.cont):
                    it.append(q)
                elif not terms.sat(f & e.cont):
                    ex.append(q)
                else:
                    raise Undecided("loop condition %s at %s" % (showb(e.cont)[:200], where(e)))
            res = []
            L = None
            for q in ex:
                ls = [x for k, x in q.eff if k == "exit"]
                if len(ls) != 1 or [1 for k, x in q.eff if k == "iter"]:
                    if not ls:
                        raise Mismatch(e, "the reader's loop ends although the writer puts '%s' unconditionally" %
                                       show_pieces(q.cur[0][0]))
                    raise Undecided("loop exit at %s" % where(e))
                L = ls[0]
                res.append(q.but(eff=p.eff))
            if not res:
                raise Mismatch(e, "the reader's loop never meets the text that ends it: next the writer puts %s" %
                               " | ".join(show_pieces(a[0]) for a in upcoming(p.pos)))
            if not it:
                raise Mismatch(e, "the reader's loop is never entered although the writer puts %s" % L)
            for q in it:
                ls = [x for k, x in q.eff if k == "iter"]
                if len(ls) != 1 or ls[0] is not L:
                    if len(ls) > 1:
                        raise Mismatch(e, "one iteration reads more than one element")
                    raise Mismatch(e, "an iteration of the reader does not read an element of the writer's loop %s" % L)
                if norm(q.pos) != norm(p.pos):
                    nx = upcoming(q.pos)[0]
                    raise Mismatch(e, "after an element the reader looks for the next one where the writer puts '%s'" %
                                   show_pieces(nx[0]))
                self.leave_turn(q, e)
            self.trips.append((e, L))
            for q in res:
                q.facts = p.facts
            return res
        # counted loop
        els, i, par = pos = norm(p.pos)
        x = els[i] if i < len(els) else None
        if not isinstance(x, Loop):
            raise Mismatch(e, "a counted loop reads where the writer puts %s" % (x if x is not None else "nothing"))
        n = self.value(e.n)
        c = self.ck.same(n, x.n, self.care) if self.care is not None else self.ck.same(n, x.n)
        if c is False:
            raise Mismatch(e, "the reader reads %s elements, the writer puts %s" % (show(n)[:100], show(x.n)[:100]))
        if c is None:
            raise Undecided("numbers of elements %s and %s" % (show(n)[:80], show(x.n)[:80]))
        self.trips.append((e, x))
        outs = self.run(e.body, [p.but(pos=Pos((x.body, 0, pos)), cur=None, facts=p.facts & e.cont, eff=())])
        for q in outs:
            if norm(q.pos) != pos:
                raise Mismatch(e, "an iteration of the reader ends where the writer puts '%s'" %
                               show_pieces(upcoming(q.pos)[0][0]))
            self.leave_turn(q, e)
        return [p.but(pos=Pos((els, i + 1, par)), cur=None)]

    care = None

    # -------------------------------------------------------------- values
    def value(self, t):
        """a value of the reader in terms of what the writer wrote"""
        src = bterm(t) if isinstance(t, B) else t
        trips = {id(e.n): w for e, w in self.trips}
        for _ in range(40):
            m = {}
            for x in subterms(src):
                if x.op == "f32" and x.args[0].op == "out" and x.args[0].args[0] == P + "parse" and \
                        x.args[0].args[2] in self.holes and self.holes[x.args[0].args[2]][0].op == "flt" and \
                        self.holes[x.args[0].args[2]][0].args[1] == "float":
                    m[x] = x.args[0]        # was written as a float
                elif x.op == "out" and x.args[0] == P + "parse" and x.args[2] in self.holes:
                    h, put, loops, ev = self.holes[x.args[2]]
                    self.used.add(x.args[2])
                    ks = x.args[3:]
                    v = h.args[0]
                    if len(ks) >= len(loops) and loops:
                        v = subst(v, {l.k: a for l, a in zip(loops, ks[len(ks) - len(loops):])})
                    m[x] = v
                elif x.op == "res" and x.args[1] in self.recs:
                    r, loops, ev = self.recs[x.args[1]]
                    v = T("copy", self.node(r))
                    if loops:
                        v = subst(v, {l.k: a for l, a in zip(loops, x.args[2:])})
                    m[x] = v
                elif x.op == "res" and x.args[1] in self.tests:
                    y, n, ev = self.tests[x.args[1]]
                    if not terms.sat(y & n):
                        m[x] = bterm(y)
                elif x.op == "trip":
                    for e, L in self.trips:
                        if e.n.op == "trip" and same_trip(e.n, x):
                            v = L.n
                            ks, outer = trip_ks(x), trip_ks(e.n)
                            ls = self.outer_loops(L)
                            if ls:
                                v = subst(v, {l.k: a for l, a in zip(ls, ks)})
                            m[x] = v
                            break
            m = {a: b for a, b in m.items() if a is not b}
            if not m:
                break
            new = deep(subst(src, m), TRUE)
            if new is src:
                break
            src = new
        return truth(src) if isinstance(t, B) else src

    def node(self, r):
        for a in r.args[1:]:
            if isinstance(a, T) and a.op == "in" and a.args[0][0][0] == "mem":
                return a.args[0][0][1]
        if isinstance(r.obj, T):
            return r.obj
        return T("nonterminal", r.ev.name)

    def outer_loops(self, L):
        def find(els, acc):
            for x in els:
                if x is L:
                    return acc
                if isinstance(x, (Loop, Cond)):
                    r = find(x.body, acc + ([x] if isinstance(x, Loop) else []))
                    if r is not None:
                        return r
            return None
        return find(self.root[0], []) or []


def trip_test(t):
    """the token test that ends a loop"""
    b = t.args[1] if isinstance(t.args[1], B) else truth(t.args[1])
    for a in terms.batoms(b):
        if a.op == "res" and a.args[0].startswith(P):
            return a
    return None


def trip_ks(t):
    """outer iteration variables a trip count depends on, in order"""
    a = trip_test(t)
    return [x for x in a.args[2:] if x is not t.args[0]] if a is not None else []


def trip_id(t):
    a = trip_test(t)
    return a.args[1] if a is not None else None


def same_trip(a, b):
    return trip_id(a) is not None and trip_id(a) == trip_id(b)


def merge(paths):
    return paths


INT64 = {"unsigned long", "long", "unsigned long long", "long long", "size_t", "std::size_t"}


def lossless(h, put, ev):
    """the text of the value gives back the same value; error text otherwise"""
    dst = (ev.extra or {}).get("ta", ("",))[0]
    if h.op == "flt":
        v, t, prec = h.args
        need = 9 if t == "float" else 17
        if t not in ("float", "double"):
            return None
        if is_num(prec) and prec.args[0] < need:
            return "%s is printed with %s significant digits, %d are needed to read it back" % (t, show(prec), need)
        if prec.op == "decimals":
            return "%s is printed with a fixed number of decimals, small values lose their digits" % t
        if prec.op == "fixed6":
            return "%s is printed with 6 decimals" % t
        if dst in ("float", "double"):
            if t == "double" and dst == "float":
                return "a double is read back as float"
            return "" if is_num(prec) else None
        return "a floating point value is read back as %s" % dst
    src = stdlib.clean_t((put.extra or {}).get("t") or "")
    if dst in ("float",):
        return "an integer is read back as float"
    if dst == "double":
        return ""
    if src in INT64 and dst in ("int", "unsigned int", "short"):
        return "a 64 bit value is read back as %s" % dst
    if src == "int" and dst.startswith("unsigned"):
        return "an int (possibly negative) is read back as %s" % dst
    return ""


def agree(ck, rule, wtree, r, nonterm, care=None, start=0, w=None, alive=TRUE):
    """the reader summary r consumes exactly what the writer grammar generates; Reader with the value map or None"""
    g = wtree
    R = Reader(ck, g, nonterm, w or r)
    if hasattr(ck, "readers"):
        ck.readers.append((R, r))
    R.care = care if care is not None else TRUE
    if start:
        if not all(isinstance(x, Tok) for x in g[:start]):
            raise Undecided("first tokens of the nonterminal")
    R.root = Pos((g, 0, None))
    R.alive = alive
    try:
        outs = R.run(r.events, [Path(Pos((g, start, None)))])
        for p in outs:
            R.leave(p, r)
            q = norm(p.pos)
            nx = [a for a in upcoming(q) if a[0][0][0] != "end"] if True else []
            if q[1] != len(q[0]):
                R.short = show_pieces(upcoming(q)[0][0])
                raise Mismatch(r, "the reader stops before '%s'" % show_pieces(upcoming(q)[0][0]))
    except Mismatch as m:
        ck.bad(rule, m.ev, str(m))
        return None
    for e, L in R.trips:
        if L.body and all(isinstance(x, Cond) for x in L.body):
            gs = FALSE
            for x in L.body:
                gs = gs | x.guard
            ck.need(False if understood(bterm(gs)) else None, "all-written", L.ev,
                    "an element is written only if %s" % showb(gs)[:200])
            return None
    ck.ok(rule, r, "the reader accepts exactly what %s writes: %s" % (where(w or r), " ".join(map(repr, g))[:300]))
    return R
