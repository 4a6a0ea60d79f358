"""Pointwise value of an array a loop nest computes, for a symbolic row and column.

The summary of a loop nest is a nest of fold / tab / upd terms.  `Point.at(A, digits)` gives the element of A
at the row-major position of the digits [(row, rows), (column, columns)] for all 0 <= row < rows,
0 <= column < columns at once: a write a*columns + b hits it exactly if a == row and b == column (b is known to
lie in [0, columns)).  Anything the rules below do not cover raises Undecided."""
from common import *


def at_(a, b):
    return TRUE if a is b else atom(T("at", a, b))


def strip(t, f):
    return contains(t, f)


def digits_of(i, stride):
    """(a, b) with i = a * stride + b, b free of stride"""
    a, b = {}, {}
    if is_num(stride):
        s = stride.args[0]
        for m, c in to_poly(i).items():
            if c % s == 0 and m:
                a[m] = c / s
            else:
                b[m] = c
        return from_poly(a), from_poly(b)
    sp = to_poly(stride)
    if len(sp) != 1:
        return None, i
    (sm, sc), = sp.items()
    for m, c in to_poly(i).items():
        r = list(m)
        try:
            for x in sm:
                r.remove(x)
        except ValueError:
            b[m] = c
            continue
        a[tuple(r)] = c / sc
    return from_poly(a), from_poly(b)


def evaluate(p, env):
    r = 0
    for m, c in p.items():
        for x in m:
            c = c * env[x]
        r += c
    return r


def outside(s, n, digits):
    """for some sizes, all at least 1, an element of the digits has its s outside [0, n)"""
    ps, pn = to_poly(s), to_poly(n)
    rows, cols = [to_poly(x) if x is not None else None for _, x in digits]
    names = {x for p in (ps, pn, rows or {}, cols) for m in p for x in m}
    names |= {v for v, _ in digits}
    var = [v for v, _ in digits]
    if rows is None or len(names) > 5 or any(x.op != "in" and x not in var for x in names):
        return False
    free = sorted(names - set(var), key=lambda t: t.id)
    import itertools
    for z in itertools.product(range(1, 4), repeat=len(free)):
        env = dict(zip(free, z))
        try:
            R, C = evaluate(rows, env), evaluate(cols, env)
            for env[var[0]] in range(int(R)):
                for env[var[1]] in range(int(C)):
                    if not 0 <= evaluate(ps, env) < evaluate(pn, env):
                        return True
        except KeyError:
            return False
    return False


class Point:
    def __init__(self, dom=None):
        self.dom = dict(dom or {})      # term -> extent: 0 <= term < extent
        self.memo = {}

    # -------------------------------------------------------------- index
    def flat(self, digits):
        i = ZERO
        for v, n in digits:
            i = add(mul(i, n), v) if n is not None else v
        return i

    def inside(self, v, n):
        """0 <= v < n for sure"""
        return self.dom.get(v) is n or nonneg_box(sub(sub(n, ONE), v), self.dom) and nonneg_box(v, self.dom)

    def hit(self, i, digits):
        """guard: i is the position of the digits (None: not known)"""
        if i is self.flat(digits):
            return TRUE
        if len(digits) == 1:
            return at_(i, digits[0][0])
        (r, rows), (c, cols) = digits
        a, b = digits_of(i, cols)
        if a is None or not (b is c or self.inside(b, cols)):
            return at_(i, self.flat(digits)) if i in self.dom else None
        return at_(a, r) & at_(subst(b, {a: r}) if not is_num(a) else b, c)

    # -------------------------------------------------------------- value
    def at(self, A, digits):
        key = (A, tuple(digits))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.norm(self._at(A, digits))
        return r

    def _at(self, A, digits):
        op = A.op
        if op == "ite":
            return values.join(A.args[0], self.at(A.args[1], digits), self.at(A.args[2], digits))
        if op == "undef":
            return T("unset")
        if op == "fill":
            return A.args[1]
        if op == "upd":
            g = self.hit(A.args[1], digits)
            if g is None:
                raise Undecided("which element %s is" % show(A.args[1])[:100])
            return self.pick(g, A.args[2], lambda: self.at(A.args[0], digits))
        if op == "tab":
            base, k, n, i, v = A.args
            self.dom[k] = n
            g, sol, inr = self.solve(i, k, n, digits)
            return self.pick(g & inr, subst(v, {k: sol}), lambda: self.at(base, digits))
        if op == "fold":
            return self.fold(A, digits)
        if op == "acc":
            return T("elt", A, self.flat(digits))
        return values.elt(A, self.flat(digits))

    def pick(self, g, v, other):
        if g is TRUE:
            return v
        if g is FALSE:
            return other()
        m = {}
        for t in terms.batoms(g):
            if t.op == "at":
                m[t.args[0]] = t.args[1]
        for _ in range(2):
            v = subst(v, m)
        return values.join(g, v, other())

    def range_guard(self, v, n):
        if self.inside(v, n):
            return TRUE
        return cmp_("<=", ZERO, v, True) & cmp_("<", v, n, True)

    def solve(self, i, k, n, digits):
        """(guard, value of k, guard that it is one of the n) of the write at i(k)"""
        off = sub(i, k)
        has_k = lambda x: contains(x, lambda t: t is k)
        if len(digits) == 1:
            if has_k(off):
                raise Undecided("write at %s" % show(i)[:100])
            s = sub(digits[0][0], off)
            return TRUE, s, self.range_guard(s, n)
        (r, rows), (c, cols) = digits
        idx = self.flat(digits)
        if not has_k(off):
            s = sub(idx, off)
            if self.inside(s, n):
                return TRUE, s, TRUE
            if outside(s, n, digits):
                return TRUE, s, self.range_guard(s, n)
        a, b = digits_of(i, cols)
        if a is None:
            raise Undecided("write at %s" % show(i)[:100])
        ob, oa = sub(b, k), sub(a, k)
        if has_k(b) and not has_k(ob) and not has_k(a):
            s = sub(c, ob)
            rng = self.range_guard(s, n)
            # a row wider or narrower than the stride hits other rows too
            if ob is not ZERO or not self.inside(sub(n, ONE), cols):
                raise Undecided("row of %s elements in rows of %s" % (show(n)[:50], show(cols)[:50]))
            return at_(a, r), s, rng
        if has_k(a) and not has_k(oa) and not has_k(b):
            s = sub(r, oa)
            if not (b is c or self.inside(b, cols)):
                raise Undecided("write at %s" % show(i)[:100])
            return at_(b, c), s, self.range_guard(s, n)
        if not has_k(i):
            g = self.hit(i, digits)
            if g is not None:
                return g, sub(n, ONE), cmp_("<", ZERO, n, True)
        raise Undecided("write at %s" % show(i)[:100])

    def fold(self, A, digits):
        k, n, me, inits, steps, accs = A.args[:6]
        self.dom[k] = n
        idx = self.flat(digits)
        mine = T("elt", accs[me], idx)
        g = self.at(steps[me], digits)
        return self.close(g, k, n, me, inits, steps, accs, digits, mine)

    def close(self, g, k, n, me, inits, steps, accs, digits, mine):
        if g is mine:
            return self.at(inits[me], digits)
        ats = sorted({t for x in subterms(g) if x.op == "ite" for t in terms.batoms(x.args[0]) if t.op == "at"}, key=lambda t: t.id)
        for t in ats:
            if not contains(t, lambda x: x is k):
                b = atom(t)
                return values.join(b, *(self.close(deep(g, c), k, n, me, inits, steps, accs, digits, mine) for c in (b, ~b)))
        for t in ats:
            if t.args[0] is not k or contains(t.args[1], lambda x: x is k):
                raise Undecided("the iteration that writes an element: %s" % show(t)[:100])
        rho = {t.args[1] for t in ats}
        if len(rho) > 1:
            raise Undecided("an element written in several iterations")
        isacc = lambda x: x.op == "acc" and x in accs
        if rho:
            (rho,) = rho
            b = atom(ats[0])
            hit, miss = deep(g, b), deep(g, ~b)
            if miss is not mine:
                raise Undecided("an element written in several iterations")
            if not self.inside(rho, n):
                rng = self.range_guard(rho, n)
            else:
                rng = TRUE
            x = subst(hit, {k: rho})
            x = self.before(x, k, rho, inits, steps, accs, digits)
            return values.join(rng, x, self.at(inits[me], digits))
        if not contains(g, isacc):
            return values.join(cmp_("<", ZERO, n, True), subst(g, {k: sub(n, ONE)}), self.at(inits[me], digits))
        h = sub(g, mine)
        if not contains(h, isacc):
            return add(self.at(inits[me], digits), mk_sum(k, n, h))
        o = {x for x in subterms(g) if x.op == "elt" and isacc(x.args[0])}
        if o == {mine}:
            return T("sfold", k, n, self.at(inits[me], digits), subst(g, {mine: T("sacc")}))
        raise Undecided("a loop that reads what it wrote")

    def before(self, x, k, rho, inits, steps, accs, digits):
        """x with the elements of the arrays before iteration rho of k"""
        idx = self.flat(digits)
        for _ in range(4):
            m = {}
            for e in subterms(x):
                if e.op == "elt" and e.args[0].op == "acc" and e.args[0] in accs:
                    j = accs.index(e.args[0])
                    if e.args[1] is not idx:
                        raise Undecided("reads element %s" % show(e.args[1])[:100])
                    g = self.at(steps[j], digits)
                    b = atom(T("at", k, rho))
                    if deep(g, ~b) is not e:
                        raise Undecided("reads an element other iterations write")
                    m[e] = self.at(inits[j], digits)
            if not m:
                return x
            x = subst(x, m)
        raise Undecided("reads of the loop's own arrays")

    def norm(self, v):
        """arrays computed by loops of their own, read inside v"""
        m = {}
        for e in subterms(v):
            if e.op == "elt" and e.args[0].op in ("fold", "tab", "upd"):
                m[e] = self.at(e.args[0], [(e.args[1], None)])
        return subst(v, m) if m else v


def nonneg_box(p, dom, depth=0):
    """the polynomial is never negative: variables within their box, sizes at least 1"""
    poly = to_poly(p)
    vs = sorted({x for m in poly for x in m if x in dom}, key=lambda x: (-order(x, dom), x.id))
    if not vs:
        q = p
        for x in {x for m in poly for x in m}:
            if x.op not in ("in", "fld", "size", "k", "idiv"):
                return False
            q = subst_poly(q, x, add(x, ONE))
        return all(c >= 0 for c in to_poly(q).values())
    v = vs[0]
    co, rest = {}, {}
    for m, c in poly.items():
        if m.count(v) > 1:
            return False
        if v in m:
            co[tuple(x for x in m if x is not v)] = c
        else:
            rest[m] = c
    co = from_poly(co)
    if nonneg_box(co, dom, depth + 1):
        return nonneg_box(from_poly(rest), dom, depth + 1)
    if nonneg_box(scale(co, -1), dom, depth + 1):
        return nonneg_box(add(from_poly(rest), mul(co, sub(dom[v], ONE))), dom, depth + 1)
    return False


def order(x, dom, d=0):
    """variables whose extent depends on others go first"""
    if d > 5 or x not in dom:
        return 0
    return 1 + max([order(y, dom, d + 1) for y in subterms(dom[x]) if y in dom and y is not x] or [0])


def subst_poly(p, x, v):
    r = ZERO
    for m, c in to_poly(p).items():
        t = num(c)
        for y in m:
            t = mul(t, v if y is x else y)
        r = add(r, t)
    return r


def witness(p, dom, loops):
    """sizes and loop counters for which the polynomial is negative"""
    import itertools
    at = sorted({x for m in to_poly(p).items() for x in m[0]}, key=lambda x: x.id)
    vs, seen = [], set()

    def need(x):
        if x in seen:
            return
        seen.add(x)
        if x in dom:
            for m in to_poly(dom[x]):
                for y in m:
                    need(y)
        vs.append(x)
    for x in at:
        need(x)
    if any(x not in dom and x.op not in ("in", "fld", "size") for x in vs) or len(vs) > 8:
        return None

    def ev(q, env):
        s = Fraction(0)
        for m, c in to_poly(q).items():
            for y in m:
                c = c * env[y]
            s += c
        return s

    def go(i, env):
        if i == len(vs):
            return env if ev(p, env) < 0 else None
        x = vs[i]
        rg = range(int(ev(dom[x], env))) if x in dom else (2, 3, 5, 1)
        for a in list(rg)[:6]:
            env[x] = a
            r = go(i + 1, env)
            if r:
                return r
        env.pop(x, None)
        return None
    r = go(0, {})
    return {show(k): v for k, v in r.items()} if r else None


from fractions import Fraction      # noqa


def accesses(t, size_of, dom, out, seen=None):
    """(index, size, loops) of every element read or written in t"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    op = t.op

    def sz(a):
        for _ in range(50):
            if a.op == "fold":
                a = a.args[3][a.args[2]]
            elif a.op in ("tab", "upd"):
                a = a.args[0]
            elif a.op == "ite":
                a = a.args[1] if a.args[1].op != "undef" else a.args[2]
            else:
                break
        return size_of(a)
    if op == "fold":
        k, n, me, inits, steps, accs = t.args[:6]
        dom[k] = n
        for i, a in enumerate(accs):
            s = sz(inits[i])
            if s is not None:
                ACC[a] = s
        for x in inits:
            accesses(x, size_of, dom, out, seen)
        for x in steps:
            accesses(x, size_of, dom, out, seen)
        return
    if op == "tab":
        base, k, n, i, v = t.args
        dom[k] = n
        out.append((i, ACC.get(base) or sz(t), "written"))
    elif op == "upd":
        out.append((t.args[1], ACC.get(t.args[0]) or sz(t), "written"))
    elif op == "elt":
        out.append((t.args[1], ACC.get(t.args[0]) or sz(t.args[0]), "read"))
    elif op in ("sum",):
        dom[t.args[0]] = t.args[1]

    def kids(a):
        if isinstance(a, T):
            accesses(a, size_of, dom, out, seen)
        elif isinstance(a, tuple):
            for x in a:
                kids(x)
        elif isinstance(a, B):
            for x in terms.batoms(a):
                accesses(x, size_of, dom, out, seen)
    for a in t.args:
        kids(a)


ACC = {}


def in_bounds(ck, rule, w, t, size_of, dom=None):
    """every element read or written in t lies inside its array"""
    dom = dict(dom or {})
    out = []
    ACC.clear()
    accesses(t, size_of, dom, out)
    n = 0
    for i, s, how in dict.fromkeys(out):
        if s is None:
            continue
        n += 1
        lo, hi = i, sub(sub(s, ONE), i)
        if nonneg_box(lo, dom) and nonneg_box(hi, dom):
            ck.ok(rule, w, "element %s of %s %s" % (show(i)[:80], show(s)[:60], how))
            continue
        ws = witness(lo, dom, None) or witness(hi, dom, None)
        if ws:
            ck.bad(rule, w, "element %s of an array of %s is %s, e.g. %s" % (show(i)[:120], show(s)[:80], how, ws))
        else:
            ck.undecided(rule, w, "element %s of an array of %s" % (show(i)[:120], show(s)[:80]))
    return n
