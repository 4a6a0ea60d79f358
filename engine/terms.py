"""Hash-consed value terms, polynomial normal forms and guards (BDDs).

A guard is a reduced ordered BDD over comparison/equality atoms; two guards
that denote the same boolean function over the atoms are the same object.
Nothing here is handed to a solver: entailment between guards is a table
computation over the atoms that occur in them.
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "id", "_h")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = T._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            T._n += 1
            t.id = T._n
            t._h = None
            T._tab[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


class B:
    """BDD node."""
    __slots__ = ("v", "lo", "hi", "id")
    _tab = {}
    _n = 0

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return bite(self, o, FALSE)

    def __or__(self, o):
        return bite(self, TRUE, o)

    def __repr__(self):
        return showb(self)


def _mkb(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    b = B._tab.get(k)
    if b is None:
        b = object.__new__(B)
        b.v = v
        b.lo = lo
        b.hi = hi
        B._n += 1
        b.id = B._n
        B._tab[k] = b
    return b


def _const(i):
    b = object.__new__(B)
    b.v = 1 << 60
    b.lo = b.hi = None
    b.id = i
    return b


FALSE = _const(-1)
TRUE = _const(-2)

ATOMS = []          # var index -> T
_ATOM_IX = {}


def atom(t):
    """Guard variable for the boolean-valued term t."""
    i = _ATOM_IX.get(t)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _ATOM_IX[t] = i
    return _mkb(i, FALSE, TRUE)


_ite_memo = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is None:
        v = min(f.v, g.v, h.v)
        f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
        g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
        h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
        r = _mkb(v, bite(f0, g0, h0), bite(f1, g1, h1))
        _ite_memo[k] = r
    return r


def bnot(f):
    return bite(f, FALSE, TRUE)


def bor(*fs):
    r = FALSE
    for f in fs:
        r = bite(r, TRUE, f)
    return r


def band(*fs):
    r = TRUE
    for f in fs:
        r = bite(r, f, FALSE)
    return r


def bxor(f, g):
    return bite(f, bnot(g), g)


_support_memo = {}


def support(f):
    if f is TRUE or f is FALSE:
        return frozenset()
    r = _support_memo.get(f)
    if r is None:
        r = support(f.lo) | support(f.hi) | {f.v}
        _support_memo[f] = r
    return r


_constraints = {}


def domain(vars_):
    """Facts that relate atoms over the same quantity (orderings, exclusive
    equalities)."""
    key = frozenset(vars_)
    r = _constraints.get(key)
    if r is not None:
        return r
    vs = sorted(key)
    r = TRUE
    fam = {}
    eqs = {}
    ptr = {}
    for v in vs:
        t = ATOMS[v]
        if t.op == "ge0":
            base, c = poly_split(t.args[0])
            fam.setdefault(("i", base), []).append((c, v))
        elif t.op in ("gt0", "lt0"):
            fam.setdefault(("r", t.args[0]), []).append((t.op, v))
        elif t.op == "eq":
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if is_constant(y):
                    eqs.setdefault(x, []).append((y, v))
    for k, lst in fam.items():
        if k[0] == "i":
            lst.sort(key=lambda p: p[0])
            # smaller constant implied by: ge0(base + c1) => ge0(base + c2), c1<c2
            for (c1, v1), (c2, v2) in zip(lst, lst[1:]):
                r = r & (~_mkb(v1, FALSE, TRUE) | _mkb(v2, FALSE, TRUE))
        elif len(lst) == 2:
            r = r & ~(_mkb(lst[0][1], FALSE, TRUE) & _mkb(lst[1][1], FALSE, TRUE))
    for x, lst in eqs.items():
        for i in range(len(lst)):
            for j in range(i):
                if lst[i][0] is not lst[j][0]:
                    r = r & ~(_mkb(lst[i][1], FALSE, TRUE) & _mkb(lst[j][1], FALSE, TRUE))
    _constraints[key] = r
    return r


def sat(f):
    """Some valuation of the atoms, consistent with their meaning, makes f true."""
    if f is FALSE:
        return False
    if f is TRUE:
        return True
    return (f & domain(support(f))) is not FALSE


def implies(f, g):
    return not sat(f & ~g)


def equiv(f, g, care=TRUE):
    return not sat(bxor(f, g) & care)


def restrict(f, c):
    """Simplify f knowing that c holds (Coudert-Madre)."""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return f
    memo = {}

    def rec(f, c):
        if c is TRUE or f is TRUE or f is FALSE:
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        if c.v < f.v:
            r = rec(f, bite(c.lo, TRUE, c.hi))
        elif c.v == f.v:
            if c.hi is FALSE:
                r = rec(f.lo, c.lo)
            elif c.lo is FALSE:
                r = rec(f.hi, c.hi)
            else:
                r = _mkb(f.v, rec(f.lo, c.lo), rec(f.hi, c.hi))
        else:
            r = _mkb(f.v, rec(f.lo, c), rec(f.hi, c))
        memo[k] = r
        return r
    if not sat(f & c):
        return FALSE
    if implies(c, f):
        return TRUE
    return rec(f, c)


def cof(f, v, val):
    """Cofactor of f at atom variable index v."""
    memo = {}

    def rec(f):
        if f.v > v or f is TRUE or f is FALSE:
            return f
        if f in memo:
            return memo[f]
        if f.v == v:
            r = f.hi if val else f.lo
        else:
            r = _mkb(f.v, rec(f.lo), rec(f.hi))
        memo[f] = r
        return r
    return rec(f)


def exists(f, pred):
    """Quantify away atoms whose term satisfies pred."""
    for v in sorted(support(f), reverse=True):
        if pred(ATOMS[v]):
            f = cof(f, v, True) | cof(f, v, False)
    return f


def batoms(f):
    return [ATOMS[v] for v in sorted(support(f))]


# ---------------------------------------------------------------- numbers

def num(c):
    if isinstance(c, float):
        c = Fraction(c)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return T("num", c)


ZERO = num(0)
ONE = num(1)
NULL = T("null")
UNDEF = T("undef")


def is_num(t):
    return t.op == "num"


def is_constant(t):
    return t.op in ("num", "str", "null", "enum")


def to_poly(t):
    if t.op == "num":
        return {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    if t.op == "poly":
        return {m: c for m, c in t.args[0]}
    return {(t,): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return T("poly", tuple(sorted(p.items(), key=lambda mc: ([x.id for x in mc[0]], mc[1]))))


def add(a, b):
    if a.op == "ite" and is_num(b) or b.op == "ite" and is_num(a):
        return lift2(add, a, b)
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def scale(a, k):
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def sub(a, b):
    r = add(a, scale(b, -1))
    if r.op == "poly":
        p = to_poly(r)
        if len(p) == 2:
            # a - a / s * s
            for m, c in p.items():
                q = [x for x in m if x.op == "idiv"]
                if len(q) == 1 and p.get((q[0].args[0],)) == 1:
                    s = q[0].args[1]
                    rest = [x for x in m if x is not q[0]]
                    if (c == -1 and len(rest) == 1 and rest[0] is s) or (not rest and is_num(s) and c == -s.args[0]):
                        return mod(q[0].args[0], s)
    return r


def mul(a, b):
    p = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def div(a, b, integer):
    if is_num(b) and b.args[0] != 0:
        if not integer:
            return scale(a, Fraction(1) / Fraction(b.args[0]))
        if b.args[0] == 1:
            return a
        if is_num(a):
            q = abs(int(a.args[0])) // abs(int(b.args[0]))
            return num(q if (a.args[0] >= 0) == (b.args[0] >= 0) else -q)
    if not integer:
        # a / b as a * (1/b)
        if a is b:
            return ONE
        return mul(a, T("inv", b)) if not is_num(a) or a.args[0] != 0 else ZERO
    return T("idiv", a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if is_num(b) and b.args[0] == 1:
        return ZERO
    if is_num(a) and a.args[0] == 0:
        return ZERO
    return T("mod", a, b)


def poly_split(t):
    """(non constant part, constant)"""
    p = to_poly(t)
    c = p.pop((), Fraction(0))
    return from_poly(p), c


NONNEG_OPS = {"size", "k", "bv", "count", "strlen", "upto", "mpisize"}
_nonneg = set()


def mark_nonneg(t):
    _nonneg.add(t)


def nonneg_atom(t):
    if t.op in NONNEG_OPS or t in _nonneg:
        return True
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "mod":
        return nonneg(t.args[0])
    return False


def nonneg(t):
    if t.op == "num":
        return t.args[0] >= 0
    return all(c >= 0 and all(nonneg_atom(x) for x in m) for m, c in to_poly(t).items())


def lift1(f, a):
    if a.op == "ite":
        return ite(a.args[0], lift1(f, a.args[1]), lift1(f, a.args[2]))
    return f(a)


def lift2(f, a, b):
    if a.op == "ite":
        return ite(a.args[0], lift2(f, a.args[1], b), lift2(f, a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], lift2(f, a, b.args[1]), lift2(f, a, b.args[2]))
    return f(a, b)


def blift2(f, a, b):
    if a.op == "ite":
        return bite(a.args[0], blift2(f, a.args[1], b), blift2(f, a.args[2], b))
    if b.op == "ite":
        return bite(b.args[0], blift2(f, a, b.args[1]), blift2(f, a, b.args[2]))
    return f(a, b)


def _lead(p):
    m = max((m for m in p if m != ()), key=lambda m: [x.id for x in m])
    return p[m]


def _igcd(vals):
    from math import gcd
    g = 0
    for v in vals:
        g = gcd(g, abs(int(v)))
    return g or 1


def ge0_int(d):
    """d >= 0 for an integer valued d"""
    p = to_poly(d)
    c = p.pop((), Fraction(0))
    if not p:
        return TRUE if c >= 0 else FALSE
    den = 1
    for x in list(p.values()) + [c]:
        if x.denominator != 1:
            den = den * x.denominator
    if den != 1:
        p = {m: x * den for m, x in p.items()}
        c *= den
    g = _igcd(p.values())
    neg = _lead(p) < 0
    p = {m: x / g for m, x in p.items()}
    c = Fraction(c) / g
    c = Fraction(c.numerator // c.denominator)     # floor
    base = from_poly(p)
    if nonneg(base) and c >= 0:
        return TRUE
    if nonneg(scale(base, -1)) and c < 0:
        return FALSE
    if neg:
        # -q + c >= 0  <=>  q - c <= 0  <=>  not (q - c - 1 >= 0)
        return bnot(ge0_int(add(scale(base, -1), num(-c - 1))))
    return atom(T("ge0", add(base, num(c))))


def rcmp0(d):
    """(d > 0, d < 0) for a real valued d"""
    if d.op == "num":
        return (TRUE if d.args[0] > 0 else FALSE), (TRUE if d.args[0] < 0 else FALSE)
    p = to_poly(d)
    keys = [m for m in p if m != ()]
    l = _lead(p)
    q = from_poly({m: c / abs(l) for m, c in p.items()})
    if l < 0:
        q = scale(q, -1)
    if nonneg(q):
        gt, lt = atom(T("gt0", q)), FALSE
    else:
        gt, lt = atom(T("gt0", q)), atom(T("lt0", q))
    return (lt, gt) if l < 0 else (gt, lt)


def cmp_(op, a, b, integer):
    """Guard for a op b on numbers."""
    def f(a, b):
        if op == "<":
            return ge0_int(add(sub(b, a), num(-1))) if integer else rcmp0(sub(b, a))[0]
        if op == "<=":
            return ge0_int(sub(b, a)) if integer else bnot(rcmp0(sub(b, a))[1])
        if op == "==":
            d = sub(a, b)
            if integer:
                return ge0_int(d) & ge0_int(scale(d, -1))
            g, l = rcmp0(d)
            return bnot(g) & bnot(l)
        raise AssertionError(op)
    if op == ">":
        return cmp_("<", b, a, integer)
    if op == ">=":
        return cmp_("<=", b, a, integer)
    if op == "!=":
        return bnot(cmp_("==", a, b, integer))
    return blift2(f, a, b)


def _nonnull(t):
    return t.op in ("addr", "new", "this", "mk", "str")


def eq(a, b):
    """Guard for equality of two non numeric values."""
    def f(a, b):
        if a is b:
            return TRUE
        if is_constant(a) and is_constant(b):
            return FALSE
        if (a.op == "null" and _nonnull(b)) or (b.op == "null" and _nonnull(a)):
            return FALSE
        if a.op in ("addr", "new") and b.op in ("addr", "new"):
            if a.op == b.op == "addr" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
                g = TRUE
                for x, y in zip(a.args[1], b.args[1]):
                    if x == y:
                        continue
                    if x[0] == y[0] == "i" and isinstance(x[1], T) and isinstance(y[1], T):
                        g = g & cmp_("==", x[1], y[1], True)
                    else:
                        return FALSE
                return g
            return FALSE
        if a.op == b.op == "pair":
            return band(*[eq(x, y) for x, y in zip(a.args, b.args)])
        x, y = (a, b) if a.id < b.id else (b, a)
        return atom(T("eq", x, y))
    return blift2(f, a, b)


# ---------------------------------------------------------------- ite, bool

def ite(g, a, b):
    if g is TRUE or a is b:
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a.op == "b" and b.op == "b":
        return T("b", bite(g, a.args[0], b.args[0]))
    if a.op == "ite" and a.args[0] is g:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is g:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(g | b.args[0], a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(g | ~b.args[0], a, b.args[1])
    if a.op == "ite" and a.args[1] is b:
        return ite(g & ~a.args[0], a.args[2], b)
    if a.op == "ite" and a.args[2] is b:
        return ite(g & a.args[0], a.args[1], b)
    if g.hi is FALSE and g.lo is TRUE:
        return T("ite", bnot(g), b, a)
    return T("ite", g, a, b)


def simp(t, pc):
    """Resolve the outer conditions of t that pc decides."""
    while t.op == "ite":
        g = t.args[0]
        if not sat(pc & g):
            t = t.args[2]
        elif not sat(pc & ~g):
            t = t.args[1]
        else:
            a, b = simp(t.args[1], pc & g), simp(t.args[2], pc & ~g)
            return ite(g, a, b)
    if t.op == "b":
        return T("b", restrict(t.args[0], pc))
    return t


def cases(t, pc=TRUE):
    """[(guard, leaf)] of nested ite"""
    if t.op == "ite":
        g = t.args[0]
        out = []
        if sat(pc & g):
            out += cases(t.args[1], pc & g)
        if sat(pc & ~g):
            out += cases(t.args[2], pc & ~g)
        return out
    return [(pc, t)]


def bterm(b):
    return T("b", b)


def truth(t):
    """Guard for a boolean valued term"""
    if t.op == "b":
        return t.args[0]
    if t.op == "num":
        return TRUE if t.args[0] else FALSE
    if t.op == "ite":
        return bite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return atom(t)


# ---------------------------------------------------------------- strings

EMPTY = T("str", "")


def cat(*parts):
    """Text: concatenation of constant strings, formatted values and loops."""
    out = []
    for p in parts:
        if p.op == "cat":
            seq = p.args
        else:
            seq = (p,)
        for q in seq:
            if q.op == "str":
                if q.args[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = T("str", out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


# ---------------------------------------------------------------- rewriting

def rebuild(t, f):
    """Rebuild t after applying f to children (normalising constructors)."""
    op, a = t.op, t.args
    if op in ("num", "str", "null", "undef", "bv", "k", "fn"):
        return t
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            x = num(c)
            for y in m:
                x = mul(x, f(y))
            r = add(r, x)
        return r
    if op == "b":
        return T("b", map_b(a[0], f))
    if op == "ite":
        return ite(map_b(a[0], f), f(a[1]), f(a[2]))
    if op == "cat":
        return cat(*[f(x) for x in a])
    if op == "inv":
        return T("inv", f(a[0]))
    new = tuple(map_arg(x, f) for x in a)
    if new == a:
        return t
    if op == "ge0" or op == "gt0" or op == "lt0" or op == "eq":
        raise AssertionError("atom outside guard")
    h = HOOKS.get(op)
    if h:
        return h(*new)
    return T(op, *new)


HOOKS = {}


def map_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, B):
        return map_b(x, f)
    if isinstance(x, tuple):
        return tuple(map_arg(y, f) for y in x)
    return x


def map_atom(t, f):
    if t.op == "ge0":
        return ge0_int(f(t.args[0]))
    if t.op == "gt0":
        return rcmp0(f(t.args[0]))[0]
    if t.op == "lt0":
        return rcmp0(f(t.args[0]))[1]
    if t.op == "eq":
        return eq(f(t.args[0]), f(t.args[1]))
    return truth(f(t))


def map_b(b, f):
    memo = {TRUE: TRUE, FALSE: FALSE}

    def rec(b):
        r = memo.get(b)
        if r is None:
            r = bite(map_atom(ATOMS[b.v], f), rec(b.hi), rec(b.lo))
            memo[b] = r
        return r
    return rec(b)


def subst(t, m):
    """Replace terms by the mapping m (T -> T), bottom up."""
    if not m:
        return t
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            else:
                r = rebuild(x, f)
                if r in m:
                    r = m[r]
            memo[x] = r
        return r
    if isinstance(t, B):
        return map_b(t, f)
    if isinstance(t, tuple):
        return map_arg(t, f)
    return f(t)


def subterms(t, seen=None):
    """All terms in t, including those in guards."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, B):
            for v in support(x):
                st.append(ATOMS[v])
        elif isinstance(x, (tuple, list)):
            st.extend(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 24:
        return "..."
    if isinstance(t, B):
        return showb(t, d)
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    a = t.args
    if t.op == "num":
        return str(a[0])
    if t.op == "str":
        return repr(a[0])
    if t.op == "null":
        return "null"
    if t.op == "undef":
        return "undef"
    if t.op == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d + 1) for x in m)
            if not m:
                s = str(c)
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if t.op == "ite":
        return "(%s ? %s : %s)" % (showb(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
    if t.op == "b":
        return showb(a[0], d)
    if t.op == "in":
        return showloc(a[0])
    if t.op == "cat":
        return " ++ ".join(show(x, d + 1) for x in a)
    return t.op + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def showatom(t, d):
    if t.op == "ge0":
        b, c = poly_split(t.args[0])
        return "%s>=%s" % (show(b, d + 1), -c)
    if t.op == "gt0":
        return "%s>0" % show(t.args[0], d + 1)
    if t.op == "lt0":
        return "%s<0" % show(t.args[0], d + 1)
    if t.op == "eq":
        return "%s==%s" % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    return show(t, d + 1)


def showb(b, d=0):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    # sum of paths, bounded
    paths = []

    def rec(b, acc):
        if len(paths) > 6:
            return
        if b is TRUE:
            paths.append(" & ".join(acc) or "true")
            return
        if b is FALSE:
            return
        s = showatom(ATOMS[b.v], d)
        rec(b.hi, acc + [s])
        rec(b.lo, acc + ["!" + s])
    rec(b, [])
    s = " | ".join(paths[:6]) + (" | ..." if len(paths) > 6 else "")
    return "[" + s + "]"


def showloc(l):
    if not isinstance(l, tuple):
        return str(l)
    root, path = l
    s = {"var": lambda r: r[-1], "glob": lambda r: r[1], "obj": lambda r: show(r[1]) + "->",
         "tmp": lambda r: "tmp"}.get(root[0], str)(root)
    for p in path:
        if p[0] == "f":
            s += ("" if s.endswith(">") else ".") + p[1]
        else:
            s += "[%s]" % show(p[1])
    return s
