"""Value algebra on top of terms: records, sequences, maps, pointers."""
from terms import *
import terms


def is_int_t(t):
    t = clean_t(t)
    return t in INT_T or t.endswith("::size_type") or t.startswith("enum ")


def clean_t(t):
    t = (t or "").strip()
    while True:
        u = t
        for p in ("const ", "volatile ", "struct ", "class "):
            if u.startswith(p):
                u = u[len(p):]
        for s in (" const", "&&", "&"):
            if u.endswith(s):
                u = u[:-len(s)].rstrip()
        if u == t:
            return t
        t = u


INT_T = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short",
         "unsigned short", "char", "signed char", "unsigned char", "size_t", "wchar_t", "char16_t"}
UNSIGNED_T = {"unsigned int", "unsigned long", "unsigned long long", "unsigned short", "unsigned char"}
FLT_T = {"float", "double", "long double"}


def is_flt_t(t):
    return clean_t(t) in FLT_T


def is_ptr_t(t):
    t = clean_t(t)
    return t.endswith("*") or "(*)" in t or t == "std::nullptr_t" or t == "nullptr_t" or \
        t.startswith(("std::unique_ptr<", "std::shared_ptr<", "cv::Ptr<"))


def is_ref_t(t):
    return (t or "").rstrip().endswith("&")


def is_arr_t(t):
    t = clean_t(t)
    return t.endswith("]") and "(" not in t[t.rfind("["):] and "(*)" not in t and not t.startswith("(lambda")


def arr_len(t):
    t = clean_t(t)
    i = t.find("[", t.rfind(">") + 1)
    try:
        return int(t[i + 1:t.index("]", i)])
    except ValueError:
        return None


STREAM_T = ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::basic_stringstream",
            "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ostream", "std::basic_istream")
SEQ_C = ("std::vector", "std::deque", "std::list", "std::initializer_list", "std::array")
MAP_C = ("std::map", "std::unordered_map", "std::multimap")
SET_C = ("std::set", "std::unordered_set")


# ------------------------------------------------------------ pointers

def addr(root, path=()):
    return T("addr", root, path)


def field_ptr(p, f):
    return lift1(lambda q: _field_ptr(q, f), p)


def _field_ptr(p, f):
    p = as_addr(p)
    return T("addr", p.args[0], p.args[1] + (("f", f),))


def index_ptr(p, i):
    """element i of the array/container at p"""
    def g(q):
        q = as_addr(q)
        if i.op == "pos":
            return T("addr", q.args[0], q.args[1] + (("m", i.args[1]),))
        return T("addr", q.args[0], q.args[1] + (("i", i),))
    return lift1(g, p)


def as_addr(p):
    if p.op == "addr":
        return p
    if p.op == "iter":
        return index_ptr(p.args[0], p.args[1])
    return T("addr", ("mem", p), ())


def offset_ptr(p, n):
    """pointer arithmetic"""
    def g(q):
        if q.op == "iter":
            return T("iter", q.args[0], add(q.args[1], n))
        if q.op == "addr":
            root, path = q.args
            if path and path[-1][0] == "i":
                return T("addr", root, path[:-1] + (("i", add(path[-1][1], n)),))
            return T("addr", root, path + (("i", n),))
        if is_num(n) and n.args[0] == 0:
            return q
        return T("addr", ("mem", q), (("i", n),))
    return lift1(g, p)


# ------------------------------------------------------------ records

def rec(base, fields):
    fs = tuple(sorted(fields.items())) if isinstance(fields, dict) else fields
    if not fs:
        return base
    if len(fs) == 2 and fs[0][0] == "first" and fs[1][0] == "second":
        # every part of a pair is replaced; both parts of one pair are that pair
        x = fs[0][1]
        b = None
        if x.op == "fld":
            b = x.args[0]
        elif x.op == "in" and x.args[0][1]:
            b = T("in", (x.args[0][0], x.args[0][1][:-1]))
        if b is not None and x is sel(b, "first") and fs[1][1] is sel(b, "second"):
            return b
        return T("rec", UNDEF, fs)
    if base.op == "rec":
        d = dict(base.args[1])
        d.update(dict(fs))
        return T("rec", base.args[0], tuple(sorted(d.items())))
    # all fields are those of base
    if base.op != "undef" and all(v is sel(base, f) for f, v in fs):
        return base
    return T("rec", base, fs)


def mkpair(a, b):
    return rec(UNDEF, (("first", a), ("second", b)))


def sel(v, f):
    op = v.op
    if op == "rec":
        for n, x in v.args[1]:
            if n == f:
                return x
        return sel(v.args[0], f)
    if op == "ite":
        return ite_j(v.args[0], sel(v.args[1], f), sel(v.args[2], f))
    if op == "in":
        root, path = v.args[0]
        return T("in", (root, path + (("f", f),)))
    if op == "undef":
        return UNDEF
    return T("fld", v, f)


def ite_j(g, a, b):
    return join(g, a, b)


# ------------------------------------------------------------ sequences

EMPTYSEQ = T("seq")


def parts(v):
    if v.op == "seq":
        return v.args
    return (T("spread", v),)


def seq(ps):
    out = []
    for p in ps:
        if p.op == "spread" and p.args[0].op == "seq":
            out.extend(p.args[0].args)
        elif p.op == "opt":
            if p.args[0] is TRUE:
                out.extend(p.args[1])
            elif p.args[0] is FALSE or not p.args[1]:
                continue
            else:
                out.append(p)
        elif p.op == "comp" and (not p.args[2] or p.args[1] is ZERO):
            continue
        else:
            out.append(p)
    if len(out) == 1 and out[0].op == "spread":
        return out[0].args[0]
    return T("seq", *out)


def append(v, x):
    return seq(parts(v) + (T("item", x),))


def concat(v, w):
    return seq(parts(v) + parts(w))


def psize(p):
    if p.op == "item":
        return ONE
    if p.op == "spread":
        return size(p.args[0])
    if p.op == "opt":
        n = ZERO
        for q in p.args[1]:
            n = add(n, psize(q))
        return ite(p.args[0], n, ZERO)
    if p.op == "comp":
        k, n, body = p.args
        m = ZERO
        for q in body:
            m = add(m, psize(q))
        if not contains(m, lambda t: t is k):
            return mul(n, m)
        return mk_sum(k, n, m)
    if p.op == "fill":
        return p.args[0]
    return T("psize", p)


def mk_sum(k, n, body):
    if n is ZERO:
        return ZERO
    if not contains(body, lambda t: t is k):
        return mul(n, body)
    if is_num(n) and n.args[0] <= 4 and n.args[0] >= 0:
        r = ZERO
        for i in range(int(n.args[0])):
            r = add(r, subst(body, {k: num(i)}))
        return r
    # constant factors out of each monomial
    p = to_poly(body)
    r = ZERO
    for m, c in p.items():
        dep = tuple(x for x in m if contains(x, lambda t: t is k))
        ind = tuple(x for x in m if not contains(x, lambda t: t is k))
        x = from_poly({dep: Fraction(1)}) if dep else None
        y = from_poly({ind: c})
        r = add(r, mul(y, T("sum", k, n, x) if x is not None else n))
    return r


def size(v):
    if v.op == "seq":
        n = ZERO
        for p in v.args:
            n = add(n, psize(p))
        return n
    if v.op == "slice":
        return sub(v.args[2], v.args[1])
    if v.op == "ite":
        return ite(v.args[0], size(v.args[1]), size(v.args[2]))
    if v.op in ("upd", "tab", "sorted"):
        return size(v.args[0])
    if v.op in ("mempty",):
        return ZERO
    if v.op == "str":
        return num(len(v.args[0]))
    if v.op == "fill":
        return v.args[0]
    if v.op == "undef":
        return UNDEF
    return T("size", v)


def elt(v, i):
    op = v.op
    if op == "ite":
        return join(v.args[0], elt(v.args[1], i), elt(v.args[2], i))
    if i.op == "ite":
        return join(i.args[0], elt(v, i.args[1]), elt(v, i.args[2]))
    if op == "slice":
        return elt(v.args[0], add(v.args[1], i))
    if op == "upd":
        e = cmp_("==", v.args[1], i, True)
        if e is TRUE:
            return v.args[2]
        r = elt(v.args[0], i)
        if e is FALSE:
            return r
        return join(e, v.args[2], r)
    if op == "tab":
        base, k, n, idx, val = v.args
        off = sub(idx, k)
        if not contains(off, lambda t: t is k):
            j = sub(i, off)
            g = cmp_("<=", ZERO, j, True) & cmp_("<", j, n, True)
            x = subst(val, {k: j})
            if g is TRUE:
                return x
            r = elt(base, i)
            return join(g, x, r)
    if op == "seq":
        j = i
        for p in v.args:
            if p.op == "item":
                if j is ZERO:
                    return p.args[0]
                if is_num(j):
                    j = add(j, num(-1))
                    continue
                break
            if p.op == "comp" and p is v.args[-1] and len(p.args[2]) == 1 and p.args[2][0].op == "item" and \
                    (p is v.args[0] or not is_num(j)):
                if p is v.args[0]:
                    return subst(p.args[2][0].args[0], {p.args[0]: j})
            if p.op == "comp" and p is v.args[0] and len(p.args[2]) == 1 and p.args[2][0].op == "item":
                # j < n only when provable
                if terms.implies(TRUE, cmp_("<", j, p.args[1], True)):
                    return subst(p.args[2][0].args[0], {p.args[0]: j})
            break
    if op == "undef":
        return UNDEF
    if op == "fill":
        return v.args[1]
    return T("elt", v, i)


def upd(v, i, x):
    if v.op == "upd" and v.args[1] is i:
        return upd(v.args[0], i, x)
    if elt_quick(v, i) is x:
        return v
    if v.op == "seq" and is_num(i) and all(p.op == "item" for p in v.args):
        n = int(i.args[0])
        if 0 <= n < len(v.args):
            return T("seq", *(v.args[:n] + (T("item", x),) + v.args[n + 1:]))
    return T("upd", v, i, x)


def elt_quick(v, i):
    return T("elt", v, i) if v.op not in ("undef", "seq") else None


# ------------------------------------------------------------ maps

MEMPTY = T("mempty")


def has(m, k):
    """guard: key k is in m"""
    op = m.op
    if op == "mempty":
        return FALSE
    if op == "ite":
        return bite(m.args[0], has(m.args[1], k), has(m.args[2], k))
    if op == "mset":
        e = keq(m.args[1], k)
        return e | has(m.args[0], k)
    if op == "mdel":
        return ~keq(m.args[1], k) & has(m.args[0], k)
    if op == "sadd":
        return keq(m.args[1], k) | has(m.args[0], k)
    if op == "sdel":
        return ~keq(m.args[1], k) & has(m.args[0], k)
    if op == "seq":
        if not m.args:
            return FALSE
        if all(p.op == "item" for p in m.args):
            r = FALSE
            for p in m.args:
                r = r | keq(p.args[0], k)
            return r
    if m.op == "undef":
        return FALSE
    if k.op == "fld" and k.args[1] == "first" and k.args[0].op == "elt" and k.args[0].args[0] is m:
        return TRUE
    return atom(T("has", m, k))


def keq(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return FALSE
    if a.op == "poly" or b.op == "poly" or a.op == "num" or b.op == "num":
        return cmp_("==", a, b, True)
    return eq(a, b)


def mget(m, k):
    op = m.op
    if op == "ite":
        return join(m.args[0], mget(m.args[1], k), mget(m.args[2], k))
    if op == "mset":
        e = keq(m.args[1], k)
        if e is TRUE:
            return m.args[2]
        r = mget(m.args[0], k)
        return r if e is FALSE else join(e, m.args[2], r)
    if op == "mdel":
        return mget(m.args[0], k)
    if op == "mempty":
        return T("mdef")
    if k.op == "fld" and k.args[1] == "first" and k.args[0].op == "elt" and k.args[0].args[0] is m:
        return sel(k.args[0], "second")
    if op == "undef":
        return UNDEF
    return T("get", m, k)


def mset(m, k, v):
    if m.op == "ite":
        return join(m.args[0], mset(m.args[1], k, v), mset(m.args[2], k, v))
    if m.op == "mset" and m.args[1] is k:
        return mset(m.args[0], k, v)
    if has(m, k) is TRUE and mget(m, k) is v:
        return m
    return T("mset", m, k, v)


# ------------------------------------------------------------ generic access

def select(v, s):
    if s[0] == "f":
        return sel(v, s[1])
    if s[0] == "i":
        return elt(v, s[1])
    if s[0] == "m":
        return rec(UNDEF, (("first", s[1]), ("second", mget(v, s[1]))))
    raise AssertionError(s)


def update(v, path, x):
    if not path:
        return x
    s, rest = path[0], path[1:]
    if s[0] == "f":
        return rec(v, ((s[1], update(sel(v, s[1]), rest, x)),))
    if s[0] == "i":
        return upd(v, s[1], update(elt(v, s[1]), rest, x))
    if s[0] == "m":
        # path continues with 'second'
        if rest and rest[0] == ("f", "second"):
            return mset(v, s[1], update(mget(v, s[1]), rest[1:], x))
        if not rest:
            return mset(v, s[1], sel(x, "second"))
        return T("mbad", v)
    raise AssertionError(s)


# ------------------------------------------------------------ join

def join(g, a, b):
    if g is TRUE or a is b:
        return a
    if g is FALSE:
        return b
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if a.op == "rec" or b.op == "rec":
        ba = a.args[0] if a.op == "rec" else a
        bb = b.args[0] if b.op == "rec" else b
        if ba is bb or ba.op == "undef" or bb.op == "undef":
            base = bb if ba.op == "undef" else ba
            fs = set()
            for x in (a, b):
                if x.op == "rec":
                    fs |= {f for f, _ in x.args[1]}
            return rec(base, {f: join(g, sel(a, f), sel(b, f)) for f in fs})
    if a.op == "seq" or b.op == "seq":
        if a.op not in ("ite",) and b.op not in ("ite",):
            pa, pb = parts(a), parts(b)
            i = 0
            while i < min(len(pa), len(pb)) and pa[i] is pb[i]:
                i += 1
            if i or not pa or not pb:
                mid = ()
                if pa[i:]:
                    mid += (T("opt", g, pa[i:]),)
                if pb[i:]:
                    mid += (T("opt", ~g, pb[i:]),)
                return seq(pa[:i] + mid)
    if a.op == "cat" or b.op == "cat":
        pa = a.args if a.op == "cat" else (a,)
        pb = b.args if b.op == "cat" else (b,)
        i = 0
        while i < min(len(pa), len(pb)) and pa[i] is pb[i]:
            i += 1
        # common literal prefix of differing strings is left alone
        if i:
            return cat(*(pa[:i] + (ite(g, cat(*pa[i:]), cat(*pb[i:])),)))
    if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
        return T("iter", a.args[0], ite(g, a.args[1], b.args[1]))
    return ite(g, a, b)


# ------------------------------------------------------------ hooks

def _h_addr(root, path):
    if root[0] == "mem" and root[1].op in ("addr", "iter"):
        a = as_addr(root[1])
        return T("addr", a.args[0], a.args[1] + path)
    if root[0] == "mem" and root[1].op == "ite":
        g, x, y = root[1].args
        return ite(g, _h_addr(("mem", x), path), _h_addr(("mem", y), path))
    # positions turned into keys
    if any(s[0] == "i" and s[1].op == "pos" for s in path):
        path = tuple(("m", s[1].args[1]) if s[0] == "i" and s[1].op == "pos" else s for s in path)
    return T("addr", root, path)


def _h_in(loc):
    root, path = loc
    if root[0] == "mem" and root[1].op in ("addr", "iter"):
        a = as_addr(root[1])
        v = T("in", (a.args[0], ()))
        for s in a.args[1] + path:
            v = select(v, s)
        return v
    return T("in", loc)


HOOKS.update({
    "elt": elt, "fld": sel, "size": size, "get": mget, "upd": upd, "mset": mset,
    "rec": rec, "seq": lambda *p: seq(p), "addr": _h_addr, "in": _h_in,
    "has": lambda m, k: bterm(has(m, k)),
    "sum": lambda k, n, b: mk_sum(k, n, b),
    "idiv": lambda a, b: div(a, b, True), "mod": mod,
    "opt": lambda g, p: T("opt", g, p),
})


# ------------------------------------------------------------ canonical form

BINDERS = {"comp": 0, "sum": 0, "any": 0, "first": 0, "fold": 0, "tab": 1, "rep": 0, "trip": 0}


def canon(t):
    """Rename bound iteration variables by nesting height."""
    memo = {}

    def height(x):
        h = 0
        for y in subterms(x):
            if y.op == "bv":
                h = max(h, y.args[0] + 1)
        return h

    def copied(p):
        """the elements of a list one by one are the list"""
        if p.op == "comp" and len(p.args) == 3 and len(p.args[2]) == 1 and p.args[2][0].op == "item":
            k, n, x = p.args[0], p.args[1], p.args[2][0].args[0]
            if x.op == "elt" and x.args[1] is k and n is size(x.args[0]) and not contains(x.args[0], lambda y: y is k):
                return T("spread", x.args[0])
        return p

    def f(x):
        r = memo.get(x)
        if r is None:
            if x.op == "seq" and any(copied(p) is not p for p in x.args):
                memo[x] = f(seq([copied(p) for p in x.args]))
                return memo[x]
            r = rebuild(x, f)
            if r.op in BINDERS and isinstance(r.args[BINDERS[r.op]], T) and r.args[BINDERS[r.op]].op == "k":
                k = r.args[BINDERS[r.op]]
                h = height(r)
                r = subst(r, {k: T("bv", h)})
            if r.op == "addr" and not r.args[1] and r.args[0][0] == "mem":
                r = r.args[0][1]
            memo[x] = r
        return r
    if isinstance(t, B):
        return map_b(t, f)
    if isinstance(t, tuple):
        return map_arg(t, f)
    return f(t)


def deep(t, pc, memo=None):
    """t with every nested condition that pc decides resolved"""
    if memo is None:
        memo = {}
    key = (t, pc)
    r = memo.get(key)
    if r is not None:
        return r
    op = t.op
    if op == "ite":
        g = t.args[0]
        if not sat(pc & g):
            r = deep(t.args[2], pc, memo)
        elif not sat(pc & ~g):
            r = deep(t.args[1], pc, memo)
        else:
            r = join(restrict(g, pc), deep(t.args[1], pc & g, memo), deep(t.args[2], pc & ~g, memo))
    elif op == "b":
        r = T("b", restrict(t.args[0], pc))
    elif op == "opt":
        g, ps = t.args
        if not sat(pc & g):
            r = T("opt", FALSE, ())
        else:
            r = T("opt", restrict(g, pc), tuple(deep(p, pc & g, memo) for p in ps))
    elif op in ("comp", "rep", "sum") and isinstance(t.args[0], T) and t.args[0].op == "k" and len(t.args) == 3:
        k, n, body = t.args
        n2 = deep(n, pc, memo)
        pk = pc & cmp_("<=", ZERO, k, True) & cmp_("<", k, n, True)
        b2 = map_arg(body, lambda x: deep(x, pk, memo))
        r = HOOKS[op](k, n2, b2) if op in HOOKS else T(op, k, n2, b2)
    elif op in ("num", "str", "null", "undef", "bv", "k", "fn", "in", "addr"):
        r = t
    else:
        r = rebuild(t, lambda x: deep(x, pc, memo))
    memo[key] = r
    return r


def split_atom(*ts):
    """an atom of some nested condition of the terms that no loop variable occurs in"""
    best = None
    for t in ts:
        for x in subterms(t):
            if x.op in ("ite", "opt"):
                for v in support(x.args[0]):
                    a = terms.ATOMS[v]
                    if contains(a, lambda y: y.op in ("k", "bv")):
                        continue
                    if best is None or v < best:
                        best = v
    return best
