"""Meaning of the standard library (and other external) calls used by the code."""
import re
from terms import *
import terms
from values import *
import values

_names = {}


def split_name(fn):
    """'std::vector<float>::push_back' -> ('std::vector', 'push_back')"""
    r = _names.get(fn)
    if r is None:
        s, d = [], 0
        i = 0
        m = re.search(r"operator\S*$|operator bool$|operator \w+$", fn)
        cut = m.start() if m else len(fn)
        for ch in fn[:cut]:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                s.append(ch)
        t = "".join(s) + fn[cut:]
        if "::" in t:
            c, n = t.rsplit("::", 1)
        else:
            c, n = "", t
        r = _names[fn] = (c, n)
    return r


def targs(t):
    """template arguments of a type"""
    t = clean_t(t)
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def coerce(I, v, to, frm):
    """a scalar converted to the type it is kept in"""
    to, frm = clean_t(to), clean_t(frm)
    if to.startswith("const "):
        to = to[6:]
    if frm.startswith("const "):
        frm = frm[6:]
    if frm.startswith("std::pair<") and to.startswith("std::pair<") and frm != to:
        a, b = targs(to), targs(frm)
        x, y = sel(v, "first"), sel(v, "second")
        x2, y2 = coerce(I, x, a[0], b[0]), coerce(I, y, a[1], b[1])
        return v if x2 is x and y2 is y else mkpair(x2, y2)
    if to == frm or to not in I.WIDTH and to != "float":
        return v
    if to == "float":
        return I.f32(v) if frm in ("double", "long double") else v
    if to == "bool":
        return v
    if frm in ("float", "double", "long double"):
        return lift1(lambda x: num(int(x.args[0])) if x.op == "num" else T("trunc", x), v)
    if frm in I.WIDTH and frm != "bool":
        return I.int_cast(v, frm, to)
    return v


def base_t(t):
    t = clean_t(t)
    i = t.find("<")
    return t if i < 0 else t[:i]


def is_string_t(t):
    return base_t(t) in ("std::basic_string", "std::string", "std::__cxx11::basic_string")


def default_value(I, t):
    """Value of a default-initialised object of standard type t (None: not one)."""
    b = base_t(t)
    if b in ("std::vector", "std::deque", "std::list", "std::initializer_list"):
        return EMPTYSEQ
    if b in MAP_C or b in SET_C:
        return MEMPTY
    if is_string_t(t):
        return EMPTY
    if b in ("std::unique_ptr", "std::shared_ptr", "cv::Ptr", "std::function"):
        return NULL
    if b in STREAM_T:
        return rec(UNDEF, {"$out": EMPTY, "$prec": num(6), "$st": T("closed")})
    if b == "std::bitset":
        return T("fill", num(int(targs(t)[0])) if targs(t) and targs(t)[0].isdigit() else T("bits"), bterm(FALSE))
    if b == "std::pair":
        a = targs(t)
        if len(a) == 2:
            return mkpair(zero_of(I, a[0]), zero_of(I, a[1]))
    return None


def zero_of(I, t):
    if is_int_t(t) or is_flt_t(t):
        return ZERO
    if clean_t(t) == "bool":
        return bterm(FALSE)
    if is_ptr_t(t):
        return NULL
    v = default_value(I, t)
    if v is not None:
        return v
    if clean_t(t) in I.prog.records:
        return T("zeroed", clean_t(t))
    return T("zeroed", clean_t(t))


def moved_value(I, t):
    v = default_value(I, t)
    return v if v is not None else None


class Call:
    def __init__(self, I, e, st, fr):
        self.I, self.e, self.st, self.fr = I, e, st, fr
        self.a = e.get("a") or []
        self.pt = e.get("pt") or []
        self.line = e.get("l")

    def ev(self, i):
        """argument i: Ref or value"""
        return self.I.ev_any(self.a[i], self.st, self.fr)

    def val(self, i):
        r = self.ev(i)
        return self.take(r, i)

    def take(self, r, i):
        I, st = self.I, self.st
        if not is_ref(r):
            return r
        a = self.a[i]
        if is_arr_t(a.get("t")) and not is_ref_t(self.pt[i] if i < len(self.pt) else ""):
            v = I.read(st, r.p)
            if "char" in clean_t(a.get("t")):
                return v
            return index_ptr(r.p, ZERO)
        v = I.read(st, r.p)
        if r.moved:
            m = moved_value(I, a.get("t") or "")
            if m is not None:
                I.write(st, r.p, m)
        return v

    def vals(self):
        return [self.val(i) for i in range(len(self.a))]

    def ref(self, i):
        r = self.ev(i)
        return r.p if is_ref(r) else self.I.temp(self.st, r)

    def obj(self):
        return self.I.obj_ptr(self.e, self.st, self.fr)

    def t(self, i):
        return self.a[i].get("t") or ""


def is_ref(r):
    return type(r).__name__ == "Ref"


def mkref(I, p, moved=False):
    from interp import Ref
    return Ref(p, moved)


MUTATING = {"fill", "fill_n", "copy", "copy_n", "copy_if", "copy_backward", "transform", "generate", "generate_n", "rotate",
            "reverse", "swap_ranges", "partition", "stable_partition", "unique", "shuffle", "replace", "replace_if", "iota",
            "partial_sum", "adjacent_difference", "merge", "inplace_merge", "sort_heap", "make_heap", "push_heap", "pop_heap"}


def generic(I, e, st, fr, c=None, name=None):
    """An external call without a model: an effect with unknown results."""
    c = c or Call(I, e, st, fr)
    name = name or e.get("fn")
    op = None
    if e.get("obj") is not None:
        op = c.obj()
    vals, ptrs = I.eval_args(e, st, fr)
    if st.pc is FALSE:
        return UNDEF
    if name == "MPI_Allgatherv":
        vals = [I.read(st, whole_arr(v)) if n in (4, 5) and v.op == "addr" else v for n, v in enumerate(vals)]
    deep = []
    for v in vals:
        if v.op in ("addr", "iter"):
            deep.append(I.read(st, v))
        else:
            deep.append(v)
    ev = I.ev(st, "ext", name, op, vals, ptrs, c.line, key=e.get("key"), cls=e.get("cls"))
    if ev is None:
        return UNDEF
    ev.extra["deep"] = T("deep", *deep)
    res = T("res", name, ev.id, *I.ks)
    t = e.get("t") or ""
    if clean_t(t) in UNSIGNED_T:
        mark_nonneg(res)
    ev.res = res
    pts = e.get("pt") or []
    for n, v in enumerate(vals):
        pt = pts[n] if n < len(pts) else ""
        if ptrs[n] is not None and is_ref_t(pt) and "const" not in pt:
            I.write(st, ptrs[n], T("out", name, n, ev.id, *I.ks))
        elif v.op == "addr" and is_ptr_t(pt) and not pt.startswith("const ") and \
                (v.args[0][0] in ("var", "tmp", "glob") or (name or "").startswith("MPI_") and v.args[1]):
            I.write(st, v, T("out", name, n, ev.id, *I.ks))
    if (name or "").startswith("std::") and split_name(name)[1] in MUTATING:
        for v in vals:
            o = spots(v) if v.op in ("iter", "ite", "addr", "in", "fld") else None
            if o is not None:
                I.write(st, o[0], I.unknown(name))
    if e.get("nr"):
        st.pc = FALSE
    if clean_t(t) == "bool":
        return bterm(truth(res))
    if is_ref_t(t) and op is not None:
        return mkref(I, op)
    return res


# ------------------------------------------------------------ text

def text_of(v, t, prec=None):
    """what writing a value of type t to a stream prints"""
    t = clean_t(t)
    if t in ("char", "signed char", "unsigned char"):
        if is_num(v):
            return T("str", chr(int(v.args[0])))
        return lift1(lambda x: T("str", chr(int(x.args[0]))) if is_num(x) else T("chr", x), v)
    if t == "bool":
        return lift1(lambda x: T("str", str(x.args[0])) if is_num(x) else T("dec", x),
                     ite(truth(v), ONE, ZERO) if v.op == "b" else v)
    if is_int_t(t):
        return lift1(lambda x: T("str", str(x.args[0])) if is_num(x) else T("dec", x), v)
    if is_flt_t(t):
        return lift1(lambda x: T("flt", x, t, prec if prec is not None else num(6)), v)
    if t.startswith("enum "):
        return T("dec", v)
    if is_arr_t(t) or is_string_t(t) or "char" in t:
        return v
    if is_ptr_t(t):
        return T("ptrtext", v)
    return T("text", v, t)


def stream_of(I, st, p):
    return I.read(st, p)


def put(I, st, sp, text, line, raw=None, rt=None):
    v = I.read(st, sp)
    out = sel(v, "$out")
    if out.op == "undef":
        out = EMPTY
    I.write(st, field_ptr(sp, "$out"), cat(out, text))
    I.ev(st, "put", "<<", sp, [text], line=line, raw=raw, t=rt, path=sel(v, "$path"), mode=sel(v, "$mode"))


def insert(I, st, sp, v, t, line):
    """stream << v"""
    if v.op == "fn":
        n = v.args[0] or ""
        if n.startswith("std::endl"):
            put(I, st, sp, T("str", "\n"), line)
        elif n.startswith("std::flush"):
            pass
        elif n.split("(")[0] in ("std::fixed", "std::scientific", "std::defaultfloat"):
            I.write(st, field_ptr(sp, "$fmt"), T("manip", n.split("(")[0][5:]))
        else:
            I.note("manipulator " + n, line)
        return
    if v.op == "setprec":
        I.write(st, field_ptr(sp, "$prec"), v.args[0])
        return
    if v.op == "manip":
        I.write(st, field_ptr(sp, "$fmt"), T("manip", *v.args))
        return
    prec = sel(I.read(st, sp), "$prec")
    f = sel(I.read(st, sp), "$fmt")
    if f.op == "manip" and f.args[0] == "fixed":
        prec = T("decimals", prec)
    put(I, st, sp, text_of(v, t, prec), line, raw=v, rt=clean_t(t))


# ------------------------------------------------------------ construction

def map_from(v, b):
    m = MEMPTY
    if v.op == "seq" and all(p.op == "item" for p in v.args):
        for p in v.args:
            if b in SET_C:
                m = sadd(m, p.args[0])
            elif not terms.implies(TRUE, has(m, sel(p.args[0], "first"))):
                m = mset(m, sel(p.args[0], "first"), sel(p.args[0], "second"))
        return m
    return T("mapfrom", v)

def construct(I, e, st, fr):
    c = Call(I, e, st, fr)
    cls = e.get("cls") or ""
    t = e.get("t") or cls
    n = len(c.a)
    pt = c.pt
    b = base_t(cls)
    if b in ("std::basic_string", "std::string"):
        if n == 0:
            return EMPTY
        p0 = pt[0]
        if is_int_t(p0) and n >= 2:
            return T("repchar", c.val(0), c.val(1))
        if "iterator" in p0:
            x, y = c.val(0), c.val(1)
            if x.op == "isb":
                return T("filetext", x.args[0])
            return T("strrange", x, y)
        v = c.val(0)
        if n >= 2 and is_int_t(pt[1]):
            rest = [c.val(i) for i in range(1, n) if is_int_t(pt[i])]
            if len(rest) == 1 and "basic_string" not in p0:
                return T("strn", v, rest[0])
            return T("substr", v, *rest)
        return lift1(lambda x: x, v)
    if b in ("std::vector", "std::deque", "std::list", "std::initializer_list", "std::array"):
        if n == 0:
            return EMPTYSEQ
        p0 = pt[0]
        if base_t(p0) == b and is_ref_t(p0):
            r = c.ev(0)
            return c.take(r, 0)
        if "initializer_list" in p0 or base_t(p0) == "std::initializer_list":
            return c.val(0)
        if is_int_t(p0):
            k = c.val(0)
            et = targs(t)
            fillv = None
            if n >= 2 and "allocator" not in pt[1]:
                fillv = c.val(1)
            else:
                fillv = zero_of(I, et[0]) if et else ZERO
            if I.track:
                I.ev(st, "alloc", "vector", None, [k], line=c.line)
            return T("fill", k, fillv)
        if n >= 2:
            x, y = c.val(0), c.val(1)
            return rng(I, st, x, y)
        return c.val(0)
    if b in MAP_C or b in SET_C:
        if n == 0:
            return MEMPTY
        if base_t(pt[0]) == b:
            return c.val(0)
        return map_from(c.val(0), b)
    if b in ("std::unique_ptr", "std::shared_ptr", "cv::Ptr"):
        if n == 0:
            return NULL
        r = c.ev(0)
        if is_ref(r) and "unique_ptr" in (c.t(0) or ""):
            v = I.read(st, r.p)
            I.write(st, r.p, NULL)
            return v
        v = c.take(r, 0)
        if isinstance(v, T) and v.op == "addr" and v.args[0][0] == "heap":
            I.ev(st, "adopt", b, None, [v], line=c.line)
        return v
    if b == "std::pair":
        if n == 0:
            v = default_value(I, t)
            return v if v is not None else mkpair(UNDEF, UNDEF)
        ta = targs(t)
        if n == 1:
            return coerce(I, c.val(0), t, c.t(0)) if len(ta) == 2 else c.val(0)
        if n == 2:
            x, y = c.val(0), c.val(1)
            return mkpair(coerce(I, x, ta[0], c.t(0)), coerce(I, y, ta[1], c.t(1))) if len(ta) == 2 else mkpair(x, y)
    if b == "std::tuple":
        if n == 1 and base_t(pt[0]) == "std::tuple":
            return c.val(0)
        if n == 1 and base_t(pt[0]) == "std::pair":
            v = c.val(0)
            return rec(UNDEF, {"0": sel(v, "first"), "1": sel(v, "second")})
        ta = targs(t)
        vs = [c.val(i) for i in range(n)]
        if len(ta) == n:
            vs = [coerce(I, v, ta[i], c.t(i)) for i, v in enumerate(vs)]
        return rec(UNDEF, {str(i): v for i, v in enumerate(vs)})
    if b in STREAM_T:
        d = {"$out": EMPTY, "$prec": num(6), "$fmt": T("nofmt")}
        if n == 0 or "string" in b and "char" not in (pt[0] if pt else ""):
            for i in range(n):
                c.ev(i)
            d["$st"] = T("fresh")
            return rec(UNDEF, d)
        v = c.val(0)
        mode = [c.val(i) for i in range(1, n)]
        if "stringstream" in b:
            if "o" == b.split("_")[1][0]:
                d["$out"] = v
            d["$in"] = v
            d["$st"] = T("fresh")
            return rec(UNDEF, d)
        ev = I.ev(st, "open", b, None, [v], line=c.line, mode=mode[0] if mode else T("defmode", b))
        d["$st"] = T("opened", v, b)
        d["$path"] = v
        d["$mode"] = mode[0] if mode else T("defmode", b)
        return rec(UNDEF, d)
    if "iterator" in b:
        if b == "std::istreambuf_iterator":
            if n == 0:
                return T("isb_end")
            p = c.ref(0)
            return T("isb", sel(I.read(st, p), "$st"))
        return c.val(0) if n else T("iter0")
    if b == "std::uniform_int_distribution":
        if n == 0:
            return rec(UNDEF, {"$lo": ZERO, "$hi": T("intmax")})
        if n == 1:
            return rec(UNDEF, {"$lo": c.val(0), "$hi": T("intmax")}) if is_int_t(pt[0]) else c.val(0)
        return rec(UNDEF, {"$lo": c.val(0), "$hi": c.val(1)})
    if b in ("std::uniform_real_distribution", "std::normal_distribution"):
        return T("dist", b, *[c.val(i) for i in range(n)])
    if b == "std::discrete_distribution":
        if n == 2:
            return T("discrete", rng(I, st, c.val(0), c.val(1)))
        return T("discrete", *c.vals())
    if b == "std::bitset":
        if n == 0:
            return default_value(I, t)
        v = c.val(0)
        w = targs(t)
        if is_num(v) and v.args[0] == 0:
            return T("fill", num(int(w[0])) if w and w[0].isdigit() else T("bits"), bterm(FALSE))
        if w and w[0].isdigit() and int(w[0]) != 64:
            return T("bitsof", v, int(w[0]))
        return T("bitsof", v)
    if b in ("std::allocator", "std::hash", "std::less"):
        for i in range(n):
            c.ev(i)
        return T("obj0", b)
    if b in RANDOM_C and n <= 1 and not (e.get("copy") or e.get("move")):
        return T("gen", c.val(0) if n else ZERO, *I.ks)
    if b == "std::function":
        return c.val(0) if n else NULL
    if e.get("copy") or e.get("move"):
        return c.val(0)
    vals = [c.val(i) for i in range(n)]
    if not vals:
        v = default_value(I, t)
        if v is not None:
            return v
        return T("obj0", b) if b in ("std::random_device",) else UNDEF if b in ("stat", "timespec") else \
            T("objn", b, next(I.ev_n), *I.ks)
    return T("obj", b, 0, *vals)


def rng(I, st, x, y):
    """the elements of an iterator range as a sequence"""
    if x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
        v = I.read(st, x.args[0])
        if x.args[1] is ZERO and y.args[1] is size(v):
            return v
        return T("slice", v, x.args[1], y.args[1])
    if x.op == "addr" and y.op == "addr" and x.args[0] == y.args[0] and x.args[1] and y.args[1] and \
            x.args[1][:-1] == y.args[1][:-1] and x.args[1][-1][0] == "i" == y.args[1][-1][0]:
        v = I.read(st, T("addr", x.args[0], x.args[1][:-1]))
        return T("slice", v, x.args[1][-1][1], y.args[1][-1][1])
    if x.op == "riter" and y.op == "riter" and x.args[0] is y.args[0] and y.args[1] is ZERO:
        v = I.read(st, x.args[0])
        k = T("k", next(I.ev_n), "r")
        if x.args[1] is size(v):
            return seq((T("comp", k, size(v), (T("item", elt(v, sub(sub(size(v), ONE), k))),)),))
    if x.op == "isb":
        return T("filetext", x.args[0])
    if y.op == "addr" and len(y.args[1]) == 1 and y.args[1][0][0] == "i" and y.args[0] == ("mem", x):
        return T("slice", I.read(st, T("addr", y.args[0], ())), ZERO, y.args[1][0][1])
    return T("range", x, y)


def sadd(m, k):
    if has(m, k) is TRUE:
        return m
    return T("sadd", m, k)


# ------------------------------------------------------------ calls

RANDOM_C = ("std::mersenne_twister_engine", "std::linear_congruential_engine")
ITER_C = ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
          "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::_Deque_iterator",
          "std::_List_iterator", "std::_List_const_iterator", "std::__detail::_Node_iterator_base",
          "std::__detail::_Node_const_iterator_base", "std::istreambuf_iterator", "std::reverse_iterator")
STR_C = ("std::basic_string", "std::string")
IOS_C = ("std::basic_ios", "std::ios_base", "std::basic_istream", "std::basic_ostream") + STREAM_T


def call(I, e, st, fr):
    fn = e.get("fn") or ""
    cname, m = split_name(fn)
    cls = base_t(e.get("cls") or cname)
    c = Call(I, e, st, fr)
    op = e.get("op")
    if e.get("obj") is not None or (op and cls in ITER_C):
        pass
    f = None
    ot = base_t((e.get("obj") or {}).get("t") or "")
    if cls in ITER_C:
        return iter_method(c, m, op)
    if cls in ("std::unique_ptr", "std::shared_ptr", "cv::Ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
        return uptr_method(c, m, op)
    if cls in ("std::vector", "std::deque", "std::list", "std::array", "std::initializer_list"):
        return seq_method(c, m, op, cls)
    if cls in MAP_C:
        return map_method(c, m, op)
    if cls in SET_C:
        return set_method(c, m, op)
    if cls in STR_C:
        return str_method(c, m, op)
    if cls in IOS_C and e.get("obj") is not None:
        return ios_method(c, m, op)
    if cls == "std::bitset" or cls.startswith("std::bitset"):
        return bitset_method(c, m, op)
    if cls in ("std::pair", "std::tuple"):
        if m == "operator=":
            p = c.obj()
            if cls == "std::tuple":
                v = c.val(0)
                t = I.read(st, p)
                if t.op == "tie":
                    for i, q in enumerate(t.args):
                        I.write(st, q, sel(v, str(i)))
                    return mkref(I, p)
            else:
                v = c.val(0)
            I.write(st, p, v)
            return mkref(I, p)
        if m == "swap":
            return swap(c, c.obj(), c.ref(0))
    if cls in ("std::uniform_int_distribution", "std::uniform_real_distribution", "std::normal_distribution",
               "std::discrete_distribution", "std::bernoulli_distribution"):
        if m == "operator()" or m == "operator ()":
            d = I.read(st, c.obj())
            ks, g, gp = I.ks, UNDEF, None
            for i in range(len(c.a)):
                r = c.ev(i)
                if i == 0:
                    g = I.read(st, r.p) if is_ref(r) else UNDEF
                    gp = r.p if is_ref(r) else None
                    if g.op == "gen" and is_num(g.args[0]):     # seeded alike in every iteration of these loops
                        ks = [k for k in ks if k not in g.args[1:]]
            ev = I.ev(st, "draw", cls, None, [d, g], line=c.line)
            if ev is not None and gp is not None and gp.op == "addr":
                ev.extra["gen"] = gp
            i = ev.id if ev else 0
            if cls == "std::uniform_int_distribution":
                r = T("draw", sel(d, "$lo"), sel(d, "$hi"), i, *ks)
                if nonneg(sel(d, "$lo")):
                    mark_nonneg(r)
                return r
            if cls == "std::discrete_distribution":
                r = T("draw", ZERO, sub(size(d.args[0]), ONE) if d.op == "discrete" else T("unk", "n"), i, *ks)
                mark_nonneg(r)
                return r
            return T("drawreal", cls, d, i, *ks)
        if m == "operator=":
            p = c.obj()
            I.write(st, p, c.val(0))
            return mkref(I, p)
        if m in ("a", "min"):
            return sel(I.read(st, c.obj()), "$lo")
        if m in ("b", "max"):
            return sel(I.read(st, c.obj()), "$hi")
    if cls in ("std::mersenne_twister_engine", "std::random_device", "std::linear_congruential_engine"):
        if m == "operator=":
            p = c.obj()
            v = c.val(0)
            I.write(st, p, v)
            return mkref(I, p)
        if m == "seed" and len(c.a) <= 1:
            p = c.obj()
            I.write(st, p, T("gen", c.val(0) if c.a else ZERO, *I.ks))
            return UNDEF
        c.obj()
        for i in range(len(c.a)):
            c.ev(i)
        return T("rand", next(I.ev_n), *I.ks)
    if m == "operator=" and e.get("obj") is not None and len(c.a) == 1:
        p = c.obj()
        I.write(st, p, c.val(0))
        return mkref(I, p)
    # free operators
    if op and e.get("obj") is None:
        r = free_op(c, op)
        if r is not None:
            return r
    short = m
    if cname.startswith(("std", "__gnu_cxx")) or cname == "":
        h = FREE.get(short)
        if h:
            return h(c)
    return generic(I, e, st, fr, c)


def free_op(c, op):
    I, st = c.I, c.st
    n = len(c.a)
    t0 = c.t(0)
    if op == "<<" and n == 2:
        if base_t(t0) in IOS_C or "stream" in t0:
            sp = c.ref(0)
            insert(I, st, sp, c.val(1), c.t(1), c.line)
            return mkref(I, sp)
        return None
    if op == ">>" and n == 2 and ("stream" in t0):
        sp = c.ref(0)
        r = c.ev(1)
        return extract(c, sp, r, c.t(1))
    if op == "+" and n == 2 and (is_string_t(c.e.get("t")) or is_string_t(t0) or is_string_t(c.t(1))):
        a, b = c.val(0), c.val(1)
        return lift2(cat, text_of(a, t0), text_of(b, c.t(1)))
    if op in ("==", "!=", "<", "<=", ">", ">=") and n == 2:
        a, b = c.val(0), c.val(1)
        if op in (">", ">="):
            a, b = b, a
            op = {">": "<", ">=": "<="}[op]
        return bterm(I.cmp_vals(op, a, b))
    if op in ("+", "-") and n == 2:
        a, b = c.val(0), c.val(1)
        if a.op == "iter" and b.op == "iter":
            return I.ptr_diff(a, b)
        if b.op == "iter":
            a, b = b, a
        if a.op in ("iter", "addr"):
            return offset_ptr(a, b if op == "+" else scale(b, -1))
        return T("opx", op, a, b)
    if op == "/" and n == 2:
        return T("opx", op, c.val(0), c.val(1))
    if op == "->" or op == "*":
        return None
    return None


def iter_method(c, m, op):
    I, st = c.I, c.st
    e = c.e
    if e.get("obj") is not None:
        r = I.ev_any(e["obj"], st, c.fr)
        p = r.p if is_ref(r) else None
        v = I.read(st, p) if p is not None else r
        rest = 0
    else:
        r = c.ev(0)
        p = r.p if is_ref(r) else None
        v = I.read(st, p) if p is not None else r
        rest = 1
    n = len(c.a) - rest
    if op == "->" or m == "operator->":
        return lift1(as_addr, v)
    if op == "*" or m == "operator*":
        if v.op in ("isb",):
            return T("isbchar", v)
        if v.op == "iter" and v.args[1].op == "pos" and "set<" in (e["obj"].get("t") if e.get("obj") else ""):
            return v.args[1].args[1]
        return mkref(I, lift1(as_addr, v))
    if op in ("++", "--"):
        d = num(1 if op == "++" else -1)
        if v.op in ("isb",):
            new = T("isb", T("after", v.args[0], next(I.ev_n)))
        else:
            new = lift1(lambda x: offset_ptr(x, d), v)
        if p is not None:
            I.write(st, p, new)
        if n >= 1:
            return v
        return mkref(I, p) if p is not None else new
    if op == "=":
        x = c.val(rest)
        if p is not None:
            I.write(st, p, x)
            return mkref(I, p)
        return x
    if op in ("==", "!=", "<", "<=", ">", ">="):
        x = c.val(rest)
        a, b, o = v, x, op
        if o in (">", ">="):
            a, b = b, a
            o = {">": "<", ">=": "<="}[o]
        return bterm(I.cmp_vals(o, a, b))
    if op in ("+", "-"):
        x = c.val(rest)
        if x.op in ("iter", "addr"):
            return I.ptr_diff(v, x)
        return lift1(lambda y: offset_ptr(y, x if op == "+" else scale(x, -1)), v)
    if op in ("+=", "-="):
        x = c.val(rest)
        new = lift1(lambda y: offset_ptr(y, x if op == "+=" else scale(x, -1)), v)
        if p is not None:
            I.write(st, p, new)
        return mkref(I, p)
    if op == "[]":
        x = c.val(rest)
        return mkref(I, lift1(lambda y: as_addr(offset_ptr(y, x)), v))
    if m == "base":
        return v
    return generic(I, e, st, c.fr, c)


def uptr_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    r = I.ev_any(e["obj"], st, c.fr)
    p = r.p if is_ref(r) else I.temp(st, r)
    v = I.read(st, p)
    if op == "->" or m in ("get", "operator->"):
        return v
    if op == "*" or m == "operator*":
        return mkref(I, lift1(as_addr, v) if v.op not in ("null", "undef") else v)
    if m == "operator bool":
        return bterm(~eq(v, NULL))
    if m == "operator!":
        return bterm(eq(v, NULL))
    if m == "release":
        I.write(st, p, NULL)
        return v
    if m in ("operator=", "reset"):
        x = NULL
        if c.a:
            rr = c.ev(0)
            if is_ref(rr):
                x = I.read(st, rr.p)
                if "unique_ptr" in (c.t(0) or "") or rr.moved:
                    I.write(st, rr.p, NULL)
            else:
                x = rr
        I.ev(st, "own", m, p, [v, x], line=c.line, t=(e["obj"].get("t") or ""))
        I.write(st, p, x)
        return mkref(I, p) if m == "operator=" else UNDEF
    if m == "swap":
        return swap(c, p, c.ref(0))
    return generic(I, e, st, c.fr, c)


def swap(c, p, q):
    I, st = c.I, c.st
    a, b = I.read(st, p), I.read(st, q)
    I.write(st, p, b)
    I.write(st, q, a)
    return UNDEF


def idx_of(x):
    return x.args[1] if x.op == "iter" else T("unkidx", x)


def seq_method(c, m, op, cls):
    I, st, e = c.I, c.st, c.e
    p = c.obj()
    v = I.read(st, p)
    n = len(c.a)
    if m == "size":
        return size(v)
    if m == "empty":
        return bterm(cmp_("==", size(v), ZERO, True))
    if m == "begin" or m == "cbegin":
        return T("iter", p, ZERO)
    if m == "end" or m == "cend":
        return T("iter", p, size(v))
    if m in ("rbegin", "crbegin"):
        return T("riter", p, size(v))
    if m in ("rend", "crend"):
        return T("riter", p, ZERO)
    if m == "data":
        return index_ptr(p, ZERO)
    if m in ("operator[]", "at"):
        i = c.val(0)
        if I.track:
            I.ev(st, "access", "[]", p, [i, size(v)], line=c.line, t=cls)
        return mkref(I, index_ptr(p, i))
    if m == "front":
        return mkref(I, index_ptr(p, ZERO))
    if m == "back":
        return mkref(I, index_ptr(p, sub(size(v), ONE)))
    if m == "clear":
        I.write(st, p, EMPTYSEQ)
        return UNDEF
    if m in ("push_back",):
        x = c.val(0)
        I.write(st, p, append(I.read(st, p), x))
        return UNDEF
    if m == "emplace_back":
        x = emplace_value(c, elem_t(e))
        I.write(st, p, append(I.read(st, p), x))
        v = I.read(st, p)
        return mkref(I, index_ptr(p, sub(size(v), ONE)))
    if m in ("push_front", "emplace_front"):
        x = c.val(0) if m == "push_front" else emplace_value(c, elem_t(e))
        I.write(st, p, seq((T("item", x),) + parts(I.read(st, p))))
        return UNDEF
    if m == "pop_front":
        if v.op == "seq" and v.args and v.args[0].op == "item":
            I.write(st, p, seq(v.args[1:]))
        else:
            I.write(st, p, T("tail", v))
        return UNDEF
    if m == "pop_back":
        if v.op == "seq" and v.args and v.args[-1].op == "item":
            I.write(st, p, seq(v.args[:-1]))
        else:
            I.write(st, p, T("butlast", v))
        return UNDEF
    if m in ("reserve", "shrink_to_fit"):
        for i in range(n):
            c.ev(i)
        return UNDEF
    if m == "capacity":
        return T("capacity", v)
    if m == "resize":
        k = c.val(0)
        d = c.val(1) if n > 1 else zero_of(I, elem_t(e))
        if v.op == "seq" and not v.args or v.op == "undef":
            I.write(st, p, T("fill", k, d) if k is not ZERO else EMPTYSEQ)
        elif k is ZERO:
            I.write(st, p, EMPTYSEQ)
        else:
            I.write(st, p, T("resized", v, k, d))
        return UNDEF
    if m == "assign":
        if n == 2 and is_int_t(c.pt[0]):
            k, d = c.val(0), c.val(1)
            I.write(st, p, T("fill", k, d))
        elif n == 2:
            x, y = c.val(0), c.val(1)
            I.write(st, p, rng(I, st, x, y))
        else:
            I.write(st, p, c.val(0))
        return UNDEF
    if m == "operator=":
        x = c.val(0)
        I.write(st, p, x)
        return mkref(I, p)
    if m == "swap":
        return swap(c, p, c.ref(0))
    if m == "erase":
        x = c.val(0)
        y = c.val(1) if n > 1 else None
        v = I.read(st, p)
        if y is not None and x.op == "iter" and y.op == "iter" and v.op == "seq":
            # prefix kept by remove_if / remove
            pre = []
            for q in v.args:
                if q.op == "spread" and q.args[0].op == "stale":
                    break
                pre.append(q)
            pv = seq(tuple(pre))
            if len(pre) < len(v.args) and x.args[1] is size(pv) and y.args[1] is size(v):
                I.write(st, p, pv)
                return T("iter", p, size(pv))
        if y is not None and x.op == "iter" and x.args[1] is ZERO and y.op == "iter" and y.args[1] is size(v):
            I.write(st, p, EMPTYSEQ)
            return T("iter", p, ZERO)
        if y is None and x.op == "iter" and I.erasing and I.erasing[-1][0] is p and I.erasing[-1][1] is x.args[1]:
            I.write(st, I.erasing[-1][2], bterm(TRUE))
            return x
        if y is None and x.op == "iter":
            if x.args[1] is ZERO and v.op == "seq" and v.args and v.args[0].op == "item":
                I.write(st, p, seq(v.args[1:]))
            elif x.args[1] is ZERO:
                I.write(st, p, T("tail", v))
            else:
                I.write(st, p, T("erased", v, x.args[1]))
            return x
        I.write(st, p, T("erased", v, idx_of(x), idx_of(y) if y is not None else T("none")))
        return x
    if m in ("insert", "emplace"):
        x = c.val(0)
        if n == 3:
            a, b = c.val(1), c.val(2)
            if is_int_t(c.t(1)):
                w = T("fill", a, b)
            else:
                w = rng(I, st, a, b)
        else:
            w = T("seq", T("item", c.val(1)))
        v = I.read(st, p)
        if x.op == "iter" and x.args[1] is size(v):
            I.write(st, p, concat(v, w))
        elif x.op == "iter" and x.args[1] is ZERO:
            I.write(st, p, concat(w, v))
        else:
            I.write(st, p, T("inserted", v, idx_of(x), w))
        return x
    return generic(I, e, st, c.fr, c)


def elem_t(e):
    t = (e.get("obj") or {}).get("t") or ""
    if is_ptr_t(t):
        t = clean_t(t).rstrip("* ")
    a = targs(t)
    return a[0] if a else ""


def emplace_value(c, t, start=0):
    """value constructed in place from the arguments"""
    I = c.I
    n = len(c.a) - start
    ct = clean_t(t)
    b = base_t(t)
    args = [c.val(i) for i in range(start, len(c.a))]
    if n == len(targs(t)) and b in ("std::pair", "std::tuple"):
        args = [coerce(I, v, targs(t)[i], c.t(start + i)) for i, v in enumerate(args)]
    if b == "std::pair" and n == 2:
        return mkpair(*args)
    if b in ("std::set", "std::unordered_set") and n == 2 and args[0].op == args[1].op == "iter":
        return T("setof", rng(I, c.st, args[0], args[1]))
    if b == "std::tuple" and not (n == 1 and base_t(c.t(start)) == "std::tuple"):
        return rec(UNDEF, {str(i): a for i, a in enumerate(args)})
    if n == 1:
        return coerce(I, args[0], t, c.t(start))
    if n == 0:
        return zero_of(I, t)
    if ct in I.prog.records:
        p = heap_object(c, ct, args, temp=True, start=start)
        return I.read(c.st, p)
    return T("obj", b, 0, *args)


def heap_object(c, cls, args, temp=False, start=0, refs=None):
    """construct an object of class cls"""
    I, st = c.I, c.st
    if temp:
        p = addr(("tmp", next(I.tmp_n)))
    else:
        p = addr(("heap", next(I.ev_n)) + tuple(I.ks))
    I.write(st, p, UNDEF)
    short = cls.split("::")[-1]
    cands = [f for f in I.prog.by_qn.get(cls + "::" + short, []) if f.get("ctor") and len(f["p"]) == len(args)]
    if len(cands) > 1:
        good = [f for f in cands if all(compatible(pr["t"], c.t(start + i)) for i, pr in enumerate(f["p"]))]
        cands = good or cands
    if not cands:
        cands = [f for f in I.prog.by_qn.get(cls + "::" + short, []) if f.get("ctor") and len(f["p"]) > len(args)]
    f = cands[0] if len(cands) == 1 else None
    if f is not None and cls not in I.opaque and f["qn"] not in I.opaque and f["key"] not in I.stack:
        aa = []
        for i, prm in enumerate(f["p"]):
            if i < len(args):
                if is_ref_t(prm["t"]) and refs and refs[i] is not None:
                    aa.append(mkref(I, refs[i]))
                else:
                    aa.append(args[i])
        I.call_fn(st, f, p, aa, c.line, None)
    elif f is None and not args and cls in I.prog.records and not cands and cls not in I.opaque:
        I.default_init(cls, st, c.fr, p)
    else:
        e2 = I.ev(st, "ctor", cls, p, args, [], c.line, cls=cls)
        I.write(st, p, T("obj", cls, e2.id if e2 else 0, *(list(args) + list(I.ks))))
    return p


def compatible(pt, at):
    def kind(t):
        t2 = clean_t(t)
        if is_int_t(t2):
            return "n"
        if is_flt_t(t2):
            return "n"
        if t2 == "bool":
            return "n"
        if is_string_t(t2) or "char" in t2:
            return "s"
        return base_t(t2)
    return kind(pt) == kind(at)


KEEPING = {"lower_bound", "upper_bound", "equal_range", "max_size", "capacity", "get_allocator", "key_comp", "value_comp", "bucket_count",
           "load_factor", "rbegin", "rend", "crbegin", "crend", "begin", "end", "cbegin", "cend", "at", "data", "c_str", "front", "back",
           "count", "find", "contains", "size", "empty", "length", "compare", "substr", "operator[]", "hash_function", "key_eq",
           "bucket", "max_load_factor", "rfind", "starts_with", "ends_with", "copy", "shrink_to_fit"}


def other(c, m, p):
    """a method of a container without a model: unless it is known to keep the contents they are unknown afterwards"""
    r = generic(c.I, c.e, c.st, c.fr, c)
    if m not in KEEPING and c.st.pc is not FALSE and p is not None:
        c.I.write(c.st, p, c.I.unknown(m))
    elif m in ("lower_bound", "upper_bound"):
        return T("iter", p, T("unk", m, next(c.I.ev_n), *c.I.ks))
    return r


def map_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    p = c.obj()
    v = I.read(st, p)
    n = len(c.a)
    ot = (e.get("obj") or {}).get("t") or ""
    ta = targs(clean_t(ot).rstrip("* ") if is_ptr_t(ot) else ot)
    vt = ta[1] if len(ta) > 1 else ""
    if m == "size":
        return size(v)
    if m == "empty":
        return bterm(cmp_("==", size(v), ZERO, True))
    if m in ("begin", "cbegin"):
        return T("iter", p, ZERO)
    if m in ("end", "cend"):
        return T("iter", p, size(v))
    if m == "find":
        k = c.val(0)
        return T("iter", p, T("pos", v, k))
    if m == "lower_bound" and n == 1 and len(ta) == 2:
        k = c.val(0)
        return ite(has(v, k), T("iter", p, T("pos", v, k)), T("iter", p, T("lb", v, k)))
    if m in ("count", "contains"):
        g = has(v, c.val(0))
        return ite(g, ONE, ZERO) if m == "count" else bterm(g)
    if m == "clear":
        I.write(st, p, MEMPTY)
        return UNDEF
    if m == "at":
        k = c.val(0)
        if I.track:
            I.ev(st, "mapat", "at", p, [k], line=c.line)
        return mkref(I, field_ptr(index_ptr(p, T("pos", v, k)), "second"))
    if m == "operator[]":
        k = c.val(0)
        v = I.read(st, p)
        g = has(v, k)
        if g is not TRUE and not implies(st.pc, g):
            z = zero_of(I, vt)
            I.write(st, p, mset(v, k, join(g, mget(v, k), z)))
        return mkref(I, field_ptr(index_ptr(p, T("pos", v, k)), "second"))
    if m == "emplace_hint" and n == 3:
        c.val(0)
        k = c.val(1)
        x = emplace_value(c, vt, 2)
        v = I.read(st, p)
        g = has(v, k)
        I.write(st, p, v if g is TRUE or implies(st.pc, g) else mset(v, k, join(g, mget(v, k), x)))
        return T("iter", p, T("pos", v, k))
    if m in ("insert", "emplace", "try_emplace"):
        if m == "insert" and n == 2 and "iterator" in c.pt[0] and c.t(0) == c.t(1):
            x, y = c.val(0), c.val(1)
            w = rng(I, st, x, y)
            v = I.read(st, p)
            I.write(st, p, w if v is MEMPTY else T("mmerge", v, w))
            return UNDEF
        if m == "insert" and n == 2 and "iterator" in c.pt[0]:
            c.val(0)
            kv = c.val(1)
            k, x = sel(kv, "first"), sel(kv, "second")
        elif n == 1:
            kv = c.val(0)
            if kv.op == "seq" and all(q.op == "item" for q in kv.args):
                for q in kv.args:
                    kk = sel(q.args[0], "first")
                    cur = I.read(st, p)
                    I.write(st, p, mset(cur, kk, join(has(cur, kk), mget(cur, kk), sel(q.args[0], "second"))))
                return UNDEF
            k, x = sel(kv, "first"), sel(kv, "second")
        else:
            k = c.val(0)
            x = emplace_value(c, vt, 1)
        v = I.read(st, p)
        g = has(v, k)
        I.write(st, p, v if g is TRUE or implies(st.pc, g) else mset(v, k, join(g, mget(v, k), x)))
        return mkpair(T("iter", p, T("pos", v, k)), bterm(~g))
    if m == "insert_or_assign":
        k, x = c.val(0), c.val(1)
        v = I.read(st, p)
        g = has(v, k)
        I.write(st, p, mset(v, k, x))
        return mkpair(T("iter", p, T("pos", v, k)), bterm(~g))
    if m == "erase":
        x = c.val(0)
        if x.op == "iter":
            if x.args[1].op == "pos":
                k = x.args[1].args[1]
                I.write(st, p, mdel(v, k))
            elif n == 2:
                y = c.val(1)
                if x.args[1] is ZERO and y.op == "iter" and y.args[1] is size(v):
                    I.write(st, p, MEMPTY)
                elif y.op == "iter":
                    I.write(st, p, T("mcut", v, x.args[1], y.args[1]))
                else:
                    I.write(st, p, T("erased", v, x, y))
            else:
                k = sel(elt(v, x.args[1]), "first")
                I.write(st, p, mdel(v, k))
            return x
        I.write(st, p, mdel(v, x))
        return ite(has(v, x), ONE, ZERO)
    if m == "operator=":
        x = c.val(0)
        I.write(st, p, map_from(x, "std::map") if c.pt and "initializer_list" in c.pt[0] else x)
        return mkref(I, p)
    if m == "swap":
        return swap(c, p, c.ref(0))
    if m in ("reserve", "rehash"):
        c.ev(0)
        return UNDEF
    return other(c, m, p)


def mdel(m, k):
    return T("mdel", m, k)


def set_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    p = c.obj()
    v = I.read(st, p)
    n = len(c.a)
    if m == "size":
        return size(v)
    if m == "empty":
        return bterm(cmp_("==", size(v), ZERO, True))
    if m in ("begin", "cbegin"):
        return T("iter", p, ZERO)
    if m in ("end", "cend"):
        return T("iter", p, size(v))
    if m == "find":
        return T("iter", p, T("pos", v, c.val(0)))
    if m in ("count", "contains"):
        g = has(v, c.val(0))
        return ite(g, ONE, ZERO) if m == "count" else bterm(g)
    if m == "clear":
        I.write(st, p, MEMPTY)
        return UNDEF
    if m in ("insert", "emplace"):
        k = c.val(0)
        if n == 2 and "iterator" in c.pt[0]:
            if k.op == "iter" and c.t(0) == c.t(1):
                w = rng(I, st, k, c.val(1))
                v = I.read(st, p)
                I.write(st, p, T("setof", w) if v is MEMPTY else T("sunion", v, w))
                return UNDEF
            k = c.val(1)
        v = I.read(st, p)
        I.write(st, p, sadd(v, k))
        return mkpair(T("iter", p, T("pos", v, k)), bterm(~has(v, k)))
    if m == "erase":
        x = c.val(0)
        if x.op == "iter":
            x = x.args[1].args[1] if x.args[1].op == "pos" else elt(v, x.args[1])
        I.write(st, p, T("sdel", v, x))
        return ite(has(v, x), ONE, ZERO)
    if m == "operator=":
        x = c.val(0)
        I.write(st, p, map_from(x, "std::set") if c.pt and "initializer_list" in c.pt[0] else x)
        return mkref(I, p)
    return other(c, m, p)


def const_s(v):
    return v.args[0] if v.op == "str" else None


def str_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    p = c.obj()
    v = I.read(st, p)
    n = len(c.a)
    if m in ("c_str", "data", "operator basic_string_view", "str"):
        return v
    if m in ("size", "length"):
        return size(v)
    if m == "empty":
        return bterm(eq(v, EMPTY))
    if m == "operator=" or m == "assign":
        x = text_of(c.val(0), c.t(0)) if n else EMPTY
        I.write(st, p, x)
        return mkref(I, p)
    if m in ("operator+=", "append", "push_back"):
        if n == 1:
            x = text_of(c.val(0), c.t(0))
        elif n == 2 and is_int_t(c.pt[0]):
            x = T("repchar", c.val(0), c.val(1))
        else:
            x = T("substr", *[c.val(i) for i in range(n)])
        v = I.read(st, p)
        I.write(st, p, lift2(cat, v, x) if v.op == "ite" and len(cases(v)) > 4 else cat(v, x))
        return mkref(I, p)
    if m == "clear":
        I.write(st, p, EMPTY)
        return UNDEF
    if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        xs = [text_of(c.val(0), c.t(0))] + [c.val(i) for i in range(1, n)]
        if m == "find" and len(xs) == 2 and xs[1] is ZERO:
            xs = xs[:1]
        if m == "rfind" and len(xs) == 2 and is_num(xs[1]) and xs[1].args[0] >= 1 << 60:
            xs = xs[:1]
        if v.op == "str" and xs[0].op == "str" and len(xs) == 1:
            r = {"find": v.args[0].find, "rfind": v.args[0].rfind}.get(m)
            if r:
                j = r(xs[0].args[0])
                return num(j if j >= 0 else (1 << 64) - 1)
        r = T(m, v, *xs)
        mark_nonneg(r)
        return r
    if m == "substr":
        xs = [c.val(i) for i in range(n)]
        if len(xs) == 2 and is_num(xs[1]) and xs[1].args[0] >= 1 << 60:
            xs = xs[:1]
        if v.op == "str" and all(is_num(x) for x in xs):
            a = int(xs[0].args[0]) if xs else 0
            return T("str", v.args[0][a:] if len(xs) < 2 else v.args[0][a:a + int(xs[1].args[0])])
        return T("substr", v, *xs)
    if m == "compare":
        xs = [c.val(i) for i in range(n)]
        if n == 1:
            return ite(eq(v, xs[0]), ZERO, ONE)
        return ite(eq(T("substr", v, *xs[:2]), xs[-1] if n == 3 else T("substr", *xs[2:])), ZERO, ONE)
    if m in ("operator[]", "at"):
        i = c.val(0)
        return T("charat", v, i)
    if m == "back":
        return T("charat", v, sub(size(v), ONE))
    if m == "front":
        return T("charat", v, ZERO)
    if m in ("begin", "cbegin"):
        return T("iter", p, ZERO)
    if m in ("end", "cend"):
        return T("iter", p, size(v))
    if m == "replace":
        I.write(st, p, T("replace", v, *[c.val(i) for i in range(n)]))
        return mkref(I, p)
    if m == "erase":
        I.write(st, p, T("serase", v, *[c.val(i) for i in range(n)]))
        return mkref(I, p)
    if m == "pop_back":
        I.write(st, p, T("substr", v, ZERO, sub(size(v), ONE)))
        return UNDEF
    if m == "reserve":
        c.ev(0)
        return UNDEF
    if m == "swap":
        return swap(c, p, c.ref(0))
    return other(c, m, p)


def ios_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    p = c.obj()
    v = I.read(st, p)
    n = len(c.a)
    fs = field_ptr(p, "$st")
    if op == "<<" and n == 1:
        insert(I, st, p, c.val(0), c.t(0), c.line)
        return mkref(I, p)
    if op == ">>" and n == 1:
        return extract(c, p, c.ev(0), c.t(0))
    if m in ("operator bool", "good"):
        return bterm(atom(T("good", sel(v, "$st"))))
    if m in ("operator!", "fail", "bad"):
        return bterm(~atom(T("good", sel(v, "$st"))))
    if m == "is_open":
        s = sel(v, "$st")
        return bterm(atom(T("good", s)))
    if m == "eof":
        return bterm(atom(T("eof", sel(v, "$st"))))
    if m == "str":
        if n == 0:
            o = sel(v, "$out")
            return o if o.op != "undef" else EMPTY
        x = c.val(0)
        I.write(st, field_ptr(p, "$out"), x)
        I.write(st, field_ptr(p, "$in"), x)
        return UNDEF
    if m == "precision":
        old = sel(v, "$prec")
        if n:
            I.write(st, field_ptr(p, "$prec"), c.val(0))
        return old
    if m == "open":
        x = c.val(0)
        mode = [c.val(i) for i in range(1, n)]
        I.ev(st, "open", "open", p, [x], line=c.line,
             mode=mode[0] if mode else T("defmode", base_t((e.get("obj") or {}).get("t"))))
        I.write(st, fs, T("opened", x, base_t((e.get("obj") or {}).get("t"))))
        I.write(st, field_ptr(p, "$mode"), mode[0] if mode else T("defmode", base_t((e.get("obj") or {}).get("t"))))
        I.write(st, field_ptr(p, "$path"), x)
        return UNDEF
    if m == "close":
        I.ev(st, "close", "close", p, [], line=c.line)
        return UNDEF
    if m in ("flush", "setf", "unsetf", "imbue", "width", "fill", "exceptions", "rdbuf"):
        for i in range(n):
            c.ev(i)
        if m == "setf" and "fixed" in str(e["a"][0]) and n >= 1:
            I.write(st, field_ptr(p, "$fmt"), T("manip", "fixed"))
        elif m in ("setf", "unsetf"):
            I.write(st, field_ptr(p, "$fmt"), T("manip", m, next(I.ev_n)))
        return mkref(I, p)
    if m == "write":
        a, k = c.val(0), c.val(1)
        x = I.read(st, a) if a.op in ("addr", "iter") else a
        I.ev(st, "fwrite", "write", p, [a, k, x], line=c.line, src=cast_src(e["a"][0]))
        return mkref(I, p)
    if m == "read":
        a, k = c.val(0), c.val(1)
        ev = I.ev(st, "fread", "read", p, [a, k], line=c.line, src=cast_src(e["a"][0]))
        if ev is not None:
            o = T("frd", ev.id, *I.ks)
            if a.op in ("addr", "iter", "ite"):
                I.write(st, a, o)
            ev.res = o
            I.write(st, fs, T("after", sel(v, "$st"), ev.id))
        return mkref(I, p)
    if m in ("get", "getline", "ignore", "seekg", "putback", "unget", "clear", "setstate", "seekp", "put"):
        vals, ptrs = I.eval_args(e, st, c.fr)
        ev = I.ev(st, "stream", m, p, vals, ptrs, c.line)
        i = ev.id if ev else 0
        if m == "get" and n == 1 and ptrs[0] is not None:
            I.write(st, ptrs[0], T("inchar", i, *I.ks))
        if m == "put":
            put(I, st, p, text_of(vals[0], "char"), c.line)
            return mkref(I, p)
        I.write(st, fs, T("after", sel(v, "$st"), i, *I.ks))
        if m == "get" and n == 0:
            return T("inchar", i, *I.ks)
        return mkref(I, p)
    if m in ("tellg", "peek", "gcount", "rdstate", "tellp"):
        return T("res", m, sel(v, "$st"))
    return generic(I, e, st, c.fr, c)


def cast_src(a):
    """type of the object whose bytes are transferred"""
    while a.get("k") == "cast" and a.get("ck") in ("BitCast", "NoOp", "ArrayToPointerDecay"):
        a = a["a"]
    return a.get("t")


def extract(c, sp, r, t):
    """stream >> x"""
    I, st = c.I, c.st
    if not is_ref(r):
        return mkref(I, sp)
    ev = I.ev(st, "extract", ">>", sp, [], line=c.line, t=clean_t(t))
    i = ev.id if ev else 0
    x = T("inp", clean_t(t), i, *I.ks)
    if ev:
        ev.res = x
    I.write(st, r.p, x)
    I.write(st, field_ptr(sp, "$st"), T("after", sel(I.read(st, sp), "$st"), i, *I.ks))
    return mkref(I, sp)


def bitset_method(c, m, op):
    I, st, e = c.I, c.st, c.e
    if "reference" in (split_name(e["fn"])[0]) or "reference" in (e.get("cls") or ""):
        v = I.ev_val(e["obj"], st, c.fr)
        if m == "operator bool":
            return bterm(truth(v))
        if m == "operator=":
            p = c.obj()
            I.write(st, p, c.val(0))
            return mkref(I, p)
    p = c.obj()
    v = I.read(st, p)
    if m in ("operator[]", "test"):
        i = c.val(0)
        return mkref(I, index_ptr(p, i))
    if m == "set":
        if not c.a:
            I.write(st, p, T("fill", size(v), bterm(TRUE)))
        else:
            I.write(st, index_ptr(p, c.val(0)), c.val(1) if len(c.a) > 1 else bterm(TRUE))
        return mkref(I, p)
    if m == "reset":
        if not c.a:
            I.write(st, p, T("fill", size(v), bterm(FALSE)))
        else:
            I.write(st, index_ptr(p, c.val(0)), bterm(FALSE))
        return mkref(I, p)
    if m == "operator=":
        I.write(st, p, c.val(0))
        return mkref(I, p)
    if m == "to_string":
        return T("bitstext", v)
    if m == "size":
        return size(v)
    return generic(I, e, st, c.fr, c)


# ------------------------------------------------------------ free functions

FREE = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


@free("move", "forward")
def f_move(c):
    r = c.ev(0)
    if len(c.a) == 1:
        if is_ref(r):
            return mkref(c.I, r.p, split_name(c.e["fn"])[1] == "move")
        return r
    return generic(c.I, c.e, c.st, c.fr, c)


@free("make_pair")
def f_make_pair(c):
    return mkpair(c.val(0), c.val(1))


@free("make_tuple", "forward_as_tuple")
def f_make_tuple(c):
    return rec(UNDEF, {str(i): c.val(i) for i in range(len(c.a))})


@free("tie")
def f_tie(c):
    return T("tie", *[c.ref(i) for i in range(len(c.a))])


@free("get")
def f_get(c):
    r = c.ev(0)
    ta = [str(x) for x in c.e.get("ta") or []]
    i = next((x for x in ta if x.isdigit()), None)
    t = base_t(c.t(0))
    if i is None:
        return generic(c.I, c.e, c.st, c.fr, c)
    if t == "std::pair":
        i = ("first", "second")[int(i)]
    if is_ref(r):
        if t == "std::array":
            return mkref(c.I, index_ptr(r.p, num(int(i))))
        return mkref(c.I, field_ptr(r.p, i))
    return sel(r, i)


@free("make_unique", "make_shared")
def f_make_unique(c):
    I, st = c.I, c.st
    t = targs(c.e.get("t") or "")
    cls = clean_t(t[0]) if t else ""
    refs, args = [], []
    for i in range(len(c.a)):
        r = c.ev(i)
        refs.append(r.p if is_ref(r) else None)
        args.append(c.take(r, i))
    if cls.endswith("]"):
        p = addr(("heap", next(I.ev_n)) + tuple(I.ks))
        et = cls[:cls.rfind("[")].strip()
        st.store[p.args[0]] = T("fill", args[0], zero_of(I, et)) if args else UNDEF
        I.ev(st, "new", "new[]", p, args, line=c.line, cls=et, init=True, owner="unique")
        return p
    if cls in I.prog.records:
        p = heap_object(c, cls, args, refs=refs)
        I.ev(st, "new", "new", p, args, line=c.line, cls=cls, owner="unique")
        return p
    p = addr(("heap", next(I.ev_n)) + tuple(I.ks))
    I.write(st, p, args[0] if len(args) == 1 else zero_of(I, cls))
    I.ev(st, "new", "new", p, args, line=c.line, cls=cls, owner="unique")
    return p


@free("to_string")
def f_to_string(c):
    v = c.val(0)
    t = c.pt[0] if c.pt else c.t(0)
    if is_flt_t(t):
        return lift1(lambda x: T("flt", x, clean_t(t), T("fixed6")), v)
    return text_of(v, t)


def num_parse(name):
    def f(c):
        v = c.val(0)
        for i in range(1, len(c.a)):
            q = c.val(i)
            if i == 2 and is_num(q) and q.args[0] != 10:
                return T(name + "@%d" % int(q.args[0]), v)
            if i == 1 and name.startswith("sto") and q.op == "addr":
                c.I.write(c.st, q, mark_nonneg(T("numlen", v)) or T("numlen", v))

        def g(x):
            if x.op == "str":
                try:
                    return num(int(x.args[0])) if name not in ("stof", "stod", "atof") else num(float(x.args[0]))
                except ValueError:
                    return T(name, x)
            if x.op == "dec" and name in ("stoi", "stol", "stoul", "stoull", "stoll", "atoi"):
                return x.args[0]
            r = T(name, x)
            if name in ("stoul", "stoull"):
                mark_nonneg(r)
            return r
        return lift1(g, v)
    return f


for _n in ("stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold", "atoi", "atol", "atof", "strtol",
           "strtoul", "strtod", "strtof"):
    FREE[_n] = num_parse(_n)


@free("strcmp", "strcasecmp")
def f_strcmp(c):
    a, b = c.val(0), c.val(1)
    return ite(eq(a, b), ZERO, ONE)


@free("strncmp")
def f_strncmp(c):
    a, b, n = c.val(0), c.val(1), c.val(2)
    if a.op == "str" and b.op == "str" and is_num(n):
        k = int(n.args[0])
        return ZERO if a.args[0][:k] == b.args[0][:k] else ONE
    return ite(eq(T("strn", a, n), T("strn", b, n)), ZERO, ONE)


@free("strlen")
def f_strlen(c):
    return size(c.val(0))


@free("strncpy", "strcpy", "strlcpy", "memcpy", "snprintf")
def f_strncpy(c):
    I, st = c.I, c.st
    name = split_name(c.e["fn"])[1]
    r = c.ev(0)
    dst = r.p if is_ref(r) else r
    vals = [c.val(i) for i in range(1, len(c.a))]
    dt = c.t(0)
    if c.a[0].get("k") == "cast":
        dt = cast_src(c.a[0])
    if dst.op == "addr" and dst.args[1] and dst.args[1][-1] == ("i", ZERO):
        base = T("addr", dst.args[0], dst.args[1][:-1])
    else:
        base = dst
    src = vals[0] if vals else UNDEF
    if name == "memcpy":
        x = I.read(st, src) if src.op in ("addr", "iter") else src
    elif name == "strncpy":
        x = T("strncpy", src, vals[1])
    elif name == "snprintf":
        x = T("snprintf", *vals)
    else:
        x = src
    I.ev(st, "copy", name, base, vals, line=c.line, t=dt)
    if base.op in ("addr", "iter", "ite"):
        I.write(st, base, x)
    return dst


@free("getenv", "secure_getenv")
def f_getenv(c):
    return T("getenv", c.val(0))


@free("setenv", "putenv")
def f_setenv(c):
    I = c.I
    vals = c.vals()
    I.ev(c.st, "setenv", split_name(c.e["fn"])[1], None, vals, line=c.line)
    return ZERO


@free("abort", "exit", "_exit", "terminate", "quick_exit", "__assert_fail")
def f_abort(c):
    vals = c.vals()
    c.I.ev(c.st, "abort", split_name(c.e["fn"])[1], None, vals, line=c.line)
    c.st.pc = FALSE
    return UNDEF


@free("printf", "fprintf", "puts", "putchar", "fflush", "perror", "fputs")
def f_printf(c):
    vals = c.vals()
    c.I.ev(c.st, "print", split_name(c.e["fn"])[1], None, vals, line=c.line)
    return T("res", "printf", next(c.I.ev_n))


@free("malloc", "calloc")
def f_malloc(c):
    I, st = c.I, c.st
    vals = c.vals()
    n = vals[0] if len(vals) == 1 else mul(vals[0], vals[1])
    p = addr(("heap", next(I.ev_n)) + tuple(I.ks))
    st.store[p.args[0]] = UNDEF
    I.ev(st, "new", "malloc", p, [n], line=c.line)
    return p


@free("free")
def f_free(c):
    v = c.val(0)
    c.I.ev(c.st, "delete", "free", v, [], line=c.line)
    return UNDEF


@free("setprecision")
def f_setprec(c):
    return T("setprec", c.val(0))


@free("setw", "setfill", "fixed", "scientific", "hex", "dec", "boolalpha")
def f_manip(c):
    return T("manip", split_name(c.e["fn"])[1], *c.vals())


@free("getline")
def f_getline(c):
    I, st = c.I, c.st
    sp = c.ref(0)
    tp = c.ref(1)
    d = c.val(2) if len(c.a) > 2 else num(10)
    ev = I.ev(st, "getline", "getline", sp, [d], line=c.line)
    i = ev.id if ev else 0
    x = T("gline", i, *I.ks)
    if ev:
        ev.res = x
    I.write(st, tp, x)
    I.write(st, field_ptr(sp, "$st"), T("after", sel(I.read(st, sp), "$st"), i, *I.ks))
    return mkref(I, sp)


@free("max", "min")
def f_max(c):
    name = split_name(c.e["fn"])[1]
    if len(c.a) != 2:
        return generic(c.I, c.e, c.st, c.fr, c)
    a, b = c.val(0), c.val(1)
    t = c.e.get("t")
    integer = not is_flt_t(t)
    if name == "max":
        return ite(cmp_("<", a, b, integer), b, a)
    return ite(cmp_("<", b, a, integer), b, a)


@free("swap", "iter_swap")
def f_swap(c):
    return swap(c, c.ref(0), c.ref(1))


@free("distance")
def f_distance(c):
    a, b = c.val(0), c.val(1)
    return lift2(lambda x, y: c.I.ptr_diff(y, x), a, b)


@free("next", "prev")
def f_next(c):
    v = c.val(0)
    d = c.val(1) if len(c.a) > 1 else ONE
    if split_name(c.e["fn"])[1] == "prev":
        d = scale(d, -1)
    return lift1(lambda x: offset_ptr(x, d), v)


@free("advance")
def f_advance(c):
    p = c.ref(0)
    d = c.val(1)
    c.I.write(c.st, p, lift1(lambda x: offset_ptr(x, d), c.I.read(c.st, p)))
    return UNDEF


@free("begin", "cbegin")
def f_begin(c):
    p = c.ref(0)
    return T("iter", p, ZERO)


@free("end", "cend")
def f_end(c):
    p = c.ref(0)
    n = arr_len(c.t(0)) if is_arr_t(c.t(0)) else None
    return T("iter", p, num(n) if n is not None else size(c.I.read(c.st, p)))


@free("abs", "fabs")
def f_abs(c):
    return lift1(lambda x: num(abs(x.args[0])) if is_num(x) else T("abs", x), c.val(0))


@free("exp", "sqrt", "pow", "log", "signbit", "floor", "ceil", "round", "isnan", "isinf", "isfinite", "powf",
      "expf", "sqrtf", "tanh", "fmod", "trunc", "lround")
def f_math(c):
    name = split_name(c.e["fn"])[1]
    vs = c.vals()
    if name == "pow" and len(vs) == 2 and is_num(vs[1]) and vs[1].args[0] == 2:
        return mul(vs[0], vs[0])
    r = T(name, *vs)
    if name in ("exp", "sqrt", "expf", "sqrtf"):
        mark_nonneg(r)
    if clean_t(c.e.get("t")) == "bool":
        return bterm(truth(r))
    return r


@free("isspace", "isdigit", "isalpha", "toupper", "tolower")
def f_ctype(c):
    return T(split_name(c.e["fn"])[1], c.val(0))


def range_of(c, i=0):
    """(pointer to container, value, lo, hi) of iterator arguments i, i+1"""
    x, y = c.val(i), c.val(i + 1)
    if x.op == "iter" and y.op == "iter" and x.args[0] is y.args[0]:
        v = c.I.read(c.st, x.args[0])
        return x.args[0], v, x.args[1], y.args[1]
    r = span(x, y)
    if r is not None and c.a[i].get("t", "").rstrip().endswith("*"):
        return r[0], c.I.read(c.st, r[0]), r[1], r[2]
    if x.op == "addr" and y.op == "addr" and x.args[0] == y.args[0] and x.args[1] and y.args[1] and \
            x.args[1][:-1] == y.args[1][:-1] and x.args[1][-1][0] == "i" == y.args[1][-1][0]:
        p = T("addr", x.args[0], x.args[1][:-1])
        return p, c.I.read(c.st, p), x.args[1][-1][1], y.args[1][-1][1]
    return None, T("range", x, y), None, None


def spot(q):
    """(array, index) a pointer or iterator points at"""
    if q.op == "iter":
        return q.args[0], q.args[1]
    if q.op in ("null", "undef", "num", "res") or q.op in UNK_ITER:
        return None
    if q.op == "addr":
        if q.args[1] and q.args[1][-1][0] == "i":
            return T("addr", q.args[0], q.args[1][:-1]), q.args[1][-1][1]
        return q, ZERO
    return T("addr", ("mem", q), ()), ZERO


UNK_ITER = ("unk", "unkiter", "mpos", "find", "mend", "mbegin")


def span(x, y):
    if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]:
        a, b = span(x.args[1], y.args[1]), span(x.args[2], y.args[2])
        if a is None or b is None or a[1] is not b[1] or a[2] is not b[2]:
            return None
        return ite(x.args[0], a[0], b[0]), a[1], a[2]
    if x.op == "ite" or y.op == "ite":
        return None
    a, b = spot(x), spot(y)
    if a is None or b is None or a[0] is not b[0]:
        return None
    return a[0], a[1], b[1]


def spots(q):
    """spot of a pointer that depends on conditions"""
    if q.op == "ite":
        a, b = spots(q.args[1]), spots(q.args[2])
        if a is None or b is None or a[1] is not b[1]:
            return None
        return ite(q.args[0], a[0], b[0]), a[1]
    return spot(q)


def write_out(c, p, v, lo, hi, out, f):
    """out[i] = f(element lo + i) for the whole range; None: no model"""
    I, st = c.I, c.st
    o = spots(out)
    if o is None:
        return None
    n = sub(hi, lo)

    def it(s, k):
        return cmp_("<", k, n, True)
    cell = {}

    def it2(s, k):
        cell["k"] = k
        return cmp_("<", k, n, True)

    def body(s):
        k = cell["k"]
        ep = index_ptr(p, add(lo, k)) if p is not None else None
        y = f(s, ep)
        if s.pc is not FALSE:
            I.write(s, index_ptr(o[0], add(o[1], k)), y)
        return s
    r = I.loop(st, c.fr, it2, body, lambda s: s, c.line, count=n)
    if r is None:
        st.pc = FALSE
    else:
        st.set(r)
    return T("iter", o[0], add(o[1], n)) if out.op == "iter" else offset_ptr(out, n)


@free("sort", "stable_sort", "nth_element", "partial_sort")
def f_sort(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    name = split_name(c.e["fn"])[1]
    rel = T("natural")
    if len(c.a) > 2:
        fv = c.val(2)
        s2 = st.copy()
        a, b = T("sa"), T("sb")
        save = I.events
        I.events = []
        r = I.apply(fv, [a, b], s2, c.fr, c.line)
        I.events = save
        rel = T("rel", bterm(truth(r)))
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    new = T("sorted", v, lo, hi, rel, name)
    I.write(st, p, new)
    I.ev(st, "sort", name, p, [v, lo, hi, rel], line=c.line)
    return UNDEF


def loop_range(c, p, v, lo, hi, body):
    """for every element pointer in the range"""
    I = c.I
    n = sub(hi, lo)
    fr = c.fr

    class F:
        pass
    cell = {}

    def bind(st, ep):
        cell["p"] = ep
    if lo is ZERO:
        base = p
        s = I.each(c.st, fr, p, v if hi is size(v) else T("prefix", v, hi), n, bind,
                   lambda st: body(st, cell["p"]), c.line)
    else:
        def it(st, k):
            cell["p"] = index_ptr(p, add(lo, k))
            return cmp_("<", k, n, True)
        s = I.loop(c.st, fr, it, lambda st: body(st, cell["p"]), lambda st: st, c.line, count=n)
    if s is None:
        c.st.pc = FALSE
    else:
        c.st.set(s)


@free("remove_if", "remove")
def f_remove_if(c):
    I, st = c.I, c.st
    name = split_name(c.e["fn"])[1]
    if len(c.a) != 3:
        return generic(I, c.e, st, c.fr, c)
    p, v, lo, hi = range_of(c)
    if p is None or lo is not ZERO or hi is not size(v):
        return generic(I, c.e, st, c.fr, c)
    fv = c.val(2)
    acc = I.temp(st, EMPTYSEQ)

    def body(s, ep):
        x = I.read(s, ep)
        if name == "remove":
            g = I.cmp_vals("==", x, fv)
        else:
            g = I.truthy(I.apply(fv, [mkref(I, ep)], s, c.fr, c.line), "bool")
        if s.pc is FALSE:
            return s
        cur = I.read(s, acc)
        g = restrict(g, s.pc)
        I.write(s, acc, join(g, cur, append(cur, x)))
        return s
    loop_range(c, p, v, lo, hi, body)
    if st.pc is FALSE:
        return UNDEF
    a = I.read(st, acc)
    if I.read(st, p) is not v:
        # the predicate changed the container itself
        a = T("concurrent", a, I.read(st, p))
    I.write(st, p, seq(parts(a) + (T("spread", T("stale", next(I.ev_n))),)))
    return T("iter", p, size(a))


@free("for_each")
def f_for_each(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    fv = c.val(2)

    def body(s, ep):
        I.apply(fv, [mkref(I, ep)], s, c.fr, c.line)
        return s
    loop_range(c, p, v, lo, hi, body)
    return fv


@free("any_of", "all_of", "none_of", "find_if", "find", "count_if", "count", "find_if_not")
def f_any_of(c):
    I, st = c.I, c.st
    name = split_name(c.e["fn"])[1]
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    fv = c.val(2)
    k = T("k", next(I.loop_n))
    s2 = st.copy()
    ep = index_ptr(p, add(lo, k))
    n = sub(hi, lo)
    if name in ("find", "count") and v is not None and v.op == "seq" and lo is ZERO and hi is size(v) and \
            len(v.args) <= 16 and all(q.op == "item" for q in v.args):
        # among a few known elements
        hits = [I.cmp_vals("==", q.args[0], fv) for q in v.args]
        if name == "count":
            r = ZERO
            for h in hits:
                r = add(r, ite(h, ONE, ZERO))
            return r
        r = num(len(hits))
        for i in range(len(hits) - 1, -1, -1):
            r = ite(hits[i], num(i), r)
        return T("iter", p, r)
    I.ks.append(k)
    if name in ("find", "count"):
        g = I.cmp_vals("==", I.read(s2, ep), fv)
    else:
        g = I.truthy(I.apply(fv, [mkref(I, ep)], s2, c.fr, c.line), "bool")
    I.ks.pop()
    g = restrict(g, st.pc)
    if name == "none_of" or name == "any_of":
        a = atom(T("any", k, n, bterm(g)))
        return bterm(a if name == "any_of" else ~a)
    if name == "all_of":
        return bterm(~atom(T("any", k, n, bterm(~g))))
    if name in ("count_if", "count"):
        return mk_sum(k, n, ite(g, ONE, ZERO))
    if name == "find_if_not":
        g = ~g
    a = atom(T("any", k, n, bterm(g)))
    f = T("first", k, n, bterm(g))
    mark_nonneg(f)
    return T("iter", p, add(lo, ite(a, f, n)))


@free("transform")
def f_transform(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    if p is None or len(c.a) < 4:
        return generic(I, c.e, st, c.fr, c)
    out = c.val(2)
    fv = c.val(3)
    if is_string_t_iter(c.t(0)):
        nm = fv.args[0] if fv.op == "fn" else None
        x = T("upper" if nm and nm.endswith("toupper") else "lower" if nm and nm.endswith("tolower") else "mapchars",
              v, *([] if nm else [fv]))
        if out.op == "iter" and out.args[0] is p:
            I.write(st, p, x)
            return T("iter", p, size(x))
    if out.op == "backins":
        def body(s, ep):
            y = I.apply(fv, [mkref(I, ep)], s, c.fr, c.line)
            I.write(s, out.args[0], append(I.read(s, out.args[0]), y))
            return s
        loop_range(c, p, v, lo, hi, body)
        return out
    if out.op == "iter":
        o0 = out.args[1]
        j = I.temp(st, o0)

        def body(s, ep):
            y = I.apply(fv, [mkref(I, ep)], s, c.fr, c.line)
            i = I.read(s, j)
            I.write(s, index_ptr(out.args[0], i), y)
            I.write(s, j, add(i, ONE))
            return s
        loop_range(c, p, v, lo, hi, body)
        return T("iter", out.args[0], add(o0, sub(hi, lo)))
    if len(c.a) == 4:
        r = write_out(c, p, v, lo, hi, out, lambda s, ep: I.apply(fv, [mkref(I, ep)], s, c.fr, c.line))
        if r is not None:
            return r
    return generic(I, c.e, st, c.fr, c)


def is_string_t_iter(t):
    return "iterator<char" in (t or "") or "basic_string" in (t or "")


@free("back_inserter")
def f_backins(c):
    return T("backins", c.ref(0))


@free("copy", "copy_if")
def f_copy(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    out = c.val(2)
    fv = c.val(3) if len(c.a) > 3 else None
    if out.op == "backins":
        def body(s, ep):
            y = I.read(s, ep)
            cur = I.read(s, out.args[0])
            new = append(cur, y)
            if fv is not None:
                g = I.truthy(I.apply(fv, [mkref(I, ep)], s, c.fr, c.line), "bool")
                new = join(restrict(g, s.pc), new, cur)
            I.write(s, out.args[0], new)
            return s
        loop_range(c, p, v, lo, hi, body)
        return out
    if fv is None:
        r = write_out(c, p, v, lo, hi, out, lambda s, ep: I.read(s, ep))
        if r is not None:
            return r
    return generic(I, c.e, st, c.fr, c)


@free("copy_n")
def f_copy_n(c):
    I, st = c.I, c.st
    x, n, out = c.val(0), c.val(1), c.val(2)
    o = spots(x)
    if o is not None and out.op != "backins":
        r = write_out(c, o[0], None, o[1], add(o[1], n), out, lambda s, ep: I.read(s, ep))
        if r is not None:
            return r
    return generic(I, c.e, st, c.fr, c)


@free("accumulate")
def f_accumulate(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    init = c.val(2)
    fv = c.val(3) if len(c.a) > 3 else None
    acc = I.temp(st, init)
    at = clean_t(c.a[2].get("t", ""))
    et = targs(clean_t(c.a[0].get("t", "")))
    et = clean_t(et[0]).replace("const ", "").rstrip(" *") if et else ""

    def body(s, ep):
        x = I.read(s, ep)
        a = I.read(s, acc)
        y = I.apply(fv, [a, x], s, c.fr, c.line) if fv is not None else add(a, x)
        if fv is None and et in ("float", "double") and at != et:
            y = coerce(I, y, at, et)
        I.write(s, acc, y)
        return s
    loop_range(c, p, v, lo, hi, body)
    return I.read(st, acc)


@free("max_element", "min_element")
def f_max_element(c):
    I, st = c.I, c.st
    name = split_name(c.e["fn"])[1]
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    rel = T("natural")
    if len(c.a) > 2:
        s2 = st.copy()
        save = I.events
        I.events = []
        r = I.apply(c.val(2), [T("sa"), T("sb")], s2, c.fr, c.line)
        I.events = save
        rel = T("rel", bterm(truth(r)))
    x = T("arg" + name[:3], T("slice", v, lo, hi) if not (lo is ZERO and hi is size(v)) else v, rel)
    mark_nonneg(x)
    return T("iter", p, add(lo, x))


@free("iota")
def f_iota(c):
    I, st = c.I, c.st
    p, v, lo, hi = range_of(c)
    if p is None:
        return generic(I, c.e, st, c.fr, c)
    x = c.val(2)
    k = T("k", next(I.loop_n))
    I.write(st, p, T("tab", v, k, sub(hi, lo), add(lo, k), add(x, k)))
    return UNDEF


@free("fill", "fill_n", "memset")
def f_fill(c):
    I, st = c.I, c.st
    name = split_name(c.e["fn"])[1]
    if name == "memset":
        a = c.val(0)
        b, n = c.val(1), c.val(2)
        et = ptr_elem(c.a[0])
        o = spots(a)
        if b is ZERO and et in BYTES and o is not None:
            m = scale(n, Fraction(1, BYTES[et]))
            if all(x.denominator == 1 for x in to_poly(m).values()):
                write_out(c, None, None, ZERO, m, a, lambda s, ep: ZERO)
                return a
        if a.op in ("addr", "iter"):
            I.write(st, a, T("memset", b, n))
        elif o is not None:
            I.write(st, o[0], I.unknown("memset"))
        return a
    if name == "fill":
        p, v, lo, hi = range_of(c)
        if p is None:
            return generic(I, c.e, st, c.fr, c)
        x = c.val(2)
        k = T("k", next(I.loop_n))
        if lo is ZERO and hi is size(v):
            I.write(st, p, T("fill", hi, x))
        elif p.op == "ite":
            write_out(c, None, None, ZERO, sub(hi, lo), c.val(0), lambda s, ep: x)
        else:
            I.write(st, p, T("tab", v, k, sub(hi, lo), add(lo, k), x))
        return UNDEF
    a, n, x = c.val(0), c.val(1), c.val(2)
    if a.op != "backins":
        r = write_out(c, None, None, ZERO, n, a, lambda s, ep: x)
        if r is not None:
            return r
    return generic(I, c.e, st, c.fr, c)


BYTES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1}


def ptr_elem(a):
    """element type of what a pointer argument points to, before the conversion to void *"""
    while a.get("k") == "cast" and a.get("a"):
        t = clean_t(a.get("st") or a["a"].get("t") or "")
        if t not in ("void *", "const void *"):
            return t.replace("const ", "").rstrip("* ").strip()
        a = a["a"]
    return clean_t(a.get("t") or "").replace("const ", "").rstrip("* ").strip()


@free("ref", "cref", "as_const")
def f_ref(c):
    return c.ev(0)


# ------------------------------------------------------------ MPI
# MPI_Pack_size(n, t) is taken to be n times the size of one t, and packing to use exactly that.

def whole_arr(p):
    """the array a pointer to its first element points into"""
    if p.op == "addr" and p.args[1] and p.args[1][-1] == ("i", ZERO):
        return T("addr", p.args[0], p.args[1][:-1])
    return p


def c_elem(a):
    """element type and, for an array, length of what a pointer argument points to"""
    while a.get("k") == "cast" and clean_t(a.get("t")) in ("void *", "const void *") and a.get("a"):
        t = clean_t(a.get("st") or "")
        a = a["a"]
        if is_arr_t(a.get("t")):
            t = a["t"]
            return t[:t.index("[")].replace("const ", "").strip(), arr_len(t)
        return t.replace("const ", "").rstrip("* ").strip(), None
    return None, None


def mpi_size(n, t):
    return mul(n, T("mpisize", t))


@free("MPI_Pack_size")
def f_pack_size(c):
    vals = c.vals()
    n = mpi_size(vals[0], vals[1])
    c.I.write(c.st, vals[3], n)
    c.I.ev(c.st, "ext", "MPI_Pack_size", None, vals, line=c.line, deep=T("deep", n))
    return ZERO


@free("MPI_Pack")
def f_pack(c):
    I, st = c.I, c.st
    vals, ptrs = I.eval_args(c.e, st, c.fr)
    if st.pc is FALSE:
        return UNDEF
    src = vals[0] if vals[1] is ONE else whole_arr(vals[0])
    v = I.read(st, src) if vals[0].op in ("addr", "iter") else vals[0]
    pos = I.read(st, vals[5])
    e = I.ev(st, "ext", "MPI_Pack", None, vals, ptrs, c.line, value=v, pos=pos,
             ctype=c_elem(c.e["a"][0]))
    I.write(st, vals[5], add(pos, mpi_size(vals[1], vals[2])))
    return ZERO


@free("MPI_Unpack")
def f_unpack(c):
    I, st = c.I, c.st
    vals, ptrs = I.eval_args(c.e, st, c.fr)
    if st.pc is FALSE:
        return UNDEF
    pos = I.read(st, vals[2])
    e = I.ev(st, "ext", "MPI_Unpack", None, vals, ptrs, c.line, pos=pos, ctype=c_elem(c.e["a"][3]))
    if e is None:
        return UNDEF
    e.res = T("unpacked", e.id, *I.ks)
    dst = vals[3] if vals[4] is ONE else whole_arr(vals[3])
    I.write(st, dst, e.res)
    I.write(st, vals[2], add(pos, mpi_size(vals[4], vals[5])))
    return ZERO


@free("MPI_Allgather")
def f_allgather(c):
    I, st = c.I, c.st
    vals, ptrs = I.eval_args(c.e, st, c.fr)
    if st.pc is FALSE:
        return UNDEF
    v = I.read(st, vals[0])
    I.ev(st, "ext", "MPI_Allgather", None, vals, ptrs, c.line, value=v)
    dst = vals[3] if vals[3].op == "addr" else ptrs[3]
    if vals[1] is ONE and vals[4] is ONE and dst is not None:
        I.write(st, whole_arr(dst), T("allgather", v, vals[2]))
    elif dst is not None:
        I.write(st, whole_arr(dst), I.unknown("allgather"))
    return ZERO
