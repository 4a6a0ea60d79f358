"""Interprocedural gated value-flow over the resolved program.

Each function is evaluated once over abstract values (terms); at control-flow
joins values are merged by gates (ite) and loops are summarised by closed forms
over an iteration variable.  Nothing is executed and no path is enumerated.
"""
import itertools
from terms import *
import terms
import values
from values import *
import ir


class Undecided(Exception):
    """An idiom the analysis does not interpret."""


UNKS = {"unk", "undef", "rand"}


def ast_nodes(x, lambdas=True):
    if isinstance(x, dict):
        if not lambdas and x.get("k") == "lambda":
            return
        yield x
        for v in x.values():
            yield from ast_nodes(v, lambdas)
    elif isinstance(x, list):
        for v in x:
            yield from ast_nodes(v, lambdas)


class State:
    __slots__ = ("pc", "store")

    def __init__(self, pc, store):
        self.pc = pc
        self.store = store

    def copy(self):
        return State(self.pc, dict(self.store))

    @property
    def dead(self):
        return self.pc is FALSE

    def set(self, o):
        self.pc = o.pc
        self.store = o.store


def join_states(sts):
    sts = [s for s in sts if s is not None and s.pc is not FALSE]
    if not sts:
        return None
    r = sts[0].copy()
    for s in sts[1:]:
        tot = r.pc | s.pc
        g = restrict(s.pc, tot)
        if g is not TRUE and g is not FALSE:
            g2 = restrict(r.pc, tot)
            if size_b(~g2) < size_b(g):
                g = ~g2
        store = {}
        for k in list(r.store) + [k for k in s.store if k not in r.store]:
            a = r.store.get(k)
            b = s.store.get(k)
            if a is None:
                a = init_of(k)
            if b is None:
                b = init_of(k)
            store[k] = b if a is b else join(g, b, a)
        r.store = store
        r.pc = tot
    return r


def size_b(b):
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen or x.lo is None:
            continue
        seen.add(x)
        st += [x.lo, x.hi]
    return len(seen)


def init_of(root):
    if root[0] in ("var", "tmp", "heap"):
        return UNDEF
    if root[0] == "each":
        return T("in", (("mem", root[1]), ()))
    return T("in", (root, ()))


EACH = T("k", "each")


def matches(pat, t, b):
    """one way match of pat (with variable EACH) against t; binding in b"""
    if pat is t:
        return True
    if pat is EACH:
        if b.get("j") is None:
            b["j"] = t
            return True
        return b["j"] is t
    if isinstance(pat, T) and isinstance(t, T):
        if pat.op != t.op or len(pat.args) != len(t.args):
            return False
        return all(matches(x, y, b) for x, y in zip(pat.args, t.args))
    if isinstance(pat, tuple) and isinstance(t, tuple):
        return len(pat) == len(t) and all(matches(x, y, b) for x, y in zip(pat, t))
    return not isinstance(pat, (T, tuple)) and pat == t


class Ref:
    __slots__ = ("p", "moved")

    def __init__(self, p, moved=False):
        self.p = p
        self.moved = moved


class Ev:
    """An observable effect."""
    __slots__ = ("heap", "kind", "name", "obj", "args", "ptrs", "guard", "line", "file", "fn", "id", "res", "key", "objt",
                 "extra", "stack")
    loop = False

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def map(self, f, fb):
        if isinstance(self.obj, T):
            self.obj = f(self.obj)
        self.args = [f(a) if isinstance(a, T) else a for a in self.args]
        self.ptrs = [f(a) if isinstance(a, T) else a for a in self.ptrs or []]
        self.guard = fb(self.guard)
        if isinstance(self.res, T):
            self.res = f(self.res)
        if self.extra:
            self.extra = {k: (f(v) if isinstance(v, T) else fb(v) if isinstance(v, B) else v)
                          for k, v in self.extra.items()}

    def __repr__(self):
        return "%s:%s %s %s%s(%s) if %s" % ((self.file or "").split("/")[-1], self.line, self.kind,
                                           (show(self.obj) + " . ") if isinstance(self.obj, T) else "", self.name,
                                           ", ".join(map(show, self.args)), showb(self.guard))


class LoopEv:
    __slots__ = ("k", "n", "guard", "body", "line", "file", "cont", "fn", "exits", "id", "ends")
    loop = True

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def map(self, f, fb):
        self.n = f(self.n)
        self.guard = fb(self.guard)
        if isinstance(self.cont, B):
            self.cont = fb(self.cont)
        if isinstance(self.ends, B):
            self.ends = fb(self.ends)
        for e in self.body:
            e.map(f, fb)

    def __repr__(self):
        s = "%s:%s loop %s < %s if %s cont %s {\n" % ((self.file or "").split("/")[-1], self.line, self.k, self.n,
                                             showb(self.guard), self.cont)
        for e in self.body:
            s += "    " + repr(e).replace("\n", "\n    ") + "\n"
        return s + "}"


def flat(evs, loops=()):
    """(event, enclosing loops) in order"""
    for e in evs:
        if e.loop:
            yield from flat(e.body, loops + (e,))
        else:
            yield e, loops


class Frame:
    _n = itertools.count(1)

    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.this = this
        self.env = {}
        self.rets = []
        self.brk = []
        self.cont = []
        self.id = next(Frame._n)
        self.parent = parent
        self.refret = fn is not None and is_ref_t(fn.get("ret"))
        self.depth = parent.depth + 1 if parent else 0
        self.catch = []
        self.gotos, self.labels = {}, set()


UNROLL = 12


class Interp:
    def __init__(self, prog, opaque=(), track=False, pure=(), keeps=(), writes=(), mods=None):
        self.mods = dict(mods or {})   # opaque methods -> members of their object they set
        self.writes = set(writes)  # opaque methods after which nothing is known about their object
        self.prog = prog
        self.pure = set(pure)      # opaque functions whose result depends on receiver and arguments only
        self.keeps = set(keeps)    # opaque functions that leave reference arguments alone
        self.opaque = set(opaque)
        self.consts = {}           # global constants
        self.events = []
        self.ev_n = itertools.count(1)
        self.loop_n = itertools.count(1)
        self.tmp_n = itertools.count(1)
        self.stack = []            # keys of functions being inlined
        self.erasing = []          # loops that erase elements of the container they walk over
        self.catching = 0          # handlers around that go on
        self.ks = []               # iteration variables of enclosing loops
        self.lams = {}
        self.track = track         # record array accesses
        self.notes = []
        self.inlined = set()
        self.touched = set()
        self.dry = 0
        import stdlib
        self.std = stdlib
        self.file = ""
        self.fnname = ""
        self.budget = 400000

    # ------------------------------------------------------------ events
    def ev(self, st, kind, name, obj=None, args=(), ptrs=(), line=0, res=None, key=None, objt=None, **extra):
        if st.pc is FALSE:
            return None
        e = Ev(kind=kind, name=name, obj=obj, args=list(args), ptrs=list(ptrs), guard=st.pc, line=line,
               file=self.file, fn=self.fnname, id=next(self.ev_n), res=res, key=key, objt=objt, extra=extra,
               stack=tuple(self.stack))
        self.events.append(e)
        return e

    def note(self, msg, line=0):
        m = "%s:%s: %s" % (self.file, line, msg)
        if m not in self.notes:
            self.notes.append(m)

    def unknown(self, what, *args):
        return T("unk", what, next(self.ev_n), *self.ks)

    # ------------------------------------------------------------ memory
    def read(self, st, p):
        if p.op == "ite":
            return join(p.args[0], self.read(st, p.args[1]), self.read(st, p.args[2]))
        if p.op in ("undef",):
            return UNDEF
        if p.op == "null":
            return UNDEF
        a = as_addr(p)
        if a.op == "ite":
            return self.read(st, a)
        root, path = a.args
        v = self.root_value(st, root)
        for s in path:
            v = select(v, s)
        return v

    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None and root[0] == "glob":
            v = self.consts.get(root)
        if v is None and root[0] == "mem":
            for r in st.store:
                if r[0] == "each":
                    b = {}
                    if matches(r[1], root[1], b) and "j" in b:
                        v = subst(st.store[r], {EACH: b["j"]})
                        break
        if v is None:
            v = init_of(root)
        return v

    def write(self, st, p, x, guard=TRUE):
        if p.op == "ite":
            g = p.args[0]
            self.write(st, p.args[1], x, guard & g)
            self.write(st, p.args[2], x, guard & ~g)
            return
        if p.op in ("undef", "null"):
            return
        if guard is FALSE:
            return
        a = as_addr(p)
        if a.op == "ite":
            return self.write(st, a, x, guard)
        root, path = a.args
        v = self.root_value(st, root)
        new = update(v, path, x)
        if guard is not TRUE:
            new = join(guard, new, v)
        st.store[root] = new

    def temp(self, st, v, t=None):
        p = addr(("tmp", next(self.tmp_n)))
        self.write(st, p, v)
        return p

    # ------------------------------------------------------------ functions
    def call_fn(self, st, f, this, args, line=0, parent=None, lam=None):
        """Inline function f: args are values or Ref for reference parameters."""
        fr = Frame(f, this, parent)
        if lam is not None:
            fr.env.update(lam["env"])
        for prm, a in zip(f["p"], args):
            self.bind_param(st, fr, prm, a)
        for prm in f["p"][len(args):]:
            self.bind_param(st, fr, prm, UNDEF)
        key = f.get("key")
        self.stack.append(key)
        self.inlined.add(f.get("qn") or "lambda")
        save = (self.file, self.fnname)
        if f.get("file"):
            self.file = f["file"]
            self.fnname = f.get("qn", "")
        try:
            if f.get("ctor"):
                self.run_inits(st, f, fr)
            end = self.stmt(f["b"], st.copy(), fr)
        finally:
            self.stack.pop()
            self.file, self.fnname = save
        outs = list(fr.rets)
        if end is not None and end.pc is not FALSE:
            outs.append((end, UNDEF))
        if not outs:
            st.pc = FALSE
            return UNDEF
        res = None
        tot = FALSE
        for s, v in outs:
            if res is None:
                res, tot = v, s.pc
            else:
                g = restrict(s.pc, tot | s.pc)
                res = join(g, v, res)
                tot = tot | s.pc
        j = join_states([s for s, _ in outs])
        st.set(j)
        if isinstance(res, T) and fr.refret and res.op != "undef":
            return Ref(res)
        return res

    def bind_param(self, st, fr, prm, a):
        if is_ref_t(prm["t"]):
            p = a.p if isinstance(a, Ref) else self.temp(st, a)
            fr.env[prm["d"]] = p
        else:
            v = self.read(st, a.p) if isinstance(a, Ref) else a
            p = addr(("var", fr.id, prm["d"], prm["n"]))
            fr.env[prm["d"]] = p
            self.write(st, p, v)

    def run_inits(self, st, f, fr):
        this = fr.this
        cls = f.get("cls")
        seen = set()
        for i in f.get("inits") or []:
            x = i.get("x")
            if i.get("f"):
                fp = field_ptr(this, i["f"])
                seen.add(i["f"])
                ft = self.field_type(cls, i["f"])
                if x is None:
                    continue
                if ft and is_ref_t(ft):
                    r = self.ev_any(x, st, fr)
                    p = r.p if isinstance(r, Ref) else self.temp(st, r)
                    self.write(st, fp, p)      # reference member: holds a pointer
                    continue
                v = self.init_value(x, st, fr, fp)
                if v is not None:
                    self.write(st, fp, v)
            elif i.get("base") or i.get("deleg"):
                if x is not None and x.get("k") == "ctor":
                    self.construct(x, st, fr, this)

    def field_type(self, cls, f):
        todo = [cls]
        while todo:
            c = todo.pop()
            r = self.prog.records.get(c)
            if not r:
                continue
            for x in r["f"]:
                if x["n"] == f:
                    return x["t"]
            todo += r["b"]
        return None

    def init_value(self, x, st, fr, p):
        """Value of an initialiser; objects with in-repo constructors are built in place at p."""
        if x.get("k") == "ctor" and self.prog.funcs.get(x.get("key")):
            self.construct(x, st, fr, p)
            return None
        return self.ev_val(x, st, fr)

    def construct(self, x, st, fr, p):
        """Run constructor expression x on the object at p."""
        f = self.prog.funcs.get(x.get("key"))
        cls = x.get("cls")
        if f is not None and f.get("qn") not in self.opaque and cls not in self.opaque and \
                x["key"] not in self.stack and len(self.stack) < 40:
            args = [self.arg(a, pt, st, fr) for a, pt in zip(x["a"], x["pt"])]
            # default member values come before the constructor body
            self.call_fn(st, f, p, args, x.get("l"), fr)
            return
        if f is not None or cls in self.prog.records:
            if x.get("copy") or x.get("move"):
                r = self.ev_any(x["a"][0], st, fr)
                v = self.read(st, r.p) if isinstance(r, Ref) else r
                self.write(st, p, v)
                return
            if f is None and not x["a"]:
                # implicit default constructor: default member initialisers
                self.default_init(cls, st, fr, p)
                return
            args, ptrs = self.eval_args(x, st, fr)
            e = self.ev(st, "ctor", x.get("fn") or cls, p, args, ptrs, x.get("l"), key=x.get("key"), cls=cls)
            self.write(st, p, T("obj", cls, e.id if e else 0, *(args + self.ks)))
            return
        v = self.std.construct(self, x, st, fr)
        self.write(st, p, v)

    def default_init(self, cls, st, fr, p):
        r = self.prog.records.get(cls)
        if not r:
            return
        for b in r["b"]:
            self.default_init(b, st, fr, p)
        for fd in r["f"]:
            fp = field_ptr(p, fd["n"])
            if fd.get("i"):
                v = self.init_value(fd["i"], st, fr, fp)
                if v is not None:
                    self.write(st, fp, v)
            else:
                v = self.std.default_value(self, fd["t"])
                if v is not None:
                    self.write(st, fp, v)
                elif clean_t(fd["t"]) in self.prog.records:
                    self.default_init(clean_t(fd["t"]), st, fr, fp)

    # ------------------------------------------------------------ statements
    def stmt(self, s, st, fr):
        """Execute s; returns the state at normal completion or None."""
        if s is None or st is None or st.pc is FALSE:
            return st
        self.budget -= 1
        if self.budget < 0:
            raise Undecided("analysis budget exhausted")
        k = s["s"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note("statement %s" % k, s.get("l"))
            return st
        return m(s, st, fr)

    def s_block(self, s, st, fr):
        dead = st is None or st.pc is FALSE
        for x in s["b"]:
            if dead and not fr.gotos:
                return st
            if dead and x.get("s") == "label" and x["n"] in fr.gotos:
                st = self.s_label(x, None, fr)
            elif not dead:
                st = self.stmt(x, st, fr)
            dead = st is None or st.pc is FALSE
        return st

    def s_goto(self, s, st, fr):
        """forward, to a label of an enclosing block of the same loop"""
        if s["n"] in fr.labels:
            raise Undecided("a jump backwards")
        fr.gotos.setdefault(s["n"], []).append((len(self.ks), st.copy()))
        return None

    def s_null(self, s, st, fr):
        return st

    def s_expr(self, s, st, fr):
        self.ev_any(s["x"], st, fr)
        return st

    def s_decl(self, s, st, fr):
        for v in s["v"]:
            self.declare(v, st, fr)
        return st

    def declare(self, v, st, fr):
        t = v["t"]
        d = v["d"]
        i = v.get("i")
        if v.get("bind"):
            # structured binding
            r = self.ev_any(i, st, fr) if i else UNDEF
            if isinstance(r, Ref) and (is_ref_t(t)):
                base = r.p
            else:
                base = self.temp(st, self.read(st, r.p) if isinstance(r, Ref) else r)
            fr.env[d] = base
            names = self.binding_fields(v, t)
            for b, n in zip(v["bind"], names):
                fr.env[b["d"]] = field_ptr(base, n)
            return
        if v.get("st"):
            qn = "%s:%s:%s" % (self.file, v["l"], v["n"])
            p = addr(("glob", qn))
            fr.env[d] = p
            if i is not None and (t.startswith("const ") or " const" in t) and not is_ref_t(t) and p.args[0] not in st.store:
                # a constant: what its initialiser says, if that is the same for every call
                v0 = self.ev_val(i, st, fr)
                if not contains(v0, lambda x: x.op in ("in", "mu", "res", "out", "k") or x.op in UNKS):
                    st.store[p.args[0]] = v0
            return
        if is_ref_t(t):
            r = self.ev_any(i, st, fr) if i else UNDEF
            fr.env[d] = r.p if isinstance(r, Ref) else self.temp(st, r)
            return
        p = addr(("var", fr.id, d, v["n"]))
        fr.env[d] = p
        if i is None:
            if v.get("vla"):
                n = self.ev_val(v["vla"], st, fr)
                if self.track:
                    self.ev(st, "alloc", "vla", p, [n], line=v.get("l"))
            self.write(st, p, UNDEF)
            return
        if i.get("k") == "ctor" and self.prog.funcs.get(i.get("key")):
            self.write(st, p, UNDEF)
            self.construct(i, st, fr, p)
            return
        if i.get("k") == "ctor" and i.get("cls") in self.prog.records:
            self.write(st, p, UNDEF)
            self.construct(i, st, fr, p)
            return
        x = self.ev_val(i, st, fr)
        if x.op == "str" and is_arr_t(t):
            pass
        self.write(st, p, x)

    def binding_fields(self, v, t):
        ct = clean_t(t)
        n = len(v["bind"])
        if ct.startswith("std::pair") or (ct.startswith("const std::pair")):
            return ["first", "second"]
        if ct.startswith("std::tuple"):
            return [str(j) for j in range(n)]
        r = self.prog.records.get(ct)
        if r:
            return [f["n"] for f in r["f"]][:n]
        if "std::pair" in ct[:14]:
            return ["first", "second"]
        return [str(j) for j in range(n)]

    def s_if(self, s, st, fr):
        if s.get("init"):
            st = self.stmt(s["init"], st, fr)
        if s.get("cv"):
            st = self.stmt(s["cv"], st, fr) if "s" in s["cv"] else (self.declare(s["cv"], st, fr), st)[1]
        c = self.cond(s["c"], st, fr)
        if st.pc is FALSE:
            return st
        a = st.copy()
        a.pc = st.pc & c
        b = st
        b.pc = st.pc & ~c
        if not terms.sat(a.pc):
            a.pc = FALSE
        if not terms.sat(b.pc):
            b.pc = FALSE
        ra = self.stmt(s["t"], a, fr) if a.pc is not FALSE else None
        rb = self.stmt(s["f"], b, fr) if s.get("f") and b.pc is not FALSE else b
        return join_states([ra, rb])

    def s_return(self, s, st, fr):
        v = UNDEF
        if s.get("v") is not None:
            if fr.refret:
                r = self.ev_any(s["v"], st, fr)
                v = r.p if isinstance(r, Ref) else self.temp(st, r)
            else:
                v = self.ev_val(s["v"], st, fr)
        if st.pc is not FALSE:
            fr.rets.append((st.copy(), v))
        return None

    def s_break(self, s, st, fr):
        if fr.brk:
            fr.brk[-1].append(st.copy())
        return None

    def s_continue(self, s, st, fr):
        if fr.cont:
            fr.cont[-1].append(st.copy())
        return None

    def s_label(self, s, st, fr):
        fr.labels.add(s["n"])
        come = fr.gotos.pop(s["n"], [])
        if any(d != len(self.ks) for d, _ in come):
            raise Undecided("a jump out of a loop")
        st = join_states([st] + [x for _, x in come])
        return self.stmt(s["b"], st, fr) if st is not None else None

    THROWING = ("stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold", "at")

    def s_try(self, s, st, fr):
        def ends(b):
            """the handler does not go on"""
            if b is None:
                return False
            if b.get("s") == "block":
                return any(ends(x) for x in b["b"])
            if b.get("s") == "expr":
                x = b.get("x") or {}
                while x.get("k") in ("clean", "paren", "cast") and isinstance(x.get("a"), dict):
                    x = x["a"]
                return x.get("k") == "throw" or any(str(x.get("fn", "")).split("::")[-1] == y for y in
                                                    ("abort", "exit", "_exit", "terminate", "fatal_error_internal", "error"))
            if b.get("s") == "if":
                return bool(b.get("f")) and ends(b["t"]) and ends(b["f"])
            return False
        hs = [h for h in s.get("h", []) if not ends(h["b"])]
        if not hs:
            return self.stmt(s["b"], st, fr)
        # an exception that is caught and passed over: the handler goes on from where the block started
        seen = set()

        def throws(b, depth):
            for x in ast_nodes(b):
                fn = str(x.get("fn", ""))
                if x.get("k") == "throw" or fn.split("::")[-1] in self.THROWING:
                    return True
                if depth and fn in self.prog.by_qn and fn not in seen:
                    seen.add(fn)
                    if any(throws(f.get("b") or f.get("body"), depth - 1) for f in self.prog.by_qn[fn]):
                        return True
            return False
        may = throws(s["b"], 4)
        i = next(self.ev_n)
        a = atom(T("caught", i, *self.ks)) if may else atom(T("unk", "caught", i, *self.ks))
        pre = st.copy()
        pre.pc = st.pc & a
        st.pc = st.pc & ~a
        save, self.catching = self.catching, self.catching + 1
        out = self.stmt(s["b"], st, fr)
        self.catching = save
        outs = [out]
        for h in hs:
            outs.append(self.stmt(h["b"], pre.copy(), fr))
            break
        return join_states(outs)

    def s_case(self, s, st, fr):
        return self.stmt(s["b"], st, fr)

    s_default = s_case

    def s_switch(self, s, st, fr):
        if s.get("init"):
            st = self.stmt(s["init"], st, fr)
        v = self.ev_val(s["c"], st, fr)
        body = s["b"]["b"] if s["b"]["s"] == "block" else [s["b"]]
        # flatten labels
        items = []          # (labels, stmt)

        def flatten(x):
            labs = []
            while x is not None and x["s"] in ("case", "default"):
                if x["s"] == "default":
                    labs.append(None)
                else:
                    labs.append(x["v"])
                x = x["b"]
            return labs, x
        for x in body:
            labs, y = flatten(x)
            items.append((labs, y))
        conds = []
        anyc = FALSE
        for labs, _ in items:
            row = []
            for l in labs:
                if l is None:
                    row.append(None)
                else:
                    lv = self.ev_val(l, st, fr)
                    c = cmp_("==", v, lv, True)
                    row.append(c)
                    anyc = anyc | c
            conds.append(row)
        fr.brk.append([])
        cur = None
        entry = st
        for (labs, y), row in zip(items, conds):
            g = FALSE
            for c in row:
                g = g | (~anyc if c is None else c)
            if g is not FALSE:
                e = entry.copy()
                e.pc = entry.pc & g
                if not terms.sat(e.pc):
                    e = None
                cur = join_states([cur, e]) if cur is not None or e is not None else None
            if cur is not None and y is not None:
                cur = self.stmt(y, cur, fr)
        outs = fr.brk.pop()
        if cur is not None:
            outs.append(cur)
        if not any(None in row for row in conds):
            e = entry.copy()
            e.pc = entry.pc & ~anyc
            if terms.sat(e.pc):
                outs.append(e)
        return join_states(outs)

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        if s.get("init"):
            st = self.stmt(s["init"], st, fr)

        def it(st, k):
            c = self.cond(s["c"], st, fr) if s.get("c") else TRUE
            return c

        def body(st):
            return self.stmt(s["b"], st, fr)

        def inc(st):
            if s.get("inc"):
                self.ev_any(s["inc"], st, fr)
            return st
        r = self.erase_loop(s, st, fr)
        if r is not NotImplemented:
            return r
        return self.loop(st, fr, it, body, inc, s.get("l"))

    def erase_loop(self, s, st, fr):
        """for (it = v.begin(); it != v.end();) if (...) it = v.erase(it); else ++it;
        is a walk over the elements of v that keeps the ones that are not erased"""
        c = s.get("c")
        if not isinstance(c, dict) or s.get("inc") or s.get("cv") or st.pc is FALSE:
            return NotImplemented
        er = [x for x in ast_nodes(s["b"]) if x.get("k") == "call" and str(x.get("fn", "")).endswith("::erase")]
        if len(er) != 1 or any(x.get("s") in ("break", "return", "goto") for x in ast_nodes(s["b"], lambdas=False)):
            return NotImplemented
        a = c.get("a") if c.get("k") == "call" else [c.get("a"), c.get("b")]
        if not a or len(a) != 2 or not isinstance(a[0], dict) or a[0].get("dk") != "local" or a[0].get("k") != "ref":
            a = a[::-1] if a and len(a) == 2 and isinstance(a[1], dict) and a[1].get("dk") == "local" and a[1].get("k") == "ref" else None
        if a is None or a[0].get("d") not in fr.env:
            return NotImplemented
        save = (st.copy(), list(self.events), list(fr.rets), self.ev_n)
        ip = fr.env[a[0]["d"]]
        i0 = self.read(st, ip)
        vp = self.lv(er[0]["obj"], st, fr)
        if i0.op == "iter":
            if i0.args[1] is not ZERO or i0.args[0] is not vp:
                return NotImplemented
            at = lambda i: T("iter", vp, i)
        elif i0 is ZERO:
            at = lambda i: i
        else:
            return NotImplemented
        v = self.read(st, vp)
        n = size(v)
        # the condition is: not at the end
        probe = st.copy()
        k0 = T("k", next(self.loop_n))
        self.write(probe, ip, at(k0))
        if not terms.equiv(self.cond(c, probe, fr) & cmp_("<=", k0, n, True), cmp_("<", k0, n, True)):
            self.events[:] = save[1]
            return NotImplemented
        flag = addr(("var", fr.id, "$erased", next(self.loop_n)))
        kept = addr(("var", fr.id, "$kept", next(self.loop_n)))
        self.write(st, kept, EMPTYSEQ)
        self.write(st, flag, bterm(FALSE))
        bad = []
        cur = []

        def it(s2, k):
            self.write(s2, ip, at(k))
            self.write(s2, flag, bterm(FALSE))
            cur[:] = [k]
            return cmp_("<", k, n, True)

        def body(s2):
            self.erasing.append((vp, cur[0], flag))
            try:
                return self.stmt(s["b"], s2, fr)
            finally:
                self.erasing.pop()

        def inc(s2):
            k = cur[0]
            g = restrict(truth(self.read(s2, flag)), s2.pc)
            iv = self.read(s2, ip)
            bad[:] = []
            for h, w in ((g, k), (~g, add(k, ONE))):
                x = simp(iv, s2.pc & h)
                if x.op == "iter" and x.args[0] is vp:
                    x = simp(x.args[1], s2.pc & h)
                elif i0.op == "iter":
                    x = None
                if x is not w and terms.sat(s2.pc & h):
                    bad.append(iv)
            if self.read(s2, vp) is not v:
                bad.append(v)
            kv = self.read(s2, kept)
            self.write(s2, kept, join(g, kv, seq(parts(kv) + (T("item", elt(v, k)),))))
            return s2
        r = self.loop(st, fr, it, body, inc, s.get("l"), count=n)
        if bad:
            st.store, st.pc = save[0].store, save[0].pc
            self.events[:] = save[1]
            fr.rets[:] = save[2]
            return NotImplemented
        if r is not None and r.pc is not FALSE:
            w = self.read(r, kept)
            self.write(r, vp, w)
            self.write(r, ip, at(size(w)))
        return r

    def s_while(self, s, st, fr):
        r = self.erase_loop(s, st, fr)
        if r is not NotImplemented:
            return r

        def it(st, k):
            if s.get("cv"):
                self.declare(s["cv"], st, fr)
            return self.cond(s["c"], st, fr)
        return self.loop(st, fr, it, lambda st: self.stmt(s["b"], st, fr), lambda st: st, s.get("l"))

    def s_do(self, s, st, fr):
        return self.loop(st, fr, None, lambda st: self.stmt(s["b"], st, fr), lambda st: st, s.get("l"),
                         post=lambda st: self.cond(s["c"], st, fr))

    def s_rangefor(self, s, st, fr):
        r = self.ev_any(s["r"], st, fr)
        p = r.p if isinstance(r, Ref) else self.temp(st, r)
        t = s["r"].get("t")
        v = self.read(st, p)
        if is_arr_t(t):
            n = num(arr_len(t)) if arr_len(t) is not None else size(v)
        else:
            n = self.csize(v)
        var = s["v"]
        return self.each(st, fr, p, v, n, lambda st, ep: self.bind_loopvar(st, fr, var, ep),
                         lambda st: self.stmt(s["b"], st, fr), s.get("l"))

    def bind_loopvar(self, st, fr, var, ep):
        if var.get("bind"):
            base = ep if is_ref_t(var["t"]) else self.temp(st, self.read(st, ep))
            fr.env[var["d"]] = base
            for b, n in zip(var["bind"], self.binding_fields(var, var["t"])):
                fr.env[b["d"]] = field_ptr(base, n)
        elif is_ref_t(var["t"]):
            fr.env[var["d"]] = ep
        else:
            q = addr(("var", fr.id, var["d"], var["n"]))
            fr.env[var["d"]] = q
            self.write(st, q, self.read(st, ep))

    def csize(self, v):
        return size(v)

    def each(self, st, fr, p, v, n, bind, body, line):
        """for every element of the container at p"""
        if v.op == "seq" and all(x.op == "item" for x in v.args) and len(v.args) <= UNROLL:
            fr.brk.append([])
            outs = []
            for i in range(len(v.args)):
                if st is None or st.pc is FALSE:
                    break
                bind(st, index_ptr(p, num(i)))
                fr.cont.append([])
                st = body(st)
                st = join_states(fr.cont.pop() + [st])
            outs = fr.brk.pop()
            return join_states(outs + [st])

        def it(st, k):
            bind(st, index_ptr(p, k))
            return cmp_("<", k, n, True)
        return self.loop(st, fr, it, body, lambda st: st, line, count=n)

    def loop(self, st, fr, it, body, inc, line, count=None, post=None):
        """General loop.  it(st,k): guard of iteration k; post: do-while condition."""
        if st.pc is FALSE:
            return st
        entry_pc = st.pc
        # --- small constant trip counts
        if count is None and post is None:
            r = self.try_unroll(st, fr, it, body, inc)
            if r is not NotImplemented:
                return r
        L = next(self.loop_n)
        k = T("k", L)
        self.ks.append(k)
        mods = {}
        file, fnname = self.file, self.fnname

        def once(s0, record):
            """one generic iteration from s0: (cont guard, next, exit state at the condition, breaks, returns)"""
            save = self.events
            self.events = []
            nr = len(fr.rets)
            s = s0.copy()
            exit_s = None
            c = TRUE
            if it is not None:
                c = it(s, k)
                exit_s = s.copy()
                exit_s.pc = s.pc & ~c
                s.pc = s.pc & c
                if not terms.sat(s.pc):
                    s.pc = FALSE
            fr.brk.append([])
            fr.cont.append([])
            s = body(s) if s.pc is not FALSE else None
            s = join_states(fr.cont.pop() + [s])
            if s is not None and s.pc is not FALSE:
                s = inc(s)
            if post is not None and s is not None and s.pc is not FALSE:
                c = self.cond2(post, s)
                exit_s = s.copy()
                exit_s.pc = s.pc & ~c
                s = s.copy()
                s.pc = s.pc & c
            brk = fr.brk.pop()
            rets = fr.rets[nr:]
            del fr.rets[nr:]
            evs = self.events
            self.events = save
            return c, s, exit_s, brk, rets, evs

        base = st.copy()
        nev = None
        for rnd in range(6):
            cur = base.copy()
            for (root, path), m in mods.items():
                self.write(cur, addr(root, path), m)
            ev_save = self.ev_n
            c, nxt, exit_s, brk, rets, evs = once(cur, False)
            new = {}
            for s in [nxt, exit_s] + brk + [r[0] for r in rets]:
                if s is None or s.pc is FALSE:
                    continue
                for loc in self.diff(cur, s):
                    if loc[0][0] == "mem" and contains(loc[0][1], lambda t: t is k):
                        continue        # an object of this iteration only
                    if self.covered(loc, mods) is None:
                        new[loc] = True
            if not new:
                break
            for loc in new:
                # drop finer entries below a coarser one
                for l2 in list(mods):
                    if l2[0] == loc[0] and l2[1][:len(loc[1])] == loc[1]:
                        del mods[l2]
                mods[loc] = self.mk_mu(base, loc, L)
        else:
            self.ks.pop()
            raise Undecided("loop at %s:%s does not stabilise" % (file, line))
        self.ks.pop()
        return self.close(st, base, fr, k, L, mods, c, nxt, exit_s, brk, rets, evs, line, count, post is not None,
                          entry_pc)

    def cond2(self, post, s):
        return post(s)

    def covered(self, loc, mods):
        for l in mods:
            if l[0] == loc[0] and loc[1][:len(l[1])] == l[1]:
                return l
        return None

    def mk_mu(self, base, loc, L):
        root, path = loc
        v = self.read(base, addr(root, path))
        m = T("mu", L, root, path)
        if v.op == "iter":
            return T("iter", v.args[0], m)
        if v.op == "addr" and v.args[1] and v.args[1][-1][0] == "i":
            return T("addr", v.args[0], v.args[1][:-1] + (("i", m),))
        return m

    def diff(self, a, b):
        out = []

        def rec_diff(root, path, x, y):
            if x is y:
                return
            if y.op == "rec" or x.op == "rec":
                bx = x.args[0] if x.op == "rec" else x
                by = y.args[0] if y.op == "rec" else y
                if bx is by:
                    fs = set()
                    for z in (x, y):
                        if z.op == "rec":
                            fs |= {f for f, _ in z.args[1]}
                    for f in sorted(fs):
                        rec_diff(root, path + (("f", f),), sel(x, f), sel(y, f))
                    return
            out.append((root, path))
        for r in list(a.store) + [r for r in b.store if r not in a.store]:
            x = a.store.get(r)
            y = b.store.get(r)
            if x is None:
                if r[0] in ("tmp",) or (r[0] in ("var", "heap")):
                    continue        # created inside the iteration
                x = self.root_value(a, r)
            if y is None:
                continue
            rec_diff(r, (), x, y)
        return out

    def try_unroll(self, st, fr, it, body, inc):
        save_ev = list(self.events)
        save_rets = list(fr.rets)
        s = st.copy()
        fr.brk.append([])
        exits = []
        ok = False
        for i in range(UNROLL + 1):
            mark = len(self.events)
            c = it(s, None)
            if restrict(c, s.pc) is FALSE:
                c = FALSE
            elif restrict(c, s.pc) is TRUE:
                c = TRUE
            if c is FALSE:
                ok = True
                break
            if c is not TRUE or i == UNROLL:
                break
            fr.cont.append([])
            s = body(s)
            s = join_states(fr.cont.pop() + [s])
            if s is None or s.pc is FALSE:
                ok = i > 0 or True
                break
            s = inc(s)
            if i == 0 and len(self.events) - mark > 4000:
                break
        brk = fr.brk.pop()
        if ok:
            return join_states(brk + [s])
        self.events[:] = save_ev
        fr.rets[:] = save_rets
        return NotImplemented

    def close(self, st, base, fr, k, L, mods, c, nxt, exit_s, brk, rets, evs, line, count, dowhile, entry_pc):
        # init and next value of every modified location
        mu, init, nextv = {}, {}, {}
        for loc, m in mods.items():
            p = addr(*loc)
            iv = self.read(base, p)
            nv = self.read(nxt, p) if nxt is not None and nxt.pc is not FALSE else None
            if m.op == "iter":
                mm, iv = m.args[1], iv.args[1]
                if nv is not None:
                    nv = nv.args[1] if nv.op == "iter" and nv.args[0] is m.args[0] else T("unkiter", nv)
            elif m.op == "addr":
                mm, iv = m.args[1][-1][1], iv.args[1][-1][1]
                if nv is not None:
                    nv = nv.args[1][-1][1] if nv.op == "addr" and nv.args[0] is m.args[0] and nv.args[1] and \
                        nv.args[1][:-1] == m.args[1][:-1] else T("unkiter", nv)
            else:
                mm = m
            mu[loc], init[loc] = mm, iv
            if nv is None:
                nv = mm
            nextv[loc] = simp(nv, nxt.pc) if nxt is not None else nv
        allmu = {m: loc for loc, m in mu.items()}

        def has_mu(t, among=None):
            return any(x.op == "mu" and x in allmu and (among is None or x in among) for x in subterms(t))
        sub_k = {}          # mu -> value at iteration k
        final = {}          # loc -> function of N (lambda)
        unresolved = set(mods)
        progress = True
        while progress:
            progress = False
            for loc in sorted(unresolved, key=lambda l: mu[l].id):
                m, iv = mu[loc], init[loc]
                nv = subst(nextv[loc], sub_k)
                if nv is m:
                    sub_k[m] = iv
                    final[loc] = lambda n, iv=iv: iv
                    unresolved.discard(loc)
                    progress = True
                    continue
                d = self.delta(nv, m)
                if d is not None and not has_mu(d):
                    if not contains(d, lambda t: t is k):
                        sub_k[m] = add(iv, mul(d, k))
                        final[loc] = lambda n, iv=iv, d=d: add(iv, mul(d, n))
                        if nonneg(iv) and nonneg(d):
                            pass
                    else:
                        k2 = T("k", next(self.loop_n))
                        dd = subst(d, {k: k2})
                        sub_k[m] = add(iv, mk_sum(k2, k, dd))
                        final[loc] = lambda n, iv=iv, dd=dd, k2=k2: add(iv, mk_sum(k2, n, dd))
                    unresolved.discard(loc)
                    progress = True
                    continue
        # forms that do not feed other unresolved ones
        progress = True
        while progress:
            progress = False
            for loc in sorted(unresolved, key=lambda l: mu[l].id):
                m, iv = mu[loc], init[loc]
                nv = subst(nextv[loc], sub_k)
                r = self.closed_form(nv, m, iv, k, lambda t: has_mu(t))
                if r is not None:
                    sub_k[m] = r(k)
                    final[loc] = r
                    unresolved.discard(loc)
                    progress = True
        if unresolved:
            # mutually dependent: folds
            locs = sorted(unresolved, key=lambda l: mu[l].id)
            deps = {}
            for l in locs:
                nv = subst(nextv[l], sub_k)
                deps[l] = {allmu[x] for x in subterms(nv) if x.op == "mu" and x in allmu and allmu[x] in unresolved}
                deps[l].add(l)
            changed = True
            while changed:
                changed = False
                for l in locs:
                    n2 = set(deps[l])
                    for x in deps[l]:
                        n2 |= deps[x]
                    if n2 != deps[l]:
                        deps[l] = n2
                        changed = True
            for l in locs:
                grp = [x for x in locs if x in deps[l]]
                ren = {mu[x]: T("acc", L, i) for i, x in enumerate(grp)}
                names = tuple(self.locname(x) for x in grp)
                inits = tuple(init[x] for x in grp)
                k2 = T("k", next(self.loop_n))
                ren[k] = k2
                steps = tuple(subst(subst(nextv[x], sub_k), ren) for x in grp)
                me = grp.index(l)
                accs = tuple(T("acc", L, i) for i in range(len(grp)))

                def fin(n, inits=inits, steps=steps, k2=k2, me=me, names=names, accs=accs):
                    if n is ZERO:
                        return inits[me]
                    return T("fold", k2, n, me, inits, steps, accs, names)
                final[l] = fin
            add_k = {mu[l]: final[l](k) for l in locs}
            for m in list(sub_k):
                sub_k[m] = subst(sub_k[m], add_k)
            fin2 = {}
            for l in final:
                if l in unresolved:
                    fin2[l] = final[l]
                else:
                    def g(n, f=final[l]):
                        r = f(n)
                        if has_mu(r):
                            r = subst(r, add_k)
                        return r
                    fin2[l] = g
            final = fin2
            sub_k.update(add_k)
        S = lambda t: subst(t, sub_k)
        SB = lambda b: map_b_subst(b, sub_k)
        c = SB(c)
        # trip count
        n = count
        if n is None:
            n = self.trip(c, k, dowhile)
            if n is None:
                n = T("trip", k, bterm(c))
                if dowhile:
                    n = add(ONE, n)
        # early exits
        ex = FALSE
        for s in brk:
            ex = ex | SB(s.pc)
        for s, _ in rets:
            ex = ex | SB(s.pc)
        nxt_pc = SB(nxt.pc) if nxt is not None else FALSE
        ex_rel = restrict(ex, entry_pc) if ex is not FALSE else FALSE
        has_ex = terms.sat(ex) if ex is not FALSE else False
        n_full = n
        if has_ex:
            n = T("first", k, n_full, bterm(ex_rel))
            mark_nonneg(n)
        for e in evs:
            e.map(S, SB)
        le = LoopEv(k=k, n=n_full, guard=entry_pc, body=evs, line=line, file=self.file, cont=c, fn=self.fnname,
                    exits=ex, id=L, ends=nxt_pc | ex if nxt is not None or has_ex else TRUE)
        if evs:
            self.events.append(le)
        # aborting iterations
        body_in = entry_pc & (c if not dowhile else TRUE)
        alive = nxt_pc | ex | (SB(exit_s.pc) if exit_s is not None else FALSE)
        die = body_in & ~alive
        after = entry_pc
        if terms.sat(die):
            g = restrict(die, entry_pc)
            after = after & ~atom(T("any", k, n, bterm(g)))
        anyex = TRUE
        # a loop whose condition always holds is left by its exits only: what follows runs if one is taken
        endless = has_ex and c is TRUE and n_full.op == "trip"
        if has_ex and not endless:
            anyex = atom(T("any", k, n_full, bterm(ex_rel)))
        outs = []
        # normal exit
        if (exit_s is not None or (nxt is None)) and not endless:
            s = st.copy() if exit_s is None else exit_s.copy()
            s.store = dict(base.store)
            if exit_s is not None:
                # locations written only by evaluating the condition keep the exit value
                for r in exit_s.store:
                    if r not in s.store and r[0] in ("var", "tmp", "heap", "mem", "glob"):
                        s.store[r] = exit_s.store[r]
            s.pc = after & (~anyex if has_ex else TRUE)
            for loc in mods:
                s_v = self.unwrap(mods[loc], final[loc](n_full))
                self.write(s, addr(*loc), s_v)
            if nxt is not None:
                for r, v in nxt.store.items():
                    if r[0] != "mem" or r in base.store or not contains(r[1], lambda t: t is k):
                        continue
                    r2 = ("each", subst(S(r[1]), {k: EACH}))
                    if contains(r2[1], lambda t: t.op == "mu"):
                        continue
                    s.store[r2] = subst(S(v), {k: EACH}) if not has_ex else T("unk", "early exit", L)
            if exit_s is not None:
                # effects of the failing condition evaluation
                for loc in mods:
                    p = addr(*loc)
                    at_top = mods[loc]
                    v = self.read(exit_s, p)
                    if v is not at_top and (dowhile or not self.same_after(v, at_top)):
                        kk = sub(n_full, ONE) if dowhile else n_full
                        v2 = subst(S(v), {k: kk})
                        if dowhile:
                            pass
                        else:
                            self.write(s, p, v2)
            outs.append(s)
        at = {k: n}
        for b in brk:
            s = b.copy()
            g = SB(b.pc)
            s.pc = after & anyex & self.at_exit(g, ex, at, entry_pc)
            s.store = {r: subst(S(v), at) for r, v in b.store.items()}
            outs.append(s)
        for rs, rv in rets:
            s = rs.copy()
            g = SB(rs.pc)
            s.pc = after & anyex & self.at_exit(g, ex, at, entry_pc)
            s.store = {r: subst(S(v), at) for r, v in rs.store.items()}
            fr.rets.append((s, subst(S(rv), at) if isinstance(rv, T) else rv))
        r = join_states(outs)
        if r is None:
            st.pc = FALSE
            return None
        return r

    def at_exit(self, g, ex, at, entry_pc):
        """which of several exits is taken, at the iteration that leaves"""
        if g is ex:
            return TRUE
        return map_b_subst(restrict(g, ex), at)

    def same_after(self, v, top):
        return v is top

    def unwrap(self, m, v):
        if m.op == "iter":
            return T("iter", m.args[0], v)
        if m.op == "addr":
            return T("addr", m.args[0], m.args[1][:-1] + (("i", v),))
        return v

    def locname(self, loc):
        root, path = loc
        return ".".join([str(root[-1]) if not isinstance(root[-1], T) else "obj"] + [str(s[1]) for s in path])

    def delta(self, nv, m):
        """nv - m when nv is m plus something (through gates)"""
        if nv is m:
            return ZERO
        if nv.op == "ite":
            a, b = self.delta(nv.args[1], m), self.delta(nv.args[2], m)
            if a is None or b is None:
                return None
            return ite(nv.args[0], a, b)
        if nv.op == "poly":
            d = sub(nv, m)
            if not contains(d, lambda t: t is m):
                return d
        return None

    def closed_form(self, nv, m, iv, k, has_mu):
        if not has_mu(nv):
            # value of the last iteration
            def r(n):
                if n is ZERO:
                    return iv
                last = subst(nv, {k: sub(n, ONE)})
                if iv.op == "undef":
                    return last
                return join(cmp_(">=", n, ONE, True), last, iv)
            return r
        # appended parts
        if nv.op == "seq" and nv.args and nv.args[0].op == "spread" and nv.args[0].args[0] is m:
            rest = nv.args[1:]
            if not any(has_mu(p) for p in rest):
                k2 = T("k", next(self.loop_n))
                body = tuple(subst(p, {k: k2}) for p in rest)

                def r(n):
                    return seq(parts(iv) + (T("comp", k2, n, body),))
                return r
        if nv.op == "cat" and nv.args[0] is m and not any(has_mu(p) for p in nv.args[1:]):
            k2 = T("k", next(self.loop_n))
            body = subst(cat(*nv.args[1:]), {k: k2})

            def r(n):
                return cat(iv, T("rep", k2, n, body)) if n is not ZERO else iv
            return r
        if nv.op == "upd" and nv.args[0] is m and not has_mu(nv.args[1]):
            idx, val = nv.args[1], nv.args[2]
            if not contains(sub(idx, k), lambda t: t is k):
                own = T("elt", m, idx)
                val2 = subst(val, {own: elt(iv, idx)})
                if not has_mu(val2):
                    k2 = T("k", next(self.loop_n))
                    i2, v2 = subst(idx, {k: k2}), subst(val2, {k: k2})

                    def r(n):
                        return T("tab", iv, k2, n, i2, v2) if n is not ZERO else iv
                    return r
        return None

    def trip(self, c, k, dowhile, depth=0):
        """N with: iteration k runs iff k < N"""
        c0 = c
        cands = []
        for a in batoms(c):
            if a.op != "ge0":
                continue
            p = to_poly(a.args[0])
            ck = p.get((k,), 0)
            if abs(ck) != 1:
                continue
            if any(k in m and len(m) > 1 for m in p):
                continue
            rest = from_poly({m: v for m, v in p.items() if m != (k,)})
            b = scale(rest, -1) if ck == 1 else rest
            cands += [b, add(b, ONE), add(b, num(-1))]
        for n in cands:
            if contains(n, lambda t: t is k):
                continue
            lt = cmp_("<", k, n, True)
            if terms.implies(lt, c) and map_b_subst(c, {k: n}) is FALSE:
                return add(n, ONE) if dowhile else n
        # several upper bounds: the least of them
        ups = []
        for n in cands:
            if not contains(n, lambda t: t is k) and n not in ups and \
                    terms.implies(c, cmp_("<", k, n, True)):
                ups.append(n)
        ups = [n for n in ups if not any(m is not n and sub(n, m).op == "num" and sub(n, m).args[0] > 0 for m in ups)]
        if not dowhile and 2 <= len(ups) <= 3:
            both = TRUE
            for n in ups:
                both = both & cmp_("<", k, n, True)
            if terms.equiv(both, c):
                least = ups[0]
                for n in ups[1:]:
                    least = ite(cmp_("<", n, least, True), n, least)
                return least
        # the bound depends on a condition
        if not dowhile and depth < 3:
            for a in batoms(c):
                if contains(a, lambda t: t is k):
                    continue
                g = atom(a)
                x = self.trip(restrict(c, g), k, dowhile, depth + 1)
                y = self.trip(restrict(c, ~g), k, dowhile, depth + 1) if x is not None else None
                if y is not None:
                    return ite(g, x, y)
                break
        return None

    # ------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        return self.truthy(self.ev_val(e, st, fr), e.get("t"))

    def truthy(self, v, t=None):
        if v.op == "b":
            return v.args[0]
        if v.op == "undef":
            return FALSE
        if t is not None and (is_int_t(t)):
            return cmp_("!=", v, ZERO, True)
        if t is not None and is_flt_t(t):
            return cmp_("!=", v, ZERO, False)
        if v.op in ("num", "poly"):
            return cmp_("!=", v, ZERO, True)
        if t is not None and is_ptr_t(t):
            return ~eq(v, NULL)
        return truth(v)

    def ev_val(self, e, st, fr):
        r = self.ev_any(e, st, fr)
        if isinstance(r, Ref):
            v = self.read(st, r.p)
            if r.moved:
                pass
            return v
        return r

    def lv(self, e, st, fr):
        r = self.ev_any(e, st, fr)
        return r.p if isinstance(r, Ref) else self.temp(st, r)

    def ev_any(self, e, st, fr):
        if e is None:
            return UNDEF
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            self.note("expression %s" % e["k"], e.get("l"))
            return self.unknown(e["k"])
        return m(e, st, fr)

    def x_int(self, e, st, fr):
        return num(int(e["v"]))

    def x_bool(self, e, st, fr):
        return bterm(TRUE if e["v"] else FALSE)

    def x_flt(self, e, st, fr):
        v = e["v"]
        if v in ("inf", "-inf", "nan", "-nan"):
            return T("fconst", v)
        return num(Fraction(float(v)))

    def x_str(self, e, st, fr):
        return T("str", e["v"])

    def x_null(self, e, st, fr):
        return NULL

    def x_zero(self, e, st, fr):
        t = e.get("t")
        if is_int_t(t) or is_flt_t(t):
            return ZERO
        if clean_t(t) == "bool":
            return bterm(FALSE)
        if is_ptr_t(t):
            return NULL
        v = self.std.default_value(self, t)
        return v if v is not None else T("zeroed", clean_t(t))

    def x_this(self, e, st, fr):
        return fr.this if fr.this is not None else T("this")

    def x_ref(self, e, st, fr):
        dk = e.get("dk")
        if "cval" in e and e["cval"] is not None:
            try:
                return num(int(e["cval"]))
            except ValueError:
                pass
        if dk in ("local", "other"):
            f = fr
            p = fr.env.get(e["d"])
            if p is None and e.get("qn"):
                return Ref(addr(("glob", e["qn"])))
            if p is None:
                # captured variable or static local
                f = fr.parent
                while f is not None:
                    if e["d"] in f.env:
                        p = f.env[e["d"]]
                        break
                    f = f.parent
            if p is None:
                p = addr(("var", fr.id, e["d"], e["n"]))
                fr.env[e["d"]] = p
            return Ref(p)
        if dk == "global":
            p = fr.env.get(e["d"])
            if p is not None:
                return Ref(p)
            qn = e.get("qn") or e["n"]
            g = self.prog.globals.get(qn)
            t = (g or {}).get("t") or e.get("t") or ""
            if g is not None and g.get("i") is not None and (t.startswith("const ") or " const" in t):
                root = ("glob", qn)
                if root not in st.store and root not in self.consts:
                    v = self.ev_val(g["i"], st, fr)
                    if contains(v, lambda x: x.op in ("in", "mu", "res", "out", "k") or x.op in UNKS):
                        st.store[root] = v
                    else:
                        self.consts[root] = v
            return Ref(addr(("glob", qn)))
        if dk == "func":
            return T("fn", e.get("qn") or e.get("fn") or e["n"], e.get("key"))
        if dk == "enum":
            return T("enum", e.get("qn") or e["n"])
        return self.unknown("ref " + e.get("n", ""))

    def x_mem(self, e, st, fr):
        b = self.ev_any(e["b"], st, fr)
        if e.get("arrow"):
            p = self.read(st, b.p) if isinstance(b, Ref) else b
        else:
            p = b.p if isinstance(b, Ref) else self.temp(st, b)
        fp = field_ptr(p, e["f"])
        if e.get("anon"):
            fp = p
        ft = self.field_type(e.get("cls"), e["f"])
        if ft and is_ref_t(ft):
            v = self.read(st, fp)
            return Ref(v)
        if clean_t(e.get("t")) in UNSIGNED_T:
            v = self.read(st, fp)
            if v.op == "in":
                mark_nonneg(v)
        return Ref(fp)

    def x_memfn(self, e, st, fr):
        return self.unknown("memfn")

    def x_sub(self, e, st, fr):
        b = self.ev_any(e["b"], st, fr)
        bt = e["b"].get("t")
        i = self.ev_val(e["i"], st, fr)
        if isinstance(b, Ref) and is_arr_t(bt):
            p = index_ptr(b.p, i)
            base = b.p
        else:
            base = self.read(st, b.p) if isinstance(b, Ref) else b
            if base.op == "str" and is_num(i):
                s = base.args[0]
                j = int(i.args[0])
                return num(ord(s[j])) if 0 <= j < len(s) else ZERO
            p = offset_ptr(base, i)
            if p.op not in ("addr", "iter", "ite"):
                p = T("addr", ("mem", p), (("i", ZERO),))
        if self.track:
            self.ev(st, "access", "[]", base, [i], line=e.get("l"), t=bt)
        return Ref(p)

    def x_un(self, e, st, fr):
        op = e["op"]
        if op == "&":
            r = self.ev_any(e["a"], st, fr)
            if isinstance(r, Ref):
                return r.p
            if r.op == "fn":
                return r
            return self.temp(st, r)
        if op == "*":
            v = self.ev_val(e["a"], st, fr)
            if v.op in ("fn",):
                return v
            if v.op not in ("addr", "iter", "ite") and not self.is_record(e.get("t")):
                return Ref(T("addr", ("mem", v), (("i", ZERO),)))
            return Ref(as_addr(v) if v.op != "ite" else lift1(as_addr, v))
        if op in ("++", "--", "p++", "p--"):
            p = self.lv(e["a"], st, fr)
            old = self.read(st, p)
            d = num(1 if "++" in op else -1)
            new = self.plus(old, d, e["a"].get("t"))
            if self.WIDTH.get(clean_t(e["a"].get("t")), 32) in (8, 16) and not is_num(new):
                new = T("narrow", new, self.WIDTH[clean_t(e["a"]["t"])])
            self.write(st, p, new)
            return old if op[0] == "p" else Ref(p)
        v = self.ev_val(e["a"], st, fr)
        if op == "!":
            return bterm(~self.truthy(v, e["a"].get("t")))
        if op == "-":
            return lift1(lambda x: scale(x, -1), self.to_num(v))
        if op == "+":
            return v
        if op == "~":
            return T("bitnot", v)
        return self.unknown("unary " + op)

    def is_record(self, t):
        t = clean_t(t)
        return t in self.prog.records or t.startswith(("std::", "(lambda", "cv::"))

    def plus(self, old, d, t):
        if old.op in ("iter", "addr") or is_ptr_t(t):
            return offset_ptr(old, d)
        if old.op == "ite" and any(x.op in ("iter", "addr") for _, x in cases(old)):
            return lift1(lambda x: offset_ptr(x, d), old)
        return lift2(add, self.to_num(old), d)

    def to_num(self, v):
        if v.op == "b":
            return ite(v.args[0], ONE, ZERO)
        if v.op == "undef":
            return v
        return v

    def x_asgn(self, e, st, fr):
        a = self.ev_any(e["a"], st, fr)
        v = self.ev_val(e["b"], st, fr)
        if not isinstance(a, Ref):
            return a
        self.write(st, a.p, v)
        return a

    def x_casgn(self, e, st, fr):
        v = self.ev_val(e["b"], st, fr)
        a = self.ev_any(e["a"], st, fr)
        if not isinstance(a, Ref):
            return a
        old = self.read(st, a.p)
        op = e["op"].rstrip("=")
        t = e.get("ct") or e["a"].get("t")
        if is_ptr_t(e["a"].get("t")):
            new = offset_ptr(old, v if op == "+" else scale(v, -1))
        else:
            new = self.arith(op, old, v, t, t, t)
            if is_flt_t(t) and is_int_t(e["a"].get("t")):
                new = T("trunc", new)
            elif clean_t(t) in ("double",) and clean_t(e["a"].get("t")) == "float":
                new = self.f32(new)
            elif self.WIDTH.get(clean_t(e["a"].get("t")), 32) in (8, 16) and not is_num(new):
                new = T("narrow", new, self.WIDTH[clean_t(e["a"]["t"])])
        self.write(st, a.p, new)
        return a

    def f32(self, v):
        if v.op == "num":
            import struct
            f = float(v.args[0])
            if struct.unpack("f", struct.pack("f", f))[0] == f:
                return v
        if v.op == "ite":
            return ite(v.args[0], self.f32(v.args[1]), self.f32(v.args[2]))
        if v.op in ("f32",):
            return v
        return T("f32", v)

    def x_bin(self, e, st, fr):
        op = e["op"]
        if op == ",":
            self.ev_any(e["a"], st, fr)
            return self.ev_any(e["b"], st, fr)
        if op in ("&&", "||"):
            a = self.cond(e["a"], st, fr)
            s2 = st.copy()
            s2.pc = st.pc & (a if op == "&&" else ~a)
            if not terms.sat(s2.pc):
                return bterm(FALSE if op == "&&" else TRUE)
            s1 = st.copy()
            s1.pc = st.pc & (~a if op == "&&" else a)
            b = self.cond(e["b"], s2, fr)
            if s2.store != s1.store or s2.pc is not (st.pc & (a if op == "&&" else ~a)):
                j = join_states([s1, s2])
                st.set(j) if j else setattr(st, "pc", FALSE)
            return bterm((a & b) if op == "&&" else (a | b))
        a = self.ev_val(e["a"], st, fr)
        b = self.ev_val(e["b"], st, fr)
        ta, tb = e["a"].get("t"), e["b"].get("t")
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return bterm(self.compare(op, a, b, ta, tb))
        if is_ptr_t(ta) or is_arr_t(ta) or a.op in ("iter",):
            if op == "+":
                return offset_ptr(self.decay(e["a"], a, st, fr), b)
            if op == "-" and (is_int_t(tb)):
                return offset_ptr(self.decay(e["a"], a, st, fr), scale(b, -1))
            if op == "-":
                return self.ptr_diff(a, b)
        if is_ptr_t(tb) and op == "+":
            return offset_ptr(b, a)
        return self.arith(op, a, b, ta, tb, e.get("t"))

    def decay(self, e, v, st, fr):
        if is_arr_t(e.get("t")):
            return index_ptr(self.lv(e, st, fr), ZERO)
        return v

    def ptr_diff(self, a, b):
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return sub(a.args[1], b.args[1])
        if a.op == "addr" and b.op == "addr" and a.args[0] == b.args[0] and a.args[1][:-1] == b.args[1][:-1]:
            return sub(a.args[1][-1][1], b.args[1][-1][1])
        return T("ptrdiff", a, b)

    def compare(self, op, a, b, ta, tb):
        if a.op == "undef" or b.op == "undef":
            return atom(T("cmp", op, a, b, next(self.ev_n)))
        if op in (">", ">="):
            return self.compare({">": "<", ">=": "<="}[op], b, a, tb, ta)
        if clean_t(ta) == "bool" or clean_t(tb) == "bool" or (a.op == "b" and b.op == "b"):
            if op in ("==", "!="):
                x, y = self.truthy(a, ta), self.truthy(b, tb)
                r = ~bxor(x, y)
                return r if op == "==" else ~r
        flt = is_flt_t(ta) or is_flt_t(tb)
        numeric = flt or (is_int_t(ta) and is_int_t(tb)) or \
            (a.op in ("num", "poly") and b.op in ("num", "poly"))
        if (is_int_t(ta) or is_int_t(tb)) and not (is_ptr_t(ta) or is_ptr_t(tb)):
            numeric = True
        if numeric:
            a, b = self.to_num(a), self.to_num(b)
            if a is b and op in ("==", "!=") and is_flt_t(ta) and is_flt_t(tb) and not is_num(a):
                return atom(T("isnan", a)) if op == "!=" else ~atom(T("isnan", a))
            return cmp_(op, a, b, not flt)
        return self.cmp_vals(op, a, b)

    def cmp_vals(self, op, a, b):
        """comparison of non-arithmetic values (pointers, iterators, strings, containers)"""
        if op == "!=":
            return ~self.cmp_vals("==", a, b)
        if op == "==":
            return blift2(self._eqv, a, b)
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return cmp_(op, a.args[1], b.args[1], True)
        if op == "<=":
            return ~self.cmp_vals("<", b, a)
        return atom(T("less", a, b))

    def _eqv(self, a, b):
        for x, y in ((a, b), (b, a)):
            # where an absent key would go there is another key
            if x.op == "fld" and x.args[1] == "first" and x.args[0].op == "elt" and x.args[0].args[1].op == "lb" and \
                    x.args[0].args[1].args[1] is y:
                return FALSE
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return blift2(self._eqidx, a.args[1], b.args[1])
        if a.op == "rec" and b.op == "rec":
            fs = {f for f, _ in a.args[1]} | {f for f, _ in b.args[1]}
            r = TRUE
            for f in fs:
                r = r & blift2(self._eqv, sel(a, f), sel(b, f))
            for x, y in ((a, b), (b, a)):
                ls = {t for f in fs for t in subterms(sel(x, f)) if t.op == "lb" and t.args[1] is y}
                if len(ls) == 1:
                    (l,) = ls
                    g, key = has(*l.args), T("fld", T("elt", l.args[0], l), "first")
                    if all(v is T("fld", key, f) for f in fs for c, v in cases(sel(x, f)) if terms.sat(c & ~g)):
                        r = r & g
            return r
        return keq(a, b)

    def _eqidx(self, x, y):
        for p, q in ((x, y), (y, x)):
            if p.op == "pos":
                m, key = p.args
                if q.op == "pos":
                    return keq(key, q.args[1])
                if q is size(m) or q.op == "size":
                    return ~has(m, key)
            if p.op == "firstpos":
                # find_if style: size when absent
                if q is p.args[1]:
                    return ~truth(p.args[2])
        return cmp_("==", x, y, True)

    def arith(self, op, a, b, ta, tb, t):
        a, b = self.to_num(a), self.to_num(b)
        if a.op == "undef" or b.op == "undef":
            return UNDEF if op != "*" else UNDEF
        integer = is_int_t(t) and not is_flt_t(ta) and not is_flt_t(tb)
        if op == "+":
            return self.lin(add, a, b)
        if op == "-":
            return self.lin(terms.sub, a, b)
        if op == "*":
            return self.lin(mul, a, b)
        if op == "/":
            return lift2(lambda x, y: div(x, y, integer), a, b)
        if op == "%":
            return lift2(mod, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if clean_t(t) == "bool" and op in ("&", "|"):
                x, y = self.truthy(a, "bool"), self.truthy(b, "bool")
                return bterm(x & y if op == "&" else x | y)
            if is_num(a) and is_num(b):
                x, y = int(a.args[0]), int(b.args[0])
                return num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << max(y, 0), ">>": x >> max(y, 0)}[op])
            if op == "<<" and is_num(b):
                return scale(a, 2 ** int(b.args[0]))
            if op == ">>" and is_num(b) and nonneg(a):
                return div(a, num(2 ** int(b.args[0])), True)
            return T("bit" + op, a, b)
        return self.unknown("operator " + op)

    def lin(self, f, a, b):
        """Arithmetic; gates stay inside unless both sides are gated alike."""
        if a.op == "ite" and (is_num(b) or len(cases(a)) <= 4 and b.op != "ite"):
            return lift2(f, a, b)
        if b.op == "ite" and (is_num(a) or len(cases(b)) <= 4 and a.op != "ite"):
            return lift2(f, a, b)
        if a.op == "ite" and b.op == "ite" and len(cases(a)) * len(cases(b)) <= 8:
            return lift2(f, a, b)
        return f(a, b)

    def x_cond(self, e, st, fr):
        c = self.cond(e["c"], st, fr)
        a, b = st.copy(), st.copy()
        a.pc = st.pc & c
        b.pc = st.pc & ~c
        if not terms.sat(a.pc):
            return self.ev_any(e["b"], st, fr)
        if not terms.sat(b.pc):
            return self.ev_any(e["a"], st, fr)
        x = self.ev_any(e["a"], a, fr)
        y = self.ev_any(e["b"], b, fr)
        j = join_states([a, b])
        if j is None:
            st.pc = FALSE
            return UNDEF
        if isinstance(x, Ref) and isinstance(y, Ref):
            st.set(j)
            return Ref(ite(c, x.p, y.p))
        xv = self.read(a, x.p) if isinstance(x, Ref) else x
        yv = self.read(b, y.p) if isinstance(y, Ref) else y
        if a.pc is FALSE:
            xv = UNDEF
        if b.pc is FALSE:
            yv = UNDEF
        st.set(j)
        if is_int_t(e.get("t")) or is_flt_t(e.get("t")):
            xv, yv = self.to_num(xv), self.to_num(yv)
        return join(c, xv, yv)

    def x_cast(self, e, st, fr):
        ck = e["ck"]
        if ck in ("ToVoid",):
            self.ev_any(e["a"], st, fr)
            return UNDEF
        if ck in ("BitCast", "LValueBitCast", "BaseToDerived", "DerivedToBase", "NoOp", "UserDefinedConversion",
                  "ConstructorConversion", "Dynamic", "FunctionToPointerDecay", "BuiltinFnToFnPtr",
                  "ReinterpretMemberPointer", "Dependent"):
            if ck == "BitCast" and is_arr_t(e["a"].get("t")):
                return index_ptr(self.lv(e["a"], st, fr), ZERO)
            return self.ev_any(e["a"], st, fr)
        v = self.ev_val(e["a"], st, fr)
        if ck == "FloatingToIntegral":
            if v.op == "num":
                return num(int(v.args[0]))
            w = self.WIDTH.get(clean_t(e.get("t")), 32)

            def tr(x):
                if x.op == "size":
                    return x
                if x.op == "num":
                    return num(int(x.args[0]))
                if w < 32:
                    return T("narrow", T("trunc", x), w)
                return T("trunc", x, 64) if w == 64 else T("trunc", x)
            return lift1(tr, v)
        if ck == "IntegralToFloating":
            return self.to_num(v)
        if ck == "FloatingCast":
            if clean_t(e.get("t")) == "float" and clean_t(e.get("st")) != "float":
                return self.f32(v)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return bterm(self.truthy(v, e.get("st")))
        if ck == "NullToPointer":
            return NULL
        if ck == "IntegralCast":
            v = self.to_num(v)
            return self.int_cast(v, e.get("st"), e.get("t"))
        if ck == "ArrayToPointerDecay":
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return v
        return v

    WIDTH = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
             "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "bool": 1}

    def int_cast(self, v, st_, t):
        w0, w1 = self.WIDTH.get(clean_t(st_), 64), self.WIDTH.get(clean_t(t), 64)
        if w1 < 32 and w1 < w0 and not is_num(v):
            return T("narrow", v, w1)
        if is_num(v) and clean_t(t) in UNSIGNED_T and v.args[0] < 0:
            return num(int(v.args[0]) + (1 << w1))
        if is_num(v) and clean_t(t) in ("int",) and v.args[0] >= (1 << 31):
            return num(int(v.args[0]) - (1 << 32)) if v.args[0] < (1 << 32) else \
                (num(-1) if v.args[0] == (1 << 64) - 1 else v)
        return v

    def x_sizeof(self, e, st, fr):
        return T("sizeof", e.get("st") or "?")

    def x_stmtexpr(self, e, st, fr):
        r = self.stmt(e["b"], st, fr)
        return UNDEF

    def x_other(self, e, st, fr):
        for a in e.get("a") or []:
            if isinstance(a, dict):
                self.ev_any(a, st, fr)
        self.note("expression %s" % e.get("n"), e.get("l"))
        return self.unknown(e.get("n") or "other")

    def x_throw(self, e, st, fr):
        v = self.ev_val(e["a"], st, fr) if e.get("a") else UNDEF
        self.ev(st, "caught" if self.catching else "throw", "throw", None, [v], line=e.get("l"))
        st.pc = FALSE
        return UNDEF

    def x_new(self, e, st, fr):
        root = ("heap", next(self.ev_n)) + tuple(self.ks)
        p = addr(root)
        at = e.get("at")
        if e.get("n") is not None:
            n = self.ev_val(e["n"], st, fr)
            self.ev(st, "new", "new[]", p, [n], line=e.get("l"), cls=at,
                    init=bool(e.get("i")))
            st.store[root] = T("fill", n, ZERO) if e.get("i") and (is_flt_t(at) or is_int_t(at)) else UNDEF
            return index_ptr(p, ZERO) if False else p
        i = e.get("i")
        st.store[root] = UNDEF
        if i is not None and i.get("k") == "ctor":
            n0 = len(self.events)
            args = None
            self.construct(i, st, fr, p)
            e2 = self.ev(st, "new", "new", p, [], line=e.get("l"), cls=clean_t(at), key=i.get("key"))
        else:
            v = self.ev_val(i, st, fr) if i is not None else UNDEF
            self.write(st, p, v)
            self.ev(st, "new", "new", p, [v], line=e.get("l"), cls=clean_t(at))
        return p

    def x_delete(self, e, st, fr):
        v = self.ev_val(e["a"], st, fr)
        self.ev(st, "delete", "delete[]" if e.get("arr") else "delete", v, [], line=e.get("l"), dt=e.get("dt"))
        if v.op not in ("null", "unk", "undef", "ite"):
            p = v if v.op == "addr" else addr(("mem", v))
            self.write(st, p, T("freed", v, self.read(st, p)))     # whatever is read there from now on
        return UNDEF

    def x_lambda(self, e, st, fr):
        n = next(self.ev_n)
        env = {}
        f = fr
        chain = []
        while f is not None:
            chain.append(f)
            f = f.parent
        for c in e.get("c") or []:
            if c.get("this"):
                continue
            if c.get("i") is not None:
                p = addr(("var", n, c["d"], c.get("n")))
                self.write(st, p, self.ev_val(c["i"], st, fr))
                env[c["d"]] = p
                continue
            src = None
            for f in chain:
                if c["d"] in f.env:
                    src = f.env[c["d"]]
                    break
            if src is None:
                continue
            if c.get("ref"):
                env[c["d"]] = src
            else:
                p = addr(("var", n, c["d"], c.get("n")))
                self.write(st, p, self.read(st, src))
                env[c["d"]] = p
        self.lams[n] = {"node": e, "env": env, "this": fr.this, "frame": fr}
        return T("lam", n)

    def x_init(self, e, st, fr):
        cls = e.get("cls")
        vals = [self.ev_val(a, st, fr) for a in e.get("a") or []]
        if cls and e.get("fs"):
            d = {}
            for f, v in zip(e["fs"], vals):
                d[f] = v
            return rec(UNDEF, d)
        t = e.get("t") or ""
        if len(vals) == 1 and (is_int_t(t) or is_flt_t(t) or is_ptr_t(t)):
            return vals[0]
        if not vals and (is_int_t(t) or is_flt_t(t)):
            return ZERO
        return T("seq", *[T("item", v) for v in vals])

    def x_ctor(self, e, st, fr):
        cls = e.get("cls") or ""
        f = self.prog.funcs.get(e.get("key"))
        if cls.startswith("(lambda"):
            return self.ev_any(e["a"][0], st, fr)
        if f is not None or cls in self.prog.records:
            if (e.get("copy") or e.get("move")) and (f is None or not (f.get("b") or {}).get("b")):
                return self.ev_val(e["a"][0], st, fr)
            p = addr(("tmp", next(self.tmp_n)))
            st.store[p.args[0]] = UNDEF
            self.construct(e, st, fr, p)
            if st.pc is FALSE:
                return UNDEF
            return self.read(st, p)
        return self.std.construct(self, e, st, fr)

    # ------------------------------------------------------------ calls
    def arg(self, a, pt, st, fr):
        """argument for a parameter of type pt: Ref for references, value otherwise"""
        r = self.ev_any(a, st, fr)
        if is_ref_t(pt):
            return r if isinstance(r, Ref) else Ref(self.temp(st, r))
        if isinstance(r, Ref):
            if is_arr_t(a.get("t")) and is_ptr_t(pt):
                if "char" in clean_t(a.get("t")):
                    return self.read(st, r.p)
                return index_ptr(r.p, ZERO)
            return self.read(st, r.p)
        return r

    def eval_args(self, e, st, fr):
        vals, ptrs = [], []
        for a, pt in itertools.zip_longest(e.get("a") or [], e.get("pt") or []):
            if a is None:
                break
            r = self.ev_any(a, st, fr)
            if isinstance(r, Ref):
                vals.append(self.read(st, r.p))
                ptrs.append(r.p)
            else:
                vals.append(r)
                ptrs.append(None)
        return vals, ptrs

    def x_call(self, e, st, fr):
        if st.pc is FALSE:
            return UNDEF
        fn = e.get("fn")
        key = e.get("key")
        obj = e.get("obj")
        name = fn or ""
        f = self.prog.funcs.get(key) if key else None
        # lambda call
        if obj is not None and (name.endswith("::operator()") or "(lambda" in (e.get("cls") or "")):
            o = self.ev_val(obj, st, fr)
            if o.op == "lam":
                return self.call_lambda(o, [self.ev_any(a, st, fr) for a in e["a"]], st, fr, key=key)
        if fn is None:
            return self.indirect(e, st, fr)
        if f is not None and not self.is_opaque(e, f, fr, st):
            this = None
            if obj is not None:
                this = self.obj_ptr(e, st, fr)
            args = [self.arg(a, pt, st, fr) for a, pt in zip(e["a"], e["pt"])]
            if st.pc is FALSE:
                return UNDEF
            return self.call_fn(st, f, this, args, e.get("l"), None)
        if e.get("in") and f is None and obj is not None and name.endswith("::operator=") and len(e["a"]) == 1 and \
                name not in self.opaque and e.get("cls") not in self.opaque and \
                clean_t(e["a"][0].get("t")) == clean_t(obj.get("t")):
            p = self.obj_ptr(e, st, fr)         # the implicit one copies every member
            v = self.ev_val(e["a"][0], st, fr)
            self.write(st, p, v)
            return Ref(p)
        if e.get("in"):
            return self.opaque_call(e, st, fr, f)
        return self.std.call(self, e, st, fr)

    def obj_ptr(self, e, st, fr):
        r = self.ev_any(e["obj"], st, fr)
        if e.get("arrow"):
            return self.read(st, r.p) if isinstance(r, Ref) else r
        if isinstance(r, Ref):
            return r.p
        if r.op in ("addr",) and is_ptr_t(e["obj"].get("t")):
            return r
        return self.temp(st, r)

    def is_opaque(self, e, f, fr, st):
        qn = f.get("qn")
        if qn in self.opaque or f.get("cls") in self.opaque or f["key"] in self.opaque:
            return True
        if f["key"] in self.stack or len(self.stack) > 40:
            return True
        if e.get("virt") and not e.get("qual"):
            o = e.get("obj") or {}
            if o.get("k") == "this":
                return False
            if self.prog.overriders(qn) or not (f.get("b")):
                return True
            return False
        return False

    PURE = ()

    def opaque_call(self, e, st, fr, f=None):
        name = (f or {}).get("qn") or e["fn"]
        op = None
        if e.get("obj") is not None:
            op = self.obj_ptr(e, st, fr)
        vals, ptrs = self.eval_args(e, st, fr)
        if st.pc is FALSE:
            return UNDEF
        t = e.get("t")
        hook = getattr(self, "pure_hook", None)
        if hook:
            r = hook(name, op, vals)
            if r is not None:
                self.ev(st, "call", name, op, vals, ptrs, e.get("l"), res=r, key=e.get("key"),
                        objt=(e.get("obj") or {}).get("t"), cls=e.get("cls"))
                return r
        evd = self.ev(st, "call", name, op, vals, ptrs, e.get("l"), key=e.get("key"), cls=e.get("cls"),
                      ta=tuple(e.get("ta") or ()))
        i = evd.id
        if name in self.pure:
            res = T("res", name, *([op] if op is not None else []), *vals)
        else:
            res = T("res", name, i, *self.ks)
        if clean_t(t) in UNSIGNED_T:
            mark_nonneg(res)
        evd.res = res
        # what the pointer arguments point to
        evd.heap = {n: self.read(st, addr(v.args[0])) for n, v in enumerate(vals)
                    if isinstance(v, T) and v.op == "addr" and v.args[0][0] == "heap"}
        # ... a pointer to the first element of a local vector or array
        evd.heap.update({n: self.read(st, T("addr", v.args[0], v.args[1][:-1])) for n, v in enumerate(vals)
                         if isinstance(v, T) and v.op == "addr" and v.args[0][0] in ("var", "tmp") and v.args[1] and
                         v.args[1][-1] == ("i", ZERO)})
        # outputs
        if name in self.writes and op is not None:
            self.write(st, op, T("out", name, -1, i, *self.ks))
        for m in self.mods.get(name, ()) if op is not None else ():
            self.write(st, field_ptr(op, m), T("out", name, m, i, *self.ks))
        keep = name in self.keeps or name in self.pure
        for n, (p, pt) in enumerate(zip(ptrs, e.get("pt") or [])):
            if p is not None and not keep and is_ref_t(pt) and not (pt.startswith("const ") or " const &" in pt):
                self.write(st, p, T("out", name, n, i, *self.ks))
        for n, (v, pt) in enumerate(zip(vals, e.get("pt") or [])):
            if not keep and v.op == "addr" and is_ptr_t(pt) and not pt.startswith("const ") and \
                    v.args[0][0] in ("var", "tmp") and \
                    not self.is_record(clean_t(pt).rstrip("* ")):
                self.write(st, v, T("out", name, n, i, *self.ks))
        if e.get("nr"):
            st.pc = FALSE
        if clean_t(t) == "bool":
            return bterm(truth(res))
        ret = (f or {}).get("ret") or ""
        if is_ref_t(ret):
            return Ref(op if op is not None else res)
        return res

    def call_lambda(self, lam, args, st, fr, line=0, key=None):
        d = self.lams[lam.args[0]]
        node = d["node"]
        for alt in node.get("alts") or ():
            if key is not None and alt["key"] == key:
                node = alt
        f = {"p": node["p"], "b": node["b"], "ret": "", "key": node.get("key"), "qn": "lambda", "file": self.file}
        # return type is not recorded: values are returned by value
        args2 = []
        for prm, a in zip(node["p"], args):
            if is_ref_t(prm["t"]):
                args2.append(a if isinstance(a, Ref) else Ref(self.temp(st, a)))
            else:
                args2.append(self.read(st, a.p) if isinstance(a, Ref) else a)
        f = dict(f)
        f["file"] = None
        if node.get("key") in self.stack:
            return self.unknown("recursive lambda")
        return self.call_fn(st, f, d["this"], args2, line, d["frame"], lam=d)

    def apply(self, fv, args, st, fr, line=0):
        """call a callable value"""
        if fv.op == "lam":
            r = self.call_lambda(fv, args, st, fr, line)
            return self.read(st, r.p) if isinstance(r, Ref) else r
        if fv.op == "fn":
            f = self.prog.funcs.get(fv.args[1])
            if f is not None and f["key"] not in self.stack:
                r = self.call_fn(st, f, None, args, line)
                return self.read(st, r.p) if isinstance(r, Ref) else r
        vals = [self.read(st, a.p) if isinstance(a, Ref) else a for a in args]
        return T("app", fv, *vals)

    def indirect(self, e, st, fr):
        cx = e.get("cx")
        fv = self.ev_val(cx, st, fr) if cx else UNDEF
        if fv.op in ("lam", "fn"):
            args = [self.ev_any(a, st, fr) for a in e["a"]]
            return self.apply(fv, args, st, fr, e.get("l"))
        vals, ptrs = self.eval_args(e, st, fr)
        evd = self.ev(st, "call", "<indirect>", fv, vals, ptrs, e.get("l"))
        res = T("res", "<indirect>", evd.id if evd else 0, *self.ks)
        if evd:
            evd.res = res
        return res

    # ------------------------------------------------------------ entry
    def run(self, f, this_name="this", args=None, pre=None):
        """Analyse f as an entry point with symbolic inputs."""
        st = State(TRUE, {})
        this = None
        if f.get("cls") and not f.get("static"):
            this = addr(("mem", T("this")))
        vals = []
        fr_args = []
        for i, prm in enumerate(f["p"]):
            if args and prm["n"] in args:
                fr_args.append(args[prm["n"]])
                continue
            a = self.param_value(i, prm)
            fr_args.append(a)
        if pre:
            pre(self, st)
        r = self.call_fn(st, f, this, fr_args)
        if isinstance(r, Ref):
            r = r.p
        return st, r

    @staticmethod
    def param_value(i, prm):
        if is_ref_t(prm["t"]):
            return Ref(addr(("arg", i, prm["n"])))
        v = T("in", (("arg", i, prm["n"]), ()))
        if clean_t(prm["t"]) in UNSIGNED_T:
            mark_nonneg(v)
        if clean_t(prm["t"]) == "bool":
            return bterm(atom(v))
        return v


def map_b_subst(b, m):
    if not m:
        return b
    return subst(b, m)
