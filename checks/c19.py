"""C19: the CSV traces have one well-formed line per execution, with the values the header announces."""
from common import *
import ast
import os
import c21

INS = "Apollo::Dataset::insert"
TRAINABLE = "apollo::PolicyModel::isTrainable"


def S(x):
    return T("str", x)


def dec(t):
    return S(str(t.args[0])) if t.op == "num" else T("dec", t)


class Row:
    """what is put into a stream between two points: literals, holes and loops"""

    def __init__(self, items, guard, first, ambient):
        self.items, self.guard, self.first, self.ambient = items, guard, first, ambient


def pieces(t, care=TRUE):
    if t.op == "ite" and care is not TRUE:
        t = terms.simp(t, care)
    if t.op == "str":
        return [t.args[0]]
    if t.op == "cat":
        return [x for a in t.args for x in pieces(a, care)]
    if t.op == "rep":
        r = Row(pieces(t.args[2], care), TRUE, None, ())
        r.k, r.n = t.args[0], t.args[1]
        return [("loop", r, r)]
    if t.op in ("fold", "ite", "app", "comp", "join", "unk", "text"):
        raise Undecided("text %s is not understood" % show(t)[:120])
    return [t]


def rows(evs, stream, loops=(), care=TRUE):
    """groups of puts into the stream: one for the straight line code, one per loop that ends lines itself"""
    out, items, g, first, mixed, puts = [], [], None, None, False, []
    for e in evs:
        if e.loop:
            sub = rows(e.body, stream, loops + (e,), care)
            if not sub:
                continue
            if any("\n" in x for r in sub for x in r.items if isinstance(x, str)) or \
                    any(x.name == INS for x, _ in flat([e])):
                out += sub
            else:
                if len(sub) != 1 or any(isinstance(x, tuple) for x in sub[0].items):
                    raise Undecided("nested loops in a trace line")
                c = e.guard
                items.append(("loop", e, sub[0]))
                g, first = (c if g is None else g), first or e
                mixed = mixed or not terms.equiv(c, g)
        elif e.kind == "put" and stream(e.obj):
            if g is not None and not terms.equiv(e.guard, g):
                mixed = True
            g, first = (e.guard if g is None else g), first or e
            puts.append(e)
            items += pieces(e.args[0], care)
    if items:
        if mixed:
            x = Undecided("parts of a trace line are written under different conditions")
            whole = FALSE
            for y in puts:
                whole = whole | y.guard
            for y in puts:
                alone = y.guard
                for z in puts:
                    if z is not y and not terms.sat(z.guard & y.guard):
                        alone = alone | z.guard
                # nothing is written in its place otherwise
                if terms.sat(whole & ~alone & care) and understood(bterm(whole)) and understood(bterm(alone)) and \
                        not any(z.guard is not y.guard and terms.implies(z.guard, y.guard) and not terms.implies(y.guard, z.guard) for z in puts):
                    x = Undecided("part of a trace line is written only when %s" % showb(y.guard)[:200])
                    x.bad = ("line", y)
                    break
            raise x
        out.append(Row(items, g, first, loops))
    return out


def canon_items(items):
    """literals joined; the separators of a loop's elements in front of them"""
    out = []

    def lit(s):
        if s and out and isinstance(out[-1], str):
            out[-1] += s
        elif s:
            out.append(s)
    for x in items:
        if isinstance(x, str):
            lit(x)
        elif isinstance(x, tuple):
            body = canon_items(x[2].items)
            if body and isinstance(body[-1], str) and body[-1].endswith(" ") and out and isinstance(out[-1], str) and out[-1].endswith(" "):
                out[-1] = out[-1][:-1]
                if not out[-1]:
                    out.pop()
                body[-1] = body[-1][:-1]
                body = canon_items([" "] + [b for b in body if b != ""])
                out.append(("loop", x[1], body))
                lit(" ")
            else:
                out.append(("loop", x[1], body))
        else:
            out.append(x)
    return out


def columns(items, ck, w):
    """fields of a line separated by single blanks: list of ('col', pieces) and ('cols', loop, pieces)"""
    its = canon_items(items)
    if not its or not isinstance(its[-1], str) or not its[-1].endswith("\n"):
        return None
    its[-1] = its[-1][:-1]
    out, cur = [], []

    def end():
        nonlocal cur
        out.append(("col", cur))
        cur = []
    started = False
    for i, x in enumerate(its):
        if isinstance(x, str):
            parts = x.split(" ")
            for j, p in enumerate(parts):
                if j:
                    end()
                if p:
                    cur.append(p)
            started = True
        elif isinstance(x, tuple):
            b = x[2]
            if not b or not isinstance(b[0], str) or not b[0].startswith(" ") or any(isinstance(y, str) and " " in y[1:] for y in b):
                return None
            nxt = its[i + 1] if i + 1 < len(its) else " "
            if not (isinstance(nxt, str) and (nxt.startswith(" ") or nxt == "")):
                return None
            end()
            body = ([b[0][1:]] if b[0][1:] else []) + list(b[1:])
            out.append(("cols", x[1], body))
            # the blank that follows starts the next column
            if isinstance(nxt, str) and nxt.startswith(" "):
                its[i + 1] = nxt[1:]
        else:
            cur.append(x)
    end()
    return out


def value(ps):
    """the term of a field that is one hole"""
    return ps[0] if len(ps) == 1 and isinstance(ps[0], T) else None


def raw(t):
    return t.args[0] if t is not None and t.op in ("dec", "flt") else t


def ended(ck):
    return ck.sum("Apollo::Region::end", 2, opaque={"Apollo::Region::train", "Apollo::train", INS}, pure={TRAINABLE})


def execs(s):
    """executions finished by end: (insert event, loops)"""
    return s.calls(INS)


def region_trace(ck):
    s = c21.region(ck)
    own = field_ptr(addr(THIS), "trace_file")
    tr = on("APOLLO_TRACE_CSV")
    hs = rows(s.events, lambda o: o is own)
    w = s
    pc = s.st.pc
    if len(hs) != 1:
        ck.need(None if hs else False, "header", s, "%d headers are written" % len(hs))
        return
    h = hs[0]
    ck.need(ck.same_guard(h.guard, tr, pc), "header", h.first, "the header is written when %s" % showb(h.guard)[:200])
    cols = columns(h.items, ck, s)
    if cols is None:
        ck.bad("header", h.first, "the header is not one line of blank separated names")
        return
    nf = argv(s, 0)
    loops = [i for i, c in enumerate(cols) if c[0] == "cols"]
    names = ["".join(c[1]) if c[0] == "col" and all(isinstance(p, str) for p in c[1]) else None for c in cols]
    if len(loops) != 1 or any(n is None for i, n in enumerate(names) if i not in loops):
        ck.undecided("header", h.first, "columns %s" % names)
        return
    L = loops[0]
    fl = cols[L]
    ck.need(ck.same(fl[1].n, nf), "header", h.first, "%s columns of features" % show(fl[1].n)[:100])
    if len(fl[2]) == 2 and fl[2][0] == "f":
        ck.need(ck.same(raw(fl[2][1]), fl[1].k), "header", h.first, "feature column is called f%s" % show(fl[2][1])[:60])
    else:
        ck.undecided("header", h.first, "feature columns %s" % fl[2])
    # the file
    op = [(e, l) for e, l in s.flat if e.kind == "open" and e.obj is own]
    rank = init(s.get("apollo"), "mpiRank")
    path = cat(cfg("APOLLO_OUTPUT_DIR"), S("/"), cfg("APOLLO_TRACES_DIR"), S("/trace-"), s.get("model_info"), S("-region-"),
               s.get("name"), S("-rank-"), T("dec", rank), S(".csv"))
    ck.once("own-file", op, tr, s, "the trace file is opened", care=pc)
    for e, _ in op:
        ck.replaces("own-file", e, "the trace")
        ck.need(ck.same(e.args[0], path, e.guard & pc), "own-file", e, "the trace is %s" % show(e.args[0])[:250])
        ck.need(ck.before(s, e, next(x for x, _ in s.flat if x.kind == "put" and x.obj is own)), "own-file", e, "the header is written before the file is opened")
    good = [atom(x) for x in {x for a in terms.batoms(pc) for x in subterms(a) if x.op == "good"}
            if any(y.op == "opened" and ck.same(y.args[0], path) for y in subterms(x))]
    if op and not good:
        ck.need(False if understood(bterm(pc)) else None, "open-failure", op[0], "a trace that cannot be opened goes unnoticed")
    for g in good:
        ck.need(None if not understood(bterm(pc)) else not terms.sat(pc & tr & ~g), "open-failure", op[0] if op else s,
                "a trace that cannot be opened goes unnoticed")
    # the lines
    t = ended(ck)
    ap = in_this("apollo")
    per = on("APOLLO_PERSISTENT_DATASETS")
    try:
        rs = rows(t.events, lambda o: o is own)
        care = TRUE
    except Undecided:
        rs = rows(t.events, lambda o: o is own, care=per)     # the text depends on what was recorded before
        care = per
    left = after_insert(ck)
    ins = execs(t)
    if not rs:
        ck.bad("line-per-execution", t, "no line is written for an execution")
    for r in rs:
        mine = [(e, l) for e, l in ins if len(l) == len(r.ambient) and all(a is b for a, b in zip(l, r.ambient))]
        if len(mine) != 1:
            ck.undecided("line-per-execution", r.first, "%d measurements beside the line" % len(mine))
            continue
        e = mine[0][0]
        ck.need(ck.same_guard(r.guard & per, e.guard & tr & per), "line-per-execution", r.first,
                "a line is written when %s" % showb(r.guard)[:250])
        ck.need(ck.same_guard(r.guard, r.guard & tr), "line-per-execution", r.first, "a line is written without tracing")
        cs = columns(r.items, ck, t)
        if cs is None:
            ck.bad("line-fields", r.first, "the line's fields are not separated by single blanks and ended by a newline")
            continue
        # what the execution is
        fv, pol, met = e.args[0], e.args[1], e.args[2]
        ctx = None
        want = {"rankid": init(ap, "mpiRank"), "training": init(in_this("model"), "name"), "region": in_this("name"), "policy": pol, "xtime": met}
        if len(cs) != len(cols):
            ck.bad("line-fields", r.first, "the line has %d fields around its features, the header %d" % (len(cs) - 1, len(cols) - 1))
            continue
        for i, (c, n) in enumerate(zip(cs, names)):
            if i == L:
                if c[0] != "cols":
                    ck.bad("line-fields", r.first, "field %d should be the features" % i)
                    continue
                lp = c[1]
                ln = left(terms.simp(lp.n, care), fv)
                ck.need(ck.same(ln, size(fv)), "features-traced", r.first, "%s features are written" % show(ln)[:100])
                v = raw(value(c[2]))
                v = left(v, fv) if v is not None else None
                if v is not None and contains(v, lambda x: x.op == "out" and x.args[0] == INS):
                    v = None
                ck.need(None if v is None else ck.same(v, elt(fv, lp.k), cmp_(">=", lp.k, ZERO, True) & cmp_("<", lp.k, size(fv), True)),
                        "features-traced", r.first, "feature k is written as %s" % (show(v)[:100] if v is not None else c[2]))
                continue
            if c[0] != "col":
                ck.bad("line-fields", r.first, "the features are field %d, not %d" % (i, L))
                continue
            v = raw(value(c[1]))
            if n == "idx":
                if v is None or not v.op == "field":
                    pass
                want_idx = ctx_field(fv, "features", "idx")
                ck.need(None if v is None or want_idx is None else ck.same(v, want_idx, r.guard), "line-fields", r.first, "idx is %s" % (show(v)[:100] if v is not None else c[1]))
                continue
            if n not in want:
                ck.undecided("line-fields", r.first, "column %s has no known meaning" % n)
                continue
            ck.need(False if v is None and all(isinstance(p, str) for p in c[1]) else None if v is None else ck.same(v, want[n], r.guard),
                    "line-fields", r.first, "%s is written as %s" % (n, show(v)[:100] if v is not None else c[1]))
    # every execution has a line
    for e, l in ins:
        if not any(len(l) == len(r.ambient) and all(a is b for a, b in zip(l, r.ambient)) for r in rs):
            ck.bad("line-per-execution", e, "this execution has no line in the trace")
    # the conversion script
    script(ck, names, L)


def after_insert(ck):
    """replaces the features of an execution after they were recorded by what recording leaves of them"""
    try:
        s = ck.sum(INS, 3)
        v = s.read(argp(s, 0))
        same = v is s.init(argp(s, 0)) if hasattr(s, "init") else v is init(argp(s, 0))
        if not same and (s.st.pc is not TRUE or contains(v, lambda x: x.op in ("in", "arg", "ite")) or not understood(v)):
            v = None
    except (Undecided, ir.AnchorMissing):
        v = None

    def f(t, fv):
        if v is None:
            return t
        w = fv if same else v
        return subst(t, {x: w for x in subterms(t) if x.op == "out" and x.args[0] == INS and x.args[1] == 0})
    return f


def ctx_field(v, f, g):
    """the member g of the object whose member f is v"""
    if v.op == "in" and v.args[0][1] and v.args[0][1][-1] == ("f", f):
        return T("in", (v.args[0][0], v.args[0][1][:-1] + (("f", g),)))
    try:
        return subst_field(v, f, g)
    except Exception:
        return None


def subst_field(v, f, g):
    if v.op in ("field", "sel") and v.args[1] == f:
        return values.sel(v.args[0], g)
    return None


def script(ck, names, L):
    path = os.path.join(ir.REPO, "src/python/modeling/create-dataset.py")
    if not os.path.exists(path):
        ck.undecided("script-columns", "create-dataset.py", "no such file")
        return
    mod = ast.parse(open(path).read())
    for f in mod.body:
        if not isinstance(f, ast.FunctionDef) or not f.name.startswith("agg_by"):
            continue
        w = "%s:%d %s" % (rel(path), f.lineno, f.name)
        ck.functions.add("create-dataset.py:" + f.name)
        sl = [n for n in ast.walk(f) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and
              isinstance(n.value, ast.Attribute) and n.value.attr == "columns"]
        if len(sl) != 1:
            ck.undecided("script-columns", w, "%d slices of the columns" % len(sl))
            continue
        try:
            a, b = (ast.literal_eval(x) if x is not None else None for x in (sl[0].slice.lower, sl[0].slice.upper))
        except ValueError:
            ck.undecided("script-columns", w, "slice is not constant")
            continue
        # reset_index puts the old index in front
        ck.need(a == L + 1, "script-columns", w, "takes the columns from %s on as features; in the trace they start at %d (after the index)" % (a, L + 1))
        ck.need(b == -(len(names) - L - 1), "script-columns", w, "takes the columns up to %s as features; %d columns follow them in the trace" % (b, len(names) - L - 1))
        for n in ast.walk(f):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                ck.need(n.slice.value in names, "script-columns", w, "uses column %s, which the trace does not have" % n.slice.value)


def words(items):
    out, cur = [], []
    for x in items:
        if isinstance(x, str):
            for c in x:
                if c in " \n,":
                    if cur:
                        out.append(cur)
                    cur = []
                elif cur and isinstance(cur[-1], str):
                    cur[-1] += c
                else:
                    cur.append(c)
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def global_trace(ck):
    c = ck.sum("Apollo::Apollo", 0)
    tr = cmp_("!=", c.read(addr(("glob", "Config::APOLLO_TRACE_CSV"))), ZERO, True)
    own = field_ptr(addr(THIS), "gtrace_file")
    pc = c.st.pc
    hs = rows(c.events, lambda o: o is own)
    if len(hs) != 1:
        ck.need(None if hs else False, "global-header", c, "%d headers are written" % len(hs))
        return
    h = hs[0]
    ck.need(ck.same_guard(h.guard, tr, pc), "global-header", h.first, "the header is written when %s" % showb(h.guard)[:200])
    names = ["".join(w) for w in words(h.items) if all(isinstance(x, str) for x in w)]
    names = [n for n in names if n not in ("#", "(us)")]
    op = [(e, l) for e, l in c.flat if e.kind == "open" and e.obj is own]
    ck.once("global-file", op, tr, c, "the global trace is opened", care=pc)
    path = cat(c.read(addr(("glob", "Config::APOLLO_OUTPUT_DIR"))), S("/"), c.read(addr(("glob", "Config::APOLLO_TRACES_DIR"))), S("/trace-rank-"),
               dec(c.get("mpiRank")), S(".csv"))
    for e, _ in op:
        ck.replaces("global-file", e, "the global trace")
        ck.need(ck.same(e.args[0], path, e.guard & pc), "global-file", e, "the global trace is %s" % show(e.args[0])[:250])
    good = [atom(x) for x in {x for a in terms.batoms(pc) for x in subterms(a) if x.op == "good"}
            if any(y.op == "opened" and ck.same(y.args[0], path) for y in subterms(x))]
    if op and not good:
        ck.need(False if understood(bterm(pc)) else None, "open-failure", op[0], "a global trace that cannot be opened goes unnoticed")
    for g in good:
        ck.need(None if not understood(bterm(pc)) else not terms.sat(pc & tr & ~g), "open-failure", op[0] if op else c,
                "a global trace that cannot be opened goes unnoticed")
    t = ended(ck)
    tr = on("APOLLO_TRACE_CSV")
    ap = in_this("apollo")
    gp = field_ptr(ap, "gtrace_file")
    rs = rows(t.events, lambda o: o is gp)
    ins = execs(t)
    for r in rs:
        mine = [(e, l) for e, l in ins if len(l) == len(r.ambient) and all(a is b for a, b in zip(l, r.ambient))]
        if len(mine) != 1:
            ck.undecided("global-line", r.first, "%d measurements beside the line" % len(mine))
            continue
        e = mine[0][0]
        per = on("APOLLO_PERSISTENT_DATASETS")
        ck.need(ck.same_guard(r.guard & per, e.guard & tr & per), "global-line", r.first, "a line is written when %s" % showb(r.guard)[:250])
        ck.need(ck.same_guard(r.guard, r.guard & tr), "global-line", r.first, "a line is written without tracing")
        if any(isinstance(x, tuple) for x in r.items):
            ck.undecided("global-line", r.first, "loop in the line")
            continue
        if not any(isinstance(x, str) and x.endswith("\n") for x in r.items[-1:]):
            ck.bad("global-line", r.first, "the line is not ended")
            continue
        ws = words(r.items)
        if len(ws) != len(names):
            ck.bad("global-line", r.first, "the line has %d fields, the header %d" % (len(ws), len(names)))
            continue
        want = {"region": (in_this("name"),), "model": (in_this("model_name"), init(in_this("model"), "name")),
                "policy": (e.args[1],), "idx": (ctx_field(e.args[0], "features", "idx"),)}
        for n, ps in zip(names, ws):
            v = raw(value(ps))
            if n == "timestamp":
                continue
            if n not in want or v is None or want[n][0] is None:
                ck.undecided("global-line", r.first, "field %s" % n)
                continue
            res = [ck.same(v, x, r.guard) for x in want[n]]
            ck.need(True if any(res) else (None if None in res else False), "global-line", r.first, "%s is written as %s" % (n, show(v)[:100]))
    for e, l in ins:
        if not any(len(l) == len(r.ambient) and all(a is b for a, b in zip(l, r.ambient)) for r in rs):
            ck.bad("global-line", e, "this execution has no line in the global trace")


def check(ck):
    ck.guarded(ck.kept, "wide-enough", ("Apollo::RegionContext", "policy", False), ("Apollo::RegionContext", "idx", False))
    ck.guarded(region_trace, ck)
    ck.guarded(global_trace, ck)
