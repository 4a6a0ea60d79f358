"""Text that a Python function builds, as items for fmt (syntax tree only)."""
import ast
import itertools
import fmt
from common import *

_n = itertools.count(1)


class LoopLike:
    loop = True

    def __init__(self, over, line, file):
        self.k = T("k", "py%d" % next(_n))
        self.n = T("pysize", over)
        self.line, self.file, self.fn, self.guard = line, file, "python", TRUE


def src(e):
    return ast.unparse(e)


class Text:
    def __init__(self, mod, file):
        self.fns = {f.name: f for f in mod.body if isinstance(f, ast.FunctionDef)}
        self.file = file

    def hole(self, e, env):
        v = T("py", self.name(e, env))
        return [("hole", T("flt", v, "double", num(17)), LoopLike("", e.lineno, self.file))]

    def name(self, e, env):
        """the value an expression stands for, through renamings and str()"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("str", "repr", "list", "tuple") and len(e.args) == 1:
            return self.name(e.args[0], env)
        if isinstance(e, ast.Name) and e.id in env and isinstance(env[e.id], str):
            return env[e.id]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs and \
                isinstance(e.generators[0].target, ast.Name):
            g = e.generators[0]
            it = self.name(g.iter, env)
            inner = dict(env)
            inner[g.target.id] = it + "[]"
            if self.name(e.elt, inner) == it + "[]":
                return it
        return src(e)

    def text(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [("lit", e.value)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.text(e.left, env) + self.text(e.right, env)
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out.append(("lit", v.value))
                elif v.format_spec is None and v.conversion == -1:
                    out += self.piece(v.value, env)
                else:
                    raise Undecided("format %s" % src(e))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == "str" and len(e.args) == 1:
                return self.piece(e.args[0], env)
            f = self.fns.get(e.func.id)
            if f is not None and not e.keywords and len(e.args) == len(f.args.args):
                return self.function(f, {a.arg: (self.text(x, env) if isinstance(x, ast.Name) and isinstance(env.get(x.id), list) else self.name(x, env))
                                         for a, x in zip(f.args.args, e.args)})
        if isinstance(e, ast.Name):
            return self.piece(e, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "join" and len(e.args) == 1:
            g = e.args[0]
            sep = self.text(e.func.value, env)
            if sep in ([("lit", "")], []) and isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and \
                    not g.generators[0].ifs and isinstance(g.generators[0].target, ast.Name):
                inner = dict(env)
                it = self.name(g.generators[0].iter, env)
                inner[g.generators[0].target.id] = it + "[]"
                return [fmt.Loop(LoopLike(it, e.lineno, self.file), self.text(g.elt, inner))]
        raise Undecided("text %s" % src(e))

    def piece(self, e, env):
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), list):
            return list(env[e.id])
        return self.hole(e, env)

    def function(self, f, env):
        r = self.block(f.body, dict(env))
        if r is None:
            raise Undecided("%s returns no text" % f.name)
        return r

    def block(self, body, env, acc=None):
        for s in body:
            if isinstance(s, ast.Return):
                return self.text(s.value, env)
            if isinstance(s, ast.Expr):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.targets[0].id
                try:
                    if isinstance(s.value, (ast.Constant, ast.BinOp, ast.JoinedStr, ast.Call)) and not self.renames(s.value, env):
                        env[v] = self.text(s.value, env)
                        continue
                except Undecided:
                    pass
                env[v] = self.name(s.value, env)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
                v = s.target.id
                if isinstance(env.get(v), list):
                    env[v] = env[v] + self.text(s.value, env)
            elif isinstance(s, ast.For):
                it = self.name(s.iter, env)
                inner = dict(env)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        inner[n.id] = it + "[]"
                for k, v in env.items():
                    if isinstance(v, list):
                        inner[k] = []
                self.block(s.body, inner)
                for k, v in env.items():
                    if isinstance(v, list) and inner[k]:
                        env[k] = v + [fmt.Loop(LoopLike(it, s.lineno, self.file), inner[k])]
            elif isinstance(s, ast.If):
                a, b = dict(env), dict(env)
                self.block(s.body, a)
                self.block(s.orelse, b)
                for k in set(a) | set(b):
                    if isinstance(env.get(k), list) and (a.get(k) != env[k] or b.get(k) != env[k]):
                        raise Undecided("conditional text")
                    env[k] = a.get(k) if a.get(k) == b.get(k) else src(s.test) + "?"
            else:
                raise Undecided("statement %s" % src(s)[:60])
        return None

    def renames(self, e, env):
        """str(x) of a value keeps it a value"""
        return isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in self.fns) and \
            not (isinstance(e.func, ast.Attribute) and e.func.attr == "join")
