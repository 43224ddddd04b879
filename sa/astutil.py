"""Syntax-level helpers: scopes, liveness, name mangling"""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Scope(object):
    """names bound in a function, names its inner scopes capture"""

    def __init__(self, fn):
        self.locals = set(params(fn)) if isinstance(fn, FUNCS) else set()
        self.globals = set()
        self.nonlocals = set()
        self.inner = set()
        self.is_gen = False
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for s in body:
            self._walk(s)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def _walk(self, n):
        if isinstance(n, FUNCS):
            if not isinstance(n, ast.Lambda):
                self.locals.add(n.name)
                for d in n.decorator_list:
                    self._walk(d)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self._walk(d)
            for sub in ast.walk(n):
                if isinstance(sub, ast.Name):
                    self.inner.add(sub.id)
            return
        if isinstance(n, ast.ClassDef):
            self.locals.add(n.name)
            for sub in ast.walk(n):
                if isinstance(sub, ast.Name):
                    self.inner.add(sub.id)
            return
        if isinstance(n, COMPS):
            # only the first iterable is evaluated in this scope, but any name
            # can be loaded from it; targets are local to the comprehension
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    self.locals.add(sub.target.id)
                if isinstance(sub, FUNCS):
                    for s2 in ast.walk(sub):
                        if isinstance(s2, ast.Name):
                            self.inner.add(s2.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            self._walk(c)


def loads(n):
    """names loaded anywhere below n (inner scopes included)"""
    out = set()
    for sub in ast.walk(n):
        if isinstance(sub, ast.Name) and isinstance(sub.ctx, (ast.Load, ast.Del)):
            out.add(sub.id)
    return out


def stores(n):
    return {s.id for s in ast.walk(n)
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store)}


class Liveness(object):
    """live-out names of every statement (structured backward analysis)"""

    def __init__(self, body):
        self.out = {}
        self.head = {}
        self.block(body, frozenset(), frozenset(), frozenset())

    def block(self, body, after, brk, cont, handlers=frozenset()):
        live = after
        for s in reversed(body):
            self.out[s] = self.out.get(s, frozenset()) | live
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, after, brk, cont):
        if isinstance(s, ast.If):
            return (self.block(s.body, after, brk, cont) |
                    self.block(s.orelse, after, brk, cont) | loads(s.test))
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            els = self.block(s.orelse, after, brk, cont)
            head = els
            for _ in range(3):
                b = self.block(s.body, head, after, head)
                if isinstance(s, ast.While):
                    b = b | loads(s.test)
                else:
                    b = (b - stores(s.target)) | loads(s.target)
                head = head | b
            self.head[s] = self.head.get(s, frozenset()) | head
            return head | (loads(s.iter) if not isinstance(s, ast.While)
                           else frozenset())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, after, brk, cont)
            if s.finalbody:
                brk = brk | fin
                cont = cont | fin
            els = self.block(s.orelse, fin, brk, cont)
            hs = frozenset()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont)
                if h.type is not None:
                    hs |= loads(h.type)
            live = els | hs | fin
            # anything may raise: what handlers need is live all along
            for b in s.body:
                self.out[b] = frozenset()
            l = els
            for b in reversed(s.body):
                self.out[b] = self.out.get(b, frozenset()) | l | hs | fin
                l = self.stmt(b, l | hs | fin, brk, cont) | hs | fin
            self._spread(s.body, hs | fin)
            return l | live
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, after, brk, cont)
            # context expressions are needed until the exit
            names = frozenset()
            for it in s.items:
                names |= loads(it.context_expr)
                if it.optional_vars is not None:
                    b = b - stores(it.optional_vars)
                    names |= loads(it.optional_vars)
            return b | names
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return (after - {s.name}) | loads(s)
        if isinstance(s, ast.Return):
            return loads(s)
        if isinstance(s, ast.Raise):
            return loads(s) | after
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.Assign):
            st = frozenset()
            for t in s.targets:
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    st |= stores(t)
            l = loads(s)
            return (after - st) | l
        if isinstance(s, ast.AugAssign):
            return after | loads(s) | stores(s.target)
        return after | loads(s)

    def _spread(self, body, extra):
        for b in body:
            for sub in ast.walk(b):
                if isinstance(sub, ast.stmt):
                    self.out[sub] = self.out.get(sub, frozenset()) | extra
                    if sub in self.head:
                        self.head[sub] |= extra


def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__"):
        c = cls.lstrip("_")
        if c:
            return "_" + c + name
    return name


def is_terminal(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise,
                                                  ast.Break, ast.Continue))
