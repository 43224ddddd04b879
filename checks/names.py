"""Every name, attribute, member and call of the library resolves: E01."""
import ast
import builtins
import os
import re
import string

from sa.core import AnalysisError
from sa.report import Res, REPO
from sa import external

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNCS + (ast.Lambda,)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__"}
# builtins of Python 2 that the future package provides as modules
FUTURE = {"builtins": True}


class Mod(object):
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.tree, self.package = name, path, tree, package
        self.names = {}          # name -> [binding]
        self.stars = []
        self.dynamic = False     # globals() or setattr on the module


class Cls(object):
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.qual = mod.name + "." + name
        self.attrs = {}          # name -> [node]
        self.own = set()         # self.X = ... in its methods
        self.bases = []          # Cls or ("ext", dotted) or None (unknown)
        self.subs = []
        self.meta = None
        self.slots = False

    def line(self):
        """the classes it inherits from, itself first (a linear order of its tree)"""
        out = []

        def go(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if isinstance(c, Cls):
                for b in c.bases:
                    go(b)
        go(self)
        return out

    def below(self):
        out = [self]
        for c in out:
            for s in c.subs:
                if s not in out:
                    out.append(s)
        return out

    def open(self):
        return any(not isinstance(c, Cls) and c not in CLOSED for c in self.line())


CLOSED = {("ext", "object"), ("ext", "builtins.object"), ("ext", "Exception"), ("ext", "RuntimeError"),
          ("ext", "ValueError")}


def bound(node, top=True):
    """names bound in the scope of node's body (not in nested scopes)"""
    out, glob = {}, set()

    def add(n, x, kind="var"):
        out.setdefault(n, []).append((kind, x))

    def target(t):
        if isinstance(t, ast.Name):
            add(t.id, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def go(n, comp=False):
        if isinstance(n, FUNCS):
            add(n.name, n, "func")
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                go(d)
            return
        if isinstance(n, ast.ClassDef):
            add(n.name, n, "class")
            for b in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                go(b)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMPS):
            # only := binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    add(a.asname, ("import", a.name, n), "import")
                else:
                    add(a.name.split(".")[0], ("import", a.name.split(".")[0], n), "import")
            return
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                add(a.asname or a.name, ("from", n, a.name), "from")
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name, n)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif n.__class__.__name__ in ("MatchAs", "MatchStar") and n.name:
            add(n.name, n)
        elif n.__class__.__name__ == "MatchMapping" and n.rest:
            add(n.rest, n)
        for c in ast.iter_child_nodes(n):
            go(c)
    if isinstance(node, ast.Lambda):
        go(node.body)
    else:
        for s in node.body:
            go(s)
    for g in glob:
        out.pop(g, None)
    if isinstance(node, SCOPES):
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            add(p.arg, p, "param")
    return out, glob


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return parts[::-1]
    return None


def mangle(cls, name):
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.lstrip("_") + name
    return name


class Program(object):
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.classes = {}        # (module name, class name) -> Cls
        self.strings = set()
        self.load()

    def load(self):
        for top in ("trappy", "scripts"):
            for d, dirs, files in os.walk(os.path.join(self.repo, top)):
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    package = name.endswith(".__init__")
                    if package:
                        name = name[:-9]
                    with open(p, encoding="utf-8") as fh:
                        try:
                            tree = ast.parse(fh.read(), rel)
                        except SyntaxError as e:
                            raise AnalysisError("%s: %s" % (rel, e))
                    m = Mod(name, rel, tree, package)
                    m.names, _ = bound(tree)
                    for n in ast.walk(tree):
                        if isinstance(n, ast.Global):
                            for x in n.names:
                                m.names.setdefault(x, []).append(("var", n))
                        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                            m.stars.append(n)
                        if isinstance(n, ast.Constant) and isinstance(n.value, str):
                            self.strings.add(n.value.lstrip("-").replace("-", "_"))
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars") \
                                and not isinstance(n, ast.Expr):
                            pass
                    self.mods[name] = m
        for m in list(self.mods.values()):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[(m.name, n.name)] = Cls(n.name, m, n)
        for c in self.classes.values():
            self.members(c)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self.base(c, b))
            for b in c.bases:
                if isinstance(b, Cls):
                    b.subs.append(c)

    _imported = None

    def imported(self):
        """modules of the package that are imported somewhere"""
        if self._imported is None:
            out = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Import):
                        out.update(a.name for a in n.names)
                    elif isinstance(n, ast.ImportFrom):
                        a = self.absolute(m, n)
                        out.add(a)
                        out.update(str(a) + "." + x.name for x in n.names)
            for x in list(out):
                while x and "." in x:
                    x = x.rpartition(".")[0]
                    out.add(x)
            self._imported = out & set(self.mods)
        return self._imported

    def base(self, c, b):
        if isinstance(b, ast.Call) and dotted(b.func) and dotted(b.func)[-1] == "with_metaclass":
            for x in b.args[1:]:
                return self.base(c, x)
            return ("ext", "object")
        d = dotted(b)
        if d is None:
            return None
        e = self.chain(c.mod, d)
        if e is None or e[0] == "missing":
            if len(d) == 1 and d[0] in BUILTINS:
                return ("ext", d[0])
            return None
        if e[0] == "class":
            return e[1]
        if e[0] == "ext":
            return ("ext", e[1])
        return None

    def members(self, c):
        c.attrs, _ = bound(c.node)
        for f in c.node.body:
            fs = [f] if isinstance(f, FUNCS) else []
            for f in fs:
                me = self.selfname(f)
                if me is None:
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        c.own.add(mangle(c.name, n.attr))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and \
                            len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == me and \
                            isinstance(n.args[1], ast.Constant):
                        c.own.add(n.args[1].value)
        for n in list(c.attrs):
            c.attrs[mangle(c.name, n)] = c.attrs[n]
        if "__slots__" in c.attrs:
            c.slots = True

    @staticmethod
    def deco(f):
        out = []
        for d in f.decorator_list:
            x = dotted(d.func if isinstance(d, ast.Call) else d)
            out.append(".".join(x) if x else "?")
        return out

    def selfname(self, f):
        if "staticmethod" in self.deco(f):
            return None
        a = f.args.posonlyargs + f.args.args
        return a[0].arg if a else None

    # ------------------------------------------------------------ resolution

    def member(self, m, name, seen=()):
        """what the module's global `name` is: an entity, ("missing",) or None (unknown)"""
        if (m.name, name) in seen:
            # imported from itself: a module of the package
            sub = self.mods.get(m.name + "." + name)
            return ("module", sub) if sub else ("missing",)
        seen = seen + ((m.name, name),)
        bs = m.names.get(name)
        if bs:
            if len(bs) > 1 and not all(b[0] == bs[0][0] for b in bs):
                ents = [self.binding(m, name, b, seen) for b in bs]
                ents = [e for e in ents if e and e[0] != "missing"]
                return ("other",) if len(ents) != 1 else (ents[0] if len(bs) == 1 else ("other",))
            if len(bs) > 1:
                if bs[0][0] == "import" and len({b[1][1] for b in bs}) > 1:
                    return None
                return ("other",) if bs[0][0] in ("var", "class", "func") else self.binding(m, name, bs[-1], seen)
            return self.binding(m, name, bs[0], seen)
        for s in m.stars:
            e = self.module_named(self.absolute(m, s))
            if e is None:
                return None
            if isinstance(e, Mod):
                r = self.member(e, name, seen)
                if r is None or r[0] != "missing":
                    return r
            else:
                return None
        if m.name + "." + name in self.mods:
            return ("module", self.mods[m.name + "." + name])
        if name.startswith("__") and name.endswith("__"):
            return ("other",)
        return ("missing",)

    def absolute(self, m, n):
        if not n.level:
            return n.module
        base = m.name.split(".")
        base = base[:len(base) - n.level + (1 if m.package else 0)]
        return ".".join(base + ([n.module] if n.module else []))

    def module_named(self, name):
        if name in self.mods:
            return self.mods[name]
        if name and name.split(".")[0] in ("trappy", "scripts"):
            return False          # it isn't there
        return None

    def binding(self, m, name, b, seen=()):
        kind, x = b
        if kind == "func":
            return ("func", x, m)
        if kind == "class":
            return ("class", self.classes[(m.name, x.name)])
        if kind == "import":
            e = self.module_named(x[1])
            if isinstance(e, Mod):
                return ("module", e)
            return ("ext", x[1]) if e is None else ("missing",)
        if kind == "from":
            mod = self.absolute(m, x[1])
            if x[1].module == "__future__":
                return ("other",)
            e = self.module_named(mod)
            if isinstance(e, Mod):
                return self.member(e, x[2], seen)
            return ("ext", mod + "." + x[2]) if e is None else ("missing",)
        return ("other",)

    def step(self, e, attr):
        """the entity that e.attr is"""
        if e is None:
            return None
        if e[0] == "module":
            return self.member(e[1], attr)
        if e[0] == "ext":
            return ("ext", e[1] + "." + attr)
        if e[0] == "class":
            for c in e[1].line():
                if not isinstance(c, Cls):
                    if c not in CLOSED:
                        return None
                    continue
                if attr in c.attrs:
                    k, x = c.attrs[attr][-1]
                    if len(c.attrs[attr]) == 1 and k == "func":
                        return ("method", x, c)
                    return ("other",)
            return ("missing",)
        return None

    def chain(self, m, parts, i=1):
        e = self.member(m, parts[0])
        for p in parts[1:]:
            if e is None or e[0] in ("other", "missing", "func", "method"):
                return e if e and e[0] == "missing" else None
            e = self.step(e, p)
        return e


def signature(f, skip):
    a = f.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    nd = len(a.defaults)
    names = [p.arg for p in a.posonlyargs + a.args]
    required = names[:len(names) - nd] if nd else names
    required = required[skip:]
    kwonly = [p.arg for p in a.kwonlyargs]
    kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return {"pos": pos, "required": required, "kwonly": kwonly, "kwreq": kwreq,
            "varargs": a.vararg is not None, "varkw": a.kwarg is not None,
            "posonly": {p.arg for p in a.posonlyargs}}


def mismatch(sig, call):
    """why the call doesn't fit, or None"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if n > len(sig["pos"]) and not sig["varargs"]:
        return "takes %d positional arguments, %d given" % (len(sig["pos"]), n)
    given = set(sig["pos"][:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not any(isinstance(a, ast.Starred) for a in call.args):
            return "argument %s given twice" % k.arg
        if k.arg not in sig["pos"] and k.arg not in sig["kwonly"] and not sig["varkw"]:
            return "has no argument %s" % k.arg
        if k.arg in sig["posonly"] and not sig["varkw"]:
            return "argument %s isn't given by name" % k.arg
        given.add(k.arg)
    if not star:
        miss = [p for p in sig["required"] + sig["kwreq"] if p not in given]
        if miss:
            return "argument %s is missing" % miss[0]
    return None


class Lint(object):
    """one pass over the functions of the program"""

    def __init__(self, prog, res):
        self.p, self.res = prog, res
        self.ext = {}            # dotted -> [(where, key, guarded)]
        self.extcalls = []
        self.byname = []         # calls of methods of objects of unknown class
        self.unknown = []        # (attr, where, key)
        self.mod = None
        self.names = set()       # attribute names the package defines
        for c in prog.classes.values():
            self.names |= set(c.attrs) | c.own
        for m in prog.mods.values():
            self.names |= set(m.names)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.names.add(n.attr)
                if isinstance(n, ast.keyword) and n.arg:
                    self.names.add(n.arg)
                if isinstance(n, ast.Call) and dotted(n.func) and dotted(n.func)[-1] == "namedtuple":
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            self.names |= set(x.value.replace(",", " ").split())
        self.names |= {s for s in prog.strings if s.isidentifier()}
        # events are attributes of traces, by their names
        self.events = set()
        for c in prog.classes.values():
            for a in ("name", "unique_word"):
                for b in c.attrs.get(a, ()):
                    pass
        for m in prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id in ("name", "unique_word"):
                            self.events.add(n.value.value.split(":")[0].strip())
                if isinstance(n, ast.Call) and dotted(n.func) and dotted(n.func)[-1].startswith("register_"):
                    for a in n.args[:1]:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            s = re.sub("([a-z0-9])([A-Z])", r"\1_\2", re.sub("(.)([A-Z][a-z]+)", r"\1_\2", a.value)).lower()
                            self.events.add(s)

    # ---------------------------------------------------------------- report

    def where(self, n):
        return "%s:%d" % (self.mod.path, getattr(n, "lineno", 0))

    def qual(self):
        return self.mod.name + "".join("." + x for x in self.stack)

    def ob(self, rule, ok, n, what, msg):
        q = self.qual()
        self.res.count(rule + " uses")
        self.res.ob(rule, q if ok else q + ":" + what, ok, self.where(n), msg)

    # ------------------------------------------------------------------ walk

    def module(self, m):
        self.mod = m
        self.stack = []
        self.scopes = []         # (node, bound names)
        self.cls = []
        self.guards = 0
        self.has = []
        for s in m.tree.body:
            self.visit(s)

    def lookup(self, name):
        """where a name is bound: "local", "module", "builtin" or None"""
        for i in range(len(self.scopes) - 1, -1, -1):
            node, names = self.scopes[i]
            if isinstance(node, ast.ClassDef) and i != len(self.scopes) - 1:
                continue
            if name in names:
                return ("local", node, names[name])
        if name in self.mod.names:
            return ("module",)
        if self.mod.package and self.mod.name + "." + name in self.p.imported():
            return ("module",)
        for s in self.mod.stars:
            e = self.p.member(self.mod, name)
            if e is None or e[0] != "missing":
                return ("module",)
        if name in BUILTINS:
            return ("builtin",)
        return None

    def entity(self, n):
        """the entity of a dotted expression, if the analysis knows it"""
        d = dotted(n)
        if d is None:
            return None
        l = self.lookup(d[0])
        if l is None or l[0] == "builtin":
            return None
        if l[0] == "local":
            bs = l[2]
            if bs[0][0] in ("import", "from") and len({str(b[1][1:2]) if b[0] == "import" else id(b) for b in bs}) == 1:
                e = self.p.binding(self.mod, d[0], bs[0])
            elif len(bs) == 1 and bs[0][0] == "func" and isinstance(l[1], SCOPES):
                e = ("func", bs[0][1], self.mod)
            else:
                return None
        else:
            e = self.p.member(self.mod, d[0])
        for x in d[1:]:
            if e is None or e[0] in ("other", "missing", "func", "method"):
                return None
            e = self.p.step(e, x)
        return e

    def visit(self, n):
        m = getattr(self, "v_" + n.__class__.__name__, None)
        if m:
            m(n)
        else:
            self.kids(n)

    def kids(self, n):
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def v_FunctionDef(self, f):
        for d in f.decorator_list + f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.visit(d)
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            if a.annotation:
                self.visit(a.annotation)
        names, _ = bound(f)
        if not self.scopes:
            self.res.funcs.add(self.qual() + "." + f.name)
        self.stack.append(f.name)
        self.res.funcs.add(self.qual())
        self.scopes.append((f, names))
        incls = len(self.scopes) > 1 and isinstance(self.scopes[-2][0], ast.ClassDef)
        self.cls.append((self.cls_of(self.scopes[-2][0]), f) if incls else
                        (self.cls[-1] if self.cls else (None, None)))
        Assigned(self, f, names).run()
        for s in f.body:
            self.visit(s)
        self.cls.pop()
        self.scopes.pop()
        self.stack.pop()

    v_AsyncFunctionDef = v_FunctionDef

    def cls_of(self, node):
        c = self.p.classes.get((self.mod.name, node.name))
        return c if c is not None and c.node is node else None

    def v_ClassDef(self, c):
        for b in c.bases + c.decorator_list + [k.value for k in c.keywords]:
            self.visit(b)
        names, _ = bound(c)
        self.stack.append(c.name)
        self.scopes.append((c, names))
        for s in c.body:
            self.visit(s)
        self.scopes.pop()
        self.stack.pop()

    def v_Lambda(self, f):
        for d in f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.visit(d)
        self.scopes.append((f, bound(f)[0]))
        self.visit(f.body)
        self.scopes.pop()

    def comp(self, n):
        names = {}
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.setdefault(x.id, []).append(("var", x))
        self.visit(n.generators[0].iter)
        self.scopes.append((ast.Lambda(), names))
        for i, g in enumerate(n.generators):
            if i:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        if isinstance(n, ast.DictComp):
            self.visit(n.key)
            self.visit(n.value)
        else:
            self.visit(n.elt)
        self.scopes.pop()

    v_ListComp = v_SetComp = v_DictComp = v_GeneratorExp = comp

    def v_Try(self, n):
        names = set()
        for h in n.handlers:
            for x in ast.walk(h.type) if h.type is not None else ():
                if isinstance(x, ast.Name):
                    names.add(x.id)
                if isinstance(x, ast.Attribute):
                    names.add(x.attr)
            if h.type is None:
                names |= {"ImportError", "AttributeError", "TypeError", "NameError"}
        if "Exception" in names:
            names |= {"ImportError", "AttributeError", "TypeError", "NameError"}
        if names & {"NameError"} or n.__class__.__name__ == "TryStar":
            names |= {"NameError"}
        old = self.caught
        self.caught = self.caught | names
        for s in n.body:
            self.visit(s)
        self.caught = old
        for h in n.handlers:
            self.visit(h)
        for s in n.orelse + n.finalbody:
            self.visit(s)

    v_TryStar = v_Try
    caught = frozenset()
    versions = 0

    def v_If(self, n):
        self.conditional(n.test, n.body, n.orelse)

    def v_IfExp(self, n):
        self.conditional(n.test, [n.body], [n.orelse])

    def conditional(self, test, body, orelse):
        self.visit(test)
        h = {x.args[1].value for x in ast.walk(test)
             if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr" and
             len(x.args) == 2 and isinstance(x.args[1], ast.Constant)}
        self.has.append(h)
        # another version of a library may have other members
        version = any(isinstance(x, ast.Attribute) and "version" in x.attr.lower() or
                      isinstance(x, ast.Name) and "version" in x.id.lower() for x in ast.walk(test))
        self.versions += version
        for s in body + orelse:
            self.visit(s)
        self.versions -= version
        self.has.pop()

    def v_BoolOp(self, n):
        h = {x.args[1].value for x in ast.walk(n)
             if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr" and
             len(x.args) == 2 and isinstance(x.args[1], ast.Constant)}
        self.has.append(h)
        self.kids(n)
        self.has.pop()

    def v_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            ok = self.lookup(n.id) is not None or "NameError" in self.caught
            self.ob("names", ok, n, n.id, "the name %s isn't defined" % n.id)

    def v_Import(self, n):
        for a in n.names:
            e = self.p.module_named(a.name)
            if "ImportError" in self.caught or "ModuleNotFoundError" in self.caught:
                continue
            if e is None and self.versions:
                continue
            if e is None:
                self.ext.setdefault(("module", a.name), []).append((self.where(n), self.qual()))
            else:
                self.ob("imports", e is not False, n, a.name, "there's no module %s" % a.name)

    def v_ImportFrom(self, n):
        mod = self.p.absolute(self.mod, n)
        if n.module == "__future__" or "ImportError" in self.caught or "ModuleNotFoundError" in self.caught:
            return
        e = self.p.module_named(mod)
        for a in n.names:
            if e is None and self.versions:
                continue
            if e is None:
                self.ext.setdefault(("chain", mod if a.name == "*" else mod + "." + a.name), []).append(
                    (self.where(n), self.qual()))
            elif e is False:
                self.ob("imports", False, n, mod, "there's no module %s" % mod)
            elif a.name != "*":
                r = self.p.member(e, a.name)
                self.ob("imports", not (r and r[0] == "missing"), n, mod + "." + a.name,
                        "%s has no %s" % (mod, a.name))

    def v_Attribute(self, n):
        self.attribute(n)
        self.visit(n.value)

    def attribute(self, n):
        attr = n.attr
        if "AttributeError" in self.caught or any(attr in h for h in self.has):
            return
        v = n.value
        key = ast.unparse(n)[:80]
        # self.X
        cls, f = self.cls[-1] if self.cls else (None, None)
        if isinstance(v, ast.Name) and cls is not None and v.id == self.p.selfname(f) and \
                self.islocal(v.id, f):
            if isinstance(n.ctx, ast.Load):
                self.selfattr(n, cls, f, attr)
            return
        if not isinstance(n.ctx, ast.Load):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            if cls is not None:
                self.superattr(n, cls, v, attr)
            return
        e = self.entity(v)
        if e is not None and e[0] in ("module", "class"):
            r = self.p.step(e, attr)
            if e[0] == "class":
                c = e[1]
                if c.open() or attr.startswith("__"):
                    return
                ok = r is not None and r[0] != "missing" or mangle(c.name, attr) in c.attrs or \
                    any(isinstance(b, Cls) and attr in b.own for b in c.line()) or attr in self.assigned_on_classes() or \
                    attr in dir(type)
            else:
                ok = r is None or r[0] != "missing"
            self.ob("members", ok, n, key, "%s has no %s" % (
                e[1].name if e[0] == "module" else e[1].qual, attr))
            return
        e = self.entity(n)
        if e is not None and e[0] == "ext":
            if not self.versions:
                self.ext.setdefault(("chain", e[1]), []).append((self.where(n), self.qual()))
            return
        e = self.entity(v)
        if e is not None and e[0] == "ext":
            return
        if cls is not None and cls.open():
            # what the other library calls it with is the other library's
            return
        self.unknown.append((attr, self.where(n), self.qual(), key))

    _aoc = None

    def assigned_on_classes(self):
        """attributes that are assigned on something that isn't self"""
        if self._aoc is None:
            out = set()
            for m in self.p.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                            isinstance(n.value, ast.Name) and n.value.id == "self"):
                        out.add(n.attr)
            self._aoc = out
        return self._aoc

    def islocal(self, name, f):
        """it's the method's parameter, which isn't assigned"""
        l = self.lookup(name)
        return l is not None and l[0] == "local" and l[1] is f and all(b[0] == "param" for b in l[2])

    def selfattr(self, n, cls, f, attr):
        cm = "classmethod" in self.p.deco(f)
        attr = mangle(cls.name, attr)
        fam = []
        for c in cls.below():
            for b in c.line():
                if b not in fam:
                    fam.append(b)
        if any(not isinstance(b, Cls) and b not in CLOSED for b in fam):
            return
        ok = any(attr in b.attrs or attr in b.own for b in fam if isinstance(b, Cls)) or \
            attr in dir(object) or (cm and attr in dir(type)) or attr in ("__dict__", "__name__", "__qualname__", "__module__") \
            or attr in self.assigned_on_classes()
        if not ok and any("__getattr__" in b.attrs or "__getattribute__" in b.attrs for b in fam if isinstance(b, Cls)):
            return
        if not ok and (attr in self.events or attr in self.p.strings) and any(self.hassetattr(b) for b in fam if isinstance(b, Cls)):
            ok = True
        self.ob("own-attributes", ok, n, attr, "no class of %s's defines self.%s" % (cls.qual, attr))

    def hassetattr(self, c):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr"
                   for x in ast.walk(c.node))

    def supers(self, cls, v):
        """the classes super() looks in, for each class self may be of"""
        if v.args:
            d = dotted(v.args[0])
            e = self.entity(v.args[0]) if d else None
            start = e[1] if e and e[0] == "class" else None
            if start is None:
                return None
        else:
            start = cls
        return start

    def superattr(self, n, cls, v, attr):
        start = self.supers(cls, v)
        if start is None:
            return
        if len(v.args) > 1 and not (isinstance(v.args[1], ast.Name) and v.args[1].id == self.p.selfname(self.cls[-1][1])):
            return
        if v.args:
            self.ob("members", start in cls.line(), n, ast.unparse(v), "%s is no base class of %s" % (
                start.qual, cls.qual))
        line = start.line()[1:]
        if any(not isinstance(b, Cls) and b not in CLOSED for b in line):
            return
        # a mixin's super is another base of a class below it
        for c in start.below():
            l = c.line()
            if start in l:
                line += l[l.index(start) + 1:]
        if any(not isinstance(b, Cls) and b not in CLOSED for b in line):
            return
        attr = mangle(cls.name, attr)
        ok = any(isinstance(b, Cls) and attr in b.attrs for b in line) or attr in dir(object)
        self.ob("members", ok, n, "super." + attr, "no base class of %s has %s" % (start.qual, attr))

    # ----------------------------------------------------------------- calls

    def v_Call(self, n):
        self.call(n)
        self.format(n)
        self.kids(n)

    def call(self, n):
        if "TypeError" in self.caught:
            return
        f = n.func
        cls, fn = self.cls[-1] if self.cls else (None, None)
        key = ast.unparse(f)[:80]
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None and \
                f.value.id == self.p.selfname(fn) and self.islocal(f.value.id, fn):
            attr = mangle(cls.name, f.attr)
            cands = []
            for c in cls.below():
                for b in c.line():
                    if isinstance(b, Cls) and attr in b.attrs:
                        if b not in cands:
                            cands.append(b)
                        break
            for b in cands:
                self.method(n, key, b, attr)
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
            start = self.supers(cls, f.value)
            if start is None or start not in cls.line():
                return
            for b in start.line()[1:]:
                if not isinstance(b, Cls):
                    if b in CLOSED and b == ("ext", "object") and f.attr == "__init__" and \
                            len(start.below()) == 1 and n.args + n.keywords:
                        self.ob("calls", False, n, key, "object takes no arguments")
                    return
                if mangle(cls.name, f.attr) in b.attrs:
                    self.method(n, key, b, mangle(cls.name, f.attr))
                    return
            return
        e = self.entity(f)
        if e is None:
            if isinstance(f, ast.Attribute) and self.entity(f.value) is None:
                self.byname.append((f.attr, n, self.where(n), self.qual(), key))
            return
        if e[0] == "func":
            if self.plain(e[1]):
                why = mismatch(signature(e[1], 0), n)
                self.ob("calls", why is None, n, key, "%s %s" % (key, why))
        elif e[0] == "method":
            d = self.p.deco(e[1])
            skip = 1 if "classmethod" in d else 0
            if self.plain(e[1], d):
                why = mismatch(signature(e[1], skip), n)
                self.ob("calls", why is None, n, key, "%s %s" % (key, why))
        elif e[0] == "class":
            for b in e[1].line():
                if not isinstance(b, Cls):
                    if b not in CLOSED:
                        return
                    continue
                if "__new__" in b.attrs:
                    return
                if "__init__" in b.attrs:
                    self.method(n, key, b, "__init__")
                    break
            self.abstract(n, e[1])
        elif e[0] == "ext" and not self.versions:
            self.extcalls.append((e[1], n, self.where(n), self.qual(), key))

    def plain(self, f, d=None):
        d = self.p.deco(f) if d is None else d
        return all(x in ("staticmethod", "classmethod", "abstractmethod", "property", "abc.abstractmethod") or
                   x.split(".")[-1] in ("contextmanager", "lru_cache", "memoized", "cache") for x in d)

    def method(self, n, key, b, attr):
        bs = b.attrs[attr]
        if len(bs) != 1 or bs[0][0] != "func":
            return
        d = self.p.deco(bs[0][1])
        if not self.plain(bs[0][1], d) or "property" in d:
            return
        skip = 0 if "staticmethod" in d else 1
        why = mismatch(signature(bs[0][1], skip), n)
        self.ob("calls", why is None, n, key + ("" if why is None else ":" + b.name), "%s.%s %s" % (b.qual, attr, why))

    def abstract(self, n, c):
        """an object of a class with abstract methods is made"""
        line = c.line()
        for b in line:
            if not isinstance(b, Cls):
                continue
            for name, bs in b.attrs.items():
                if bs[-1][0] == "func" and any(x.split(".")[-1] == "abstractmethod" for x in self.p.deco(bs[-1][1])):
                    first = [x for x in line if isinstance(x, Cls) and name in x.attrs][0]
                    self.ob("abstract-methods", first is not b, n, c.name + "." + name,
                            "%s doesn't define %s" % (c.qual, name))

    # --------------------------------------------------------------- formats

    def format(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str):
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                return
            try:
                fields = list(string.Formatter().parse(f.value.value))
            except ValueError as e:
                self.ob("formats", False, n, f.value.value[:40], "format: %s" % e)
                return
            auto, bad = 0, None
            for _, name, spec, _ in fields:
                if name is None:
                    continue
                head = re.split(r"[.\[]", name)[0]
                if head == "":
                    head = auto
                    auto += 1
                elif head.isdigit():
                    head = int(head)
                if isinstance(head, int):
                    if head >= len(n.args):
                        bad = "argument %d" % head
                elif head not in {k.arg for k in n.keywords}:
                    bad = "argument %s" % head
            self.ob("formats", bad is None, n, f.value.value[:40], "the format has no %s" % bad)

    def v_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            specs = re.findall(r"%(\(\w+\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])", n.left.value)
            want = sum(1 for s in specs if s[3] != "%") + sum(1 for s in specs for x in s[1:3] if x == "*")
            if not any(s[0] for s in specs):
                if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                    self.ob("formats", want == len(n.right.elts), n, n.left.value[:40],
                            "the format needs %d values, %d given" % (want, len(n.right.elts)))
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr)):
                    self.ob("formats", want == 1, n, n.left.value[:40], "the format needs %d values" % want)
        self.kids(n)


def cond(test, pol=True):
    """(text, polarity) of a condition"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return cond(test.operand, not pol)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        for a, b in ((ast.IsNot, ast.Is), (ast.NotEq, ast.Eq), (ast.NotIn, ast.In)):
            if isinstance(test.ops[0], a):
                return (ast.dump(ast.Compare(test.left, [b()], test.comparators)), not pol)
    return (ast.dump(test), pol)


def sure(it):
    """the iterable has elements"""
    if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
        return any(not isinstance(e, ast.Starred) for e in it.elts)
    if isinstance(it, ast.Constant):
        return bool(it.value)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in (
            "enumerate", "zip", "sorted", "reversed", "list", "range"):
        return bool(it.args) and all(sure(a) for a in it.args[:1 if it.func.id != "zip" else None])
    return False


class Assigned(object):
    """local variables are assigned before they're used"""

    def __init__(self, lint, f, names):
        self.lint, self.f = lint, f
        self.vars = {n for n, bs in names.items() if any(b[0] != "param" for b in bs)}
        self.params = {n for n, bs in names.items() if any(b[0] == "param" for b in bs)}
        self.conds = []          # (text, polarity) of the enclosing conditions
        self.after = []          # conditions that hold since a branch was left
        self.flags = {x.id for t in ast.walk(f) if isinstance(t, ast.ExceptHandler)
                      for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.given = {}          # var -> conditions it's assigned under
        self.breaks = []
        self.conts = []

    def run(self):
        if self.vars:
            self.block(self.f.body, frozenset(self.params))

    def use(self, n, A):
        """the names an expression uses"""
        if n is None:
            return A
        if isinstance(n, SCOPES):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                A = self.use(d, A)
            if isinstance(n, FUNCS):
                for d in n.decorator_list:
                    A = self.use(d, A)
            return A
        if isinstance(n, COMPS):
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            A2 = A | own
            self.use(n.generators[0].iter, A)
            for i, g in enumerate(n.generators):
                if i:
                    self.use(g.iter, A2)
                for c in g.ifs:
                    self.use(c, A2)
            if isinstance(n, ast.DictComp):
                self.use(n.key, A2)
                self.use(n.value, A2)
            else:
                self.use(n.elt, A2)
            return A
        if isinstance(n, ast.IfExp):
            A1 = self.use(n.test, A)
            self.conds.append(cond(n.test))
            a = self.use(n.body, A1)
            self.conds[-1] = cond(n.test, False)
            b = self.use(n.orelse, A1)
            self.conds.pop()
            return a & b
        if isinstance(n, ast.BoolOp):
            A = self.use(n.values[0], A)
            k = 0
            for i, v in enumerate(n.values[1:]):
                self.conds.append(cond(n.values[i], isinstance(n.op, ast.And)))
                k += 1
                self.use(v, A)
            del self.conds[len(self.conds) - k:]
            return A
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.vars:
                ok = n.id in A or any(cs <= set(self.conds) | set(self.after) for cs in self.given.get(n.id, ())) or \
                    any("Name(id=%r" % v in c[0] for c in self.conds for v in self.flags) or \
                    "NameError" in self.lint.caught or "UnboundLocalError" in self.lint.caught
                self.lint.ob("assigned-before-use", ok, n, n.id,
                             "%s may be used before it's assigned" % n.id)
                if not ok:
                    A = A | {n.id}
            return A
        if isinstance(n, ast.NamedExpr):
            return self.use(n.value, A) | {n.target.id}
        for c in ast.iter_child_nodes(n):
            A = self.use(c, A)
        return A

    def target(self, t, A):
        if isinstance(t, ast.Name):
            if self.conds:
                self.given.setdefault(t.id, set()).add(frozenset(
                    c for c in self.conds if not (c[1] and c[0].startswith("BoolOp(op=And"))))
            return A | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                A = self.target(e, A)
            return A
        if isinstance(t, ast.Starred):
            return self.target(t.value, A)
        return self.use(t, A)

    def block(self, body, A):
        """assigned variables after the statements, or None if the end isn't reached"""
        for s in body:
            if A is None:
                return None
            A = self.stmt(s, A)
        return A

    @staticmethod
    def meet(*As):
        As = [a for a in As if a is not None]
        if not As:
            return None
        out = As[0]
        for a in As[1:]:
            out = out & a
        return out

    def stmt(self, s, A):
        k = s.__class__.__name__
        if isinstance(s, FUNCS):
            return self.target(ast.Name(s.name, ast.Store()), self.use(s, A))
        if k == "ClassDef":
            return A | {s.name}
        if k in ("Return", "Raise"):
            for c in ast.iter_child_nodes(s):
                A = self.use(c, A)
            return None
        if k == "Break":
            if self.breaks:
                self.breaks[-1].append(A)
            return None
        if k == "Continue":
            if self.conts:
                self.conts[-1].append(A)
            return None
        if k == "Assign":
            A = self.use(s.value, A)
            for t in s.targets:
                A = self.target(t, A)
            return A
        if k == "AugAssign":
            if isinstance(s.target, ast.Name):
                A = self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), A)
            else:
                A = self.use(s.target, A)
            A = self.use(s.value, A)
            return self.target(s.target, A)
        if k == "AnnAssign":
            if s.value is None:
                return A
            return self.target(s.target, self.use(s.value, A))
        if k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    A = self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), A) - {t.id}
                    self.given.pop(t.id, None)
                else:
                    A = self.use(t, A)
            return A
        if k in ("Import", "ImportFrom"):
            for a in s.names:
                A = A | {a.asname or a.name.split(".")[0]}
            return A
        if k == "If":
            A = self.use(s.test, A)
            const = s.test.value if isinstance(s.test, ast.Constant) else None
            n0 = len(self.conds)
            self.conds.append(cond(s.test))
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                self.conds += [cond(v) for v in s.test.values]
            a = self.block(s.body, A)
            del self.conds[n0:]
            self.conds.append(cond(s.test, False))
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
                self.conds += [cond(v, False) for v in s.test.values]
            b = self.block(s.orelse, A)
            del self.conds[n0:]
            if a is not None and b is None:
                # from here on, the condition holds
                self.after.append(cond(s.test))
            elif b is not None and a is None:
                self.after.append(cond(s.test, False))
            if const is not None:
                return a if const else b
            return self.meet(a, b)
        if k in ("For", "AsyncFor"):
            A = self.use(s.iter, A)
            A1 = self.target(s.target, A)
            self.breaks.append([])
            self.conts.append([])
            e = self.block(s.body, A1)
            br, co = self.breaks.pop(), self.conts.pop()
            e = self.meet(e, *co)
            e = A if e is None or not sure(s.iter) else e
            e = self.block(s.orelse, e)
            return self.meet(e, *br)
        if k == "While":
            A = self.use(s.test, A)
            always = isinstance(s.test, ast.Constant) and s.test.value
            self.breaks.append([])
            self.conts.append([])
            e = self.block(s.body, A)
            br, co = self.breaks.pop(), self.conts.pop()
            if always:
                return self.meet(*br)
            e = A
            e = self.block(s.orelse, e)
            return self.meet(e, *br)
        if k in ("With", "AsyncWith"):
            for i in s.items:
                A = self.use(i.context_expr, A)
                if i.optional_vars is not None:
                    A = self.target(i.optional_vars, A)
            return self.block(s.body, A)
        if k in ("Try", "TryStar"):
            old = self.lint.caught
            names = {x.id for h in s.handlers if h.type is not None for x in ast.walk(h.type) if isinstance(x, ast.Name)}
            self.lint.caught = old | (names & {"NameError", "UnboundLocalError"})
            b = self.block(s.body, A)
            self.lint.caught = old
            if b is not None:
                b = self.block(s.orelse, b)
            outs = [b]
            for h in s.handlers:
                self.use(h.type, A)
                e = self.block(h.body, A | ({h.name} if h.name else set()))
                if e is not None and h.name:
                    e = e - {h.name} | (A & {h.name})
                outs.append(e)
            if s.finalbody:
                f = self.block(s.finalbody, A)
                if f is None:
                    return None
                m = self.meet(*outs)
                return None if m is None else m | f
            return self.meet(*outs)
        if k == "Match":
            A = self.use(s.subject, A)
            outs = []
            wild = False
            for c in s.cases:
                A1 = A | {x.name for x in ast.walk(c.pattern) if getattr(x, "name", None) and
                          x.__class__.__name__ in ("MatchAs", "MatchStar")}
                if c.guard:
                    A1 = self.use(c.guard, A1)
                outs.append(self.block(c.body, A1))
                wild |= c.guard is None and c.pattern.__class__.__name__ == "MatchAs" and c.pattern.pattern is None
            return self.meet(*(outs + ([] if wild else [A])))
        if k in ("Global", "Nonlocal", "Pass"):
            return A
        if k == "Expr" and isinstance(s.value, ast.Call):
            A = self.use(s.value, A)
            d = dotted(s.value.func)
            if d and d[-2:] in (["sys", "exit"], ["os", "_exit"]):
                return None
            return A
        for c in ast.iter_child_nodes(s):
            A = self.use(c, A)
        return A


def e01():
    res = Res()
    prog = Program(REPO)
    lint = Lint(prog, res)
    for m in sorted(prog.mods.values(), key=lambda m: m.name):
        lint.module(m)
        res.count("modules")
    modules = {n for k, n in lint.ext if k == "module"}
    chains = {n for k, n in lint.ext if k == "chain"} | {c[0] for c in lint.extcalls}
    tops = {n.split(".")[0] for k, n in lint.ext}
    ans = external.ask(modules | tops, chains, tops)
    if ans is None:
        res.notes.append("the installed libraries couldn't be asked")
        ans = {"modules": {}, "chains": {}, "names": None, "sigs": {}}
    for (k, n), uses in sorted(lint.ext.items()):
        r = ans["modules"].get(n) if k == "module" else ans["chains"].get(n)
        for w, q in uses:
            if w.startswith("scripts"):
                continue
            res.count("library-members uses")
            if r is None:
                res.count("library members not known")
            else:
                res.ob("library-members", q if r is True else q + ":" + n, r is True, w,
                       "%s doesn't exist in the installed library" % (r or n))
    for d, call, w, q, key in lint.extcalls:
        s = ans["sigs"].get(d)
        if s is None or ans["chains"].get(d) is not True:
            continue
        pr = s["params"]
        sig = {"pos": [p[0] for p in pr if p[2]], "required": [p[0] for p in pr if p[2] and p[3]],
               "kwonly": [p[0] for p in pr if not p[2]], "kwreq": [p[0] for p in pr if not p[2] and p[3]],
               "varargs": s["varargs"], "varkw": s["varkw"], "posonly": {p[0] for p in pr if not p[1]}}
        why = mismatch(sig, call)
        res.count("library-calls uses")
        res.ob("library-calls", q if why is None else q + ":" + key, why is None, w, "%s %s" % (d, why))
    if ans["names"]:
        known = set(ans["names"]) | lint.names | lint.events
        # methods that only classes of the package have
        own = {}
        for c in prog.classes.values():
            for name, bs in c.attrs.items():
                own.setdefault(name, []).append(bs)
        elsewhere = set(ans["names"])
        for c in prog.classes.values():
            elsewhere |= c.own
        for attr, call, w, q, key in lint.byname:
            defs = own.get(attr)
            if not defs or attr in elsewhere or any(
                    len(bs) != 1 or bs[0][0] != "func" or not lint.plain(bs[0][1]) or
                    "property" in prog.deco(bs[0][1]) for bs in defs):
                continue
            whys = [mismatch(signature(bs[0][1], 0 if "staticmethod" in prog.deco(bs[0][1]) else 1), call) for bs in defs]
            ok = any(y is None for y in whys)
            res.count("calls uses")
            res.ob("calls", q if ok else q + ":" + key, ok, w, "%s %s" % (key, whys[0]))
        # modules that use libraries that aren't there
        away = {w.rpartition(":")[0] for (k, n), uses in lint.ext.items() for w, q in uses
                if (ans["modules"] if k == "module" else ans["chains"]).get(n) is not True}
        for attr, w, q, key in lint.unknown:
            if w.rpartition(":")[0] in away:
                continue
            res.count("attribute-names uses")
            ok = attr in known
            res.ob("attribute-names", q if ok else q + ":" + key, ok, w,
                   "no class of the library or of those it uses has an attribute %s" % attr)
    return res, dict(
        explanation="every name, import, attribute of a module, of a class and of self, call of a function, "
        "class or method of the library or (where their signature is known) of the installed "
        "libraries, and constant format string, of every function of the package and its scripts is resolved in the "
        "syntax trees; local variables are followed through branches, loops and handlers",
        assumptions=["no attribute is added to a class from outside by a "
                     "computed name"],
        floors={"names": 100, "own-attributes": 60, "members": 60, "calls": 60, "imports": 20})
