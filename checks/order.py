"""Nothing depends on the order of sets, directories, hashes or addresses: D01."""
import ast

from sa.core import AnalysisError
from sa.report import Res, REPO
from .names import Program, Cls, FUNCS, SCOPES, bound, dotted, mangle

# kinds: "set" (a set), "list" / "dict" (a sequence / mapping in an arbitrary order),
# "arb" (a value that depends on an arbitrary order)
NONE = frozenset()
SETS = {"set", "frozenset", "builtins.set"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "os.fwalk"}
# builtins whose result doesn't depend on the order
NEUTRAL = {"sorted", "len", "min", "max", "sum", "any", "all", "bool", "isinstance", "type", "hasattr", "callable",
           "issubclass"}
KEEP = {"list", "tuple", "iter", "reversed", "enumerate", "map", "filter", "zip"}
# methods of sets, containers and frames that look at their arguments in no order
UNORDERED_ARGS = {"isin", "update", "issubset", "issuperset", "isdisjoint", "union", "intersection", "difference",
                  "symmetric_difference", "intersection_update", "difference_update", "add", "discard", "remove",
                  "__contains__", "startswith", "endswith", "info", "debug", "warning", "warn", "error"}
# effects that come out the same in any order
COMMUTE = {"add", "update", "discard", "difference_update", "intersection_update", "setdefault", "debug", "info",
           "warning", "warn", "remove", "pop", "clear", "close", "unlink"}
GROW = {"append", "extend", "insert", "appendleft"}


def cut(ks):
    """what a value that's made from others depends on"""
    return frozenset(["arb"]) if ks else NONE


class Order(object):
    def __init__(self, prog, res):
        self.p, self.res = prog, res
        self.funcs = {}          # id(node) -> (node, mod, cls)
        self.params = {}         # (id(node), name) -> kinds
        self.rets = {}           # id(node) -> kinds
        self.attrs = {}          # (root class qual, attribute) -> kinds
        self.called = set()
        self.parts = {}          # id(node) -> {index of the returned tuple: kinds}
        self.methods = {}        # name -> [node]
        self.changed = True
        self.final = False
        self.collect()

    def collect(self):
        for m in self.p.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, FUNCS):
                    self.funcs[id(n)] = (n, m, None)
        for c in self.p.classes.values():
            for s in c.node.body:
                if isinstance(s, FUNCS):
                    self.funcs[id(s)] = (s, c.mod, c)
                    self.methods.setdefault(s.name, []).append(s)

    def run(self):
        for i in range(20):
            self.changed = False
            self.sweep()
            if not self.changed:
                break
        self.final = True
        self.sweep()

    def sweep(self):
        for m in sorted(self.p.mods.values(), key=lambda m: m.name):
            Body(self, m.tree, m, None, m.name).go()
        for n, m, c in list(self.funcs.values()):
            q = (c.qual if c else m.name) + "." + n.name
            Body(self, n, m, c, q).go()

    def put(self, table, key, ks):
        old = table.get(key, NONE)
        if not ks <= old:
            table[key] = old | ks
            self.changed = True

    def root(self, c):
        line = [b for b in c.line() if isinstance(b, Cls)]
        return line[-1].qual

    def report(self, rule, key, ok, where, msg):
        if self.final:
            self.res.ob(rule, key, ok, where, msg)
            self.res.count(rule + " uses")


class Body(object):
    """one function (or the statements of a module)"""

    def __init__(self, o, node, mod, cls, qual):
        self.o, self.node, self.mod, self.cls, self.qual = o, node, mod, cls, qual
        self.env = {}
        self.any = 0             # nesting of loops in an arbitrary order
        self.fresh = []          # names that each iteration of these loops sets before
        self.names = bound(node)[0]
        self.me = None
        if isinstance(node, FUNCS):
            self.me = o.p.selfname(node) if cls else None
            for n, bs in self.names.items():
                if any(b[0] == "param" for b in bs):
                    self.env[n] = o.params.get((id(node), n), NONE)

    def go(self):
        self.block(self.node.body)
        if self.o.final:
            self.o.res.funcs.add(self.qual)

    def where(self, n):
        return "%s:%d" % (self.mod.path, getattr(n, "lineno", 0))

    def bad(self, rule, n, what, msg):
        self.o.report(rule, self.qual + ":" + what, False, self.where(n), msg)

    def good(self, rule, n):
        self.o.report(rule, self.qual, True, self.where(n), "")

    # ------------------------------------------------------------ statements

    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        e0 = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(e0)
            self.block(b)
            if b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                continue
            outs.append(self.env)
        self.env = dict(e0) if not outs else {}
        for e in outs:
            for k, v in e.items():
                self.env[k] = self.env.get(k, NONE) | v

    def stmt(self, s):
        k = s.__class__.__name__
        if isinstance(s, FUNCS) or k == "ClassDef":
            return
        if k == "Assign":
            ks = self.ev(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, ast.Call):
                    ts = self.targets(s.value, s.value.func, dotted(s.value.func))
                    parts = [self.o.parts.get(id(f), {}) for f, _ in ts]
                    if any(parts):
                        for i, e in enumerate(t.elts):
                            k = NONE
                            for p in parts:
                                k |= p.get(i, NONE)
                            self.assign(e, k, None)
                        continue
                self.assign(t, ks, s.value)
        elif k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif k == "AugAssign":
            ks = self.ev(s.value)
            old = self.ev(s.target)
            if self.any and not self.counts(s) and not self.isfresh(s.target):
                ks |= {"list"}
            if "set" in old and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                ks = frozenset(["set"])
            elif "set" in ks:
                # a list that's extended by a set
                ks = ks - {"set"} | {"list"}
            self.assign(s.target, old | ks, None)
        elif k == "If":
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif k in ("For", "AsyncFor"):
            self.loop(s)
        elif k == "While":
            self.ev(s.test)
            for _ in range(2):
                self.branch(s.body, [])
            self.block(s.orelse)
        elif k in ("With", "AsyncWith"):
            for i in s.items:
                ks = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, ks, None)
            self.block(s.body)
        elif k in ("Try", "TryStar"):
            self.branch(s.body + s.orelse, *[h.body for h in s.handlers])
            self.block(s.finalbody)
        elif k == "Return":
            ks = self.ev(s.value) if s.value is not None else NONE
            if self.any and not self.plain(s.value):
                ks = ks | {"arb"}
            if isinstance(self.node, FUNCS):
                if isinstance(s.value, ast.Tuple):
                    ps = self.o.parts.setdefault(id(self.node), {})
                    for i, e in enumerate(s.value.elts):
                        k = self.ev(e)
                        if not k <= ps.get(i, NONE):
                            ps[i] = ps.get(i, NONE) | k
                            self.o.changed = True
                self.o.put(self.o.rets, id(self.node), ks)
            self.leave(s, ks, "return")
        elif k == "Expr":
            v = s.value
            if isinstance(v, ast.Call):
                self.effect(v)
            elif isinstance(v, (ast.Yield, ast.YieldFrom)):
                ks = self.ev(v.value) if v.value is not None else NONE
                if self.any or isinstance(v, ast.YieldFrom) and ks:
                    ks = frozenset(["list"])
                if isinstance(self.node, FUNCS):
                    self.o.put(self.o.rets, id(self.node), ks)
                self.leave(s, ks, "yield")
            else:
                self.ev(v)
        elif k == "Delete":
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def plain(self, v):
        """the same whichever element came first"""
        return v is None or isinstance(v, ast.Constant) or (
            isinstance(v, (ast.List, ast.Tuple, ast.Dict)) and not list(ast.iter_child_nodes(v)))

    def counts(self, s):
        v = s.value
        return isinstance(v, ast.Constant) and not isinstance(v.value, (str, bytes)) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("len", "int", "sum"))

    def leave(self, n, ks, how):
        """a value leaves the function: it's the library's result if nothing of the library calls it"""
        if not isinstance(self.node, FUNCS):
            return
        name = self.node.name
        if name.startswith("_"):
            return
        # the callers of a function that's used in the library may still sort what it returns
        b = ks & ({"arb"} if id(self.node) in self.o.called else {"list", "dict", "arb"})
        if b:
            self.bad("results", n, how, "the result is in the order of a set or a directory")
        else:
            self.good("results", n)

    def loop(self, s):
        ks = self.ev(s.iter)
        arb = bool(ks & {"set", "list", "dict"})
        if arb or ks:
            self.o.report("iterations", self.qual + ":loop", True, self.where(s), "")
        before = dict(self.env)
        self.any += arb
        if arb:
            self.fresh.append({t.id for b in s.body if isinstance(b, ast.Assign) for t in b.targets
                               if isinstance(t, ast.Name)})
        for _ in range(2):
            self.assign(s.target, NONE, None)
            e0 = dict(self.env)
            self.block(s.body)
            for k, v in e0.items():
                self.env[k] = self.env.get(k, NONE) | v
        self.any -= arb
        if arb:
            self.fresh.pop()
            # what the last (or first) iteration leaves
            stored = {}
            for st in s.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                stored.setdefault(t.id, []).append(x.value)
            for name, vs in stored.items():
                if not all(self.plain(v) for v in vs) or len({ast.dump(v) for v in vs}) > 1:
                    self.env[name] = self.env.get(name, NONE) | {"arb"}
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    self.env[x.id] = frozenset(["arb"])
        self.block(s.orelse)

    def isfresh(self, n):
        """an object of this iteration"""
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return isinstance(n, ast.Name) and bool(self.fresh) and n.id in self.fresh[-1]

    def attrkey(self, n):
        """key of self.X"""
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and self.cls is not None and \
                n.value.id == self.me:
            return (self.o.root(self.cls), mangle(self.cls.name, n.attr))

    def assign(self, t, ks, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = ks
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for e, v in zip(t.elts, value.elts):
                    self.assign(e, self.ev(v), v)
            else:
                # the elements of an ordered pair may be sets
                el = cut(ks) if ks & {"set", "list", "arb"} else NONE
                for e in t.elts:
                    self.assign(e, el, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, ks, None)
        elif isinstance(t, ast.Attribute):
            k = self.attrkey(t)
            if k:
                self.o.put(self.o.attrs, k, ks)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            if self.any and not self.isfresh(t.value):
                # entries are added in an arbitrary order
                if not self.constant(t.slice):
                    self.taint(t.value, frozenset(["dict"]))
            if ks & {"arb", "list"}:
                self.taint(t.value, frozenset(["arb"]))

    @staticmethod
    def constant(e):
        return isinstance(e, ast.Constant)

    def taint(self, n, ks):
        if isinstance(n, ast.Name):
            self.env[n.id] = self.env.get(n.id, NONE) | ks
        elif self.attrkey(n):
            self.o.put(self.o.attrs, self.attrkey(n), ks)
        elif isinstance(n, (ast.Subscript, ast.Attribute)):
            ks = cut(ks)
            if self.any and isinstance(n, ast.Subscript) and not self.constant(n.slice) and ks:
                # defaultdict adds the entry
                ks |= {"dict"}
            self.taint(n.value, ks)

    # ----------------------------------------------------------- expressions

    def effect(self, c):
        """a call whose result isn't used"""
        f = c.func
        if isinstance(f, ast.Attribute):
            if f.attr == "sort" and isinstance(f.value, ast.Name):
                self.args(c)
                self.env[f.value.id] = self.env.get(f.value.id, NONE) - {"list"}
                return
            if f.attr == "sort" and self.attrkey(f.value):
                self.args(c)
                return
            if f.attr in GROW:
                ks = NONE
                for a in c.args:
                    ks |= self.ev(a)
                if f.attr == "extend" and ks & {"set", "list", "dict"} or self.any and not self.isfresh(f.value):
                    self.taint(f.value, frozenset(["list"]))
                if ks & {"arb", "list"} or f.attr == "extend" and ks:
                    self.taint(f.value, frozenset(["list"]))
                return
            if f.attr == "update" and len(c.args) == 1:
                ks = self.ev(c.args[0])
                if "set" not in self.ev(f.value) and (ks & {"dict", "arb"} or self.any):
                    self.taint(f.value, frozenset(["dict"]))
                return
            if f.attr == "setdefault" and self.any:
                self.taint(f.value, frozenset(["dict"]))
                return
        ks = self.ev(c)
        if self.any and not self.commutes(c):
            self.bad("iterations", c, ast.unparse(f)[:60],
                     "%s is called for each of the elements of a set or a directory, in an arbitrary order" %
                     ast.unparse(f)[:60])

    def commutes(self, c):
        f = c.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return name in COMMUTE

    def args(self, c):
        return [self.ev(a) for a in c.args] + [self.ev(k.value) for k in c.keywords]

    def ev(self, n):
        if n is None:
            return NONE
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m:
            return m(n)
        ks = NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                ks |= self.ev(c)
        return ks & {"arb"}

    def e_Constant(self, n):
        return NONE

    def e_Name(self, n):
        return self.env.get(n.id, NONE)

    def e_Set(self, n):
        for e in n.elts:
            self.ev(e)
        return frozenset(["set"]) if len(n.elts) > 1 or any(isinstance(e, ast.Starred) for e in n.elts) else NONE

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_List(self, n):
        out = NONE
        for e in n.elts:
            k = self.ev(e)
            if isinstance(e, ast.Starred) and k & {"set", "list", "dict"}:
                out |= {"list"}
            elif k & {"arb", "list", "dict"}:
                out |= {"arb"}
        return out

    e_Tuple = e_List

    def e_Dict(self, n):
        out = NONE
        for k, v in zip(n.keys, n.values):
            a = self.ev(v)
            if k is None:
                out |= a & {"dict", "arb"}
            else:
                self.ev(k)
                out |= cut(a & {"arb", "list"})
        return out

    def comp(self, n, res):
        old = dict(self.env)
        ks = NONE
        for g in n.generators:
            k = self.ev(g.iter)
            ks |= k
            self.assign(g.target, cut(k & {"arb"}), None)
            for c in g.ifs:
                self.ev(c)
        if isinstance(n, ast.DictComp):
            self.ev(n.key)
            v = self.ev(n.value)
        else:
            v = self.ev(n.elt)
        self.env = old
        out = NONE
        if ks & {"set", "list", "dict"}:
            out |= {res}
        if (ks | v) & {"arb"} or v & {"list"}:
            out |= {"arb"}
        return out

    def e_ListComp(self, n):
        return self.comp(n, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return self.comp(n, "set") & {"arb"} | {"set"}

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and "set" in a | b:
            return frozenset(["set"])
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
            return cut(b)
        return (a | b) - {"set"}

    def e_Compare(self, n):
        for c in [n.left] + n.comparators:
            self.ev(c)
        return NONE

    def e_BoolOp(self, n):
        ks = NONE
        for v in n.values:
            ks |= self.ev(v)
        return ks

    def e_UnaryOp(self, n):
        return NONE if isinstance(n.op, ast.Not) else self.ev(n.operand)

    def e_IfExp(self, n):
        self.ev(n.test)
        return self.ev(n.body) | self.ev(n.orelse)

    def e_Subscript(self, n):
        ks, i = self.ev(n.value), self.ev(n.slice)
        out = NONE
        if "list" in ks:
            out |= {"list"} if isinstance(n.slice, ast.Slice) else {"arb"}
        if "arb" in ks or "arb" in i:
            out |= {"arb"}
        if "set" in i or "list" in i:
            # columns in an arbitrary order
            out |= {"list"}
        return out

    def e_Attribute(self, n):
        k = self.attrkey(n)
        if k:
            ks = self.o.attrs.get(k, NONE)
            # a property
            for f in self.o.methods.get(n.attr, ()):
                if "property" in self.o.p.deco(f):
                    ks |= self.o.rets.get(id(f), NONE)
                    self.o.called.add(id(f))
            return ks
        ks = self.ev(n.value) & {"arb"}
        for (c, a), k in self.o.attrs.items():
            # an object of the library's that isn't self
            if a == n.attr and self.external(dotted(n)) is None:
                ks |= k
        return ks

    def e_NamedExpr(self, n):
        ks = self.ev(n.value)
        self.assign(n.target, ks, n.value)
        return ks

    def e_JoinedStr(self, n):
        ks = NONE
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                ks |= self.ev(v.value)
        return cut(ks)

    def e_Lambda(self, n):
        old, self.env = self.env, dict(self.env)
        for p in n.args.args:
            self.env[p.arg] = NONE
        ks = self.ev(n.body)
        self.env = old
        return ks & {"arb"}

    def e_Call(self, n):
        f = n.func
        d = dotted(f)
        name = ".".join(d) if d else ""
        if isinstance(f, ast.Name) and f.id not in self.names and f.id not in self.mod.names or \
                isinstance(f, ast.Name) and self.isbuiltin(f.id):
            return self.builtin(n, f.id)
        full = self.external(d)
        if full in LISTING:
            self.args(n)
            return frozenset(["list"])
        if full in ("json.dumps", "json.dump") and any(
                k.arg == "sort_keys" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords):
            ks = NONE
            for a in self.args(n):
                ks |= a
            return cut(ks & {"list", "arb", "set"})
        targets = self.targets(n, f, d)
        ks = self.args(n)
        if targets:
            out = NONE
            for t, skip in targets:
                self.o.called.add(id(t))
                self.pass_args(n, t, skip)
                out |= self.o.rets.get(id(t), NONE)
            return out
        if isinstance(f, ast.Attribute):
            v = self.ev(f.value)
            a = f.attr
            if "set" in v:
                if a in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                    return frozenset(["set"])
                if a == "pop":
                    return frozenset(["arb"])
                return NONE
            if a in UNORDERED_ARGS:
                return v
            if a in ("keys", "values", "items", "copy", "tolist"):
                return v | ({"list"} if "dict" in v else NONE)
            if a in ("get", "setdefault") and "dict" in v:
                return v & {"arb"}
            if a in ("index", "pop") and "list" in v:
                return frozenset(["arb"])
            if a in ("sort_index", "sort_values"):
                return NONE
            out = v
            for k in ks:
                out |= k
            out = cut(out)
            if a in ("join",):
                return out
            if self.any and a not in COMMUTE and self.sinks(a):
                self.bad("iterations", n, name or a, "%s is called in an arbitrary order" % (name or a))
            if any(k & {"list", "dict", "arb"} for k in ks) and self.sinks(a):
                self.bad("outputs", n, name or a, "%s gets values in the order of a set or a directory" % (name or a))
            return out
        out = NONE
        for k in ks:
            out |= k
        return cut(out)

    def sinks(self, a):
        return a in ("write", "writelines", "writerow", "writerows", "plot", "bar", "barh", "hist", "to_csv", "legend",
                     "set_title", "dump", "dumps", "print")

    def ties(self, key):
        """different elements may have the same sorting key"""
        if isinstance(key, ast.Name):
            return key.id in ("id", "hash", "len", "type", "bool")
        if isinstance(key, ast.Lambda):
            b = key.body
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ("len", "hash", "id", "type"):
                return True
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ("lower", "upper"):
                return True
            return isinstance(b, ast.Subscript) or isinstance(b, ast.Constant)
        return False

    def isbuiltin(self, name):
        bs = self.mod.names.get(name)
        return bool(bs) and name not in self.names or bool(bs) and isinstance(self.node, ast.Module) \
            if bs and bs[0][0] == "from" and bs[0][1][1].module in ("builtins", "future.builtins") else False

    def external(self, d):
        if not d:
            return None
        bs = self.names.get(d[0]) or self.mod.names.get(d[0])
        if bs and bs[0][0] in ("import", "from"):
            e = self.o.p.binding(self.mod, d[0], bs[0])
            if e and e[0] == "ext":
                return ".".join([e[1]] + d[1:])
        return None

    def targets(self, n, f, d):
        """[(function, number of leading parameters that aren't given)]"""
        p = self.o.p
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls is not None and \
                f.value.id == self.me:
            out = []
            a = mangle(self.cls.name, f.attr)
            for c in self.cls.below():
                for b in c.line():
                    if isinstance(b, Cls) and a in b.attrs:
                        x = b.attrs[a][-1]
                        if x[0] == "func" and (x[1], 1) not in out:
                            out.append((x[1], 0 if "staticmethod" in p.deco(x[1]) else 1))
                        break
            return out
        if d and (d[0] in self.mod.names or self.mod.package and self.mod.name + "." + d[0] in p.mods) and d[0] not in (self.names if isinstance(self.node, FUNCS) else ()):
            e = p.chain(self.mod, d)
            if e and e[0] == "func":
                return [(e[1], 0)]
            if e and e[0] == "method":
                return [(e[1], 1 if "classmethod" in p.deco(e[1]) else 0)]
            if e and e[0] == "class":
                for b in e[1].line():
                    if isinstance(b, Cls) and "__init__" in b.attrs and b.attrs["__init__"][-1][0] == "func":
                        return [(b.attrs["__init__"][-1][1], 1)]
                return []
            if e:
                return []
        if isinstance(f, ast.Name):
            bs = self.names.get(f.id)
            if bs and bs[0][0] == "func" and id(bs[0][1]) in self.o.funcs:
                return [(bs[0][1], 0)]
            if bs and bs[0][0] == "from":
                e = p.binding(self.mod, f.id, bs[0])
                if e and e[0] == "func":
                    return [(e[1], 0)]
            return []
        if isinstance(f, ast.Attribute) and self.external(d) is None:
            # a method only the library's classes have
            ms = self.o.methods.get(f.attr, ())
            if ms and f.attr not in COMMON:
                return [(m, 0 if "staticmethod" in p.deco(m) else 1) for m in ms]
        return []

    def pass_args(self, n, t, skip):
        a = t.args
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        for i, x in enumerate(n.args):
            if isinstance(x, ast.Starred):
                continue
            k = self.ev(x)
            if i < len(pos):
                self.o.put(self.o.params, (id(t), pos[i]), k)
            elif a.vararg:
                self.o.put(self.o.params, (id(t), a.vararg.arg), cut(k))
        for kw in n.keywords:
            if kw.arg:
                self.o.put(self.o.params, (id(t), kw.arg), self.ev(kw.value))

    def builtin(self, n, name):
        ks = self.args(n)
        u = NONE
        for k in ks:
            u |= k
        if name in ("set", "frozenset"):
            return frozenset(["set"])
        if name == "sorted":
            if u & {"set", "list", "dict"} and any(k.arg == "key" and self.ties(k.value) for k in n.keywords):
                return frozenset(["list"])
            return u & {"arb"}
        if name in ("id", "hash"):
            # addresses, and hashes of strings, are those of the process; an object's is that of others before and after it
            if isinstance(self.node, FUNCS) and self.node.name == "__hash__":
                return NONE
            return frozenset(["arb"])
        if name == "open" and u:
            self.bad("outputs", n, "open", "the name of a file depends on an arbitrary order or a hash")
        if name in NEUTRAL:
            return u & {"arb"}
        if name in KEEP:
            out = NONE
            if u & {"set", "list", "dict"}:
                out |= {"list"}
            return out | (u & {"arb"})
        if name in ("dict", "OrderedDict"):
            return frozenset(["dict"]) if u & {"list", "dict", "set"} else u & {"arb"}
        if name == "next":
            return cut(u)
        if name == "print":
            if u or self.any:
                self.bad("outputs", n, "print", "what's printed is in the order of a set or a directory")
            return NONE
        return cut(u)


COMMON = set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | {
    "plot", "write", "read", "close", "view", "format", "apply", "series", "update", "run", "finish"}


def d01():
    res = Res()
    prog = Program(REPO)
    o = Order(prog, res)
    o.run()
    n = 0
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and (
                    isinstance(x.func, ast.Name) and x.func.id in SETS or
                    isinstance(x.func, ast.Attribute) and x.func.attr in ("listdir", "glob", "scandir", "walk")):
                n += 1
                res.ob("sources", "%s:%s" % (m.name, ast.unparse(x)[:60]), True, "%s:%d" % (m.path, x.lineno), "")
    res.count("calls of functions followed", len(o.called))
    return res, dict(
        explanation="each set and each listing of a directory is followed, through variables, attributes, containers, "
        "loops and the calls of the library's functions, to what's made of its elements in the order they come in: "
        "results of functions that users call, output, and calls for each element",
        assumptions=["dictionaries keep the order of insertion (Python 3.7)",
                     "sums don't depend on the order of their terms"],
        floors={"sources": 3, "results": 15})
