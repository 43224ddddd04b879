"""A small flow-insensitive analysis of JavaScript: which parts of their data scripts read, and what for.

The sources are parsed by acorn; nothing is run."""
import json
import os
import subprocess

from .core import AnalysisError

MODULES = os.environ.get("VERIF_NODE_MODULES", "/opt/veriftools/node/node_modules")
SCRIPT = r"""
const acorn = require("acorn");
let text = "";
process.stdin.on("data", d => text += d);
process.stdin.on("end", () => {
    const out = JSON.parse(text).map(t => {
        try { return acorn.parse(t, {ecmaVersion: 2020, locations: true}); }
        catch (e) { return {type: "Error", message: String(e)}; }
    });
    process.stdout.write(JSON.stringify(out));
});
"""


def parse(texts):
    """the syntax trees (ESTree) of some sources"""
    try:
        p = subprocess.run(["node", "-e", SCRIPT], input=json.dumps(texts), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, universal_newlines=True, timeout=120,
                           env=dict(os.environ, NODE_PATH=MODULES))
    except OSError as e:
        raise AnalysisError("no parser for JavaScript: %s" % e)
    if p.returncode:
        raise AnalysisError("no parser for JavaScript: %s" % p.stderr[-300:])
    return json.loads(p.stdout)


SAME = {"slice", "filter", "reverse", "sort", "concat", "splice"}
EACH = {"forEach", "map", "some", "every", "find", "filter", "reduce", "flatMap", "findIndex", "sort"}
FUNCS = ("FunctionExpression", "FunctionDeclaration", "ArrowFunctionExpression")
ARITH = {"<", ">", "<=", ">=", "-", "*", "/", "%", "**"}
MARKUP = {"html", "append", "prepend", "before", "after", "insertAdjacentHTML", "write", "writeln", "replaceWith"}
EMPTY = frozenset()
UNKNOWN = frozenset([("u",)])


def children(n):
    for k, v in n.items():
        if k == "loc":
            continue
        if isinstance(v, dict) and "type" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "type" in x:
                    yield x


class Program(object):
    """sources, analysed together"""

    def __init__(self, trees):
        self.vals = {}          # (function, name) -> atoms
        self.fields = {}        # (object, field) -> atoms
        self.rets = {}          # function -> atoms
        self.nodes = {}
        self.scope = {}
        self.parent = {}
        self.reads = {}         # (root, path) -> {(file, line, tolerant)}
        self.scalars = {}       # (root, path) -> {(file, line)}
        self.tests = {}         # (root, path) -> ...
        self.news = {}          # node -> (name, [atoms])
        self.marks = {}         # (root, path) -> ...: put into the page as HTML
        self.args = {}          # (method, root, path): passed to it
        self.sites = {}         # node -> {(root, path)} it may read, "other" (values that aren't data)
        self.file = None
        self.changed = False
        self.trees = trees
        self.ids = 0
        for name, t in trees:
            self.prepare(t, None, name)

    # -- scopes
    def prepare(self, n, fn, file):
        self.ids += 1
        n["_id"], n["_fn"], n["_file"] = self.ids, fn, file
        self.nodes[self.ids] = n
        t = n["type"]
        if t in FUNCS:
            me = self.ids
            self.scope[me] = set()
            for p in n["params"]:
                if p["type"] == "Identifier":
                    self.scope[me].add(p["name"])
            if t == "FunctionDeclaration" and fn is not None:
                self.scope[fn].add(n["id"]["name"])
            elif t == "FunctionExpression" and n.get("id"):
                self.scope[me].add(n["id"]["name"])
            for c in children(n):
                self.parent[id(c)] = n
                self.prepare(c, me, file)
            return
        if t == "VariableDeclarator" and fn is not None and n["id"]["type"] == "Identifier":
            self.scope[fn].add(n["id"]["name"])
        for c in children(n):
            self.parent[id(c)] = n
            self.prepare(c, fn, file)

    def var(self, fn, name):
        while fn is not None:
            if name in self.scope[fn]:
                return (fn, name)
            fn = self.nodes[fn]["_fn"]
        return (None, name)

    def put(self, d, k, v):
        old = d.get(k, EMPTY)
        new = old | v
        if new != old:
            if len(new) > 60:
                return
            d[k] = new
            self.changed = True

    def where(self, n):
        return (n["_file"], n["loc"]["start"]["line"])

    def use(self, d, atoms, n):
        for a in atoms:
            if a[0] == "p":
                d.setdefault(a[1:], set()).add(self.where(n))

    # -- evaluation
    def solve(self):
        for _ in range(60):
            self.changed = False
            for _, t in self.trees:
                self.visit(t)
            if not self.changed:
                return
        raise AnalysisError("the analysis of the scripts doesn't converge")

    def visit(self, n):
        """statements"""
        t = n["type"]
        if t in FUNCS:
            self.function(n)
            return
        if t == "VariableDeclarator":
            if n.get("init") and n["id"]["type"] == "Identifier":
                self.put(self.vals, self.var(n["_fn"], n["id"]["name"]), self.ev(n["init"]))
            return
        if t == "ReturnStatement":
            if n.get("argument"):
                self.put(self.rets, n["_fn"], self.ev(n["argument"]))
            return
        if t in ("ForInStatement", "ForOfStatement"):
            v = self.ev(n["right"])
            left = n["left"]
            if left["type"] == "VariableDeclaration":
                left = left["declarations"][0]["id"]
            if t == "ForInStatement":
                v = frozenset(("p", a[1], a[2] + ("@key",)) for a in v if a[0] == "p")
            else:
                v = self.item(v, None, n)
            self.assign(left, v, n)
            self.visit(n["body"])
            return
        if t in ("IfStatement", "WhileStatement", "DoWhileStatement", "ForStatement"):
            if n.get("test"):
                self.use(self.tests, self.ev(n["test"]), n)
            for k in ("init", "update", "consequent", "alternate", "body"):
                if n.get(k):
                    self.visit(n[k])
            return
        if t.endswith("Expression") or t in ("Identifier", "Literal", "TemplateLiteral"):
            self.ev(n)
            return
        for c in children(n):
            self.visit(c)

    def function(self, n):
        if n["type"] == "FunctionDeclaration":
            self.put(self.vals, self.var(n["_fn"], n["id"]["name"]), frozenset([("f", n["_id"])]))
        elif n["type"] == "FunctionExpression" and n.get("id"):
            self.put(self.vals, (n["_id"], n["id"]["name"]), frozenset([("f", n["_id"])]))
        b = n["body"]
        if b["type"] == "BlockStatement":
            for c in b["body"]:
                self.visit(c)
        else:
            self.put(self.rets, n["_id"], self.ev(b))

    def assign(self, left, v, n):
        if left["type"] == "Identifier":
            self.put(self.vals, self.var(left["_fn"], left["name"]), v)
        elif left["type"] == "MemberExpression":
            o = self.ev(left["object"])
            names = self.names(left)
            for a in o:
                if a[0] == "o":
                    for k in names:
                        self.field(a[1], k, v)
            if names & {"innerHTML", "outerHTML"}:
                self.use(self.marks, v, n)

    def names(self, n):
        """the names of the member"""
        if not n.get("computed"):
            return {n["property"]["name"]}
        out = set()
        for a in self.ev(n["property"]):
            out.add(a[1] if a[0] == "c" and isinstance(a[1], (str, int, float)) else "*")
        return out or {"*"}

    def item(self, v, names, n):
        """members of a value; its elements if there are no names"""
        out = set()
        site = self.sites.setdefault(n["_id"], set())
        for a in v:
            if a[0] == "u" or (a[0] == "o" and any((a[1], k) in self.fields for k in list(names or ()) + ["*"])):
                site.add("other")
            if a[0] == "p":
                for k in names or {"*"}:
                    if isinstance(k, float) and k == int(k):
                        k = int(k)
                    if len(a[2]) < 8:
                        p = a[2] + (k,)
                        self.reads.setdefault((a[1], p), set()).add(self.where(n) + (self.tolerant(n),))
                        site.add((a[1], p))
                        out.add(("p", a[1], p))
            elif a[0] == "o":
                for k in names or {"*"}:
                    if k == "*":
                        for (o, f), w in list(self.fields.items()):
                            if o == a[1]:
                                out |= w
                    else:
                        out |= self.fields.get((a[1], k), EMPTY)
                        out |= self.fields.get((a[1], "*"), EMPTY)
        return frozenset(out)

    def tolerant(self, n):
        """may the value be undefined here"""
        p = self.parent.get(id(n))
        while p is not None and p["type"] in ("LogicalExpression", "ParenthesizedExpression"):
            n, p = p, self.parent.get(id(p))
        if p is None:
            return False
        t = p["type"]
        if t == "UnaryExpression":
            return p["operator"] in ("typeof", "!")
        if t == "BinaryExpression":
            return p["operator"] in ("==", "!=", "===", "!==")
        if t in ("IfStatement", "ConditionalExpression"):
            return p["test"] is n
        return t == "Property" or (t == "AssignmentExpression" and p["right"] is n)

    def ev(self, n):
        t = n["type"]
        f = getattr(self, "e_" + t, None)
        if f is not None:
            return f(n)
        out = EMPTY
        for c in children(n):
            if c["type"] in FUNCS or c["type"].endswith(("Statement", "Declaration")):
                self.visit(c)
            else:
                out |= self.ev(c)
        return EMPTY if t not in ("ParenthesizedExpression",) else out

    def e_Identifier(self, n):
        return self.vals.get(self.var(n["_fn"], n["name"]), EMPTY)

    def e_Literal(self, n):
        v = n.get("value")
        return frozenset([("c", v)]) if isinstance(v, (str, int, float, bool)) else EMPTY

    def e_MemberExpression(self, n):
        o = self.ev(n["object"])
        names = self.names(n)
        if names <= {"length"}:
            return EMPTY
        return self.item(o, names, n)

    def e_FunctionExpression(self, n):
        self.function(n)
        return frozenset([("f", n["_id"])])

    e_ArrowFunctionExpression = e_FunctionExpression

    def e_ObjectExpression(self, n):
        for p in n["properties"]:
            if p["type"] != "Property":
                self.include(n["_id"], self.ev(p["argument"]))
                continue
            v = self.ev(p["value"])
            k = p["key"].get("name", p["key"].get("value"))
            if p.get("computed"):
                self.ev(p["key"])
                k = "*"
            self.field(n["_id"], k, v)
        return frozenset([("o", n["_id"])])

    def field(self, o, k, v):
        self.fields.setdefault((o, k), EMPTY)
        self.put(self.fields, (o, k), v)

    def include(self, o, v):
        """the fields of an object, of others too"""
        if not v:
            self.field(o, "*", EMPTY)
        for a in v:
            if a[0] == "o":
                for (x, k), w in list(self.fields.items()):
                    if x == a[1]:
                        self.field(o, k, w)
            else:
                self.field(o, "*", EMPTY)

    def e_ArrayExpression(self, n):
        for i, e in enumerate(n["elements"]):
            if e:
                v = self.ev(e)
                self.put(self.fields, (n["_id"], i), v)
        return frozenset([("o", n["_id"])])

    def e_AssignmentExpression(self, n):
        v = self.ev(n["right"])
        if n["operator"] != "=":
            v = v | (self.ev(n["left"]) if n["left"]["type"] == "Identifier" else EMPTY)
            if n["operator"] in ("-=", "*=", "/="):
                self.use(self.scalars, self.ev(n["right"]), n)
        if n["left"]["type"] == "MemberExpression":
            self.ev(n["left"]["object"])
        self.assign(n["left"], v, n)
        return v

    def e_BinaryExpression(self, n):
        a, b = self.ev(n["left"]), self.ev(n["right"])
        if n["operator"] in ARITH:
            self.use(self.scalars, a | b, n)
            if n["operator"] in ("<", ">", "<=", ">="):
                return EMPTY
            return EMPTY
        if n["operator"] == "+":
            # strings that are made of it
            out = {x for x in a | b if x[0] in ("p", "c", "+")}
            if len(a) * len(b) <= 16:
                out |= {("+", x, y) for x in a for y in b if {x[0], y[0]} <= {"p", "c"}}
            return frozenset(out)
        if n["operator"] == "in":
            return EMPTY
        return EMPTY

    def e_LogicalExpression(self, n):
        return self.ev(n["left"]) | self.ev(n["right"])

    def e_ConditionalExpression(self, n):
        self.use(self.tests, self.ev(n["test"]), n)
        return self.ev(n["consequent"]) | self.ev(n["alternate"])

    def e_UnaryExpression(self, n):
        v = self.ev(n["argument"])
        if n["operator"] == "!":
            return v
        if n["operator"] in ("-", "+"):
            return frozenset(("c", -a[1]) for a in v if a[0] == "c" and isinstance(a[1], (int, float)) and
                             n["operator"] == "-")
        return EMPTY

    def e_SequenceExpression(self, n):
        v = EMPTY
        for e in n["expressions"]:
            v = self.ev(e)
        return v

    def e_TemplateLiteral(self, n):
        v = EMPTY
        for e in n["expressions"]:
            v |= self.ev(e)
        return v

    def e_NewExpression(self, n):
        args = [self.ev(a) for a in n["arguments"]]
        self.ev(n["callee"])
        name = n["callee"].get("name") or n["callee"].get("property", {}).get("name")
        self.news[n["_id"]] = (name, args, self.where(n))
        for a in args:
            self.enter(a, [])
        return UNKNOWN

    def enter(self, fs, args):
        out = EMPTY
        for a in fs:
            if a[0] == "f":
                fn = self.nodes[a[1]]
                for p, v in zip(fn["params"], args):
                    if p["type"] == "Identifier" and v:
                        self.put(self.vals, (a[1], p["name"]), v)
                out |= self.rets.get(a[1], EMPTY)
        return out

    def e_CallExpression(self, n):
        return self.called(n) or UNKNOWN

    def called(self, n):
        callee = n["callee"]
        args = [self.ev(a) for a in n["arguments"]]
        if callee["type"] in FUNCS:
            self.function(callee)
            return self.enter(frozenset([("f", callee["_id"])]), args)
        if callee["type"] == "MemberExpression" and not callee.get("computed"):
            name = callee["property"]["name"]
            obj = self.ev(callee["object"])
            for v in args:
                for a in v:
                    if a[0] == "p":
                        self.args.setdefault((name,) + a[1:], set()).add(self.where(n))
            chain = frozenset(a for a in obj if a[0] == "chain")
            elems = frozenset(a[1] for a in chain)
            if name == "data" and args and not any(a[0] == "f" for a in args[0]):
                e = self.item(args[0], None, n["arguments"][0])
                return frozenset(("chain", x) for x in e)
            if name in MARKUP and args:
                for v in args[:1] + args[1:] * (name == "insertAdjacentHTML"):
                    fs = frozenset(a for a in v if a[0] == "f")
                    if fs:
                        r = self.enter(fs, [elems or frozenset([("p", "datum", ())])])
                        self.use(self.marks, r, n)
                    self.use(self.marks, v, n)
                return chain
            if name in ("extend", "assign", "merge", "defaults") and len(args) > 1:
                for o in args[0]:
                    if o[0] == "o":
                        for v in args[1:]:
                            self.include(o[1], v)
                return args[0]
            if name == "call" and args and any(a[0] == "f" for a in obj):
                return self.enter(obj, args[1:])
            if name == "apply":
                return self.enter(obj, [])
            if name == "push":
                for a in obj:
                    if a[0] == "o":
                        for v in args:
                            self.put(self.fields, (a[1], "*"), v)
                return EMPTY
            if name == "toFixed":
                self.use(self.scalars, obj, n)
                return EMPTY
            data = frozenset(a for a in obj if a[0] in ("p", "o"))
            if data and name in EACH and args:
                k = 1 if name == "reduce" else 0
                r = self.enter(args[0], [EMPTY] * k + [self.item(data, None, callee["object"])])
                if name == "map":
                    o = ("o", n["_id"])
                    self.put(self.fields, (n["_id"], "*"), r)
                    return frozenset([o])
                return data if name in ("filter", "sort") else EMPTY
            if data and name in SAME:
                return data
            if data and name in ("replace", "replaceAll"):
                what = n["arguments"][0].get("regex") or n["arguments"][0] if n["arguments"] else {}
                what = what.get("pattern", what.get("value"))
                # what may still hold markup
                return data if isinstance(what, str) and "<" not in what else EMPTY
            if data and name in ("toString", "trim", "toUpperCase", "toLowerCase", "substring", "substr"):
                return data
            if data and name in ("pop", "shift", "join", "at"):
                return self.item(data, None, callee["object"])
            base = callee["object"].get("name")
            if base in ("Math",):
                for v in args:
                    self.use(self.scalars, v, n)
                return EMPTY
            if base == "d3" and len(args) > 1:
                self.enter(args[1], [self.item(args[0], None, n["arguments"][0])])
            elif base in ("$", "jQuery") and name in ("each", "map") and len(args) > 1:
                self.enter(args[1], [EMPTY, self.item(args[0], None, n["arguments"][0])])
            elif base == "_" and len(args) > 1:
                self.enter(args[1], [self.item(args[0], None, n["arguments"][0])])
            else:
                fs = frozenset(a for v in args for a in v if a[0] == "f")
                self.enter(fs, [elems] if elems else [])
            out = EMPTY
            m = self.member(obj, name)
            if m:
                return self.enter(m, args)
            return out | chain
        f = self.ev(callee)
        if callee.get("name") in ("$", "jQuery") and args and callee["name"] not in self.scope.get(n["_fn"], ()):
            if any(a[0] == "c" and isinstance(a[1], str) and a[1].lstrip().startswith("<") for a in args[0]):
                self.use(self.marks, args[0], n)
            return EMPTY
        if callee.get("name") in ("parseFloat", "parseInt", "Number"):
            return EMPTY
        r = self.enter(f, args)
        if not f:
            for v in args:
                self.enter(frozenset(a for a in v if a[0] == "f"), [])
        return r

    def member(self, obj, name):
        out = EMPTY
        for a in obj:
            if a[0] == "o":
                out |= self.fields.get((a[1], name), EMPTY)
        return frozenset(a for a in out if a[0] == "f")

    # -- what an option leaves out
    def without(self, option):
        bad, n, only = self.without1(option, frozenset())
        if bad:
            # what only exists with the option tells whether it's there
            bad, n, only = self.without1(option, only)
        return bad, n

    def without1(self, option, only):
        """what is used without an option (paths) though only it makes it: ([(name, location)], uses seen)"""
        given, all_, used = set(), set(), []
        todo, seen = [t for _, t in self.trees], set()

        def is_option(n):
            if n["type"] == "MemberExpression" and any(
                    (a[1], k) in only for a in self.ev(n["object"]) if a[0] == "o" for k in self.names(n)):
                return True
            if n["type"] == "Identifier" and self.var(n["_fn"], n["name"]) in only:
                return True
            return any(a[0] == "p" and a[1:] in option for a in self.ev(n))

        def sense(n):
            """True: a condition that needs the option; False: that needs its absence; None: another"""
            if n["type"] == "UnaryExpression" and n["operator"] == "!":
                s = sense(n["argument"])
                return None if s is None else not s
            if n["type"] == "LogicalExpression" and n["operator"] == "&&":
                return True if True in (sense(n["left"]), sense(n["right"])) else None
            if n["type"] == "BinaryExpression" and n["operator"] in ("==", "===", "!=", "!=="):
                for a, b in ((n["left"], n["right"]), (n["right"], n["left"])):
                    if b["type"] == "Literal" and isinstance(b.get("value"), bool) and is_option(a):
                        return (n["operator"][0] == "=") == b["value"]
            return True if is_option(n) else None

        def enter(v):
            for a in v:
                if a[0] == "f" and a[1] not in seen:
                    seen.add(a[1])
                    todo.append(self.nodes[a[1]]["body"])

        def leaves(n):
            b = n["body"][-1:] if n["type"] == "BlockStatement" else [n]
            return bool(b) and b[0]["type"] in ("ReturnStatement", "ThrowStatement", "ContinueStatement",
                                                "BreakStatement")

        def walk(n):
            t = n["type"]
            if t in ("BlockStatement", "Program"):
                for s in n["body"]:
                    walk(s)
                    if s["type"] == "IfStatement" and sense(s["test"]) is False and leaves(s["consequent"]):
                        return
                return
            if t in ("IfStatement", "ConditionalExpression"):
                s = sense(n["test"])
                walk(n["test"])
                if s is not True:
                    walk(n["consequent"])
                if n.get("alternate") and s is not False:
                    walk(n["alternate"])
                return
            if t == "LogicalExpression":
                walk(n["left"])
                s = sense(n["left"])
                if not (s is True and n["operator"] == "&&") and not (s is False and n["operator"] == "||"):
                    walk(n["right"])
                return
            if t == "FunctionDeclaration":
                return
            if t in FUNCS:
                enter(frozenset([("f", n["_id"])]))
                return
            if t == "VariableDeclarator":
                if n.get("init"):
                    given.add(self.var(n["_fn"], n["id"].get("name")))
                    if n["init"]["type"] not in FUNCS:
                        walk(n["init"])
                return
            if t == "AssignmentExpression":
                left = n["left"]
                if left["type"] == "MemberExpression":
                    walk(left["object"])
                    for k in self.names(left):
                        for a in self.ev(left["object"]):
                            if a[0] == "o":
                                given.add((a[1], k))
                    walk(n["right"])
                else:
                    if left["type"] == "Identifier":
                        given.add(self.var(left["_fn"], left["name"]))
                    if n["right"]["type"] not in FUNCS:
                        walk(n["right"])
                return
            if t == "ObjectExpression":
                for p in n["properties"]:
                    if p["type"] == "Property":
                        given.add((n["_id"], p["key"].get("name", p["key"].get("value"))))
                        walk(p["value"])
                    else:
                        given.add((n["_id"], "*"))
                return
            if t == "MemberExpression":
                o = n["object"]
                if o["type"] in ("MemberExpression", "Identifier") and not self.asked(o):
                    used.append((o, n))
                walk(o)
                if n.get("computed"):
                    walk(n["property"])
                enter(self.ev(n))
                return
            if t == "Identifier":
                enter(self.ev(n))
                return
            for c in children(n):
                walk(c)

        while todo:
            walk(todo.pop())
        inits = set()
        for n in self.nodes.values():
            if n["type"] == "VariableDeclarator" and n.get("init") or n["type"] == "AssignmentExpression" and \
                    n["left"]["type"] == "Identifier":
                x = n.get("id") or n["left"]
                all_.add(self.var(n["_fn"], x.get("name")))
            if n["type"] in ("ForInStatement", "ForOfStatement"):
                x = n["left"]["declarations"][0]["id"] if n["left"]["type"] == "VariableDeclaration" else n["left"]
                inits.add(self.var(n["_fn"], x.get("name")))
            if n["type"] in FUNCS:
                inits |= {(n["_id"], p.get("name")) for p in n["params"]}
                if n.get("id"):
                    inits |= {(n["_id"], n["id"]["name"]), self.var(n["_fn"], n["id"]["name"])}
            if n["type"] == "AssignmentExpression" and n["left"]["type"] == "MemberExpression":
                for k in self.names(n["left"]):
                    for a in self.ev(n["left"]["object"]):
                        if a[0] == "o":
                            all_.add((a[1], k))
        out = []
        for o, n in used:
            if o["type"] == "Identifier":
                k = self.var(o["_fn"], o["name"])
                if k[0] is not None and k in all_ and k not in given and k not in inits:
                    out.append((o["name"], self.where(n)))
                continue
            keys = {(a[1], k) for a in self.ev(o["object"]) if a[0] == "o" for k in self.names(o)}
            if keys and all(k in all_ and k not in given and (k[0], "*") not in given and k[1] != "*" for k in keys):
                out.append((sorted(k[1] for k in keys)[0], self.where(n)))
        return out, len(used), frozenset(k for k in all_ - given - inits if k[0] is not None)

    def asked(self, member):
        """does the function ask whether the member is there"""
        plain = member["type"] == "Identifier"
        names = {member["name"]} if plain else self.names(member)
        fn = member["_fn"]
        for n in self.nodes.values():
            if n["_fn"] != fn:
                continue
            tests = [n["test"]] if n["type"] in ("IfStatement", "ConditionalExpression") else \
                [n["left"]] if n["type"] == "LogicalExpression" else []
            for t in tests:
                if any((m["type"] == "MemberExpression" and not plain and self.names(m) & names) or
                       (m["type"] == "Identifier" and plain and m["name"] in names) for m in within(t)):
                    return True
        return False


def within(n):
    yield n
    for c in children(n):
        for x in within(c):
            yield x


def chain_of(n):
    """{method: arguments} of a chain of calls"""
    out = {}
    while n["type"] == "CallExpression" and n["callee"]["type"] == "MemberExpression":
        out.setdefault(n["callee"]["property"].get("name"), n["arguments"])
        n = n["callee"]["object"]
    return out


LOOPS = ("ForStatement", "ForInStatement", "ForOfStatement", "WhileStatement", "DoWhileStatement")


def pushes(n, name):
    """(fewest, most) elements that running something once appends to an array"""
    t = n["type"]
    if t in FUNCS:
        return 0, 0
    if t in LOOPS:
        return (0, 99) if any(pushes(c, name) != (0, 0) for c in children(n)) else (0, 0)
    if t in ("IfStatement", "ConditionalExpression"):
        a = pushes(n["test"], name)
        b = pushes(n["consequent"], name)
        c = pushes(n["alternate"], name) if n.get("alternate") else (0, 0)
        return a[0] + min(b[0], c[0]), a[1] + max(b[1], c[1])
    if t == "LogicalExpression":
        a, b = pushes(n["left"], name), pushes(n["right"], name)
        return a[0], a[1] + b[1]
    if t == "BlockStatement" and any(x["type"] in ("ContinueStatement", "BreakStatement", "ReturnStatement")
                                     for x in within(n)):
        # an early end of the iteration: each way on its own
        lo, hi, ends = 0, 0, []
        for s in n["body"]:
            if s["type"] == "IfStatement" and leaves(s["consequent"]):
                a = pushes(s["consequent"], name)
                ends.append((lo + a[0], hi + a[1]))
                s = s.get("alternate")
                if not s:
                    continue
            a = pushes(s, name)
            lo, hi = lo + a[0], hi + a[1]
            if leaves(s):
                break
        ends.append((lo, hi))
        return min(x for x, _ in ends), max(x for _, x in ends)
    lo = hi = 0
    if t == "CallExpression" and n["callee"]["type"] == "MemberExpression" and \
            n["callee"]["object"].get("name") == name and n["callee"]["property"].get("name") in ("push", "unshift"):
        lo = hi = len(n["arguments"])
    for c in children(n):
        a = pushes(c, name)
        lo, hi = lo + a[0], hi + a[1]
    return lo, hi


def leaves(n):
    if n["type"] == "BlockStatement":
        return bool(n["body"]) and leaves(n["body"][-1])
    return n["type"] in ("ContinueStatement", "BreakStatement", "ReturnStatement")


def unpaired(tree):
    """[(name, line, why)] arrays that are paired with another, of which they needn't have an element for each"""
    out, n_pairs = [], 0
    for n in within(tree):
        if n["type"] != "CallExpression":
            continue
        c = chain_of(n)
        if not ("range" in c and "domain" in c and len(c["range"]) == 1 and c["range"][0]["type"] == "Identifier"):
            continue
        names = {c["range"][0]["name"]}
        n_pairs += 1
        for _ in range(3):
            for x in within(tree):
                if x["type"] == "VariableDeclarator" and x["id"].get("name") in names and x.get("init"):
                    names |= {x["init"].get("name")} - {None}
                elif x["type"] == "AssignmentExpression" and x["left"].get("name") in names:
                    names |= {x["right"].get("name")} - {None}
        for name, x in [(a, b) for a in sorted(names) for b in within(tree)]:
            v = None
            if x["type"] == "VariableDeclarator" and x["id"].get("name") == name:
                v = x.get("init")
            elif x["type"] == "AssignmentExpression" and x["left"].get("name") == name:
                v = x["right"]
            while v is not None and v["type"] == "CallExpression" and v["callee"]["type"] == "MemberExpression":
                if v["callee"]["property"].get("name") in ("filter", "slice", "splice", "flatMap"):
                    out.append((name, x["loc"]["start"]["line"], "some are left out"))
                v = v["callee"]["object"]
            body = None
            if x["type"] in LOOPS:
                body = x["body"]
            elif x["type"] == "CallExpression" and x["callee"]["type"] == "MemberExpression" and \
                    x["callee"]["property"].get("name") in ("forEach", "each") and x["arguments"] and \
                    x["arguments"][-1]["type"] in FUNCS:
                body = x["arguments"][-1]["body"]
            if body is not None:
                lo, hi = pushes(body, name)
                if lo != hi:
                    out.append((name, x["loc"]["start"]["line"], "not every element of the other has one"))
    return n_pairs, sorted(set(out))
