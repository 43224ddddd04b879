"""What expressions of the statistics grammar mean: G01."""
from sa import scenario as S
from sa.core import AnalysisError
from sa.report import Res, pmap, REPO
from sa.values import V, T, const, catom, unk, tup, NONE
from .query import Cfg, p, pt, tshow, MODS

# from the documentation of trappy.stats.grammar.Parser: tightest first
TABLE = [
    ("Exponentiation", ["**"], 2, "LEFT"),
    ("Unary", ["-"], 1, "RIGHT"),
    ("Multiply/Divide", ["*", "/", "//", "%"], 2, "LEFT"),
    ("Add/Subtract", ["+", "-"], 2, "LEFT"),
    ("Comparison", [">", "<", ">=", "<=", "==", "!="], 2, "LEFT"),
    ("Logical", ["&&", "||", "|", "&"], 2, "LEFT"),
]
PYOP = {"**": "Pow", "*": "Mult", "/": "Div", "//": "FloorDiv", "%": "Mod", "+": "Add", "-": "Sub",
        "|": "BitOr", "&": "BitAnd"}
MAKERS = ("operatorPrecedence", "infixNotation", "infix_notation")
GRAMMAR = "trappy.stats.grammar.Parser"


class GrammarCfg(Cfg):
    """keeps the tables of operators and the parse actions"""

    def __init__(self):
        self.made = []

    def call_hook(self, I, st, node, f, args, kw):
        if f[0] == "x" and f[1].rpartition(".")[2] in MAKERS and "pyparsing" in f[1]:
            self.made.append((st.copy(), [getattr(a, "v", a) for a in args], I.where(node)))
        return None


def elems(I, st, v):
    """the elements of a list or tuple, or None"""
    a = v.one()
    if a and a[0] == "t":
        return list(a[1])
    if a and a[0] == "r" and st.has(a[1]):
        o = st.get(a[1])
        if o.kind == "list" and o.summ is None:
            return list(o.items or ())
    return None


def operators(I, st, v):
    """the strings of an operator of the table"""
    return opterm(I.lib.snap(I, st, v))


def opterm(t):
    if t.op == "c" and isinstance(t.args[1], str):
        return [t.args[1]]
    if t.op == "call" and t.args[0] in ("pyparsing.oneOf", "pyparsing.one_of") and len(t.args) > 1:
        x = t.args[1]
        if x.op == "c" and isinstance(x.args[1], str):
            return x.args[1].split()
        if x.op in ("list", "tuple"):
            out = [opterm(y) for y in x.args]
            return None if None in out else [z for y in out for z in y]
    if t.op == "call" and t.args[0] in ("pyparsing.Literal", "pyparsing.Keyword") and len(t.args) > 1:
        return opterm(t.args[1])
    if t.op in ("BitOr", "BitXor") and len(t.args) == 2:
        a, b = opterm(t.args[0]), opterm(t.args[1])
        return None if a is None or b is None else a + b
    return None


def levels(I, st, v):
    """[(operators, operands, associativity, action)]"""
    out = []
    es = elems(I, st, v)
    if es is None:
        raise AnalysisError("the table of operators isn't understood")
    for e in es:
        xs = elems(I, st, e)
        if xs is None or len(xs) < 3:
            raise AnalysisError("an entry of the table of operators isn't understood")
        n = xs[1].one()
        assoc = I.lib.snap(I, st, xs[2])
        name = str(assoc.args[-1] if assoc.args else assoc).rpartition(".")[2].strip("'\" )")
        out.append((operators(I, st, xs[0]), n[2] if n and n[0] == "c" else None, name, xs[3] if len(xs) > 3 else None))
    return out


def apply(I, st, node, f, items):
    """what a parse action returns for the tokens [items]: [(state, value)]"""
    toks = I.newlist(st, node, [I.newlist(st, node, items, extra="group%d" % len(items))], extra="tokens")
    return I.call_callback(st, node, f, toks)


OPERATOR = {"operator." + k: v for k, v in {
    "add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "or_": "|",
    "and_": "&", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "==", "ne": "!="}.items()}
OPERATOR.update({"numpy." + k: v for k, v in {
    "add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "floor_divide": "//",
    "mod": "%", "remainder": "%", "power": "**", "bitwise_or": "|", "bitwise_and": "&", "less": "<", "greater": ">",
    "less_equal": "<=", "greater_equal": ">=", "equal": "==", "not_equal": "!="}.items()})
METHOD = {"add": "+", "sub": "-", "mul": "*", "div": "/", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**",
          "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "==", "ne": "!=",
          "__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/", "__floordiv__": "//", "__mod__": "%",
          "__pow__": "**", "__or__": "|", "__and__": "&", "__lt__": "<", "__gt__": ">", "__le__": "<=",
          "__ge__": ">=", "__eq__": "==", "__ne__": "!="}
# operators and functions that no operator of the grammar stands for
OTHER = {"BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@", "Is": "is"}
OTHERS = {"xor", "fmod", "abs", "absolute", "fabs", "divmod", "floor", "ceil", "rint", "minimum", "maximum", "min",
          "max", "bitwise_xor", "invert", "inv", "xor_", "reciprocal", "log", "exp", "sqrt", "round", "concat"}
SYMBOL = {v: k for k, v in PYOP.items()}
COMMUTES = {"+", "*", "|", "&", "==", "!="}


def meaning(t):
    """a term as an expression of Python's operators: (operator, operand, operand), ("neg", x), or an operand"""
    if t.op in SYMBOL and len(t.args) == 2:
        if t.op == "Mult" and t.args[0].op == "c" and t.args[0].args[1] == -1:
            return ("neg", meaning(t.args[1]))
        if t.op == "Mult" and t.args[1].op == "c" and t.args[1].args[1] == -1:
            return ("neg", meaning(t.args[0]))
        if t.op == "Sub" and t.args[0].op == "c" and t.args[0].args[1] == 0:
            return ("neg", meaning(t.args[1]))
        return norm(SYMBOL[t.op], meaning(t.args[0]), meaning(t.args[1]))
    if t.op in OTHER and len(t.args) == 2:
        return norm(OTHER[t.op], meaning(t.args[0]), meaning(t.args[1]))
    if t.op in ("call", "mcall") and str(t.args[0]).rpartition(".")[2] in OTHERS and len(t.args) in (2, 3) and (
            t.op == "mcall" or "." not in str(t.args[0]) or str(t.args[0]).partition(".")[0] in (
                "numpy", "math", "operator", "builtins")):
        return (str(t.args[0]),) + tuple(meaning(x) for x in t.args[1:])
    if t.op == "USub" and len(t.args) == 1:
        return ("neg", meaning(t.args[0]))
    if t.op == "UAdd" and len(t.args) == 1:
        return meaning(t.args[0])
    if t.op in ("Lt", "Eq"):
        return norm("<" if t.op == "Lt" else "==", meaning(t.args[0]), meaning(t.args[1]))
    if t.op == "not" and t.args[0].op in ("Lt", "Eq"):
        a, b = meaning(t.args[0].args[0]), meaning(t.args[0].args[1])
        return norm("!=", a, b) if t.args[0].op == "Eq" else norm(">=", a, b)
    if t.op == "call" and t.args[0] in OPERATOR and len(t.args) == 3:
        return norm(OPERATOR[t.args[0]], meaning(t.args[1]), meaning(t.args[2]))
    if t.op == "call" and t.args[0] in ("operator.neg", "numpy.negative"):
        return ("neg", meaning(t.args[1]))
    if t.op == "mcall" and t.args[0] in METHOD and len(t.args) == 3:
        return norm(METHOD[t.args[0]], meaning(t.args[1]), meaning(t.args[2]))
    if t.op in ("param", "c"):
        return t.args[-1]
    return ("?", t)


def norm(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    if op == "<=":
        op, a, b = ">=", b, a
    if op in COMMUTES and repr(b) < repr(a):
        a, b = b, a
    return (op, a, b)


def known(m):
    return not isinstance(m, tuple) or m[0] != "?" and all(known(x) for x in m[1:])


def hidden(ops):
    """an operator that's never matched, as one before it is its beginning"""
    return [(a, b) for i, b in enumerate(ops) for a in ops[:i] if b.startswith(a) and a != b]


def flat(t):
    """the alternatives of a pattern, in order"""
    if t.op == "BitOr":
        return flat(t.args[0]) + flat(t.args[1])
    if t.op == "call" and t.args[0] == "pyparsing.MatchFirst" and len(t.args) > 1 and t.args[1].op == "list":
        return [y for x in t.args[1].args for y in flat(x)]
    return [t]


def literal(t, s):
    return any(x.op == "c" and x.args[1] == s for y in t.subs() if y.op in ("call", "Add", "cat") for x in y.args
               if isinstance(x, T))


def number(t):
    return any("nums" in str(x.args[-1]) for x in t.subs() if x.op in ("x", "attr") and x.args)


def sort_of(t):
    """what kind of operand a pattern is for"""
    if literal(t, "("):
        return "call"
    if literal(t, ":"):
        return "accessor"
    if number(t) and not any("alphas" in str(x) for x in t.subs() if x.op in ("x", "attr")):
        return "real" if literal(t, ".") else "integer"
    if any("alphas" in str(x) for x in t.subs() if x.op in ("x", "attr")):
        return "identifier"
    return None


ORDER = [("call", "identifier"), ("accessor", "identifier"), ("real", "integer")]


def g01():
    res = Res()
    cfg = GrammarCfg()

    def build(I, st, node):
        pv = {catom("zero"): const(0), catom("v"): p("v"), catom("f"): p("f", "func")}
        out = []
        for s, x in I.call(st, node, I.glob(GRAMMAR), [p("trace")], {"pvars": I.newdict(st, node, pv)}):
            check(I, s, node, cfg, res)
            out.append((s, x))
        return out
    T.MAXDEPTH = 60
    r = S.run(REPO, cfg, build, MODS)
    res.seen(r.I)
    return res, dict(
        explanation="the table of operators that the parser is built from is compared with the documented one: which "
        "operators bind tighter, how many operands they have and how they associate; each action of the table is "
        "evaluated abstractly on the tokens of each of its operators, and of each two of them, and has to give what "
        "Python's operators do, applied from the left; so are the actions for variables, numbers and "
        "calls; alternatives of a pattern that begin like later ones have to come after them",
        assumptions=["pyparsing's documented behaviour: the tokens of a level of n operators are [x, op, y, op, z]"],
        floors={"level": 3, "meaning": 1, "operands": 1})


def check(I, st, node, cfg, res):
    tables = [x for x in cfg.made if len(x[1]) >= 2]
    if not tables:
        raise AnalysisError("the parser isn't made from a table of operators")
    s0, args, where = tables[-1]
    lv = levels(I, st, args[1])
    ops = {}
    for k, (names, n, assoc, act) in enumerate(lv):
        if names is None:
            raise AnalysisError("the operators of a level aren't understood")
        for o in names:
            ops.setdefault((o, n), (k, assoc))
        for a, b in hidden(opnames(I, st, elems(I, st, elems(I, st, args[1])[k])[0])):
            res.ob("level", "%s is matched" % b, False, where, "%s is taken for %s" % (b, a))
    before = -1
    for title, names, n, assoc in TABLE:
        ks = set()
        for o in names:
            have = ops.get((o, n))
            res.ob("level", "%s %s" % (title, o), have is not None, where, "there's no operator %s of %d operands" % (
                o, n))
            if have is None:
                continue
            ks.add(have[0])
            res.ob("level", "%s %s" % (title, o), have[1] == assoc, where, "%s associates to the %s" % (
                o, have[1].lower()))
        res.ob("level", title, len(ks) <= 1, where, "the operators %s aren't of the same level" % ", ".join(names))
        if ks:
            res.ob("level", title + " binds looser than what's before", min(ks) > before, where,
                   "%s binds at least as tightly as what's before it in the documentation" % title)
            before = max(ks)
    for names, n, assoc, act in lv:
        if act is None:
            res.ob("level", "/".join(names), False, where, "nothing is computed for it")
        elif n == 2:
            binary(I, st, node, res, where, names, act)
        elif n == 1:
            unary(I, st, node, res, where, names, act)
    operands(I, st, node, res, where, args[0])


def opnames(I, st, v):
    """the operators of a pattern in which their order matters"""
    t = I.lib.snap(I, st, v)
    return [y for x in flat(t) for y in (opterm(x) or [])] if t.op == "BitOr" else []


def result(I, st, node, act, toks):
    """(the value's terms, where) of an action on tokens"""
    got = []
    for s, v in apply(I, st.copy(), node, act, toks):
        got.append((I.lib.snap(I, s, v), s.facts))
    return got


def binary(I, st, node, res, where, names, act):
    x, y, z = p("x", "series"), p("y", "series"), p("z", "series")
    for o in names:
        if o in ("&&", "||"):
            for a in (0, 3):
                for b in (0, 5):
                    want = bool(a and b if o == "&&" else a or b)
                    for t, _ in result(I, st, node, act, [const(a), const(o), const(b)]):
                        if t.op == "c":
                            res.ob("meaning", "%s" % o, bool(t.args[1]) == want, where,
                                   "%d %s %d is %s" % (a, o, b, t.args[1]))
                        else:
                            res.notes.append("%s isn't understood: %s" % (o, tshow(t)))
            continue
        told = norm(o, "x", "y")
        for t, _ in result(I, st, node, act, [x, const(o), y]):
            judge(res, where, "x %s y" % o, meaning(t), told)
    for o in names:
        for q in names:
            if {o, q} & {"&&", "||"}:
                continue
            told = norm(q, norm(o, "x", "y"), "z")
            for t, _ in result(I, st, node, act, [x, const(o), y, const(q), z]):
                judge(res, where, "x %s y %s z" % (o, q), meaning(t), told)


def unary(I, st, node, res, where, names, act):
    for o in names:
        told = ("neg", "x") if o == "-" else "x"
        for t, _ in result(I, st, node, act, [const(o), p("x", "series")]):
            judge(res, where, "%s x" % o, meaning(t), told)


def judge(res, where, text, have, told):
    if not known(have):
        res.notes.append("what %s is isn't understood: %s" % (text, tshow(have[1]) if have[0] == "?" else have))
        res.count("not understood")
        return
    res.ob("meaning", text, have == told, where, "%s is computed as %s" % (text, written(have)))


def written(m):
    if not isinstance(m, tuple):
        return str(m)
    if m[0] == "neg":
        return "-" + written(m[1])
    if len(m) == 2 or m[0][0].isalpha():
        return "%s(%s)" % (m[0], ", ".join(written(x) for x in m[1:]))
    return "(%s %s %s)" % (written(m[1]), m[0], written(m[2]))


def operands(I, st, node, res, where, base):
    t = I.lib.snap(I, st, base)
    alts = [(sort_of(x), x) for x in flat(t)]
    kinds = [k for k, _ in alts]
    for a, b in ORDER:
        if a in kinds and b in kinds:
            res.ob("operands", "%s before %s" % (a, b), kinds.index(a) < kinds.index(b), where,
                   "the beginning of a%s %s is taken for a%s %s" % (
                       "n" if a[0] in "ai" else "", a, "n" if b[0] in "ai" else "", b))
    for target, act in I.parse_targets:
        k = sort_of(target)
        if any(x[0] == "b" and x[1][0] == "r" and not st.has(x[1][1]) for x in act.atoms):
            continue
        if k == "call":
            call(I, st, node, res, where, act)
        elif len(flat(target)) > 1 and "accessor" in [sort_of(x) for x in flat(target)]:
            variable(I, st, node, res, where, act)
        elif k in ("real", "integer"):
            for text in ("12",) + (("-1.5e3", "0.25") if k == "real" else ()):
                for tt, _ in tokens(I, st, node, act, [const(text)]):
                    if tt.op == "c":
                        res.ob("operands", "the number %s" % text, tt.args[1] == float(text), where,
                               "%s is taken for %s" % (text, tt.args[1]))


def tokens(I, st, node, act, items):
    toks = I.newlist(st, node, items, extra="flat%d" % len(items))
    return [(I.lib.snap(I, s, v), s.facts) for s, v in I.call_callback(st.copy(), node, act, toks)]


def variable(I, st, node, res, where, act):
    for name, want in (("v", pt("v")), ("zero", I.lib.snap(I, st, const(0)))):
        got = tokens(I, st, node, act, [const(name)])
        if not got:
            res.ob("operands", "the variable %s" % name, False, where, "it has no value: there's an exception")
        for t, _ in got:
            ok = t is want or (t.op == "c" and want.op == "c" and t.args[1] == want.args[1])
            if ok or t.op in ("c", "param") or any(x.op == "param" for x in t.subs()):
                res.ob("operands", "the variable %s" % name, ok, where, "its value is %s" % tshow(t))
    for t, _ in tokens(I, st, node, act, [const(2.5)]):
        if t.op == "c":
            res.ob("operands", "a number", t.args[1] == 2.5, where, "2.5 is taken for %s" % t.args[1])


def call(I, st, node, res, where, act):
    x, y = p("x", "series"), p("y", "series")
    for args in ((), (x,), (x, y)):
        s = st.copy()
        toks = [const("f")] + ([I.newlist(s, node, list(args), extra="args")] if args else [])
        text = "f(%s)" % ", ".join("xy"[:len(args)])
        for t, _ in result(I, s, node, act, toks):
            have = called(t)
            if have is None:
                res.notes.append("what %s is isn't understood: %s" % (text, tshow(t)))
                continue
            res.ob("operands", text, have == [pt("xy"[k]) for k in range(len(args))], where,
                   "the arguments are %s" % ", ".join(tshow(z) for z in have))


def called(t):
    """the arguments of a call of f"""
    if t.op in ("call", "ucall") and len(t.args) >= 2 and t.args[0] == "?" and t.args[1] is pt("f"):
        return list(t.args[2:])
    if t.op in ("call", "ucall") and t.args and t.args[0] is pt("f"):
        return list(t.args[1:])
    return None
