"""Which rows queries, triggers and plots use: Q01-Q03."""
from sa.core import Config, AnalysisError
from sa import scenario as S
from sa.report import Res, pmap, REPO
from sa.values import V, T, const, catom, unk, tup, NONE, TRUE, FALSE

PASS = {"copy", "sort_index", "astype", "fillna", "ffill", "pad", "bfill", "backfill", "reindex",
        "swaplevel", "rename", "interpolate", "to_frame", "squeeze", "sort_values", "round",
        "infer_objects", "convert_dtypes", "__deepcopy__", "to_series", "__copy__", "to_numpy",
        "tolist", "unique", "to_list", "view"}
LESS = {"head", "tail", "drop", "drop_duplicates", "sample", "nlargest", "nsmallest", "dropna",
        "iloc", "take", "filter", "truncate", "query", "where", "mask", "first", "last", "asof"}
NULLS = {"notnull", "isnull", "notna", "isna", "duplicated"}
INDEX = "@index"


class Cfg(Config):
    """pandas is symbolic; the filters' columns exist unless they are called "absent" """
    symbolic = True
    objs = 400
    parse_once = True
    two = True

    def truth(self, I, st, a, labels):
        if a[0] == "u" and a[2].op == "param" and a[2].args[0] in ("trace", "template"):
            return True
        if a[0] == "u" and a[2].op in ("Eq", "not"):
            t = a[2] if a[2].op == "Eq" else a[2].args[0]
            if t.op == "Eq" and any(x.op == "c" and x.args[1] == self.no_pivot for x in t.args):
                # no event has it in its data
                return a[2].op == "not"
        return None

    no_pivot = "__TRAPPY_DEFAULT_PIVOT_VAL"

    def hard_fact(self, f):
        return any(x.op == "len" for x in f[1].subs())

    def hascol(self, I, st, col, frame):
        if col.op == "c":
            return col.args[1] != "absent"
        return None


def p(name, kind=None):
    return unk(T.mk("param", name), kind)


def pt(name):
    return T.mk("param", name)


def is_c(t, v):
    return t.op == "c" and t.args[1] == v and type(t.args[1]) is type(v)


def none(t):
    return t.op == "c" and t.args[1] is None


class Alt(object):
    """a selection of rows: of which frame, which rows, which columns"""

    def __init__(self, base, preds=frozenset(), col=None, site=None):
        self.base, self.preds, self.col, self.site = base, preds, col, site

    def plus(self, preds=(), col=None, site=None):
        return Alt(self.base, self.preds | frozenset(preds), col or self.col, site or self.site)

    def key(self):
        return (self.base, self.preds, self.col)


class Rows(object):
    """reads terms as selections of rows"""

    def __init__(self, I):
        self.I = I
        self.memo = {}

    def site(self, t):
        return self.I.term_site.get(t, "")

    def rows(self, t):
        """the alternatives of a term that is (made of) rows of one event, or None"""
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._rows(t)
        return self.memo[t]

    def _rows(self, t):
        s = self.site(t)
        if t.op == "attr" and t.args[1] == "data_frame":
            return [Alt(t, site=s)]
        if t.op == "attr" and t.args[1] == "index":
            r = self.rows(t.args[0])
            return r and [a.plus(col=INDEX, site=s) for a in r]
        if t.op == "attr" and t.args[1] in ("values", "T", "array"):
            return self.rows(t.args[0])
        if t.op == "join":
            rs = [self.rows(x) for x in t.args]
            if any(r is None for r in rs):
                return None
            return self.uniq([a for r in rs for a in r])
        if t.op == "call" and t.args[0] in ("copy.copy", "copy.deepcopy") and len(t.args) > 1:
            return self.rows(t.args[1])
        if t.op == "mcall":
            r = self.rows(t.args[1])
            if r is None:
                return None
            name = t.args[0]
            if name in PASS:
                return [a.plus(site=s) for a in r]
            if name == "truncate":
                kw = kwargs(t, ("before", "after"))
                return self.add(r, slicep(kw.get("before"), kw.get("after")), s)
            if name in LESS:
                return self.add(r, [("other", name)], s)
            return None
        if t.op == "item":
            return self.item(t, s)
        if t.op == "locitem":
            r = self.rows(t.args[0])
            if r is None:
                return None
            k = t.args[1]
            out = self.select(r, k, s, True)
            if len(t.args) > 2 and out:
                out = [self.column(a, t.args[2], s) for a in out]
            return out
        return None

    def uniq(self, alts):
        seen = {}
        for a in alts:
            seen.setdefault(a.key(), a)
        return list(seen.values())[:64]

    def add(self, alts, preds, site):
        return [a.plus(preds, site=site) for a in alts]

    def column(self, a, k, s):
        if k.op == "slice":
            return a.plus(site=s)
        if k.op == "list" and len(k.args) == 1 and k.args[0].op != "each":
            return a.plus(col=k.args[0], site=s)
        if k.op == "list":
            return a.plus(site=s)
        return a.plus(col=k, site=s)

    def item(self, t, s):
        f, k = t.args[0], t.args[1]
        if f.op == "attr" and f.args[1] == "iloc":
            r = self.rows(f.args[0])
            return r and self.add(r, [("other", "iloc")], s)
        r = self.rows(f)
        if r is None:
            return None
        return self.select(r, k, s, False)

    def select(self, alts, k, s, loc):
        """item k of frames or series"""
        if k.op == "slice":
            lo, hi = k.args[0], k.args[1]
            step = k.args[2] if len(k.args) > 2 else None
            ps = slicep(lo, hi)
            if step is not None and not none(step):
                ps.append(("other", "step"))
            return self.add(alts, ps, s)
        ms = self.mask(k)
        if ms is not None:
            return self.uniq([a.plus(m, site=s) for a in alts for m in ms])
        if all(a.col is None for a in alts) and not loc:
            return [self.column(a, k, s) for a in alts]
        # an element or rows that aren't understood
        return self.add(alts, [("?", k)], s)

    def colof(self, t):
        """the column a term is, of whatever rows"""
        r = self.rows(t)
        if not r or len({a.col for a in r}) != 1:
            if t.op == "call" and t.args[0] in ("pandas.Series", "numpy.array", "numpy.asarray", "list") \
                    and len(t.args) > 1:
                return self.colof(t.args[1])
            return None
        return r[0].col

    def mask(self, m):
        """the alternatives of a condition on rows (each a set of predicates), or None"""
        if m.op == "mask":
            return self.mask(m.args[0]) or [frozenset([("?", m.args[0])])]
        if m.op == "join":
            rs = [self.mask(x) for x in m.args]
            if any(r is None for r in rs):
                return None
            return list({x for r in rs for x in r})[:32]
        if self.alltrue(m):
            return [frozenset()]
        if m.op == "BitAnd" or m.op == "call" and m.args[0] == "numpy.logical_and":
            a, b = m.args[-2:]
            ra, rb = self.mask(a), self.mask(b)
            if ra is None and rb is None:
                return None
            ra = ra or [frozenset([("?", a)])]
            rb = rb or [frozenset([("?", b)])]
            return list({x | y for x in ra for y in rb})[:32]
        if m.op == "BitOr":
            if self.alltrue(m.args[0]) or self.alltrue(m.args[1]):
                return [frozenset()]
            for x, y in (m.args, m.args[::-1]):
                if self.allfalse(x):
                    return self.mask(y)
            ra, rb = self.mask(m.args[0]), self.mask(m.args[1])
            if ra and rb and len(ra) == len(rb) == 1 and len(ra[0]) == len(rb[0]) == 1:
                (x,), (y,) = ra[0], rb[0]
                if x[0] == y[0] == "in" and x[1] == y[1]:
                    return [frozenset([("in", x[1], x[2] | y[2])])]
            if ra and rb and not any(x[0] == "?" for r in ra + rb for x in r):
                if any(not r for r in ra + rb):
                    return [frozenset()]
                return [frozenset([("or", frozenset(ra), frozenset(rb))])]
            return [frozenset([("?", m)])] if ra or rb else None
        if m.op == "not":
            if m.args[0].op == "Lt":
                a, b = m.args[0].args
                if self.colof(a) is not None:
                    return [frozenset([self.bound("ge", self.colof(a), b)])]
                if self.colof(b) is not None:
                    return [frozenset([self.bound("le", self.colof(b), a)])]
            return self.negate(m.args[0])
        if m.op == "Invert":
            return self.negate(m.args[0])
        if m.op == "Lt":
            a, b = m.args
            if self.colof(a) is not None:
                return [frozenset([self.bound("lt", self.colof(a), b)])]
            if self.colof(b) is not None:
                return [frozenset([self.bound("gt", self.colof(b), a)])]
            return None
        if m.op == "Eq":
            for a, b in (m.args, m.args[::-1]):
                c = self.colof(a)
                if c is not None and self.colof(b) is None:
                    return [frozenset([("in", c, frozenset([b]))])]
            return None
        if m.op == "mcall" and m.args[0] in ("isin", "between", "eq", "le", "ge", "lt", "gt"):
            c = self.colof(m.args[1])
            if c is None:
                return None
            if m.args[0] == "isin":
                return [frozenset([inp(c, m.args[2])])]
            if m.args[0] == "eq":
                return [frozenset([("in", c, frozenset([m.args[2]]))])]
            if m.args[0] == "between":
                kw = kwargs(m, ("left", "right", "inclusive"))
                if kw.get("inclusive") is not None and not (
                        is_c(kw["inclusive"], "both") or is_c(kw["inclusive"], True)):
                    return [frozenset([("other", "between")])]
                return [frozenset([self.bound("ge", c, kw["left"]), self.bound("le", c, kw["right"])])]
            return [frozenset([self.bound(m.args[0], c, m.args[2])])]
        if m.op == "mcall" and m.args[0] in NULLS and self.rows(m.args[1]) is not None:
            return [frozenset([("other", m.args[0])])]
        if m.op == "mcall" and m.args[0] in ("all", "any"):
            return self.mask(m.args[1])
        if m.op == "call" and m.args[0] in ("numpy.isin", "numpy.in1d") and len(m.args) > 2:
            c = self.colof(m.args[1])
            return None if c is None else [frozenset([inp(c, m.args[2])])]
        if m.op == "mapped":
            c = self.colof(m.args[0])
            if c is None:
                return None
            return self.cellmask(c, m.args[1])
        if m.op == "call" and m.args[0] in ("pandas.Series", "numpy.array", "numpy.asarray", "list") \
                and len(m.args) > 1:
            return self.mask(m.args[1])
        if m.op == "list" and len(m.args) == 1 and m.args[0].op == "each":
            r = self.mask(m.args[0].args[0])
            return r or [frozenset([("?", m)])]
        return None

    def negate(self, m):
        r = self.mask(m)
        if r is None:
            return None
        if len(r) == 1 and len(r[0]) == 1:
            x, = r[0]
            if x[0] not in ("?", "or"):
                return [frozenset([("not",) + x])]
        return [frozenset([("?", T.mk("not", m))])]

    def bound(self, op, col, v):
        return (op, col, v)

    def allfalse(self, m):
        if is_c(m, False):
            return True
        if m.op == "list" and m.args:
            return all(self.allfalse(x.args[0] if x.op == "each" else x) for x in m.args)
        if m.op == "call" and m.args[0] in ("pandas.Series", "numpy.array", "numpy.asarray") and len(m.args) > 1:
            return m.args[1].op != "kw" and self.allfalse(m.args[1])
        if m.op == "call" and m.args[0] in ("numpy.zeros", "numpy.zeros_like"):
            return True
        if m.op == "mapped":
            return self.allfalse(m.args[1])
        return False

    def alltrue(self, m):
        if is_c(m, True):
            return True
        if m.op in ("list",) and m.args:
            return all(self.alltrue(x.args[0] if x.op == "each" else x) for x in m.args)
        if m.op == "Mult":
            return any(self.alltrue(x) for x in m.args)
        if m.op == "call" and m.args[0] in ("pandas.Series", "numpy.array", "numpy.asarray") and len(m.args) > 1:
            return m.args[1].op != "kw" and self.alltrue(m.args[1])
        if m.op == "call" and m.args[0] in ("numpy.ones", "numpy.ones_like"):
            return True
        if m.op == "call" and m.args[0] == "numpy.full" and len(m.args) > 2:
            return self.alltrue(m.args[2])
        if m.op == "mapped":
            return self.alltrue(m.args[1])
        return False

    def cellmask(self, c, r):
        """a condition on each cell of a column"""
        def cell(t):
            return t.op == "cell"
        if r.op == "join":
            rs = [self.cellmask(c, x) for x in r.args]
            return list({x for y in rs for x in y})
        if is_c(r, True):
            return [frozenset()]
        if is_c(r, False):
            return [frozenset([("other", "nothing")])]
        if r.op == "In" and cell(r.args[0]):
            return [frozenset([inp(c, r.args[1])])]
        if r.op == "Eq" and cell(r.args[0]) != cell(r.args[1]):
            return [frozenset([("in", c, frozenset([x for x in r.args if not cell(x)]))])]
        if r.op in ("not", "NotIn"):
            x = self.cellmask(c, r.args[0]) if r.op == "not" else [frozenset([inp(c, r.args[1])])]
            if len(x) == 1 and len(x[0]) == 1:
                y, = x[0]
                if y[0] != "?":
                    return [frozenset([("not",) + y])]
            return [frozenset([("?", r)])]
        if r.op in ("call", "ucall") and r.args and cell(r.args[-1]):
            f = r.args[0] if r.args[0] != "?" else r.args[1]
            return [frozenset([("fn", c, f)])]
        return [frozenset([("?", r)])]

    def chains(self, t):
        """the selections a value is made of: [(term, alternatives)], and the other frames"""
        out, seen = [], set()

        def walk(x, opaque):
            if not isinstance(x, T) or (x, opaque is None) in seen:
                return
            seen.add((x, opaque is None))
            if x.op == "attr" and x.args[1] == "columns":
                return
            r = self.rows(x)
            if r is not None:
                out.append((x, r if opaque is None else [a.plus([("?", opaque)]) for a in r]))
                return
            if opaque is None and not self.clear(x):
                opaque = x
            for y in x.args:
                walk(y, opaque)
        walk(t, None)
        return out

    def clear(self, t):
        """what a term does to the rows in it is known"""
        if t.op == "mcall":
            return t.args[0] not in ("groupby", "merge", "join", "pivot", "pivot_table", "get_group")
        if t.op == "call":
            return t.args[0] not in ("functools.reduce", "pandas.merge", "pandas.pivot_table", "pandas.crosstab")
        return t.op not in ("elem", "nth", "elemof", "lookup")


def kwargs(t, names):
    """arguments of a method call by name"""
    out = {}
    pos = [x for x in t.args[2:] if not (isinstance(x, T) and x.op == "kw")]
    for n, x in zip(names, pos):
        out[n] = x
    for x in t.args[2:]:
        if isinstance(x, T) and x.op == "kw":
            out[x.args[0]] = x.args[1]
    return out


def slicep(lo, hi):
    ps = []
    if lo is not None and not none(lo):
        ps.append(("ge", INDEX, lo))
    if hi is not None and not none(hi):
        ps.append(("le", INDEX, hi))
    return ps


def inp(c, vals):
    if vals.op in ("list", "set", "tuple") and not any(x.op == "each" for x in vals.args):
        return ("in", c, frozenset(vals.args))
    if vals.op == "call" and vals.args[0] in ("list", "set", "tuple", "sorted", "frozenset",
                                              "numpy.array", "numpy.asarray") and len(vals.args) == 2:
        return inp(c, vals.args[1])
    if vals.op == "c" and isinstance(vals.args[1], tuple):
        return ("in", c, frozenset(T.mk("c", type(x).__name__, x) for x in vals.args[1]))
    if vals.op == "param":
        return ("in", c, frozenset([vals]))
    return ("?", T.mk("isin", vals))


def show(pr):
    if pr[0] == "in":
        return "%s in {%s}" % (tshow(pr[1]), ", ".join(sorted(tshow(x) for x in pr[2])))
    if pr[0] == "fn":
        return "%s(%s)" % (tshow(pr[2]), tshow(pr[1]))
    if pr[0] == "not":
        return "not " + show(pr[1:])
    if pr[0] == "or":
        return " or ".join(" and ".join(sorted(show(y) for y in r)) for x in pr[1:] for r in x)
    return " ".join(tshow(x) for x in pr)


def tshow(x):
    if isinstance(x, T) and x.op == "c":
        return repr(x.args[1])
    s = str(x)
    return s if len(s) < 70 else s[:67] + "..."


def cterm(x):
    return const(x).one() and T.mk("c", type(x).__name__, x)


def judge(R, res, rule, key, t, want, extra=None, raw_ok=False, where="", facts=()):
    """every selection a value is made of has exactly the wanted conditions

    want: predicates; extra(pred) says that another one is fine
    -> how many selections were judged"""
    n = 0
    for x, alts in R.chains(t):
        for a in alts:
            w = a.site or where
            un = [q for q in a.preds if q[0] == "?"]
            if a.col == INDEX and not a.preds and raw_ok:
                continue
            if not a.preds and want and empty_fact(a.base, facts):
                continue
            n += 1
            have = set(a.preds)
            if ("other", "nothing") in have and any(q[0] == "in" and not q[2] for q in want):
                continue
            for q in sorted(want, key=repr):
                ok = q in have or bool(un)
                res.ob(rule, "%s: %s" % (key, show(q)), ok, w,
                       "rows are used that aren't limited to %s: %s" % (
                           show(q), "; ".join(sorted(show(y) for y in have)) or "all rows"))
            for q in sorted(have - set(want), key=repr):
                if q[0] == "?" or (extra is not None and extra(q, a)):
                    continue
                res.ob(rule, "%s: nothing else" % key, False, w,
                       "rows are left out for another condition: %s" % show(q))
            res.ob(rule, "%s: nothing else" % key, True, w)
            if un:
                res.notes.append("%s: a condition isn't understood: %s" % (key, tshow(un[0][1])))
    return n


def empty_fact(base, facts):
    for f in facts:
        if f[0] != "T":
            continue
        t, v = f[1], f[2]
        if t.op == "not":
            t, v = t.args[0], not v
        if t.op == "len" and not v and t.args[0] is base:
            return True
    return False


MODS = ["trappy", "trappy.stats.grammar", "trappy.stats.Trigger", "trappy.plotter.Constraint"]


def filters(I, st, node, kinds):
    """a dictionary of filters of some kinds, and the predicates it stands for"""
    ents, want = {}, []
    for k in kinds:
        col = "absent" if k == "absent" else "c_" + k
        if k in ("int", "str"):
            v, w = p("f_" + k, k), ("in", cterm(col), frozenset([pt("f_" + k)]))
        elif k == "zero":
            v, w = const(0), ("in", cterm(col), frozenset([cterm(0)]))
        elif k == "list" or k == "one" or k == "absent":
            vs = [pt("f_%s_%d" % (k, i)) for i in range(1 if k == "one" else 2)]
            v = I.newlist(st, node, [unk(x, "int") for x in vs], extra=k)
            w = ("in", cterm(col), frozenset(vs))
        elif k == "none":
            v, w = I.newlist(st, node, [], extra=k), ("in", cterm(col), frozenset())
        elif k == "fn":
            v, w = p("f_fn", "func"), ("fn", cterm(col), pt("f_fn"))
        ents[catom(col)] = v
        if k != "absent":
            want.append(w)
    return I.newdict(st, node, ents), want


def run(res, build, cfg):
    T.MAXDEPTH = 60
    r = S.run(REPO, cfg, build, MODS)
    res.seen(r.I)
    return r


def deep(I, st, v, depth=0):
    """the terms of a value, and of the attributes of the library's objects in it"""
    out = [I.lib.snap(I, st, v)]
    for a in v.atoms:
        if a[0] == "r" and st.has(a[1]) and st.get(a[1]).kind == "inst" and depth < 4:
            for x in st.get(a[1]).attrs.values():
                out += deep(I, st, x, depth + 1)
    return out


# --------------------------------------------------------------------- Q01
GRAMMAR = "trappy.stats.grammar.Parser"


def grammar_case(api, window, kinds, opts=()):
    res = Res()
    cfg = Cfg()
    box = {}
    seen = []

    def ev(I, st, node, kind, data):
        if kind == "parsed":
            for t in deep(I, st, data["value"]) + deep(I, data["state"], box["parser"]):
                seen.append((t, tuple(data["state"].facts), I.where(node)))
    cfg.on_event = ev

    def build(I, st, node):
        box["I"] = I
        d, want = filters(I, st, node, kinds)
        box["want"] = want
        kw = {"filters": d} if kinds else {}
        if window:
            ws = [p("w0", "float") if window[0] else const(0), p("w1", "float") if window[1] else NONE]
            kw["window"] = tup(ws)
        for o in opts:
            kw[o] = p(o, "bool") if o == "fill" else p(o, "str")
        out = []
        for s, x in I.call(st, node, I.glob(GRAMMAR), [p("trace")], kw):
            box["parser"] = x
            for s2, m in I.load_attr(node, s, x, api):
                out += I.call(s2, node, m, [p("text", "str")], {})
        return out
    r = run(res, build, cfg)
    for s, v in r.exits:
        for t in deep(r.I, s, v) + deep(r.I, s, box["parser"]):
            seen.append((t, tuple(s.facts), ""))
    R = Rows(r.I)
    want = list(box["want"])
    want += slicep(pt("w0") if window and window[0] else cterm(0), pt("w1") if window and window[1] else None)
    key = "%s(window=%s, filters=%s)" % (api, "(%s, %s)" % ("start" if window[0] else 0, "end" if window[1] else None)
                                         if window else "default", "+".join(kinds) or "none")

    def extra(q, a):
        # the rows of one of the pivot's values
        return q[0] == "in" and q[1].op == "attr" and q[1].args[1] == "pivot" and \
            all(pivotal(R, x, q[1]) for x in q[2])
    n = 0
    done = set()
    for t, facts, where in seen:
        if (t, facts) in done:
            continue
        done.add((t, facts))
        n += judge(R, res, "rows", key, t, want, extra, where=where, facts=facts)
        if opts:
            options(r.I, res, key, t)
    res.ob("uses data", key, n > 0, "trappy/stats/grammar.py", "no data of the trace is used")
    res.count("selections", n)
    return res


def pivotal(R, t, col):
    """t is one of the unique values of a column of rows, any of them"""
    found = []

    def walk(x, path):
        if R.rows(x) is not None:
            found.append((R.colof(x), path))
            return
        for y in x.args:
            if isinstance(y, T):
                walk(y, path + (x.op,))
    walk(t, ())
    return any(c is col and not {"slice", "item"} & set(path) for c, path in found)


def options(I, res, key, t):
    for x in t.subs():
        if x.op == "mcall" and x.args[0] == "reindex":
            kw = kwargs(x, ("index", "columns"))
            for o in ("method", "limit"):
                res.ob("options", "%s is that asked for" % o, kw.get(o) is pt(o), I.term_site.get(x, ""),
                       "data is reindexed with %s=%s" % (o, tshow(kw.get(o))))


def q01():
    cases = [("solve", None, ()), ("solve", (1, 1), ("absent", "int", "list")), ("solve", (1, 0), ("str", "zero")),
             ("solve", (0, 1), ("one", "absent")),
             ("inspect", None, ("int", "list", "absent")), ("inspect", (1, 1), ("str", "zero")),
             ("inspect", (1, 0), ())]
    args = [c + ((),) for c in cases] + [("solve", None, (), ("method", "limit", "fill"))]
    res = pmap(grammar_case, args)
    return res, dict(
        explanation="the values that each parse action of the grammar returns and keeps, as symbolic terms of the "
                    "operations on the events' frames, reduced to the conditions on their rows",
        assumptions=["columns compare with == and isin alike"],
        floors={"rows": 4, "uses data": 4})


# --------------------------------------------------------------------- Q02
TRIGGER = "trappy.stats.Trigger.Trigger"


def trigger_case(kinds, value):
    res = Res()
    cfg = Cfg()
    box = {}

    def build(I, st, node):
        d, box["want"] = filters(I, st, node, kinds)
        v = {"column": const("c_val"), "number": p("value", "float"), "zero": const(0)}[value]
        out = []
        for s, x in I.call(st, node, I.glob(TRIGGER), [p("trace"), p("template"), d, v, const("c_pivot")], {}):
            for s2, m in I.load_attr(node, s, x, "generate"):
                out += I.call(s2, node, m, [p("pivot_value")], {})
        return out
    r = run(res, build, cfg)
    R = Rows(r.I)
    want = box["want"] + [("in", cterm("c_pivot"), frozenset([pt("pivot_value")]))]
    key = "generate(filters=%s, value=%s)" % ("+".join(kinds) or "none", value)
    n = 0
    for s, v in r.exits:
        t = r.I.lib.snap(r.I, s, v)
        n += judge(R, res, "rows", key, t, want, facts=tuple(s.facts))
        ch = R.chains(t)
        cols = {a.col for x, al in ch for a in al if not any(q[0] == "?" for q in a.preds)}
        if not cols and ch:
            continue
        w = next((a.site for x, al in ch for a in al), "")
        if value == "column":
            res.ob("value", key, cols <= {cterm("c_val")} and bool(cols), w,
                   "the values aren't those of the column: %s" % ", ".join(tshow(c) for c in cols))
        else:
            x = pt("value") if value == "number" else cterm(0)
            ok = outside(R, t, x) and cols <= {INDEX, None}
            res.ob("value", key, ok, w, "the values aren't the constant for each row: %s" % tshow(t))
    res.ob("uses data", key, n > 0 or not r.exits, "trappy/stats/Trigger.py", "no data of the trace is used")
    for s, e in r.raised:
        res.ob("raises", key, False, e.site or "", "%s is raised" % e.type)
    res.count("selections", n)
    return res


def outside(R, t, x):
    """x is part of t, but not of the rows it's made of"""
    if t is x:
        return True
    if R.rows(t) is not None:
        return False
    return any(outside(R, y, x) for y in t.args if isinstance(y, T))


def q02():
    cases = [((), "number"), (("int", "list"), "column"), (("str", "fn"), "number"), (("fn", "one", "absent"), "column"),
             (("absent", "zero"), "zero"), (("list", "fn", "int"), "number")]
    res = pmap(trigger_case, cases)
    return res, dict(
        explanation="what generating a trigger returns, as a symbolic term of the operations on the event's frame, "
                    "reduced to the conditions on its rows",
        assumptions=["columns compare with == and isin alike"],
        floors={"rows": 4, "value": 4})


# --------------------------------------------------------------------- Q03
MANAGER = "trappy.plotter.Constraint.ConstraintManager"


def constraint_case(kinds, pivot, window, data):
    """pivot: None (no pivot), "free" or one of the filters' columns"""
    res = Res()
    cfg = Cfg()
    box = {}

    def build(I, st, node):
        d, box["want"] = filters(I, st, node, kinds)
        pv = I.glob("trappy.plotter.AttrConf.PIVOT") if pivot is None else \
            const("c_pivot" if pivot == "free" else "c_" + pivot)
        box["none"] = I.glob("trappy.plotter.AttrConf.PIVOT_VAL").one()
        tr = unk(T.mk("attr", pt("frame"), "data_frame"), "df") if data == "frame" else p("trace")
        tm = NONE if data == "frame" else p("template")
        args = [I.newlist(st, node, [tr], extra="t"), I.newlist(st, node, [const("c_val")], extra="c"),
                I.newlist(st, node, [tm], extra="e"), pv, d]
        kw = {}
        if window is not None:
            kw["window"] = tup([p("w0", "float") if window == "start" else const(0), p("w1", "float")])
        out = []
        for s, m in I.call(st, node, I.glob(MANAGER), args, kw):
            for s1, l in I.lib.to_list(I, s, node, m):
                o = s1.get(l.one()[1])
                for c in list(o.items or ()) + ([o.summ] if o.summ is not None else []):
                    for s2, x in I.load_attr(node, s1, c, "result"):
                        out.append((s2, x))
        return out
    r = run(res, build, cfg)
    R = Rows(r.I)
    pcol = None if pivot is None else cterm("c_pivot" if pivot == "free" else "c_" + pivot)
    want = [q for q in box["want"] if q[1] is not pcol]
    bounds = set()
    pfilter = [q for q in box["want"] if q[1] is pcol]
    key = "result(filters=%s, pivot=%s, window=%s, data=%s)" % (
        "+".join(kinds) or "none", pivot, "(%s, end)" % window if window is not None else None, data)
    n = 0
    most = max([len(x.args) for x in (r.I.lib.snap(r.I, s, v) for s, v in r.exits) if x.op == "dict"] or [0])
    for s, v in r.exits:
        t = r.I.lib.snap(r.I, s, v)
        if t.op == "dict" and len(t.args) < most:
            for f in s.facts:
                ln = count_test(f[1])
                if ln is not None and R.rows(ln) is not None:
                    res.ob("values with data", key, False, r.I.term_site.get(ln, ""),
                           "values of the pivot are left out depending on how many rows they have")
            res.ob("values with data", key, True)
        if t.op != "dict":
            raise AnalysisError("the result isn't a dictionary: %s" % tshow(t))
        for e in t.args:
            k, x = e.args
            w = want
            if pivot is None:
                res.ob("pivot", key, k.op == "c" and k.args[1] == box["none"][2], "",
                       "the key is %s" % tshow(k))
            else:
                w = w + [("in", pcol, frozenset([k]))]
                pv = pivots(R, k)
                site = r.I.term_site.get(x, "")
                if pv is None and k.op not in ("c", "param", "attr"):
                    res.notes.append("%s: the key %s isn't understood" % (key, tshow(k)))
                else:
                    res.ob("pivot", key, pv is not None and pv[0] is pcol, site, "the key %s isn't one of the "
                           "pivot's values" % tshow(k))
                if pv is not None:
                    for q in pfilter:
                        ok = q[2] in pv[1] or "?" in pv[1]
                        res.ob("pivot values", key, ok, site,
                               "values of the pivot that the filters exclude have a result")
            n += judge(R, res, "rows", key, x, w, lambda q, a: window is not None and bound_ok(
                R, res, key, q, a, bounds, pt("w0") if window == "start" else cterm(0), s.facts),
                       facts=tuple(s.facts))
            for y, al in R.chains(x):
                for a in al:
                    if any(q[0] == "?" for q in a.preds):
                        continue
                    res.ob("column", key, a.col is cterm("c_val"), a.site, "the values aren't those of the column")
    if window is not None:
        res.ob("window", key, bounds == {"ge", "le"}, "trappy/plotter/Constraint.py",
               "the rows aren't limited to the window")
    res.ob("uses data", key, n > 0, "trappy/plotter/Constraint.py", "no data of the trace is used")
    for s, e in r.raised:
        res.ob("raises", key, False, e.site or "", "%s is raised" % e.type)
    res.count("selections", n)
    return res


def count_test(t):
    """what's counted by a condition that's more than a test for emptiness"""
    if t.op == "not":
        return count_test(t.args[0])
    if t.op == "Lt":
        a, b = t.args
        if b.op == "len" and not is_c(a, 0):
            return b.args[0]
        if a.op == "len" and not is_c(b, 1):
            return a.args[0]
    if t.op == "Eq":
        for a, b in (t.args, t.args[::-1]):
            if a.op == "len" and not is_c(b, 0):
                return a.args[0]
    return None


def pivots(R, k):
    """(column, the sets that limit it) of a value that's one of the unique ones of a column"""
    col, limits, ok = None, [], True

    def walk(x, top):
        nonlocal col
        if x.op == "mcall" and x.args[0] == "groupby":
            kw = kwargs(x, ("by",))
            if "by" in kw:
                col = kw["by"]
                limits.append("?")
            return
        if R.colof(x) is not None and R.rows(x) is not None:
            col = R.colof(x)
            return
        if x.op == "BitAnd" or x.op == "mcall" and x.args[0] == "intersection" or \
                x.op == "call" and x.args[0] in (".intersection", "numpy.intersect1d"):
            for y in x.args:
                if isinstance(y, T):
                    q = inp(None, y)
                    if q[0] == "in" and not any(R.rows(z) is not None for z in y.subs()):
                        limits.append(q[2])
                    elif not any(R.rows(z) is not None for z in y.subs()):
                        limits.append("?")
                    else:
                        walk(y, top)
            return
        for y in x.args:
            if isinstance(y, T):
                walk(y, top)
    walk(k, True)
    return None if col is None else (col, limits)


def outward(R, x, w, start):
    """x is the rows before the window's start or after its end"""
    return any(q[0] in (("le", "lt") if start else ("ge", "gt")) and q[1] == INDEX and q[2] is w
               for r in R.rows(x) or () for q in r.preds)


def bound_ok(R, res, key, q, a, seen, w0, facts):
    """the window is extended to the rows next to it"""
    if q[1] != INDEX or q[0] not in ("ge", "le"):
        return False
    t = q[2]
    start = q[0] == "ge"
    f, frm = None, None
    if t.op == "mcall" and t.args[0] in ("max", "min"):
        f, frm = t.args[0], t.args[1]
    elif t.op == "item" and t.args[1].op == "c" and t.args[1].args[1] in (0, -1):
        f, frm = "min" if t.args[1].args[1] == 0 else "max", t.args[0]
    rs = R.rows(frm) if frm is not None else None
    seen.add(q[0])
    if t is w0 or t is pt("w1"):
        res.ob("window", "%s: %s" % (key, "start" if start else "end"),
               any(x.op == "len" and outward(R, x.args[0], t, start) for f in facts for x in f[1].subs()), a.site,
               "the rows don't %s with the last one %s the window" % (
                   "start" if start else "end", "before" if start else "after"))
        return True
    if rs is None or any(p[0] == "?" for r in rs for p in r.preds):
        res.notes.append("%s: the bound %s isn't understood" % (key, tshow(t)))
        return True
    want = ("max", ("le", INDEX, w0)) if start else ("min", ("ge", INDEX, pt("w1")))
    alt = ("max", ("lt", INDEX, w0)) if start else ("min", ("gt", INDEX, pt("w1")))
    ok = all((f, p) in (want, alt) for r in rs for p in r.preds) and all(r.preds for r in rs)
    res.ob("window", "%s: %s" % (key, "start" if start else "end"), ok, a.site,
           "the rows don't %s with the last one %s the window: %s" % (
               "start" if start else "end", "before" if start else "after", tshow(t)))
    return True


def q03():
    cases = [(("list", "one"), None, None, "trace"), (("list", "one", "absent"), "free", None, "trace"),
             (("list", "one"), "list", None, "trace"), ((), "free", None, "frame"),
             (("one", "none"), "one", None, "frame"), (("list",), "free", "start", "trace"), ((), None, "start", "frame"),
             ((), "free", 0, "trace")]
    res = pmap(constraint_case, cases)
    return res, dict(
        explanation="the results of a plot's constraints, as symbolic terms of the operations on the event's frame, "
                    "reduced to the conditions on their rows",
        assumptions=["columns compare with == and isin alike"],
        floors={"rows": 4, "pivot": 4})
