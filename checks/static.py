"""What static plots draw, where, and what their legends say of it: V05."""
from sa import scenario as S
from sa.report import Res, pmap, REPO
from sa.values import V, T, const, catom, ext, unk, tup, NONE, TRUE, FALSE
from .query import Cfg, p, pt, tshow


class StaticCfg(Cfg):
    """axes and lines are known objects; what's drawn is kept"""

    def __init__(self):
        self.calls = {}
        self.lines = []
        self.shape = None
        self.twice = set()
        self.problem = None

    def ambiguous(self, I, st, node, f):
        if any(a[0] == "x" and a[1].startswith("@") for a in f.atoms):
            self.problem = "which of several is called isn't known at %s" % I.where(node)

    def truth(self, I, st, a, labels):
        if a[0] == "u" and a[2].op == "param" and a[2].args[0] in dict(TRACES + EVENTS):
            return True
        return Cfg.truth(self, I, st, a, labels)

    def hascol(self, I, st, col, frame):
        # the constraints' results are given (see scenario())
        return False

    def num(self, v):
        a = v.one() if isinstance(v, V) else v
        return a[2] if a is not None and a[0] == "c" and isinstance(a[2], int) else None

    def call_hook(self, I, st, node, f, args, kw):
        if f[0] != "x":
            return None
        name = f[1]
        if name == "matplotlib.pyplot.subplots":
            return self.subplots(I, st, node, args, kw)
        root, _, method = name.partition(".")
        if not root.startswith("@") or not method:
            return None
        snap = lambda v: I.lib.snap(I, st, getattr(v, "v", v))
        call = (root, method, tuple(snap(a) for a in args), tuple(sorted((k, snap(v)) for k, v in kw.items())))
        n = sum(1 for g in st.ghost if g[0] == call)
        st.ghost = st.ghost | {(call, n)}
        self.calls.setdefault(call, I.where(node))
        if root.startswith("@axis") and method in ("plot", "bar", "step", "scatter", "barh", "stem"):
            if (call, n) not in self.lines:
                self.lines.append((call, n))
            return [(st, I.newlist(st, node, [ext("@line%d" % self.lines.index((call, n)))], extra="lines%d" % len(self.lines)))]
        return None

    def subplots(self, I, st, node, args, kw):
        rows = self.num(args[0].v if hasattr(args[0], "v") else args[0]) if args else self.num(kw.get("nrows", const(1)))
        cols = self.num(args[1].v if hasattr(args[1], "v") else args[1]) if len(args) > 1 else self.num(kw.get("ncols", const(1)))
        if not rows or not cols or rows * cols > 50:
            return None
        self.shape = (rows, cols)
        if rows * cols == 1:
            axes = ext("@axis0")
        elif 1 in (rows, cols):
            axes = I.newdict(st, node, {catom(i): ext("@axis%d" % i) for i in range(rows * cols)}, extra="axes")
        else:
            axes = I.newdict(st, node, {tup([const(y), const(x)]).one(): ext("@axis%d" % (y * cols + x))
                                        for y in range(rows) for x in range(cols)}, extra="axes")
        return [(st, tup([ext("@figure"), axes]))]


DRAW = ("plot", "bar", "step", "scatter", "barh", "stem")
COLUMNS = ("load", "util")
TRACES = (("t1", "zed"), ("t2", "abe"))
EVENTS = (("e1", "ev"), ("e2", "ew"))

#: name: (plotter, traces, events, columns, options, pivot values of (trace, column))
SCENARIOS = {}


def scen(name, plotters, traces, columns, options, pivots, events=1):
    for k in plotters:
        SCENARIOS["%s %s" % (k, name)] = (k, traces, events, columns, options, pivots)


BOTH = ("LinePlot", "BarPlot")
TWO = {(0, "load"): (1, 10), (1, "load"): (0, 1)}
LIMITS = dict(xlim=lambda: tup([p("x0"), p("x1")]), ylim=lambda: tup([p("y0"), p("y1")]), title="all of it")
scen("pivots", BOTH, 2, ["load"], dict(LIMITS, pivot="cpu"), TWO)
scen("rows", BOTH, 2, ["load"], dict(LIMITS, pivot="cpu", per_line=1), TWO)
scen("labels", BOTH, 2, ["load"], dict(pivot="cpu", map_label={0: "LITTLE", 1: "mid", 10: "big"}, legend_ncol=7), TWO)
scen("concat", BOTH, 2, ["load"], dict(LIMITS, pivot="cpu", concat=True), TWO)
scen("permute", BOTH, 2, ["load", "util"], dict(LIMITS, pivot="cpu", permute=True),
     {(0, "load"): (1,), (0, "util"): (0, 1), (1, "load"): (0, 1), (1, "util"): (0,)})
scen("permuted columns", ("LinePlot",), 1, ["util", "load"], dict(permute=True), {(0, "load"): None, (0, "util"): None})
scen("permuted traces", ("LinePlot",), 2, ["load"], dict(permute=True), {(0, "load"): None, (1, "load"): None})
scen("one axis", BOTH, 2, ["load"], dict(LIMITS), {(0, "load"): None, (1, "load"): None})
scen("columns", BOTH, 1, ["util", "load"], {}, {(0, "load"): None, (0, "util"): None})
scen("no data", BOTH, 1, ["util", "load"], dict(pivot="cpu"), {(0, "load"): (2,), (0, "util"): ()})
scen("single", BOTH, 1, ["load"], dict(LIMITS), {(0, "load"): None})
scen("stacked", ("BarPlot",), 2, ["load"], dict(stacked=True), {(0, "load"): None, (1, "load"): None})
scen("stacked pivots", ("BarPlot",), 2, ["load"], dict(stacked=True, pivot="cpu", concat=True),
     {(0, "load"): (1, 2, 3), (1, "load"): (2, 3, 4)})
scen("filled", ("LinePlot",), 2, ["load"], dict(pivot="cpu", fill=True), TWO)
scen("scattered", ("LinePlot",), 2, ["load"], dict(pivot="cpu", scatter=True, point_size=9), TWO)
scen("forwarded", BOTH, 2, ["load"], dict(pivot="cpu", linewidth=lambda: p("linewidth"), linestyle=lambda: p("linestyle")), TWO)
scen("events", BOTH, 1, ["load", "util"], dict(pivot="cpu"), {(0, "load"): (1, 2), (0, "util"): (0, 1)}, events=2)
scen("four", BOTH, 1, ["load"], dict(LIMITS, pivot="cpu", per_line=3), {(0, "load"): (100, 20, 3, 0)})
scen("saved", BOTH, 1, ["load"], dict(LIMITS), {(0, "load"): None})
scen("colours", BOTH, 2, ["load"], dict(pivot="cpu", colors=[[1, 2, 3], [4, 5, 6]]), TWO)


def series(i, col, pv):
    return "s|%d|%s|%s" % (i, col, pv)


def value(I, st, node, v):
    if callable(v):
        return v()
    if isinstance(v, dict):
        return I.newdict(st, node, {catom(k): const(x) for k, x in v.items()}, extra="map")
    if isinstance(v, list):
        return I.newlist(st, node, [value(I, st, node, x) for x in v], extra="opt")
    return const(v)


def scenario(name):
    """(interpretation, exits, calls, series that there are)"""
    kind, traces, events, columns, options, pivots = SCENARIOS[name]
    cfg = StaticCfg()
    given = {}

    def build(I, st, node):
        st.uattrs = {(pt(t), "name"): const(n) for t, n in TRACES + EVENTS}
        tr = I.newlist(st, node, [p(t) for t, _ in TRACES[:traces]], extra="traces")
        ev = I.newlist(st, node, [p(e) for e, _ in EVENTS[:events]], extra="events")
        cols = I.newlist(st, node, [const(c) for c in columns], extra="columns")
        kw = {k: value(I, st, node, v) for k, v in options.items()}
        none = I.glob("trappy.plotter.AttrConf.PIVOT_VAL").one()
        out = []
        for s, x in I.call(st, node, I.glob("trappy." + kind), [tr, ev], dict(kw, column=cols)):
            heap = dict(s.base)
            heap.update(s.heap)
            found = {}
            for oid, o in heap.items():
                if o.kind == "inst" and o.attrs and {"result", "trace_index", "column"} <= set(o.attrs):
                    i, c = o.attrs["trace_index"].one(), o.attrs["column"].one()
                    if i is not None and c is not None and i[0] == c[0] == "c":
                        found.setdefault((i[2], c[2]), []).append((oid, o))
            if set(found) != set(pivots):
                cfg.problem = "there are constraints for %s" % sorted(found)
                if not found:
                    continue
            cfg.twice |= {k for k, v in found.items() if len(v) > 1}
            for (i, c), os in found.items():
                for oid, o in os:
                    pvs = pivots.get((i, c), ())
                    if pvs is None:
                        pvs = (none[2],)
                    res = {}
                    for pv in pvs:
                        n = series(i, c, pv)
                        given[n] = (i, c, pv)
                        res[catom(pv)] = unk(T.mk("param", n), "series")
                    o = o.copy()
                    o.attrs = dict(o.attrs)
                    o.attrs["result"] = I.newdict(s, node, res, extra="res%d%s" % (i, c))
                    s.put(oid, o)
            for s2, f in I.load_attr(node, s, x, "view"):
                for s3, v in I.call(s2, node, f, [], {}):
                    if not name.endswith(" saved"):
                        out.append((s3, v))
                        continue
                    for s4, f in I.load_attr(node, s3, x, "savefig"):
                        out += I.call(s4, node, f, [p("path")], {"dpi": p("dpi")})
        cfg.none = none[2]
        return out
    old, T.MAXDEPTH = T.MAXDEPTH, 60
    try:
        r = S.run(REPO, cfg, build, ["trappy", "trappy.plotter", "trappy.plotter." + kind])
    finally:
        T.MAXDEPTH = old
    return r, cfg, given


def known(t):
    """a term whose value is one"""
    return not any(x.op in ("join", "phi", "elem", "nth", "each", "any") for x in t.subs())


def names(t):
    return {x.args[0] for x in t.subs() if x.op == "param" and str(x.args[0]).startswith("s|")}


def text(t):
    """the constant text of a term, with its parts that aren't"""
    if t.op == "c":
        return str(t.args[1])
    if t.op == "cat":
        return "".join(text(a) for a in t.args)
    if t.op == "list" and len(t.args) == 1 and isinstance(t.args[0], T):
        return text(t.args[0])
    return "{%s}" % tshow(t)


def line(t):
    """the number of a line, or of what's made with it"""
    for a in (t.op,) + tuple(t.args):
        if isinstance(a, str) and a.startswith("@line"):
            n = a[5:].partition(".")[0].partition("(")[0]
            if n.isdigit():
                return int(n)
    return None


def words(s):
    out, cur = [], ""
    for ch in s:
        if ch.isalnum() or ch == "_":
            cur += ch
        else:
            out.append(cur)
            cur = ""
    return set(out + [cur]) - {""}


class Call(object):
    def __init__(self, call, n, where):
        self.root, self.method, self.args, kw = call
        self.kw = dict(kw)
        self.call = call
        self.n = n
        self.where = where
        self.terms = list(self.args) + list(self.kw.values())

    def mentions(self, t):
        return any(x is t for a in self.terms for x in a.subs())


def job(name):
    res = Res()
    r, cfg, given = scenario(name)
    res.seen(r.I)
    for k in cfg.twice:
        res.ob("once", "%s: %s" % (name, k), False, "trappy/plotter/Constraint.py", "there are several constraints for %s of trace %d" % k[::-1])
    if cfg.problem:
        res.notes.append("%s: %s" % (name, cfg.problem))
        return res
    done = set()
    for s, e in r.raised:
        if e.origin in ("noitem", "noneitem", "noattr", "constop") or not r.exits:
            res.ob("raises", name, False, e.site if isinstance(e.site, str) else "", "%s is raised (%s)" % (e.type, e.origin))
    if r.exits and not any(k[0] == "raises" and k[1] == name for k in res.obl):
        res.ob("raises", name, True)
    for s, _ in r.exits:
        if s.ghost in done:
            continue
        done.add(s.ghost)
        calls = [Call(c, n, cfg.calls[c]) for c, n in s.ghost]
        res.count("calls", len(calls))
        judge(res, name, cfg, given, calls)
    return res


def judge(res, name, cfg, given, calls):
    kind, traces, events, columns, options, pivots = SCENARIOS[name]
    options = {k: v() if callable(v) else v for k, v in options.items()}
    pivoted = "pivot" in options
    mode = "concat" if options.get("concat") else "permute" if options.get("permute") else "pivot"
    ob = lambda rule, key, ok, where="", msg="": res.ob(rule, "%s: %s" % (name, key), ok, where, msg)
    draws = {}
    for c in calls:
        if c.root.startswith("@axis") and c.method in DRAW:
            ns = {n for t in c.args for n in names(t)}
            if len(ns) > 1 and all(known(t) for t in c.args):
                ob("series", "+".join(sorted(ns)), False, c.where, "values of %s are drawn with those of others" % " and ".join(sorted(ns)))
            if len(ns) != 1:
                res.notes.append("%s: what is drawn isn't known at %s" % (name, c.where))
                return
            draws.setdefault(ns.pop(), []).append(c)
    if not draws:
        res.notes.append("%s: nothing that's known is drawn" % name)
        return
    # every series is drawn once
    for n in sorted(given):
        ds = draws.get(n, [])
        w = ds[0].where if ds else "trappy/plotter/StaticPlot.py"
        ob("drawn", n, len(ds) == 1, w, "the series is drawn %d times" % len(ds))
    if any(len(draws.get(n, ())) != 1 for n in given) or set(draws) != set(given):
        return
    draws = {n: ds[0] for n, ds in draws.items()}

    # on the axis of its group
    def place(n):
        i, c, pv = given[n]
        return {"pivot": (pv,), "concat": (i, c), "permute": (i, pv)}[mode]

    def key(n):
        i, c, pv = given[n]
        return {"pivot": (i, c), "concat": (pv,), "permute": (c,)}[mode]
    axes = {}
    for n, d in sorted(draws.items()):
        axes.setdefault(d.root, {}).setdefault(place(n), []).append(n)
        if kind == "LinePlot" and len(d.args) >= 2:
            ob("values", n, len(names(d.args[0])) == 1 and len(names(d.args[1])) == 1 and
               any(x.op == "attr" and x.args[-1] == "index" for x in d.args[0].subs()) or not d.args[0].op == "attr", d.where,
               "the values aren't drawn over their times: %s, %s" % (tshow(d.args[0]), tshow(d.args[1])))
    for a, ps in sorted(axes.items()):
        ob("axis", "groups of " + a, len(ps) == 1, draws[sorted(ps.values())[0][0]].where,
           "series of %s are drawn on the same axis" % " and ".join(str(x) for x in sorted(ps)))
    used = {}
    for a, ps in axes.items():
        for x in ps:
            used.setdefault(x, set()).add(a)
    for x, ax in sorted(used.items()):
        ob("axis", "axes of %s" % (x,), len(ax) == 1, draws[[n for n in draws if place(n) == x][0]].where,
           "the series of %s are drawn on several axes" % (x,))
    if any(len(v) != 1 for v in axes.values()) or any(len(v) != 1 for v in used.values()):
        return
    order = sorted(used, key=lambda x: int(min(used[x])[5:]))
    if pivoted and mode == "pivot":
        ob("order", "axes", order == sorted(order), "trappy/plotter/Constraint.py", "the axes are in the order %s" % (order,))
    # axes that aren't used are removed
    if cfg.shape:
        cells = cfg.shape[0] * cfg.shape[1]
        gone = {x.args[0] for c in calls if c.root == "@figure" and c.method == "delaxes" for t in c.args for x in t.subs() if x.op == "x"}
        gone |= {c.root for c in calls if c.method in ("remove", "set_visible", "set_axis_off")}
        for a in sorted(axes):
            ob("kept", a, a not in gone, draws[list(axes[a].values())[0][0]].where, "an axis with series is removed")
        if mode == "pivot" and gone:
            for k in range(cells):
                a = "@axis%d" % k
                ob("left", a, a in gone or a in axes, "trappy/plotter/PlotLayout.py", "an axis is left empty")
    # limits, titles
    for a in sorted(axes):
        w = draws[list(axes[a].values())[0][0]].where
        on = [c for c in calls if c.root == a]
        for o in ("xlim", "ylim"):
            if o in options:
                ts = [x.one()[2] for x in options[o].one()[1]]
                cs = [c for c in on if any(c.mentions(t) for t in ts)]
                fit = [c for c in cs if o in c.method or any(o in k and any(x in ts for x in v.subs()) for k, v in c.kw.items())]
                ob("limits", "%s of %s" % (o, a), bool(fit), w, "the limits %s aren't set on the axis" % o)
        titles = {text(t) for c in on if c.method == "set_title" for t in c.args[:1]}
        x = list(axes[a])[0]
        want = set()
        if mode == "pivot" and pivoted:
            want = words(str(options.get("map_label", {}).get(x[0], x[0])))
        elif mode == "concat":
            want = {TRACES[x[0]][1], x[1]}
        elif mode == "permute":
            want = {TRACES[x[0]][1]}
        for t in titles:
            if "{" not in t:
                ob("title", a, want <= words(t), w, "the title of the axis of %s is %r" % (x, t))
        if want and not titles:
            ob("title", a, False, w, "the axis of %s has no title" % (x,))
    if "title" in options:
        ob("title", "figure", any(options["title"] in text(t) for c in calls if c.root == "@figure" for t in c.terms),
           "trappy/plotter/PlotLayout.py", "the title isn't set")
    # colours
    col = {}
    for n, d in draws.items():
        t = d.kw.get("color", d.kw.get("c"))
        if t is not None and known(t):
            col[n] = t
    if set(col) == set(draws):
        for n in sorted(draws):
            for m in sorted(draws):
                if n < m:
                    same = key(n) == key(m)
                    ob("colour", "%s and %s" % (n, m), same == (col[n] is col[m]), draws[m].where,
                       "their colours %s, though they are%s of the same entry of the legend" % (
                           "differ" if same else "are the same", "" if same else "n't"))
    else:
        res.notes.append("%s: the colours aren't known" % name)
    if name.endswith(" saved"):
        ob("saved", "figure", any(c.root == "@figure" and c.method == "savefig" and c.mentions(pt("path")) and c.mentions(pt("dpi"))
                                  for c in calls), "trappy/plotter/StaticPlot.py", "the figure isn't saved as asked for")
    legend(res, name, cfg, given, calls, draws, key, mode, options, columns, pivoted)
    # what is passed on
    args = {k: v for k, v in options.items() if k in ("linewidth", "linestyle")}
    for n, d in sorted(draws.items()):
        for k, v in args.items():
            t = v.one()[2]
            ob("forwarded", "%s: %s" % (n, k), d.mentions(t) and (k not in d.kw or d.kw[k] is t), d.where, "%s isn't passed on" % k)
        if options.get("scatter"):
            ok = d.method == "scatter" or (d.kw.get("linestyle") is not None and text(d.kw["linestyle"]) in ("", "None", " ")
                                           and "marker" in d.kw and text(d.kw.get("markersize", T.mk("c", "int", 0))) == "9")
            ob("scatter", n, ok, d.where, "the points aren't drawn as such")
    # areas
    if options.get("fill"):
        fills = [c for c in calls if c.root.startswith("@axis") and c.method.startswith("fill")]
        for a, ps in sorted(axes.items()):
            for n in list(ps.values())[0]:
                d = draws[n]
                mine = [c for c in fills if any(line(x) == cfg.lines.index((d.call, d.n)) or n in names(x) for t in c.args for x in t.subs())]
                if not fills:
                    continue
                ob("filled", n, not mine or any(c.root == a for c in mine), d.where, "the area is drawn on another axis")
                for c in mine:
                    f = c.kw.get("facecolor", c.kw.get("color"))
                    if f is not None and known(f) and n in col:
                        ob("filled", n + ": colour", f is col[n], c.where, "the area has the colour of another line")
        ob("filled", "areas", bool(fills), "trappy/plotter/LinePlot.py", "no areas are filled")
    if kind == "BarPlot":
        bars(res, ob, axes, draws, options)


def legend(res, name, cfg, given, calls, draws, key, mode, options, columns, pivoted):
    events = SCENARIOS[name][2]
    ob = lambda rule, k, ok, where="", msg="": res.ob(rule, "%s: %s" % (name, k), ok, where, msg)
    ls = [c for c in calls if c.method == "legend" and c.root == "@figure"]
    if not ls:
        if not any(c.method == "legend" for c in calls):
            ob("legend", "shown", False, "trappy/plotter/StaticPlot.py", "there's no legend")
        return
    c = ls[0]
    hs = c.args[0] if c.args else c.kw.get("handles")
    ts = c.args[1] if len(c.args) > 1 else c.kw.get("labels")
    if hs is None or ts is None or hs.op not in ("list", "tuple") or ts.op not in ("list", "tuple"):
        res.notes.append("%s: the legend isn't known" % name)
        return
    if "legend_ncol" in options:
        ob("legend", "columns", text(c.kw.get("ncol", T.mk("c", "int", 0))) == str(options["legend_ncol"]), c.where, "legend_ncol isn't used")
    byline = {"@line%d" % cfg.lines.index((d.call, d.n)): n for n, d in draws.items()}
    seen = []
    ob("legend", "entries", len(hs.args) == len(ts.args), c.where, "there are %d handles and %d labels" % (len(hs.args), len(ts.args)))
    for h, t in zip(hs.args, ts.args):
        if h.op == "c" and h.args[1] is None:
            ob("legend", "handles", False, c.where, "an entry is for no series")
            continue
        if not known(h) or not known(t):
            res.notes.append("%s: the legend isn't known" % name)
            return
        n = next((byline[x.args[0]] for x in h.subs() if x.op == "x" and x.args[0] in byline), None)
        if n is None:
            res.notes.append("%s: a handle of the legend isn't known: %s" % (name, tshow(h)))
            return
        i, col, pv = given[n]
        seen.append(key(n))
        if mode == "concat" and pv == cfg.none:
            want = set(columns)
        elif mode == "concat":
            want = words(str(options.get("map_label", {}).get(pv, pv)))
        elif mode == "permute":
            want = {col}
        else:
            want = {TRACES[i][1], col}
            if events > 1:
                want.add(EVENTS[columns.index(col)][1])
        tx = text(t)
        if "{" not in tx:
            ob("legend", "label of %s" % (key(n),), want <= words(tx), c.where, "the label of %s is %r" % (n, tx))
    for k in sorted({key(n) for n in draws}):
        ob("legend", "entry of %s" % (k,), seen.count(k) == 1, c.where, "the legend has %d entries for %s" % (seen.count(k), k))


def number(t):
    return t.args[1] if t.op == "c" and isinstance(t.args[1], (int, float)) and not isinstance(t.args[1], bool) else None


def offset(t):
    """the constant added to the positions, or None"""
    if t.op in ("Add", "add"):
        for i in (0, 1):
            n = number(t.args[1 - i])
            if n is not None:
                o = offset(t.args[i])
                return None if o is None else o + n
        return None
    if any(x.op in ("Mult", "Sub", "Div", "Add") for x in t.subs()):
        return None
    return 0.0


def bars(res, ob, axes, draws, options):
    """bars don't hide others"""
    for a, ps in sorted(axes.items()):
        ns = list(ps.values())[0]
        below = {}
        for n in ns:
            b = draws[n].kw.get("bottom")
            below[n] = names(b) - {n} if b is not None else set()
            d = draws[n]
            h = d.args[1] if len(d.args) > 1 else d.kw.get("height")
            if b is not None and number(b) is None and len(ns) > 1 and h is not None and h.op == "attr" and len(list(h.subs())) <= 3:
                ob("lengths", n, n in names(b), d.where, "the bottoms of the bars are as many as those of the longest series")
        if options.get("stacked"):
            got = sorted(below.values(), key=len)
            ok = [len(x) for x in got] == list(range(len(ns))) and all(x <= y for x, y in zip(got, got[1:]))
            ob("stacked", a, ok, draws[ns[0]].where, "bars are on %s" % "; ".join(
                "%s: %s" % (n, sorted(b)) for n, b in sorted(below.items())))
            continue
        for n in ns:
            ob("grouped", n, not below[n], draws[n].where, "bars stand on those of %s" % sorted(below[n]))
        pos = {n: offset(draws[n].args[0]) for n in ns}
        wid = {n: number(draws[n].kw["width"]) if "width" in draws[n].kw else 0.8 for n in ns}
        if None in pos.values() or None in wid.values():
            continue
        o = sorted(ns, key=lambda n: pos[n])
        for n, m in zip(o, o[1:] + [None]):
            end = pos[m] if m is not None else pos[o[0]] + 1
            ob("apart", n, pos[n] + wid[n] <= end + 1e-9, draws[n].where, "its bars (%s wide) overlap the next ones" % wid[n])


def v05():
    res = pmap(job, [(n,) for n in sorted(SCENARIOS)])
    return res, dict(
        explanation="Static plots are made and viewed by an abstract interpretation of the plotters. The series are given: "
                    "every combination of trace and column has symbolic ones for known pivot values, some of which others "
                    "don't have. What's drawn on which axis, with which colour, and what's put into the legend is read off the "
                    "calls of matplotlib that are made, for each of the %d configurations." % len(SCENARIOS),
        assumptions=["matplotlib's axes draw what they're given", "Constraint.result holds the series (see Q03 for what these are)",
                     "the configurations stand for others with more traces, columns and pivot values"],
        floors=dict(drawn=1, axis=1, legend=1))
