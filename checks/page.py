"""What interactive plots put into the page, and what its scripts read of it: V01, V02."""
import os
import re

from sa import scenario as S, js
from sa.core import AnalysisError
from sa.report import Res, pmap, REPO
from sa.values import V, T, const, catom, unk, tup, NONE, TRUE, FALSE
from .query import Cfg, p, pt, is_c, none, tshow

MODS = {"EventPlot": ["trappy", "trappy.plotter", "trappy.plotter.EventPlot"],
        "ILinePlot": ["trappy", "trappy.plotter", "trappy.plotter.ILinePlot", "trappy.plotter.ILinePlotGen"]}
SCRIPTS = "trappy/plotter/js/%s.js"


class PageCfg(Cfg):
    """keeps the pages that are shown and what is serialized for them"""
    two = True

    def __init__(self):
        self.pages = []

    def call_hook(self, I, st, node, f, args, kw):
        if f[0] == "x" and f[1].rpartition(".")[2] == "HTML" and args:
            self.pages.append((I.lib.snap(I, st, getattr(args[0], "v", args[0])), I.where(node)))
        if f[0] == "x" and f[1] in ("json.dumps", "ujson.dumps", "simplejson.dumps") and args:
            return [(st, unk(T.mk("json", I.lib.snap(I, st, getattr(args[0], "v", args[0]))), "str"))]
        return None


def pages(module, build):
    """the pages of a scenario"""
    cfg = PageCfg()
    old, T.MAXDEPTH = T.MAXDEPTH, 60
    try:
        r = S.run(REPO, cfg, lambda I, st, node: build(I, st, node), MODS[module])
    finally:
        T.MAXDEPTH = old
    out = []
    for t, w in cfg.pages:
        if not any(t is x for x, _ in out):
            out.append((t, w))
    return r, out


# -- text of the pages
class Page(object):
    """the text of a page, with holes for what isn't constant"""

    def __init__(self, t, pick=0):
        self.holes = []
        self.pieces = []
        self.pick = pick
        self.top(t, set())

    def top(self, t, seen):
        """the pieces of text of a list of text"""
        if t in seen:
            return
        seen.add(t)
        if t.op in ("c", "cat") or self.joinable(t) or not any(x.op in ("cat", "json") for x in t.subs()):
            self.pieces.append(self.text(t))
            return
        if strip(t)[0].op == "json":
            self.pieces.append(self.text(t))
            return
        for a in t.args:
            if isinstance(a, T):
                self.top(a, seen)

    def joinable(self, t):
        return t.op == "joined" and len(t.args) == 2 and t.args[1].op == "list" and \
            all(x.op != "each" for x in t.args[1].args) and t.args[0].op == "c"

    def text(self, t):
        if isinstance(t, str):
            return t
        if t.op == "c":
            return str(t.args[1])
        if t.op == "cat":
            return "".join(self.text(a) for a in t.args)
        if self.joinable(t):
            return str(t.args[0].args[1]).join(self.text(x) for x in t.args[1].args)
        if t.op == "join" and any(a.op in ("cat", "c") for a in t.args):
            return self.text(t.args[self.pick % len(t.args)])
        if t not in self.holes:
            self.holes.append(t)
        return "HOLE%d_" % self.holes.index(t)

    def scripts(self):
        """the texts of the scripts of the page"""
        return [m for x in self.pieces for m in re.findall(r"(?is)<script[^>]*>(.*?)</script\s*>", x)]

    def outside(self):
        """the text that isn't in scripts"""
        return [re.sub(r"(?is)<script[^>]*>.*?</script\s*>", "", x) for x in self.pieces]

    def ids(self):
        return {m for x in self.pieces for m in re.findall(r"""\bid\s*=\s*["']([^"']*)["']""", x)}

    def hole(self, name):
        m = re.match(r"HOLE(\d+)_$", name)
        return self.holes[int(m.group(1))] if m else None


def strip(t):
    """(the serialized value, the replacements made in its text)"""
    reps = []
    while True:
        if t.op == "replace" and len(t.args) == 3:
            reps.append(t.args[1:3])
            t = t.args[0]
        elif t.op == "mcall" and len(t.args) == 4 and t.args[0] == "replace":
            reps.append(t.args[2:4])
            t = t.args[1]
        else:
            return t, reps


def program(module, page):
    """the scripts of a page and of its plots, analysed"""
    path = SCRIPTS % module
    try:
        with open(os.path.join(REPO, path), encoding="utf-8") as f:
            src = f.read()
    except OSError:
        raise AnalysisError("no script %s" % path)
    texts = page.scripts()
    trees = js.parse([src] + texts)
    if trees[0]["type"] == "Error":
        raise AnalysisError("%s: %s" % (path, trees[0]["message"]))
    bad = [t["message"] for t in trees[1:] if t["type"] == "Error"]
    P = js.Program([(path, trees[0])] + [("<page of %s>" % module, t) for t in trees[1:] if t["type"] != "Error"])
    n = 0
    for i, h in enumerate(page.holes):
        v, _ = strip(h)
        if v.op == "json":
            P.vals[(None, "HOLE%d_" % i)] = frozenset([("p", "json%d" % i, ())])
            n += 1
    P.solve()
    return P, bad, n


# -- shapes of what is serialized
def resolve(t, path):
    """what a path leads to: (terms, whether some alternative has no such part)"""
    if t.op in ("join", "phi"):
        out, miss = [], False
        for a in t.args:
            if isinstance(a, T):
                o, m = resolve(a, path)
                out += o
                miss = miss or m
        return out, miss
    if not path:
        return [t], False
    k, rest = path[0], path[1:]
    if k == "@key":
        return [], False
    if t.op == "dict":
        out, miss, hit, vague = [], False, False, False
        for e in t.args:
            if not isinstance(e, T) or e.op not in ("entry", "each") or len(e.args) < 2:
                return [], False
            key, v = e.args[0], e.args[1]
            sure = e.op == "entry" and key.op == "c"
            if k == "*" or not sure or str(key.args[1]) == str(k):
                hit = hit or sure
                vague = vague or not sure
                o, m = resolve(v, rest)
                out += o
                miss = miss or (m and sure)
        if not hit and not vague and k != "*":
            return [], True
        return out, miss
    if t.op in ("list", "tuple"):
        out, miss = [], False
        exact = all(isinstance(e, T) and e.op != "each" for e in t.args)
        if isinstance(k, int) and exact:
            if k >= len(t.args):
                return [], bool(t.args)
            return resolve(t.args[k], rest)
        if isinstance(k, str) and k != "*":
            return [], not k.isdigit()
        for e in t.args:
            if isinstance(e, T):
                for x in (e.args if e.op == "each" else (e,)):
                    if isinstance(x, T):
                        o, m = resolve(x, rest)
                        out += o
                        miss = miss or m
        return out, miss
    if t.op == "c":
        return [], t.args[1] is not None or True
    return [], False


def show(path):
    return "".join("[%s]" % k if k == "*" or isinstance(k, int) else "." + str(k) for k in path).lstrip(".")


def data_of(page, root):
    if not root.startswith("json"):
        return None
    return strip(page.holes[int(root[4:])])[0].args[0]


# -- the scenarios
# in no order of their names
LANES = ("lb", "la", "lc")


def event_plot(I, st, node, mode, names=("x", "y"), lanes=LANES):
    """an EventPlot of known events"""
    ls = lanes if mode == "lanes" else (0, 1, 2)

    def event(n, i, lane):
        return I.newlist(st, node, [p("%s%ds" % (n, i)), p("%s%de" % (n, i)), const(lane)], extra="%s%d" % (n, i))
    rows = [(n, i, ls[k]) for n, k0 in zip("xy", (0, 1)) for i, k in enumerate((k0, k0, k0, 1 - k0, 1 - k0, 1 - k0))]
    data = I.newdict(st, node, {catom(name): I.newlist(
        st, node, [event(n, i, lane) for m, i, lane in rows if m == n], extra="events" + n)
        for n, name in zip("xy", names)})
    kw = dict(color_map=p("color_map", "dict"), stride=p("stride", "bool"), summary=p("summary", "bool"))
    if mode == "lanes":
        kw["lanes"] = I.newlist(st, node, [const(x) for x in lanes], extra="lanes")
    else:
        kw["num_lanes"] = const(3)
        kw["lane_prefix"] = p("lane_prefix", "str")
    keys = I.newlist(st, node, [const(n) for n in names], extra="keys")
    out = []
    for s, x in I.call(st, node, I.glob("trappy.EventPlot"), [data, keys, p("domain", "tuple")], kw):
        for s2, f in I.load_attr(node, s, x, "view"):
            out += I.call(s2, node, f, [], {})
    return out


def line_plot(I, st, node, options, test=True):
    """an ILinePlot of a frame"""
    out = []
    f = unk(T.mk("attr", pt("frame"), "data_frame"), "df")
    for s, x in I.call(st, node, I.glob("trappy.ILinePlot"), [f], dict(column=const("col"), **options)):
        for s2, v in I.load_attr(node, s, x, "view"):
            out += I.call(s2, node, v, [], {"test": const(test)})
    return out


LINES = {
    "default": {},
    "options": dict(xlim=p("xlim"), ylim=p("ylim"), fill_alpha=p("fill_alpha"), sync_zoom=p("sync_zoom"),
                    group=p("group", "str"), scatter=const(True), point_size=p("point_size"),
                    drawstyle=const("steps-post")),
    "fill": dict(fill=p("fill")),
    "pivot": dict(pivot=const("c_pivot")),
    "concat": dict(pivot=const("c_pivot"), concat=const(True)),
}


def scenario(kind, names=("x", "y"), lanes=LANES):
    """(module, pages)"""
    if kind in LINES:
        module, build = "ILinePlot", lambda I, st, node: line_plot(I, st, node, LINES[kind])
    else:
        module, build = "EventPlot", lambda I, st, node: event_plot(I, st, node, kind, names, lanes)
    r, ps = pages(module, build)
    return module, r, ps


def job(prop, kind):
    res = Res()
    names, lanes = ("x", "y"), LANES
    if prop == "V02":
        names, lanes = ("x<i>", "y<i>"), ("lb<i>", "la<i>", "lc<i>")
    module, r, ps = scenario(kind, names, lanes)
    res.seen(r.I)
    done = set()
    if not ps:
        res.notes.append("%s: %s: no page is shown" % (module, kind))
    for t, where in ps:
        for pick in (0, 1):
            page = Page(t, pick)
            key = (tuple(page.pieces), tuple(page.holes))
            if key in done:
                continue
            done.add(key)
            res.count("pages")
            P, bad, n = program(module, page)
            for m in bad:
                res.notes.append("%s: a script isn't understood: %s" % (module, m))
            res.count("reads", len(P.sites))
            if prop == "V01":
                read(res, module, page, P, n)
                (lines if kind in LINES else events)(res, kind, page, P, where)
            else:
                escapes(res, module, page, P, where)
    return res


def run(prop, kinds):
    return pmap(job, [(prop, k) for k in kinds])


# -- V01
def paired(res, module, tree):
    """colours of names"""
    n, bad = js.unpaired(tree)
    for name, line, why in bad:
        res.ob("paired", "%s: %s" % (module, name), False, "%s:%d" % (SCRIPTS % module, line),
               "%s is taken for values of the names, one for each of them: %s" % (name, why))
    if n and not bad:
        res.ob("paired", module, True)


def read(res, module, page, P, n):
    """what the scripts read is there"""
    for file, tree in P.trees:
        if file == SCRIPTS % module:
            paired(res, module, tree)
    res.ob("given", "%s: data" % module, n > 0 or not page.scripts() or any(
        any(x.op == "json" for x in h.subs()) for h in page.holes), SCRIPTS % module,
        "nothing is serialized for the script of the plot")
    for nid, site in sorted(P.sites.items()):
        node = P.nodes[nid]
        if "other" in site or not site:
            continue
        if P.tolerant(node):
            k = ": |%s: %s|%s:%s" % ((module, show(sorted(x[1] for x in site)[0])) + P.where(node))
            res.counts.setdefault("may" + k, 0)
            for root, path in site:
                d = data_of(page, root)
                o, m = resolve(d, path) if d is not None else ((), False)
                if o or not m:
                    res.counts["has" + k] = 1
            continue
        got, miss, paths = [], True, []
        for root, path in sorted(site, key=str):
            d = data_of(page, root)
            if d is None:
                miss = False
                break
            o, m = resolve(d, path)
            paths.append(path)
            if o or not m:
                miss = False
        # the parts of what isn't there are another matter
        if miss and any(not gone(page, r_, p_[:-1]) for r_, p_ in site):
            w = "%s:%s" % P.where(node)
            res.ob("read", "%s: %s" % (module, show(paths[0])), False, w,
                   "the script reads %s, which the data of the plot doesn't have" % " or ".join(
                       sorted({show(x) for x in paths})))
        elif not miss and paths:
            res.ob("read", "%s: %s" % (module, show(paths[0])), True)
    for (root, path), ws in sorted(P.scalars.items(), key=str):
        d = data_of(page, root)
        if d is None:
            continue
        o, m = resolve(d, path)
        res.ob("number", "%s: %s" % (module, show(path)), not o or not all(x.op in ("dict", "list") for x in o),
               "%s:%s" % sorted(ws)[0], "the script computes with %s, which is %s" % (
                   show(path), " or ".join(sorted({x.op for x in o}))))


def gone(page, root, path):
    d = data_of(page, root)
    o, m = resolve(d, path)
    return m and not o


def paths_of(t, want, path=()):
    """the paths of a serialized value at which something is"""
    out = []
    if want(t):
        out.append(path)
    if t.op == "dict":
        for e in t.args:
            if e.op == "entry" and e.args[0].op == "c" and len(path) < 6:
                out += paths_of(e.args[1], want, path + (e.args[0].args[1],))
    elif t.op == "list":
        for i, e in enumerate(t.args):
            if len(path) < 6 and e.op != "each":
                out += paths_of(e, want, path + (i,))
    elif t.op in ("join", "phi"):
        for a in t.args:
            if isinstance(a, T):
                out += paths_of(a, want, path)
    return out


def roots(page):
    return [("json%d" % i, strip(h)[0].args[0]) for i, h in enumerate(page.holes) if strip(h)[0].op == "json"]


def option(res, module, page, P, name, where, tested=False, same=False):
    """an option is in the data, and the script reads it there"""
    want = pt(name)
    for root, d in roots(page):
        exact = paths_of(d, lambda t: t is want)
        near = paths_of(d, lambda t: want in t.subs() and t.op not in ("dict", "list", "join", "phi"))
        near = near or paths_of(d, lambda t: want in t.subs())
        res.ob("given", "%s: %s" % (module, name), bool(near), where,
               "the option %s isn't in the data the script is given" % name)
        if not near:
            continue
        neg = [x for x in near if not exact and all(o.op == "not" for o in resolve(d, x)[0])]
        res.ob("given", "%s: %s" % (module, name), not neg, where, "the script is given the opposite of %s" % name)
        used = [x for x in (exact or near) if (root, x) in P.reads or any(
            (root, x[:k]) in P.reads and (root, x[:k] + ("*",)) in P.reads for k in range(len(x)))]
        res.ob("used", "%s: %s" % (module, name), bool(used), SCRIPTS % module,
               "the script doesn't use the option %s (%s in its data)" % (
                   name, " or ".join(show(x) for x in exact or near)))
        if tested and used:
            res.ob("used", "%s: %s" % (module, name), any((root, x) in P.tests for x in used) or any(
                (root, x) in a for x in used for a in [{k[1:] for k in P.args}]), SCRIPTS % module,
                "nothing of the script depends on the option %s" % name)


def events(res, kind, page, P, where):
    """the data of an EventPlot"""
    mod = "EventPlot"
    for name in ("domain", "color_map"):
        option(res, mod, page, P, name, where)
    for name in ("summary", "stride"):
        option(res, mod, page, P, name, where, tested=True)
    for root, d in roots(page):
        for name in ("summary", "stride"):
            at = {(root, x) for x in paths_of(d, lambda t: t is pt(name))}
            if not at:
                continue
            bad, n = P.without(at)
            res.count("uses_of_members", n)
            for k, w in bad:
                res.ob("optional", "%s: %s" % (name, k), False, "%s:%s" % w,
                       "%s is used without %s, which alone makes it" % (k, name))
            if not bad:
                res.ob("optional", "%s: parts" % name, True)
        # the domain as it was given
        for x in paths_of(d, lambda t: pt("domain") in t.subs() and t.op in ("list", "tuple") and all(
                e.op == "item" or e.op == "c" for e in t.args)):
            for t in resolve(d, x)[0]:
                ok = [e.op == "item" and e.args[0] is pt("domain") and is_c(e.args[1], i)
                      for i, e in enumerate(t.args)] == [True, True]
                res.ob("given", "EventPlot: domain's ends", ok, where,
                       "the script is given %s as the domain of the data" % tshow(t))
        # lanes
        lanes = {}
        for x in paths_of(d, lambda t: t.op == "list" and t.args and all(
                e.op == "dict" and len(e.args) >= 2 for e in t.args)):
            for t in resolve(d, x)[0]:
                for k, e in enumerate(t.args):
                    vals = {f.args[0].args[1]: f.args[1] for f in e.args if f.op == "entry" and f.args[0].op == "c"}
                    if "id" in vals and "label" in vals:
                        lanes[k] = (vals["id"], vals["label"])
        if lanes:
            want = LANES if kind == "lanes" else (0, 1, 2)
            res.ob("lanes", "%s: number" % kind, sorted(lanes) == [0, 1, 2], where,
                   "the plot has %d lanes, 3 are expected" % len(lanes))
            for k in (0, 1, 2):
                i, l = lanes.get(k, (None, None))
                if l is None:
                    continue
                if kind == "lanes":
                    ok = is_c(l, want[k]) or l.op not in ("c", "cat")
                else:
                    ok = l.op not in ("c", "cat") or (l.op == "cat" and pt("lane_prefix") in l.args and any(
                        a.op == "c" and str(a.args[1]) == str(k) for a in l.args))
                res.ob("lanes", "%s: label %d" % (kind, k), ok, where, "lane %d is labelled %s" % (k, tshow(l)))
                if i.op == "c":
                    res.ob("lanes", "%s: id %d" % (kind, k), i.args[1] == k, where,
                           "lane %d, of the ones that are given in their order, is drawn as number %s" % (k, i.args[1]))
        # every event, in the lane it's in, in the order of time
        found = False
        for x in paths_of(d, lambda t: t.op == "dict" and {
                e.args[0].args[1] for e in t.args if e.op == "entry" and e.args[0].op == "c"} & {"x", "y"}):
            for t in resolve(d, x)[0]:
                found = True
                per = {e.args[0].args[1]: e.args[1] for e in t.args if e.op == "entry" and e.args[0].op == "c"}
                for n, first in (("x", 0), ("y", 1)):
                    v = per.get(n)
                    res.ob("events", "%s: %s" % (kind, n), v is not None, where, "the events %s aren't plotted" % n)
                    if v is None or v.op != "dict" or any(e.op != "entry" or e.args[0].op != "c" for e in v.args):
                        continue
                    by = {str(e.args[0].args[1]): e.args[1] for e in v.args}
                    for lane in (0, 1):
                        idx = range(0, 3) if lane == first else range(3, 6)
                        want = [(pt("%s%ds" % (n, i)), pt("%s%de" % (n, i))) for i in idx]
                        have = by.get(str(lane))
                        rows = None
                        if have is None:
                            rows = []
                        elif have.op == "list" and all(e.op in ("list", "tuple") and len(e.args) >= 2
                                                       for e in have.args):
                            rows = [(e.args[0], e.args[1]) for e in have.args]
                        if rows is None:
                            continue
                        res.ob("events", "%s: %s in lane %d" % (kind, n, lane), rows == want, where,
                               "of the events %s in lane %d, %s are plotted, not %s" % (
                                   n, lane, pairs(rows), pairs(want)))
        res.ob("events", kind, found or not any(x.op == "dict" for x in d.subs()), where,
               "the events aren't in the data of the plot by name")


def pairs(rows):
    return ", ".join("%s-%s" % (tshow(a), tshow(b)) for a, b in rows) or "none"


EXPECT = {
    # option of dygraphs: what it's told in which scenario
    "default": [("stepPlot", False, "no drawstyle"), ("fillGraph", False, "no fill"),
                ("drawPoints", False, "no scatter")],
    "options": [("stepPlot", True, "drawstyle='steps-post'"), ("fillGraph", True, "fill_alpha"),
                ("fillAlpha", "fill_alpha", "fill_alpha"), ("dateWindow", "xlim", "xlim"),
                ("valueRange", "ylim", "ylim"), ("drawPoints", True, "scatter=True"),
                ("pointSize", "point_size", "point_size")],
    "fill": [("fillGraph", "fill", "fill")],
    "pivot": [], "concat": [],
}


def lines(res, kind, page, P, where):
    """the data of an ILinePlot"""
    mod = "ILinePlot"
    if kind == "options":
        for name in ("group", "sync_zoom"):
            option(res, mod, page, P, name, where)
    made = [(args, w) for nm, args, w in P.news.values() if nm == "Dygraph" and len(args) == 3]
    if not made:
        res.notes.append("ILinePlot: how the graph is made isn't understood")
    for args, w in made:
        w = "%s:%s" % w
        opts = {}
        for a in args[2]:
            if a[0] == "o":
                for (o, k), v in P.fields.items():
                    if o == a[1]:
                        opts.setdefault(k, set()).update(v)
        if not opts:
            continue
        for k, want, why in EXPECT[kind]:
            if "*" in opts and k not in opts:
                continue
            if k not in opts:
                if want is not False:
                    res.ob("option", "%s: %s" % (why, k), False, w,
                           "%s: the graph isn't told about it (%s)" % (why, k))
                continue
            ts, vague = values(page, opts[k])
            if vague and not ts:
                continue
            ok = any(told(t, want) for t in ts) or vague
            res.ob("option", "%s: %s" % (why, k), ok, w, "%s: the graph's %s is %s" % (
                why, k, " or ".join(sorted({tshow(t) for t in ts})) or "never set"))
        # the legend's place
        ids = page.ids()
        for k in ("labelsDiv",):
            texts = set()
            sums = [a for a in opts.get(k, ()) if a[0] == "+"]
            for a in sums or opts.get(k, ()):
                texts |= spell(page, a)
            if texts and ids and not any(re.search(r"^HOLE\d+_$", x) for x in ids):
                res.ob("place", k, bool(texts & ids), w,
                       "the page has no element %s for the legend" % " or ".join(sorted(texts)))
        table(res, kind, page, P, args[1], opts.get("labels", ()), w, where)


def spell(page, a):
    """the texts an atom may be, as in the page"""
    if a[0] == "c":
        return set()
    if a[0] == "+":
        l, r_ = (spell(page, x) if x[0] != "c" else {str(x[1])} for x in a[1:])
        return {x + y for x in l for y in r_}
    if a[0] == "p" and a[2]:
        d = data_of(page, a[1])
        return {page.text(t) for t in (resolve(d, a[2])[0] if d is not None else ()) if t.op in ("c", "cat")}
    return set()


def values(page, atoms):
    """(the terms some atoms may be, whether they may be others)"""
    out, vague = [], not atoms
    for a in atoms:
        if a[0] == "c":
            out.append(T.mk("c", type(a[1]).__name__, a[1]))
        elif a[0] == "p":
            d = data_of(page, a[1])
            if d is None:
                vague = True
                continue
            out += resolve(d, a[2])[0]
        else:
            vague = True
    return out, vague


def told(t, want):
    if isinstance(want, bool):
        return t.op != "c" or bool(t.args[1]) == want
    return pt(want) in t.subs() and t.op != "not"


def table(res, kind, page, P, data, labels, w, where):
    """rows start with the index, and so do their labels"""
    frames = set()
    what = {}
    for name, atoms in (("data", data), ("labels", labels)):
        ts, vague = values(page, atoms)
        if vague or not ts:
            return
        what[name] = ts
        for t in ts:
            for x in t.subs():
                if x.op == "attr" and x.args[1] in ("index", "values", "columns") and any(
                        y.op == "call" and y.args[0].endswith(("DataFrame", "concat")) for y in x.args[0].subs()):
                    frames.add(x.args[0])
    for t in what["data"]:
        ok = pt("frame") in t.subs() and any(is_c(x, "col") for x in t.subs())
        # a value of the pivot may have no data
        res.ob("table", "%s: data" % kind, ok or kind in ("pivot", "concat"), where, "the data of the plot isn't the column's that was asked for")
        if t.op != "list":
            continue
        for row in t.args:
            has = [{x.args[1] for x in e.subs() if x.op == "attr" and x.args[1] in ("index", "values")}
                   for e in sum_of(row)]
            if not any(has):
                continue
            mixed = any(len(h) > 1 for h in has)
            res.ob("table", "%s: rows" % kind, mixed or "index" in has[0] and all(h <= {"values"} for h in has[1:]),
                   where, "a row of the data of the plot doesn't start with its time")
            res.ob("table", "%s: columns" % kind, mixed or any("values" in h for h in has), where,
                   "a row of the data of the plot has no values")
    for t in what["labels"]:
        bare = t.args[1] if t.op in ("mcall", "call") and len(t.args) == 2 and isinstance(t.args[1], T) else t
        cols = bare.op == "attr" and bare.args[1] == "columns" and not any(
            x.op == "mcall" and x.args[0] in ("reset_index", "insert", "assign") for x in bare.subs())
        if cols or t.op == "list" and any(x.op == "attr" and x.args[1] == "columns" for x in t.subs()):
            res.ob("table", "%s: labels" % kind, any(
                (x.op == "c" and isinstance(x.args[1], str)) or
                (x.op == "attr" and x.args[1] in ("index", "name")) for x in above(t)), where,
                "the labels of the plot have none for the time")


def sum_of(t):
    """the parts of a list that is made of others"""
    if t.op == "Add" and len(t.args) == 2:
        return sum_of(t.args[0]) + sum_of(t.args[1])
    return list(t.args) if t.op in ("list", "tuple") else [t]


def above(t):
    """the terms of a value, not those of its columns"""
    if t.op == "attr" and t.args[1] == "columns":
        return
    yield t
    for a in t.args:
        if isinstance(a, T):
            for x in above(a):
                yield x


def v01():
    res = run("V01", ["lanes", "count"] + sorted(LINES))
    # parts that scripts can do without are there in some scenario
    for k in [k for k in res.counts if k.startswith("may: ")]:
        _, root, where = k.split("|", 2)
        res.counts.pop(k)
        res.ob("read", root, res.counts.pop("has" + k[3:], 0) > 0, where,
               "the script reads %s, which the data of the plot never has" % root)
    return res, dict(
        explanation="Plots are made by an abstract interpretation of their classes, with symbolic data and options; "
                    "the page each shows is a term, of which the scripts are parsed, together with the script of the "
                    "plot, and analysed for which parts of the serialized data they read, what they compute with, "
                    "what they test and what they give dygraphs. Every part a script reads must be in the data, "
                    "every option must be there and be used, every event must be in its lane.",
        assumptions=["json.dumps keeps the structure of dictionaries and lists",
                     "dygraphs and d3 are taken to do what their documentation says of their options"],
        floors=dict(read=10, option=4, events=2))


# -- V02
ESCAPES = ("escape", "quoteattr", "xml_escape")
RAW = ("param", "item", "attr", "elem", "elemof", "nth", "cat", "locitem", "tolist", "c", "mapped")


def derived(t):
    """is it of data: a parameter of the scenario, or one of its names"""
    return any((x.op == "param" and x.args[0] not in ("title",)) or
               (x.op == "c" and isinstance(x.args[1], str) and x.args[1].endswith("<i>")) for x in t.subs())


def tame(t, script):
    """True: can't be taken for markup; False: can be; None: not known"""
    if not derived(t):
        return True
    v, reps = strip(t)
    safe = any(is_c(a, "<") and b.op == "c" and "<" not in str(b.args[1]) for a, b in reps)
    if v.op == "json":
        return safe
    if v.op == "call" and v.args[0].rpartition(".")[2] in ESCAPES:
        return True if not script else None
    if script:
        if v.op in RAW:
            return False
        return None
    if safe:
        return True
    if v.op in ("join", "phi", "joined", "list", "each", "cat"):
        xs = [tame(a, script) for a in v.args if isinstance(a, T)]
        return False if False in xs else None if None in xs else True
    if v.op in RAW or v.op == "dict":
        return False
    return None


def escapes(res, module, page, P, where):
    texts = [(s, True) for s in page.scripts()] + [(s, False) for s in page.outside()]
    n = 0
    for text, script in texts:
        for m in sorted(set(re.findall(r"HOLE\d+_", text))):
            h = page.hole(m)
            if h is None or not derived(h):
                continue
            n += 1
            ok = tame(h, script)
            if ok is None:
                res.notes.append("%s: how %s is put into the page isn't understood" % (module, tshow(h)[:200]))
                continue
            v, _ = strip(h)
            res.ob("python", "%s: %s" % (module, "data in scripts" if script else "data"), ok, where,
                   "%s: %s" % (module, "what is serialized for the script can have </script> in its strings"
                               if v.op == "json" else "data is put into the page as it is: %s" % tshow(h)[:200]))
        res.ob("python", "%s: names" % module, "<i>" not in text, where,
               "%s: the names of the data are put into the page as they are" % module)
    res.count("data_in_pages", n)
    bad = 0
    for (root, path), ws in sorted(P.marks.items(), key=str):
        if root == "datum" or data_of(page, root) is not None:
            bad += 1
            for f, line in sorted(ws):
                res.ob("script", "%s: %s" % (module, show(path) or "data"), False, "%s:%s" % (f, line),
                       "the script puts %s of the data into the page as HTML" % (show(path) or "a part"))
    res.ob("script", "%s: HTML" % module, not bad)


def v02():
    res = run("V02", ["lanes", "count"] + sorted(LINES))
    return res, dict(
        explanation="The page of every plot is a term of an abstract interpretation, with symbolic data. Data in a "
                    "script must be serialized with its '<' escaped; elsewhere it must be escaped. The script of the "
                    "plot is analysed for where its data goes: none of it may go where HTML is parsed.",
        assumptions=["titles are the caller's own HTML", "dygraphs and d3 escape the text they're given as text"],
        floors=dict(python=2, script=2))
