"""What is left of interactive plots in exported notebooks: V04."""
import os
import re

from sa import core, js, scenario as S
from sa.core import AnalysisError
from sa.report import Res, pmap, REPO
from sa.values import T, const
from .page import Page, MODS, SCRIPTS, event_plot, line_plot, LINES
from .query import p, tshow
from .resources import ResCfg, configs, globals_of, tail, DIR

EXPORT = "trappy.nbexport.exporter"
FILE = EXPORT.replace(".", "/") + ".py"
AMD = {"require", "requirejs", "define"}
KINDS = ("count", "lanes") + tuple(sorted(LINES))


class ExpCfg(ResCfg):
    def __init__(self):
        ResCfg.__init__(self)
        self.opened = []

    def on_event(self, I, st, node, kind, data):
        ResCfg.on_event(self, I, st, node, kind, data)
        if kind == "fs" and data["op"] in ("open-r", "read"):
            t = I.lib.snap(I, st, data["path"])
            if not any(t is x for x, _ in self.opened):
                self.opened.append((t, I.where(node)))


def deep(fn):
    old, unroll = T.MAXDEPTH, core.UNROLL
    # a page is a text of some hundred lines
    T.MAXDEPTH, core.UNROLL = 1000, 1000
    try:
        return fn()
    finally:
        T.MAXDEPTH, core.UNROLL = old, unroll


def pages_of(kind):
    """(module, pages, what is installed from where)"""
    if kind in LINES:
        module, build = "ILinePlot", lambda I, st, node: line_plot(I, st, node, LINES[kind], test=False)
    else:
        module, build = "EventPlot", lambda I, st, node: event_plot(I, st, node, kind)
    cfg = ResCfg()
    old, T.MAXDEPTH = T.MAXDEPTH, 60
    try:
        r = S.run(REPO, cfg, build, MODS[module])
    finally:
        T.MAXDEPTH = old
    return module, r, cfg


def export(texts):
    """what exporting makes of texts: [(notebook, text, term)], files that are read"""
    out = []
    cfg = ExpCfg()

    def call(I, st, node, x, name, args):
        res = []
        for s, f in I.load_attr(node, st, x, name):
            res += I.call(s, node, f, args, {})
        return res

    def build(I, st, node):
        ends = []
        c = I.glob(EXPORT + ".TrappyPlotterPreprocessor")
        nb = [p("notebook"), p("resources")]
        for s, x in I.call(st, node, c, [], {}):
            states = [s]
            for k in (0, 1):
                nxt = []
                for s1 in states:
                    nxt += [s2 for s2, _ in call(I, s1, S.root_node(10 * k + 1), x, "preprocess", list(nb))]
                states = nxt
                for j, text in enumerate(texts):
                    nxt = []
                    for s1 in states:
                        for s2, v in call(I, s1, S.root_node(10 * k + 2 + j), x, "filter_output", [const(text)]):
                            out.append((k, j, I.lib.snap(I, s2, v)))
                            nxt.append(s2)
                    states = nxt
            ends += [(s1, x) for s1 in states]
        return ends
    r = deep(lambda: S.run(REPO, cfg, build, ["trappy", "trappy.nbexport", EXPORT]))
    return r, out, cfg.opened


def spelled(t):
    """the text of a term, parts of which are of files"""
    if t.op == "c":
        return str(t.args[1])
    if t.op == "cat":
        return "".join(spelled(a) for a in t.args if isinstance(a, T))
    if t.op == "joined" and len(t.args) == 2 and t.args[0].op == "c" and t.args[1].op == "list":
        return str(t.args[0].args[1]).join(spelled(a) for a in t.args[1].args if isinstance(a, T))
    return "/* FILE */"


def known(t):
    """nothing but the contents of files is unknown of a text"""
    x = re.sub(r"(/\* FILE \*/\s*)+", "/* FILE */", spelled(t))
    return x.count("/* FILE */") <= 1 and x != "/* FILE */"


def used(tree):
    """(names that are used without being declared, the ones that are declared)"""
    use, decl = set(), set()

    def go(n, parent, key):
        if n["type"] == "Identifier":
            if parent is not None and (
                    parent["type"] == "MemberExpression" and key == "property" and not parent.get("computed") or
                    parent["type"] == "Property" and key == "key" and not parent.get("computed")):
                return
            if parent is not None and (parent["type"] == "VariableDeclarator" and key == "id" or
                                       parent["type"] in js.FUNCS and key in ("params", "id")):
                decl.add(n["name"])
                return
            if parent is not None and parent["type"] == "AssignmentExpression" and key == "left":
                decl.add(n["name"])
                return
            use.add(n["name"])
            return
        for k, v in n.items():
            if k == "loc":
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict) and "type" in x:
                    go(x, n, k)
    go(tree, None, None)
    return use - decl, decl


def scripts(text):
    return [m for m in re.findall(r"(?is)<script(?![^>]*\bsrc\s*=)[^>]*>(.*?)</script\s*>", text)]


def sources(text):
    return re.findall(r"""(?i)<script[^>]*\bsrc\s*=\s*["']([^"']*)["']""", text)


def calls(tree, names):
    """how often something of the given globals is called"""
    return sorted((n["callee"]["object"]["name"], n["callee"]["property"].get("name"))
                  for n in js.within(tree) if n["type"] == "CallExpression" and
                  n["callee"]["type"] == "MemberExpression" and n["callee"]["object"].get("name") in names)


def job(kind):
    res = Res()
    module, r, cfg = pages_of(kind)
    res.seen(r.I)
    with open(os.path.join(REPO, SCRIPTS % module), encoding="utf-8") as f:
        tree = js.parse([f.read()])[0]
    defined = globals_of(tree) if tree["type"] != "Error" else set()
    urls = set()
    for src, dst, w in cfg.copied:
        s = tail(src)
        if s.startswith(("http:", "https:")):
            urls.add(s)
    done = set()
    for t, where in cfg.pages:
        page = Page(t)
        text = "\n".join(page.pieces)
        if text in done:
            continue
        done.add(text)
        res.count("pages")
        try:
            r2, out, opened = export([text])
        except AnalysisError as e:
            res.notes.append("exporting isn't understood: %s" % e)
            continue
        res.seen(r2.I)
        before = js.parse(scripts(text))
        for k in (0, 1):
            rs = []
            for x in [x for i, _, x in out if i == k]:
                if not known(x):
                    res.notes.append("exporting isn't understood: %s" % tshow(x)[:200])
                    continue
                rs.append(Res())
                exported(rs[-1], module, kind, text, before, spelled(x), k, where, defined, urls)
            if not rs:
                continue
            res.count("exported")
            # the text is known: if there are several results, it isn't known which one it is
            bad = [{key for key, o in x.obl.items() if not o[0]} for x in rs]
            sure = set.intersection(*bad)
            for x in rs:
                res.notes += x.notes
                for key, (ok, w, m) in x.obl.items():
                    if ok or key in sure:
                        res.ob(key[0], key[1], ok, w, m)
        for path, w in opened:
            if path.op == "c":
                res.ob("imported", "%s: %s" % (module, os.path.relpath(path.args[1], REPO)),
                       os.path.isfile(path.args[1]), w, "exporting a %s reads %s, which isn't there" % (
                           module, os.path.relpath(path.args[1], REPO)))
        mine = [path for path, w in opened if path.op == "c" and
                os.path.relpath(path.args[1], REPO) == SCRIPTS % module]
        if opened and all(path.op == "c" for path, w in opened):
            res.ob("imported", "%s: %s" % (module, kind), bool(mine), FILE,
                   "exporting a %s doesn't import %s" % (module, SCRIPTS % module))
    return res


def exported(res, module, kind, text, before, after, k, where, defined, urls):
    nth = "%s: %s" % (module, kind) + (" in another notebook" if k else "")
    in_nth = " of the second notebook" if k else ""
    bad = [x["message"] for x in before if x["type"] == "Error"]
    trees = js.parse(scripts(after))
    broken = [x["message"] for x in trees if x["type"] == "Error"]
    if bad:
        res.notes.append("%s: the scripts of the page aren't understood: %s" % (nth, bad[0]))
        return
    res.ob("scripts", nth, not broken, where, "an exported script of a %s%s can't be parsed: %s" % (
        module, in_nth, "; ".join(broken)))
    if broken:
        return
    was, had = set(), set()
    for x in before:
        a, b = used(x)
        was |= a
        had |= b
    now, has = set(), set()
    for x in trees:
        a, b = used(x)
        now |= a
        has |= b
    lost = {n for n in now if n in AMD or n in had and n not in has} - has
    res.ob("scripts", "%s: names" % nth, not lost, where,
           "an exported script of a %s%s uses %s, which isn't there" % (module, in_nth, ", ".join(sorted(lost))))
    want = sorted(c for x in before for c in calls(x, defined))
    have = sorted(c for x in trees for c in calls(x, defined))
    res.ob("kept", nth, have == want, where, "an exported %s%s calls %s, not %s" % (
        module, in_nth, ", ".join(".".join(map(str, c)) for c in have) or "nothing",
        ", ".join(".".join(map(str, c)) for c in want)))
    # the data, as it was
    holes = [h for h in re.findall(r"HOLE\d+_", "\n".join(scripts(text)))]
    gone = {h for h in holes if h not in "\n".join(scripts(after))}
    res.ob("kept", "%s: data" % nth, not gone, where, "an exported %s%s lacks %d parts of its data" % (
        module, in_nth, len(gone)))
    # its script before the calls
    first = re.search(r"\b(%s)\s*\.\s*\w+\s*\(" % "|".join(map(re.escape, sorted(defined))), after) if defined else None
    at = after.find("/* FILE */")
    if first:
        res.ob("imported", nth, 0 <= at < first.start(), where,
               "an exported %s%s doesn't have its script before what uses it" % (module, in_nth))
    # the libraries
    src = sources(after)
    for u in sorted(urls):
        res.ob("sourced", "%s: %s" % (nth, u), u in src, where,
               "an exported %s%s doesn't load %s" % (module, in_nth, u))
    for x in before:
        for c in configs(x):
            paths = c.get("paths") or {}

            def url(n):
                for i, s in enumerate(src):
                    if s.rpartition("/")[2] == str(paths.get(n, "")).rpartition("/")[2] + ".js":
                        return i
                return None
            for n, s in sorted((c.get("shim") or {}).items(), key=str):
                for d in s if isinstance(s, list) else (s or {}).get("deps") or []:
                    i, j = url(d), url(n)
                    if i is not None and j is not None:
                        res.ob("sourced", "%s: %s after %s" % (nth, n, d), i < j, where,
                               "an exported %s%s loads %s before %s, which it needs" % (module, in_nth, n, d))


def mixed(first, second):
    """a notebook with plots of two kinds"""
    res = Res()
    texts = []
    for kind in (first, second):
        module, r, cfg = pages_of(kind)
        if not cfg.pages:
            return res
        texts.append("\n".join(Page(cfg.pages[0][0]).pieces))
    where = cfg.pages[0][1]
    with open(os.path.join(REPO, SCRIPTS % module), encoding="utf-8") as f:
        tree = js.parse([f.read()])[0]
    defined = globals_of(tree) if tree["type"] != "Error" else set()
    urls = {tail(src) for src, dst, w in cfg.copied if tail(src).startswith(("http:", "https:"))}
    try:
        r2, out, opened = export(texts)
    except AnalysisError as e:
        res.notes.append("exporting isn't understood: %s" % e)
        return res
    res.seen(r2.I)
    for k in (0, 1):
        got = [[x for i, j, x in out if (i, j) == (k, n)] for n in (0, 1)]
        if not all(got) or not all(known(x) for g in got for x in g):
            res.notes.append("exporting of several plots isn't understood")
            continue
        both = [sources("\n".join(spelled(x[-1]) for x in (got[0], [y]))) for y in got[1]]
        nth = "%s after %s%s" % (second, first, " in another notebook" if k else "")
        for u in sorted(urls):
            res.ob("sourced", "%s: %s" % (nth, u), any(u in b for b in both), where,
                   "an exported %s doesn't load %s, after another plot" % (module, u))
        ok = False
        for y in got[1]:
            after = spelled(y)
            at = [m.start() for n in defined for m in re.finditer(r"\b%s\s*\.\s*\w+\s*[.(]" % re.escape(n), after)]
            ok = ok or not at or 0 <= after.find("/* FILE */") < min(at)
        res.ob("imported", nth, ok, where, "an exported %s after another plot doesn't have its script" % module)
    return res


def cells():
    """the outputs of the cells are filtered"""
    res = Res()

    def build(I, st, node):
        out = []
        for s, x in I.call(st, node, I.glob(EXPORT + ".TrappyPlotterPreprocessor"), [], {}):
            for s2, f in I.load_attr(node, s, x, "preprocess_cell"):
                out += I.call(s2, node, f, [p("cell"), p("resources"), p("index", "int")], {})
        return out
    try:
        r = deep(lambda: S.run(REPO, ExpCfg(), build, ["trappy", "trappy.nbexport", EXPORT]))
    except AnalysisError as e:
        res.notes.append("exporting of cells isn't understood: %s" % e)
        return res
    res.seen(r.I)
    hits = 0
    for ev in r.I.events:
        if ev["kind"] not in ("usetitem", "usetattr"):
            continue
        k = (ev.get("key") or const(ev.get("attr"))).one()
        hits += 1
        if not k or k[0] != "c" or k[2] != "text/html":
            continue
        ts = [a[2] for a in ev["value"].atoms if a[0] == "u"]
        same = [t for t in ts if t.op in ("item", "attr") and ev["term"] is t.args[0]]
        res.ob("cells", "outputs", not same, ev["where"], "the output of a cell is kept as it is")
        res.count("outputs")
    if not hits:
        res.ob("cells", "outputs", not any(e["func"].endswith(".filter_output") for e in r.I.events), FILE,
               "the filtered output of a cell isn't kept")
        res.notes.append("where filtered outputs are kept isn't understood")
    return res


def v04():
    res = pmap(job, [(k,) for k in KINDS])
    res.merge(pmap(mixed, [("count", "default"), ("default", "count")]))
    res.merge(cells())
    return res, dict(
        explanation="The pages of the plots, made by an abstract interpretation of viewing them, are constants but for their "
                    "data; the notebooks' exporter is evaluated on them in the same way, for two notebooks in turn. Of "
                    "what is left, the scripts are parsed: they must not use what was taken away, and make the same "
                    "calls; the libraries and the script that plots load must all be there, in the order they need "
                    "each other, in each notebook.",
        assumptions=["nbconvert calls preprocess once for each notebook and preprocess_cell for each of its cells"],
        floors={})
