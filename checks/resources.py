"""What interactive plots load: V03."""
import os
import re

from sa import js, scenario as S
from sa.core import AnalysisError
from sa.report import Res, pmap, REPO
from sa.values import T, const
from .page import PageCfg, Page, MODS, SCRIPTS, event_plot, line_plot, is_c
from .query import p, tshow

FETCH = {"urlretrieve": 1, "copy": 1, "copyfile": 1, "copy2": 1, "move": 1, "symlink": 1}
CONF = "trappy.plotter.IPythonConf"
PUBLISH = "scripts.publish_interactive_plots"
DIR = "plotter_scripts/"


class ResCfg(PageCfg):
    """a current IPython; keeps what is copied where"""

    def __init__(self):
        PageCfg.__init__(self)
        self.copied = []

    def truth(self, I, st, a, labels):
        if a[0] == "u" and any("IPython.__version__" in repr(x) for x in a[2].subs()):
            if a[2].op == "Lt":
                return False
            if a[2].op == "not" and a[2].args[0].op == "Lt":
                return True
        return PageCfg.truth(self, I, st, a, labels)

    def call_hook(self, I, st, node, f, args, kw):
        name = f[1].rpartition(".")[2] if f[0] == "x" else ""
        if name in FETCH:
            vals = [I.lib.snap(I, st, getattr(a, "v", a)) for a in args]
            for k in ("filename", "dst"):
                if k in kw:
                    vals.append(I.lib.snap(I, st, kw[k]))
            if len(vals) >= 2:
                self.copied.append((vals[0], vals[1], I.where(node)))
        return PageCfg.call_hook(self, I, st, node, f, args, kw)


def tail(t):
    """the end of a path that is known"""
    if t.op == "c":
        return str(t.args[1])
    if t.op in ("pjoin", "cat", "call", "join"):
        out = []
        for a in reversed(t.args):
            if not (isinstance(a, T) and a.op == "c" and isinstance(a.args[1], str)):
                break
            out.append(a.args[1])
        sep = "" if t.op == "cat" else "/"
        return sep.join(reversed(out))
    return ""


def literals(tree):
    out = []
    for n in js.within(tree):
        t = text_of(n)
        if t is not None:
            out.append((t, n["loc"]["start"]["line"]))
    return out


def text_of(n):
    """the constant text of an expression"""
    if n["type"] == "Literal" and isinstance(n.get("value"), str):
        return n["value"]
    if n["type"] == "BinaryExpression" and n["operator"] == "+":
        l, r = text_of(n["left"]), text_of(n["right"])
        return None if l is None or r is None else l + r
    return None


def configs(tree):
    """the objects require.js is configured with"""
    for n in js.within(tree):
        if n["type"] == "CallExpression" and n["callee"]["type"] == "MemberExpression" and \
                n["callee"]["property"].get("name") == "config" and n["arguments"] and \
                n["arguments"][0]["type"] == "ObjectExpression":
            yield plain(n["arguments"][0])


def plain(n):
    """the value of a literal"""
    if n["type"] == "ObjectExpression":
        return {x["key"].get("name", x["key"].get("value")): plain(x["value"]) for x in n["properties"]
                if x["type"] == "Property"}
    if n["type"] == "ArrayExpression":
        return [plain(x) for x in n["elements"] if x]
    return n.get("value")


def required(tree):
    """[names] that are required"""
    for n in js.within(tree):
        if n["type"] == "CallExpression" and n["callee"]["type"] == "Identifier" and n["arguments"] and \
                n["arguments"][0]["type"] == "ArrayExpression" and len(n["arguments"]) > 1:
            v = plain(n["arguments"][0])
            if all(isinstance(x, str) for x in v):
                yield v


def globals_of(tree):
    out = set()
    for s in tree["body"]:
        if s["type"] == "VariableDeclaration":
            out |= {d["id"].get("name") for d in s["declarations"]}
        if s["type"] == "FunctionDeclaration":
            out.add(s["id"]["name"])
        if s["type"] == "ExpressionStatement" and s["expression"]["type"] == "AssignmentExpression":
            left = s["expression"]["left"]
            out.add(left.get("name") or left.get("property", {}).get("name"))
    return out


def job(module):
    res = Res()
    cfg = ResCfg()
    old, T.MAXDEPTH = T.MAXDEPTH, 60
    try:
        build = (lambda I, st, node: event_plot(I, st, node, "count")) if module == "EventPlot" else \
            (lambda I, st, node: line_plot(I, st, node, {}, test=False))
        r = S.run(REPO, cfg, build, MODS[module])
    finally:
        T.MAXDEPTH = old
    res.seen(r.I)
    there, origin = set(), {}
    for src, dst, w in cfg.copied:
        d = tail(dst)
        s = tail(src)
        if DIR in d:
            there.add(d[d.index(DIR):])
            origin[d[d.index(DIR):]] = s
        if s and not s.startswith(("http:", "https:")) and os.path.isabs(s):
            rel = os.path.relpath(s, REPO)
            res.ob("local", rel, os.path.isfile(s), w, "%s is installed with the plots, and isn't there" % rel)
    res.count("installed", len(there))
    if not there:
        res.notes.append("%s: what is installed isn't understood" % module)
    with open(os.path.join(REPO, SCRIPTS % module), encoding="utf-8") as f:
        src = f.read()
    tree = js.parse([src])[0]
    if tree["type"] == "Error":
        raise AnalysisError(tree["message"])
    for v, line in literals(tree):
        if v.startswith(DIR) and "." in v.rpartition("/")[2] and there:
            res.ob("installed", v, v in there, "%s:%d" % (SCRIPTS % module, line),
                   "the script loads %s, which isn't installed" % v)
    loaded = {}
    for t, where in cfg.pages[:1]:
        page = Page(t)
        # parts of the page of which scripts are copies
        for m in re.findall(r'TRAPPY_PUBLISH_IMPORT\s*=\s*"([^"]*)"', "\n".join(page.pieces)):
            res.ob("local", m, os.path.isfile(os.path.join(REPO, "trappy", m)), where,
                   "the page imports trappy/%s, which isn't there" % m)
        for tr in js.parse(page.scripts()):
            if tr["type"] == "Error":
                res.notes.append("%s: a script isn't understood: %s" % (module, tr["message"]))
                continue
            paths, cfgs = {}, list(configs(tr))
            for c in cfgs:
                if isinstance(c.get("paths"), dict):
                    paths.update(c["paths"])
            for name, path in sorted(paths.items(), key=str):
                if not isinstance(path, str) or DIR not in path:
                    continue
                loaded[name] = path
                rel = path[path.index(DIR):] + ".js"
                if there:
                    res.ob("installed", rel, rel in there, where,
                           "%s: the page loads %s, which isn't installed" % (module, rel))
            if not paths:
                continue
            for names in required(tr):
                for n in names:
                    res.ob("named", "%s requires %s" % (module, n), n in paths or n in ("require", "exports", "module"),
                           where, "%s: the page requires %s, which has no path" % (module, n))
            for c in cfgs:
                for n, s in sorted((c.get("shim") or {}).items(), key=str):
                    deps = s if isinstance(s, list) else (s or {}).get("deps") or []
                    for d in [n] + deps:
                        res.ob("named", "%s depends on %s" % (n, d), d in paths, where,
                               "%s: the page names %s, which has no path" % (module, d))
                    e = s.get("exports") if isinstance(s, dict) else None
                    if e and str(paths.get(n, "")).endswith("/" + module):
                        res.ob("named", "%s exports %s" % (n, e), e in globals_of(tree), where,
                               "%s: the page takes %s for what the script defines" % (module, e))
            # the plots' script comes after what it uses
    res.count("paths", len(loaded))
    publish(res, module, loaded, origin)
    return res


def publish(res, module, loaded, origin):
    """what publishing makes of the paths"""
    if not os.path.isfile(os.path.join(REPO, PUBLISH.replace(".", "/") + ".py")):
        return
    out = []

    def build(I, st, node):
        f = I.glob(PUBLISH + ".change_resource_paths")
        vs = I.call(st, node, f, [p("txt", "str")], {})
        out.extend(I.lib.snap(I, s, v) for s, v in vs)
        return vs
    old, T.MAXDEPTH = T.MAXDEPTH, 200
    try:
        r = S.run(REPO, ResCfg(), build, ["trappy", "trappy.plotter", CONF, PUBLISH])
    except AnalysisError as e:
        res.notes.append("publishing isn't understood: %s" % e)
        return
    finally:
        T.MAXDEPTH = old
    res.seen(r.I)
    for t in out:
        reps = chain(t)
        if reps is None:
            res.notes.append("publishing isn't understood: %s" % tshow(t)[:300])
            continue
        for name, path in sorted(loaded.items(), key=str):
            x = path
            for a, b in reps:
                x = x.replace(a, b)
            k = "%s: %s" % (module, name)
            w = PUBLISH.replace(".", "/") + ".py"
            res.ob("published", k, re.match(r"https?://[^/]", x) is not None, w,
                   "a published %s loads %s from %s" % (module, name, x))
            o = origin.get(path[path.index(DIR):] + ".js", "")
            if o.startswith("http"):
                res.ob("published", k, x + ".js" == o or x == o, w,
                       "a published %s loads %s from %s, not from %s" % (module, name, x, o))
            else:
                res.ob("published", k, x.rpartition("/")[2] == path.rpartition("/")[2], w,
                       "a published %s loads %s from %s, which is another file" % (module, name, x))
            res.ob("published", k, not x.endswith(".js"), w,
                   "a published %s loads %s from %s.js: require.js adds the extension" % (module, name, x))


def chain(t):
    """the replacements of a text, or None"""
    out = []
    while not (t.op == "param"):
        if t.op == "mcall" and t.args[0] == "replace" and len(t.args) == 4:
            a, b = t.args[2:]
            t = t.args[1]
        elif t.op == "replace" and len(t.args) == 3:
            a, b = t.args[1:]
            t = t.args[0]
        else:
            return None
        if not (a.op == "c" and b.op == "c" and isinstance(a.args[1], str) and isinstance(b.args[1], str)):
            return None
        out.append((a.args[1], b.args[1]))
    return out[::-1]


def v03():
    res = pmap(job, [("EventPlot",), ("ILinePlot",)])
    return res, dict(
        explanation="The pages of the plots are made by an abstract interpretation of viewing them; their scripts are "
                    "parsed for the paths require.js is configured with and the names that are required. Every path "
                    "must be of a file that viewing the plot installs, every name must have a path, and publishing, "
                    "as a chain of replacements, must make of each path a public URL without extension.",
        assumptions=["require.js adds .js to the paths it's configured with, as it documents",
                     "whether the public URLs exist isn't checked"],
        floors=dict(installed=1))
