"""Scenarios: how the entry points of the repository are entered."""
import ast
import os

from .core import Interp, Frame, Config, Exc
from .values import V, T, Obj, EMPTY, NONE, TRUE, FALSE, const, catom, ref, unk, tup

def allmods(repo):
    """every module of the package"""
    out = []
    for d, dirs, files in os.walk(os.path.join(repo, "trappy")):
        for f in files:
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), repo)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(out)


def root_node(k=0):
    """a call of the scenario (the k-th: an analysed object is known by the call it is made in)"""
    n = ast.parse("scenario()").body[0].value
    n._file = "<scenario>"
    for x in ast.walk(n):
        x._file = "<scenario>"
        x.lineno = k
        x.col_offset = 0
    return n


def push_root(I, st, node):
    fr = Frame()
    fr.func = None
    fr.mod = ("module", "trappy")
    fr.cls = None
    fr.yield_cb = None
    fr.ctx = I.ctxid("root")
    fr.env = ("env", "root")
    fr.node = node
    fr.curexc = []
    fr.scope = None
    fr.rets = []
    fr.loops = []
    fr.name = "<scenario>"
    fr.live = None
    st.put(fr.env, Obj("env", attrs={}))
    I.frames.append(fr)


def param(name, kind=None):
    return unk(T.mk("param", name), kind, frozenset(["P:" + name]))


class Analysed(object):
    """result of an analysed call"""

    def __init__(self, I, exits, raised):
        self.I = I
        self.exits = exits      # [(state, value)]
        self.raised = raised    # [(state, Exc)]
        self.events = I.events


def run(repo, cfg, build, mods=("trappy",)):
    """build(I, st, node) -> list of (state, value): what the scenario does"""
    from .core import PHIS
    PHIS.clear()
    I = Interp(repo, cfg)
    I.load([m for m in mods])
    st = I.fresh()
    node = root_node()
    push_root(I, st, node)
    I.sinks = [[]]
    I.events = []
    exits = build(I, st, node)
    I.frames.pop()
    return Analysed(I, exits, I.sinks[-1])


def set_registries(I, st, clsname, regs):
    """replace the registries of GenericFTrace by representative classes

    regs: {"thermal": [(name, class dotted)], ...}"""
    g = I.glob("trappy.ftrace.GenericFTrace").one()[1]
    o = st.get(g)
    attrs = dict(o.attrs)
    for scope in ("thermal", "sched", "dynamic"):
        v = o.attrs[scope + "_classes"]
        d = v.one()[1]
        ents = {}
        for name, dotted in regs.get(scope, ()):
            ents[catom(name)] = I.glob(dotted)
        do = st.get(d).copy()
        do.entries = ents
        do.summ = None
        st.put(d, do)


def ctor(repo, cfg, cls, regs, disable_cache, scope="all", extra=None,
         mods=("trappy",), prepare=None):
    def build(I, st, node):
        if prepare:
            prepare(I, st)
        set_registries(I, st, cls, regs)
        c = I.glob(cls)
        o = st.get(c.one()[1]).copy()
        o.attrs = dict(o.attrs)
        o.attrs["disable_cache"] = TRUE if disable_cache else FALSE
        st.put(c.one()[1], o)
        win = tup([param("window0"), param("window1")])
        awin = tup([param("abs_window0"), param("abs_window1")])
        kw = {"name": param("name", "str"),
              "normalize_time": param("normalize_time"),
              "scope": const(scope) if scope else param("scope", "str"),
              "events": I.newlist(st, node, [], None),
              "window": win, "abs_window": awin}
        kw.update(extra or {})
        return I.call(st, node, c, [param("path", "str")], kw)
    return run(repo, cfg, build, mods)
