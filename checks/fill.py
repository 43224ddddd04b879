"""Gaps in data are filled in the order of time: F01."""
import signal

from sa.values import T
from sa.core import AnalysisError
from sa.report import Res, pmap
from . import effects
from .effects import *
from .query import kwargs, tshow, none

FILL = {"ffill", "bfill", "pad", "backfill", "interpolate"}
METHODS = {"pad", "ffill", "bfill", "backfill", "nearest"}
KEEP = {"copy", "astype", "fillna", "ffill", "bfill", "pad", "backfill", "interpolate", "round", "abs", "isin",
        "dropna", "head", "tail", "drop", "drop_duplicates", "swaplevel", "rename", "where", "mask", "clip",
        "replace", "applymap", "map", "transform", "shift", "diff", "cumsum", "cumprod", "cummax", "between",
        "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "truncate", "query", "squeeze",
        "to_frame", "duplicated", "reindex_like", "infer_objects", "notnull", "isnull", "rolling"}
ARITH = {"Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "BitAnd", "BitOr", "Lt", "Eq", "not", "Invert"}


class Order(object):
    """whether the index of what a term stands for increases: False only if it evidently needn't"""

    def __init__(self, unknown=()):
        self.memo = dict.fromkeys(unknown)

    def sorted(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._sorted(t)
        return self.memo[t]

    def all(self, ts):
        rs = [self.sorted(x) for x in ts]
        return False if False in rs else None if None in rs else True

    def _sorted(self, t):
        if t.op == "join":
            return self.all(t.args)
        if t.op == "attr" and t.args[1] in ("index", "values", "T"):
            return self.sorted(t.args[0])
        if t.op == "attr" and t.args[1] == "data_frame":
            return True
        if t.op == "mapped":
            return self.sorted(t.args[0])
        if t.op in ARITH:
            return self.all([x for x in t.args if isinstance(x, T)])
        if t.op in ("item", "locitem"):
            k = t.args[1]
            if k.op == "slice" and len(k.args) > 2 and k.args[2].op == "c" and \
                    isinstance(k.args[2].args[1], int) and k.args[2].args[1] < 0:
                return False
            if t.op == "locitem" and k.op == "list":
                return None
            return self.sorted(t.args[0])
        if t.op == "mcall":
            return self.method(t)
        if t.op == "call":
            return self.call(t)
        return None

    def method(self, t):
        if len(t.args) < 2 or not isinstance(t.args[1], T):
            return None
        name, o = t.args[0], t.args[1]
        if name in KEEP:
            return self.sorted(o)
        if name == "sort_index":
            kw = kwargs(t, ("axis", "level", "ascending"))
            if is_false(kw.get("ascending")):
                return False
            if across(kw.get("axis")):
                return self.sorted(o)
            return True
        if name == "sort_values":
            kw = kwargs(t, ("by",))
            return None if "by" in kw and kw["by"].op == "c" and kw["by"].args[1] == "Time" else False
        if name == "reindex":
            kw = kwargs(t, ("index", "columns"))
            if "labels" in kw:
                return self.sorted(kw["labels"])
            return self.sorted(kw["index"]) if "index" in kw else self.sorted(o)
        if name in ("union", "symmetric_difference"):
            return None if is_false(kwargs(t, ("other", "sort")).get("sort")) else True
        if name in ("append", "set_index", "sample"):
            return False
        if name == "reset_index":
            return True
        if name == "unique":
            return self.sorted(o)
        return None

    def call(self, t):
        f = t.args[0]
        pos = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in t.args[1:] if isinstance(x, T) and x.op == "kw"}
        if f == "pandas.concat":
            objs = pos[0] if pos else kw.get("objs")
            axis = pos[1] if len(pos) > 1 else kw.get("axis")
            if objs is None:
                return None
            parts = elements(objs)
            if across(axis):
                if is_true(kw.get("sort")):
                    return True
                if parts is None:
                    return None
                many = [x for x in parts if not empty(x)]
                idx = {self.index(x) for x, _ in many}
                if not many or (len(idx) == 1 and None not in idx and not any(e and row_loss(x) for x, e in many)):
                    return self.all([x for x, _ in many])
                if len(many) == 1 and not many[0][1]:
                    return self.sorted(many[0][0])
                if is_true(kw.get("ignore_index")):
                    return None
                if "join" in kw and kw["join"].op == "c" and kw["join"].args[1] == "inner":
                    return self.all([x for x, _ in many])
                return False
            if axis is not None and axis.op != "c":
                return None
            if is_true(kw.get("ignore_index")):
                return True
            if parts is None:
                return None
            if len(parts) == 1 and not parts[0][1]:
                return self.sorted(parts[0][0])
            return False
        if f in ("pandas.DataFrame", "pandas.Series") and pos:
            if "index" in kw:
                return self.sorted(kw["index"])
            if len(pos) > 1:
                return self.sorted(pos[1])
            if pos[0].op == "dict":
                return True
            return self.sorted(pos[0])
        if f in ("numpy.unique", "sorted", "numpy.sort", "numpy.arange", "range", "numpy.linspace", "numpy.union1d"):
            return True
        if f in ("pandas.Index", "numpy.array", "pandas.unique", "list", "numpy.asarray") and pos:
            return False if pos[0].op == "call" and pos[0].args[0] in ("set", "frozenset") else self.sorted(pos[0])
        if f == "set":
            return False
        if f in ("numpy.concatenate", "numpy.append", "numpy.hstack"):
            return False
        return None

    def index(self, t):
        """what the index of a term is that of (None: not known)"""
        if t.op == "mcall":
            if t.args[0] == "reindex":
                return kwargs(t, ("index",)).get("index") or self.index(t.args[1])
            if t.args[0] in KEEP and t.args[0] not in (
                    "dropna", "head", "tail", "drop", "drop_duplicates", "truncate", "query"):
                return self.index(t.args[1])
            return None
        if t.op == "item" and t.args[1].op in ("c", "list", "param"):
            return self.index(t.args[0])
        if t.op == "mapped":
            return self.index(t.args[0])
        if t.op in ARITH:
            ix = {self.index(x) for x in t.args if isinstance(x, T) and x.op != "c"}
            return ix.pop() if len(ix) == 1 else None
        return t


def row_loss(t):
    return False


def empty(x):
    return x[0].op == "call" and x[0].args[0] in ("pandas.DataFrame", "pandas.Series") and len(x[0].args) == 1


def elements(t):
    """[(element, it stands for several)] of a list or dictionary"""
    if t.op in ("list", "tuple"):
        return [(x.args[-1], True) if x.op == "each" else (x, False) for x in t.args]
    if t.op == "dict":
        return [(x.args[-1], x.op == "each") for x in t.args]
    if t.op == "call" and t.args[0] in ("list", "tuple") and len(t.args) == 2:
        return elements(t.args[1])
    return None


def is_true(t):
    return t is not None and t.op == "c" and t.args[1] is True


def is_false(t):
    return t is not None and t.op == "c" and t.args[1] is False


def across(t):
    return t is not None and t.op == "c" and t.args[1] in (1, "columns") and t.args[1] is not True


class FillConfig(EffectsConfig):
    symbolic = True

    def __init__(self, lines=False):
        EffectsConfig.__init__(self, lines)
        self.fills = {}
        self.inplace = set()

    def on_event(self, I, st, node, kind, data):
        if kind == "mcall":
            t = data["term"]
            name = data["name"]
            if name == "sort_index" and len(t.args) > 1 and is_true(kwargs(t, ()).get("inplace")):
                self.inplace.add(t.args[1])
            kw = kwargs(t, ("index",) if name == "reindex" else ("value", "method"))
            m = kw.get("method")
            if name in FILL or (name in ("fillna", "reindex") and m is not None and not none(m) and (
                    m.op != "c" or m.args[1] in METHODS)):
                self.fills[(I.where(node), I.frames[-1].name, name, t)] = True


# the same plots of several traces take too long to follow term by term
SKIP = {"ILinePlot:traces"}
BUDGET = 150


def _job(fn, args):
    def late(*_):
        raise AnalysisError("took too long")
    res, cfgs = Res(), []
    depth, plain = T.MAXDEPTH, effects.EffectsConfig

    def config(lines=False):
        cfgs.append(FillConfig(lines))
        return cfgs[-1]
    T.MAXDEPTH, effects.EffectsConfig = 30, config
    signal.signal(signal.SIGALRM, late)
    signal.alarm(BUDGET)
    try:
        sw, info = fn(*args)
    except AnalysisError as e:
        res.count("entry points not analysed")
        res.notes.append("not analysed: %s%r: %s" % (fn.__name__, args, e))
        return res
    finally:
        signal.alarm(0)
        T.MAXDEPTH, effects.EffectsConfig = depth, plain
    res.merge(sw.res["R04"])
    res.obl = {}
    for cfg in cfgs:
        order = Order(cfg.inplace)
        for where, func, name, t in cfg.fills:
            res.count("fills")
            ok = order.sorted(t.args[1]) if len(t.args) > 1 and isinstance(t.args[1], T) else None
            if ok is None:
                res.count("fills of data whose order isn't known")
            key = "%s:%s" % (func, name)
            res.ob("order of the filled data", key, ok is not False, where,
                   "missing values are filled from the rows next to them, in data whose rows may not be in "
                   "the order of time: " + str(t)[:300])
    return res


def jobs():
    out = []
    ss = steps()
    for fn, args in effects.jobs():
        if fn is effects._steps and ss[args[0]].key in SKIP:
            continue
        out.append((fn, args))
    return out


def f01():
    res = pmap(_job, jobs())
    if res.counts.get("entry points not analysed", 0) > 8:
        raise AnalysisError("; ".join(res.notes))
    return res, dict(
        explanation="the public classes and functions are evaluated abstractly, as in R02-R04, with every "
        "value kept as the expression it was computed with; wherever missing values are filled from the "
        "values next to them (fillna with a method, ffill, bfill, interpolate, reindex with a method), the "
        "expression is followed to see whether its rows are in the order of their index: an outer join of "
        "objects with different indexes is only if it's sorted, and so on",
        assumptions=["the data of events is in the order of time (that is checked by P01-P03 and C08)",
                     "rows whose order isn't known are counted, and give no alarm"],
        floors={"order of the filled data": 4})
