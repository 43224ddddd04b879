"""Windows and time normalisation: C07, C08."""
from .ctorlib import *
from sa.core import PHIS
from .ctor_cache import SCEN

WIN = ("window0", "window1", "abs_window0", "abs_window1")
LOWS = ("window0", "abs_window0")
CMPS = ("Lt", "LtE", "Gt", "GtE")


def params_in(t):
    return {s.args[0] for s in t.subs() if s.op == "param"}


BT = T.mk("basetime")


def is_df_len(t):
    return t.op == "len" and isinstance(t.args[0], T) and t.args[0].op == "obj"


class WinConfig(CtorConfig):
    """frames aren't empty, a lower bound isn't 0 (else it doesn't restrict anything)"""
    softs = ("hist-hard",)
    cls = None
    faults = False
    _key = None

    def raises(self, I, st, node, what, labels, argterms):
        """some events aren't in the cache"""
        if self.faults and what == "read_csv":
            return ("ValueError",)
        return ()

    def __init__(self, *a):
        CtorConfig.__init__(self, *a)
        self._parts = {}

    def hard_fact(self, f):
        t = f[1]
        if f[0] != "T" or t.op not in CMPS:
            return False
        return bool(params_in(t) & set(WIN))

    def partition(self, st):
        """whether the base time still has its initial value"""
        o = st.heap.get(self._key) if self._key is not None else None
        if o is None:
            for oid, o in st.heap.items():
                if o.kind == "inst" and "trace_classes" in o.attrs:
                    self._key = oid
                    break
            else:
                return ()
        r = self._parts.get(id(o))
        if r is not None and r[0] is o:
            return r[1]
        key = []
        for n, v in o.attrs.items():
            if n != "basetime":
                continue
            cs = set()
            for a in v.atoms:
                if a[0] == "c" and isinstance(a[2], (int, float)) and \
                        not isinstance(a[2], bool):
                    cs.add("c")
                elif a[0] == "t":
                    cs.add("t")
                else:
                    cs.add("x")
            key.append((n, tuple(sorted(cs))))
        r = tuple(sorted(key))
        if len(self._parts) > 5000:
            self._parts.clear()
        self._parts[id(o)] = (o, r)
        return r

    def parsing(self, st):
        """a text file other than the cache's is open"""
        for o in st.heap.values():
            if o.kind == "file" and o.x.get("open") and "b" not in (o.x.get("mode") or ""):
                p = o.x.get("path")
                if p is not None and not any(self.is_cache(t) for t in terms_of(p)):
                    return True
        return False

    def truth(self, I, st, atom, labels):
        r = CtorConfig.truth(self, I, st, atom, labels)
        if r is not None or atom[0] != "u":
            return r
        t = atom[2]
        neg = False
        while t.op == "not":
            t, neg = t.args[0], not neg
        if self.df_term(st, t):
            return True ^ neg
        if t.op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") and len(t.args) == 2:
            a, b = t.args
            op = t.op
            if isinstance(a, T) and a.op == "c" and isinstance(b, T):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if isinstance(a, T) and self.df_term(st, a) and b.op == "c" and \
                    b.args[-1] in (0, 1):
                one = b.args[-1] == 1
                r = {"Lt": False, "LtE": False if not one else None, "Gt": True if not one
                     else None, "GtE": True, "Eq": None if one else False,
                     "NotEq": None if one else True}[op]
                if r is not None:
                    return r ^ neg
        if t is BT or t == BT:
            return True ^ neg
        if self.parsing(st):
            return None
        ps = params_in(t)
        if t.op in ("max", "min", "Add", "Sub", "Mult", "Div", "item", "phi", "param",
                    "float", "ts", "join", "nextup", "basetime"):
            if ps & {"window1", "abs_window1"}:
                return None
            if ps & set(LOWS) or self.numeric(t, labels):
                return True ^ neg
        return None

    def call_hook(self, I, st, node, f, args, kw):
        """the time of a line is an opaque number"""
        if f[0] == "x" and f[1] in ("builtins.float", "float") and len(args) == 1 and \
                isinstance(args[0], V) and "F:timestamp" in args[0].labels:
            v = args[0]
            return [(st, V((("u", "float", T.mk("ts", str(I.site(node)))),), v.labels))]
        if f[0] == "x" and f[1].endswith(".nextafter") and all(
                isinstance(v, V) for v in args):
            ls = frozenset(["F:timestamp"]).union(*[v.labels for v in args])
            return [(st, V((("u", "float", T.mk("ts", str(I.site(node)))),), ls))]
        return None

    def attr_read(self, I, st, node, objatom, name, v):
        """the base time found while parsing is one number, whatever its origin"""
        if name == "basetime" and v.atoms and all(
                a[0] == "u" and not has_op(a[2], "json") for a in v.atoms):
            return V((("u", "float", BT),), v.labels)
        return v

    def df_term(self, st, t):
        if t.op != "len":
            return False
        a = t.args[0]
        return isinstance(a, T) and (a.op in ("obj", "ref", "df") or "df" in repr(a) or
                                     "series" in repr(a) or "index" in repr(a))

    def numeric(self, t, labels):
        """the base time: an item of the metadata or a timestamp"""
        if t.op == "item" and has_op(t, "json"):
            return True
        return any(str(l).startswith("F:timestamp") for l in labels)


# ------------------------------------------------------------ linear forms

def lin(t, bts):
    """{atom: coefficient} of a term; the base time is 'BT'"""
    if t in bts:
        return {"BT": 1}
    if t.op == "c" and isinstance(t.args[-1], (int, float)):
        return {"1": t.args[-1]} if t.args[-1] else {}
    if t.op in ("Add", "Sub") and len(t.args) == 2:
        a, b = lin(t.args[0], bts), lin(t.args[1], bts)
        out = dict(a)
        for k, n in b.items():
            out[k] = out.get(k, 0) + (n if t.op == "Add" else -n)
            if not out[k]:
                del out[k]
        return out
    if t.op == "join":
        fs = {fz(lin(a, bts)) for a in t.args if isinstance(a, T)}
        if len(fs) == 1:
            return dict(fs.pop())
        return {t: 1}
    if t.op == "float" and isinstance(t.args[0], T):
        return lin(t.args[0], bts)
    return {t: 1}


def fz(d):
    return frozenset(d.items())


def extr(t, bts, op):
    """{linear forms} whose maximum (minimum) t is"""
    if t.op == op or t.op == "f" + op:
        out = set()
        for a in t.args:
            if isinstance(a, T):
                out |= extr(a, bts, op)
        return out
    return {fz(lin(t, bts))}


def basetimes(o):
    """the terms that are the base time"""
    out = {BT}
    bt = o.attrs.get("basetime")
    todo = terms_of(bt) + [term(bt)] if bt is not None else []
    while todo:
        t = todo.pop()
        if t in out or t.op == "c":
            continue
        out.add(t)
        for a in PHIS.get(t, ()):
            if a[0] == "u":
                todo.append(a[2])
    return out


def le_facts(facts, bts):
    """{(x, y)}: linear forms known to be x <= y"""
    out = set()
    for f in facts:
        if f[0] != "T" or f[1].op not in CMPS or len(f[1].args) != 2:
            continue
        op, (a, b), val = f[1].op, f[1].args, f[2]
        if not isinstance(a, T) or not isinstance(b, T):
            continue
        a, b = fz(lin(a, bts)), fz(lin(b, bts))
        if op in ("Gt", "GtE"):
            a, b = b, a
        # now a <(=) b
        if val:
            out.add((a, b))
        else:
            out.add((b, a))
    return out


def values(v):
    """the terms a bound may be; loop-carried ones are what flows into them"""
    out, seen = [], set()
    todo = [(a, 0) for a in v.atoms]
    while todo:
        a, d = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        if a[0] == "u" and a[2].op == "phi" and a[2] in PHIS and d < 5:
            todo += [(b, d + 1) for b in PHIS[a[2]]]
            continue
        out.append(a)
    return out


def bounds(hist):
    """[(kind, V, offset terms)] lower and upper bounds applied; None: not a window"""
    lows, highs, other = [], [], []
    shifts = []
    for h in hist:
        if h[0] == "window":
            if h[1] != NONE_V:
                lows.append((h[1], tuple(shifts)))
            if h[2] != NONE_V:
                highs.append((h[2], tuple(shifts)))
        elif h[0] == "mask":
            for op, v in h[1:]:
                if op == "GtE":
                    lows.append((v, tuple(shifts)))
                elif op == "LtE":
                    highs.append((v, tuple(shifts)))
                else:
                    other.append(h)
        elif h[0] == "shift":
            shifts.append(h)
        elif h[0] in ("setindex", "setcol"):
            pass
        else:
            other.append(h)
    return lows, highs, shifts, other


NONE_V = const(None)


def _run(cls, isdir, dat, norm, w1, a1, regs, faults=False):
    cfg = WinConfig(isdir, dat, {"normalize_time": norm})
    cfg.faults = faults
    cfg.cachepaths, _ = cache_paths(cls, dict(isdir=isdir, dat=dat), regs)
    cfg.cls = cls
    from sa.values import tup

    def fl(n):
        return V((("u", "float", T.mk("param", n)),), frozenset(["P:" + n]))
    win = tup([fl("window0"), fl("window1") if w1 else NONE_V])
    awin = tup([fl("abs_window0"), fl("abs_window1") if a1 else NONE_V])
    return S.ctor(REPO, cfg, cls, regs, False,
                  extra={"window": win, "abs_window": awin}), cfg


def each_frame(r):
    for s, v in r.exits:
        o, insts = trace_insts(s, v)
        for i in insts:
            for d in frames_of(s, i):
                h = d.x.get("hist") if d is not None else None
                if h and h[0][0] in ("cache", "built"):
                    yield s, o, clsname(s, i), h


def _c07(cls, isdir, dat, norm, which=0):
    res = Res()
    regs = (ONE, TWO, registries())[which]
    r, cfg = _run(cls, isdir, dat, norm, True, True, regs, bool(which))
    res.seen(r.I)
    sc = cls.rpartition(".")[2]
    for s, o, name, h in each_frame(r):
        bts = basetimes(o)
        lows, highs, shifts, other = bounds(h[1:])
        key = "%s:%s:%s:normalize_time=%s" % (sc, name, h[0][0], norm)
        res.count("frames_at_exits")
        if norm:
            ok = len(shifts) == 1 and shifts[0][1] == "Sub" and shifts[0][2] in bts
            res.ob("normalised-exactly-once", key, ok, "trappy/base.py",
                   "the times of the events aren't shifted by exactly the base time "
                   "(%d shifts)" % len(shifts))
        else:
            res.ob("not-normalised", key, not shifts, "trappy/base.py",
                   "the times of the events are shifted although normalize_time is False")
        res.ob("window-applied", key, bool(lows) and bool(highs), "trappy/ftrace.py",
               "the events aren't limited to the window")
        res.ob("no-other-rows-dropped", key, not other, "trappy/ftrace.py",
               "events are dropped or changed by something that isn't the window: %r" % (
                   other[:1],))
        nt = o.attrs.get("normalized_time")
        if nt is not None and norm:
            res.ob("normalized_time-flag", key, nt.one() == const(True).one(), "trappy/bare_trace.py",
                   "the trace doesn't say that it's normalised")
    return res





def c07():
    args = [s + (n,) for s in SCEN for n in (True, False)]
    args += [(TRACES[0], False, False, n, 1) for n in (True, False)]
    if deep():
        args += [s + (n, 1) for s in SCEN for n in (True, False)]
    res = pmap(_c07, args)
    return res, dict(
        explanation="history analysis of every event frame of an opened trace: on each "
        "path (from the cache or parsed, each kind of trace), the window limits the rows, "
        "nothing else drops any, and the times are shifted exactly once by the base time "
        "if normalize_time and never otherwise",
        assumptions=["the trace has a line before each event, so its base time isn't 0"],
        floors={"normalised-exactly-once": 4, "not-normalised": 4, "window-applied": 8})


def describe(fs):
    return "{%s}" % ", ".join(sorted(
        "+".join(sorted(k if isinstance(k, str) else repr(k) if k.op == "param" else short(k)
                        for k, _ in f)) for f in fs))


def _c08(cls, isdir, dat, w1, a1):
    res = Res()
    r, cfg = _run(cls, isdir, dat, True, w1, a1, ONE)
    res.seen(r.I)
    sc = cls.rpartition(".")[2]
    P = lambda n: T.mk("param", n)
    bt = {"BT": 1}
    elow = {fz({P("window0"): 1, "BT": 1}), fz({P("abs_window0"): 1})}
    ehigh = set()
    if w1:
        ehigh.add(fz({P("window1"): 1, "BT": 1}))
    if a1:
        ehigh.add(fz({P("abs_window1"): 1}))
    for s, o, name, h in each_frame(r):
        bts = basetimes(o)
        le = le_facts(s.facts, bts)
        lows, highs, shifts, other = bounds(h[1:])
        key = "%s:%s:window end %s, abs_window end %s" % (
            sc, h[0][0], "set" if w1 else "None", "set" if a1 else "None")
        for what, got, exp, op in (("low", lows, elow, "max"), ("high", highs, ehigh, "min")):
            # every combination of the alternatives of each bound
            alts = [[]]
            for v, sh in got:
                opts = []
                for a in values(v):
                    if a[0] == "c" and a[2] is None:
                        opts.append(frozenset())
                        continue
                    fs = extr(aterm(a), bts, op)
                    for x in sh:
                        # applied after a shift: relative to the base time
                        d = lin(x[2], bts)
                        n = set()
                        for f in fs:
                            g = dict(f)
                            for k, c in d.items():
                                g[k] = g.get(k, 0) + (c if x[1] == "Sub" else -c)
                                if not g[k]:
                                    del g[k]
                            n.add(fz(g))
                        fs = n
                    opts.append(frozenset(fs))
                alts = [al + [op_] for al in alts for op_ in opts][:64]
            good = True
            why = ""
            for al in alts:
                have = set().union(*al) if al else set()
                extra = have - exp
                miss = set()
                for e in exp - have:
                    if op == "max":
                        okk = any((e, x) in le for x in have)
                    else:
                        okk = any((x, e) in le for x in have)
                    if not okk:
                        miss.add(e)
                if extra or miss:
                    good = False
                    why = "bounds %s instead of the %simum of %s" % (
                        describe(have), op, describe(exp))
            res.count("bounds_at_exits")
            res.ob("window-%s-bound" % what, key, good, "trappy/ftrace.py", why)
        strict = [x for x in other if x[0] == "mask"]
        res.ob("window-inclusive", key, not strict, "trappy/ftrace.py",
               "an end of the window isn't inclusive")
    return res


def c08():
    args = [s + (a, b) for s in SCEN for a in (True, False) for b in (True, False)]
    res = pmap(_c08, args)
    return res, dict(
        explanation="symbolic interval analysis: on every path (cache or parsed) the bounds "
        "that the frames are sliced with are brought to a canonical form (maximum or minimum "
        "of linear forms over the parameters and the base time) and compared with the "
        "intersection of both windows; ends that are None don't limit, other ends (0 "
        "included) always do; slices are inclusive",
        assumptions=["the base time isn't 0", "a lower bound of 0 doesn't exclude events"],
        floors={"window-low-bound": 6, "window-high-bound": 6})
