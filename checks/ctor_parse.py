"""How the lines of a trace become events: P01-P05."""
from .ctorlib import *
from sa.core import PHIS

W = "trappy/ftrace.py"
CMP = ("Lt", "LtE", "Gt", "GtE")


def group(t, name):
    """t is a named group of the line's match"""
    return t.op == "group" and t.args[-1] == T.mk("c", "str", name) or \
        t.op == "group" and _last(t) == name


def _last(t):
    a = t.args[-1]
    if isinstance(a, T):
        return a.args[-1] if a.op == "c" else None
    return a


def mentions_group(t, name):
    return any(group(s, name) for s in t.subs())


def elems(t):
    """the loops whose current element a term is about"""
    return {site(s.args[0]) for s in t.subs() if s.op == "elem"}


def site(loopkey):
    """a loop, in whatever context it's run"""
    return loopkey[0]


class ParseConfig(CtorConfig):
    softs = ("ghost-hard",)
    loop = None
    track = ("time",)

    def hard_fact(self, f):
        t = f[1]
        while isinstance(t, T) and t.op == "not":
            t = t.args[0]
        if not isinstance(t, T):
            return False
        if self.loop is None or self.loop not in elems(t) and t.op != "phi":
            return False
        if "match" in self.track and t.op == "match":
            return True
        if "word" in self.track and word_test(f):
            return True
        if "falsy" in self.track and f[0] == "T" and t.op == "phi" and t in PHIS and all(
                a[0] == "c" or a[0] == "u" and (a[2].op in ("nextup", "phi", "max", "fmax") or
                                                recorded(a[2])) for a in PHIS[t]):
            return True
        if f[0] != "T" or "time" not in self.track:
            return False
        if t.op in CMP:
            return all(recorded(a) or a.op in ("nextup", "phi", "c", "max", "fmax")
                       for a in t.args) and \
                (mentions_group(t, "timestamp") or has_op(t, "nextup"))
        if group(t, "us"):
            return True
        return t.op in ("In", "NotIn") and mentions_group(t, "timestamp")

    def keep_fact(self, f):
        return False

    def on_backedge(self, I, st, loopkey):
        if site(loopkey) == self.loop:
            # whether there are events already
            if any(g[0] in ("again", "app") for g in st.ghost):
                st.ghost = frozenset([("again", self.loop)])
            else:
                st.ghost = frozenset()

    def on_loopexit(self, I, st, where):
        # what's known of the last line doesn't matter any more
        if where == self.loop:
            st.ghost = frozenset()
            st.facts = frozenset(f for f in st.facts if not self.hard_fact(f))

    def on_event(self, I, st, node, kind, data):
        if kind == "append" and self.loop and owner(st, data["list"]) is not None:
            st.ghost = st.ghost | {("app", data["list"], count(st, data["list"]) + 1)}
        if kind == "dropped" and self.loop:
            st.ghost = st.ghost | {("dropped", data["how"])}


def word_test(f):
    """(word, whether the line has it) if that's what a path condition is about"""
    t, val = f[1], f[2]
    if f[0] != "T" or not isinstance(t, T):
        return None
    while t.op == "not":
        t, val = t.args[0], not val
    if t.op in ("In", "NotIn"):
        w = cword(t.args[0])
        if w and elems(t.args[1]):
            return w, val == (t.op == "In")
    return None


def cword(t):
    if isinstance(t, T) and t.op == "c" and isinstance(t.args[-1], str):
        return t.args[-1]
    return None


def count(st, oid):
    return max([g[2] for g in st.ghost if g[0] == "app" and g[1] == oid] or [0])


def owner(st, oid):
    """the event object whose list this is"""
    for i, o in st.heap.items():
        if o.kind != "inst" or "data_frame" not in o.attrs:
            continue
        if reaches(st, o, oid):
            return i
    return None


def reaches(st, o, oid, depth=2):
    vs = list(o.attrs.values())
    if o.kind != "inst":
        vs += list(o.items or ()) + list((o.entries or {}).values())
        if o.summ is not None:
            vs.append(o.summ)
    for v in vs:
        for a in v.atoms:
            if a[0] != "r":
                continue
            if a[1] == oid:
                return True
            if depth and st.has(a[1]) and st.get(a[1]).kind in ("list", "dict") and \
                    reaches(st, st.get(a[1]), oid, depth - 1):
                return True
    return False


def time_values(v):
    """the alternatives of a value that's a line's time"""
    return [aterm(a) for a in v.atoms]


def is_time(v):
    return "F:timestamp" in v.labels and any(
        a[0] == "u" and (mentions_group(a[2], "timestamp") or has_op(a[2], "nextup", "nextafter"))
        for a in v.atoms)


class Order(object):
    """what the path conditions say about the order of times"""

    def __init__(self, facts):
        self.lt = set()
        self.le = set()
        for f in facts:
            if f[0] != "T":
                continue
            t, val = f[1], f[2]
            while t.op == "not":
                t, val = t.args[0], not val
            if t.op not in CMP:
                continue
            a, b = t.args
            op = t.op
            if op in ("Gt", "GtE"):
                a, b = b, a
                op = {"Gt": "Lt", "GtE": "LtE"}[op]
            if val:
                (self.lt if op == "Lt" else self.le).add((a, b))
            elif op == "Lt":
                self.le.add((b, a))
            else:
                self.lt.add((b, a))

    def gt(self, v, p):
        """v > p"""
        if (p, v) in self.lt:
            return True
        if v.op == "nextup":
            return self.ge(v.args[0], p)
        if v.op in ("max", "fmax"):
            return any(self.gt(a, p) for a in v.args if isinstance(a, T))
        if v.op == "join":
            return all(self.gt(a, p) for a in v.args)
        return False

    def ge(self, v, p):
        if v == p or self.gt(v, p) or (p, v) in self.le:
            return True
        if v.op in ("max", "fmax"):
            return any(self.ge(a, p) for a in v.args if isinstance(a, T))
        if v.op == "join":
            return all(self.ge(a, p) for a in v.args)
        return False


def slot_value(st, slot):
    """the current value of the slot a loop-carried term stands for"""
    for oid, o in st.heap.items():
        for k, v in o.attrs.items():
            if str((oid, k)) == slot:
                return v
    return None


def recorded(t):
    """t is the time written in the line, in seconds: 'us', 'ns' or None"""
    def conv(t):
        return t.op == "conv" and _first(t) == "float" and len(t.args) == 2 and \
            isinstance(t.args[1], T) and group(t.args[1], "timestamp")
    if conv(t):
        return "us"
    if t.op == "Div" and isinstance(t.args[0], T) and conv(t.args[0]) and \
            isinstance(t.args[1], T) and t.args[1].op == "c" and t.args[1].args[-1] == 1e9:
        return "ns"
    return None


def _first(t):
    a = t.args[0]
    return a.args[-1] if isinstance(a, T) and a.op == "c" else a


def unit(facts):
    """whether the line's time has a fraction, as far as the path knows"""
    for f in facts:
        if f[0] == "N" and group(f[1], "us"):
            return "ns" if f[2] else "us"
        if f[0] != "T":
            continue
        t, val = f[1], f[2]
        while t.op == "not":
            t, val = t.args[0], not val
        if group(t, "us"):
            return "us" if val else "ns"
        if t.op in ("In", "NotIn") and mentions_group(t, "timestamp") and \
                isinstance(t.args[0], T) and t.args[0].op == "c" and t.args[0].args[-1] == ".":
            return "us" if val == (t.op == "In") else "ns"
    return None


def parse(cls, regs, cfg=None, loop=None, **kw):
    cfg = cfg or ParseConfig(False, False)
    cfg.loop = loop
    return S.ctor(REPO, cfg, cls, regs, True, **kw), cfg


def find_loop(cls, regs):
    """the loop over the lines of the trace: the one that appends times"""
    cfg = CtorConfig(False, False)
    r = S.ctor(REPO, cfg, cls, regs, True)
    loops = {}
    for e in r.events:
        if e["kind"] == "append" and is_time(e["value"]):
            for a in e["value"].atoms:
                if a[0] == "u":
                    for l in elems(a[2]):
                        loops[l] = loops.get(l, 0) + 1
    if not loops:
        raise AnalysisError("no loop adds the times of lines to the events")
    return max(sorted(loops), key=lambda l: loops[l])


def _p01(cls):
    res = Res()
    loop = find_loop(cls, ONE)
    r, cfg = parse(cls, ONE, loop=loop)
    res.seen(r.I)
    sc = cls.rpartition(".")[2]
    phis = [p for p, ins in PHIS.items() if site(p.args[0]) == loop and any(
        a[0] == "u" and (mentions_group(a[2], "timestamp") or has_op(a[2], "nextup"))
        for a in ins)]
    backs = [e for e in r.events if e["kind"] == "backedge" and site(e["loop"]) == loop]
    apps = [e for e in r.events if e["kind"] == "append" and is_time(e["value"]) and
            owner(e["state"], e["list"]) is not None]
    res.count("appends", len(apps))
    res.count("iterations", len(backs))
    # the variable that holds the previous time
    best = None
    for p in phis:
        slot = p.args[1] if isinstance(p.args[1], str) else _last(p)
        if not any(slot_value(e["state"], slot) for e in backs):
            continue
        problems = {}
        for e in backs:
            v = slot_value(e["state"], slot)
            if v is None:
                continue
            o = Order(e["facts"])
            times = {t for a in apps for t in time_values(a["value"])
                     if any(g[0] == "app" and g[1] == a["list"] for g in e["ghost"])}
            for w in time_values(v):
                # from the first event on
                if ("again", loop) in e["ghost"] and not o.ge(w, p):
                    problems[("time-never-goes-back", e["where"])] = \
                        "the reference time may decrease from a line to the next"
                # no event may be after the reference time
                if times and w not in times:
                    problems[("times-strictly-increase", "carried over")] = \
                        "the time compared with isn't that of the previous line"
        for e in apps:
            if ("again", loop) not in e["ghost"]:
                continue
            o = Order(e["facts"])
            for w in time_values(e["value"]):
                if not o.gt(w, p):
                    problems[("times-strictly-increase", e["func"])] = \
                        "an event's time may not be after that of the previous line"
        if best is None or len(problems) < len(best[1]):
            best = (p, problems)
    if best is None:
        raise AnalysisError("no variable holds the time of the previous line")
    p, problems = best
    res.ob("times-strictly-increase", sc + ":carried over",
           ("times-strictly-increase", "carried over") not in problems, W,
           problems.get(("times-strictly-increase", "carried over"), ""))
    for e in apps:
        res.ob("times-strictly-increase", "%s:%s" % (sc, e["func"]),
               ("times-strictly-increase", e["func"]) not in problems, e["where"],
               problems.get(("times-strictly-increase", e["func"]), ""))
    bad = [k for k in problems if k[0] == "time-never-goes-back"]
    res.ob("time-never-goes-back", sc, not bad, bad[0][1] if bad else W,
           problems[bad[0]] if bad else "")
    # not before what was recorded, and exactly that if it can be
    for e in apps:
        o = Order(e["facts"])
        u = unit(e["facts"])
        for w in time_values(e["value"]):
            ok, why = recorded_time(w, o, u)
            res.ob("time-is-the-recorded-one", "%s:%s" % (sc, e["func"]), ok, e["where"], why)
    return res


def recorded_time(w, o, u):
    k = recorded(w)
    if k is not None:
        if u is None or u == k:
            return (u is not None), "the unit of the time isn't looked at"
        return False, "the time of a line in %s is taken for %s" % (u, k)
    if w.op in ("max", "fmax"):
        rs = [a for a in w.args if isinstance(a, T) and recorded(a)]
        ns = [a for a in w.args if isinstance(a, T) and a.op == "nextup"]
        if len(rs) == 1 and len(ns) == 1 and len(w.args) == 2:
            return recorded_time(rs[0], o, u)
    if w.op == "nextup":
        # only if the recorded time isn't later
        for (a, b) in o.le | o.lt:
            if recorded(a) and b == w.args[0]:
                if u is not None and recorded(a) != u:
                    return False, "the time of a line in %s is taken for %s" % (u, recorded(a))
                return True, ""
        return False, "a time is changed although it's later than the previous one"
    return False, "the time isn't the recorded one: %s" % short(w)


def p01():
    res = pmap(_p01, [(c,) for c in TRACES])
    return res, dict(
        explanation="inductive argument over the loop that parses lines: path conditions at "
        "each append and back edge show that the time of an event is greater than the "
        "variable that holds the previous line's time, that this variable never decreases, and "
        "that the time is the recorded one in seconds (divided by 1e9 if and only if it has no fraction) or, "
        "if that isn't later than the previous one, the next floating-point number",
        assumptions=["numpy.nextafter(x, inf) is the least number above x",
                     "recorded times are finite and positive"],
        floors={"times-strictly-increase": 2, "time-is-the-recorded-one": 2})


# -- P02: independent of what is selected -----------------------------------
SELECTION = ("SEL", "P:scope", "P:events", "P:window0", "P:window1",
             "P:abs_window0", "P:abs_window1", "P:name", "P:normalize_time")
MARKED = {"sched": [("sched_switch", "trappy.sched.SchedSwitch")],
          "dynamic": [("tracing_mark_write", "trappy.fallback.TracingMarkWrite")],
          "thermal": []}


def mark_selection(regs):
    """labels what the registered parsers look for"""
    def prepare(I, st):
        for scope in regs:
            for n, d in regs[scope]:
                a = I.glob(d).one()[1]
                o = st.get(a).copy()
                o.attrs = dict(o.attrs)
                w = o.attrs.get("unique_word")
                if w is None:
                    raise AnalysisError("%s has no unique_word" % d)
                o.attrs["unique_word"] = V(w.atoms, w.labels | {"SEL"})
                st.put(a, o)
    return prepare


def time_matches(r):
    """the matches that tell the times of events"""
    return {s.args[0] for e in r.events if e["kind"] == "append" and is_time(e["value"])
            for t in time_values(e["value"]) for s in t.subs() if group(s, "timestamp")}


def matched(e, ms):
    """whether a line has the form of an event, as far as the path knows"""
    facts = e["facts"]
    if any(g == ("dropped", "takewhile") for g in e["ghost"]):
        return False
    if any(g == ("dropped", "dropwhile") for g in e["ghost"]):
        # a line that isn't part of the trace
        for f in facts:
            if f[0] == "T" and not f[2] and isinstance(f[1], T) and f[1].op == "match" and \
                    any(f[1].args[:2] == m.args[:2] for m in ms):
                return False
        return False if e.get("skips") else None
    for f in facts:
        t, val = f[1], f[2]
        while isinstance(t, T) and t.op == "not":
            t, val = t.args[0], not val
        if not isinstance(t, T):
            continue
        if t in ms:
            return val if f[0] == "T" else not val
        if any(s.op == "group" and s.args[0] in ms for s in t.subs()):
            return True
    return None


def line_time(w, o, u):
    return recorded_time(w, o, u)[0]


class LineConfig(ParseConfig):
    track = ("time", "match", "falsy")


def attr_slots(r, name):
    """{slot: value} of an attribute of the trace at the exits"""
    out = []
    for st, v in r.exits:
        o = st.get(v.one()[1])
        x = o.attrs.get(name)
        if x is None:
            raise AnalysisError("a trace has no %s" % name)
        out.append((st, x, str((v.one()[1], name))))
    return out


def _p02(cls):
    res = Res()
    sc = cls.rpartition(".")[2]
    loop = find_loop(cls, MARKED)
    r, cfg = parse(cls, MARKED, LineConfig(False, False), loop=loop,
                   prepare=mark_selection(MARKED))
    res.seen(r.I)
    res.count("exits", len(r.exits))
    sel = frozenset(SELECTION)
    ms = time_matches(r)
    backs = [e for e in r.events if e["kind"] == "backedge" and site(e["loop"]) == loop]
    for e in backs:
        e["skips"] = sc == "SysTrace"
    apps = [e for e in r.events if e["kind"] == "append" and owner(e["state"], e["list"]) is not None]
    for name in ("basetime", "endtime"):
        for st, x, slot in attr_slots(r, name):
            bad = x.labels & sel
            res.ob("independent-of-selection", "%s:%s" % (sc, name), not bad, W,
                   "%s depends on %s" % (name, words(bad)))
    for e in apps:
        if is_time(e["value"]) or not any(l.startswith("F:") for l in e["value"].labels):
            bad = e["value"].labels & sel
            what = "time" if is_time(e["value"]) else "line"
            res.ob("independent-of-selection", "%s:%s" % (sc, what), not bad, e["where"],
                   "the %s of an event depends on %s" % (what, words(bad)))
    # basetime: the time of the first line, endtime: that of the last
    for name, rule in (("endtime", "endtime-is-the-last-time"),
                       ("basetime", "basetime-is-the-first-time")):
        for st, x, slot in attr_slots(r, name):
            for a in x.atoms:
                ok, why, where = follow(aterm(a), rule, slot, ms, backs)
                res.ob(rule, "%s:%s" % (sc, name), ok, where or W, why)
    return res


def words(labels):
    names = {"SEL": "the events that are parsed"}
    return ", ".join(sorted(names.get(l, l[2:]) for l in labels))


def follow(t, rule, slot, ms, backs):
    """the value of an attribute at the end is the first/last time"""
    if t.op == "c":
        return t.args[-1] == 0, "it's %r in a trace without lines" % (t.args[-1],), None
    if t.op == "nextup" or recorded(t) is not None:
        # the trace ends in the first iteration
        return True, "", None
    if t.op != "phi":
        return False, "it's %s" % short(t), None
    src = t.args[1] if isinstance(t.args[1], str) else _last(t)
    n = 0
    for e in backs:
        v = slot_value(e["state"], src)
        if v is None:
            continue
        o, u, m = Order(e["facts"]), unit(e["facts"]), matched(e, ms)
        for w in time_values(v):
            n += 1
            new = line_time(w, o, u) and w != t
            kept = w == t or w.op == "c"
            if rule == "endtime-is-the-last-time":
                if m is False and kept or m and new:
                    continue
                if m is None:
                    return False, "a line is skipped without looking at its time", e["where"]
                return False, "it isn't the time of the last line", e["where"]
            was = truth_of(e["facts"], t)
            if was is None and not any(x.args[-1] == src for x in
                                       [f[1] for f in e["facts"] if isinstance(f[1], T)]
                                       if x.op == "phi"):
                # the first lines
                if m is False and kept or m and new:
                    continue
            if was is True and w == t or was is False and (m is False and kept or m and new):
                continue
            if was is None and m is False and kept:
                continue
            return False, "it isn't the time of the first line", e["where"]
    return n > 0, "its value isn't known", None


def truth_of(facts, t):
    for f in facts:
        x, val = f[1], f[2]
        while isinstance(x, T) and x.op == "not":
            x, val = x.args[0], not val
        if x == t and f[0] == "T":
            return val
    return None


def p02():
    res = pmap(_p02, [(c,) for c in TRACES])
    return res, dict(
        explanation="information flow: what the parsed classes look for (unique_word) and the parameters "
        "that select are labelled sources, the labels of basetime, endtime and of the time and line of each "
        "event say what these depend on (through data or branches); induction over the loop that parses lines "
        "shows that endtime is the time of the last line with the form of an event and basetime that of the first",
        assumptions=["the time of the first line isn't 0"],
        floors={"independent-of-selection": 8, "endtime-is-the-last-time": 2,
                "basetime-is-the-first-time": 2})


# -- P04: which parser takes a line -----------------------------------------
SW = ("sched_switch", "trappy.sched.SchedSwitch")
WK = ("sched_wakeup", "trappy.sched.SchedWakeup")
TM = ("tracing_mark_write", "trappy.fallback.TracingMarkWrite")
ORDERS = [[SW, TM], [TM, SW], [SW, TM, WK], [TM, SW, WK]]


class WordConfig(ParseConfig):
    track = ("match", "word")


def _p04(cls, regs):
    res = Res()
    sc = cls.rpartition(".")[2]
    regs = {"sched": list(regs), "thermal": [], "dynamic": []}
    loop = find_loop(cls, regs)
    r, cfg = parse(cls, regs, WordConfig(False, False), loop=loop)
    res.seen(r.I)
    backs = [e for e in r.events if e["kind"] == "backedge" and site(e["loop"]) == loop]
    apps = [e for e in r.events if e["kind"] == "append" and owner(e["state"], e["list"]) is not None]
    ms = time_matches(r)
    for e in backs:
        e["skips"] = sc == "SysTrace"
    known = {}
    for st, v in r.exits:
        for inst in trace_insts(st, v)[1]:
            o = st.get(inst[1])
            w = class_attr(st, o, "unique_word")
            fb = o.attrs.get("fallback") or class_attr(st, o, "fallback")
            known[inst[1]] = (clsname(st, inst), constant(w), constant(fb))
    if not known or any(k[1] is None or k[2] is None for k in known.values()):
        raise AnalysisError("the parsers of a trace aren't known")
    for e in apps:
        i = owner(e["state"], e["list"])
        if i not in known:
            continue
        name, word, fb = known[i]
        tests = dict(filter(None, map(word_test, e["facts"])))
        res.ob("line-mentions-the-event", "%s:%s" % (sc, name), tests.get(word) is True,
               e["where"], "a line becomes %s without having %r" % (name, word))
        if fb:
            others = [k for j, k in known.items() if not k[2]]
            for on, ow, of in others:
                res.ob("specific-before-fallback", "%s:%s before %s" % (sc, on, name),
                       tests.get(ow) is False, e["where"],
                       "a line with %r may be taken by the fallback %s" % (ow, name))
    for e in backs:
        tests = dict(filter(None, map(word_test, e["facts"])))
        taken = {owner(e["state"], g[1]) for g in e["ghost"] if g[0] == "app"} - {None}
        m = matched(e, ms)
        names = ", ".join(sorted(known[i][0] for i in taken if i in known))
        res.ob("at-most-one-event", sc, len(taken) <= 1, e["where"],
               "a line may become several events: %s" % names)
        res.ob("at-most-one-event", sc + ":once", all(g[2] == 1 for g in e["ghost"] if g[0] == "app"),
               e["where"], "a line may become several rows of an event")
        if not taken:
            res.ob("no-event-is-lost", sc, m is False or
                   all(tests.get(k[1]) is False for k in known.values()), e["where"],
                   "a line may be dropped although there's a parser for it")
    return res


def class_attr(st, o, name):
    """an attribute of an instance's class"""
    todo = [o.cls]
    while todo:
        c = todo.pop(0)
        if not c or c[0] != "r" or not st.has(c[1]):
            continue
        co = st.get(c[1])
        if name in co.attrs:
            return co.attrs[name]
        for b in (co.x.get("mro") or co.x.get("bases") or ()):
            a = b.one() if isinstance(b, V) else b
            if a and a != c:
                todo.append(a)
    return None


def constant(v):
    a = v.one() if v is not None else None
    return a[2] if a and a[0] == "c" else None


def p04():
    jobs = [(TRACES[0], o) for o in ORDERS] + [(TRACES[1], ORDERS[3])]
    res = pmap(_p04, jobs)
    return res, dict(
        explanation="path conditions at the appends of each event and at the end of each iteration of the "
        "loop over the lines, with parsers and a fallback registered in different orders: a line "
        "that becomes an event has the event's unique word, one taken by a fallback has no word of another parser, "
        "one with a parser isn't dropped, and none becomes two events or two rows",
        assumptions=["representative parsers: SchedSwitch, SchedWakeup and the fallback TracingMarkWrite"],
        floors={"line-mentions-the-event": 4, "specific-before-fallback": 2,
                "at-most-one-event": 2, "no-event-is-lost": 1})


# -- P03, P05: rows ---------------------------------------------------------
FIELDS = ("__comm", "__pid", "__cpu", "__line")


class RowConfig(ParseConfig):
    """ghost: what was appended to which list in this iteration, and yielded"""
    track = ("match",)

    def on_backedge(self, I, st, loopkey):
        if site(loopkey) == self.loop or any(g[0] == "yield" for g in st.ghost):
            st.ghost = frozenset()

    def on_event(self, I, st, node, kind, data):
        ParseConfig.on_event(self, I, st, node, kind, data)
        if kind == "yield":
            n = max([g[1] for g in st.ghost if g[0] == "yield"] or [0])
            if n < 2:
                st.ghost = st.ghost | {("yield", n + 1)}


def frames_made(r):
    """[(event, index list, [{field: value}])] of the frames made of what was parsed"""
    out = []
    for e in r.events:
        if e["kind"] != "dfnew" or e["what"] != "DataFrame":
            continue
        st = e["state"]
        ia = e["index"].one() if e["index"] is not None else None
        idx = None
        if ia and ia[0] == "r" and st.get(ia[1]).kind == "index":
            d = st.get(ia[1]).x.get("data")
            if d is not None and d.one() and d.one()[0] == "r":
                idx = d.one()[1]
        elif ia and ia[0] == "r" and st.get(ia[1]).kind == "list":
            idx = ia[1]
        da = e["data"].one() if e["data"] is not None else None
        if idx is None or da is None or da[0] != "r" or st.get(da[1]).kind != "list":
            continue
        o = st.get(da[1])
        rows = []
        for x in list(o.items or ()) + ([o.summ] if o.summ is not None else []):
            for a in x.atoms:
                if a[0] == "r" and st.get(a[1]).kind == "dict":
                    d = st.get(a[1])
                    rows.append({k[2]: v for k, v in (d.entries or {}).items()
                                 if k[0] == "c"})
                else:
                    rows.append({})
        out.append((e, idx, rows))
    return out


def lists_of(v, lists):
    """the lists whose elements a value comes from; None if it comes from elsewhere"""
    found = set()
    seen = set()
    todo = list(v.atoms)
    while todo:
        a = todo.pop()
        if a[0] != "u":
            t = aterm(a)
        else:
            t = a[2]
        if t in seen:
            continue
        seen.add(t)
        hit = set()
        for oid in lists:
            for s in t.subs():
                if s.op == "phi" and _slot(s).startswith("(" + str(oid) + ","):
                    hit.add(oid)
                if s.op == "elem" and len(s.args) > 1 and isinstance(s.args[1], T) and \
                        s.args[1].op == "ref" and s.args[1].args[0] == oid:
                    hit.add(oid)
            if any(t in ts for ts in lists[oid]):
                # an element known exactly
                hit.add(oid)
        if not hit and t.op == "phi" and t in PHIS:
            todo += list(PHIS[t])
        elif not hit:
            return None
        found |= hit
    return found


def _slot(p):
    return p.args[1] if isinstance(p.args[1], str) else str(_last(p))


def rows_run(cls):
    regs = ONE
    loop = find_loop(cls, regs)
    r, cfg = parse(cls, regs, RowConfig(False, False), loop=loop)
    apps = [e for e in r.events if e["kind"] == "append" and owner(e["state"], e["list"]) is not None]
    lists = {}
    for e in apps:
        lists.setdefault(e["list"], []).append([aterm(a) for a in e["value"].atoms])
    made = frames_made(r)
    if not made:
        raise AnalysisError("no frame is made of rows and times that were parsed")
    return r, loop, apps, lists, made


def special(field, t):
    """t is what a column that every event has should be"""
    if field == "__comm":
        return group(t, "comm")
    if field in ("__pid", "__cpu"):
        return t.op == "conv" and _first(t) == "int" and isinstance(t.args[1], T) and \
            group(t.args[1], field[2:])
    return None


def _p03(cls):
    res = Res()
    sc = cls.rpartition(".")[2]
    r, loop, apps, lists, made = rows_run(cls)
    res.seen(r.I)
    used = set()
    for e, idx, rows in made:
        used.add(idx)
        res.ob("index-is-the-times", sc, idx in lists and all(
            mentions_group(t, "timestamp") or has_op(t, "nextup") for ts in lists[idx] for t in ts),
            e["where"], "the index of a frame isn't the times of its events")
        for row in rows:
            for f in FIELDS:
                if f not in row:
                    res.ob("row-has-the-fields", "%s:%s" % (sc, f), False, e["where"],
                           "a row may lack %s" % f)
                    continue
                src = lists_of(row[f], lists)
                ok = bool(src)
                why = "%s isn't what was parsed from the line" % f
                for l in src or ():
                    used.add(l)
                    if f != "__line":
                        ok = ok and all(special(f, t) for ts in lists[l] for t in ts)
                    else:
                        ok = ok and not any("F:" in x for a in apps if a["list"] == l
                                            for x in a["value"].labels)
                res.ob("row-has-the-fields", "%s:%s" % (sc, f), ok, e["where"], why)
    # the lists grow together: the i-th elements of all are of the same line
    own = {}
    for e in apps:
        own.setdefault(owner(e["state"], e["list"]), set()).add(e["list"])
    backs = [e for e in r.events if e["kind"] == "backedge"]
    for e in backs:
        if site(e["loop"]) != loop:
            continue
        for inst, ls in own.items():
            n = {len([g for g in e["ghost"] if g[0] == "app" and g[1] == l]) for l in ls}
            res.ob("lists-grow-together", sc, len(n) <= 1 and n <= {0, 1}, e["where"],
                   "a line may be added to some of the lists of an event only")
    # one row per element
    ys = [e for e in backs if any(g[0] == "yield" for g in e["ghost"])]
    sites = {site(e["loop"]) for e in ys}
    for e in backs:
        if site(e["loop"]) in sites:
            n = max([g[1] for g in e["ghost"] if g[0] == "yield"] or [0])
            res.ob("one-row-per-line", sc, n == 1, e["where"],
                   "a line may have %s rows" % ("no" if n == 0 else "several"))
    return res


def p03():
    res = pmap(_p03, [(c,) for c in TRACES])
    return res, dict(
        explanation="def-use from the named groups of the line's regular expression through the lists of "
        "an event to the rows and index of its frame; at each end of an iteration all lists of an event have got one "
        "element or none; each element of the lists gives one row",
        assumptions=["zip pairs the i-th elements of the lists it's given",
                     "the data of a line has no fields named like the special columns"],
        floors={"row-has-the-fields": 4, "index-is-the-times": 1, "lists-grow-together": 1})


def is_counter(t, loop):
    """t is the number of lines before; the variable that counts, if any"""
    t, k = plus(t)
    if t.op == "phi" and k == 0:
        return True, t
    if t.op == "c" and t.args[-1] + k == 0:
        return True, None
    if t.op == "elem" and site(t.args[0]) == loop and t.args[1].op == "enum" and k == 0:
        return True, None
    return False, None


def plus(t):
    """(term, constant) of a sum"""
    k = 0
    while t.op in ("Add", "Sub") and len(t.args) == 2:
        c = [a for a in t.args if a.op == "c" and isinstance(a.args[-1], int)]
        if not c or t.op == "Sub" and t.args[1] is not c[-1]:
            break
        k += c[-1].args[-1] * (1 if t.op == "Add" else -1)
        t = [a for a in t.args if a is not c[-1]][0] if t.args[0] is not t.args[1] else t.args[0]
    if t.op == "c" and isinstance(t.args[-1], int) and not isinstance(t.args[-1], bool):
        return T.mk("c", "int", 0), k + t.args[-1]
    return t, k


def _p05(cls):
    res = Res()
    sc = cls.rpartition(".")[2]
    r, loop, apps, lists, made = rows_run(cls)
    res.seen(r.I)
    ms = time_matches(r)
    backs = [e for e in r.events if e["kind"] == "backedge" and site(e["loop"]) == loop]
    ls = set()
    for e, idx, rows in made:
        for row in rows:
            if "__line" in row:
                ls |= lists_of(row["__line"], lists) or set()
    if not ls:
        raise AnalysisError("the line numbers of events aren't known")
    slots = set()
    for e in apps:
        if e["list"] not in ls:
            continue
        for a in e["value"].atoms:
            t = aterm(a)
            ok, p = is_counter(t, loop)
            if p is not None:
                slots.add(p)
            res.ob("line-is-the-counter", "%s:%s" % (sc, e["func"]), ok, e["where"],
                   "the line number isn't the number of lines before: %s" % short(t))
    for p in slots:
        slot = _slot(p)
        for e in backs:
            v = slot_value(e["state"], slot)
            if v is None:
                continue
            drop = any(g[0] == "dropped" for g in e["ghost"])
            for a in v.atoms:
                t = aterm(a)
                if drop:
                    ok = t == p or t.op == "c" and t.args[-1] == 0
                    why = "lines before the trace are counted"
                else:
                    ok = plus(t) in ((p, 1), (T.mk("c", "int", 0), 1))
                    why = "the counter isn't incremented by one for each line: %s" % short(t)
                res.ob("every-line-counts-once", sc, ok, e["where"], why)
    if not slots:
        res.ob("every-line-counts-once", sc, True, W, "")
    return res


def p05():
    res = pmap(_p05, [(c,) for c in TRACES])
    return res, dict(
        explanation="induction over the loop that parses lines: the line number an event gets is a "
        "counter that every path through the body increments by exactly one, whatever the line and "
        "whether or not it becomes an event",
        assumptions=[],
        floors={"line-is-the-counter": 1, "every-line-counts-once": 1})
