"""Which events a trace has: C09."""
from .ctorlib import *

SCOPES = {"all": ("thermal", "sched", "dynamic"), "thermal": ("thermal", "dynamic"),
          "sched": ("sched", "dynamic"), "custom": ()}
EVENTS = [(), ("sched_switch",), ("thermal_governor", "my_event"),
          ("thermal_power_allocator",), ("sched_switch:", "thermal_power_allocator:"),
          ("my_event", "other_event", "my_event"), ("cpu_frequency", "cpu_idle", "print"),
          ("sched_switch_other", "sched", "thermal")]


KEEP = 3
NAMES = {n for ev in EVENTS for n in ev} | {"thermal_governor", "tracing_mark_write"}


def registered(I, st):
    """{name: (unique word, class, scope)} of the registered parsers, of which a few
    of each scope are kept"""
    out = {}
    o = st.get(I.glob("trappy.ftrace.GenericFTrace").one()[1])
    for scope in ("thermal", "sched", "dynamic"):
        v = o.attrs[scope + "_classes"]
        ents = entries(st, v)
        if ents is None:
            raise AnalysisError("%s_classes isn't known" % scope)
        kept = [n for n in ents if n in NAMES or
                describe(st, ents[n])[0] in [x for n in NAMES for x in (n, n + ":")]]
        kept += [n for n in ents if n not in kept]
        kept = kept[:KEEP]
        do = st.get(v.one()[1]).copy()
        do.entries = {k: x for k, x in do.entries.items() if k[2] in kept}
        st.put(v.one()[1], do)
        for n in kept:
            out[n] = describe(st, ents[n]) + (scope,)
    return out


def describe(st, x):
    """(unique word, class) of a class; None for a generic one"""
    a = x.one()
    co = st.get(a[1]) if a and a[0] == "r" else None
    if co is None:
        return (None, "?")
    q = co.x.get("qual")
    w = constant(co.attrs.get("unique_word"))
    return (w, str(a[1]))


def expected(known, scope, events):
    """{name: (unique word, class or None for a generic one)}"""
    out = {}
    for e in events:
        for n, (w, c, sc) in known.items():
            if e in (n, w) or e + ":" == w:
                out[n] = (w, c)
                break
        else:
            out[e] = (e + ":", None)
    for n, (w, c, sc) in known.items():
        if sc in SCOPES[scope]:
            out[n] = (w, c)
    return out


def entries(s, v):
    """{key: value} of a dict that's known exactly"""
    if v is None or v.one() is None or v.one()[0] != "r":
        return None
    o = s.get(v.one()[1])
    if o.entries is None or o.summ is not None:
        return None
    return {k[2] if k[0] == "c" else k: x for k, x in o.entries.items()}


def constant(v):
    a = v.one() if v is not None else None
    return a[2] if a and a[0] == "c" else None


class ScopeConfig(CtorConfig):
    # which events there are doesn't depend on the lines of the trace
    softs = ("no-lines",)


def _c09(cls, scope, events, single=False):
    res = Res()
    cfg = ScopeConfig(False, False)
    known = {}

    def build(I, st, node):
        known.update(registered(I, st))
        c = I.glob(cls)
        o = st.get(c.one()[1]).copy()
        o.attrs = dict(o.attrs)
        o.attrs["disable_cache"] = S.TRUE
        st.put(c.one()[1], o)
        kw = {}
        if scope is not None:
            kw["scope"] = const(scope)
        if single:
            kw["events"] = const(events[0])
        elif events is not None:
            kw["events"] = I.newlist(st, node, [const(e) for e in events], None)
        return I.call(st, node, c, [S.param("path", "str")], kw)
    r = S.run(REPO, cfg, build)
    res.seen(r.I)
    sc = cls.rpartition(".")[2]
    key = "%s:scope=%s:events=%s" % (sc, scope or "default",
                                     ",".join(events or ()) or "none")
    exp = expected(known, scope or "all", events or ())
    W = "trappy/ftrace.py"
    res.ob("opens", key, bool(r.exits), W, "a trace can't be opened with these events")
    for s, v in r.exits:
        res.count("exits")
        o, insts = trace_insts(s, v)
        cd = entries(s, o.attrs.get("class_definitions"))
        got = {}
        for n, x in (cd or {}).items():
            w, c = describe(s, x)
            got[n] = (w, c if n in known else None)
        res.ob("events-of-the-trace", key, got == exp, W,
               "the trace has the events %s instead of %s" % (
                   sorted(got), sorted(exp)) if sorted(got) != sorted(exp) else
               "an event isn't parsed by the class it's known by: %s instead of %s" % (
                   {k: x for k, x in got.items() if exp.get(k) != x},
                   {k: x for k, x in exp.items() if got.get(k) != x}))
        # one instance of each class, accessible by its name
        classes = sorted(str(s.get(i[1]).cls) for i in insts)
        want = sorted(str(x.one()) for x in (cd or {}).values())
        res.ob("one-parser-per-event", key, classes == want, W,
               "there isn't exactly one parser object for each event")
        for n, x in (cd or {}).items():
            a = o.attrs.get(n)
            a = a.one() if a is not None else None
            ok = a is not None and a in insts and s.get(a[1]).cls == x.one()
            res.ob("event-is-an-attribute", key + ":" + str(n), ok, W,
                   "trace.%s isn't the parser of that event" % n)
    return res


def c09():
    args = []
    for cls in TRACES:
        args.append((cls, None, None))
        args.append((cls, "custom", ("my_event",), True))
        for scope in SCOPES:
            for ev in EVENTS:
                args.append((cls, scope, ev))
    res = pmap(_c09, args)
    return res, dict(
        explanation="the constructor is analysed for each scope and for lists of event names "
        "of each kind (known by name, by unique word, unknown; a string instead of a list): "
        "on all paths, the parsers of the trace are exactly those that the documentation "
        "gives for the scope and the names, with one object each under its name",
        assumptions=["the registered parsers are represented by three of each scope, event names by "
                     "some of each kind"],
        floors={"events-of-the-trace": 20, "one-parser-per-event": 20})
