"""What using the library changes: R02 (the process), R03 (arguments), R04 (trace data)."""
import signal

from .ctorlib import *
from .registry import SCOPES
from sa.values import unk, Obj


class EffectsConfig(CtorConfig):
    """all states are joined: which of them are possible doesn't matter"""
    def __init__(self, lines=False):
        CtorConfig.__init__(self, False, False)
        self.softs = ("coarse",) if lines else ("coarse", "no-lines")
        self.process = []

    def call_hook(self, I, st, node, f, args, kw):
        name = None
        if f[0] == "x":
            name = f[1]
        elif f[0] == "bx" and f[1][0] == "x":
            name = "%s.%s" % (f[1][1], f[2])
        if name is not None and not I.loading and changes_process(name):
            self.process.append((I.where(node), I.frames[-1].name, name))
        return None

    def on_event(self, I, st, node, kind, data):
        if kind == "extset":
            self.process.append((I.where(node), I.frames[-1].name, "set " + str(data["name"])))


PROCESS = {
    "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.setpriority",
    "os.setuid", "os.setgid", "os.chroot", "os.dup2", "os.setpgid", "os.setsid", "os._exit",
    "os.kill", "os.killpg", "os.abort", "sys.exit", "sys.setrecursionlimit", "sys.settrace",
    "sys.setprofile", "sys.setswitchinterval", "sys.setdefaultencoding", "locale.setlocale",
    "signal.signal", "signal.alarm", "signal.setitimer", "random.seed", "numpy.random.seed",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
    "pandas.set_option", "pandas.reset_option", "pandas.options", "numpy.seterr",
    "numpy.set_printoptions", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze",
    "resource.setrlimit", "socket.setdefaulttimeout", "logging.basicConfig", "logging.disable",
    "atexit.register", "tempfile.tempdir", "matplotlib.use", "matplotlib.rc",
    "matplotlib.rcdefaults", "matplotlib.rc_file", "matplotlib.style.use",
    "matplotlib.pyplot.style.use", "matplotlib.pyplot.rc", "matplotlib.pyplot.switch_backend",
    "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "faulthandler.enable", "time.tzset",
    "decimal.setcontext", "multiprocessing.set_start_method", "threading.setprofile",
    "threading.settrace", "threading.stack_size", "importlib.reload", "builtins.setattr",
}
CONTAINERS = ("os.environ.", "os.environb.", "sys.path.", "sys.modules.", "sys.argv.", "sys.meta_path.",
              "warnings.filters.", "matplotlib.rcParams.", "matplotlib.pyplot.rcParams.")
READS = {"get", "keys", "items", "values", "copy", "index", "count", "find_all"}


def changes_process(name):
    if name in PROCESS and name != "builtins.setattr":
        return True
    return any(name.startswith(c) and name[len(c):] not in READS for c in CONTAINERS)


# ------------------------------------------------------------- arguments

class Arg(object):
    """an argument of an entry point"""

    def __init__(self, make):
        self.make = make


def given(name, kind=None):
    """something of the caller's"""
    return Arg(lambda I, st, node: S.param(name, kind))


def trace(name="trace"):
    return Arg(lambda I, st, node: unk(T.mk("traceroot", name)))


def frame(name="frame"):
    return Arg(lambda I, st, node: unk(T.mk("traceroot", name), "df"))


def listof(name, *args):
    """a list of the caller's"""
    def make(I, st, node):
        v = I.newlist(st, node, [a.make(I, st, node) for a in args], None, extra=name)
        return tagged(st, v, "param:" + name)
    return Arg(make)


def dictof(name, **entries):
    def make(I, st, node):
        o = Obj("dict", entries={("c", "str", k): a.make(I, st, node) for k, a in entries.items()})
        o.x["tags"] = frozenset(["param:" + name])
        return V((("r", I.alloc(st, node, o, "arg" + name)),))
    return Arg(make)


def tagged(st, v, tag):
    oid = v.one()[1]
    o = st.get(oid).copy()
    o.x["tags"] = frozenset([tag])
    st.put(oid, o)
    return v


def C(x):
    return Arg(lambda I, st, node: const(x))


def Q(dotted):
    return Arg(lambda I, st, node: I.glob(dotted))


# ------------------------------------------------------------- entry points

EVENTS = {"thermal": [("cpu_out_power", "trappy.cpu_power.CpuOutPower"),
                      ("cpu_in_power", "trappy.cpu_power.CpuInPower"),
                      ("devfreq_in_power", "trappy.devfreq_power.DevfreqInPower"),
                      ("devfreq_out_power", "trappy.devfreq_power.DevfreqOutPower"),
                      ("thermal", "trappy.thermal.Thermal"),
                      ("thermal_governor", "trappy.thermal.ThermalGovernor"),
                      ("pid_controller", "trappy.pid_controller.PIDController")],
          "sched": [("sched_switch", "trappy.sched.SchedSwitch")],
          "dynamic": []}

FEW = {"thermal": EVENTS["thermal"][:1],
       "sched": [("sched_switch", "trappy.sched.SchedSwitch"),
                 ("sys_exit", "trappy.raw_syscalls.SysExit"),
                 ("clock_set_rate", "trappy.common_clk.CommonClkSetRate")],
       "dynamic": []}

# they are what makes the trace's data
MAKERS = {"finalize_object", "finalize_objects", "append_data", "create_dataframe", "read_csv",
          "normalize_time", "optimize_dataframe", "register_parser", "unregister_parser",
          "trace_hasnt_started", "trace_hasnt_finished", "add_parsed_event",
          "generate_parsed_data"}

# parameters of the functions and methods of the package
PARAMS = {
    "trace": [trace()], "trappy_trace": [trace()], "runs": [listof("runs", trace(), trace("trace2"))],
    "traces": [trace(), listof("traces", trace(), trace("trace2")), frame(),
               listof("traces", frame(), frame("frame2"))],
    "dfr": [given("dfr", "df")], "data_frame": [given("data_frame", "df")], "data": [given("data", "df")],
    "map_label": [given("map_label", "dict")], "mapping_label": [given("mapping_label", "dict")],
    "actor_order": [given("actor_order", "list")], "actor_weights": [given("actor_weights", "list")],
    "s_x": [given("s_x", "series")], "s_y": [given("s_y", "series")], "mask": [given("mask", "series")],
    "title": [given("title", "str")], "expr": [given("expr", "str")], "path": [given("path", "str")],
    "width": [given("width", "float"), C(None)], "height": [given("height", "float"), C(None)],
    "fn_map": [given("fn_map", "dict")], "filters": [given("filters", "dict")],
    "rgb_list": [given("rgb_list", "list")], "array_lengths": [given("array_lengths", "dict")],
    "string": [given("string", "str")], "data_str": [given("data_str", "str")],
    "key": [given("key", "str")], "fname": [given("fname", "str")], "lst": [given("lst", "list")],
    "execnames": [given("execnames", "list"), given("execnames", "str"), C(None)],
    "pids": [given("pids", "list"), C(None)], "column": [given("column", "str")],
    "template": [Q("trappy.sched.SchedSwitch")], "level": [given("level", "str")],
    "indexers": [given("indexers", "list")], "index": [given("index", "int")],
    "delta": [given("delta", "float")], "per_line": [given("per_line", "int")],
}


def signature(st, f):
    """([name], [name with a default]) of a function"""
    if f[0] == "b":
        f = f[2]
    o = st.get(f[1])
    if o.kind != "func":
        return None
    a = o.x["node"].args
    names = [x.arg for x in a.posonlyargs + a.args]
    n = len(names) - len(a.defaults)
    return names[:n], names[n:], a.kwonlyargs


def argument_sets(st, f, bound):
    """[[Arg]] for the parameters of a function, the optional ones too"""
    sig = signature(st, f)
    if sig is None:
        return []
    req, opt, _ = sig
    if bound:
        req = req[1:]
    names = req + opt
    n = max([len(PARAMS.get(x, ())) for x in names] + [1])
    out = []
    for i in range(n):
        args = []
        for x in names:
            p = PARAMS.get(x) or [given(x)]
            args.append(p[i % len(p)])
        out.append(args)
    if opt:
        out.append(out[0][:len(req)])
    return out


def make(I, st, node, args, kw):
    return ([a.make(I, st, node) for a in args], {k: a.make(I, st, node) for k, a in kw.items()})


class Steps(object):
    """an entry point: make an object, and call its methods"""

    def __init__(self, key, fn, args=(), kw=None, then=(), lines=False, regs=None):
        self.key, self.fn, self.args, self.kw, self.then = key, fn, args, kw or {}, then
        self.lines, self.regs = lines, regs

    def build(self, I, st, node):
        if self.regs:
            S.set_registries(I, st, self.fn, self.regs)
        a, kw = make(I, st, node, self.args, self.kw)
        outs = I.call(st, node, I.glob(self.fn), a, kw)
        made = outs
        for i, m in enumerate(self.then):
            m = (m,) if not isinstance(m, tuple) else m
            name, margs, mkw = m + ((), {})[len(m) - 1:]
            nxt = []
            for s, v in outs:
                for s2, g in I.load_attr(node, s, v, name):
                    a, kw = make(I, s2, node, margs, mkw)
                    for s3, _ in I.call(s2, S.root_node(i + 1), g, a, kw):
                        nxt.append((s3, v))
            # one that fails doesn't keep the others from being called
            outs = nxt or outs
        return outs


def PLOT(fn, key, args, kw, then=("view", ("view", [], {"test": C(True)}))):
    return Steps(fn.rpartition(".")[2] + ":" + key, fn, args, kw, then)


SW = Q("trappy.sched.SchedSwitch")
TWOTRACES = listof("traces", trace(), trace("trace2"))


def triggers(name="triggers"):
    def mk(I, st, node):
        out = []
        for i in range(2):
            r = I.call(st, S.root_node(100 + i), I.glob("trappy.stats.Trigger.Trigger"),
                       [unk(T.mk("traceroot", "trace")), I.glob("trappy.sched.SchedSwitch"),
                        S.param("filters", "dict"), S.param("value"), S.param("pivot")], {})
            if len(r) != 1:
                raise AnalysisError("a Trigger can't be made")
            out.append(r[0][1])
        return tagged(st, I.newlist(st, node, out, None, extra=name), "param:" + name)
    return Arg(mk)


def topology():
    def mk(I, st, node):
        r = I.call(st, S.root_node(110), I.glob("trappy.stats.Topology.Topology"),
                   [listof("clusters", listof("cluster0", C(0), C(1)),
                           listof("cluster1", C(2), C(3))).make(I, st, node)], {})
        if len(r) != 1:
            raise AnalysisError("a Topology can't be made")
        return r[0][1]
    return Arg(mk)


def aggregator(k=0):
    def mk(I, st, node):
        r = I.call(st, S.root_node(120 + k), I.glob("trappy.stats.Aggregator.MultiTriggerAggregator"),
                   [triggers().make(I, st, node), topology().make(I, st, node),
                    S.param("aggfunc", "func")], {})
        if len(r) != 1:
            raise AnalysisError("an aggregator can't be made")
        return r[0][1]
    return Arg(mk)


def steps():
    out = []
    for n in ("LinePlot", "ILinePlot", "BarPlot"):
        fn = "trappy." + n
        base = dict(column=given("column", "str"), pivot=given("pivot", "str"),
                    filters=given("filters", "dict"))
        out += [
            PLOT(fn, "trace", [trace()], dict(base, templates=SW)),
            PLOT(fn, "traces", [TWOTRACES], dict(
                column=listof("column", C("a"), C("b")), templates=listof("templates", SW, SW),
                pivot=given("pivot", "str"), filters=dictof("filters", a=listof("filter", C(1))))),
            PLOT(fn, "frame", [frame()], dict(base)),
            PLOT(fn, "frames", [listof("frames", frame(), frame("frame2"))],
                 dict(column=listof("column", C("a"), C("b")))),
            PLOT(fn, "permute", [TWOTRACES], dict(
                column=listof("column", C("a"), C("b")), templates=SW, permute=C(True),
                title=given("title", "str"), width=given("width", "float"))),
            PLOT(fn, "concat", [TWOTRACES], dict(
                column=C("a"), templates=SW, concat=C(True), pivot=given("pivot", "str"),
                map_label=given("map_label", "dict"))),
            PLOT(fn, "limits", [trace()], dict(
                column=C("a"), templates=SW, xlim=given("xlim", "list"), ylim=given("ylim", "list"),
                map_label=given("map_label", "dict"), per_line=given("per_line", "int"))),
            PLOT(fn, "keywords", [frame()], {"column": C("a"), "**": given("keywords")},
                 () if n == "ILinePlot" else ("view",)),
            PLOT(fn, "signals", [trace()], dict(signals=listof("signals", C("sched_switch:prio")))),
        ]
    out += [
        PLOT("trappy.ILinePlot", "options2", [TWOTRACES], dict(
            column=given("column", "str"), templates=SW, step_plot=C(True), fill=C(True),
            sync_zoom=C(True), drawstyle=given("drawstyle", "str"), group=given("group", "str"),
            color_map=given("color_map", "list"), scatter=C(True))),
        PLOT("trappy.LinePlot", "options2", [TWOTRACES], dict(
            column=given("column", "str"), templates=SW, fill=C(True), alpha=given("alpha", "float"),
            scatter=C(True), fill_alpha=given("fill_alpha", "float"), linestyle=given("linestyle")),
            ("view", ("savefig", [given("path", "str")]))),
        PLOT("trappy.EventPlot", "lanes", [given("data", "dict"), given("keys", "list"), given("domain", "list")],
             dict(lanes=given("lanes", "list"), color_map=given("color_map", "dict")), ("html", "view")),
        PLOT("trappy.EventPlot", "num_lanes", [given("data", "dict"), given("keys", "list"), given("domain", "list")],
             dict(num_lanes=given("num_lanes", "int")), ("html", "view")),
        Steps("Topology", "trappy.stats.Topology.Topology", [given("clusters", "list")], {},
              ("flatten", ("get_level", [given("level", "str")]),
               ("get_index", [given("level", "str"), given("node")]),
               ("get_node", [given("level", "str"), given("index", "int")]),
               ("level_span", [given("level", "str")]), ("has_level", [given("level", "str")]),
               ("add_to_level", [given("level", "str"), given("level_vals", "list")]),
               "flatten", ("get_level", [given("level", "str")]))),
        Steps("Topology:default", "trappy.stats.Topology.Topology", [], {},
              (("add_to_level", [C("cluster"), given("level_vals", "list")]), "flatten")),
        Steps("Trigger", "trappy.stats.Trigger.Trigger",
              [trace(), SW, given("filters", "dict"), given("value"), given("pivot", "str")], {},
              (("generate", [given("pivot_val")]),)),
        Steps("Trigger:list", "trappy.stats.Trigger.Trigger",
              [trace(), SW, dictof("filters", a=listof("filter", C(1)), b=given("b")), C("col"), C("cpu")], {},
              (("generate", [given("pivot_val")]),)),
        Steps("Aggregator", "trappy.stats.Aggregator.MultiTriggerAggregator",
              [triggers(), topology(), given("aggfunc", "func")], {},
              (("aggregate", [], dict(level=given("level", "str"), value=given("value"))),
               ("aggregate", [], dict(level=given("level", "str"))))),
        Steps("Aggregator:plain", "trappy.stats.Aggregator.MultiTriggerAggregator",
              [triggers(), topology()], {}, ("aggregate", "aggregate")),
        Steps("Correlator", "trappy.stats.Correlator.Correlator", [aggregator(0), aggregator(1)],
              dict(corrfunc=given("corrfunc", "func")),
              (("correlate", [given("level", "str")]), ("plot", [given("level", "str")]))),
        Steps("Parser", "trappy.stats.grammar.Parser", [trace()],
              dict(pvars=given("pvars", "dict"), filters=given("filters", "dict"), window=given("window", "list")),
              (("solve", [given("expr", "str")]), ("inspect", [given("accessor", "str")]),
               ("ref", [given("mask", "series")]), ("solve", [given("expr", "str")]))),
        Steps("ConstraintManager", "trappy.plotter.Constraint.ConstraintManager",
              [listof("traces", trace(), trace("trace2")), listof("columns", C("a")),
               listof("templates", SW), given("pivot", "str"), given("filters", "dict")], {},
              (("generate_pivots", [C(True)]), ("generate_pivots", []), "constraint_labels")),
        Steps("ColorMap", "trappy.plotter.ColorMap.ColorMap", [given("num_colors", "int")], {},
              (("cmap", [given("index", "int")]), ("cmap_inv", [given("index", "int")]))),
        Steps("PlotLayout", "trappy.plotter.PlotLayout.PlotLayout",
              [given("cols", "int"), given("num_plots", "int")], dict(width=given("width", "float")),
              (("get_axis", [given("index", "int")]), ("finish", [given("index", "int")]))),
        Steps("SysfsExtractor", "trappy.wa.sysfs_extractor.SysfsExtractor", [given("path", "str")], {},
              ("get_parameters", "pretty_print_in_ipython")),
        Steps("SysTrace", "trappy.SysTrace", [given("path", "str")], dict(
            events=listof("events", C("sched_switch"), C("my_event"))), lines=True, regs=FEW),
        Steps("SysTrace:events", "trappy.SysTrace", [given("path", "str")], dict(
            events=given("events", "list"), window=given("window", "list")), regs=FEW),
        Steps("FTrace:events", "trappy.FTrace", [given("path", "str")],
              dict(events=listof("events", C("sched_switch"), C("my_event")), window=given("window", "list"),
                   abs_window=given("abs_window", "list")), lines=True),
        Steps("FTrace:string", "trappy.FTrace", [given("path", "str")], dict(events=given("events", "str"))),
        Steps("FTrace:scope", "trappy.FTrace", [given("path", "str"), given("name", "str")],
              dict(scope=given("scope", "str"), events=listof("events", C("my_event")),
                   normalize_time=given("normalize_time")), regs=FEW),
        Steps("FTrace:sched", "trappy.FTrace", [given("path", "str")],
              dict(scope=C("sched"), events=listof("events", C("my_event"))), regs=FEW),
        Steps("FTrace:thermal", "trappy.FTrace", [given("path", "str")],
              dict(scope=C("thermal"), events=given("events", "list")), regs=FEW),
        Steps("FTrace:plain", "trappy.FTrace", [given("path", "str")], {},
              (("apply_callbacks", [given("fn_map", "dict")]), "get_duration", "__str__"),
              lines=True, regs=FEW),
        Steps("BareTrace", "trappy.BareTrace", [given("name", "str")], {},
              (("add_parsed_event", [C("my_event"), given("dfr", "df"), given("pivot", "str")]),
               "finalize_objects", "get_duration", "get_filters", ("get_filters", [given("key", "str")]))),
    ]
    return out


def methods(st, a):
    """{name: function} of a class's public methods in the package"""
    out = {}
    for c in st.get(a[1]).x["mro"]:
        if c[0] != "r":
            continue
        for k, v in st.get(c[1]).attrs.items():
            f = v.one()
            if k.startswith("_") or k in out or not f or f[0] != "r":
                continue
            if st.get(f[1]).kind == "func":
                out[k] = f
    return out


def opened(I, st, node, cls):
    """an opened trace whose data is the user's: [(state, trace, [(name, event)])]"""
    S.set_registries(I, st, cls, EVENTS)
    c = I.glob(cls)
    o = st.get(c.one()[1]).copy()
    o.attrs = dict(o.attrs, disable_cache=S.TRUE)
    st.put(c.one()[1], o)
    out = []
    for s, v in I.call(st, node, c, [S.param("path", "str")], {}):
        to, insts = trace_insts(s, v)
        evs = []
        for e in insts:
            eo = s.get(e[1]).copy()
            n = clsname(s, e)
            eo.attrs = dict(eo.attrs, data_frame=unk(T.mk("traceroot", "data_frame of " + str(n)), "df"))
            eo.x = dict(eo.x, tags=frozenset(["trace:event " + str(n)]))
            s.put(e[1], eo)
            evs.append((n, V((e,))))
        s.put(v.one()[1], mark(s.get(v.one()[1]), "trace:trace"))
        out.append((s, v, evs))
    return out


def mark(o, tag):
    o = o.copy()
    o.x = dict(o.x, tags=frozenset([tag]))
    return o


def is_data(st0, e):
    """an attribute of a trace or an event that's set is part of its data"""
    if not str(e.get("how", "")).startswith("set .") or e.get("oid") is None or not st0.has(e["oid"]):
        return True
    v = st0.get(e["oid"]).attrs.get(e.get("key"))
    a = v.one() if v is not None else None
    if a is None:
        return v is not None
    return a != ("c", "NoneType", None) and a[0] != "r" or (
        a[0] == "r" and st0.get(a[1]).kind not in ("dict", "list", "set"))


class Sweep(object):
    """the effects of a set of calls"""

    def __init__(self):
        self.res = {"R02": Res(), "R03": Res(), "R04": Res()}
        self.lines = set()

    def judge(self, key, I, cfg, events, st0=None):
        bad = {"R02": {}, "R03": {}, "R04": {}}
        for e in events:
            if e["kind"] != "mutate":
                continue
            where, fn = e["where"], e["func"]
            for r in e["regions"]:
                r = str(r)
                if r == "global":
                    bad["R02"].setdefault("%s:%s" % (fn, e["how"]), (where, e))
                elif r == "default":
                    bad["R03"].setdefault("%s:default:%s" % (fn, e["how"]), (where, e))
                elif r.startswith("param:"):
                    if not str(e["how"]).startswith("aug?"):
                        bad["R03"].setdefault("%s:%s:%s" % (fn, r[6:], e["how"]), (where, e))
                elif r.startswith("trace:"):
                    if not str(e["how"]).startswith("aug?") and (st0 is None or is_data(st0, e)):
                        bad["R04"].setdefault("%s:%s:%s" % (fn, r[6:], e["how"]), (where, e))
        for w, fn, name in cfg.process:
            bad["R02"].setdefault("%s:%s" % (fn, name), (w, None))
        text = {"R02": "state of the process is modified: ", "R03": "an argument is modified: ",
                "R04": "data of the trace is modified: "}
        rule = {"R02": "process-unchanged", "R03": "arguments-unchanged", "R04": "data-unchanged"}
        for p, b in bad.items():
            for k, (w, e) in sorted(b.items()):
                self.res[p].ob(rule[p], k, False, w, text[p] + k + " (in %s)" % key)
            if not b:
                self.res[p].ob(rule[p], key, True, "trappy", "")
            self.res[p].count("entry points")
            self.res[p].seen(I)


def analyse(key, build, sweep, lines=False):
    cfg = EffectsConfig(lines)
    st0 = []

    def b(I, st, node):
        return build(I, st, node, st0)
    r = S.run(REPO, cfg, b, mods=S.allmods(REPO))
    sweep.judge(key, r.I, cfg, r.events, st0[0] if st0 else None)
    sweep.lines |= r.I.lines
    return r


def _steps(i):
    sw = Sweep()
    e = steps()[i]
    r = analyse(e.key, lambda I, st, node, st0: e.build(I, st, node), sw, e.lines)
    return sw, (e.key, len(r.exits))


def _methods(cls, part):
    """the public methods of a trace or of its events"""
    sw = Sweep()
    n = [0]

    def build(I, st, node, st0):
        outs = []
        for s, v, evs in opened(I, st, node, cls):
            I.events = [e for e in I.events if e["kind"] != "mutate"]
            st0.append(s)
            objs = [("trace", v)] if part == "trace" else evs
            for k, (name, o) in enumerate(objs):
                for m, f in sorted(methods(s, s.get(o.one()[1]).cls).items()):
                    if m in MAKERS:
                        continue
                    for g, args in enumerate(argument_sets(s, f, True)):
                        s1 = s.copy()
                        for s2, fn in I.load_attr(node, s1, o, m):
                            a, _ = make(I, s2, node, args, {})
                            n[0] += 1
                            I.call(s2, S.root_node(1 + 50 * k + g), fn, a, {})
                        outs.append((s, NONE_))
        return outs
    analyse(cls.rpartition(".")[2] + ":" + part, build, sw)
    return sw, (cls + part, n[0])


NONE_ = const(None)


def functions(I, st):
    """[(qualified name, function)] of the public functions of the package's modules"""
    out = []
    for m in S.allmods(REPO):
        mo = I.modules_obj(m, st) if hasattr(I, "modules_obj") else None
        attrs = st.get(("module", m)).attrs if st.has(("module", m)) else {}
        for k, v in sorted(attrs.items()):
            f = v.one()
            if k.startswith("_") or not f or f[0] != "r" or not st.has(f[1]):
                continue
            o = st.get(f[1])
            if o.kind == "func" and o.x.get("qual") == m + "." + k:
                out.append((m + "." + k, f))
    return out


def _functions(part, parts):
    sw = Sweep()
    n = [0]

    def build(I, st, node, st0):
        outs = []
        for j, (q, f) in enumerate(functions(I, st)):
            if j % parts != part or q.endswith("register_forwarding_arg") or "register" in q:
                continue
            for g, args in enumerate(argument_sets(st, f, False)):
                s = st.copy()
                a, _ = make(I, s, node, args, {})
                n[0] += 1
                I.call(s, S.root_node(1 + 50 * j + g), V((f,)), a, {})
            outs.append((st, NONE_))
        return outs
    analyse("functions of the modules", build, sw)
    return sw, ("functions", n[0])


def jobs():
    out = [(_steps, (i,)) for i in range(len(steps()))]
    for cls in TRACES:
        for part in ("trace", "events"):
            out.append((_methods, (cls, part)))
    out += [(_functions, (k, 4)) for k in range(4)]
    return out


def _job(prop, fn, args):
    def late(*_):
        raise AnalysisError("took too long")
    res = Res()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(240)
    try:
        sw, info = fn(*args)
    except AnalysisError as e:
        # the others still count
        res.count("entry points not analysed")
        res.notes.append("not analysed: %s%r: %s" % (fn.__name__, args, e))
        return res
    finally:
        signal.alarm(0)
    res = sw.res[prop]
    res.count("calls", info[1])
    res.count("statements reached", len(sw.lines))
    return res


def _effects(prop):
    res = pmap(_job, [(prop, fn, args) for fn, args in jobs()])
    if res.counts.get("entry points not analysed", 0) > 8:
        raise AnalysisError("; ".join(res.notes))
    return res


SWEEP = ("every public class of the plotting, statistics, work-load and trace modules is created and "
         "its public methods are called, and so is every public function and every public method of traces "
         "and of their events, with arguments of every documented kind, in an abstract evaluation of the "
         "sources that joins all paths; each store, in-place method and in-place operator is "
         "followed to the objects it can change, through attributes, containers, aliases and views; ")


def r02():
    return _effects("R02"), dict(
        explanation=SWEEP + "none of them may be a module's or class's object that existed before the "
        "call, nor an attribute of an external module, nor the process's own state (directory, environment, "
        "random seed, warnings, options); registering parsers and forwarded arguments are excepted",
        assumptions=["the listed process-changing functions of the standard library, pandas, numpy and "
                     "matplotlib are all there are",
                     "functions of the user's that the library calls change nothing of the process"],
        floors={"process-unchanged": 25})


def r03():
    return _effects("R03"), dict(
        explanation=SWEEP + "none of them may be an argument of the call, or part of it, or a "
        "parameter's default value",
        assumptions=["pandas, numpy and matplotlib change their arguments only where their documentation "
                     "says so", "functions of the user's change nothing"],
        floors={"arguments-unchanged": 25})


def r04():
    return _effects("R04"), dict(
        explanation=SWEEP + "none of them may be a trace, an event or an event's data frame that was made "
        "before the call, or a view of one",
        assumptions=["pandas, numpy and matplotlib change their arguments only where their documentation "
                     "says so", "functions of the user's change nothing",
                     "attributes that only keep results computed before (None before they're set, or a "
                     "dictionary) are no data"],
        floors={"data-unchanged": 25})
