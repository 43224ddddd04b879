"""How binary traces are converted: T01."""
from .ctorlib import *

NONE_ = const(None)
RAW = (("sched", "Wakeup", True), ("thermal", "RawThermal", True), ("all", "Func", True),
       ("sched", "PlainSched", False), ("thermal", "PlainThermal", False),
       ("all", "PlainDynamic", False))


FEW = {"thermal": [("thermal", "trappy.thermal.Thermal")],
       "sched": [("sched_switch", "trappy.sched.SchedSwitch"),
                 ("sched_wakeup", "trappy.sched.SchedWakeup")],
       "dynamic": [("function", "trappy.function.FunctionTracer"),
                   ("sys_exit", "trappy.raw_syscalls.SysExit")]}


def words(v):
    """the text of a command's argument, or None"""
    a = v.one()
    return a[2] if a and a[0] == "c" and isinstance(a[2], str) else None


class T01Config(CtorConfig):
    softs = ("ghost-hard", "no-lines")
    objs = 400

    def __init__(self, res, name, isdir):
        CtorConfig.__init__(self, isdir, True)
        self.res, self.name = res, name
        self.raw = None
        self.trace = None
        self.seen = 0

    def exec_labels(self, I, st, cmd):
        return ("X:stdout",)

    def raises(self, I, st, node, what, labels, argterms):
        return ("subprocess.CalledProcessError", "OSError") if what == "subprocess" else ()

    def ob(self, rule, key, ok, where, msg):
        self.res.ob(rule, self.name + ":" + key, ok, where, msg)

    def on_event(self, I, st, node, kind, data):
        if kind == "exec" and not I.loading:
            self.command(I, st, node, data)
        if kind != "fs":
            return
        paths = [t for t in terms_of(data["path"]) if is_temp(t)] if data.get("path") is not None else []
        op = data["op"]
        for t in paths:
            if op == "write":
                st.ghost = st.ghost | {("dirty", t), ("written", t)}
                self.output(I, node, data)
            elif op in ("close", "flush"):
                st.ghost = st.ghost - {("dirty", t)}
            elif op == "open-r":
                self.ob("whole-output-is-parsed", I.frames[-1].name, ("dirty", t) not in st.ghost and
                        ("written", t) in st.ghost, I.where(node),
                        "the converted trace is read before it's written to its file")
                self.succeeded(I, st, node)
        if op == "open-r" and not paths and ("ran",) in st.ghost and \
                not any(self.is_cache(t) for t in terms_of(data["path"])):
            bad = [t for t in terms_of(data["path"]) if t in self.trace]
            self.ob("whole-output-is-parsed", I.frames[-1].name + ":text", not bad or "b" in str(data.get("mode")),
                    I.where(node), "the binary trace itself is read as text")

    def command(self, I, st, node, data):
        self.seen += 1
        where = I.where(node)
        st.ghost = st.ghost | {("ran",)}
        sh = data["kw"].get("shell")
        self.ob("no-shell", I.frames[-1].name,
                data["what"].startswith("subprocess.") and data["what"] not in (
                    "subprocess.getoutput", "subprocess.getstatusoutput") and
                (sh is None or sh.one() in (("c", "bool", False), ("c", "NoneType", None))), where,
                "trace-cmd is run by a shell, which interprets the path")
        chk = data["kw"].get("check")
        if data["what"] in ("subprocess.check_output", "subprocess.check_call") or (
                chk is not None and chk.one() == ("c", "bool", True)):
            st.ghost = st.ghost | {("checked",)}
        for k, items, summ in data["cmds"]:
            if k not in ("list", "tuple", "t"):
                self.ob("arguments", I.frames[-1].name, False, where,
                        "the command isn't a list of arguments")
                continue
            if k == "t":
                items = items[1]
            if items is None:
                bad = [t for t in (terms_of(summ) if summ is not None else ())
                       if any(x in self.trace for x in t.subs()) and t not in self.trace]
                if bad:
                    self.ob("arguments", I.frames[-1].name + ":path", False, where,
                            "the path of the trace isn't one argument by itself: %s" % bad)
                self.res.count("commands not decided")
                continue
            self.arguments(I, where, list(items))

    def arguments(self, I, where, items):
        key = I.frames[-1].name
        w = [words(v) for v in items]
        self.ob("arguments", key, w[:2] == ["trace-cmd", "report"], where,
                "it doesn't run trace-cmd report")
        raw, rest, i = [], [], 2
        while i < len(items):
            if w[i] in ("-r", "--raw-event") and i + 1 < len(items):
                raw.append(w[i + 1])
                i += 2
                continue
            rest.append(i)
            i += 1
        opts = [w[i] for i in rest if w[i] is not None]
        other = [items[i] for i in rest if w[i] is None]
        self.ob("arguments", key + ":times", opts.count("-t") == 1, where,
                "times aren't asked for in full precision (-t)")
        self.ob("arguments", key + ":options", not [o for o in opts if o not in ("-t", "-i", "--")], where,
                "unexpected options: %s" % [o for o in opts if o != "-t"])
        ok = len(other) == 1 and set(terms_of(other[0])) <= self.trace
        self.ob("arguments", key + ":path", ok, where,
                "the path of the trace isn't one argument by itself: %s" % (other,))
        for n in sorted(self.raw):
            self.ob("raw-events", n, n in raw, where,
                    "the event %s isn't asked for in raw format, though its parser needs it" % n)
        for n in sorted({str(x) for x in raw} - self.raw):
            self.ob("raw-events", n, False, where,
                    "the event %s is asked for in raw format, though its parser needs it formatted" % n)

    def output(self, I, node, data):
        v = data.get("value")
        ok = "X:stdout" in data["labels"]
        if v is not None and ok:
            # nothing of it is left out
            ts = terms_of(v)
            ok = all(self.whole(t) for t in ts)
        self.ob("whole-output-is-parsed", I.frames[-1].name + ":written", ok, I.where(node),
                "what's written isn't exactly what trace-cmd printed")

    def whole(self, t):
        while t.op != "stdout":
            if t.op in ("decode", "encode"):
                t = t.args[0]
            elif t.op in ("mcall", "call") and len(t.args) > 1 and str(t.args[0]) in ("decode", "encode"):
                t = t.args[1]
            elif t.op == "elem":
                t = t.args[1]
            else:
                return False
        return True

    def succeeded(self, I, st, node):
        if ("ran",) not in st.ghost:
            return
        ok = ("checked",) in st.ghost or any(
            has_op(x, "returncode") for f in st.facts for x in f if isinstance(x, T))
        self.ob("failure-is-reported", I.frames[-1].name, ok, I.where(node),
                "what a trace-cmd that failed printed is parsed")


def _t01(isdir, where, full):
    res = Res()
    cfg = T01Config(res, where, isdir)

    def build(I, st, node):
        if not full:
            S.set_registries(I, st, "trappy.ftrace.FTrace", FEW)
        outs = [(st, None)]
        for i, (scope, name, raw) in enumerate(RAW):
            nxt = []
            for s, _ in outs:
                nxt += I.call(s, S.root_node(i + 1), I.glob("trappy.dynamic.register_dynamic_ftrace"),
                              [const(name), const("x_%d_y:" % i)],
                              {"scope": const(scope), "parse_raw": const(raw)})
            outs = nxt
        done = []
        for s, _ in outs:
            g = s.get(I.glob("trappy.ftrace.GenericFTrace").one()[1])
            raw, some = set(), set()
            for sc in ("thermal", "sched", "dynamic"):
                d = s.get(g.attrs[sc + "_classes"].one()[1])
                for k, c in d.entries.items():
                    if c.one() == ("c", "NoneType", None):
                        continue
                    pr = I.class_attr(s, c.one(), "parse_raw")
                    nm = I.class_attr(s, c.one(), "name")
                    if pr is not None and nm is not None and words(nm):
                        some.add(words(nm))
                        if pr.one() == ("c", "bool", True):
                            raw.add(words(nm))
            cfg.raw = raw
            res.ob("raw-parsers", where, {"wakeup", "raw_thermal", "func"} <= raw and
                   not {"plain_sched", "plain_thermal", "plain_dynamic"} & raw, "trappy/dynamic.py",
                   "asking for raw output when registering has no effect: %s" % sorted(raw))
            c = I.glob("trappy.ftrace.FTrace")
            o = s.get(c.one()[1]).copy()
            o.attrs = dict(o.attrs, disable_cache=S.TRUE)
            s.put(c.one()[1], o)
            p = S.param("path", "str")
            t, dat = p.one()[2], aterm(("c", "str", ".dat"))
            cfg.trace = {T.mk("pjoin", t, aterm(("c", "str", "trace.dat"))),
                         T.mk("cat", T.mk("pjoin", t, aterm(("c", "str", "trace"))), dat)} if isdir else {
                             t, T.mk("cat", T.mk("splitext0", t), dat)}
            done += I.call(s, S.root_node(99), c, [p], {})
        return done
    r = S.run(REPO, cfg, build)
    res.seen(r.I)
    if not cfg.seen:
        raise AnalysisError("no command is run")
    return res


def t01():
    res = pmap(_t01, [(False, "file", False), (True, "directory", False)] +
               ([(False, "all", True)] if deep() else []))
    return res, dict(
        explanation="the construction of an FTrace from a .dat file and from a directory is evaluated abstractly "
        "with parsers of the library and a generic parser of either kind in each scope (the thorough check: with every "
        "parser of the library): the argument "
        "vector of the command that's run is compared, element by element, with trace-cmd's interface, and what it "
        "prints is followed to the file that's parsed",
        assumptions=["trace-cmd report -t -r EVENT... FILE prints the trace",
                     "the path doesn't start with a dash"],
        floors={"arguments": 4, "raw-events": 6, "no-shell": 1, "whole-output-is-parsed": 2,
                "failure-is-reported": 1})
