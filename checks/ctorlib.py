"""Shared parts of the checks of how a trace is opened."""
import os

from sa.core import Config, AnalysisError, exc_norm, exc_ancestors
from sa.values import V, T, EMPTY, term, aterm, const
from sa import scenario as S
from sa.report import Res, pmap, REPO

TRACES = ("trappy.ftrace.FTrace", "trappy.systrace.SysTrace")


def deep():
    return os.environ.get("VERIF_TIER") == "thorough"


class CtorConfig(Config):
    """Assumptions of the scenarios that open a trace"""

    softs = ()
    cachepaths = frozenset()

    def __init__(self, isdir=False, dat=True, assume=None):
        self.isdir = isdir
        self.dat = dat
        self.assume = assume or {}

    def soft(self, name):
        return name in self.softs

    def is_cache(self, t):
        return not is_temp(t) and in_dir(t, self.cachepaths)

    def file_labels(self, I, st, path):
        out = set()
        for t in terms_of(path):
            if self.is_cache(t):
                out.add("D:cache")
            elif t.op != "c":
                out.add("D:trace")
        return frozenset(out)

    def truth(self, I, st, atom, labels):
        if atom[0] != "u":
            return None
        t = atom[2]
        if t.op == "isfile":
            p = t.args[0]
            if p.op == "param":
                return not self.isdir
            last = p.args[-1] if p.op in ("cat", "pjoin") and p.args else None
            if last is not None and last.op == "c" and isinstance(last.args[-1], str):
                if last.args[-1].endswith(".dat"):
                    return self.dat
                if last.args[-1].endswith(".txt"):
                    return not self.dat
        if t.op == "isdir" and t.args[0].op == "param":
            return self.isdir
        if t.op == "param" and t.args[0] in self.assume:
            return self.assume[t.args[0]]
        return None


def terms_of(v):
    return [aterm(a) for a in v.atoms]


def has_op(t, *ops):
    return any(s.op in ops for s in t.subs())


def is_temp(t):
    return has_op(t, "tempname")


def fs_events(r):
    return [e for e in r.events if e["kind"] == "fs"]


WRITES = ("open-w", "write", "mkdir", "makedirs", "rename", "replace", "remove",
          "unlink", "rmdir", "removedirs", "symlink", "link", "truncate",
          "chmod", "chown", "utime", "shutil.rmtree", "shutil.move",
          "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree",
          "shutil.copyfileobj", "renames", "mkfifo", "mknod")


def changed_paths(e):
    """the paths a file system operation changes"""
    out = []
    op = e["op"]
    if op in ("rename", "replace", "renames", "shutil.move"):
        out += [e.get("path"), e.get("dst")]
    elif op in ("shutil.copy", "shutil.copyfile", "shutil.copy2",
                "shutil.copytree", "link", "symlink"):
        out.append(e.get("dst"))
    elif op in WRITES:
        out.append(e.get("path"))
    return [p for p in out if p is not None]


def is_log(t):
    return t.op == "c"


def written_terms(r):
    """every path that opening a trace changes, temporary files excluded"""
    out = set()
    for e in fs_events(r):
        for p in changed_paths(e):
            for t in terms_of(p):
                if not is_temp(t):
                    out.add(t)
    return out


def in_dir(t, dirs):
    """t is one of the paths, or a file of one of them"""
    if t in dirs:
        return True
    if t.op == "pjoin":
        for n in range(1, len(t.args)):
            p = t.args[0] if n == 1 else T.mk("pjoin", *t.args[:n])
            if p in dirs:
                return True
    if t.op == "cat":
        # name.csv.tmp
        return any(isinstance(a, T) and in_dir(a, dirs) for a in t.args[:1])
    return False


_W = {}


def cache_paths(cls, cfgargs, regs):
    """paths that opening a trace with the cache enabled writes"""
    key = (cls, tuple(sorted(cfgargs.items())), repr(regs))
    if key not in _W:
        cfg = CtorConfig(**cfgargs)
        r = S.ctor(REPO, cfg, cls, regs, False)
        _W[key] = (frozenset(written_terms(r)), r)
    return _W[key]


def registries(n=None):
    return {"sched": [("sched_switch", "trappy.sched.SchedSwitch")],
            "dynamic": [("tracing_mark_write", "trappy.fallback.TracingMarkWrite")],
            "thermal": []}


TWO = {"sched": [("sched_switch", "trappy.sched.SchedSwitch"),
                 ("sched_wakeup", "trappy.sched.SchedWakeup")],
       "dynamic": [], "thermal": []}

ONE = {"sched": [("sched_switch", "trappy.sched.SchedSwitch")],
       "dynamic": [], "thermal": []}


def short(t):
    """a path term in words"""
    s = repr(t)
    return s if len(s) < 160 else s[:157] + "..."


def construct(e):
    """stable name of the construct an event is about"""
    return "%s:%s" % (e["func"], e.get("op", e["kind"]))


def trace_insts(s, v):
    """(trace object, [event instances]) of an exit"""
    o = s.get(v.one()[1])
    tc = o.attrs.get("trace_classes")
    out = []
    if tc is not None:
        for a in tc.atoms:
            if a[0] != "r":
                continue
            lo = s.get(a[1])
            for iv in list(lo.items or ()) + ([lo.summ] if lo.summ else []):
                for b in iv.atoms:
                    if b[0] == "r" and b not in out:
                        out.append(b)
    return o, out


def frames_of(s, inst):
    """[(df object)] of an event instance"""
    io = s.get(inst[1])
    v = io.attrs.get("data_frame")
    out = []
    for a in (v.atoms if v is not None else ()):
        if a[0] == "r":
            out.append(s.get(a[1]))
        else:
            out.append(None)
    return out


def clsname(s, inst):
    c = s.get(inst[1]).cls
    if c and c[0] == "r":
        co = s.get(c[1])
        n = co.attrs.get("__name__")
        if n is not None and n.one():
            return str(n.one()[2])
        return str(c[1][1]) if isinstance(c[1], tuple) and len(c[1]) > 1 else str(c)
    return str(c)
