"""The cache of parsed traces: C01 to C05."""
from .ctorlib import *

SCEN = [("trappy.ftrace.FTrace", False, True), ("trappy.ftrace.FTrace", True, False),
        ("trappy.systrace.SysTrace", False, False)]


USER = ("P:window", "P:abs_window", "P:normalize_time", "P:name")


def _c01(cls, isdir, dat):
    res = Res()
    r = S.ctor(REPO, CtorConfig(isdir, dat), cls, registries(), False)
    res.seen(r.I)
    for e in fs_events(r):
        if not [p for p in changed_paths(e) if any(not is_temp(t) for t in terms_of(p))]:
            continue
        labels = frozenset(e.get("labels") or EMPTY) | e["pc"]
        for p in (e.get("path"), e.get("dst")):
            if p is not None:
                labels |= p.labels
        bad = sorted(l for l in labels if isinstance(l, str) and l.startswith(USER))
        res.count("cache_operations")
        res.ob("cache-op-independent-of-user-view", construct(e), not bad, e["where"],
               "what is stored in the cache depends on %s" % ", ".join(
                   b[2:] for b in bad))
    return res


def c01():
    res = pmap(_c01, SCEN)
    return res, dict(
        explanation="information-flow analysis (explicit and implicit flows, calls "
        "inlined, loops to a fixpoint) of everything that runs when a trace is opened: "
        "for every operation that changes a file or directory other than the temporary "
        "file, the labels of the content, of the path and of the conditions it's "
        "controlled by must not contain the window, abs_window, normalize_time and name "
        "parameters",
        floors={"cache-op-independent-of-user-view": 4})


# -------------------------------------------------------------------- C02

def is_json_item(t):
    return t.op == "item" and has_op(t, "json") or t.op == "mcall" and has_op(t, "json")


class CacheFaults(CtorConfig):
    """every operation on the cache may fail"""

    def raises(self, I, st, node, what, labels, argterms):
        cachep = any(isinstance(t, T) and self.is_cache(t) for t in argterms[:2])
        if cachep:
            if what == "read":
                return ("OSError", "UnicodeDecodeError")
            if what == "read_csv":
                return ("OSError", "ValueError", "KeyError", "TypeError")
            if what in ("open-r", "open-w", "write", "to_csv") or \
                    what.startswith(("os.", "shutil.")):
                return ("OSError",)
        if "D:cache" in labels:
            if what == "json.load":
                return ("ValueError",)
            if any(isinstance(t, T) and has_op(t, "json") for t in argterms[:2]):
                if what in ("item", "key", "index", "dfitem"):
                    return ("KeyError", "TypeError", "IndexError")
                if what in ("attr", "umethod"):
                    return ("AttributeError",)
                if what in ("int", "float", "next", "unpack"):
                    return ("ValueError", "TypeError")
                if what in ("len", "arith", "max", "min", "unpack"):
                    return ("TypeError",)
        return ()


class C02Config(CacheFaults):
    softs = ("partial", "ghost-hard", "exc-labels")

    def hard_fact(self, f):
        return f[0] == "T" and has_op(f[1], "digest") and f[1].op != "not"

    def on_event(self, I, st, node, kind, data):
        if kind != "fs":
            return
        p = data.get("path")
        cachedir = p is not None and any(self.is_cache(t) for t in terms_of(p))
        if data["op"] == "mkdir" and cachedir:
            st.ghost = st.ghost - {"uncleared"}
        if data["op"] == "makedirs" and cachedir:
            a = data.get("args") or ()
            if len(a) < 2:
                st.ghost = st.ghost - {"uncleared"}
        if data["op"] == "shutil.rmtree" and cachedir and not data.get("ignore"):
            st.ghost = st.ghost - {"uncleared"}


def uncleared(I, st):
    st.ghost = st.ghost | {"uncleared"}


def digest_facts(facts, digests):
    """[key of the metadata] that a digest of the whole trace was equal to"""
    out = []
    for f in facts:
        if f[0] != "T" or f[2] is not True:
            continue
        t = f[1]
        if t.op == "Eq" or (t.op in ("call", "mcall") and "compare_digest" in str(t.args[0])):
            args = [a for a in t.args if isinstance(a, T)]
            for i, a in enumerate(args):
                for b in args[:i] + args[i + 1:]:
                    ds = [x for x in a.subs() if x.op == "digest"]
                    if ds and all(digests.get(d) for d in ds) and has_op(b, "json"):
                        out.append(b)
    return out


def full_digests(r):
    """digest terms -> computed from the contents of the whole trace file"""
    out = {}
    for e in r.events:
        if e["kind"] == "compare":
            for side in (e["left"], e["right"]):
                for t in terms_of(side):
                    for d in t.subs():
                        if d.op == "digest":
                            ok = "D:trace" in side.labels and "#partial" not in side.labels
                            out[d] = out.get(d, True) and ok
    return out


def item_key(t):
    """the key of the metadata a term reads"""
    while t is not None and isinstance(t, T):
        if t.op == "item" and isinstance(t.args[1], T) and t.args[1].op == "c":
            return t.args[1].args[-1]
        if t.op == "mcall" and t.args[0] == "get" and len(t.args) > 2 and t.args[2].op == "c":
            return t.args[2].args[-1]
        t = next((a for a in t.args if isinstance(a, T) and has_op(a, "json")), None)
    return None


def _c02(cls, isdir, dat):
    res = Res()
    w, _ = cache_paths(cls, dict(isdir=isdir, dat=dat), ONE)
    cfg = C02Config(isdir, dat)
    cfg.cachepaths = w
    r = S.ctor(REPO, cfg, cls, registries() if deep() else ONE, False, prepare=uncleared)
    res.seen(r.I)
    digests = full_digests(r)
    keys = set()
    short_cls = cls.rpartition(".")[2]
    for s, v in r.exits:
        facts = digest_facts(s.facts, digests)
        keys |= {item_key(t) for t in facts}
        o, insts = trace_insts(s, v)
        for i in insts:
            for d in frames_of(s, i):
                h = d.x.get("hist") if d is not None else None
                if not h or h[0][0] != "cache":
                    continue
                res.count("cached_frames_at_exits")
                res.ob("cached-frame-needs-digest-match", "%s:%s" % (short_cls, clsname(s, i)),
                       bool(facts), "trappy/ftrace.py",
                       "events read from the cache are kept on a path where the digest "
                       "of the whole trace file wasn't found equal to the stored one")
        for n, av in o.attrs.items():
            for t in terms_of(av):
                if has_op(t, "json"):
                    res.count("cached_attributes_at_exits")
                    res.ob("cached-attribute-needs-digest-match", "%s:%s" % (short_cls, n),
                           bool(facts), "trappy/ftrace.py",
                           "an attribute read from the cache is kept on a path where the "
                           "digest of the whole trace file wasn't found equal to the "
                           "stored one")
    keys.discard(None)
    for e in r.events:
        if e["kind"] == "jsondump":
            for k in sorted(keys):
                sv = e["snapshot"].get(k)
                ok = sv is not None and all(has_op(t, "digest") for t in terms_of(sv)) \
                    and "D:trace" in sv.labels and "#partial" not in sv.labels
                res.ob("stored-digest-is-of-whole-trace", "%s:%s" % (e["func"], k), ok,
                       e["where"], "the digest stored in the cache isn't that of the "
                       "contents of the whole trace file")
                res.ob("stored-in-emptied-directory", construct(e),
                       "uncleared" not in e["ghost"], e["where"],
                       "the digest is stored in a directory that may still have events "
                       "of another version of the trace")
        if e["kind"] == "fs" and e["op"] in ("write", "rename", "replace"):
            p = e.get("dst") if e["op"] != "write" else e.get("path")
            if p is None or not any(cfg.is_cache(t) for t in terms_of(p)):
                continue
            ok = "uncleared" not in e["ghost"] or bool(digest_facts(e["facts"], digests))
            res.ob("added-to-matching-cache", construct(e), ok, e["where"],
                   "events are added to a cache that wasn't emptied nor found to be of "
                   "this trace")
    return res


def c02():
    res = pmap(_c02, SCEN)
    return res, dict(
        explanation="path-sensitive abstract interpretation of opening a trace: on every "
        "path where data or metadata from the cache survive in the opened trace, the path "
        "condition must include the equality of a digest whose input is the whole content "
        "of the trace file with the digest in the metadata; what's stored under that key "
        "must be such a digest; files are only added to a cache directory emptied on that "
        "path or matched with the digest",
        assumptions=["the trace file isn't modified while it is being opened",
                     "the digest has no collisions"],
        floors={"cached-frame-needs-digest-match": 2, "stored-digest-is-of-whole-trace": 1,
                "added-to-matching-cache": 1, "cached-attribute-needs-digest-match": 2})


# -------------------------------------------------------------------- C03

class C03Config(CacheFaults):
    softs = ("exc-labels", "ghost-hard")

    def on_event(self, I, st, node, kind, data):
        if kind == "fs" and data["op"] == "open-r" and \
                "b" not in (data.get("mode") or "") and \
                not any(self.is_cache(t) or t.op == "c" for t in terms_of(data["path"])):
            st.ghost = st.ghost - {"unparsed"}



class C03FrameConfig(C03Config):
    """only loading events may fail (two event classes: all their combinations)"""

    def raises(self, I, st, node, what, labels, argterms):
        if what != "read_csv":
            return ()
        return C03Config.raises(self, I, st, node, what, labels, argterms)


def _c03(cls, isdir, dat, two=False):
    res = Res()
    w, _ = cache_paths(cls, dict(isdir=isdir, dat=dat), ONE)
    if two:
        cfg = C03FrameConfig(isdir, dat, {"normalize_time": False})
    else:
        cfg = C03Config(isdir, dat)
    cfg.cachepaths = w
    cfg.count = 0

    def prep(I, st):
        st.ghost = st.ghost | {"unparsed"}
    r = S.ctor(REPO, cfg, cls, TWO if two else ONE, False, prepare=prep)
    res.seen(r.I)
    short_cls = cls.rpartition(".")[2]
    n = 0
    for e in fs_events(r):
        ps = [p for p in (e.get("path"), e.get("dst")) if p is not None]
        if any(cfg.is_cache(t) for p in ps for t in terms_of(p)):
            n += 1
            res.ob("cache-operation-may-fail", construct(e), True, e["where"])
    res.count("cache_operations", n)
    for s, x in r.raised:
        if x.origin and x.origin.startswith("lib:"):
            res.ob("cache-operation-may-fail", "%s:%s" % (x.origin, x.type), False, x.site,
                   "%s of a cache operation (%s) ends opening the trace" % (
                       x.type, x.origin[4:]))
    for s, v in r.exits:
        o, insts = trace_insts(s, v)
        for i in insts:
            for d in frames_of(s, i):
                h = d.x.get("hist") if d is not None else None
                cached = bool(h) and h[0][0] == "cache"
                res.ob("not-cached-means-parsed", "%s:%s" % (short_cls, clsname(s, i)),
                       cached or "unparsed" not in s.ghost, "trappy/ftrace.py",
                       "a trace opens without the events being in the cache nor the "
                       "trace file being parsed")
    res.count("exit_paths", len(r.exits))
    return res


def c03():
    res = pmap(_c03, SCEN + [SCEN[2] + (True,)] + ([SCEN[0] + (True,)] if deep() else []))
    return res, dict(
        explanation="exception-flow analysis of opening a trace: every operation on the "
        "files of the cache or on data read from its metadata is given the exceptions it "
        "can raise (missing, unreadable, truncated, undecodable files, bad JSON, missing "
        "or mistyped entries, failing writes); none may leave the constructor, and on "
        "every path an event class whose frame isn't from the cache requires that the "
        "trace file has been read for parsing",
        assumptions=["a CSV file that the CSV reader accepts has the shape TRAPpy wrote"],
        floors={"cache-operation-may-fail": 6, "not-cached-means-parsed": 2})


# -------------------------------------------------------------------- C04

class C04Config(CtorConfig):
    def on_event(self, I, st, node, kind, data):
        if kind == "fs" and data["op"] in ("rename", "replace", "shutil.move", "renames"):
            src = set(terms_of(data["path"]))
            data["src_open"] = any(
                o.kind == "file" and o.x.get("open") and o.x.get("path") is not None and
                src & set(terms_of(o.x["path"])) for o in st.heap.values())


def _c04(cls, isdir, dat):
    res = Res()
    w, _ = cache_paths(cls, dict(isdir=isdir, dat=dat), ONE)
    cfg = C04Config(isdir, dat)
    cfg.cachepaths = w
    r = S.ctor(REPO, cfg, cls, registries() if deep() else ONE, False)
    res.seen(r.I)
    reads = set()
    for e in fs_events(r):
        if e["op"] in ("read", "open-r"):
            reads |= {t for t in terms_of(e["path"]) if cfg.is_cache(t)}
    for t in reads:
        res.ob("file-of-the-cache-loaded", short(t)[-60:], True)
    installed = set()
    for e in fs_events(r):
        if e["op"] in ("open-w", "write", "shutil.copy", "shutil.copyfile", "shutil.copy2",
                       "shutil.copyfileobj", "truncate"):
            p = e.get("dst") if e["op"].startswith("shutil.copy") else e["path"]
            ts = [t for t in terms_of(p) if cfg.is_cache(t)] if p is not None else []
            if not ts:
                continue
            res.count("content_writes")
            bad = [t for t in ts if t in reads]
            res.ob("content-not-written-under-loaded-name", construct(e), not bad, e["where"],
                   "a file that is later loaded is written in place: a crash leaves it "
                   "truncated under its final name")
        if e["op"] in ("rename", "replace", "shutil.move", "renames"):
            ts = [t for t in terms_of(e["dst"]) if t in reads]
            if not ts:
                continue
            installed |= set(ts)
            res.ob("complete-before-renamed", construct(e), not e.get("src_open"), e["where"],
                   "a file gets its final name before it's been closed")
    for t in reads:
        res.ob("loaded-file-is-installed-by-rename", short(t)[-60:], t in installed,
               "trappy/ftrace.py", "nothing gives a file that is loaded its final name")
    return res


def c04():
    res = pmap(_c04, SCEN)
    return res, dict(
        explanation="typestate analysis of the files of the cache over symbolic path "
        "names: no operation that creates or writes content may name a file that loading "
        "the cache reads; such names only appear as the target of a rename whose source "
        "has been closed before",
        assumptions=["rename within a directory is atomic"],
        floors={"content-not-written-under-loaded-name": 2,
                "complete-before-renamed": 1, "loaded-file-is-installed-by-rename": 2})


# -------------------------------------------------------------------- C05

def own_dir(t):
    """t is (in) a directory named after the trace, next to it"""
    for n in range(1, 12):
        if t.op == "pjoin":
            for k in range(1, len(t.args) + 1):
                last = t.args[k - 1]
                if last.op == "cat" and any(
                        x.op in ("basename", "param") for x in last.subs()) and \
                        any(a.op == "c" for a in last.args):
                    return True
            return False
        if t.op == "cat":
            if t.args[0].op in ("pjoin", "cat"):
                if own_dir(t.args[0]):
                    return True
            return False
        return False


class C05Faults(CtorConfig):
    """the operations on the trace and its temporary files may fail"""

    def raises(self, I, st, node, what, labels, argterms):
        if what in ("read", "open-r", "write", "open-w", "tempfile"):
            return ("OSError",)
        if what == "subprocess":
            return ("OSError", "subprocess.CalledProcessError")
        return ()


def _c05(cls, isdir, dat, disable, faults=False):
    res = Res()
    w, base = cache_paths(cls, dict(isdir=isdir, dat=dat), ONE)
    cfg = (C05Faults if faults else CtorConfig)(isdir, dat)
    cfg.cachepaths = w
    regs = registries() if deep() else ONE
    r = S.ctor(REPO, cfg, cls, regs, disable)
    res.seen(r.I)
    # the files a trace may be read from
    traces = set()
    for e in fs_events(r):
        if e["op"] in ("isfile", "open-r", "read"):
            traces |= {t for t in terms_of(e["path"])
                       if not is_temp(t) and not cfg.is_cache(t) and t.op != "c"}
    for e in fs_events(r):
        if disable:
            ps = [p for p in (e.get("path"), e.get("dst")) if p is not None]
            ts = [t for p in ps for t in terms_of(p)]
            res.count("operations_with_cache_disabled")
            res.ob("disabled-cache-is-not-touched", construct(e),
                   not any(cfg.is_cache(t) for t in ts), e["where"],
                   "the cache is accessed although it's disabled")
        for p in changed_paths(e):
            for t in terms_of(p):
                if is_temp(t):
                    res.ob("only-own-files-change", construct(e) + ":temporary", True,
                           e["where"])
                    continue
                res.count("changing_operations")
                if disable:
                    res.ob("only-own-files-change", construct(e), False, e["where"],
                           "opening a trace with the cache disabled changes the file system")
                ok = t not in traces and own_dir(t)
                res.ob("only-own-files-change", construct(e), ok, e["where"],
                       "opening a trace changes %s, which isn't in its cache directory" %
                       short(t))
    return res


def c05():
    res = pmap(_c05, [s + (d, f) for f in (True, False) for s in SCEN for d in (False, True)])
    return res, dict(
        explanation="effect analysis: all file system operations reachable from opening a "
        "trace, with symbolic path names; what they change must be a temporary file or in "
        "the directory named after the trace; with the cache disabled no operation may "
        "name that directory at all",
        floors={"disabled-cache-is-not-touched": 4, "only-own-files-change": 5})


# -------------------------------------------------------------------- C06

class C06Config(CtorConfig):
    softs = ("ghost-hard",)

    def raises(self, I, st, node, what, labels, argterms):
        if what in ("read", "open-r", "write", "open-w", "to_csv", "tempfile"):
            return ("OSError",)
        if what == "subprocess":
            return ("OSError", "subprocess.CalledProcessError")
        if what in ("int", "float") and any("F:" in str(l) for l in labels):
            return ("ValueError",)
        return ()

    def on_event(self, I, st, node, kind, data):
        if kind != "fs":
            return
        if data["op"] == "tempfile" and not data.get("auto"):
            st.ghost = st.ghost | {("temp", I.where(node))}
            for t in terms_of(data["path"]):
                self.temps[t] = I.where(node)
        if data["op"] in ("remove", "unlink", "shutil.rmtree", "rename", "replace"):
            for t in terms_of(data["path"]):
                for x in t.subs():
                    if x in self.temps:
                        st.ghost = st.ghost - {("temp", self.temps[x])}


def _c06(cls, isdir, dat, disable):
    res = Res()
    cfg = C06Config(isdir, dat)
    cfg.temps = {}
    r = S.ctor(REPO, cfg, cls, ONE, disable)
    res.seen(r.I)
    short_cls = cls.rpartition(".")[2]

    def chk(s, how, site):
        left = sorted(g[1] for g in s.ghost if g[0] == "temp")
        res.ob("temporary-file-removed", "%s:%s" % (short_cls, how), not left,
               left[0] if left else site,
               "the temporary file isn't removed when opening a trace ends by %s" % how)
        opened = [o for o in s.heap.values() if o.kind == "file" and o.x.get("open")]
        res.ob("files-closed", "%s:%s" % (short_cls, how), not opened,
               site, "a file is left open when opening a trace ends by %s" % how)
    for s, v in r.exits:
        chk(s, "return", "trappy/ftrace.py")
    for s, x in r.raised:
        t = x.type if isinstance(x.type, str) else str(x.type[1][1])
        fn = x.origin
        chk(s, "%s(%s)" % (t, fn), x.site)
    res.count("exit_paths", len(r.exits) + len(r.raised))
    for t in cfg.temps:
        res.ob("temporary-file", short_cls + ":" + str(t.args[0])[:60], True)
    return res


def c06():
    scen = [("trappy.ftrace.FTrace", False, True, True),
            ("trappy.ftrace.FTrace", False, True, False),
            ("trappy.ftrace.FTrace", True, False, False),
            ("trappy.systrace.SysTrace", False, False, False)]
    res = pmap(_c06, scen)
    return res, dict(
        explanation="typestate analysis over all the normal and exceptional exits of "
        "opening a trace: reads, writes, running trace-cmd and parsing fields may fail; at "
        "every exit the temporary file has been removed and the files opened have been "
        "closed",
        assumptions=["removing the temporary file itself doesn't fail",
                     "the process isn't killed"],
        floors={"temporary-file-removed": 6, "files-closed": 6, "temporary-file": 1})
