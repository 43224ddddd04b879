"""Parsers and their registration: R01, R02; trace-cmd: T01."""
import ast
import glob

from .ctorlib import *
from .ctor_scope import entries, describe, constant

SCOPES = ("thermal", "sched", "dynamic")
G = "trappy.ftrace.GenericFTrace"
D = "trappy/dynamic.py"


def registry(I, st):
    """{scope: {name: class atom}}"""
    o = st.get(I.glob(G).one()[1])
    out = {}
    for sc in SCOPES:
        ents = entries(st, o.attrs.get(sc + "_classes"))
        if ents is None:
            raise AnalysisError("%s_classes isn't known" % sc)
        out[sc] = {k: v.one() for k, v in ents.items()}
    return out


def attr(st, a, name):
    """an attribute of a class, its own or inherited"""
    todo, seen = [a], set()
    while todo:
        c = todo.pop(0)
        if not c or c[0] != "r" or c in seen or not st.has(c[1]):
            continue
        seen.add(c)
        co = st.get(c[1])
        if name in co.attrs:
            return co.attrs[name]
        for b in (co.x.get("mro") or co.x.get("bases") or ()):
            todo.append(b.one() if isinstance(b, V) else b)
    return None


def own(st, a, name):
    return st.get(a[1]).attrs.get(name)


def event_classes(I, st):
    """[(qualified name, file:line, atom)] of the classes of the sources that parse an event"""
    out = []
    for path in sorted(glob.glob(os.path.join(REPO, "trappy", "*.py"))):
        rel = os.path.relpath(path, REPO)
        mod = "trappy." + os.path.basename(path)[:-3]
        tree = ast.parse(open(path, encoding="utf-8").read())
        for n in tree.body:
            if not isinstance(n, ast.ClassDef):
                continue
            words = [s for s in n.body if isinstance(s, ast.Assign) and
                     any(isinstance(t, ast.Name) and t.id == "unique_word" for t in s.targets)
                     and isinstance(s.value, ast.Constant) and s.value.value]
            if words:
                out.append((mod + "." + n.name, "%s:%d" % (rel, n.lineno)))
    return out


class LoadConfig(CtorConfig):
    softs = ("no-lines",)


def _r01_load():
    res = Res()

    def build(I, st, node):
        reg = registry(I, st)
        where = {}
        for q, w in event_classes(I, st):
            v = I.glob(q)
            a = v.one() if v is not None else None
            where[a] = w
            n = [(sc, k) for sc in SCOPES for k, c in reg[sc].items() if c == a]
            res.ob("registered-once", q, len(n) == 1, w,
                   "%s is registered %s" % (q, "in no scope" if not n else "as %s" % (n,)))
        words = []
        for sc in SCOPES:
            for k, c in reg[sc].items():
                w = constant(attr(st, c, "unique_word"))
                name = constant(attr(st, c, "name"))
                f = where.get(c, "trappy/%s" % "__init__.py")
                res.ob("registered-under-its-name", "%s:%s" % (sc, k), k == name, f,
                       "the event %r is registered as %r" % (name, k))
                res.ob("has-a-unique-word", k, isinstance(w, str) and bool(w), f,
                       "the event has no unique word")
                if isinstance(w, str):
                    words.append((w, k, sc, f))
        for i, (w, k, sc, f) in enumerate(words):
            clash = [k2 for j, (w2, k2, sc2, f2) in enumerate(words) if i != j and w in w2]
            res.ob("unique-words-are-unique", k, not clash, f,
                   "lines of %s are also taken for %s" % (", ".join(clash), k))
        names = {}
        for w, k, sc, f in words:
            names.setdefault(k, []).append(sc)
        for k, scs in names.items():
            res.ob("one-scope", k, len(scs) == 1, "trappy/ftrace.py",
                   "%s is registered in several scopes: %s" % (k, ", ".join(scs)))
        return [(st, NONE_)]
    r = S.run(REPO, LoadConfig(False, False), build)
    res.seen(r.I)
    return res


NONE_ = const(None)


def changed_classes(before, after):
    """[(scope, name, class before, class after)]"""
    out = []
    for sc in SCOPES:
        for k in sorted(set(before[sc]) | set(after[sc]), key=str):
            if before[sc].get(k) != after[sc].get(k):
                out.append((sc, k, before[sc].get(k), after[sc].get(k)))
    return out


def _r01_dynamic(scope, raw, pivot):
    """registering a generic parser, and unregistering it"""
    res = Res()
    key = "register_dynamic_ftrace:scope=%s:raw=%s:pivot=%s" % (scope, raw, pivot)
    S_ = "dynamic" if scope in ("all", None) else scope

    def build(I, st, node):
        before = registry(I, st)
        kw = {}
        if scope is not None:
            kw["scope"] = const(scope)
        if raw is not None:
            kw["parse_raw"] = const(raw)
        if pivot is not None:
            kw["pivot"] = const(pivot)
        f = I.glob("trappy.register_dynamic_ftrace")
        un = I.glob("trappy.unregister_dynamic_ftrace")
        outs = []
        n = 0
        for s, c in I.call(st, node, f, [const("MyNewEvent"), const("my_new_word:")], kw):
            n += 1
            ch = changed_classes(before, registry(I, s))
            a = c.one()
            ok = ch == [(S_, "my_new_event", None, a)] and a is not None and a[0] == "r"
            res.ob("registered-in-its-scope", key, ok, D,
                   "registering changes %s" % describe_changes(s, ch))
            if not ok:
                continue
            want = {"unique_word": "my_new_word:", "name": "my_new_event",
                    "parse_raw": bool(raw)}
            for k, v in want.items():
                res.ob("registered-as-asked", key + ":" + k, constant(attr(s, a, k)) == v, D,
                       "the %s of the class isn't %r" % (k, v))
            p = attr(s, a, "pivot")
            base = constant(attr(s, I.glob("trappy.base.Base").one(), "pivot"))
            res.ob("registered-as-asked", key + ":pivot", constant(p) == (pivot or base), D,
                   "the pivot of the class isn't %r" % (pivot or base,))
            m = 0
            for s2, e in I.call(s, S.root_node(1), c, [], {}):
                m += 1
                for k in ("parse_raw", "unique_word"):
                    for s3, x in I.load_attr(node, s2, e, k):
                        res.ob("registered-as-asked", key + ":instance:" + k,
                               constant(x) == want[k], D,
                               "the %s of its events isn't %r" % (k, want[k]))
            res.ob("registered-as-asked", key + ":instance", m > 0, D,
                   "the class can't be instantiated")
            m = 0
            for s2, _ in I.call(s, node, un, [c], {}):
                m += 1
                ch = changed_classes(before, registry(I, s2))
                res.ob("unregistering-undoes", key, not ch, "trappy/ftrace.py",
                       "after unregistering: %s" % describe_changes(s2, ch))
                outs.append((s2, NONE_))
            res.ob("unregistering-undoes", key + ":returns", m > 0, "trappy/ftrace.py",
                   "a parser can't be unregistered")
        res.ob("registered-in-its-scope", key + ":returns", n > 0, D,
               "a parser can't be registered")
        return outs
    r = S.run(REPO, LoadConfig(False, False), build)
    res.seen(r.I)
    return res


def _r01_class(scope, named):
    """registering a class, and unregistering it and others"""
    res = Res()
    key = "register_ftrace_parser:scope=%s:named=%s" % (scope, named)
    S_ = "dynamic" if scope in ("all", None) else scope
    q = "trappy.sched.SchedSwitch"

    def build(I, st, node):
        reg = registry(I, st)
        cls = I.glob(q)
        st0 = st
        un = I.glob("trappy.unregister_ftrace_parser")
        f = I.glob("trappy.register_ftrace_parser")
        outs = []
        for s, _ in I.call(st, node, un, [cls], {}):
            gone = changed_classes(reg, registry(I, s))
            want = [(sc, k, c, None) for sc in SCOPES for k, c in reg[sc].items() if c == cls.one()]
            res.ob("unregistering-removes-it", key, gone == want and want != [],
                   "trappy/ftrace.py", "unregistering changes %s" % describe_changes(s, gone))
            o = s.get(cls.one()[1]).copy()
            o.attrs = dict(o.attrs)
            if not named:
                o.attrs.pop("name", None)
            else:
                o.attrs["name"] = const("another_name")
            o.attrs["unique_word"] = const("a_word: x")
            s.put(cls.one()[1], o)
            base = registry(I, s)
            kw = {} if scope is None else {"scope": const(scope)}
            for s2, _ in I.call(s, node, f, [cls], kw):
                ch = changed_classes(base, registry(I, s2))
                name = "another_name" if named else "a_word"
                res.ob("registered-in-its-scope", key, ch == [(S_, name, None, cls.one())],
                       "trappy/ftrace.py", "registering changes %s" % describe_changes(s2, ch))
                res.ob("registered-under-its-name", key,
                       constant(attr(s2, cls.one(), "name")) == name, "trappy/ftrace.py",
                       "the name of the class isn't %r" % name)
                # a class may be in several scopes, and under several names
                o = s2.get(cls.one()[1]).copy()
                o.attrs = dict(o.attrs)
                o.attrs["name"] = const("a_second_name")
                s2.put(cls.one()[1], o)
                for s2b, _ in I.call(s2, S.root_node(4), f, [cls], kw):
                    for s3, _ in I.call(s2b, S.root_node(2), f, [cls], {"scope": const("thermal")}):
                        for s4, _ in I.call(s3, S.root_node(3), un, [cls], {}):
                            ch = changed_classes(base, registry(I, s4))
                            res.ob("unregistering-removes-it", key + ":several", not ch,
                                   "trappy/ftrace.py", "after unregistering: %s" %
                                   describe_changes(s4, ch))
                            outs.append((s4, NONE_))
        return outs
    r = S.run(REPO, LoadConfig(False, False), build)
    res.ob("registered-in-its-scope", key + ":returns", bool(r.exits), "trappy/ftrace.py",
           "registering or unregistering a class fails")
    res.seen(r.I)
    return res


def _r01_again(scope):
    """registering another class under the name of one that is registered"""
    res = Res()
    key = "register_ftrace_parser:scope=%s:again" % scope
    S_ = "dynamic" if scope in ("all", None) else scope

    def build(I, st, node):
        f = I.glob("trappy.register_ftrace_parser")
        kw = {} if scope is None else {"scope": const(scope)}
        base = registry(I, st)
        classes = []
        for q in ("trappy.sched.SchedSwitch", "trappy.sched.SchedWakeup"):
            c = I.glob(q).one()
            o = st.get(c[1]).copy()
            o.attrs = dict(o.attrs, name=const("the_name"))
            st.put(c[1], o)
            classes.append(c)
        outs = []
        for s, _ in I.call(st, node, f, [V((classes[0],))], kw):
            for s2, _ in I.call(s, S.root_node(1), f, [V((classes[1],))], kw):
                ch = changed_classes(base, registry(I, s2))
                res.ob("registered-in-its-scope", key, ch == [(S_, "the_name", None, classes[1])],
                       "trappy/ftrace.py", "registering changes %s" % describe_changes(s2, ch))
                outs.append((s2, NONE_))
        return outs
    r = S.run(REPO, LoadConfig(False, False), build)
    res.ob("registered-in-its-scope", key + ":returns", bool(r.exits), "trappy/ftrace.py",
           "a parser can't be registered again")
    res.seen(r.I)
    return res


def describe_changes(st, ch):
    return "; ".join("%s_classes[%r]: %s -> %s" % (sc, k, b and b[1], a and a[1])
                     for sc, k, b, a in ch)[:300] or "nothing"


def _r01_registry_of_subclasses():
    """registering through FTrace or SysTrace is registering for all"""
    res = Res()
    for cls in TRACES:
        def build(I, st, node, cls=cls):
            outs = []
            for m, args in (("unregister_parser", []), ("register_parser", [const("all")])):
                base = registry(I, st)
                for s, f in I.load_attr(node, st, I.glob(cls), m):
                    c = I.glob("trappy.sched.SchedSwitch")
                    for s2, _ in I.call(s, node, f, [c] + args, {}):
                        ch = changed_classes(base, registry(I, s2))
                        res.ob("one-registry", "%s.%s" % (cls.rpartition(".")[2], m), len(ch) == 1,
                               "trappy/ftrace.py", "%s changes %s" % (m, describe_changes(s2, ch)))
                        outs.append((s2, NONE_))
            return outs
        r = S.run(REPO, LoadConfig(False, False), build)
        res.seen(r.I)
    return res


def r01():
    res = Res()
    jobs = [(_r01_load, ())]
    for scope in (None, "all", "sched", "thermal"):
        for raw in (None, True):
            for pivot in (None, "cpu"):
                jobs.append((_r01_dynamic, (scope, raw, pivot)))
        jobs.append((_r01_again, (scope,)))
        for named in (False, True):
            jobs.append((_r01_class, (scope, named)))
    jobs.append((_r01_registry_of_subclasses, ()))
    res = pmap(_job, jobs)
    return res, dict(
        explanation="the loading of all the modules is evaluated abstractly: each class of the "
        "sources that has a unique word is registered once, under its name, and no unique word is part of "
        "another; registering and unregistering parsers is analysed for each scope: exactly the "
        "entry asked for is added, with the attributes asked for, and all entries of a class are removed",
        assumptions=[],
        floors={"registered-once": 10, "registered-under-its-name": 20,
                "registered-in-its-scope": 10, "unregistering-undoes": 10})


def _job(fn, args):
    return fn(*args)
