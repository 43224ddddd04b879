"""Flow-sensitive, context-sensitive abstract interpreter for Python sources.

Calls into the repository are inlined (recursion is cut), unknown iterables are
solved by fixpoint, library calls are summarised by the tables of lib.py.
Values carry the labels (inputs) they depend on, explicitly or through the
conditions that control them.  Nothing is executed.
"""
import ast
import builtins as pybuiltins
import os
import sys

from .astutil import Scope, Liveness, mangle, FUNCS
from .values import (V, T, Obj, State, EMPTY, NONE, TRUE, FALSE, const, catom,
                     ref, ext, unk, tup, join, term, aterm, show)

MAXSTATES = 40
MAXDEPTH = 45
# lazy objects whose elements don't come from calls
LAZY = (None, "zip", "enumerate", "chain")
UNROLL = 64


class AnalysisError(Exception):
    """the analysis can't decide: neither a pass nor a violation"""


class Exc(object):
    """an abstract exception"""
    __slots__ = ("type", "labels", "origin", "val", "site")

    def __init__(self, type_, labels=EMPTY, origin=None, val=None, site=None):
        self.type = type_      # dotted name of a builtin/ext, or ('r', oid)
        self.labels = labels
        self.origin = origin   # why it's raised: 'explicit', 'lib', 'noattr'...
        self.val = val
        self.site = site

    def key(self):
        return (self.type, self.origin, self.site)


class Frame(object):
    __slots__ = ("func", "env", "mod", "cls", "yield_cb", "ctx", "node",
                 "curexc", "scope", "live", "rets", "name", "loops", "body_out",
                 "captured", "callnode")


class Out(object):
    """outcomes of statements"""
    __slots__ = ("normal", "brk", "cont")

    def __init__(self, normal=()):
        self.normal = list(normal)
        self.brk = []
        self.cont = []


class Star(object):
    def __init__(self, v):
        self.v = v


EXC_PARENTS = {
    "json.JSONDecodeError": "ValueError",
    "json.decoder.JSONDecodeError": "ValueError",
    "subprocess.SubprocessError": "Exception",
    "subprocess.CalledProcessError": "subprocess.SubprocessError",
    "pandas.errors.EmptyDataError": "ValueError",
    "pandas.errors.ParserError": "ValueError",
    "re.error": "Exception",
    "shutil.Error": "OSError",
    "pyparsing.ParseException": "Exception",
    "Anything": "Exception",
}
MAYBE_SUB = {"Anything"}


def exc_norm(name):
    for p in ("builtins.", "future.builtins."):
        if name.startswith(p):
            name = name[len(p):]
    return {"IOError": "OSError", "EnvironmentError": "OSError",
            "os.error": "OSError", "io.UnsupportedOperation": "OSError"}.get(name, name)


def exc_ancestors(name):
    out = []
    name = exc_norm(name)
    while name:
        out.append(name)
        if name in EXC_PARENTS:
            name = EXC_PARENTS[name]
            continue
        c = getattr(pybuiltins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            for b in c.__mro__[1:]:
                if b is object:
                    break
                out.append(b.__name__)
        else:
            out += ["Exception", "BaseException"]
        break
    return out


class Config(object):
    """what a check assumes and wants to see; overridden by the checks"""

    objs = 4        # how many objects that a call makes are kept apart
    parse_once = False  # the actions of a grammar are evaluated, but their effects don't accumulate
    two = False     # a loop over unknown elements runs for two of them
    symbolic = False  # objects of pandas are terms: the operations they come from

    def raises(self, I, st, node, what, labels, argterms):
        """exception types a library operation may raise"""
        return ()

    def hascol(self, I, st, col, frame):
        """whether a frame has a column (None: maybe)"""
        return None

    def hard_fact(self, fact):
        return False

    def truth(self, I, st, atom, labels):
        """assumed truth value of an unknown, or None"""
        return None

    def attr_read(self, I, st, node, objatom, name, v):
        return v

    def call_hook(self, I, st, node, fnatom, args, kw):
        """summary that replaces a call: a list of (state, value), or None"""
        return None

    def soft(self, name):
        return False

    def file_labels(self, I, st, path):
        """labels of the contents of a file"""
        return EMPTY

    def exists_labels(self, I, st, what, path):
        return EMPTY

    def exec_labels(self, I, st, cmd):
        return EMPTY

    def ambiguous(self, I, st, node, f):
        """a call of one of several things"""

    def keep_fact(self, fact):
        """a fact about an iteration that outlives it"""
        return self.hard_fact(fact)

    def on_loopexit(self, I, st, site):
        """after a for loop, however it's left"""

    def on_backedge(self, I, st, loopkey):
        """the end of an iteration, also while loops are being solved"""

    partition = None
    # a function of a state: states with different results are never merged

    def on_event(self, I, st, node, kind, data):
        """called for every recorded event, also while loops are being solved"""


class Interp(object):

    def __init__(self, repo, cfg=None):
        from . import lib
        self.repo = repo
        self.lib = lib
        self.compiters = set()
        self.term_site = {}     # symbolic: where a term is first made
        self.cfg = cfg or Config()
        self.base = {}
        self.modules = {}      # dotted -> oid
        self.files = {}        # path -> tree
        self.sinks = [[]]
        self.collectors = []
        self.probing = 0
        self.fixdepth = 0
        self.loading = True
        self.events = []
        self.frames = []
        self.ctxs = {}
        self.parse_actions = []
        self.parse_targets = []
        self.lines = set()          # of the statements that were analysed
        self.coarse = cfg.soft("coarse")    # join all states: only for effects
        self.livecache = {}
        self.scopecache = {}
        self.stats = {"functions": set(), "calls": 0, "ext_calls": set(),
                      "branches": 0, "loops": 0, "states": 0, "allocs": 0}
        self.steps = 0
        self.maxsteps = 3000000
        self.shared_pc_ext = None
        self.nodefile = {}

    # ------------------------------------------------------------- utilities

    @property
    def frame(self):
        return self.frames[-1]

    def site(self, node):
        return (getattr(node, "_file", "?"), getattr(node, "lineno", 0),
                getattr(node, "col_offset", 0), type(node).__name__)

    def where(self, node):
        return "%s:%d" % (getattr(node, "_file", "?"), getattr(node, "lineno", 0))

    def stack(self):
        return tuple(f.name for f in self.frames)

    def record(self, kind, st, node, **data):
        if self.loading:
            return
        self.cfg.on_event(self, st, node, kind, data)
        if self.probing:
            return
        data["kind"] = kind
        data["node"] = node
        data["where"] = self.where(node)
        data["func"] = self.frames[-1].name if self.frames else "?"
        data["stack"] = self.stack()
        data["pc"] = st.pc
        data["facts"] = st.facts
        data["ghost"] = st.ghost
        self.events.append(data)

    def ctxid(self, *key):
        c = self.ctxs.get(key)
        if c is None:
            c = self.ctxs[key] = len(self.ctxs) + 1
        return c

    def alloc(self, st, node, obj, extra=""):
        self.stats["allocs"] += 1
        ctx = self.frames[-1].ctx if self.frames else 0
        base = (self.site(node), ctx, extra)
        for k in range(self.cfg.objs):
            oid = base + (k,)
            if not st.has(oid):
                st.put(oid, obj)
                return oid
        old = st.get(oid)
        st.put(oid, join_obj(old, obj))
        return oid

    def new(self, st, node, kind, extra="", labels=EMPTY, **kw):
        return ref(self.alloc(st, node, Obj(kind, **kw), extra), labels)

    def newlist(self, st, node, items=None, summ=None, labels=EMPTY, extra="",
                kind="list"):
        return self.new(st, node, kind, extra, labels,
                        items=list(items) if items is not None else None,
                        summ=summ)

    def newdict(self, st, node, entries=None, summ=None, ksumm=None,
                labels=EMPTY, extra=""):
        return self.new(st, node, "dict", extra, labels,
                        entries=dict(entries or {}), summ=summ, ksumm=ksumm)

    # -------------------------------------------------------------- mutation

    def mutate(self, st, atom, how, node, v=None, key=None):
        """an object is about to be modified in place"""
        if self.loading:
            return
        if atom[0] == "r":
            o = st.get(atom[1])
            regions = set(o.x.get("tags", ()))
            if atom[1] in self.base and "scenario" not in o.x.get("tags", ()):
                regions.add("global")
            if o.kind in ("series", "index") and o.x.get("of"):
                b = st.get(o.x["of"])
                regions |= set(b.x.get("tags", ()))
            if regions:
                self.record("mutate", st, node, regions=frozenset(regions),
                            how=how, oid=atom[1], okind=o.kind, cls=o.cls,
                            key=key, value=v)
        elif atom[0] == "u":
            roots = alias_roots(atom[2])
            if roots:
                self.record("mutate", st, node, regions=frozenset(roots),
                            how=how, term=atom[2], okind=atom[1] or "unk",
                            key=key, value=v, cls=None)

    # -------------------------------------------------------------- modules

    def load_source(self, relpath):
        path = os.path.join(self.repo, relpath)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.annotate(tree, relpath)
        self.files[relpath] = tree
        return tree

    def annotate(self, tree, rel):
        for n in ast.walk(tree):
            n._file = rel
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def modpath(self, dotted):
        p = dotted.replace(".", "/")
        for cand in (p + ".py", p + "/__init__.py"):
            if os.path.isfile(os.path.join(self.repo, cand)):
                return cand
        return None

    def import_module(self, dotted, st):
        """abstract module object of the repo, or None if it's external"""
        if dotted in self.modules:
            return self.modules[dotted]
        rel = self.modpath(dotted)
        if rel is None:
            return None
        parent = dotted.rpartition(".")[0]
        if parent:
            self.import_module(parent, st)
            if dotted in self.modules:
                return self.modules[dotted]
        oid = ("module", dotted)
        self.modules[dotted] = oid
        st.put(oid, Obj("module", cls=dotted, attrs={
            "__name__": const(dotted),
            "__file__": const(os.path.join(self.repo, rel))}))
        if parent in self.modules:
            self.setattr_raw(st, self.modules[parent], dotted.rpartition(".")[2],
                             ref(oid))
        tree = self.load_source(rel)
        fr = Frame()
        fr.func = None
        fr.env = oid
        fr.mod = oid
        fr.cls = None
        fr.yield_cb = None
        fr.ctx = self.ctxid("mod", dotted)
        fr.node = tree
        fr.curexc = []
        fr.scope = None
        fr.live = None
        fr.rets = []
        fr.name = dotted
        fr.loops = []
        self.frames.append(fr)
        try:
            o = self.block(tree.body, [st])
        finally:
            self.frames.pop()
        if len(o.normal) < 1:
            raise AnalysisError("module %s doesn't load: %r" %
                                (dotted, [e.key() for _, e in self.sinks[-1]]))
        first = o.normal[0]
        if len(o.normal) > 1:
            first = self.reduce(o.normal, force=True)[0]
        if first is not st:
            st.heap = first.heap
            st.facts = first.facts
        st.pc = EMPTY
        return oid

    def load(self, dotted_list):
        st = State(self.base)
        self.loading = True
        self.stats["functions"] = set()
        for d in dotted_list:
            if self.import_module(d, st) is None:
                raise AnalysisError("module %s not found" % d)
        self.sinks[-1][:] = []
        self.base = dict(st.heap)
        self.loading = False
        self.events = []
        self.stats["functions"] = set()

    def fresh(self):
        """a state right after all the modules have been imported"""
        return State(self.base)

    def glob(self, dotted):
        """value of a global: 'trappy.ftrace.FTrace'"""
        mod, _, name = dotted.rpartition(".")
        if mod not in self.modules:
            raise AnalysisError("anchor %s vanished" % dotted)
        v = self.base[self.modules[mod]].attrs.get(name)
        if v is None:
            raise AnalysisError("anchor %s vanished" % dotted)
        return v

    # ------------------------------------------------------------ exceptions

    def throw(self, st, exc):
        self.sinks[-1].append((st, exc))

    def maybe_raise(self, st, node, what, labels=EMPTY, argterms=()):
        """library operation 'what' may raise: fork the exceptional states"""
        if self.loading:
            return
        for t in self.cfg.raises(self, st, node, what, labels, argterms):
            self.throw(st.copy(), Exc(t, labels, "lib:" + what,
                                      site=self.where(node)))

    def raise_now(self, st, node, type_, origin, labels=EMPTY, detail=None):
        e = Exc(type_, labels, origin, site=self.where(node))
        e.val = detail
        self.throw(st, e)

    # ------------------------------------------------------------ merging

    def reduce(self, states, force=False, cap=None):
        if len(states) < 2:
            return states
        out = []
        if self.coarse:
            force = True
        for s in states:
            for i, t in enumerate(out):
                m = merge(t, s, self.cfg, force)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        cap = cap or MAXSTATES
        if len(out) > cap and not force:
            out = self.reduce(out, force=True)
        self.stats["states"] = max(self.stats["states"], len(out))
        return out

    def reduce_vals(self, pairs, cap=None):
        """merge the states that come with values"""
        if len(pairs) < 2:
            return pairs
        out = []
        if self.coarse:
            return [(x, join(*[v for _, v in pairs]))
                    for x in self.reduce([s for s, _ in pairs], force=True)]
        for s, v in pairs:
            for i, (t, w) in enumerate(out):
                if not mergeable(w, v, False):
                    continue
                m = merge(t, s, self.cfg, False)
                if m is not None:
                    out[i] = (m, join(w, v))
                    break
            else:
                out.append((s, v))
        if len(out) > (cap or MAXSTATES):
            by = {}
            for s, v in out:
                k = hardatoms(v)
                by.setdefault(k, []).append((s, v))
            out = []
            for k, ps in by.items():
                st = self.reduce([s for s, _ in ps], force=True)
                v = join(*[v for _, v in ps])
                out += [(s, v) for s in st]
        return out

    def drop_dead(self, states, live):
        fr = self.frames[-1]
        if fr.scope is None or live is None:
            return
        for s in states:
            env = s.get(fr.env)
            dead = [n for n in env.attrs
                    if n not in live and n not in fr.scope.inner
                    and not n.startswith("@")]
            if dead:
                env = env.copy()
                for n in dead:
                    del env.attrs[n]
                s.put(fr.env, env)

    def gc(self, st, extra=()):
        """forget the objects that can't be reached any more"""
        roots = [f.env for f in self.frames if f.env]
        seen = set()
        work = [r for r in roots if r in st.heap]
        for r in roots:
            seen.add(r)
        # globals that were modified
        for oid in st.heap:
            if oid in self.base and oid not in seen:
                seen.add(oid)
                work.append(oid)
        for v in extra:
            self._refs(v, seen, work, st)
        for f in self.frames:
            for e in f.curexc:
                if e.val is not None:
                    self._refs(e.val, seen, work, st)
            for v in getattr(f, "loops", ()):
                self._refs(v, seen, work, st)
        for t, v in st.uattrs.items():
            self._refs(v, seen, work, st)
        pins = getattr(self, "pins", ())
        for p in pins:
            if p in st.heap and p not in seen:
                seen.add(p)
                work.append(p)
        while work:
            o = st.heap.get(work.pop())
            if o is None:
                continue
            for v in o.attrs.values():
                self._refs(v, seen, work, st)
            for v in o.items or ():
                self._refs(v, seen, work, st)
            if o.entries:
                for k, v in o.entries.items():
                    self._refs(v, seen, work, st)
                    if k[0] == "r":
                        self._ref(k[1], seen, work, st)
            for v in (o.summ, o.ksumm):
                if v is not None:
                    self._refs(v, seen, work, st)
            for k, v in o.x.items():
                if isinstance(v, V):
                    self._refs(v, seen, work, st)
                elif k in ("of", "env", "parent"):
                    self._ref(v, seen, work, st)
                elif k in ("args", "keep"):
                    for w in v:
                        if isinstance(w, V):
                            self._refs(w, seen, work, st)
        dead = [oid for oid in st.heap if oid not in seen]
        for oid in dead:
            del st.heap[oid]

    def _ref(self, oid, seen, work, st):
        if oid not in seen and oid in st.heap:
            seen.add(oid)
            work.append(oid)

    def _refs(self, v, seen, work, st):
        for a in v.atoms:
            self._arefs(a, seen, work, st)

    def _arefs(self, a, seen, work, st):
        tag = a[0]
        if tag == "r":
            self._ref(a[1], seen, work, st)
        elif tag == "t":
            for w in a[1]:
                self._refs(w, seen, work, st)
        elif tag in ("b", "bx", "sup", "loc"):
            for x in a[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str) and \
                        x[0] in ("r", "t", "b", "bx", "u", "sup", "loc"):
                    self._arefs(x, seen, work, st)
        if tag == "sup":
            self._ref(a[1], seen, work, st)

    # ------------------------------------------------------------ statements

    def block(self, stmts, states):
        out = Out()
        cur = list(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.stmt(s, st)
                nxt += o.normal
                out.brk += o.brk
                out.cont += o.cont
            if len(nxt) > 1 or isinstance(s, (ast.If, ast.For, ast.While,
                                              ast.Try, ast.With)):
                fr = self.frames[-1]
                if fr.live is not None:
                    self.drop_dead(nxt, fr.live.out.get(s))
                nxt = self.reduce(nxt)
            cur = nxt
        out.normal = cur
        return out

    def stmt(self, s, st):
        self.steps += 1
        if not self.loading:
            self.lines.add((getattr(s, "_file", "?"), getattr(s, "lineno", 0)))
        if self.steps > self.maxsteps:
            raise AnalysisError("the analysis doesn't converge (%d steps)" % self.steps)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("%s: unsupported statement %s" %
                                (self.where(s), type(s).__name__))
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return Out([st])
        return Out([st2 for st2, _ in self.ev(s.value, st)])

    def s_Pass(self, s, st):
        return Out([st])

    def s_Global(self, s, st):
        return Out([st])

    s_Nonlocal = s_Global

    def s_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        for fs, _ in f:
            self.raise_now(fs, s, "AssertionError", "explicit")
        return Out([x for x, _ in t])

    def s_Assign(self, s, st):
        out = []
        for st2, v in self.ev(s.value, st):
            cur = [st2]
            for t in s.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c, s)
                cur = nxt
            out += cur
        return Out(out)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return Out([st])
        out = []
        for st2, v in self.ev(s.value, st):
            out += self.assign(s.target, v, st2, s)
        return Out(out)

    def s_AugAssign(self, s, st):
        out = []
        load = as_load(s.target)
        for st2, cur in self.ev(load, st):
            for st3, v in self.ev(s.value, st2):
                for st4, r in self.augop(s, st3, cur, v):
                    if self.cfg.symbolic and isinstance(s.target, ast.Name):
                        self.aug_aliases(st4, s.target.id, cur, r)
                    out += self.assign(s.target, r, st4, s, aug=True)
        return Out(out)

    def aug_aliases(self, st, name, cur, new):
        """the other variables of a series that's changed in place, as symbolic values are no objects"""
        atoms = {a for a in cur.atoms if a[0] == "u" and a[1] in ("series", "df")}
        for i in range(len(self.frames) - 1, -1, -1):
            fr = self.frames[i]
            if not atoms or fr.func is None or not st.has(fr.env):
                return
            linked = name_copies(fr.node)
            names, todo = set(), [name]
            while todo:
                x = todo.pop()
                for y in linked.get(x, ()):
                    if y not in names:
                        names.add(y)
                        todo.append(y)
            env = st.get(fr.env)
            changed = {}
            for x in names - {name}:
                v = env.attrs.get(x)
                if v is not None and v.atoms & atoms:
                    changed[x] = new if len(v.atoms) == 1 and len(cur.atoms) == 1 else join(v, new)
            if changed:
                env = env.copy()
                env.attrs = dict(env.attrs, **changed)
                st.put(fr.env, env)
            # a parameter: the variables of the caller that were passed
            params = {a.arg for a in fr.node.args.args + fr.node.args.kwonlyargs}
            call = getattr(fr, "callnode", None)
            if not ((names | {name}) & params) or not isinstance(call, ast.Call) or i == 0:
                return
            caller = self.frames[i - 1]
            if caller.func is None or not st.has(caller.env):
                return
            passed = [x.id for x in list(call.args) + [k.value for k in call.keywords] if isinstance(x, ast.Name)]
            env = st.get(caller.env)
            hit = [x for x in passed if x in env.attrs and env.attrs[x].atoms & atoms]
            if not hit:
                return
            name = hit[0]
            v = env.attrs[name]
            env = env.copy()
            env.attrs = dict(env.attrs)
            env.attrs[name] = new if len(v.atoms) == 1 and len(cur.atoms) == 1 else join(v, new)
            st.put(caller.env, env)

    def augop(self, s, st, cur, v):
        op = type(s.op).__name__
        out = []
        plain = set()
        for a in cur.atoms:
            if a[0] == "r":
                o = st.get(a[1])
                if o.kind == "list" and op == "Add":
                    for st2, _ in self.lib.list_extend(self, st, s, a, v):
                        out.append((st2, V((a,), cur.labels | st.pc)))
                    continue
                if o.kind == "set":
                    self.mutate(st, a, "aug", s, v)
                    self.set_join(st, a[1], v)
                    out.append((st, V((a,), cur.labels)))
                    continue
                if o.kind in ("df", "series"):
                    self.mutate(st, a, "aug " + op, s, v)
                    self.lib.df_inplace(self, st, a, s, ("aug", op), v)
                    out.append((st, V((a,), cur.labels | v.labels)))
                    continue
                meth = {"Add": "__iadd__", "Sub": "__isub__"}.get(op)
                if o.kind == "inst" and meth and self.class_attr(st, o.cls, meth):
                    fn = self.class_attr(st, o.cls, meth)
                    for f in fn.atoms:
                        out += self.call_atom(st, s, ("b", a, f), [v], {})
                    continue
            if a[0] == "u" and a[1] not in ("int", "float", "str", "bool"):
                self.mutate(st, a, "aug? " + op if a[1] is None else "aug " + op,
                            s, v)
            plain.add(a)
        if plain:
            out += self.binop(s, st, op, V(frozenset(plain), cur.labels), v)
        return out

    def set_join(self, st, oid, v):
        o = st.get(oid).copy()
        vs = [v]
        for a in v.atoms:
            if a[0] == "r":
                src = st.get(a[1])
                vs = list(src.items or ()) + ([src.summ] if src.summ else [])
                if src.entries:
                    vs = [V((k,)) for k in src.entries]
        items = list(o.items or ()) if o.items is not None else None
        o.summ = join(o.summ, *(vs + (items or [])))
        o.items = None
        st.put(oid, o)

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                nxt += self.delete(t, c)
            cur = nxt
        return Out(cur)

    def delete(self, t, st):
        if isinstance(t, ast.Name):
            env = st.get(self.frame.env).copy()
            env.attrs.pop(t.id, None)
            st.put(self.frame.env, env)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for e in t.elts:
                cur = [y for c in cur for y in self.delete(e, c)]
            return cur
        out = []
        if isinstance(t, ast.Attribute):
            for st2, o in self.ev(t.value, st):
                for a in o.atoms:
                    self.mutate(st2, a, "del attr " + t.attr, t)
                    if a[0] == "r":
                        ob = st2.get(a[1]).copy()
                        ob.attrs.pop(mangle(t.attr, self.clsname()), None)
                        st2.put(a[1], ob)
                out.append(st2)
            return out
        if isinstance(t, ast.Subscript):
            for st2, o in self.ev(t.value, st):
                for st3, k in self.ev(t.slice, st2):
                    for a in o.atoms:
                        self.mutate(st3, a, "del item", t, key=k)
                        if a[0] == "r":
                            ob = st3.get(a[1]).copy()
                            ka = k.one()
                            if ob.kind == "dict" and ka is not None and \
                                    ka in (ob.entries or {}):
                                del ob.entries[ka]
                            elif ob.kind == "list":
                                sl = t.slice
                                if isinstance(sl, ast.Slice) and sl.lower is sl.upper is sl.step is None:
                                    ob.items, ob.summ = [], None
                                elif ob.items is not None and ka is not None and \
                                        ka[0] == "c" and isinstance(ka[2], int) \
                                        and -len(ob.items) <= ka[2] < len(ob.items):
                                    del ob.items[ka[2]]
                                else:
                                    listsumm(ob)
                            elif ob.kind in ("df",):
                                ob.x["hist"] = ob.x.get("hist", ()) + (("delcol", k),)
                            elif ob.kind == "dict" and ob.entries is not None and \
                                    ka is not None and ka[0] != "c":
                                # an unknown key: each entry may have gone
                                pass
                            st3.put(a[1], ob)
                        self.maybe_raise(st3, t, "delitem", k.labels | o.labels)
                    out.append(st3)
            return out
        return [st]

    def s_Return(self, s, st):
        if s.value is None:
            self.frame.rets.append((st, NONE.lab(st.pc)))
            return Out()
        for st2, v in self.ev(s.value, st):
            self.frame.rets.append((st2, v.lab(st2.pc)))
        return Out()

    def s_Break(self, s, st):
        o = Out()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st):
        o = Out()
        o.cont.append(st)
        return o

    def s_If(self, s, st):
        self.stats["branches"] += 1
        saved = st.pc
        nr = len(self.frame.rets)
        t, f = self.cond(s.test, st)
        o = Out()
        ext = EMPTY
        for branch, body in ((t, s.body), (f, s.orelse)):
            for s2, labels in branch:
                s2.pc = saved | labels
                ext |= labels
                if body:
                    ob = self.block(body, [s2])
                    o.normal += ob.normal
                    o.brk += ob.brk
                    o.cont += ob.cont
                else:
                    o.normal.append(s2)
        left = len(self.frame.rets) > nr or o.brk or o.cont
        # the branches that weren't taken may leave as well
        if not left:
            left = leaves(s.body) or leaves(s.orelse)
        if not left:
            ext = EMPTY
        for n in o.normal:
            n.pc = saved | ext
        return o

    def s_For(self, s, st):
        self.stats["loops"] += 1
        out = Out()
        for st2, it in self.ev(s.iter, st):
            saved = st2.pc

            def body(b, elem, s=s, saved=saved):
                n, brk = [], []
                for b2 in self.assign(s.target, elem, b, s):
                    o = self.block(s.body, [b2])
                    n += o.normal + o.cont
                    brk += o.brk
                return n, brk

            self.frame.loops.append(it)
            brks = []
            self.collectors.append(brks)
            try:
                norm = self.iterate(s, st2, it, body, brks,
                                    self.live_head(s))
            finally:
                self.collectors.pop()
                self.frame.loops.pop()
            for x in norm + brks:
                x.pc = saved | (x.pc if leaves(s.body) else EMPTY)
                self.cfg.on_loopexit(self, x, self.site(s))
            if s.orelse and norm:
                o = self.block(s.orelse, self.reduce(norm))
                out.normal += o.normal
                out.brk += o.brk
                out.cont += o.cont
            else:
                out.normal += norm
            out.normal += brks
        return out

    def live_head(self, s):
        fr = self.frames[-1]
        if fr.live is None:
            return None
        return fr.live.head.get(s)

    def s_While(self, s, st):
        self.stats["loops"] += 1
        saved = st.pc
        brks = []
        exits = []
        self.collectors.append(brks)
        self.collectors.append(exits)

        def step(b):
            t, f = self.cond(s.test, b)
            for x, labels in f:
                exits.append(x)
            n = []
            for x, labels in t:
                x.pc = x.pc | labels
                o = self.block(s.body, [x])
                n += o.normal + o.cont
                brks.extend(o.brk)
            return n

        try:
            # decided conditions: unroll
            cur = [st]
            const_true = isinstance(s.test, ast.Constant)
            if const_true and self.cfg.symbolic:
                # loops over something known, as by next(): peeled
                for _ in range(12):
                    if len(cur) != 1:
                        break
                    cur = self.reduce(step(cur[0]))
            for _ in range(0 if const_true else UNROLL):
                nxt = []
                undecided = []
                for c in cur:
                    probe = c.copy()
                    self.probing += 1
                    self.sinks.append([])
                    t, f = self.cond(s.test, probe)
                    self.sinks.pop()
                    self.probing -= 1
                    if t and f or has_side(s.test):
                        undecided.append(c)
                    elif f:
                        nxt_f, ff = self.cond(s.test, c)
                        exits.extend(x for x, _ in ff)
                    else:
                        nxt += step(c)
                if undecided:
                    cur = undecided + nxt
                    break
                cur = self.reduce(nxt)
                if not cur:
                    break
            if cur:
                self.fixpoint(s, cur, step, self.live_head(s))
        finally:
            self.collectors.pop()
            self.collectors.pop()
        out = Out()
        for x in exits + brks:
            x.pc = saved | (x.pc if leaves(s.body) else EMPTY)
        if s.orelse and exits:
            o = self.block(s.orelse, self.reduce(exits))
            out.normal += o.normal
            out.brk += o.brk
            out.cont += o.cont
        else:
            out.normal += exits
        out.normal += brks
        return out

    def call_callback(self, st, node, f, *args):
        """call a function with as many of the arguments as it takes"""
        out = []
        for a in f.atoms:
            fa = a[2] if a[0] == "b" else a
            n = len(args)
            if fa[0] == "r" and st.get(fa[1]).kind == "func":
                ar = st.get(fa[1]).x["node"].args
                if not ar.vararg:
                    n = min(n, len(ar.posonlyargs + ar.args) - (1 if a[0] == "b" else 0))
            out += self.call_atom(st.copy(), node, a, list(args[:n]), {})
        return out

    def fixpoint(self, node, states, step, livehead):
        """solve a loop; the states that reach its head once it's stable"""
        self.fixdepth += 1
        try:
            return self.fixpoint1(node, states, step, livehead)
        finally:
            self.fixdepth -= 1

    def fixpoint1(self, node, states, step, livehead):
        loopkey = (self.site(node), self.frames[-1].ctx)
        heads = [s.copy() for s in states]
        self.drop_dead(heads, livehead)
        for h in heads:
            self.kill_loop_facts(h, loopkey)
            mark_epoch(h, loopkey)
        heads = self.reduce(heads)
        stable = False
        for it in range(30):
            lens = [len(c) for c in self.collectors]
            rl = [len(f.rets) for f in self.frames]
            self.sinks.append([])
            self.probing += 1
            try:
                back = []
                for h in heads:
                    back += step(h.copy())
            finally:
                self.probing -= 1
                self.sinks.pop()
                for c, n in zip(self.collectors, lens):
                    del c[n:]
                for f, n in zip(self.frames, rl):
                    del f.rets[n:]
            self.drop_dead(back, livehead)
            for b in back:
                self.cfg.on_backedge(self, b, loopkey)
                self.gc(b)
                self.kill_loop_facts(b, loopkey)
                mark_epoch(b, loopkey)
            new, changed = self.widen(heads, back, loopkey, force=it >= 4)
            heads = new
            if not changed:
                stable = True
                break
        if not stable:
            raise AnalysisError("%s: loop doesn't converge" % self.where(node))
        res = [h.copy() for h in heads]
        if self.probing:
            # the caller only needs the states; run it so that exits appear
            pass
        back = []
        for h in heads:
            h2 = h.copy()
            back += step(h2)
        if not self.probing and not self.loading:
            for b in back:
                self.record("backedge", b, node, state=b, loop=loopkey)
                self.cfg.on_backedge(self, b, loopkey)
        return res

    def kill_loop_facts(self, st, loopkey):
        def mentions(f):
            for a in f:
                if isinstance(a, T):
                    for t in a.subs():
                        if t.op in ("phi", "elem") and t.args[0] == loopkey:
                            return True
                        if t.op == "imp":
                            return True
            return False
        st.facts = frozenset(f for f in st.facts if not mentions(f) or
                             self.cfg.keep_fact(f))

    def widen(self, heads, back, loopkey, force):
        heads = [h for h in heads]
        changed = False
        for b in back:
            best = None
            for i, h in enumerate(heads):
                r = widen_state(h, b, loopkey, self.cfg, False)
                if r is not None:
                    best = (i, r)
                    break
            if best is None and (force or self.coarse or len(heads) >= MAXSTATES):
                for i, h in enumerate(heads):
                    r = widen_state(h, b, loopkey, self.cfg, True)
                    if r is not None:
                        best = (i, r)
                        break
            if best is None:
                heads.append(last_iteration(b, loopkey))
                changed = True
            else:
                i, (h2, ch) = best
                if ch:
                    heads[i] = h2
                    changed = True
        return heads, changed

    def iterate(self, node, st, it, body, brks, livehead=None):
        """run body for the elements of an iterable; the normal exit states"""
        done = []
        for a in it.atoms:
            s0 = st if len(it.atoms) == 1 else st.copy()
            if self.consumed(s0, a):
                cur = [s0]
                while cur:
                    nxt = []
                    for c in cur:
                        o = c.get(a[1])
                        if not o.items:
                            done.append(c)
                            continue
                        o = o.copy()
                        e, o.items = o.items[0], o.items[1:]
                        c.put(a[1], o)
                        n, b = body(c, e.lab(it.labels))
                        nxt += n
                        brks.extend(b)
                    cur = self.reduce(nxt)
                continue
            ev = self.elements(node, s0, a, it.labels)
            if ev[0] == "exact":
                cur = [s0]
                pc0 = s0.pc
                view = self.viewed(s0, a)
                size = self.dict_size(s0, view)
                for e in ev[1]:
                    nxt = []
                    for c in cur:
                        c.pc = c.pc | it.labels | e.labels
                        n, b = body(c, e)
                        nxt += n
                        brks.extend(b)
                    if size is not None:
                        nxt = [c for c in nxt if not self.resized(node, c, view, size)]
                    if len(nxt) > 1:
                        self.drop_dead(nxt, livehead)
                    cur = self.reduce(nxt)
                done += cur
            elif ev[0] == "gen":
                done += self.run_gen(s0, node, ev[1], body, brks, it.labels)
            else:
                elem = ev[1]

                def step(h, elem=elem, labels=it.labels):
                    out = []
                    for h2, e in elem(h):
                        if e is None:
                            out.append(h2)
                            continue
                        h2.pc = h2.pc | labels | e.labels
                        n, b = body(h2, e)
                        out += n
                        brks.extend(b)
                    return out

                pcs = s0.pc
                res = self.fixpoint(node, [s0], step, livehead)
                for r in res:
                    r.pc = pcs
                done += res
        return done

    def consumed(self, st, a):
        """an iterator of known elements, that the loop takes from"""
        if not self.cfg.symbolic or a[0] != "r":
            return False
        o = st.get(a[1])
        return o.kind == "list" and o.x.get("genexp") and o.items is not None and o.summ is None and \
            len(o.items) <= UNROLL

    def viewed(self, st, a):
        """the dict an iterable is a view of"""
        if a[0] == "r":
            o = st.get(a[1])
            if o.kind == "dict":
                return a
            return o.x.get("view")

    def dict_size(self, st, a):
        if a is not None and st.has(a[1]):
            o = st.get(a[1])
            if o.kind == "dict" and o.summ is None and o.ksumm is None and o.entries is not None:
                return len(o.entries)

    def resized(self, node, st, view, size):
        n = self.dict_size(st, view)
        if n is None or n == size:
            return False
        self.raise_now(st, node, "RuntimeError", "dictresize")
        return True

    def elements(self, node, st, a, labels):
        ev = self.elements0(node, st, a, labels)
        if ev[0] == "unk" and self.cfg.two and (
                isinstance(node, (ast.For, ast.comprehension)) or node in self.compiters):
            r = ev[1](st)
            if len(r) == 1 and r[0][0] is st and r[0][1] is not None:
                # two elements that stand for any number of them
                e = r[0][1]
                return ("exact", [V([("u", b[1], T.mk("nth", k, b[2])) if b[0] == "u" else b for b in e.atoms],
                                    e.labels) for k in (0, 1)])
        return ev

    def elements0(self, node, st, a, labels):
        """how an iterable is iterated: exact elements, a generator, unknown"""
        tag = a[0]
        if tag == "t":
            return ("exact", [v.lab(labels) for v in a[1]])
        if tag == "c":
            if isinstance(a[2], (str, bytes, tuple, range)):
                if len(a[2]) <= UNROLL:
                    return ("exact", [const(x, labels) for x in a[2]])
                return self._unk_elems(node, a, labels, "str")
            return ("exact", [])
        if tag == "r":
            o = st.get(a[1])
            if o.kind in ("list", "set", "iter"):
                if o.x.get("lazy"):
                    return self._lazy(node, st, a, o, labels)
                if o.items is not None and o.summ is None and \
                        len(o.items) <= UNROLL:
                    items = [v.lab(labels) for v in o.items]
                    if o.kind == "set" and len(items) > 1:
                        items = [v.lab(frozenset(["@SETORDER"])) for v in items]
                    return ("exact", items)
                vs = list(o.items or ()) + ([o.summ] if o.summ else [])
                e = join(*vs) if vs else None
                if e is None:
                    return ("exact", [])
                ls = labels | frozenset(o.x.get("lenlabels", EMPTY))
                if o.kind == "set":
                    ls |= frozenset(["@SETORDER"])
                # one of them: not the same in each iteration
                key = (self.site(node), self.frames[-1].ctx)
                e = V(frozenset((("u", b[1], T.mk("elem", key, b[2]))
                                 if b[0] == "u" else b) for b in e.atoms), e.labels | ls)
                return ("unk", lambda s: [(s, e)])
            if o.kind == "dict":
                if o.summ is None and o.ksumm is None:
                    return ("exact", [V((k,), labels) for k in o.entries])
                e = join(*([V((k,)) for k in o.entries] +
                           ([o.ksumm] if o.ksumm else [])))
                return ("unk", lambda s: [(s, e.lab(labels))])
            if o.kind == "gen":
                return ("gen", a[1])
            if o.kind == "inst":
                it = self.class_attr(st, o.cls, "__iter__")
                if it is not None:
                    r = []
                    for f in it.atoms:
                        r += self.call_atom(st, node, ("b", a, f), [], {})
                    if len(r) == 1 and r[0][1].one() and r[0][1].one() != a:
                        # evaluated in place
                        return self.elements(node, r[0][0], r[0][1].one(), labels)
                return self._unk_elems(node, a, labels, None)
            if o.kind == "file":
                ls = labels | o.x.get("content", EMPTY)
                self.maybe_raise(st, node, "read", ls, (term(o.x.get("path")),))
                self.record("fs", st, node, op="read", path=o.x.get("path"),
                            how="iterate", oid=a[1], labels=ls,
                            mode=o.x.get("mode"))
                if self.cfg.soft("no-lines"):
                    return ("exact", [])
                return self._unk_elems(node, a, ls, "str")
            if o.kind in ("df",):
                return self._unk_elems(node, a, labels | o.x.get("labels", EMPTY), "str")
            if o.kind in ("series", "index"):
                return self._unk_elems(node, a, labels | o.x.get("labels", EMPTY), None)
            return self._unk_elems(node, a, labels, None)
        return self._unk_elems(node, a, labels, None)

    def _unk_elems(self, node, a, labels, kind):
        t = T.mk("elem", (self.site(node), self.frames[-1].ctx), aterm(a))
        e = unk(t, kind, labels)
        return ("unk", lambda s: [(s, e)])

    def _lazy(self, node, st, a, o, labels):
        """map/filter/zip/enumerate/takewhile/dropwhile/chain objects"""
        return self.lib.lazy_elements(self, node, st, a, o, labels)

    def run_gen(self, st, node, oid, body, brks, labels=EMPTY):
        g = st.get(oid)
        caller = list(self.frames)
        done = []

        def cb(s, v):
            # the loop's body runs in the frames of the loop
            gframes = self.frames
            self.frames = list(caller)
            try:
                n, b = body(s, v.lab(labels))
            finally:
                self.frames = gframes
            brks.extend(b)
            return n

        for s2, _ in self.invoke(st, node, g.x["func"], g.x["bound"], cb,
                                 keep=True):
            done.append(s2)
        return done

    def s_FunctionDef(self, s, st):
        out = []
        for st2, f in self.make_func(s, st):
            cur = [(st2, f)]
            for d in reversed(s.decorator_list):
                nxt = []
                for c, v in cur:
                    nxt += self.decorate(d, v, c, s)
                cur = nxt
            for c, v in cur:
                self.setlocal(c, s.name, v)
                out.append(c)
        return Out(out)

    def decorate(self, d, fv, st, s):
        name = dotted_name(d)
        out = []
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
            for st2, p in self.ev(d.value, st):
                pa = p.one()
                if pa and pa[0] == "r":
                    o = st2.get(pa[1]).copy()
                    o.attrs[d.attr] = fv
                    out.append((st2, ref(self.alloc(st2, d, o, d.attr))))
                else:
                    out.append((st2, p))
            return out
        for st2, dv in self.ev(d, st):
            a = dv.one()
            if a and a[0] == "x":
                n = a[1].split(".")[-1]
                if n in ("property", "cached_property", "abstractproperty"):
                    out.append((st2, self.new(st2, d, "prop", attrs={"get": fv})))
                    continue
                if n == "classmethod":
                    out.append((st2, self.new(st2, d, "cm", attrs={"f": fv})))
                    continue
                if n == "staticmethod":
                    out.append((st2, self.new(st2, d, "sm", attrs={"f": fv})))
                    continue
                if n == "contextmanager":
                    fo = st2.get(fv.one()[1]).copy()
                    fo.x["ctxmgr"] = True
                    st2.put(fv.one()[1], fo)
                    out.append((st2, fv))
                    continue
                out.append((st2, fv))      # wraps, lru_cache, abstractmethod...
                continue
            out += self.call(st2, d, dv, [fv], {})
        return out

    def make_func(self, s, st):
        """the function object of a def or a lambda"""
        defaults = s.args.defaults
        kwd = s.args.kw_defaults
        cur = [(st, [])]
        for d in defaults + [k for k in kwd if k is not None]:
            nxt = []
            for c, vs in cur:
                for c2, v in self.ev(d, c):
                    nxt.append((c2, vs + [v]))
            cur = nxt
        out = []
        fr = self.frame
        for c, vs in cur:
            o = Obj("func", cls=getattr(s, "name", "<lambda>"))
            o.x["node"] = s
            o.x["mod"] = fr.mod
            o.x["env"] = fr.env if fr.scope is not None else None
            o.x["clsname"] = self.clsname()
            o.x["clsoid"] = fr.cls
            for i, v in enumerate(vs):
                o.attrs["@d%d" % i] = v
                for a in v.atoms:
                    if a[0] == "r" and a[1] in c.heap:
                        dob = c.get(a[1])
                        if dob.kind in ("list", "dict", "set"):
                            dob = dob.copy()
                            dob.x["tags"] = frozenset(["default"])
                            c.put(a[1], dob)
            q = fr.name + "." + o.cls
            if fr.cls is None and fr.scope is None:
                q = fr.name + "." + o.cls
            o.x["qual"] = q
            oid = self.alloc(c, s, o, "func")
            out.append((c, ref(oid)))
        return out

    def clsname(self):
        c = self.frame.cls
        if c is None:
            return None
        return c if isinstance(c, str) else c[-1] if not isinstance(c, tuple) else c[1]

    def s_ClassDef(self, s, st):
        cur = [(st, [])]
        meta = None
        for b in s.bases:
            nxt = []
            for c, vs in cur:
                for c2, v in self.ev(b, c):
                    nxt.append((c2, vs + [v]))
            cur = nxt
        out = []
        for c, bases in cur:
            env = ("classenv", self.site(s), self.frame.ctx)
            c.put(env, Obj("env"))
            fr = Frame()
            outer = self.frame
            fr.func = None
            fr.env = env
            fr.mod = outer.mod
            fr.cls = ("cls", s.name, self.site(s), outer.ctx)
            fr.yield_cb = None
            fr.ctx = self.ctxid(outer.ctx, "class", self.site(s))
            fr.node = s
            fr.curexc = []
            fr.scope = None
            fr.live = None
            fr.rets = []
            fr.loops = []
            fr.name = outer.name + "." + s.name
            self.frames.append(fr)
            try:
                o = self.block(s.body, [c])
            finally:
                self.frames.pop()
            for c2 in o.normal:
                attrs = c2.get(env).attrs
                oid = fr.cls
                ob = Obj("class", cls=s.name, attrs=dict(attrs))
                ob.x["bases"] = tuple(a for b in bases for a in b.atoms)
                ob.x["qual"] = fr.name
                c2.put(oid, ob)
                ob.x["mro"] = tuple(self.mro(c2, oid))
                cv = ref(oid)
                for d in reversed(s.decorator_list):
                    for c2, cv2 in self.ev(d, c2):
                        pass
                self.setlocal(c2, s.name, cv)
                out.append(c2)
        return Out(out)

    def mro(self, st, oid):
        """C3 linearisation: class oids and ext names"""
        def lin(a):
            if a[0] == "x":
                if a[1] in ("builtins.object", "object"):
                    return [("x", "builtins.object")]
                return [a, ("x", "builtins.object")]
            o = st.get(a[1])
            if "mro" in o.x:
                return list(o.x["mro"])
            bases = [b for b in o.x["bases"] if b[0] in ("r", "x")]
            seqs = [lin(b) for b in bases] + [list(bases)]
            res = [a]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        return lin(("r", oid))

    def s_Import(self, s, st):
        for a in s.names:
            m = self.import_module(a.name, st)
            if m is not None:
                if a.asname:
                    self.setlocal(st, a.asname, ref(m))
                else:
                    self.setlocal(st, a.name.split(".")[0],
                                  ref(self.modules[a.name.split(".")[0]]))
            else:
                self.setlocal(st, a.asname or a.name.split(".")[0],
                              ext(a.name if a.asname else a.name.split(".")[0]))
        return Out([st])

    def s_ImportFrom(self, s, st):
        if s.module == "__future__":
            return Out([st])
        modname = s.module or ""
        if s.level:
            base = self.base_package(s.level)
            modname = base + ("." + modname if modname else "")
        m = self.import_module(modname, st)
        for a in s.names:
            if m is None:
                if a.name == "*":
                    continue
                self.setlocal(st, a.asname or a.name,
                              self.lib.ext_import(modname, a.name))
                continue
            mo = st.get(m)
            if a.name == "*":
                for k, v in mo.attrs.items():
                    if not k.startswith("_"):
                        self.setlocal(st, k, v)
                continue
            v = mo.attrs.get(a.name)
            if v is None:
                sub = self.import_module(modname + "." + a.name, st)
                if sub is not None:
                    v = ref(sub)
            if v is None:
                self.record("noattr", st, s, obj=modname, attr=a.name,
                            what="import")
                self.raise_now(st, s, "ImportError", "noattr",
                               detail=None)
                return Out([])
            self.setlocal(st, a.asname or a.name, v)
        return Out([st])

    def base_package(self, level):
        name = self.frame.mod[1]
        rel = self.modpath(name)
        parts = name.split(".")
        if not rel.endswith("__init__.py"):
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts)

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = [e for f in reversed(self.frames) for e in reversed(f.curexc)]
            if cur:
                self.throw(st, cur[0])
            else:
                self.raise_now(st, s, "RuntimeError", "explicit")
            return Out()
        for st2, v in self.ev(s.exc, st):
            for a in v.atoms:
                t = self.exc_type(st2, a)
                e = Exc(t, v.labels, "explicit", val=v, site=self.where(s))
                self.throw(st2.copy(), e)
        return Out()

    def exc_type(self, st, a):
        if a[0] == "x":
            return exc_norm(a[1])
        if a[0] == "r":
            o = st.get(a[1])
            if o.kind == "class":
                return a
            if o.kind == "inst":
                if o.cls[0] == "x":
                    return exc_norm(o.cls[1])
                return o.cls
            if o.kind == "exc":
                return o.x["type"]
        if a[0] == "u" and a[2].op == "excinst":
            return a[2].args[0]
        return "Anything"

    def exc_matches(self, st, etype, h):
        """does exception type etype match handler atom h: True/False/None"""
        if h[0] == "t":
            res = [self.exc_matches(st, etype, x) for v in h[1] for x in v.atoms]
            if any(r is True for r in res):
                return True
            return None if any(r is None for r in res) else False
        if isinstance(etype, tuple):
            mro = st.get(etype[1]).x["mro"]
            names = []
            for m in mro:
                if m[0] == "x":
                    names += exc_ancestors(m[1])
            if h[0] == "r":
                return h in mro
            if h[0] == "x":
                return exc_norm(h[1]) in names
            return None
        if h[0] == "r":
            return None if etype in MAYBE_SUB else False
        if h[0] == "x":
            hn = exc_norm(h[1])
            if hn in exc_ancestors(etype):
                return True
            # a more specific handler may match
            if etype in MAYBE_SUB or etype in exc_ancestors(hn)[1:]:
                if etype in ("OSError", "Anything"):
                    return None
                return None
            return False
        return None

    def s_Try(self, s, st):
        saved = st.pc
        sink = []
        self.sinks.append(sink)
        nr = len(self.frame.rets)
        myrets = []
        fr = self.frame
        oldrets = fr.rets
        if s.finalbody:
            fr.rets = myrets
            self.collectors.append(myrets)
        # exceptions of handlers and else go outside, but through finally
        outsink = []
        try:
            o = self.block(s.body, [st])
        finally:
            self.sinks.pop()
        normal = []
        brk, cont = list(o.brk), list(o.cont)
        self.sinks.append(outsink)
        try:
            if s.orelse and o.normal:
                oe = self.block(s.orelse, o.normal)
                normal += oe.normal
                brk += oe.brk
                cont += oe.cont
            else:
                normal += o.normal
            for est, e in self.merge_exc(sink):
                n, b, c = self.handle(s, est, e, saved)
                normal += n
                brk += b
                cont += c
        finally:
            self.sinks.pop()
            if s.finalbody:
                fr.rets = oldrets
                self.collectors.pop()
        out = Out()
        if s.finalbody:
            for what, lst in (("n", normal), ("b", brk), ("c", cont)):
                for x in self.reduce(lst):
                    of = self.block(s.finalbody, [x])
                    getattr(out, {"n": "normal", "b": "brk", "c": "cont"}[what]).extend(of.normal)
                    out.brk += of.brk
                    out.cont += of.cont
            for x, v in myrets:
                env = x.get(fr.env).copy()
                env.attrs["@ret"] = v
                x.put(fr.env, env)
                of = self.block(s.finalbody, [x])
                for y in of.normal:
                    oldrets.append((y, v))
                out.brk += of.brk
                out.cont += of.cont
            for x, e in self.merge_exc(outsink):
                of = self.block(s.finalbody, [x])
                for y in of.normal:
                    self.throw(y, e)
                out.brk += of.brk
                out.cont += of.cont
        else:
            out.normal, out.brk, out.cont = normal, brk, cont
            self.sinks[-1].extend(outsink)
        return out

    s_TryStar = s_Try

    def merge_exc(self, sink):
        by = {}
        for st, e in sink:
            by.setdefault((e.type, e.origin if not str(e.origin).startswith("lib:")
                           else "lib", e.site), []).append((st, e))
        out = []
        for k, lst in by.items():
            labels = frozenset().union(*[e.labels for _, e in lst])
            for st in self.reduce([s for s, _ in lst], cap=8):
                e = Exc(lst[0][1].type, labels, lst[0][1].origin,
                        lst[0][1].val, lst[0][1].site)
                out.append((st, e))
        return out

    def handle(self, s, st, e, saved):
        n, b, c = [], [], []
        cur = st
        for h in s.handlers:
            if h.type is None:
                m = True
            else:
                # handler types are plain names
                m = False
                self.probing += 1
                res = self.ev(h.type, cur.copy())
                self.probing -= 1
                for _, tv in res:
                    for a in tv.atoms:
                        r = self.exc_matches(cur, e.type, a)
                        if r:
                            m = True
                        elif r is None and m is False:
                            m = None
            if m is False:
                continue
            hs = cur.copy() if m is None else cur
            hs.pc = saved | (e.labels if self.cfg.soft("exc-labels") else
                             frozenset(l for l in e.labels if l.startswith("#")))
            self.record("handler", hs, h, etype=e.type, origin=e.origin,
                        labels=e.labels, site=e.site)
            if h.name:
                ev = e.val
                if not isinstance(ev, V):
                    ev = unk(T.mk("excinst", e.type, str(e.site)), "exc", e.labels)
                self.setlocal(hs, h.name, ev.lab(e.labels))
            self.frame.curexc.append(e)
            try:
                o = self.block(h.body, [hs])
            finally:
                self.frame.curexc.pop()
            for x in o.normal:
                x.pc = saved | (hs.pc if leaves(h.body) else EMPTY)
            n += o.normal
            b += o.brk
            c += o.cont
            if m is True:
                return n, b, c
        self.throw(cur, e)
        return n, b, c

    def s_With(self, s, st):
        return self.with_items(s, 0, st)

    def with_items(self, s, i, st):
        if i == len(s.items):
            return self.block(s.body, [st])
        item = s.items[i]
        out = Out()
        for st2, cm in self.ev(item.context_expr, st):
            a = cm.one()
            if a and a[0] == "r" and st2.get(a[1]).kind == "gen" and \
                    st2.get(a[1]).x.get("ctxmgr"):
                brks, conts = [], []
                self.collectors += [brks, conts]
                caller_fr = self.frame

                def body(b, v):
                    n = []
                    for b2 in (self.assign(item.optional_vars, v, b, s)
                               if item.optional_vars is not None else [b]):
                        o = self.with_items(s, i + 1, b2)
                        n += o.normal
                        brks.extend(o.brk)
                        conts.extend(o.cont)
                    return n, []
                done = self.run_gen(st2, s, a[1], body, [])
                del self.collectors[-2:]
                out.normal += done
                out.brk += brks
                out.cont += conts
                continue
            for st3, val in self.enter(s, st2, cm):
                binds = [st3]
                if item.optional_vars is not None:
                    binds = self.assign(item.optional_vars, val, st3, s)
                for b in binds:
                    sink = []
                    self.sinks.append(sink)
                    fr = self.frame
                    oldrets, myrets = fr.rets, []
                    fr.rets = myrets
                    self.collectors.append(myrets)
                    fr.loops.append(cm)
                    try:
                        o = self.with_items(s, i + 1, b)
                    finally:
                        self.sinks.pop()
                        fr.rets = oldrets
                        self.collectors.pop()
                        fr.loops.pop()
                    for x in o.normal:
                        out.normal += self.leave(s, x, cm)
                    for x in o.brk:
                        out.brk += self.leave(s, x, cm)
                    for x in o.cont:
                        out.cont += self.leave(s, x, cm)
                    for x, v in myrets:
                        for y in self.leave(s, x, cm):
                            oldrets.append((y, v))
                    for x, e in sink:
                        if self.suppresses(x, cm, e):
                            out.normal += self.leave(s, x, cm)
                            continue
                        for y in self.leave(s, x, cm, e):
                            self.throw(y, e)
        return out

    def suppresses(self, st, cm, e):
        for a in cm.atoms:
            if a[0] == "r":
                o = st.get(a[1])
                if o.kind == "suppress":
                    for v in o.items:
                        for h in v.atoms:
                            if self.exc_matches(st, e.type, h):
                                return True
        return False

    def enter(self, node, st, cm):
        out = []
        for a in cm.atoms:
            s = st if len(cm.atoms) == 1 else st.copy()
            if a[0] == "r":
                o = s.get(a[1])
                if o.kind == "inst":
                    f = self.class_attr(s, o.cls, "__enter__")
                    if f is not None:
                        for fa in f.atoms:
                            out += self.call_atom(s, node, ("b", a, fa), [], {})
                        continue
                if o.kind == "ctx" and "enter" in o.x:
                    out.append((s, o.x["enter"]))
                    continue
                out.append((s, V((a,), cm.labels)))
            elif a[0] == "u":
                out.append((s, unk(T.mk("enter", a[2]), a[1], cm.labels)))
            else:
                out.append((s, V((a,), cm.labels)))
        return out

    def leave(self, node, st, cm, exc=None):
        cur = [st]
        for a in cm.atoms:
            if a[0] != "r":
                continue
            nxt = []
            for s in cur:
                if not s.has(a[1]):
                    nxt.append(s)
                    continue
                o = s.get(a[1])
                if o.kind == "file":
                    self.lib.file_close(self, s, node, a)
                    nxt.append(s)
                elif o.kind == "inst" and self.class_attr(s, o.cls, "__exit__"):
                    for fa in self.class_attr(s, o.cls, "__exit__").atoms:
                        for s2, _ in self.call_atom(
                                s, node, ("b", a, fa), [NONE, NONE, NONE]
                                if exc is None else
                                [unk(T.mk("exctype"), "class"),
                                 unk(T.mk("excval"), "exc"),
                                 unk(T.mk("exctb"), "tb")], {}):
                            nxt.append(s2)
                else:
                    if o.kind == "ctx":
                        self.record("ctx-exit", s, node, what=o.cls)
                    nxt.append(s)
            cur = nxt
        return cur

    # -------------------------------------------------------------- assign

    def setlocal(self, st, name, v):
        fr = self.frame
        name = mangle(name, self.clsname()) if fr.scope is None and fr.cls else name
        if fr.scope is not None and name in fr.scope.globals:
            self.mutate_global(st, fr.mod, name, v, fr)
            return
        if fr.scope is not None and name in fr.scope.nonlocals:
            e = st.get(fr.env).x.get("parent")
            while e is not None:
                eo = st.get(e)
                if name in eo.attrs:
                    eo = eo.copy()
                    eo.attrs[name] = v.lab(st.pc)
                    st.put(e, eo)
                    return
                e = eo.x.get("parent")
            return
        env = st.get(fr.env).copy()
        env.attrs[name] = v.lab(st.pc)
        st.put(fr.env, env)

    def mutate_global(self, st, mod, name, v, fr):
        self.record("mutate", st, fr.node, regions=frozenset(["global"]),
                    how="global " + name, oid=mod, okind="module", cls=mod[1],
                    key=name, value=v)
        self.setattr_raw(st, mod, name, v.lab(st.pc))

    def setattr_raw(self, st, oid, name, v):
        o = st.get(oid).copy()
        o.attrs[name] = v
        st.put(oid, o)

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            self.setlocal(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, ast.Attribute):
            out = []
            for st2, o in self.ev(t.value, st):
                out += self.store_attr(t, st2, o, mangle(t.attr, self.clsname()), v)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for st2, o in self.ev(t.value, st):
                for st3, k in self.ev(t.slice, st2):
                    out += self.store_item(t, st3, o, k, v)
            return out
        raise AnalysisError("%s: unsupported target" % self.where(node))

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        out = []
        for a in v.atoms:
            s = st if len(v.atoms) == 1 else st.copy()
            items = None
            if a[0] == "t":
                items = list(a[1])
            elif a[0] == "c" and isinstance(a[2], (str, tuple)):
                items = [const(x) for x in a[2]]
            elif a[0] == "r":
                o = s.get(a[1])
                if o.kind == "list" and o.items is not None and o.summ is None:
                    items = list(o.items)
                elif o.kind in ("list", "set"):
                    e = join(*(list(o.items or ()) + ([o.summ] if o.summ else [])))
                    items = [e or NONE] * n if not star else None
                elif o.kind == "gen" or o.x.get("lazy"):
                    r = self.lib.to_list(self, s, node, V((a,), v.labels))
                    if len(r) == 1:
                        s, lv = r[0]
                        return self.unpack(t, lv, s, node)
            if items is not None and star:
                i = star[0]
                after = n - i - 1
                if len(items) >= n - 1:
                    mid = items[i:len(items) - after]
                    lst = self.newlist(s, node, mid, extra="star")
                    items = items[:i] + [lst] + items[len(items) - after:]
                else:
                    items = None
            if items is None:
                self.maybe_raise(s, node, "unpack", v.labels)
                items = []
                for i, e in enumerate(t.elts):
                    x = unk(T.mk("item", aterm(a), T.mk("c", "int", i)), None)
                    if isinstance(e, ast.Starred):
                        x = unk(T.mk("item", aterm(a), T.mk("slice", i)), "list")
                    items.append(x)
            if len(items) != n:
                self.raise_now(s, node, "ValueError", "unpack", v.labels)
                continue
            cur = [s]
            for e, x in zip(t.elts, items):
                nxt = []
                for c in cur:
                    nxt += self.assign(e, x.lab(v.labels), c, node)
                cur = nxt
            out += cur
        return out

    def store_attr(self, node, st, o, name, v):
        v = v.lab(st.pc)
        out = []
        for a in o.atoms:
            s = st if len(o.atoms) == 1 else st.copy()
            if a[0] == "r":
                ob = s.get(a[1])
                if ob.kind in ("df", "series", "index"):
                    self.mutate(s, a, "set ." + name, node, v)
                    self.lib.df_setattr(self, s, node, a, name, v)
                    out.append(s)
                    continue
                if ob.kind == "inst":
                    p = self.class_attr(s, ob.cls, name)
                    pa = p.one() if p else None
                    if pa and pa[0] == "r" and s.get(pa[1]).kind == "prop" and \
                            "setter" in s.get(pa[1]).attrs:
                        for f in s.get(pa[1]).attrs["setter"].atoms:
                            for s2, _ in self.call_atom(s, node, ("b", a, f), [v], {}):
                                out.append(s2)
                        continue
                    sa = self.class_attr(s, ob.cls, "__setattr__")
                    if sa is not None:
                        for f in sa.atoms:
                            for s2, _ in self.call_atom(
                                    s, node, ("b", a, f), [const(name), v], {}):
                                out.append(s2)
                        continue
                self.mutate(s, a, "set ." + name, node, v, key=name)
                self.record("setattr", s, node, oid=a[1], attr=name, value=v)
                ob = s.get(a[1]).copy()
                ob.attrs[name] = v
                s.put(a[1], ob)
            elif a[0] == "u":
                self.mutate(s, a, "set ." + str(name), node, v, key=name)
                self.record("usetattr", s, node, term=a[2], attr=name, value=v)
                s.uattrs = dict(s.uattrs)
                s.uattrs[(a[2], name)] = v
            elif a[0] == "x":
                self.record("extset", s, node, name=a[1] + "." + str(name), value=v)
            elif a[0] == "c" and a[2] is None:
                self.raise_now(s, node, "AttributeError", "noneattr", o.labels)
                continue
            out.append(s)
        return out

    def store_item(self, node, st, o, k, v):
        v = v.lab(st.pc | k.labels)
        out = []
        for a in o.atoms:
            s = st if len(o.atoms) == 1 else st.copy()
            if a[0] == "r":
                ob = s.get(a[1])
                self.mutate(s, a, "set item", node, v, key=k)
                if ob.kind in ("df", "series", "index"):
                    self.lib.df_setitem(self, s, node, a, k, v)
                    out.append(s)
                    continue
                if ob.kind == "inst":
                    f = self.class_attr(s, ob.cls, "__setitem__")
                    if f is not None:
                        for fa in f.atoms:
                            for s2, _ in self.call_atom(s, node, ("b", a, fa), [k, v], {}):
                                out.append(s2)
                        continue
                ob = ob.copy()
                if ob.kind == "dict":
                    if ob.entries is None:
                        ob.entries = {}
                    for ka in k.atoms:
                        if len(k.atoms) == 1 and is_key(ka):
                            ob.entries[ka] = v
                            ob.x["klabels"] = ob.x.get("klabels", EMPTY) | k.labels
                        elif ka in ob.entries:
                            ob.entries[ka] = join(ob.entries[ka], v)
                        else:
                            ob.summ = join(ob.summ, v)
                            ob.ksumm = join(ob.ksumm, V((ka,), k.labels))
                elif ob.kind == "list":
                    ka = k.one()
                    if ob.items is not None and ka and ka[0] == "c" and \
                            isinstance(ka[2], int) and \
                            -len(ob.items) <= ka[2] < len(ob.items):
                        ob.items[ka[2]] = v
                    else:
                        if ob.items is not None:
                            listsumm(ob)
                        ob.summ = join(ob.summ, v)
                else:
                    ob.summ = join(ob.summ, v)
                s.put(a[1], ob)
            elif a[0] == "loc":
                inner = a[1]
                self.mutate(s, inner, "set item", node, v, key=k)
                if inner[0] == "r":
                    self.lib.df_locset(self, s, node, inner, k, v)
            elif a[0] == "u":
                self.mutate(s, a, "set item", node, v, key=k)
                self.record("usetitem", s, node, term=a[2], key=k, value=v)
            elif a[0] == "x":
                self.record("extset", s, node, name=a[1] + "[]", value=v)
            out.append(s)
        return out

    # ------------------------------------------------------------ conditions

    def cond(self, node, st):
        """evaluate a test: ([(state, labels)] if true, [... if false])"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [(st, EMPTY)]
            leave = []
            for v in node.values:
                nxt = []
                for s, l in cur:
                    t, f = self.cond(v, s)
                    go, stop = (t, f) if isand else (f, t)
                    nxt += [(x, l | m) for x, m in go]
                    leave += [(x, l | m) for x, m in stop]
                cur = nxt
            cur, leave = self._rl(cur), self._rl(leave)
            return (cur, leave) if isand else (leave, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            return self.cond_compare(node, st)
        if isinstance(node, ast.Compare):
            t, f = [], []
            for s, v in self.ev(node, st):
                a, b = self.split(s, v)
                t += a
                f += b
            return t, f
        t, f = [], []
        for s, v in self.ev(node, st):
            a, b = self.split(s, v, node)
            t += a
            f += b
        return t, f

    def _rl(self, pairs):
        if len(pairs) < 2:
            return pairs
        by = {}
        for s, l in pairs:
            by.setdefault(l, []).append(s)
        out = []
        for l, ss in by.items():
            out += [(s, l) for s in self.reduce(ss)]
        return out

    def split(self, st, v, node=None):
        """fork on the truth of a value"""
        t, f, u = [], [], []
        for a in v.atoms:
            r = self.truth(st, a, v.labels)
            (t if r is True else f if r is False else u).append(a)
        if not u:
            if not f:
                return [(st, v.labels)], []
            if not t:
                return [], [(st, v.labels)]
        ts, fs = st, st.copy()
        if len(v.atoms) == 1 and u:
            a = u[0]
            tm = aterm(a)
            ts.facts = ts.facts | add_fact(("T", tm, True))
            fs.facts = fs.facts | add_fact(("T", tm, False))
            if a[0] == "u" and tm.op in CMPOPS:
                # x > y is a fact about x and y
                pass
        elif not u:
            self.match_fact(ts, fs, f, t)
        if node is not None and len(v.atoms) > 1:
            self.refine(ts, node, V(frozenset(t + u), v.labels))
            self.refine(fs, node, V(frozenset(f + u), v.labels))
        return [(ts, v.labels)], [(fs, v.labels)]

    def match_fact(self, ts, fs, none, some):
        """a value that's None or a match tells if a regular expression matches"""
        if none == [NONE.one()] and len(some) == 1 and some[0][0] == "r":
            o = ts.get(some[0][1])
            if o.kind == "match" and "t" in o.x:
                ts.facts = ts.facts | add_fact(("T", o.x["t"], True))
                fs.facts = fs.facts | add_fact(("T", o.x["t"], False))

    def refine(self, st, node, v):
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            fr = self.frame
            if fr.scope is not None and node.id in fr.scope.locals:
                env = st.get(fr.env)
                if node.id in env.attrs:
                    env = env.copy()
                    env.attrs[node.id] = v
                    st.put(fr.env, env)
        elif isinstance(node, ast.Attribute):
            o = self.pure_ref(node.value, st)
            if o is not None:
                ob = st.get(o)
                name = mangle(node.attr, self.clsname())
                if ob.kind == "inst" and name in ob.attrs:
                    ob = ob.copy()
                    ob.attrs[name] = v
                    st.put(o, ob)

    def pure_ref(self, node, st):
        if isinstance(node, ast.Name):
            fr = self.frame
            v = st.get(fr.env).attrs.get(node.id)
            if v is not None:
                a = v.one()
                if a and a[0] == "r":
                    return a[1]
        elif isinstance(node, ast.Attribute):
            o = self.pure_ref(node.value, st)
            if o is not None:
                v = st.get(o).attrs.get(mangle(node.attr, self.clsname()))
                a = v.one() if v is not None else None
                if a and a[0] == "r":
                    return a[1]
        return None

    def truth(self, st, a, labels=EMPTY):
        tag = a[0]
        if tag == "c":
            return bool(a[2])
        if tag == "t":
            return len(a[1]) > 0
        if tag == "r":
            o = st.get(a[1])
            if o.kind in ("list", "set", "dict"):
                if o.x.get("lazy"):
                    return True
                n = len(o.items) if o.items is not None else 0
                if o.entries:
                    n += len(o.entries)
                if n:
                    return True
                if o.summ is None and o.ksumm is None:
                    return False
                return self.fact(st, ("T", aterm(a)))
            if o.kind == "inst" and o.cls[0] == "r":
                if self.class_attr(st, o.cls, "__len__") or \
                        self.class_attr(st, o.cls, "__bool__"):
                    return None
                return True
            if o.kind in ("df", "series", "index"):
                return self.fact(st, ("T", aterm(a)))
            return True
        if tag in ("x", "b", "bx", "sup", "loc"):
            return True
        if tag == "u":
            r = self.fact(st, ("T", a[2]))
            if r is not None:
                return r
            if a[2].op == "not":
                r = self.fact(st, ("T", a[2].args[0]))
                if r is not None:
                    return not r
            if a[2].op in CMPOPS:
                r = self.decide_cmp(st, a[2].op, a[2].args)
                if r is not None:
                    return r
            r = self.cfg.truth(self, st, a, labels)
            if r is not None:
                return r
            if a[1] in ("file", "match", "func", "regex", "class", "exc",
                        "instance"):
                return True
        return None

    def fact(self, st, key):
        for val in (True, False):
            if key + (val,) in st.facts:
                return val
        return None

    def decide_cmp(self, st, op, args):
        r = self.fact(st, ("T", T.mk(op, *args)))
        return r

    def cond_compare(self, node, st):
        op = node.ops[0]
        t, f = [], []
        for s, l in self.ev(node.left, st):
            for s2, r in self.ev(node.comparators[0], s):
                if isinstance(op, (ast.Is, ast.IsNot)) and r.one() == NONE.one():
                    a, b = self.split_none(s2, l, node.left)
                    if isinstance(op, ast.IsNot):
                        a, b = b, a
                    t += a
                    f += b
                    continue
                for s3, v in self.compare(node, s2, type(op).__name__, l, r):
                    a, b = self.split(s3, v)
                    # equality with a constant refines the variable
                    t += a
                    f += b
        return t, f

    def split_none(self, st, v, node):
        yes, no, may = [], [], []
        for a in v.atoms:
            if a[0] == "c":
                (yes if a[2] is None else no).append(a)
            elif a[0] == "u" and a[1] is None and a[2].op not in NEVERNONE:
                r = self.fact(st, ("N", a[2]))
                if r is None:
                    if self.fact(st, ("T", a[2])) is True:
                        r = False
                (may if r is None else yes if r else no).append(a)
            else:
                no.append(a)
        L = v.labels
        if not may:
            if not no:
                return [(st, L)], []
            if not yes:
                return [], [(st, L)]
        ts, fs = st, st.copy()
        for a in may:
            if len(v.atoms) == 1:
                ts.facts = ts.facts | frozenset([("N", a[2], True), ("T", a[2], False)])
                fs.facts = fs.facts | frozenset([("N", a[2], False)])
        if not may:
            self.match_fact(fs, ts, yes, no)
        self.refine(ts, node, NONE.lab(L))
        if no or may:
            self.refine(fs, node, V(frozenset(no + may), L))
        return [(ts, L)], [(fs, L)]

    # ----------------------------------------------------------- expressions

    def ev(self, n, st):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError("%s: unsupported expression %s" %
                                (self.where(n), type(n).__name__))
        return m(n, st)

    def evs(self, nodes, st):
        """evaluate several expressions: [(state, [values])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        v = self.lookup(st, n.id, n)
        if v is None:
            return []
        return [(st, v)]

    def lookup(self, st, name, node):
        fr = self.frame
        mname = name
        if fr.cls and name.startswith("__") and not name.endswith("__"):
            mname = mangle(name, self.clsname())
        if fr.scope is not None:
            if name in fr.scope.locals:
                v = st.get(fr.env).attrs.get(name)
                if v is None:
                    self.record("unbound", st, node, name=name, local=True)
                    self.raise_now(st, node, "UnboundLocalError", "unbound",
                                   detail=None)
                    return None
                return v
            e = st.get(fr.env).x.get("parent")
            while e is not None:
                eo = st.get(e)
                if name in eo.attrs:
                    return eo.attrs[name]
                e = eo.x.get("parent")
        else:
            v = st.get(fr.env).attrs.get(mname)
            if v is not None:
                return v
            # class bodies inside functions
            for g in reversed(self.frames[:-1]):
                if g.mod != fr.mod:
                    break
                if g.scope is not None:
                    v = st.get(g.env).attrs.get(name)
                    if v is not None:
                        return v
                    break
        v = st.get(fr.mod).attrs.get(name)
        if v is not None:
            return v
        if hasattr(pybuiltins, name) or name in ("__file__", "__name__"):
            return ext("builtins." + name)
        self.record("unbound", st, node, name=name, local=False)
        self.raise_now(st, node, "NameError", "unbound")
        return None

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            self.setlocal(s, n.target.id, v)
            out.append((s, v))
        return out

    def e_Tuple(self, n, st):
        return self._seq(n, st, tuple_=True)

    def e_List(self, n, st):
        return self._seq(n, st)

    def e_Set(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            out.append((s, self.newlist(s, n, vs, kind="set")))
        return out

    def _seq(self, n, st, tuple_=False):
        cur = [(st, [])]
        unknown = False
        for e in n.elts:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        for s3, lv in self.lib.to_list(self, s2, e, v):
                            a = lv.one()
                            o = s3.get(a[1]) if a and a[0] == "r" else None
                            if o is not None and o.items is not None and o.summ is None:
                                nxt.append((s3, vs + [x.lab(lv.labels) for x in o.items]))
                            else:
                                sm = o.summ if o is not None and o.summ else \
                                    unk(T.mk("elemof", term(lv)), None, lv.labels)
                                nxt.append((s3, vs + [Star(sm)]))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        out = []
        for s, vs in cur:
            if any(isinstance(v, Star) for v in vs):
                sm = join(*[v.v if isinstance(v, Star) else v for v in vs])
                out.append((s, self.newlist(s, n, None, sm)))
            elif tuple_:
                if all(v.one() and v.one()[0] == "c" and not v.labels for v in vs) and False:
                    pass
                out.append((s, tup(vs)))
            else:
                out.append((s, self.newlist(s, n, vs)))
        return out

    def e_Dict(self, n, st):
        cur = [(st, {}, None, None)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, d, sm, ks in cur:
                if k is None:
                    for s2, dv in self.ev(v, s):
                        a = dv.one()
                        d2, sm2, ks2 = dict(d), sm, ks
                        if a and a[0] == "r" and s2.get(a[1]).kind == "dict":
                            o = s2.get(a[1])
                            for kk, vv in o.entries.items():
                                d2[kk] = vv
                            sm2, ks2 = join(sm, o.summ), join(ks, o.ksumm)
                        else:
                            sm2 = join(sm, unk(T.mk("elemof", term(dv)), None, dv.labels))
                            ks2 = join(ks, unk(T.mk("keyof", term(dv)), "str", dv.labels))
                        nxt.append((s2, d2, sm2, ks2))
                    continue
                for s2, kv in self.ev(k, s):
                    for s3, vv in self.ev(v, s2):
                        d2, sm2, ks2 = dict(d), sm, ks
                        ka = kv.one()
                        if ka is not None and is_key(ka):
                            d2[ka] = vv.lab(kv.labels)
                        else:
                            sm2 = join(sm, vv.lab(kv.labels))
                            ks2 = join(ks, kv)
                        nxt.append((s3, d2, sm2, ks2))
            cur = nxt
        return [(s, self.newdict(s, n, d, sm, ks)) for s, d, sm, ks in cur]

    def e_IfExp(self, n, st):
        saved = st.pc
        t, f = self.cond(n.test, st)
        out = []
        for br, e in ((t, n.body), (f, n.orelse)):
            for s, l in br:
                s.pc = saved | l
                for s2, v in self.ev(e, s):
                    s2.pc = saved
                    out.append((s2, v.lab(l)))
        return self.reduce_vals(out)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = [(st, EMPTY)]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s, l in cur:
                for s2, v in self.ev(e, s):
                    v = v.lab(l)
                    if last:
                        out.append((s2, v))
                        continue
                    a0 = v.one()
                    if a0 and (a0[0] == "r" and s2.get(a0[1]).kind in ("df", "series")):
                        # pandas objects have no truth value
                        for s3, r in self.binop(n, s2, "And" if isand else "Or",
                                                v, v):
                            nxt.append((s3, v.labels))
                        continue
                    t, f = self.split(s2, v, e)
                    go, stop = (t, f) if isand else (f, t)
                    for s3, l3 in stop:
                        keep = [a for a in v.atoms
                                if self.truth(s3, a, v.labels) is not (isand)]
                        if not keep:
                            keep = list(v.atoms)
                        out.append((s3, V(frozenset(keep), v.labels)))
                    for s3, l3 in go:
                        nxt.append((s3, l | l3))
            cur = nxt
        # the value is one of two unknowns: name it after both
        return self.reduce_vals(out)

    def e_UnaryOp(self, n, st):
        out = []
        op = type(n.op).__name__
        if op == "Not":
            t, f = self.cond(n.operand, st)
            return [(s, FALSE.lab(l)) for s, l in t] + \
                   [(s, TRUE.lab(l)) for s, l in f]
        for s, v in self.ev(n.operand, st):
            res = []
            for a in v.atoms:
                if a[0] == "c" and isinstance(a[2], (int, float)):
                    x = {"USub": lambda q: -q, "UAdd": lambda q: +q,
                         "Invert": lambda q: ~q if isinstance(q, int) else q}[op](a[2])
                    res.append(const(x))
                elif a[0] == "r" and s.get(a[1]).kind in ("df", "series", "index"):
                    res.append(self.lib.series_op(self, s, n, op, [V((a,), v.labels)]))
                else:
                    kind = a[1] if a[0] == "u" else None
                    res.append(unk(T.mk(op, aterm(a)), kind))
            out.append((s, join(*res).lab(v.labels)))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, l in self.ev(n.left, st):
            for s2, r in self.ev(n.right, s):
                out += self.binop(n, s2, type(n.op).__name__, l, r)
        return out

    def binop(self, n, st, op, l, r):
        labels = l.labels | r.labels
        if len(l.atoms) * len(r.atoms) > 30:
            return [(st, unk(T.mk(op, term(l), term(r)), None, labels))]
        for x, y in ((l, r), (r, l)):
            # a frame and one of several scalars
            xa = x.one()
            if xa and xa[0] == "r" and len(y.atoms) > 1 and \
                    st.get(xa[1]).kind in ("df", "series", "index") and \
                    all(z[0] in ("u", "c") for z in y.atoms):
                return [(st, self.lib.series_op(self, st, n, op, [l, r]).lab(labels))]
        res = []
        states = []
        for a in l.atoms:
            for b in r.atoms:
                v = self.binop1(n, st, op, a, b, l.labels, r.labels)
                if isinstance(v, list):
                    states += v
                elif v is not None:
                    res.append(v)
        out = [(s, v.lab(labels)) for s, v in states]
        if res:
            out.append((st, join(*res).lab(labels)))
        return out

    def binop1(self, n, st, op, a, b, la, lb):
        if a[0] == "c" and b[0] == "c":
            f = PYOPS.get(op)
            try:
                if f and not (op == "Mult" and max(
                        len(str(a[2])), len(str(b[2]))) > 4096) and \
                        not (op == "Pow" and isinstance(b[2], int) and abs(b[2]) > 256):
                    return const(f(a[2], b[2]))
            except Exception:
                self.raise_now(st.copy(), n, "TypeError", "constop")
                return None
        for x in (a, b):
            if x[0] == "r" and st.get(x[1]).kind in ("df", "series", "index"):
                return self.lib.series_op(self, st, n, op,
                                          [V((a,), la), V((b,), lb)])
        if a[0] == "t" and b[0] == "t" and op == "Add":
            return tup(a[1] + b[1])
        if a[0] == "r":
            o = st.get(a[1])
            if o.kind == "list" and op in ("Add",):
                return self.lib.list_concat(self, st, n, V((a,), la), V((b,), lb))
            if o.kind == "list" and op == "Mult":
                cnt = b[2] if b[0] == "c" and isinstance(b[2], int) else None
                if cnt is not None and o.items is not None and cnt <= 64:
                    return self.newlist(st, n, o.items * cnt)
                sm = join(*(list(o.items or ()) + ([o.summ] if o.summ else [])))
                return self.newlist(st, n, None, sm)
            if o.kind in ("set",) and self.cfg.symbolic:
                return unk(T.mk(op, self.lib.snap(self, st, V((a,))), self.lib.snap(self, st, V((b,)))), "set")
            if o.kind in ("set",):
                oo = self.newlist(st, n, None, None, kind="set")
                self.set_join(st, oo.one()[1], V((a,), la))
                if op == "BitOr":
                    self.set_join(st, oo.one()[1], V((b,), lb))
                return oo
            if o.kind == "inst" and o.cls[0] == "r":
                meth = DUNDER.get(op)
                f = self.class_attr(st, o.cls, meth) if meth else None
                if f is not None:
                    out = []
                    for fa in f.atoms:
                        out += self.call_atom(st, n, ("b", a, fa), [V((b,), lb)], {})
                    return out
            if o.kind == "ext":
                return self.lib.ext_binop(self, st, n, op, a, b)
        if b[0] == "r" and st.get(b[1]).kind == "ext":
            return self.lib.ext_binop(self, st, n, op, a, b)
        if op == "Mod" and a[0] == "c" and isinstance(a[2], str):
            r = self.lib.percent_cat(a, V((b,)))
            if r is not None:
                return r
            return unk(T.mk("fmt", a[2], *([aterm(b)])), "str")
        ka = kind_of(st, a)
        kb = kind_of(st, b)
        kind = None
        if op == "Add" and "str" in (ka, kb):
            kind = "str"
            ts = cat_terms(aterm(a)) + cat_terms(aterm(b))
            return unk(T.mk("cat", *ts), "str")
        if ka in ("df", "series") or kb in ("df", "series"):
            kind = ka if ka in ("df", "series") else kb
        elif ka in NUM and kb in NUM:
            kind = "float" if "float" in (ka, kb) or op == "Div" else "int"
        elif ka == "float" or kb == "float":
            kind = None
        ta, tb = aterm(a), aterm(b)
        if self.cfg.symbolic:
            ta, tb = self.lib.snap(self, st, V((a,))), self.lib.snap(self, st, V((b,)))
        # identities
        if op in ("Add", "Sub") and b[0] == "c" and b[2] == 0 and not isinstance(b[2], bool):
            return V((a,))
        if op == "Add" and a[0] == "c" and a[2] == 0 and not isinstance(a[2], bool):
            return V((b,))
        if op in ("Add", "Mult", "BitAnd", "BitOr") and kind not in ("df", "series") and \
                not self.cfg.symbolic:
            ta, tb = sorted((ta, tb), key=lambda t: (t._h, repr(t)))
        argl = la | lb
        self.maybe_raise(st, n, "arith", argl, (ta, tb))
        return unk(T.mk(op, ta, tb), kind)

    def e_Compare(self, n, st):
        out = []
        cur = [(s, v, None) for s, v in self.ev(n.left, st)]
        if len(n.ops) == 1:
            op = n.ops[0]
            for s, l, _ in cur:
                for s2, r in self.ev(n.comparators[0], s):
                    if isinstance(op, (ast.Is, ast.IsNot)) and r.one() == NONE.one():
                        t, f = self.split_none(s2, l, n.left)
                        if isinstance(op, ast.IsNot):
                            t, f = f, t
                        out += [(x, TRUE.lab(m)) for x, m in t]
                        out += [(x, FALSE.lab(m)) for x, m in f]
                    else:
                        out += self.compare(n, s2, type(op).__name__, l, r)
            return out
        # a < b < c
        for op, c in zip(n.ops, n.comparators):
            nxt = []
            for s, l, acc in cur:
                for s2, r in self.ev(c, s):
                    for s3, v in self.compare(n, s2, type(op).__name__, l, r):
                        if acc is None:
                            nxt.append((s3, r, v))
                        else:
                            # conjunction of both
                            t, f = self.split(s3, acc)
                            for x, m in f:
                                nxt.append((x, r, FALSE.lab(m)))
                            for x, m in t:
                                nxt.append((x, r, v.lab(m)))
            cur = nxt
        return [(s, acc) for s, _, acc in cur]

    def compare(self, n, st, op, l, r):
        labels = l.labels | r.labels
        self.record("compare", st, n, op=op, left=l, right=r)
        if len(l.atoms) * len(r.atoms) > 30:
            return [(st, unk(T.mk(op, term(l), term(r)), "bool", labels))]
        res = []
        for a in l.atoms:
            for b in r.atoms:
                v = self.compare1(n, st, op, a, b, l.labels, r.labels)
                if isinstance(v, list):
                    if len(l.atoms) * len(r.atoms) == 1:
                        return [(s, x.lab(labels)) for s, x in v]
                    v = join(*[x for _, x in v])
                res.append(v)
        return [(st, join(*res).lab(labels))]

    def compare1(self, n, st, op, a, b, la, lb):
        if a[0] == "c" and b[0] == "c":
            try:
                f = {"Eq": lambda: a[2] == b[2], "NotEq": lambda: a[2] != b[2],
                     "Lt": lambda: a[2] < b[2], "LtE": lambda: a[2] <= b[2],
                     "Gt": lambda: a[2] > b[2], "GtE": lambda: a[2] >= b[2],
                     "Is": lambda: a == b, "IsNot": lambda: a != b,
                     "In": lambda: a[2] in b[2], "NotIn": lambda: a[2] not in b[2]}[op]
                return const(bool(f()))
            except Exception:
                self.raise_now(st.copy(), n, "TypeError", "constop", la | lb)
                return unk(T.mk(op, aterm(a), aterm(b)), "bool")
        for x in (a, b):
            if x[0] == "r" and st.get(x[1]).kind in ("df", "series", "index") \
                    and op not in ("Is", "IsNot", "In", "NotIn"):
                return self.lib.series_op(self, st, n, op, [V((a,), la), V((b,), lb)])
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            same = None
            if a == b and a[0] in ("r", "x", "c"):
                same = True
            elif a[0] == "u" and b == a and op in ("Is", "IsNot"):
                same = True
            elif a[0] in ("r", "x", "c") and b[0] in ("r", "x", "c") and a != b:
                if a[0] == "r" and b[0] == "r":
                    oa, ob = st.get(a[1]), st.get(b[1])
                    if op in ("Is", "IsNot") or oa.kind in (
                            "inst", "class", "func", "module"):
                        same = False
                        if oa.kind == "inst" and op in ("Eq", "NotEq") and \
                                oa.cls[0] == "r":
                            f = self.class_attr(st, oa.cls, "__eq__")
                            if f is not None:
                                out = []
                                for fa in f.atoms:
                                    out += self.call_atom(
                                        st, n, ("b", a, fa), [V((b,), lb)], {})
                                return out
                    elif oa.kind in ("list", "dict") and oa.kind == ob.kind and \
                            not oa.items and not ob.items and not oa.entries and \
                            not ob.entries and not oa.summ and not ob.summ:
                        same = True
                elif "c" in (a[0], b[0]):
                    same = False
                elif a[0] == "x" and b[0] == "x":
                    same = a[1] == b[1]
                else:
                    same = False
            elif (a[0] == "c" and a[2] is None and b[0] == "u" and b[1] not in (None, "any")) or \
                    (b[0] == "c" and b[2] is None and a[0] == "u" and a[1] not in (None, "any")):
                same = False
            if same is None and op in ("Eq", "NotEq") and a[0] == b[0] == "u":
                if a[2] is b[2] and (a[1] == "str" or b[1] == "str"):
                    same = True
                elif {a[2].op == "tempname", b[2].op == "tempname"} == {True, False} \
                        and not any(x.op in ("tempname", "phi") for x in (
                            b[2] if a[2].op == "tempname" else a[2]).subs()):
                    # the name of a new file
                    same = False
            if same is not None:
                return const(same if op in ("Is", "Eq") else not same)
            if (a[0] == "c" and a[2] is None) or (b[0] == "c" and b[2] is None):
                o = b if a[0] == "c" and a[2] is None else a
                if o[0] == "u":
                    r = self.fact(st, ("N", o[2]))
                    if r is not None:
                        return const(r if op in ("Is", "Eq") else not r)
                elif o[0] != "c":
                    return const(op in ("IsNot", "NotEq"))
        if op in ("In", "NotIn"):
            r = self.contains(n, st, a, b, la, lb)
            if self.cfg.symbolic and r is None and b[0] == "u":
                f = b[2].args[0] if b[2].op == "attr" and b[2].args[1] == "columns" else \
                    b[2] if b[1] == "df" else None
                if f is not None:
                    r = self.cfg.hascol(self, st, aterm(a), f)
            if isinstance(r, V):
                return r
            if r is not None:
                return const(r if op == "In" else not r)
            t = T.mk("In", aterm(a), self.lib.snap(self, st, V((b,))) if self.cfg.symbolic
                     else aterm(b))
            k = self.fact(st, ("T", t))
            if k is not None:
                return const(k if op == "In" else not k)
            if op == "NotIn":
                return unk(T.mk("NotIn", aterm(a), aterm(b)), "bool")
            return unk(t, "bool")
        self.maybe_raise(st, n, "arith", la | lb, (aterm(a), aterm(b)))
        if self.cfg.symbolic:
            ta, tb = self.lib.snap(self, st, V((a,))), self.lib.snap(self, st, V((b,)))
            r = self.cmp_unk(st, op, ta, tb, a, b)
            if "series" in (kind_of(st, a), kind_of(st, b)) or "index" in (kind_of(st, a), kind_of(st, b)):
                return V([("u", "series", x[2]) if x[0] == "u" else x for x in r.atoms], r.labels)
            return r
        return self.cmp_unk(st, op, aterm(a), aterm(b), a, b)

    def cmp_unk(self, st, op, ta, tb, a, b):
        # canonical form: Lt/LtE with a fixed orientation, Eq sorted
        neg = False
        if op == "Gt":
            op, ta, tb, a, b = "Lt", tb, ta, b, a
        elif op == "GtE":
            op, ta, tb, a, b = "LtE", tb, ta, b, a
        if op == "NotEq":
            op, neg = "Eq", True
        if op == "LtE":
            # a <= b  ==  not b < a  (numbers that compare)
            op, ta, tb, a, b, neg = "Lt", tb, ta, b, a, True
        if op == "Eq":
            ta, tb = sorted((ta, tb), key=lambda t: (t._h, repr(t)))
        if op == "Lt":
            d = self.order_decide(st, ta, tb, a, b)
            if d is not None:
                return const(d != neg)
        # emptiness: len(x) < 1, 0 < len(x), len(x) == 0
        t = None
        if op == "Lt" and ta.op == "len" and is_num(tb, 1):
            t, neg = ta, not neg
        elif op == "Lt" and tb.op == "len" and is_num(ta, 0):
            t = tb
        elif op == "Eq" and {ta.op, tb.op} == {"len", "c"} and \
                (is_num(ta, 0) or is_num(tb, 0)):
            t, neg = (ta if ta.op == "len" else tb), not neg
        if t is None:
            t = T.mk(op, ta, tb)
        k = self.fact(st, ("T", t))
        if k is not None:
            return const(k != neg)
        if neg:
            return unk(T.mk("not", t), "bool")
        return unk(t, "bool")

    def order_decide(self, st, ta, tb, a, b):
        """a < b for terms with known bounds (lengths of non-empty things)"""
        def lo(t):
            if t.op == "c" and isinstance(t.args[1], (int, float)):
                return t.args[1]
            if t.op == "nelen":
                return 1
            if t.op == "len":
                return 0
            return None

        def hi(t):
            if t.op == "c" and isinstance(t.args[1], (int, float)):
                return t.args[1]
            return None
        if hi(ta) is not None and lo(tb) is not None and hi(ta) < lo(tb):
            return True
        if lo(ta) is not None and hi(tb) is not None and lo(ta) >= hi(tb):
            return False
        return None

    def contains(self, n, st, a, b, la, lb):
        if b[0] == "t":
            return self._in_items(st, a, b[1])
        if b[0] == "r":
            o = st.get(b[1])
            if o.kind == "dict":
                if a in (o.entries or {}):
                    return True
                if o.summ is None and o.ksumm is None and is_key(a):
                    if a[0] == "c" and all(k[0] == "c" for k in o.entries):
                        return False
                    if not o.entries:
                        return False
                    if a[0] != "u" and all(k[0] != "u" for k in o.entries):
                        return False
                return None
            if o.kind in ("list", "set"):
                if o.summ is None and o.items is not None:
                    return self._in_items(st, a, o.items)
                return None
            if o.kind == "inst":
                f = self.class_attr(st, o.cls, "__contains__")
                if f is not None:
                    out = []
                    for fa in f.atoms:
                        out += self.call_atom(st, n, ("b", b, fa), [V((a,), la)], {})
                    return join(*[v for _, v in out]) if out else None
            if o.kind == "df":
                if a[0] == "c" and o.x.get("cols") is not None:
                    if a[2] in o.x["cols"]:
                        return True
        return None

    def _in_items(self, st, a, items):
        may = False
        for v in items:
            for x in v.atoms:
                if x == a and len(v.atoms) == 1 and a[0] in ("c", "r", "x", "u"):
                    return True
                if x[0] == "c" and a[0] == "c":
                    if x[2] == a[2]:
                        may = True
                elif x[0] == "u" or a[0] == "u":
                    may = True
                elif x == a:
                    may = True
        return None if may else False

    def e_Attribute(self, n, st):
        out = []
        for s, o in self.ev(n.value, st):
            out += self.load_attr(n, s, o, mangle(n.attr, self.clsname()))
        return out

    def load_attr(self, node, st, o, name, default=None):
        """[(state, value)] of getattr(o, name)"""
        vs = []
        out = []
        multi = len(o.atoms) > 1
        for a in o.atoms:
            r = self.attr1(node, st.copy() if multi else st, a, name, o.labels, default)
            for s, v in r:
                out.append((s, v.lab(o.labels)))
        if multi:
            out = self.reduce_vals(out)
        return out

    def attr1(self, node, st, a, name, labels, default=None):
        tag = a[0]
        if tag == "r":
            return self.attr_obj(node, st, a, name, labels, default)
        if tag == "u":
            v = st.uattrs.get((a[2], name))
            if v is None:
                v = self.lib.unk_attr(self, st, node, a, name)
            v = self.cfg.attr_read(self, st, node, a, name, v.lab(labels))
            self.maybe_raise(st, node, "attr", labels, (a[2], name))
            return [(st, v)]
        if tag == "x":
            return [(st, self.lib.ext_attr(self, a[1], name))]
        if tag == "c":
            if a[2] is None:
                if default is not None:
                    return [(st, default)]
                self.record("noneattr", st, node, attr=name)
                self.raise_now(st, node, "AttributeError", "noneattr", labels)
                return []
            if isinstance(name, str) and not hasattr(type(a[2]), name):
                if default is not None:
                    return [(st, default)]
                self.record("noattr", st, node, obj=type(a[2]).__name__, attr=name,
                            what="const")
                self.raise_now(st, node, "AttributeError", "noattr", labels)
                return []
            return [(st, V((("bx", a, name),)))]
        if tag == "sup":
            return self.attr_super(node, st, a, name)
        if tag == "loc":
            return [(st, V((("bx", a, name),)))]
        if tag in ("b",):
            if name == "__self__":
                return [(st, V((a[1],)))]
            return self.attr1(node, st, a[2], name, labels, default)
        return [(st, V((("bx", a, name),)))]

    def attr_super(self, node, st, a, name):
        cls, selfa = a[1], a[2]
        mro = self.mro_of_atom(st, selfa)
        if selfa[0] == "r" and st.get(selfa[1]).x.get("meta") and \
                (mro is None or ("r", cls) not in mro):
            meta = st.get(selfa[1]).x["meta"]
            mro = st.get(meta[1]).x["mro"] if meta[0] == "r" else None
        if mro is None:
            return [(st, V((("bx", a, name),)))]
        try:
            i = mro.index(("r", cls))
        except ValueError:
            i = -1
        for c in mro[i + 1:]:
            if c[0] == "x":
                if c[1] == "builtins.object" and name not in OBJECT_ATTRS:
                    self.record("noattr", st, node, obj="super", attr=name, what="super")
                    self.raise_now(st, node, "AttributeError", "noattr")
                    return []
                return [(st, V((("bx", ("x", c[1]), "super:" + str(name)),)))] \
                    if c[1] != "builtins.object" else \
                    [(st, V((("bx", selfa, name),)))]
            co = st.get(c[1])
            if name in co.attrs:
                return self.bind(node, st, co.attrs[name], selfa, c)
        return [(st, V((("bx", selfa, name),)))]

    def mro_of_atom(self, st, selfa):
        if selfa[0] == "r":
            o = st.get(selfa[1])
            if o.kind == "class":
                return o.x["mro"]
            if o.kind == "inst" and o.cls[0] == "r":
                return st.get(o.cls[1]).x["mro"]
        return None

    def class_attr(self, st, clsatom, name):
        if clsatom is None or clsatom[0] != "r":
            return None
        for c in st.get(clsatom[1]).x["mro"]:
            if c[0] == "r":
                co = st.get(c[1])
                if name in co.attrs:
                    return co.attrs[name]
        return None

    def has_ext_base(self, st, clsatom):
        if clsatom[0] != "r":
            return True
        return any(c[0] == "x" and c[1] != "builtins.object"
                   for c in st.get(clsatom[1]).x["mro"])

    def bind(self, node, st, v, selfa, clsatom):
        """class attribute fetched through an instance"""
        out = []
        for a in v.atoms:
            if a[0] == "r":
                o = st.get(a[1])
                if o.kind == "func":
                    out.append((st, V((("b", selfa, a),), v.labels)))
                    continue
                if o.kind == "prop":
                    for f in o.attrs["get"].atoms:
                        out += self.call_atom(st, node, ("b", selfa, f), [], {})
                    continue
                if o.kind == "cm":
                    c = selfa
                    if selfa[0] == "r" and st.get(selfa[1]).kind == "inst":
                        c = st.get(selfa[1]).cls
                    for f in o.attrs["f"].atoms:
                        out.append((st, V((("b", c, f),))))
                    continue
                if o.kind == "sm":
                    out.append((st, o.attrs["f"]))
                    continue
            out.append((st, V((a,), v.labels)))
        return self.reduce_vals(out)

    def attr_obj(self, node, st, a, name, labels, default):
        o = st.get(a[1])
        k = o.kind
        if k == "module":
            v = o.attrs.get(name)
            if v is not None:
                return [(st, v)]
            sub = self.modules.get(o.cls + "." + str(name))
            if sub:
                return [(st, ref(sub))]
            if self.loading and self.modpath(o.cls + "." + str(name)):
                m = self.import_module(o.cls + "." + str(name), st)
                return [(st, ref(m))]
            if default is not None:
                return [(st, default)]
            if not isinstance(name, str):
                return [(st, unk(T.mk("attr", aterm(a), name)))]
            self.record("noattr", st, node, obj=o.cls, attr=name, what="module")
            self.raise_now(st, node, "AttributeError", "noattr", labels)
            return []
        if k == "class":
            for c in o.x["mro"]:
                if c[0] == "r":
                    co = st.get(c[1])
                    if name in co.attrs:
                        v = co.attrs[name]
                        if any(x[0] == "r" and st.get(x[1]).kind in ("cm", "sm")
                               for x in v.atoms):
                            return self.bind(node, st, v, a, c)
                        return [(st, v)]
            if "*" in o.attrs:
                return [(st, o.attrs["*"])]
            if name == "__name__":
                return [(st, o.x.get("name") or const(o.cls))]
            if name in ("__class__",):
                return [(st, ext("builtins.type"))]
            if name in ("__doc__", "__module__", "__qualname__"):
                return [(st, unk(T.mk("attr", aterm(a), name), "str"))]
            if name == "__dict__":
                return [(st, unk(T.mk("attr", aterm(a), name), "dict"))]
            if name == "__init__" or name == "__new__":
                return [(st, ext("builtins.object." + name))]
            if name == "__mro__":
                return [(st, tup([V((c,)) for c in o.x["mro"]]))]
            if name == "__bases__":
                return [(st, tup([V((c,)) for c in o.x["bases"]]))]
            if default is not None:
                return [(st, default)]
            if self.has_ext_base(st, a):
                return [(st, V((("bx", a, name),)))]
            self.record("noattr", st, node, obj=o.cls, attr=name, what="class")
            self.raise_now(st, node, "AttributeError", "noattr", labels)
            return []
        if k == "inst":
            p = self.class_attr(st, o.cls, name)
            pa = p.one() if p is not None else None
            if pa and pa[0] == "r" and st.get(pa[1]).kind == "prop":
                return self.bind(node, st, p, a, o.cls)
            v = o.attrs.get(name)
            if v is not None:
                v = self.cfg.attr_read(self, st, node, a, name, v)
                return [(st, v)]
            if p is not None:
                return self.bind(node, st, p, a, o.cls)
            if name == "__class__":
                return [(st, V((o.cls,)))]
            if name == "__dict__":
                return [(st, unk(T.mk("attr", aterm(a), name), "dict"))]
            if not isinstance(name, str):
                # an attribute whose name is unknown
                return [(st, unk(T.mk("attr", aterm(a), name)))]
            if "*" in o.attrs:
                return [(st, o.attrs["*"])]
            if o.cls[0] == "x":
                return [(st, V((("bx", a, name),)))]
            g = self.class_attr(st, o.cls, "__getattr__")
            if g is not None and name != "__getattr__":
                if default is not None:
                    # hasattr/getattr with default: AttributeError is the default
                    self.sinks.append([])
                    out = []
                    for f in g.atoms:
                        out += self.call_atom(st.copy(), node, ("b", a, f),
                                              [const(name)], {})
                    self.sinks.pop()
                    if out:
                        return out
                    return [(st, default)]
                out = []
                for f in g.atoms:
                    out += self.call_atom(st, node, ("b", a, f), [const(name)], {})
                return out
            if default is not None:
                return [(st, default)]
            if name in OBJECT_ATTRS:
                return [(st, V((("bx", a, name),)))]
            if self.has_ext_base(st, o.cls):
                return [(st, V((("bx", a, name),)))]
            clsname = st.get(o.cls[1]).cls
            self.record("noattr", st, node, obj=clsname, attr=name, what="inst")
            self.raise_now(st, node, "AttributeError", "noattr", labels)
            return []
        if k == "func":
            if name in o.attrs:
                return [(st, o.attrs[name])]
            if name == "__name__":
                return [(st, const(o.cls))]
            return [(st, V((("bx", a, name),)))]
        if k in ("df", "series", "index"):
            return self.lib.df_attr(self, st, node, a, name, labels)
        if name in o.attrs:
            return [(st, o.attrs[name])]
        if k == "file" and name == "name":
            return [(st, o.x.get("name") or V((("u", "str", T.mk("fname")),)))]
        return [(st, V((("bx", a, name),)))]

    def e_Subscript(self, n, st):
        out = []
        for s, o in self.ev(n.value, st):
            for s2, k in self.ev(n.slice, s):
                out += self.load_item(n, s2, o, k)
        return out

    def e_Slice(self, n, st):
        parts = [n.lower or ast.Constant(None), n.upper or ast.Constant(None),
                 n.step or ast.Constant(None)]
        out = []
        for s, vs in self.evs(parts, st):
            out.append((s, V((("sl", vs[0], vs[1], vs[2]),),
                             vs[0].labels | vs[1].labels | vs[2].labels)))
        return out

    def load_item(self, node, st, o, k):
        out = []
        for a in o.atoms:
            s = st if len(o.atoms) == 1 else st.copy()
            out += [(x, v.lab(o.labels | k.labels))
                    for x, v in self.item1(node, s, a, k, o.labels)]
        return self.reduce_vals(out) if len(o.atoms) > 1 else out

    def item1(self, node, st, a, k, labels):
        ka = k.one()
        if a[0] == "t" or (a[0] == "r" and st.get(a[1]).kind == "list"
                           and not st.get(a[1]).x.get("lazy")):
            if a[0] == "t":
                items, summ = list(a[1]), None
            else:
                o = st.get(a[1])
                items, summ = o.items, o.summ
            if ka and ka[0] == "sl":
                lo, hi, stp = [const_of(x) for x in ka[1:]]
                if items is not None and summ is None and None not in (lo, hi, stp):
                    sub = items[slice(lo[0], hi[0], stp[0])]
                    if a[0] == "t":
                        return [(st, tup(sub))]
                    return [(st, self.newlist(st, node, sub, extra="slice"))]
                e = join(*(list(items or ()) + ([summ] if summ else [])))
                if self.cfg.symbolic and (lo, hi) != ((None,), (None,)) and e.atoms and all(
                        x[0] in ("u", "c") for x in e.atoms):
                    # which elements these are matters
                    t = T.mk("item", self.lib.snap(self, st, V((a,))), T.mk("slice", *[
                        self.lib.snap(self, st, x) for x in ka[1:]]))
                    return [(st, unk(t, "list", e.labels))]
                return [(st, self.newlist(st, node, None, e, extra="slice"))]
            if items is not None and summ is None:
                if ka and ka[0] == "c" and isinstance(ka[2], int):
                    if -len(items) <= ka[2] < len(items):
                        return [(st, items[ka[2]])]
                    self.record("noitem", st, node, key=ka[2])
                    self.raise_now(st, node, "IndexError", "noitem", labels)
                    return []
                if not items:
                    self.raise_now(st, node, "IndexError", "noitem", labels)
                    return []
                return [(st, join(*items))]
            self.maybe_raise(st, node, "index", labels)
            vs = list(items or ()) + ([summ] if summ else [])
            return [(st, join(*vs))] if vs else []
        if a[0] == "c":
            if ka and ka[0] == "c":
                try:
                    return [(st, const(a[2][ka[2]]))]
                except Exception as e:
                    self.raise_now(st, node, type(e).__name__, "noitem", labels)
                    return []
            if ka and ka[0] == "sl":
                cs = [const_of(x) for x in ka[1:]]
                if None not in cs and isinstance(a[2], (str, tuple)):
                    return [(st, const(a[2][slice(*[c[0] for c in cs])]))]
            if a[2] is None:
                self.record("noneitem", st, node)
                self.raise_now(st, node, "TypeError", "noneitem", labels)
                return []
            return [(st, unk(T.mk("item", aterm(a), key_term(k)),
                             "str" if isinstance(a[2], str) else None))]
        if a[0] == "r":
            o = st.get(a[1])
            if o.kind == "dict":
                return self.dict_item(node, st, a, o, k, labels)
            if o.kind in ("df", "series", "index"):
                return self.lib.df_getitem(self, st, node, a, k, labels)
            if o.kind == "inst":
                f = self.class_attr(st, o.cls, "__getitem__")
                if f is not None:
                    out = []
                    for fa in f.atoms:
                        out += self.call_atom(st, node, ("b", a, fa), [k], {})
                    return out
            if o.kind == "gen" or o.x.get("lazy"):
                pass
            if o.kind == "set":
                pass
        if a[0] == "loc":
            return self.lib.df_locget(self, st, node, a, k, labels)
        self.maybe_raise(st, node, "item", labels, (aterm(a), key_term(k)))
        r = self.lib.unk_item(self, st, node, a, k)
        return [] if r is None else [(st, r)]

    def dict_item(self, node, st, a, o, k, labels):
        vs = []
        miss = False
        dflt = o.x.get("default")
        for ka in k.atoms:
            if ka[0] == "t" and ka not in (o.entries or {}):
                # the same tuple, but for what its parts depend on
                x = self.lib.known(self, st, V((ka,)))
                for kb in o.entries or {}:
                    if x is not None and kb[0] == "t" and self.lib.known(self, st, V((kb,))) == x:
                        ka = kb
                        break
            if ka in (o.entries or {}):
                vs.append(o.entries[ka].lab(o.x.get("klabels", EMPTY)))
            elif ka[0] in ("c", "r", "x") or (ka[0] == "u" and len(o.entries or {}) == 0):
                if o.summ is not None:
                    vs.append(o.summ)
                    self.maybe_raise(st, node, "key", labels | k.labels,
                                     (aterm(a), aterm(ka)))
                elif any(x[0] == "u" for x in (o.entries or {})):
                    vs += [v for x, v in o.entries.items() if x[0] == "u"]
                    miss = None
                else:
                    miss = True
            else:
                allv = list((o.entries or {}).values()) + ([o.summ] if o.summ else [])
                if allv:
                    vs.append(join(*allv))
                    self.maybe_raise(st, node, "key", labels | k.labels,
                                     (aterm(a), aterm(ka)))
                    if not o.x.get("total"):
                        miss = None
                else:
                    miss = True
        if miss is True and dflt is not None:
            out = []
            for s2, v in self.call(st, node, dflt, [], {}):
                ob = s2.get(a[1]).copy()
                if k.one() is not None:
                    ob.entries[k.one()] = v
                    s2.put(a[1], ob)
                out.append((s2, v))
            return out
        if miss is True:
            s = st if not vs else st.copy()
            self.record("nokey", s, node, key=k)
            self.raise_now(s, node, "KeyError", "nokey", labels | k.labels)
        elif miss is None:
            if dflt is not None:
                for s2, v in self.call(st, node, dflt, [], {}):
                    vs.append(v)
                    ob = s2.get(a[1]).copy()
                    ob.summ = join(ob.summ, v)
                    ob.ksumm = join(ob.ksumm, k)
                    s2.put(a[1], ob)
                    st = s2
            else:
                self.raise_now(st.copy(), node, "KeyError", "maybekey",
                               labels | k.labels)
        if not vs:
            return []
        return [(st, join(*vs))]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_JoinedStr(self, n, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vs in self.evs(parts, st):
            ts = []
            labels = EMPTY
            pure = True
            txt = ""
            for nd, v in zip(n.values, vs):
                labels |= v.labels
                a = v.one()
                if a and a[0] == "c" and not (isinstance(nd, ast.FormattedValue) and nd.format_spec):
                    txt += str(a[2])
                    ts.append(T.mk("c", "str", str(a[2])))
                else:
                    pure = False
                    ts += cat_terms(term(v))
            if pure:
                out.append((s, const(txt, labels)))
            else:
                out.append((s, unk(T.mk("cat", *merge_consts(ts)), "str", labels)))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        vals = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        cb = self.frame.yield_cb
        for s, v in vals:
            v = v.lab(s.pc)
            if cb is None:
                out.append((s, NONE))
            else:
                self.record("yield", s, n, value=v, state=s)
                for s2 in cb(s, v):
                    out.append((s2, NONE))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        cb = self.frame.yield_cb
        for s, v in self.ev(n.value, st):
            if cb is None:
                out.append((s, NONE))
                continue

            def body(b, e):
                return cb(b, e), []
            brks = []
            for s2 in self.iterate(n, s, v, body, brks):
                out.append((s2, NONE))
        return out

    # comprehensions

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list", genexp=True)

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind, genexp=False):
        outer = self.frame
        res_obj = Obj(kind, items=[] if kind != "dict" else None,
                      entries={} if kind == "dict" else None)
        if genexp:
            res_obj.x["genexp"] = True
        oid = self.alloc(st, n, res_obj, "comp")
        envoid = ("compenv", self.site(n), outer.ctx)
        eo = Obj("env")
        eo.x["parent"] = outer.env if outer.scope is not None else None
        fr = Frame()
        for a in ("func", "mod", "cls", "yield_cb", "node", "curexc", "name"):
            setattr(fr, a, getattr(outer, a))
        fr.ctx = self.ctxid(outer.ctx, "comp", self.site(n))
        fr.env = envoid
        sc = Scope.__new__(Scope)
        sc.locals = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    sc.locals.add(x.id)
        sc.globals = set()
        sc.nonlocals = set()
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                sc.nonlocals.add(x.target.id)
        sc.inner = set()
        sc.is_gen = False
        fr.scope = sc
        fr.live = None
        fr.rets = []
        fr.loops = []
        out = []

        def add(s, vs):
            o = s.get(oid).copy()
            if kind == "dict":
                k, v = vs
                ka = k.one()
                v = v.lab(s.pc | k.labels)
                if ka is not None and is_key(ka) and not o.x.get("unk"):
                    o.entries[ka] = v
                else:
                    o.summ = join(o.summ, v)
                    o.ksumm = join(o.ksumm, k)
            else:
                v = vs[0].lab(s.pc)
                if o.items is not None and not o.x.get("unk"):
                    o.items.append(v)
                    o.n = o.n + 1 if isinstance(o.n, int) else o.n
                else:
                    o.summ = join(o.summ, v)
                    o.n = o.n + 1 if isinstance(o.n, int) else o.n
            s.put(oid, o)

        def gen(i, s):
            if i == len(n.generators):
                exprs = [n.key, n.value] if kind == "dict" else [n.elt]
                r = []
                for s2, vs in self.evs(exprs, s):
                    add(s2, vs)
                    r.append(s2)
                return r
            g = n.generators[i]
            self.compiters.add(n if i == 0 else g.iter)
            self.compiters.add(g.iter)
            res = []
            for s2, it in self.ev(g.iter, s):
                exact = all(self.elements(g.iter, s2.copy(), a, EMPTY)[0] == "exact"
                            for a in it.atoms if not (
                                a[0] == "r" and s2.get(a[1]).kind == "gen")
                            and not (a[0] == "r" and s2.get(a[1]).x.get("lazy") not in LAZY)) and \
                    not any(a[0] == "r" and (s2.get(a[1]).kind == "gen" or
                                             s2.get(a[1]).x.get("lazy") not in LAZY)
                            for a in it.atoms)
                if not exact:
                    o = s2.get(oid).copy()
                    o.x["unk"] = True
                    if o.items:
                        o.summ = join(o.summ, *o.items)
                    if kind != "dict":
                        o.items = None
                    o.x["lenlabels"] = o.x.get("lenlabels", EMPTY) | it.labels
                    s2.put(oid, o)

                def body(b, e):
                    cur = self.assign(g.target, e, b, n)
                    saved = b.pc
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            t, f = self.cond(c, x)
                            for y, l in t:
                                y.pc = y.pc | l
                                nxt.append(y)
                            for y, l in f:
                                skipped.append(y)
                                # the length depends on the filter
                                o = y.get(oid).copy()
                                o.x["lenlabels"] = o.x.get("lenlabels", EMPTY) | l
                                y.put(oid, o)
                        cur = nxt
                    r = []
                    for x in cur:
                        r += gen(i + 1, x)
                    r += skipped[:]
                    del skipped[:]
                    for x in r:
                        x.pc = saved
                    return self.reduce(r), []
                skipped = []
                brks = []
                self.frame.loops.append(it)
                self.frame.loops.append(ref(oid))
                try:
                    res += self.iterate(n if i == 0 else g.iter, s2, it, body, brks)
                finally:
                    self.frame.loops.pop()
                    self.frame.loops.pop()
            return res

        s = st
        s.put(envoid, eo)
        pc = s.pc
        self.frames.append(fr)
        outer.loops.append(ref(oid))
        try:
            fin = gen(0, s)
        finally:
            self.frames.pop()
            outer.loops.pop()
        for f in fin:
            f.pc = pc
            f.heap.pop(envoid, None)
            o = f.get(oid)
            if o.x.get("unk"):
                o = o.copy()
                o.x.pop("unk")
                f.put(oid, o)
            out.append((f, ref(oid)))
        return self.reduce_vals(out)

    # ------------------------------------------------------------------ calls

    def e_Call(self, n, st):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frame
            k = len(self.frames) - 1
            while fr.scope is not None and fr.func is not None and \
                    isinstance(fr.node, ast.Lambda):
                k -= 1
                fr = self.frames[k]
            p = fr.func.x["node"].args
            names = [x.arg for x in p.posonlyargs + p.args]
            clsoid = fr.func.x.get("clsoid")
            sv = st.get(fr.env).attrs.get(names[0]) if names else None
            if clsoid is not None and sv is not None and sv.one():
                return [(st, V((("sup", clsoid, sv.one()),)))]
            return [(st, unk(T.mk("super")))]
        out = []
        for s, f in self.ev(n.func, st):
            for s2, args, kw in self.eval_args(n, s):
                out += self.call(s2, n, f, args, kw)
        return self.reduce_vals(out) if len(out) > 1 else out

    def eval_args(self, n, st):
        cur = [(st, [], {})]
        for a in n.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        va = v.one()
                        items = None
                        if va and va[0] == "t":
                            items = list(va[1])
                        elif va and va[0] == "r":
                            o = s2.get(va[1])
                            if o.kind == "list" and o.items is not None and \
                                    o.summ is None and not o.x.get("lazy"):
                                items = list(o.items)
                            elif o.kind in ("list", "gen"):
                                sm = None
                                for s2, lv in self.lib.to_list(self, s2, a, v):
                                    lo = s2.get(lv.one()[1])
                                    if lo.items is not None and lo.summ is None:
                                        items = list(lo.items)
                                    else:
                                        sm = lo.summ
                                if items is None:
                                    nxt.append((s2, args + [Star((sm or unk(
                                        T.mk("elemof", term(v)))).lab(v.labels))], kw))
                                    continue
                        if items is not None:
                            nxt.append((s2, args + [x.lab(v.labels) for x in items], kw))
                        else:
                            nxt.append((s2, args + [Star(unk(
                                T.mk("elemof", term(v)), None, v.labels))], kw))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, args + [v], kw))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for s, args, kw in cur:
                for s2, v in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is not None:
                        kw2[k.arg] = v
                    else:
                        va = v.one()
                        if va and va[0] == "r" and s2.get(va[1]).kind == "dict":
                            o = s2.get(va[1])
                            for kk, vv in o.entries.items():
                                if kk[0] == "c":
                                    kw2[kk[2]] = vv.lab(v.labels)
                                else:
                                    kw2["**"] = join(kw2.get("**"), vv.lab(v.labels))
                            if o.summ is not None:
                                kw2["**"] = join(kw2.get("**"), o.summ.lab(v.labels))
                        else:
                            kw2["**"] = join(kw2.get("**"), unk(
                                T.mk("elemof", term(v)), None, v.labels))
                    nxt.append((s2, args, kw2))
            cur = nxt
        return cur

    def call(self, st, node, f, args, kw):
        self.stats["calls"] += 1
        out = []
        if len(f.atoms) > 1:
            self.cfg.ambiguous(self, st, node, f)
        for a in f.atoms:
            s = st if len(f.atoms) == 1 else st.copy()
            pc = s.pc
            if len(f.atoms) > 1 or f.labels:
                s.pc = pc | f.labels
            for s2, v in self.call_atom(s, node, a, args, kw):
                s2.pc = pc
                out.append((s2, v.lab(f.labels)))
        return self.reduce_vals(out) if len(out) > 1 else out

    def call_atom(self, st, node, f, args, kw):
        h = self.cfg.call_hook(self, st, node, f, args, kw)
        if h is not None:
            return h
        tag = f[0]
        if tag == "r":
            o = st.get(f[1])
            if o.kind == "func":
                return self.call_func(st, node, f, args, kw)
            if o.kind == "class":
                return self.instantiate(st, node, f, args, kw)
            if o.kind in ("sm", "cm"):
                return self.call(st, node, o.attrs["f"], args, kw)
            if o.kind == "inst":
                c = self.class_attr(st, o.cls, "__call__")
                if c is not None:
                    out = []
                    for fa in c.atoms:
                        out += self.call_atom(st, node, ("b", f, fa), args, kw)
                    return out
            if o.kind == "partial":
                kw2 = dict(o.x["kw"])
                kw2.update(kw)
                return self.call(st, node, o.x["f"], list(o.x["args"]) + args, kw2)
            return self.lib.call_obj(self, st, node, f, o, args, kw)
        if tag == "b":
            fn = f[2]
            if fn[0] == "r":
                return self.call_atom(st, node, fn, [V((f[1],))] + args, kw)
            return self.lib.call_ext(self, st, node, fn[1], [V((f[1],))] + args, kw)
        if tag == "x":
            return self.lib.call_ext(self, st, node, f[1], args, kw)
        if tag == "bx":
            return self.lib.call_method(self, st, node, f[1], f[2], args, kw)
        if tag == "u":
            return self.lib.call_unk(self, st, node, f, args, kw)
        if tag == "c":
            self.raise_now(st, node, "TypeError", "notcallable")
            return []
        return self.lib.call_unk(self, st, node, ("u", None, T.mk("atom", str(f)[:40])), args, kw)

    def instantiate(self, st, node, f, args, kw):
        o = st.get(f[1])
        mro = o.x["mro"]
        if ("x", "builtins.type") in mro:
            new = self.class_attr(st, f, "__new__")
            res = []
            if new is not None:
                for fa in new.atoms:
                    res += self.call_atom(st, node, fa, [V((f,))] + args, kw)
            else:
                res = self.lib.call_ext(self, st, node, "builtins.type.__new__",
                                        [V((f,))] + args, kw)
            init = self.class_attr(st, f, "__init__")
            out = []
            for s, v in res:
                if init is None:
                    out.append((s, v))
                    continue
                for fa in init.atoms:
                    for s2, _ in self.call_atom(s, node, fa, [v] + args, kw):
                        out.append((s2, v))
            return out
        inst = Obj("inst", cls=f)
        if o.x.get("tags"):
            inst.x["tags"] = o.x["tags"]
        oid = self.alloc(st, node, inst, "inst:" + str(o.cls))
        a = ("r", oid)
        init = self.class_attr(st, f, "__init__")
        if init is None:
            extbase = [m for m in mro if m[0] == "x" and m[1] != "builtins.object"]
            if extbase:
                ob = st.get(oid).copy()
                ob.attrs["args"] = tup([v if isinstance(v, V) else v.v for v in args])
                st.put(oid, ob)
            elif args or kw:
                self.record("arity", st, node, func=str(o.cls), detail="no __init__")
                self.raise_now(st, node, "TypeError", "arity")
                return []
            return [(st, V((a,)))]
        out = []
        self.frame.loops.append(V((a,)))
        try:
            for fa in init.atoms:
                for s, _ in self.call_atom(st, node, ("b", a, fa), args, kw):
                    out.append((s, V((a,))))
        finally:
            self.frame.loops.pop()
        return out

    def func_scope(self, node):
        s = self.scopecache.get(node)
        if s is None:
            s = self.scopecache[node] = Scope(node)
        return s

    def call_func(self, st, node, f, args, kw):
        fo = st.get(f[1])
        fn = fo.x["node"]
        bound = self.bind_args(st, node, fo, fn, args, kw)
        if bound is None:
            return []
        if self.func_scope(fn).is_gen:
            g = Obj("gen", cls=fo.cls)
            g.x["func"] = f[1]
            g.x["bound"] = bound
            g.x["keep"] = tuple(v for v in bound.values())
            if fo.x.get("ctxmgr"):
                g.x["ctxmgr"] = True
            return [(st, ref(self.alloc(st, node, g, "gen")))]
        return self.invoke(st, node, f[1], bound, None)

    def bind_args(self, st, node, fo, fn, args, kw):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        star = None
        pos = []
        for v in args:
            if isinstance(v, Star):
                star = join(star, v.v)
            else:
                if star is not None:
                    star = join(star, v)
                else:
                    pos.append(v)
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        if star is not None:
            for nm in names[len(pos):]:
                if nm not in kw:
                    bound[nm] = star
        kws = dict(kw)
        starkw = kws.pop("**", None)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kws.items():
            if k in names or k in kwonly:
                if k in bound and star is None:
                    self.record("arity", st, node, func=fo.x["qual"],
                                detail="multiple values for " + k)
                    self.raise_now(st, node, "TypeError", "arity")
                    return None
                bound[k] = v
            else:
                rest[k] = v
        nd = len(a.defaults)
        for i, nm in enumerate(names):
            if nm not in bound:
                di = i - (len(names) - nd)
                dv = fo.attrs["@d%d" % di] if di >= 0 else None
                if starkw is not None:
                    dv = join(dv, starkw) if dv is not None else starkw
                if dv is not None:
                    bound[nm] = dv
                else:
                    self.record("arity", st, node, func=fo.x["qual"],
                                detail="missing argument " + nm)
                    self.raise_now(st, node, "TypeError", "arity")
                    return None
        j = nd
        for nm, kd in zip(kwonly, a.kw_defaults):
            if kd is not None:
                if nm not in bound:
                    bound[nm] = fo.attrs["@d%d" % j]
                j += 1
            elif nm not in bound:
                if starkw is not None:
                    bound[nm] = starkw
                    continue
                self.record("arity", st, node, func=fo.x["qual"],
                            detail="missing argument " + nm)
                self.raise_now(st, node, "TypeError", "arity")
                return None
        if a.vararg:
            if star is not None:
                bound[a.vararg.arg] = self.newlist(
                    st, node, None, join(star, *extra), extra="varargs")
            else:
                bound[a.vararg.arg] = tup(extra)
        elif extra:
            self.record("arity", st, node, func=fo.x["qual"],
                        detail="too many arguments")
            self.raise_now(st, node, "TypeError", "arity")
            return None
        if a.kwarg:
            ents = {catom(k): v for k, v in rest.items()}
            bound[a.kwarg.arg] = self.newdict(
                st, node, ents, starkw,
                unk(T.mk("kwname"), "str") if starkw is not None else None,
                extra="kwargs:" + fo.x["qual"])
        elif rest:
            self.record("arity", st, node, func=fo.x["qual"],
                        detail="unexpected argument " + ",".join(sorted(rest)))
            self.raise_now(st, node, "TypeError", "arity")
            return None
        return bound

    def invoke(self, st, node, foid, bound, cb, keep=False):
        fo = st.get(foid)
        fn = fo.x["node"]
        nrec = sum(1 for f in self.frames if f.node is fn)
        if nrec >= 3 or len(self.frames) > MAXDEPTH:
            labels = frozenset().union(*[v.labels for v in bound.values()]) \
                if bound else EMPTY
            self.record("cut", st, node, func=fo.x["qual"])
            return [(st, unk(T.mk("rec", fo.x["qual"]), None, labels))]
        outer = self.frames[-1] if self.frames else None
        fr = Frame()
        fr.func = fo
        fr.mod = fo.x["mod"]
        fr.cls = fo.x.get("clsoid")
        fr.yield_cb = cb
        fr.ctx = self.ctxid(outer.ctx if outer else 0, self.site(node), foid)
        fr.env = ("env", foid, fr.ctx)
        fr.node = fn
        fr.callnode = node
        fr.curexc = []
        fr.scope = self.func_scope(fn)
        fr.rets = []
        fr.loops = []
        fr.name = fo.x["qual"]
        if fn not in self.livecache:
            body = fn.body if isinstance(fn.body, list) else []
            self.livecache[fn] = Liveness(body)
        fr.live = self.livecache[fn]
        if not self.loading:
            self.stats["functions"].add(fo.x["qual"])
        env = Obj("env", attrs=dict(bound))
        env.x["parent"] = fo.x.get("env")
        saved_env = st.heap.get(fr.env)
        st.put(fr.env, env)
        pc = st.pc
        self.frames.append(fr)
        self.collectors.append(fr.rets)
        try:
            if isinstance(fn, ast.Lambda):
                rets = [(s, v.lab(s.pc)) for s, v in self.ev(fn.body, st)]
            else:
                o = self.block(fn.body, [st])
                rets = fr.rets + [(s, NONE.lab(EMPTY)) for s in o.normal]
        finally:
            self.frames.pop()
            self.collectors.pop()
        captured = bool(fr.scope.inner)
        for s, v in rets:
            s.pc = pc
            if not captured:
                s.heap.pop(fr.env, None)
        return self.reduce_vals(rets)


# ---------------------------------------------------------------- helpers

COPIES = {}


def name_copies(fn):
    """{name: names} of the variables that a function assigns to each other"""
    if fn not in COPIES:
        out = {}

        def sources(e):
            if isinstance(e, ast.Name):
                return [e.id]
            if isinstance(e, ast.IfExp):
                return sources(e.body) + sources(e.orelse)
            if isinstance(e, ast.BoolOp):
                return [y for x in e.values for y in sources(x)]
            if isinstance(e, ast.NamedExpr):
                return [e.target.id] + sources(e.value)
            return []
        for x in ast.walk(fn) if not isinstance(fn, ast.Lambda) else ():
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    pairs = [(t, x.value)]
                    if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and \
                            len(t.elts) == len(x.value.elts):
                        pairs = list(zip(t.elts, x.value.elts))
                    for a, b in pairs:
                        if isinstance(a, ast.Name):
                            for y in sources(b):
                                out.setdefault(a.id, set()).add(y)
                                out.setdefault(y, set()).add(a.id)
        COPIES[fn] = out
    return COPIES[fn]


CMPOPS = {"Lt", "Eq", "In"}
NUM = {"int", "float", "bool"}
PYOPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
    "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b,
    "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}
DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__",
          "Div": "__truediv__", "Mod": "__mod__"}
OBJECT_ATTRS = {"__init__", "__new__", "__class__", "__doc__", "__eq__",
                "__repr__", "__str__", "__hash__", "__getattribute__",
                "__setattr__", "__delattr__", "__dict__", "__reduce__",
                "__module__", "__sizeof__", "__format__", "__ne__"}


def is_num(t, n):
    return t.op == "c" and t.args[0] in ("int", "float") and t.args[1] == n


def cat_terms(t):
    if t.op == "cat":
        return list(t.args)
    return [t]


def merge_consts(ts):
    out = []
    for t in ts:
        if out and t.op == "c" and out[-1].op == "c" and \
                isinstance(t.args[1], str) and isinstance(out[-1].args[1], str):
            out[-1] = T.mk("c", "str", out[-1].args[1] + t.args[1])
        else:
            out.append(t)
    return out


def add_fact(f):
    """a fact and what it implies"""
    out = {f}
    if f[0] == "T":
        t, val = f[1], f[2]
        if t.op == "not":
            out.add(("T", t.args[0], not val))
        if t.op == "NotIn":
            out.add(("T", T.mk("In", *t.args), not val))
        if val:
            out.add(("N", t, False))
    return frozenset(out)


def const_of(v):
    """(value,) if v is one constant, else None"""
    a = v.one()
    if a and a[0] == "c":
        return (a[2],)
    return None


def key_term(k):
    a = k.one()
    if a and a[0] == "sl":
        return T.mk("slice", *[term(x) for x in a[1:]])
    return term(k)


def kind_of(st, a):
    if a[0] == "c":
        return type(a[2]).__name__
    if a[0] == "u":
        return a[1]
    if a[0] == "r":
        return st.get(a[1]).kind
    if a[0] == "t":
        return "tuple"
    return None


def is_key(a):
    return a[0] in ("c", "r", "u", "x") or (
        a[0] == "t" and all(v.one() is not None and is_key(v.one()) for v in a[1]))


def listsumm(o):
    if o.items:
        o.summ = join(o.summ, *o.items)
    o.items = None


def as_load(n):
    if isinstance(n, ast.Name):
        m = ast.Name(n.id, ast.Load())
    elif isinstance(n, ast.Attribute):
        m = ast.Attribute(n.value, n.attr, ast.Load())
    else:
        m = ast.Subscript(n.value, n.slice, ast.Load())
    ast.copy_location(m, n)
    m._file = getattr(n, "_file", "?")
    return m


LEAVES = {}


def leaves(body):
    k = id(body)
    if k not in LEAVES:
        LEAVES[k] = (leaves1(body), body)
    return LEAVES[k][0]


def leaves1(body):
    for s in body:
        for sub in walk_same_scope(s):
            if isinstance(sub, (ast.Return, ast.Break, ast.Continue)):
                return True
    return False


def walk_same_scope(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, FUNCS + (ast.ClassDef,)):
            continue
        for x in walk_same_scope(c):
            yield x


def has_side(test):
    return any(isinstance(x, (ast.NamedExpr,)) for x in ast.walk(test))


def dotted_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_name(n.value)
        return b + "." + n.attr if b else None
    if isinstance(n, ast.Call):
        return dotted_name(n.func)
    return None


ALIAS_OPS = ("attr", "item", "elem", "elemof", "enter", "view", "valueof")


def alias_roots(t, seen=None):
    """the regions of the caller's objects a term may be (part of)"""
    while True:
        if t.op == "param":
            return {"param:" + str(t.args[0])}
        if t.op == "traceroot":
            return {"trace:" + str(t.args[0])}
        if t.op == "phi":
            # what it was before the loop, or in an earlier iteration
            seen = seen if seen is not None else set()
            out = set()
            if t not in seen:
                seen.add(t)
                for a in PHIS.get(t, ()):
                    if a[0] == "u":
                        out |= alias_roots(a[2], seen)
            return out
        if t.op == "attr":
            t = t.args[0]
        elif t.op in ("item", "view", "enter", "valueof", "elemof", "keyof"):
            if t.op == "item" and len(t.args) > 1 and isinstance(t.args[1], T) and \
                    t.args[1].op in ("slice", "mask", "tuplekey"):
                return set()
            t = t.args[0]
        elif t.op == "elem" and len(t.args) > 1:
            t = t.args[1]
        else:
            return set()
        if not isinstance(t, T):
            return set()


# operators that don't give None
NEVERNONE = ("max", "min", "Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "cat", "pjoin",
             "len", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "In", "NotIn", "not")


def hardatoms(v):
    out = set()
    for a in v.atoms:
        if a[0] == "u":
            continue
        if a[0] == "c" and not (a[2] is None or isinstance(a[2], bool)
                                or isinstance(a[2], str)):
            continue
        if a[0] == "t":
            out.add(("t", len(a[1]), tuple(hardatoms(x) for x in a[1])))
            continue
        out.add(a)
    return frozenset(out)


def mergeable(a, b, force):
    if a is b or a == b:
        return True
    if force:
        return True
    return hardatoms(a) == hardatoms(b)


RECENT = []
HARD = {}


def differs(oid):
    if oid in RECENT:
        RECENT.remove(oid)
    RECENT.insert(0, oid)
    del RECENT[8:]


def hardfacts(s, cfg):
    k = (id(cfg), s.facts)
    r = HARD.get(k)
    if r is None:
        if len(HARD) > 20000:
            HARD.clear()
        r = HARD[k] = frozenset(f for f in s.facts if cfg.hard_fact(f))
    return r


def merge(s1, s2, cfg, force=False):
    """join two states unless they differ in something that matters"""
    if s1 is s2:
        return s1
    if s1.ghost != s2.ghost:
        if not force:
            return None
        g1 = {g for g in s1.ghost}
        if cfg.soft("ghost-hard"):
            return None
    if hardfacts(s1, cfg) != hardfacts(s2, cfg):
        return None
    if cfg.partition is not None and cfg.partition(s1) != cfg.partition(s2):
        return None
    diff = []
    h1, h2 = s1.heap, s2.heap
    hh = force and cfg.soft("hist-hard")
    # the objects that were different lately are likely to be so again
    for oid in RECENT:
        o1, o2 = h1.get(oid), h2.get(oid)
        if o1 is None or o2 is None or o1 is o2:
            continue
        if hh and o1.x.get("hist") != o2.x.get("hist") or not (
                o1.same(o2) or obj_mergeable(o1, o2, cfg, force)):
            return None
    for oid, o1 in h1.items():
        o2 = h2.get(oid)
        if o2 is None:
            if oid in s2.base:
                o2 = s2.base[oid]
            else:
                continue
        if o1 is o2 or o1.same(o2):
            continue
        if not obj_mergeable(o1, o2, cfg, force):
            differs(oid)
            return None
        if hh and o1.x.get("hist") != o2.x.get("hist"):
            differs(oid)
            return None
        diff.append((oid, o1, o2))
    for oid, o2 in h2.items():
        if oid not in h1 and oid in s1.base:
            o1 = s1.base[oid]
            if o1 is o2 or o1.same(o2):
                continue
            if not obj_mergeable(o1, o2, cfg, force):
                return None
            diff.append((oid, o1, o2))
    s = s1.copy()
    for oid, o2 in h2.items():
        if oid not in s.heap:
            s.heap[oid] = o2
    for oid, o1, o2 in diff:
        s.heap[oid] = join_obj(o1, o2)
    s.facts = s1.facts & s2.facts
    s.pc = s1.pc | s2.pc
    s.ghost = s1.ghost | s2.ghost
    if s1.uattrs is not s2.uattrs and s1.uattrs != s2.uattrs:
        u = dict(s1.uattrs)
        for k, v in s2.uattrs.items():
            u[k] = join(u.get(k), v)
        s.uattrs = u
    return s


def obj_mergeable(a, b, cfg, force):
    if a.kind != b.kind or a.cls != b.cls:
        return force
    if force:
        return True
    if set(a.attrs) != set(b.attrs):
        return False
    for k, v in a.attrs.items():
        w = b.attrs[k]
        if v is not w and not mergeable(v, w, False):
            return False
    if (a.items is None) != (b.items is None):
        return False
    if a.items is not None:
        if len(a.items) != len(b.items):
            return False
        for v, w in zip(a.items, b.items):
            if v is not w and not mergeable(v, w, False):
                return False
    if (a.entries is None) != (b.entries is None):
        return False
    if a.entries is not None:
        if list(a.entries) != list(b.entries):
            return False
        for k, v in a.entries.items():
            if not mergeable(v, b.entries[k], False):
                return False
    if a.n != b.n:
        return False
    for k in set(a.x) | set(b.x):
        if k in ("labels", "lenlabels", "klabels", "cols", "content"):
            continue
        if a.x.get(k) != b.x.get(k):
            v, w = a.x.get(k), b.x.get(k)
            if isinstance(v, V) and isinstance(w, V) and mergeable(v, w, False):
                continue
            return False
    return True


def join_obj(a, b):
    o = a.copy()
    for k, v in b.attrs.items():
        o.attrs[k] = join(o.attrs[k], v) if k in o.attrs else v
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        o.items = [join(v, w) for v, w in zip(a.items, b.items)]
        o.summ = join(a.summ, b.summ)
    elif a.items is not None or b.items is not None:
        vs = list(a.items or ()) + list(b.items or ())
        o.items = None
        o.summ = join(a.summ, b.summ, *vs)
        if a.kind in ("tuple",):
            pass
    else:
        o.summ = join(a.summ, b.summ)
    if a.entries is not None or b.entries is not None:
        ents = dict(a.entries or {})
        for k, v in (b.entries or {}).items():
            ents[k] = join(ents[k], v) if k in ents else v
        o.entries = ents
        # keys that are only in one of them may be missing
        if set(a.entries or {}) != set(b.entries or {}):
            o.x["maybe"] = True
    o.ksumm = join(a.ksumm, b.ksumm)
    o.n = a.n if a.n == b.n else "?"
    for k, v in b.x.items():
        if k not in o.x:
            o.x[k] = v
        elif o.x[k] != v:
            w = o.x[k]
            if isinstance(v, frozenset) and isinstance(w, frozenset):
                o.x[k] = v | w
            elif isinstance(v, V) and isinstance(w, V):
                o.x[k] = join(v, w)
            elif k == "cols" and isinstance(v, dict):
                c = dict(w)
                for kk, vv in v.items():
                    c[kk] = c.get(kk, EMPTY) | vv
                o.x[k] = c
            elif k == "hist":
                o.x[k] = w + (("?",),) if not w or w[-1] != ("?",) else w
            elif k == "open":
                o.x[k] = True
            elif k == "nonempty":
                o.x[k] = False
    return o


def mark_epoch(st, loopkey):
    """forget how many elements were added before this iteration"""
    for oid, o in list(st.heap.items()):
        if o.n != 0:
            o = o.copy()
            o.n = 0
            st.heap[oid] = o


STALE = {}


def stale(t, loopkey):
    """the term is about the current element of the loop"""
    k = (t, loopkey)
    r = STALE.get(k)
    if r is None:
        if len(STALE) > 50000:
            STALE.clear()
        r = STALE[k] = any(s.op == "elem" and s.args[0] == loopkey for s in t.subs())
    return r


def stale_v(v, cell, loopkey):
    if v is None or not any(a[0] == "u" and stale(a[2], loopkey) for a in v.atoms):
        return v
    new = set()
    for a in v.atoms:
        if a[0] == "u" and stale(a[2], loopkey):
            phi = T.mk("phi", loopkey, str(cell))
            PHIS.setdefault(phi, set()).add(a)
            new.add(("u", a[1], phi))
        else:
            new.add(a)
    return V(frozenset(new), v.labels)


def last_iteration(st, loopkey):
    """values about an element of the loop are those of an earlier one from now on"""
    for oid, o in list(st.heap.items()):
        vs = list(o.attrs.values()) + list(o.items or ()) + list((o.entries or {}).values())
        if o.summ is not None:
            vs.append(o.summ)
        if not any(a[0] == "u" and stale(a[2], loopkey) for v in vs for a in v.atoms):
            continue
        o = o.copy()
        o.attrs = {k: stale_v(v, (oid, k), loopkey) for k, v in o.attrs.items()}
        if o.items is not None:
            o.items = [stale_v(v, (oid, i), loopkey) for i, v in enumerate(o.items)]
        if o.entries is not None:
            o.entries = {k: stale_v(v, (oid, "k", k), loopkey) for k, v in o.entries.items()}
        o.summ = stale_v(o.summ, (oid, "*"), loopkey)
        st.heap[oid] = o
    return st


def widen_state(h, b, loopkey, cfg, force):
    """head state h extended with back-edge state b: (state, changed) or None"""
    if h.ghost != b.ghost:
        if not force or cfg.soft("ghost-hard"):
            return None
    if hardfacts(h, cfg) != hardfacts(b, cfg):
        return None
    if cfg.partition is not None and cfg.partition(h) != cfg.partition(b):
        return None
    changed = False
    diff = []
    for oid in set(h.heap) | set(b.heap):
        o1 = h.heap.get(oid)
        if o1 is None:
            o1 = h.base.get(oid)
        o2 = b.heap.get(oid)
        if o2 is None:
            o2 = b.base.get(oid)
        if o1 is None or o2 is None:
            if o1 is None:
                diff.append((oid, None, o2))
            continue
        if o1 is o2 or o1.same(o2):
            continue
        if not widen_ok(o1, o2, force):
            return None
        diff.append((oid, o1, o2))
    s = h.copy()
    for oid, o1, o2 in diff:
        if o1 is None:
            s.heap[oid] = o2
            changed = True
            continue
        o, ch = widen_obj(o1, o2, oid, loopkey)
        if ch:
            s.heap[oid] = o
            changed = True
    facts = h.facts & b.facts
    if facts != s.facts:
        s.facts = facts
        changed = True
    if not b.pc <= s.pc:
        s.pc = s.pc | b.pc
        changed = True
    if not b.ghost <= s.ghost:
        s.ghost = s.ghost | b.ghost
        changed = True
    if b.uattrs is not s.uattrs and b.uattrs != s.uattrs:
        u = dict(s.uattrs)
        for k, v in b.uattrs.items():
            w = u.get(k)
            n, ch = widen_v(w, v, ("u", k), loopkey) if w is not None else (v, True)
            if ch:
                changed = True
            u[k] = n
        s.uattrs = u
    return s, changed


def widen_ok(a, b, force):
    if a.kind != b.kind or a.cls != b.cls:
        return False
    if force:
        return True
    for k in set(a.attrs) | set(b.attrs):
        v, w = a.attrs.get(k), b.attrs.get(k)
        if v is None or w is None:
            if a.kind == "env":
                return False
            continue
        if v is w or v == w:
            continue
        if not widen_hard(v, w):
            return False
    for k in ("hist", "open", "cols"):
        if k == "cols":
            continue
        if a.x.get(k) != b.x.get(k):
            return False
    return True


def widen_hard(v, w):
    """the back-edge value w can be folded into the head's value v"""
    hv, hw = hard2(v), hard2(w)
    return hw <= hv or hv == hw


def hard2(v):
    out = set()
    for a in v.atoms:
        if a[0] == "c" and (a[2] is None or isinstance(a[2], bool)):
            out.add(a)
        elif a[0] in ("r", "x", "b", "bx"):
            out.add(a)
        elif a[0] == "t":
            out.add(("t", len(a[1])))
    return out


PHIS = {}    # loop-carried term -> the atoms that flow into it


def widen_v(v, w, cell, loopkey):
    """(new head value, changed)"""
    if v is w or v == w:
        return v, False
    sc_v = [a for a in v.atoms if a[0] in ("c", "u") and not (
        a[0] == "c" and (a[2] is None or isinstance(a[2], bool)))]
    sc_w = [a for a in w.atoms if a[0] in ("c", "u") and not (
        a[0] == "c" and (a[2] is None or isinstance(a[2], bool)))]
    rest = frozenset(a for a in v.atoms | w.atoms if a not in sc_v and a not in sc_w)
    tv = [a for a in rest if a[0] == "t"]
    if tv:
        j = join(V(frozenset(tv)))
        rest = frozenset(a for a in rest if a[0] != "t") | join_tuples(tv)
    phi = T.mk("phi", loopkey, str(cell))
    ins = PHIS.setdefault(phi, set())
    ins |= {a for a in sc_v + sc_w if a[0] != "u" or a[2] is not phi}
    labels = v.labels | w.labels
    new = set(rest)
    if sc_v or sc_w:
        extra = [a for a in sc_w if a not in sc_v]
        if not extra:
            new |= set(sc_v)
        else:
            kinds = {scalar_kind(a) for a in sc_v + sc_w}
            if len(kinds) > 1:
                if kinds <= {"int", "float"}:
                    kinds = {"float"}
                else:
                    kinds = {None}
            new.add(("u", kinds.pop(), phi))
    nv = V(frozenset(new), labels)
    if nv == v:
        return v, False
    return nv, True


def join_tuples(tv):
    v = join(*[V((t,)) for t in tv])
    # element-wise phis are not needed: depth is bounded
    return frozenset(v.atoms)


def scalar_kind(a):
    if a[0] == "u":
        return a[1]
    return type(a[2]).__name__


def widen_obj(a, b, oid, loopkey):
    changed = False
    o = a.copy()
    for k, w in b.attrs.items():
        v = o.attrs.get(k)
        if v is None:
            o.attrs[k] = w
            changed = True
            continue
        n, ch = widen_v(v, w, (oid, k), loopkey)
        if ch:
            o.attrs[k] = n
            changed = True
    if a.items is not None or b.items is not None:
        if a.items is not None and b.items is not None and \
                len(a.items) == len(b.items):
            for i, (v, w) in enumerate(zip(a.items, b.items)):
                n, ch = widen_v(v, w, (oid, i), loopkey)
                if ch:
                    o.items[i] = n
                    changed = True
            sm = join(a.summ, b.summ)
        else:
            sm = join(a.summ, b.summ, *(list(a.items or ()) + list(b.items or ())))
            if o.items is not None:
                changed = True
            o.items = None
    else:
        sm = join(a.summ, b.summ)
    if sm is not None and sm != a.summ:
        if a.summ is None:
            o.summ = sm
            changed = True
        else:
            n, ch = widen_v(a.summ, sm, (oid, "*"), loopkey)
            if ch:
                o.summ = n
                changed = True
    if b.entries is not None:
        ents = dict(a.entries or {})
        for k, w in b.entries.items():
            if k in ents:
                n, ch = widen_v(ents[k], w, (oid, "k", k), loopkey)
                if ch:
                    ents[k] = n
                    changed = True
            else:
                ks = T.mk("kelem", loopkey, str(oid))
                mentions = k[0] == "u" and any(
                    t.op in ("elem", "phi", "item") for t in k[2].subs())
                if mentions:
                    # keys that change with the iteration are summarised
                    nk = V((k,))
                    if o.summ is None:
                        o.summ = w
                        changed = True
                    else:
                        n, ch = widen_v(o.summ, join(o.summ, w), (oid, "*"), loopkey)
                        if ch:
                            o.summ = n
                            changed = True
                    if o.ksumm is None or not nk.atoms <= o.ksumm.atoms:
                        o.ksumm = join(o.ksumm, nk)
                        changed = True
                else:
                    ents[k] = w
                    o.x["maybe"] = True
                    changed = True
        o.entries = ents
    if b.ksumm is not None and (o.ksumm is None or not b.ksumm.atoms <= o.ksumm.atoms):
        o.ksumm = join(o.ksumm, b.ksumm)
        changed = True
    if o.x != b.x:
        j = join_obj(o, b)
        if j.x != o.x:
            o.x = j.x
            changed = True
    o.n = 0
    return o, changed
