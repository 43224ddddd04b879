"""Abstract values, terms, heap objects and states of the abstract interpreter.

Nothing of /repo is ever executed: the interpreter walks the syntax tree of the
sources and these are the elements of its abstract domain.
"""

EMPTY = frozenset()


class T(object):
    """A hash-consed symbolic name for an unknown value (bounded depth)"""
    __slots__ = ("op", "args", "depth", "_h", "_subs")
    _table = {}
    MAXDEPTH = 14

    @staticmethod
    def mk(op, *args):
        depth = 0
        for a in args:
            if isinstance(a, T) and a.depth > depth:
                depth = a.depth
        if depth > T.MAXDEPTH:
            args = (T.mk("deep", abs(hash(tuple(
                a._h if isinstance(a, T) else str(a) for a in args))) % 997),)
            depth = 1
        key = (op,) + tuple((type(a).__name__, a) for a in args)
        t = T._table.get(key)
        if t is None:
            t = object.__new__(T)
            t.op = op
            t.args = args
            t.depth = depth + 1
            t._h = hash(key)
            t._subs = None
            T._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def subs(self):
        """all the subterms, itself included"""
        if self._subs is None:
            out = {self}
            for a in self.args:
                if isinstance(a, T):
                    out |= a.subs()
            self._subs = frozenset(out)
        return self._subs

    def __repr__(self):
        if self.op == "c":
            return repr(self.args[-1])
        if self.op == "param":
            return str(self.args[0])
        if self.op == "attr" and len(self.args) == 2:
            return "%r.%s" % (self.args[0], self.args[1])
        if self.op == "item" and len(self.args) == 2:
            return "%r[%r]" % (self.args[0], self.args[1])
        if self.op in ("call", "mcall", "imp"):
            return "%s(%s)" % (self.args[0], ", ".join(
                repr(a) for a in self.args[1:]))
        return "%s(%s)" % (self.op, ", ".join(repr(a) for a in self.args))


class V(object):
    """A set of alternatives (atoms) and the labels the value depends on"""
    __slots__ = ("atoms", "labels", "_h")

    def __init__(self, atoms, labels=EMPTY):
        self.atoms = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        self.labels = labels
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.labels))
        return self._h

    def __eq__(self, other):
        return self is other or (isinstance(other, V) and
                                 self.labels == other.labels and
                                 self.atoms == other.atoms)

    def __ne__(self, other):
        return not self == other

    def lab(self, labels):
        if not labels or labels <= self.labels:
            return self
        return V(self.atoms, self.labels | labels)

    def one(self):
        if len(self.atoms) == 1:
            for a in self.atoms:
                return a
        return None

    def __repr__(self):
        s = "|".join(sorted(show(a) for a in self.atoms))
        if self.labels:
            s += "{" + ",".join(sorted(str(l) for l in self.labels)) + "}"
        return s


def show(a):
    if a[0] == "c":
        return repr(a[2])
    if a[0] == "u":
        return "?%s:%r" % (a[1] or "", a[2])
    if a[0] == "t":
        return "(%s)" % ", ".join(repr(v) for v in a[1])
    return "%s:%s" % (a[0], a[1:])


def const(x, labels=EMPTY):
    return V((catom(x),), labels)


def catom(x):
    return ("c", type(x).__name__, x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def ref(oid, labels=EMPTY):
    return V((("r", oid),), labels)


def ext(name):
    return V((("x", name),))


def unk(term, kind=None, labels=EMPTY):
    return V((("u", kind, term),), labels)


def tup(vs, labels=EMPTY):
    return V((("t", tuple(vs)),), labels)


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return None
    if len(vs) == 1:
        return vs[0]
    atoms = frozenset().union(*[v.atoms for v in vs])
    labels = frozenset().union(*[v.labels for v in vs])
    if len(atoms) > 1:
        # tuples of the same length are joined element-wise
        tups = [a for a in atoms if a[0] == "t"]
        if len(tups) > 1:
            bylen = {}
            for a in tups:
                bylen.setdefault(len(a[1]), []).append(a)
            atoms = frozenset(a for a in atoms if a[0] != "t")
            for n, group in bylen.items():
                if len(group) == 1:
                    atoms |= {group[0]}
                else:
                    atoms |= {("t", tuple(join(*[g[1][i] for g in group])
                                          for i in range(n)))}
        if len(atoms) > 24:
            kinds = {a[1] for a in atoms if a[0] == "u"}
            keep = frozenset(a for a in atoms if a[0] not in ("u", "c"))
            atoms = keep | {("u", kinds.pop() if len(kinds) == 1 else None,
                             T.mk("many", len(atoms)))}
    return V(atoms, labels)


def aterm(a):
    tag = a[0]
    if tag == "c":
        return T.mk("c", a[1], a[2])
    if tag == "u":
        return a[2]
    if tag == "t":
        return T.mk("tuple", *[term(v) for v in a[1]])
    if tag == "r":
        return T.mk("ref", a[1])
    if tag == "x":
        return T.mk("x", a[1])
    if tag == "bx" and len(a) == 3 and isinstance(a[2], str) and a[1][0] == "u":
        return T.mk("attr", a[1][2], a[2])
    return T.mk("atom", a)


def term(v):
    if len(v.atoms) == 1:
        return aterm(v.one())
    return T.mk("join", *sorted((aterm(a) for a in v.atoms), key=lambda t: (t._h, repr(t))))


class Obj(object):
    """A heap object.  Never modified once it's in a heap: copy, then put."""
    __slots__ = ("kind", "cls", "attrs", "items", "entries", "summ", "ksumm",
                 "x", "n")

    def __init__(self, kind, cls=None, attrs=None, items=None, entries=None,
                 summ=None, ksumm=None, x=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items          # exact elements of a list/set, or None
        self.entries = entries      # exact entries of a dict {key atom: V}
        self.summ = summ            # join of the unknown elements
        self.ksumm = ksumm          # join of the unknown keys
        self.x = x if x is not None else {}
        self.n = 0                  # elements added since the loop head

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.cls = self.cls
        o.attrs = dict(self.attrs)
        o.items = None if self.items is None else list(self.items)
        o.entries = None if self.entries is None else dict(self.entries)
        o.summ = self.summ
        o.ksumm = self.ksumm
        o.x = dict(self.x)
        o.n = self.n
        return o

    def same(self, o):
        if self is o:
            return True
        return (self.kind == o.kind and self.cls == o.cls and
                self.attrs == o.attrs and self.items == o.items and
                _eqd(self.entries, o.entries) and
                self.summ == o.summ and self.ksumm == o.ksumm and
                self.x == o.x and self.n == o.n)


def _eqd(a, b):
    if a is None or b is None:
        return a is b
    return a == b and list(a) == list(b)


class State(object):
    __slots__ = ("base", "heap", "facts", "pc", "uattrs", "ghost")

    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.facts = EMPTY
        self.pc = EMPTY
        self.uattrs = {}
        self.ghost = EMPTY

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.pc = self.pc
        s.uattrs = self.uattrs
        s.ghost = self.ghost
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base[oid]
        return o

    def has(self, oid):
        return oid in self.heap or oid in self.base

    def put(self, oid, obj):
        self.heap[oid] = obj


def is_scalar(a):
    return a[0] in ("c", "u")
