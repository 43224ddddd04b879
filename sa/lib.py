"""Summaries of the library calls the repository makes.

Effects on the file system are recorded as "fs" events, effects on the objects
of the abstract heap are applied to them, everything else is a pure function of
its arguments: an unknown value labelled with what the arguments depend on.
"""
import ast
import os
import re
import string as pystring

from .values import (V, T, Obj, EMPTY, NONE, TRUE, FALSE, const, catom, ref,
                     ext, unk, tup, join, term, aterm)

SAFE_FOLD = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit",
             "replace", "startswith", "endswith", "join", "title", "capitalize",
             "partition", "rpartition", "splitlines", "find", "rfind", "index",
             "isdigit", "isalpha", "encode", "decode", "zfill", "count",
             "swapcase", "isupper", "islower", "casefold", "removeprefix",
             "removesuffix"}
STR_TO_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "join",
              "title", "capitalize", "format", "zfill", "encode", "decode",
              "hexdigest", "ljust", "rjust", "center", "swapcase", "casefold",
              "expandtabs", "removeprefix", "removesuffix", "translate"}
STR_TO_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isupper",
               "islower", "isspace", "isnumeric", "isalnum", "isidentifier"}
MUTATORS = {"append", "extend", "insert", "remove", "sort", "reverse", "clear",
            "pop", "popitem", "update", "setdefault", "add", "discard",
            "appendleft", "intersection_update", "difference_update"}
DF_INPLACE_ALWAYS = {"insert", "update", "pop", "__setitem__", "__delitem__"}
ORDER_FREE = {"sorted", "len", "set", "frozenset", "sum", "min", "max", "any",
              "all", "bool"}
SETORDER = frozenset(["@SETORDER"])


def snap(I, st, v, depth=0):
    """the term of a value with the present contents of its containers"""
    def one(a):
        if a[0] == "t":
            return T.mk("tuple", *[snap(I, st, x, depth + 1) for x in a[1]])
        if a[0] == "sl":
            return T.mk("slice", *[snap(I, st, x, depth + 1) for x in a[1:]])
        if a[0] == "b":
            return T.mk("bound", one(a[1]), one(a[2]))
        if a[0] != "r" or not st.has(a[1]) or depth > 6:
            return aterm(a)
        o = st.get(a[1])
        if o.x.get("lazy"):
            return aterm(a)
        if o.kind in ("list", "set"):
            ts = [snap(I, st, x, depth + 1) for x in o.items or ()]
            if o.summ is not None:
                ts.append(T.mk("each", snap(I, st, o.summ, depth + 1)))
            return T.mk(o.kind, *ts)
        if o.kind == "dict":
            ts = []
            for k, x in (o.entries or {}).items():
                ts.append(T.mk("entry", aterm(k), snap(I, st, x, depth + 1)))
            if o.summ is not None:
                ts.append(T.mk("each", snap(I, st, o.ksumm, depth + 1) if o.ksumm is not None else None,
                               snap(I, st, o.summ, depth + 1)))
            return T.mk("dict", *ts)
        return aterm(a)
    ts = sorted({one(a) for a in v.atoms}, key=lambda t: (t._h, repr(t)))
    return ts[0] if len(ts) == 1 else T.mk("join", *ts)


def tm(I, st, v):
    return snap(I, st, v) if I.cfg.symbolic else term(v)


def _v(x):
    return x.v if not isinstance(x, V) else x


def labels_of(args, kw):
    out = EMPTY
    for a in args:
        out |= _v(a).labels
    for v in kw.values():
        out |= v.labels
    return out


def deep_labels(I, st, v, seen=None, depth=0):
    """labels of a value and of what it contains"""
    seen = seen if seen is not None else set()
    out = v.labels
    for a in v.atoms:
        out |= atom_labels(I, st, a, seen, depth)
    return out


def atom_labels(I, st, a, seen, depth):
    out = EMPTY
    if depth > 6:
        return out
    if a[0] == "t":
        for w in a[1]:
            out |= deep_labels(I, st, w, seen, depth + 1)
    elif a[0] == "sl":
        for w in a[1:]:
            out |= deep_labels(I, st, w, seen, depth + 1)
    elif a[0] == "r" and a[1] not in seen:
        seen.add(a[1])
        if not st.has(a[1]):
            return out
        o = st.get(a[1])
        if o.kind in ("module", "class", "func"):
            return out
        if o.kind == "env":
            return out
        for k in ("labels", "content", "lenlabels", "klabels"):
            out |= o.x.get(k) or EMPTY
        if o.kind in ("list", "set", "dict", "iter", "tuple", "hash", "ext"):
            for w in list(o.items or ()) + list((o.entries or {}).values()) + \
                    [o.summ, o.ksumm] + list(o.x.get("keep", ())):
                if w is not None:
                    out |= deep_labels(I, st, w, seen, depth + 1)
            for k in (o.entries or {}):
                out |= atom_labels(I, st, k, seen, depth + 1)
        if o.kind == "gen":
            for w in o.x.get("keep", ()):
                out |= deep_labels(I, st, w, seen, depth + 1)
        if o.kind in ("series", "index") and o.x.get("of") and st.has(o.x["of"]):
            out |= st.get(o.x["of"]).x.get("labels", EMPTY)
    return out


def touch(st, oid):
    """an object changes: forget the facts about its size"""
    t = T.mk("ref", oid)
    if any(isinstance(x, T) and t in x.subs() for f in st.facts for x in f):
        st.facts = frozenset(f for f in st.facts if not any(
            isinstance(x, T) and t in x.subs() for x in f))


# ----------------------------------------------------------------- lists

def append_item(I, st, oid, v):
    o = st.get(oid).copy()
    v = v.lab(st.pc)
    if o.items is not None and len(o.items) < 200 and o.summ is None:
        o.items.append(v)
    else:
        o.summ = join(o.summ, v)
        if o.items is None:
            pass
    if isinstance(o.n, int):
        o.n += 1
    o.x["lenlabels"] = o.x.get("lenlabels", EMPTY) | st.pc
    touch(st, oid)
    st.put(oid, o)


def summ_of(I, st, node, v):
    """(exact items or None, summary or None) of an iterable value's elements"""
    out = []
    for s, lv in to_list(I, st, node, v):
        out.append((s, lv))
    return out


def list_extend(I, st, node, atom, v):
    I.mutate(st, atom, "extend", node, v)
    out = []
    for s, lv in to_list(I, st, node, v):
        src = s.get(lv.one()[1])
        for x in list(src.items or ()) + ([src.summ] if src.summ else []):
            I.record("append", s, node, list=atom[1], value=x, state=s)
        o = s.get(atom[1]).copy()
        ls = lv.labels | s.pc
        if o.items is not None and o.summ is None and src.items is not None and \
                src.summ is None:
            o.items += [x.lab(ls) for x in src.items]
        else:
            e = join(*(list(src.items or ()) + ([src.summ] if src.summ else [])))
            if e is not None:
                o.summ = join(o.summ, e.lab(ls))
                if o.items is None:
                    pass
        o.x["lenlabels"] = o.x.get("lenlabels", EMPTY) | ls | src.x.get("lenlabels", EMPTY)
        if isinstance(o.n, int):
            o.n += 1
        touch(s, atom[1])
        s.put(atom[1], o)
        out.append((s, V((atom,))))
    return out


def list_concat(I, st, node, a, b):
    items = []
    summ = None
    exact = True
    ls = a.labels | b.labels
    for v in (a, b):
        for at in v.atoms:
            if at[0] == "r" and st.get(at[1]).kind == "list":
                o = st.get(at[1])
                if o.items is None or o.summ is not None:
                    exact = False
                items += list(o.items or ())
                summ = join(summ, o.summ)
                ls |= o.x.get("lenlabels", EMPTY)
            else:
                exact = False
                summ = join(summ, unk(T.mk("elemof", aterm(at))))
    if exact:
        return I.newlist(st, node, items, labels=ls, extra="cat")
    return I.newlist(st, node, None, join(summ, *items), labels=ls, extra="cat")


def to_list(I, st, node, v, kind="list"):
    """list object with the elements of an iterable"""
    oid = I.alloc(st, node, Obj(kind, items=[]), "tolist")
    o = st.get(oid)
    if o.items or o.summ:
        o = Obj(kind, items=[])
        st.put(oid, o)
    exact = True
    for a in v.atoms:
        if a[0] == "r" and (st.get(a[1]).kind == "gen" or
                            st.get(a[1]).x.get("lazy") not in (None, "zip", "enumerate", "chain")):
            exact = False
            continue
        if I.elements(node, st.copy(), a, v.labels)[0] != "exact":
            exact = False
    if len(v.atoms) > 1:
        exact = False
    depth = None
    if not exact and I.cfg.symbolic and v.one() and v.one()[0] == "r" and st.get(v.one()[1]).kind == "gen":
        # exact as long as its elements aren't from a loop over something unknown
        exact, depth = True, I.fixdepth

    def body(s, e):
        ob = s.get(oid).copy()
        e = e.lab(s.pc)
        if depth is not None and (I.fixdepth != depth or ob.items is None):
            ob.summ = join(ob.summ, e, *(ob.items or ()))
            ob.items = None
        elif exact:
            ob.items = list(ob.items)
            ob.items.append(e)
        else:
            ob.summ = join(ob.summ, e)
        ob.x["lenlabels"] = ob.x.get("lenlabels", EMPTY) | s.pc
        if isinstance(ob.n, int):
            ob.n += 1
        s.put(oid, ob)
        return [s], []
    if not exact:
        ob = st.get(oid).copy()
        ob.items = None
        st.put(oid, ob)
    I.frame.loops.append(ref(oid))
    I.frame.loops.append(v)
    try:
        brks = []
        pc = st.pc
        res = I.iterate(node, st, v, body, brks)
    finally:
        I.frame.loops.pop()
        I.frame.loops.pop()
    out = []
    for s in I.reduce(res + brks):
        s.pc = pc
        out.append((s, ref(oid, v.labels)))
    return out


def lazy_elements(I, node, st, a, o, labels):
    kind = o.x["lazy"]
    its = o.x.get("its", ())
    labels = labels | o.x.get("labels", EMPTY)

    def sub(s, v):
        """[(state, element or None)] of one element of an iterable"""
        res = []
        for at in v.atoms:
            s0 = s if len(v.atoms) == 1 else s.copy()
            r = I.elements(node, s0, at, v.labels)
            if r[0] == "exact":
                if r[1]:
                    res.append((s0, join(*r[1])))
            elif r[0] == "unk":
                res += r[1](s0)
            else:
                # a generator below a lazy iterator
                for s2, lv in to_list(I, s0, node, V((at,), v.labels)):
                    lo = s2.get(lv.one()[1])
                    vs = list(lo.items or ()) + ([lo.summ] if lo.summ else [])
                    if vs:
                        res.append((s2, join(*vs)))
        return res

    if kind == "zip":
        parts = [I.elements(node, st, v.one(), v.labels) if v.one() else ("unk",)
                 for v in its]
        if parts and all(p[0] == "exact" for p in parts):
            same = {v.one() for v in its}
            if len(its) > 1 and len(same) == 1 and None not in same and I.consumed(st, its[0].one()):
                n = len(its)
                xs = parts[0][1]
                return ("exact", [tup(xs[i:i + n], labels) for i in range(0, len(xs) - n + 1, n)])
            return ("exact", [tup(x, labels) for x in zip(*[p[1] for p in parts])])

        def fn(s):
            cur = [(s, [])]
            for v in its:
                cur = [(s2, vs + [e]) for s1, vs in cur for s2, e in sub(s1, v)]
            return [(s2, tup(vs, labels) if None not in vs else None)
                    for s2, vs in cur]
        return ("unk", fn)
    if kind == "enumerate":
        v = its[0]
        p = I.elements(node, st, v.one(), v.labels) if v.one() else ("unk",)
        if p[0] == "exact":
            return ("exact", [tup((const(i), x), labels) for i, x in enumerate(p[1])])
        idx = unk(T.mk("elem", (I.site(node), I.frame.ctx), T.mk("enum")), "int")

        def fn(s):
            return [(s2, tup((idx, e), labels) if e is not None else None)
                    for s2, e in sub(s, v)]
        return ("unk", fn)
    if kind == "chain":
        ps = [I.elements(node, st, v.one(), v.labels) if v.one() else ("unk",)
              for v in its]
        if all(p[0] == "exact" for p in ps):
            return ("exact", [x.lab(labels) for p in ps for x in p[1]])

        def fn(s):
            out = []
            for v in its:
                out += [(s2, e.lab(labels) if e is not None else None)
                        for s2, e in sub(s.copy(), v)]
            return out
        return ("unk", fn)
    f = o.x.get("f")
    if kind == "map":
        def fn(s):
            cur = [(s, [])]
            for v in its:
                cur = [(s2, vs + [e]) for s1, vs in cur for s2, e in sub(s1, v)]
            out = []
            for s2, vs in cur:
                if None in vs:
                    out.append((s2, None))
                    continue
                out += [(s3, r.lab(labels)) for s3, r in I.call(s2, node, f, vs, {})]
            return out
        return ("unk", fn)
    if kind in ("filter", "filterfalse", "takewhile", "dropwhile"):
        def fn(s):
            out = []
            for s1, e in sub(s, its[0]):
                if e is None:
                    out.append((s1, None))
                    continue
                if kind == "dropwhile":
                    out.append((s1.copy(), e.lab(labels)))
                if f is None or f.one() == NONE.one():
                    res = [(s1, e)]
                else:
                    res = I.call(s1, node, f, [e], {})
                for s2, r in res:
                    t, ff = I.split(s2, r)
                    keep, skip = (t, ff) if kind in ("filter", "takewhile") else (ff, t)
                    out += [(s3, e.lab(labels | l)) for s3, l in keep]
                    for s3, l in skip:
                        I.cfg.on_event(I, s3, node, "dropped", {"how": kind})
                        out.append((s3, None))
            return out
        return ("unk", fn)
    if kind == "combinations":
        p = I.elements(node, st, its[0].one(), its[0].labels) if its[0].one() else ("unk",)
        if p[0] == "exact" and len(p[1]) <= 12:
            import itertools
            return ("exact", [tup(x, labels) for x in
                              itertools.combinations(p[1], o.x.get("r") or 2)])

        def fn(s):
            out = []
            for s1, e in sub(s, its[0]):
                for s2, e2 in sub(s1, its[0]):
                    out.append((s2, tup((e, e2), labels)))
            return out
        return ("unk", fn)
    if kind == "calliter":
        def fn(s):
            return I.call(s, node, f, [], {})
        return ("unk", fn)

    def fn(s):
        return [(s2, e.lab(labels) if e is not None else None)
                for s2, e in sub(s, its[0])]
    return ("unk", fn)


def mklazy(I, st, node, kind, its, f=None, labels=EMPTY, **x):
    o = Obj("iter", items=None)
    o.x["lazy"] = kind
    o.x["its"] = tuple(_v(v) for v in its)
    o.x["f"] = f
    o.x["labels"] = labels
    o.x["keep"] = tuple(o.x["its"]) + ((f,) if f is not None else ())
    o.x.update(x)
    return ref(I.alloc(st, node, o, "lazy" + kind))


# ------------------------------------------------------------ data frames

def newdf(I, st, node, kind="df", labels=EMPTY, extra="", **x):
    o = Obj(kind)
    o.x["labels"] = labels
    if kind == "df":
        o.x["hist"] = ()
    o.x.update(x)
    return ref(I.alloc(st, node, o, kind + extra), labels)


def dfo(st, a):
    return st.get(a[1]) if a[0] == "r" else None


def dlabels(st, a):
    o = dfo(st, a)
    return o.x.get("labels", EMPTY) if o is not None else EMPTY


def derive(I, st, node, a, labels=EMPTY, kind=None, extra="", op=None, **x):
    """a new object computed from a df/series/index"""
    o = dfo(st, a)
    k = kind or o.kind
    hist = o.x.get("hist", ())
    if o.kind in ("series", "index") and o.x.get("of") and st.has(o.x["of"]):
        labels = labels | st.get(o.x["of"]).x.get("labels", EMPTY)
    if op is not None:
        hist = hist + (op,)
    n = newdf(I, st, node, k, o.x.get("labels", EMPTY) | labels, extra)
    ob = st.get(n.one()[1]).copy()
    if k == "df":
        ob.x["hist"] = hist
    for key in ("src", "nonempty"):
        if key in o.x:
            ob.x[key] = o.x[key]
    ob.x.update(x)
    st.put(n.one()[1], ob)
    return n


def df_len(a):
    return T.mk("len", aterm(a))


def of_df(st, o):
    oid = o.x.get("of")
    return st.get(oid) if oid is not None and st.has(oid) else None


def df_attr(I, st, node, a, name, labels):
    o = dfo(st, a)
    ls = o.x.get("labels", EMPTY)
    if name == "empty":
        return [(st, unk(T.mk("not", df_len(a)), "bool", ls))]
    if name == "shape":
        return [(st, tup((unk(df_len(a), "int", ls),
                          unk(T.mk("ncols", aterm(a)), "int", ls))))]
    if name == "size":
        return [(st, unk(df_len(a), "int", ls))]
    if o.kind == "df" and name == "index":
        return [(st, newdf(I, st, node, "index", ls, "", of=a[1], role="time",
                           shift=()))]
    if name == "values":
        n = newdf(I, st, node, "index" if o.kind == "index" else "series",
                  ls, "values")
        ob = st.get(n.one()[1]).copy()
        for k in ("of", "role", "shift"):
            if k in o.x:
                ob.x[k] = o.x[k]
        ob.x["of"] = a[1] if o.kind == "df" else o.x.get("of")
        st.put(n.one()[1], ob)
        return [(st, n)]
    if name in ("loc", "iloc", "at", "iat"):
        return [(st, V((("loc", a),), frozenset(ls)))]
    if name == "columns" or name == "dtypes":
        n = newdf(I, st, node, "index", ls, name, of=a[1], role="columns")
        return [(st, n)]
    if name in ("T",):
        return [(st, derive(I, st, node, a, extra="T"))]
    if name in ("name", "names", "dtype", "kind"):
        v = o.attrs.get(name)
        if v is not None:
            return [(st, v)]
        return [(st, unk(T.mk("attr", aterm(a), name), None, ls))]
    if name in ("str", "dt", "plot", "cat"):
        return [(st, V((("bx", a, name),)))]
    if isinstance(name, str) and name in o.attrs:
        return [(st, o.attrs[name])]
    return [(st, V((("bx", a, name),), EMPTY))]


def df_setattr(I, st, node, a, name, v):
    o = dfo(st, a).copy()
    I.record("dfset", st, node, oid=a[1], what=name, value=v)
    ls = deep_labels(I, st, v)
    if name == "index" and o.kind == "df":
        va = v.one()
        vo = dfo(st, va) if va and va[0] == "r" else None
        if vo is not None and vo.x.get("of") == a[1] and vo.x.get("role") == "time":
            for sh in vo.x.get("shift", ()):
                o.x["hist"] = o.x.get("hist", ()) + (sh,)
        else:
            o.x["hist"] = o.x.get("hist", ()) + (("setindex",),)
    elif name == "name":
        o.attrs["name"] = v
    o.x["labels"] = o.x.get("labels", EMPTY) | ls | st.pc
    st.put(a[1], o)


def is_time_key(k):
    a = k.one()
    return a is not None and a[0] == "c" and a[2] == "Time"


def df_setitem(I, st, node, a, k, v):
    o = dfo(st, a).copy()
    ls = deep_labels(I, st, v) | k.labels | st.pc
    if o.kind == "df" and is_time_key(k):
        va = v.one()
        vo = dfo(st, va) if va and va[0] == "r" else None
        if vo is not None and vo.kind in ("series", "index") and \
                vo.x.get("role") == "time":
            for sh in vo.x.get("shift", ()):
                o.x["hist"] = o.x.get("hist", ()) + (sh,)
        else:
            o.x["hist"] = o.x.get("hist", ()) + (("settime",),)
    o.x["labels"] = o.x.get("labels", EMPTY) | ls
    st.put(a[1], o)
    if o.kind in ("series", "index") and o.x.get("of"):
        of = o.x["of"]
        if st.has(of) and st.get(of).kind == "df":
            d = st.get(of).copy()
            d.x["labels"] = d.x.get("labels", EMPTY) | ls
            st.put(of, d)


def df_locset(I, st, node, inner, k, v):
    df_setitem(I, st, node, inner, k, v)


def df_inplace(I, st, a, node, op, v=None):
    """an in place operation on a df/series/index"""
    o = dfo(st, a).copy()
    ls = (deep_labels(I, st, v) if v is not None else EMPTY) | st.pc
    o.x["labels"] = o.x.get("labels", EMPTY) | ls
    if op[0] == "aug":
        if o.kind in ("series", "index"):
            if o.x.get("role") == "time":
                o.x["shift"] = o.x.get("shift", ()) + (("shift", op[1], term(v)),)
        else:
            o.x["hist"] = o.x.get("hist", ()) + (("aug", op[1]),)
    touch(st, a[1])
    st.put(a[1], o)


def slice_hist(k):
    a = k.one()
    if a and a[0] == "sl":
        return ("window", a[1], a[2])
    return None


def masks_of(st, k):
    """window bounds a boolean mask stands for: [(op, V)] or None"""
    a = k.one()
    o = dfo(st, a) if a and a[0] == "r" else None
    if o is None or o.kind not in ("series", "index"):
        return None
    return o.x.get("mask")


def df_getitem(I, st, node, a, k, labels):
    o = dfo(st, a)
    ls = o.x.get("labels", EMPTY) | deep_labels(I, st, k)
    I.maybe_raise(st, node, "dfitem", ls, (aterm(a),))
    ka = k.one()
    if o.kind == "df":
        if ka and ka[0] == "sl":
            return [(st, derive(I, st, node, a, ls, op=slice_hist(k)))]
        if ka and ka[0] == "r" and st.get(ka[1]).kind in ("series", "index", "df"):
            m = masks_of(st, k)
            return [(st, derive(I, st, node, a, ls,
                                op=("mask",) + m if m else ("mask?",)))]
        if ka and ka[0] == "u" and ka[1] in ("series", "df"):
            return [(st, derive(I, st, node, a, ls, op=("mask?",)))]
        if ka and ka[0] == "r" and st.get(ka[1]).kind == "list":
            return [(st, derive(I, st, node, a, ls))]
        return [(st, newdf(I, st, node, "series", ls, "", of=a[1],
                           role="time" if is_time_key(k) else "col",
                           col=k, shift=()))]
    if ka and (ka[0] == "sl" or (ka[0] == "r" and st.get(ka[1]).kind in
                                 ("series", "index", "list"))):
        return [(st, derive(I, st, node, a, ls))]
    return [(st, unk(T.mk("item", aterm(a), key_t(k)), None, ls))]


def isframe(st, k):
    """an indexer that selects several rows or columns"""
    a = k.one()
    return bool(a) and (a[0] == "sl" or a[0] == "u" and a[1] in ("series", "index", "df", "list") or
                        a[0] == "r" and st.get(a[1]).kind in ("list", "series", "index"))


def key_t(k, I=None, st=None):
    a = k.one()
    if I is not None and I.cfg.symbolic:
        return snap(I, st, k)
    if a and a[0] == "sl":
        return T.mk("slice", *[term(x) for x in a[1:]])
    return term(k)


def df_locget(I, st, node, a, k, labels):
    inner = a[1]
    if inner[0] != "r":
        ka = k.one()
        if ka and ka[0] == "t" and len(ka[1]) == 2:
            # rows, columns
            rows, cols = ka[1]
            kind = None
            if inner[0] == "u" and inner[1] == "df" and I.cfg.symbolic:
                kind = "df" if isframe(st, cols) else "series"
            t = T.mk("locitem", aterm(inner), key_t(rows, I, st), key_t(cols, I, st))
            if I.cfg.symbolic:
                I.term_site.setdefault(t, I.where(node))
            return [(st, unk(t, kind, labels))]
        kind = None
        if I.cfg.symbolic and inner[0] == "u" and (ka and ka[0] == "sl" or isframe(st, k)):
            kind = inner[1]
        t = T.mk("locitem", aterm(inner), key_t(k, I, st))
        if I.cfg.symbolic:
            I.term_site.setdefault(t, I.where(node))
        return [(st, unk(t, kind, labels))]
    o = dfo(st, inner)
    ls = o.x.get("labels", EMPTY) | deep_labels(I, st, k)
    I.maybe_raise(st, node, "dfitem", ls, (aterm(inner),))
    ka = k.one()
    if ka and ka[0] == "t" and len(ka[1]) == 2:
        rows, cols = ka[1]
        if rows.one() and rows.one()[0] == "sl":
            rs = rows.one()
            cc = cols.one()
            if cc and cc[0] == "sl":
                return [(st, derive(I, st, node, inner, ls, op=slice_hist(rows)))]
            if cc and cc[0] == "c":
                return [(st, derive(I, st, node, inner, ls, kind="series"))]
        return [(st, derive(I, st, node, inner, ls, op=("loc?",)))]
    if ka and ka[0] == "sl":
        return [(st, derive(I, st, node, inner, ls, op=slice_hist(k)))]
    m = masks_of(st, k)
    if m:
        return [(st, derive(I, st, node, inner, ls, op=("mask",) + m))]
    if ka and ka[0] == "r" and st.get(ka[1]).kind in ("series", "index", "list"):
        return [(st, derive(I, st, node, inner, ls, op=("mask?",)))]
    return [(st, unk(T.mk("item", aterm(inner), key_t(k)), None, ls))]


CMP = {"Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"}
FLIP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


def series_op(I, st, node, op, vs):
    """operators on pandas objects"""
    ls = EMPTY
    for v in vs:
        ls |= deep_labels(I, st, v)
    base = None
    bi = 0
    for i, v in enumerate(vs):
        a = v.one()
        if a and a[0] == "r" and st.get(a[1]).kind in ("df", "series", "index"):
            base = a
            bi = i
            break
    o = dfo(st, base)
    x = {}
    if len(vs) == 2:
        other = vs[1 - bi]
        if o.x.get("role") == "time":
            x["of"] = o.x.get("of")
            if op in ("Sub", "Add") and bi == 0:
                x["role"] = "time"
                x["shift"] = o.x.get("shift", ()) + (("shift", op, term(other)),)
            elif op in CMP:
                oo = op if bi == 0 else FLIP.get(op, op)
                x["mask"] = ((oo, other),)
        if op in ("BitAnd", "And"):
            m1 = o.x.get("mask")
            oa = other.one()
            o2 = dfo(st, oa) if oa and oa[0] == "r" else None
            m2 = o2.x.get("mask") if o2 is not None else None
            if m1 and m2:
                x["mask"] = m1 + m2
                x["of"] = o.x.get("of")
    k = "df" if o.kind == "df" else "series" if o.kind == "series" else "index"
    if op in CMP or "shift" in x or op in ("BitAnd", "BitOr"):
        n = newdf(I, st, node, "series" if k != "df" else "df", ls, op, **x)
    else:
        n = newdf(I, st, node, k, ls, op, **x)
    return n


def df_method(I, st, node, a, name, args, kw):
    o = dfo(st, a)
    ls = o.x.get("labels", EMPTY)
    for v in list(args) + list(kw.values()):
        ls |= deep_labels(I, st, _v(v))
    inplace = kw.get("inplace")
    if name in DF_INPLACE_ALWAYS or (inplace is not None and
                                     inplace.one() != FALSE.one()):
        I.mutate(st, a, "%s(inplace)" % name, node)
        df_inplace(I, st, a, node, ("method", name), join(*[_v(v) for v in args])
                   if args else None)
        if name in ("truncate", "query", "drop"):
            ob = dfo(st, a).copy()
            ob.x["hist"] = ob.x.get("hist", ()) + (("drop?",),)
            st.put(a[1], ob)
        if name == "pop":
            return [(st, newdf(I, st, node, "series", ls, "pop"))]
        return [(st, NONE)]
    if name in ("to_csv", "to_pickle", "to_json", "to_hdf", "to_parquet"):
        path = _v(args[0]) if args else kw.get("path_or_buf", NONE)
        pa = path.one()
        if pa is not None and pa[0] == "c" and pa[2] is None:
            return [(st, unk(T.mk("csv", aterm(a)), "str", ls))]
        if pa is not None and pa[0] == "r" and st.get(pa[1]).kind == "file":
            file_write(I, st, node, pa, ls, dfs=(a[1],))
            return [(st, NONE)]
        I.maybe_raise(st, node, "to_csv", path.labels, (term(path),))
        I.record("fs", st, node, op="write", path=path, labels=ls, df=a[1],
                 hist=o.x.get("hist", ()), how="to_csv", src=o.x.get("src"))
        return [(st, NONE)]
    if name == "truncate":
        lo = kw.get("before", _v(args[0]) if args else NONE)
        hi = kw.get("after", _v(args[1]) if len(args) > 1 else NONE)
        return [(st, derive(I, st, node, a, ls, op=("window", lo, hi)))]
    if name == "between" and o.x.get("role") == "time":
        lo, hi = _v(args[0]), _v(args[1])
        inc = kw.get("inclusive")
        if inc is None or inc.one() in (catom("both"), catom(True)):
            return [(st, newdf(I, st, node, "series", ls, "between",
                               of=o.x.get("of"),
                               mask=(("GtE", lo), ("LtE", hi))))]
    if name in ("copy", "sort_index", "sort_values", "reset_index", "set_index",
                "fillna", "ffill", "bfill", "astype", "rename", "assign",
                "dropna", "drop_duplicates", "reindex", "replace", "infer_objects",
                "convert_dtypes", "round"):
        n = derive(I, st, node, a, ls, extra=name)
        ob = st.get(n.one()[1]).copy()
        if o.kind in ("series", "index"):
            for k in ("of", "role", "shift", "mask"):
                if k in o.x and name in ("copy", "astype"):
                    ob.x[k] = o.x[k]
        if name in ("dropna", "drop_duplicates", "reindex") and o.kind == "df":
            ob.x["hist"] = ob.x["hist"] + (("drop?",),)
        st.put(n.one()[1], ob)
        return [(st, n)]
    if name in ("head", "tail", "query", "drop", "sample", "filter", "loc"):
        return [(st, derive(I, st, node, a, ls, extra=name, op=("drop?",)))]
    if name in ("unique", "tolist", "to_list", "keys", "duplicated", "get_level_values"):
        n = derive(I, st, node, a, ls, kind="index", extra=name)
        ob = st.get(n.one()[1]).copy()
        ob.x["role"] = o.x.get("role")
        if "of" in o.x:
            ob.x["of"] = o.x["of"]
        st.put(n.one()[1], ob)
        return [(st, n)]
    if name in ("apply", "map", "agg", "aggregate", "transform", "applymap", "pipe"):
        f = _v(args[0]) if args else None
        if f is not None:
            fa = f.one()
            if fa and (fa[0] in ("b",) or (fa[0] == "r" and
                                          st.get(fa[1]).kind == "func")):
                out = []
                elem = unk(T.mk("cell", aterm(a), str(I.site(node))),
                           "series" if o.kind == "df" else None, ls)
                rest = [x for x in args[1:]]
                kk = {k: v for k, v in kw.items() if k not in ("axis", "raw", "args")}
                for s, r in I.call(st, node, f, [elem], kk if name != "apply" else {}):
                    out.append((s, derive(I, s, node, a, ls | r.labels, extra=name)))
                return out
        return [(st, derive(I, st, node, a, ls, extra=name))]
    if name in ("groupby", "rolling", "resample", "expanding"):
        return [(st, unk(T.mk("mcall", name, aterm(a)), None, ls))]
    if name in ("iterrows", "itertuples", "items", "iteritems"):
        e = unk(T.mk("elem", (I.site(node), I.frame.ctx), aterm(a)),
                "namedtuple" if name == "itertuples" else None, ls)
        if name != "itertuples":
            e = tup((unk(T.mk("rowkey", aterm(a)), None, ls), e))
        return [(st, I.newlist(st, node, None, e, labels=ls))]
    if name in ("max", "min", "sum", "mean", "std", "median", "count", "nunique",
                "idxmax", "idxmin", "searchsorted", "any", "all", "prod"):
        if o.kind == "df":
            return [(st, newdf(I, st, node, "series", ls, name))]
        return [(st, unk(T.mk("mcall", name, aterm(a), *[term(_v(x)) for x in args]),
                         None, ls))]
    if name == "get":
        return df_getitem(I, st, node, a, _v(args[0]), EMPTY)
    if name == "equals":
        return [(st, unk(T.mk("mcall", name, aterm(a), *[term(_v(x)) for x in args]),
                         "bool", ls))]
    return [(st, derive(I, st, node, a, ls, extra=str(name)[:20],
                        op=("?" + str(name),) if o.kind == "df" else None))]


# ------------------------------------------------------------------ files

def file_close(I, st, node, a):
    o = st.get(a[1])
    if o.x.get("open"):
        o = o.copy()
        o.x["open"] = False
        st.put(a[1], o)
    I.record("fs", st, node, op="close", path=o.x.get("path"), oid=a[1],
             mode=o.x.get("mode"))


def file_write(I, st, node, a, labels, dfs=(), value=None):
    o = st.get(a[1])
    path = o.x.get("path")
    I.maybe_raise(st, node, "write", EMPTY, (term(path),))
    I.record("fs", st, node, op="write", path=path, labels=labels | st.pc,
             oid=a[1], how="file", open=o.x.get("open"), dfs=dfs, value=value,
             mode=o.x.get("mode"))
    o = o.copy()
    o.x["written"] = o.x.get("written", EMPTY) | labels
    st.put(a[1], o)


def do_open(I, st, node, args, kw, what="open"):
    path = _v(args[0]) if args else kw.get("file", kw.get("name", NONE))
    mode = _v(args[1]) if len(args) > 1 else kw.get("mode", const("r"))
    m = mode.one()
    m = m[2] if m and m[0] == "c" and isinstance(m[2], str) else "?"
    pa = path.one()
    if pa and pa[0] == "r" and st.get(pa[1]).kind == "file":
        path = st.get(pa[1]).x.get("path")
    w = any(c in m for c in "wax+?")
    kindlabels = path.labels
    I.maybe_raise(st, node, "open-w" if w else "open-r",
                  kindlabels | I.cfg.file_labels(I, st, path), (term(path),))
    I.record("fs", st, node, op="open-w" if w else "open-r", path=path, mode=m)
    o = Obj("file")
    o.x.update(path=path, mode=m, open=True,
               content=frozenset(I.cfg.file_labels(I, st, path)) | path.labels,
               name=path, textmode="b" not in m)
    return [(st, ref(I.alloc(st, node, o, "file"), path.labels))]


def in_loop(node, I):
    n = node
    while n is not None:
        if isinstance(n, (ast.While, ast.For, ast.Lambda, ast.ListComp,
                          ast.GeneratorExp)):
            return True
        if isinstance(n, ast.FunctionDef):
            # a helper called from a loop
            return False
        n = getattr(n, "_parent", None)
    return False


def file_method(I, st, node, a, o, name, args, kw):
    path = o.x.get("path")
    content = o.x.get("content", EMPTY)
    if name in ("read", "readline", "readlines", "readinto", "readall", "read1"):
        ls = content
        lim = _v(args[0]) if args else kw.get("size")
        whole = lim is None or lim.one() in (catom(None), catom(-1))
        if name in ("readline",) or not whole:
            if not in_loop(node, I):
                ls = ls | frozenset(["#partial"])
        I.maybe_raise(st, node, "read", content, (term(path),))
        I.record("fs", st, node, op="read", path=path, labels=ls, oid=a[1], how=name,
                 mode=o.x.get("mode"))
        if name == "readlines":
            e = unk(T.mk("elem", (I.site(node), I.frame.ctx), aterm(a)), "str", ls)
            return [(st, I.newlist(st, node, None, e, labels=ls))]
        return [(st, unk(T.mk("content", term(path), name if whole else
                              str(I.site(node))), "str", ls))]
    if name in ("write", "writelines"):
        file_write(I, st, node, a, deep_labels(I, st, _v(args[0])), value=_v(args[0]))
        return [(st, unk(T.mk("nwritten"), "int"))]
    if name == "close":
        file_close(I, st, node, a)
        return [(st, NONE)]
    if name == "flush":
        I.maybe_raise(st, node, "write", EMPTY, (term(path),))
        I.record("fs", st, node, op="flush", path=path, oid=a[1])
        return [(st, NONE)]
    if name == "fileno":
        return [(st, unk(T.mk("fileno", aterm(a)), "int"))]
    if name in ("seek", "tell", "truncate"):
        return [(st, unk(T.mk("mcall", name, aterm(a)), "int"))]
    if name in ("__enter__",):
        return [(st, V((a,)))]
    if name == "__exit__":
        file_close(I, st, node, a)
        return [(st, NONE)]
    return [(st, unk(T.mk("mcall", name, aterm(a)), None, content))]


# ---------------------------------------------------------------- strings

def fmt_cat(I, st, fmt, args, kw):
    """str.format as a concatenation of terms: (const or term, labels)"""
    parts = []
    labels = EMPTY
    auto = 0
    pure = True
    txt = ""
    try:
        fields = list(pystring.Formatter().parse(fmt))
    except ValueError:
        return None
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(T.mk("c", "str", lit))
            txt += lit
        if field is None:
            continue
        base = re.match(r"[^.\[]*", field).group()
        rest = field[len(base):]
        if base == "":
            base = str(auto)
            auto += 1
        if base.isdigit():
            if int(base) >= len(args):
                return None
            v = _v(args[int(base)])
        else:
            v = kw.get(base, kw.get("**"))
            if v is None:
                return None
        labels |= v.labels
        a = v.one()
        if rest:
            pure = False
            parts.append(T.mk("attr", term(v), rest))
        elif a and a[0] == "c" and not spec and not conv:
            txt += str(a[2])
            parts.append(T.mk("c", "str", str(a[2])))
        elif spec or conv:
            pure = False
            parts.append(T.mk("fmtspec", term(v), str(spec), str(conv)))
        else:
            pure = False
            t = term(v)
            parts += list(t.args) if t.op == "cat" else [t]
    if pure:
        return const(txt, labels)
    return unk(T.mk("cat", *merge_c(parts)), "str", labels)


def merge_c(ts):
    out = []
    for t in ts:
        if out and t.op == "c" and out[-1].op == "c" and \
                isinstance(t.args[1], str) and isinstance(out[-1].args[1], str):
            out[-1] = T.mk("c", "str", out[-1].args[1] + t.args[1])
        else:
            out.append(t)
    return out


def percent_cat(a, v):
    """'...%s...' % v as a concatenation, or None"""
    fmt = a[2]
    vs = list(v.one()[1]) if v.one() and v.one()[0] == "t" else [v]
    bits = re.split(r"(%[sd])", fmt)
    if "%" in "".join(b for b in bits if not re.match(r"^%[sd]$", b)):
        return None
    parts = []
    i = 0
    for b in bits:
        if b in ("%s", "%d"):
            if i >= len(vs):
                return None
            t = term(vs[i])
            i += 1
            if t.op == "c":
                parts.append(T.mk("c", "str", str(t.args[1])))
            else:
                parts += list(t.args) if t.op == "cat" else [t]
        elif b:
            parts.append(T.mk("c", "str", b))
    return unk(T.mk("cat", *merge_c(parts)), "str")


def str_method(I, st, node, a, name, args, kw):
    ls = EMPTY
    for v in list(args) + list(kw.values()):
        ls |= deep_labels(I, st, _v(v))
    if name == "format" and a[0] == "c":
        r = fmt_cat(I, st, a[2], args, kw)
        if r is not None:
            return [(st, r.lab(ls))]
    if name == "join":
        out = []
        for s, lv in to_list(I, st, node, _v(args[0])):
            o = s.get(lv.one()[1])
            l2 = ls | deep_labels(I, s, lv)
            if o.items is not None and o.summ is None:
                cs = [v.one() for v in o.items]
                if a[0] == "c" and all(c and c[0] == "c" and isinstance(c[2], str)
                                       for c in cs):
                    out.append((s, const(a[2].join([c[2] for c in cs]), l2)))
                    continue
                parts = []
                for i, v in enumerate(o.items):
                    if i and not (a[0] == "c" and a[2] == ""):
                        parts.append(aterm(a))
                    t = term(v)
                    parts += list(t.args) if t.op == "cat" else [t]
                out.append((s, unk(T.mk("cat", *merge_c(parts)), "str", l2)))
                continue
            e = o.summ
            out.append((s, unk(T.mk("joined", aterm(a), term(e) if e else T.mk("none")),
                               "str", l2)))
        return out
    if a[0] == "c" and name in SAFE_FOLD:
        cs = []
        for v in args:
            c = _v(v).one()
            if c is None or (c[0] != "c" and not (c[0] == "t" and all(
                    w.one() and w.one()[0] == "c" for w in c[1]))):
                cs = None
                break
            cs.append(c[2] if c[0] == "c" else tuple(w.one()[2] for w in c[1]))
        if cs is not None and not kw:
            try:
                r = getattr(a[2], name)(*cs)
            except Exception:
                I.raise_now(st.copy(), node, "ValueError", "constop")
                return []
            if isinstance(r, list):
                return [(st, I.newlist(st, node, [const(x) for x in r], labels=ls))]
            if isinstance(r, tuple):
                return [(st, tup([const(x) for x in r], ls))]
            return [(st, const(r, ls))]
    targs = [term(_v(v)) for v in args]
    if name in ("split", "rsplit", "splitlines"):
        e = unk(T.mk("elem", (I.site(node), I.frame.ctx),
                     T.mk("mcall", name, aterm(a), *targs)), "str", ls)
        return [(st, I.newlist(st, node, None, e, labels=ls))]
    if name in ("partition", "rpartition"):
        return [(st, tup([unk(T.mk("part", aterm(a), i, *targs), "str", ls)
                          for i in range(3)]))]
    kind = "str" if name in STR_TO_STR else "bool" if name in STR_TO_BOOL else \
        "int" if name in ("find", "rfind", "index", "count") else None
    if name in ("decode", "encode", "index"):
        I.maybe_raise(st, node, "str." + name, ls, (aterm(a),))
    return [(st, unk(T.mk("mcall", name, aterm(a), *targs), kind, ls))]


# ------------------------------------------------------------------ regex

def regex_info(st, rv):
    """(pattern text or None, term) of a regex value"""
    a = rv.one()
    if a is None:
        return None, term(rv)
    if a[0] == "r":
        o = st.get(a[1])
        if o.kind == "regex":
            return o.x.get("pattern"), o.x.get("t")
    if a[0] == "c" and isinstance(a[2], str):
        return a[2], aterm(a)
    return None, aterm(a)


def a_const(rv):
    a = rv.one()
    return a is not None and a[0] == "c"


def re_match(I, st, node, how, rv, sv):
    pat, t = regex_info(st, rv)
    ls = rv.labels | deep_labels(I, st, sv)
    mt = T.mk("match", how, t, term(sv))
    o = Obj("match")
    o.x["pattern"] = pat
    o.x["t"] = mt
    o.x["labels"] = ls
    o.x["subject"] = sv
    sc = sv.one()
    if isinstance(pat, str) and sc and sc[0] == "c" and isinstance(sc[2], str) and a_const(rv):
        # both are known
        try:
            m = getattr(re, how)(pat, sc[2])
        except re.error:
            m = None
        else:
            if m is None:
                return [(st, NONE.lab(ls))]
            o.x["real"] = (m.group(0),) + m.groups(), m.groupdict()
            return [(st, ref(I.alloc(st, node, o, "match")).lab(ls))]
    # known results of the same match
    oid = I.alloc(st, node, o, "match")
    res = []
    k = I.fact(st, ("T", mt))
    if k is not True:
        res.append(NONE)
    if k is not False:
        res.append(ref(oid))
    return [(st, join(*res).lab(ls))]


def group_name(pat, g):
    if isinstance(g, str):
        return g
    if pat is None:
        return None
    try:
        gi = re.compile(pat).groupindex
    except re.error:
        return None
    for n, i in gi.items():
        if i == g:
            return n
    return None


def match_method(I, st, node, a, o, name, args, kw):
    pat = o.x.get("pattern")
    mt = o.x.get("t")
    ls = o.x.get("labels", EMPTY)

    real = o.x.get("real")

    def grp(g):
        if real and g != "?":
            if isinstance(g, int) and g < len(real[0]):
                return const(real[0][g], ls)
            if g in real[1]:
                return const(real[1][g], ls)
        nm = group_name(pat, g)
        lab = ls | (frozenset(["F:" + nm]) if nm else EMPTY)
        return unk(T.mk("group", mt, nm or g if not isinstance(g, str) else g),
                   "str" if nm not in ("us",) and g == 0 else None, lab)
    if name in ("group", "__getitem__"):
        gs = []
        for v in args:
            c = _v(v).one()
            gs.append(c[2] if c and c[0] == "c" else "?")
        if not gs:
            gs = [0]
        for g in gs:
            if isinstance(g, str) and g != "?" and pat is not None:
                try:
                    if g not in re.compile(pat).groupindex:
                        I.record("noattr", st, node, obj="match", attr=g, what="group")
                        I.raise_now(st, node, "IndexError", "nogroup", ls)
                        return []
                except re.error:
                    pass
        if len(gs) == 1:
            return [(st, grp(gs[0]))]
        return [(st, tup([grp(g) for g in gs]))]
    if name == "groups":
        n = None
        if pat is not None:
            try:
                n = re.compile(pat).groups
            except re.error:
                n = None
        if n is None:
            return [(st, unk(T.mk("groups", mt), "tuple", ls))]
        return [(st, tup([grp(i + 1) for i in range(n)]))]
    if name == "groupdict":
        ents = {}
        if pat is not None:
            for g in re.compile(pat).groupindex:
                ents[catom(g)] = grp(g)
            return [(st, I.newdict(st, node, ents))]
        return [(st, unk(T.mk("groupdict", mt), "dict", ls))]
    if name in ("start", "end", "span"):
        return [(st, unk(T.mk("mcall", name, mt, *[term(_v(v)) for v in args]),
                         "int", ls))]
    return [(st, unk(T.mk("mcall", name, mt), None, ls))]


def regex_method(I, st, node, rv, name, args, kw):
    if name in ("match", "search", "fullmatch"):
        return re_match(I, st, node, name, rv, _v(args[0]))
    ls = rv.labels
    for v in args:
        ls |= deep_labels(I, st, _v(v))
    pat, t = regex_info(st, rv)
    if name in ("sub", "subn"):
        f = _v(args[0])
        fa = f.one()
        if fa and (fa[0] == "b" or (fa[0] == "r" and st.get(fa[1]).kind == "func")):
            m = Obj("match")
            m.x.update(pattern=pat, t=T.mk("match", "sub", t, term(_v(args[1]))), labels=ls)
            mo = ref(I.alloc(st, node, m, "submatch"))
            res = I.call(st, node, f, [mo], {})
            return [(s, unk(T.mk("resub", t, term(r), term(_v(args[1]))), "str",
                            ls | r.labels)) for s, r in res]
        return [(st, unk(T.mk("resub", t, *[term(_v(v)) for v in args]), "str", ls))]
    if name in ("findall", "split", "finditer"):
        e = unk(T.mk("elem", (I.site(node), I.frame.ctx),
                     T.mk(name, t, *[term(_v(v)) for v in args])),
                None if name != "finditer" else None, ls)
        if name == "finditer":
            m = Obj("match")
            m.x.update(pattern=pat, t=term(e), labels=ls)
            e = ref(I.alloc(st, node, m, "itermatch"))
        return [(st, I.newlist(st, node, None, e, labels=ls))]
    return [(st, unk(T.mk("mcall", name, t), None, ls))]


# ---------------------------------------------------------------- attributes

BUILTIN_MODS = ("builtins", "future.builtins", "past.builtins", "__builtin__",
                "past", "future.utils", "six")
ALIASES = {"basestring": "str", "unicode": "str", "io.open": "open",
           "codecs.open": "open"}


def ext_import(mod, name):
    if mod in BUILTIN_MODS:
        return ext("builtins." + name)
    return canon(mod + "." + name)


def canon(d):
    for p in ("future.builtins.", "past.builtins."):
        if d.startswith(p):
            d = "builtins." + d[len(p):]
    if d == "io.open" or d == "codecs.open":
        d = "builtins.open"
    d = {"pd": "pandas"}.get(d, d)
    if d in ("math.inf", "numpy.inf"):
        return const(float("inf"))
    if d == "os.sep":
        return const("/")
    if d == "os.linesep":
        return const("\n")
    if d in ("re.I", "re.IGNORECASE", "re.M", "re.S", "re.DOTALL", "re.VERBOSE",
             "re.X", "re.MULTILINE"):
        return ext(d)
    return ext(d)


def ext_attr(I, dotted, name):
    name = str(name)
    if name == "__name__":
        return const(dotted.split(".")[-1])
    if dotted == "sys" and name == "modules":
        return unk(T.mk("x", "sys.modules"), "dict")
    return canon(dotted + "." + name)


DFATTRS = {"data_frame"}


def unk_attr(I, st, node, a, name):
    t = T.mk("attr", a[2], name if isinstance(name, (str, T)) else str(name))
    kind = None
    if I.cfg.symbolic:
        I.term_site.setdefault(t, I.where(node))
    if name == "data_frame":
        kind = "df"
    elif a[1] == "df" and name == "index":
        kind = "index"
    elif a[1] in ("df", "series", "index"):
        if name == "loc" or name in ("iloc", "at", "iat") and not I.cfg.symbolic:
            return V((("loc", a),))
        if name == "empty":
            return unk(T.mk("not", T.mk("len", a[2])), "bool")
        if name == "values":
            kind = "series"
        elif name in ("columns",):
            kind = "index"
        elif name in ("T",):
            kind = "df"
        elif name in ("name", "shape", "dtype", "size", "dtypes", "names", "str"):
            kind = None
        else:
            return V((("bx", a, name),))
    elif a[1] in ("str", "list", "dict", "set", "int", "float", "bool", "file",
                  "tuple"):
        return V((("bx", a, name),))
    elif name in MUTATORS | STR_TO_STR | STR_TO_BOOL | {"split", "get", "items",
                                                       "keys", "values", "group"}:
        return V((("bx", a, name),))
    return unk(t, kind)


def unk_item(I, st, node, a, k):
    t = T.mk("item", aterm(a), key_t(k, I, st))
    kind = None
    if I.cfg.symbolic:
        I.term_site.setdefault(t, I.where(node))
    ka = k.one()
    ls = EMPTY
    if I.cfg.symbolic and a[0] == "u" and a[1] == "df" and ka and ka[0] in "cu" and \
            I.cfg.hascol(I, st, aterm(ka), a[2]) is False:
        I.raise_now(st, node, "KeyError", "column", EMPTY)
        return None
    if I.cfg.symbolic and a[0] == "u" and a[1] == "df" and ka and ka[0] == "r" and \
            st.get(ka[1]).kind == "list":
        return unk(t, "df")
    if a[0] == "u":
        if a[1] == "str":
            kind = "str"
            if ka and ka[0] == "sl":
                if I.cfg.soft("partial"):
                    ls = frozenset(["#partial"])
        elif a[1] == "df":
            if ka and ka[0] == "sl":
                kind = "df"
            elif ka and ka[0] == "u" and ka[1] in ("series", "df"):
                return unk(T.mk("item", aterm(a), T.mk("mask", ka[2])), "df")
            elif ka and ka[0] == "r" and st.get(ka[1]).kind in ("series", "list", "df", "index"):
                return unk(T.mk("item", aterm(a), T.mk("mask", aterm(ka))), "df")
            else:
                kind = "series"
        elif a[1] in ("series", "index"):
            if ka and ka[0] == "sl":
                kind = a[1]
            elif ka and ka[0] == "u" and ka[1] in ("series", "df"):
                return unk(T.mk("item", aterm(a), T.mk("mask", ka[2])), "series")
        elif a[1] == "list" and ka and ka[0] == "sl":
            kind = "list"
    elif a[0] == "c" and isinstance(a[2], str):
        kind = "str"
        if ka and ka[0] == "c":
            try:
                return const(a[2][ka[2]])
            except Exception:
                pass
        if ka and ka[0] == "sl":
            cs = [x.one() for x in ka[1:]]
            if all(c and c[0] == "c" for c in cs):
                return const(a[2][slice(*[c[2] for c in cs])])
    return unk(t, kind, ls)


# ------------------------------------------------------------------- calls

def call_obj(I, st, node, f, o, args, kw):
    if o.kind == "ext" or o.kind == "inst":
        return ext_result(I, st, node, o.x.get("dotted", "obj") + "()", args, kw,
                          extra=(aterm(f),))
    return call_unk(I, st, node, ("u", None, T.mk("ref", f[1])), args, kw)


def invoke_callbacks(I, st, node, args, kw):
    """functions given to the library may be called with anything"""
    cur = [st]
    for v in [_v(x) for x in args] + list(kw.values()):
        fa = v.one()
        if fa and (fa[0] == "b" or (fa[0] == "r" and st.has(fa[1]) and
                                    st.get(fa[1]).kind == "func")):
            nxt = []
            for s in cur:
                fo = s.get(fa[2][1] if fa[0] == "b" and fa[2][0] == "r" else
                           fa[1]) if fa[0] == "r" or fa[2][0] == "r" else None
                if fo is None or fo.kind != "func":
                    nxt.append(s)
                    continue
                n = fo.x["node"].args
                need = len(n.posonlyargs + n.args) - len(n.defaults)
                if fa[0] == "b":
                    need -= 1
                a2 = [unk(T.mk("cbarg", str(I.site(node)), i)) for i in range(max(need, 0))]
                res = I.call(s, node, v, a2, {})
                nxt += [x for x, _ in res] or []
            cur = I.reduce(nxt) if nxt else cur
    return cur


PARSE_ACTIONS = ("setParseAction", "addParseAction", "set_parse_action", "add_parse_action")


def run_parse_actions(I, st, node, a, name, args, kw):
    """parsing calls the actions of the grammar, any number of times in any order"""
    acts = list(I.parse_actions)
    res = {}
    if I.cfg.parse_once:
        for f in acts:
            if any(x[0] == "b" and x[1][0] == "r" and not st.has(x[1][1]) for x in f.atoms):
                continue
            toks = unk(T.mk("call", "pyparsing.tokens", str(I.site(node))))
            for s2, v in I.call_callback(st.copy(), node, f, toks):
                I.record("parsed", s2, node, value=v, state=s2)
        return ext_result(I, st, node, "." + name, args, kw, None, (a[2],))

    def step(h):
        out = []
        for f in acts:
            if any(x[0] == "b" and x[1][0] == "r" and not h.has(x[1][1]) for x in f.atoms):
                continue
            s = h.copy()
            toks = unk(T.mk("call", "pyparsing.tokens", str(I.site(node))))
            for s2, v in I.call_callback(s, node, f, toks):
                out.append(s2)
                res.setdefault(v, v)
        return out
    out = []
    for s in I.fixpoint(node, [st], step, None):
        out += ext_result(I, s, node, "." + name, args, kw, None, (a[2],))
    return out


def ext_result(I, st, node, dotted, args, kw, kind=None, extra=()):
    """result of a pure library function"""
    ls = EMPTY
    for v in list(args) + list(kw.values()):
        ls |= deep_labels(I, st, _v(v))
    ts = [tm(I, st, _v(v)) for v in args] + \
        [T.mk("kw", k, tm(I, st, v)) for k, v in sorted(kw.items())]
    out = []
    for s in invoke_callbacks(I, st, node, args, kw):
        out.append((s, unk(T.mk("call", dotted, *(list(extra) + ts)), kind, ls)))
    return out


PARSING = ("parseString", "parse_string", "searchString", "search_string", "scanString",
           "scan_string", "transformString", "transform_string", "parseFile", "parse_file")


def call_unk(I, st, node, a, args, kw):
    if a[2].op == "attr" and len(a[2].args) > 1:
        name = a[2].args[1]
        if name in PARSE_ACTIONS:
            # pyparsing: called when something is parsed
            I.parse_targets += [(a[2].args[0], _v(v)) for v in args]
            I.parse_actions += [_v(v) for v in args if _v(v) not in I.parse_actions]
            return [(st, unk(a[2].args[0], None, labels_of(args, kw)))]
        if name in PARSING and I.parse_actions:
            return run_parse_actions(I, st, node, a, name, args, kw)
    return ext_result(I, st, node, "?", args, kw, extra=(a[2],))


def call_method(I, st, node, a, name, args, kw):
    tag = a[0]
    ls = labels_of(args, kw)
    if tag == "bx":
        # a method of an accessor: s.str.contains(...), df.plot.hist
        inner = a[1]
        L = atom_labels(I, st, inner, set(), 0)
        k = None
        if a[2] in ("str",):
            k = "series"
        return [(s, v.lab(L)) for s, v in
                ext_result(I, st, node, "%s.%s" % (a[2], name), args, kw, k,
                           (aterm(inner),))]
    if tag == "loc":
        return ext_result(I, st, node, "loc." + str(name), args, kw)
    if tag == "x":
        if isinstance(name, str) and name.startswith("super:"):
            n = name[6:]
            return ext_result(I, st, node, a[1] + "." + n, args, kw)
        return call_ext(I, st, node, a[1] + "." + str(name), args, kw)
    if tag == "c":
        if isinstance(a[2], (str, bytes)):
            return str_method(I, st, node, a, name, args, kw)
        if isinstance(a[2], float) and name == "is_integer":
            return [(st, const(a[2].is_integer()))]
        return ext_result(I, st, node, "const." + str(name), args, kw, None, (aterm(a),))
    if tag == "t":
        if name == "index":
            return [(st, unk(T.mk("mcall", name, aterm(a), *[term(_v(v)) for v in args]),
                             "int", ls))]
        return ext_result(I, st, node, "tuple." + str(name), args, kw, None, (aterm(a),))
    if tag == "u":
        return unk_method(I, st, node, a, name, args, kw)
    if tag != "r":
        return ext_result(I, st, node, str(name), args, kw)
    o = st.get(a[1])
    k = o.kind
    if o.x.get("lazy") and name in ("__next__", "next"):
        return do_next(I, st, node, V((a,)), None)
    if k in ("list",):
        return list_method(I, st, node, a, o, name, args, kw)
    if k == "dict":
        return dict_method(I, st, node, a, o, name, args, kw)
    if k == "set":
        return set_method(I, st, node, a, o, name, args, kw)
    if k in ("df", "series", "index"):
        return df_method(I, st, node, a, name, args, kw)
    if k == "file":
        return file_method(I, st, node, a, o, name, args, kw)
    if k == "match":
        return match_method(I, st, node, a, o, name, args, kw)
    if k == "regex":
        return regex_method(I, st, node, V((a,)), name, args, kw)
    if k == "hash":
        if name == "update":
            ob = o.copy()
            ob.x["labels"] = ob.x.get("labels", EMPTY) | deep_labels(I, st, _v(args[0])) | st.pc
            st.put(a[1], ob)
            return [(st, NONE)]
        if name in ("hexdigest", "digest"):
            return [(st, unk(T.mk("digest", T.mk("ref", a[1])), "str",
                             o.x.get("labels", EMPTY)))]
        if name == "copy":
            return [(st, ref(I.alloc(st, node, o.copy(), "hashcopy"), EMPTY))]
    if k == "class":
        if name == "__subclasses__":
            return ext_result(I, st, node, "subclasses", args, kw, "list")
        if name == "mro":
            return [(st, I.newlist(st, node, [V((c,)) for c in o.x["mro"]]))]
    if k == "inst":
        return inst_method(I, st, node, a, o, name, args, kw)
    if k == "ext":
        return extobj_method(I, st, node, a, o, name, args, kw)
    if k in ("iter", "gen"):
        if name in ("__next__", "next", "send"):
            return do_next(I, st, node, V((a,)), None)
        return [(st, NONE)]
    if k == "func" and name in ("__get__",):
        return [(st, V((a,)))]
    return ext_result(I, st, node, "%s.%s" % (k, name), args, kw, None, (aterm(a),))


def inst_method(I, st, node, a, o, name, args, kw):
    if name in ("__init__", "__setattr__", "__delattr__"):
        if name == "__setattr__" and len(args) == 2:
            c = _v(args[0]).one()
            if c and c[0] == "c":
                ob = st.get(a[1]).copy()
                ob.attrs[c[2]] = _v(args[1])
                st.put(a[1], ob)
        return [(st, NONE)]
    if name == "__getattribute__":
        c = _v(args[0]).one()
        if c and c[0] == "c":
            v = o.attrs.get(c[2])
            if v is not None:
                return [(st, v)]
            p = I.class_attr(st, o.cls, c[2])
            if p is not None:
                return I.bind(node, st, p, a, o.cls)
            cn = st.get(o.cls[1]).cls if o.cls[0] == "r" else o.cls[1]
            if "*" in o.attrs:
                return [(st, o.attrs["*"])]
            I.record("noattr", st, node, obj=cn, attr=c[2], what="inst")
        I.raise_now(st, node, "AttributeError", "noattr", o.x.get("labels", EMPTY))
        return []
    if name in ("__repr__", "__str__", "__format__"):
        return [(st, unk(T.mk("str", aterm(a)), "str"))]
    if name == "__new__":
        return [(st, V((a,)))]
    return ext_result(I, st, node, "inst." + str(name), args, kw, None, (aterm(a),))


def extobj_method(I, st, node, a, o, name, args, kw):
    d = o.x.get("dotted", "")
    h = EXTOBJ.get((d, name)) or EXTOBJ.get((d, "*"))
    if h:
        return h(I, st, node, a, o, name, args, kw)
    return ext_result(I, st, node, d + "." + str(name), args, kw, None, (aterm(a),))


EXTOBJ = {}
ARRAYS = {"numpy." + x for x in (
    "ones", "zeros", "full", "ones_like", "zeros_like", "full_like", "logical_and", "logical_or", "logical_not",
    "isin", "in1d", "isnan", "isfinite")}


def symbolic_method(I, st, node, a, name, args, kw):
    if name in ("apply", "map", "transform", "applymap") and args:
        f = _v(args[0])
        fa = f.one()
        if fa and (fa[0] == "b" or fa[0] == "r" and st.has(fa[1]) and st.get(fa[1]).kind in ("func", "partial")):
            out = []
            cell = unk(T.mk("cell", a[2]), None)
            for s, r in I.call(st, node, f, [cell], {}):
                out.append((s, r))
            if len(out) > 1:
                # a function with several results
                r = T.mk("join", *sorted((snap(I, s, r) for s, r in out), key=lambda t: (t._h, repr(t))))
                return [(s, unk(T.mk("mapped", a[2], r), "series")) for s, _ in out[:1]]
            return [(s, unk(T.mk("mapped", a[2], snap(I, s, r)), "series")) for s, r in out]
        return [(st, unk(T.mk("mapped", a[2], T.mk("call", "?", tm(I, st, f), T.mk("cell", a[2]))), "series"))]


def unk_method(I, st, node, a, name, args, kw):
    k = a[1]
    ls = EMPTY
    for v in list(args) + list(kw.values()):
        ls |= deep_labels(I, st, _v(v))
    if k == "str":
        return str_method(I, st, node, a, name, args, kw)
    if k in ("df", "series", "index"):
        inplace = kw.get("inplace")
        t = T.mk("mcall", str(name), a[2], *[tm(I, st, _v(v)) for v in args])
        if I.cfg.symbolic:
            r = symbolic_method(I, st, node, a, name, args, kw)
            if r is not None:
                return r
            t = T.mk("mcall", str(name), a[2], *([tm(I, st, _v(v)) for v in args] + [
                T.mk("kw", k, tm(I, st, v)) for k, v in sorted(kw.items())]))
            I.term_site.setdefault(t, I.where(node))
            I.record("mcall", st, node, name=name, term=t)
        if name in DF_INPLACE_ALWAYS or (inplace is not None and
                                         inplace.one() != FALSE.one()):
            I.mutate(st, a, "%s(inplace)" % name, node)
            return [(st, NONE)]
        if name in ("to_csv",):
            path = _v(args[0]) if args else kw.get("path_or_buf", NONE)
            I.maybe_raise(st, node, "to_csv", path.labels, (term(path),))
            I.record("fs", st, node, op="write", path=path, labels=ls, how="to_csv")
            return [(st, NONE)]
        kind = None
        if name in ("copy", "sort_index", "sort_values", "reset_index", "set_index",
                    "fillna", "ffill", "bfill", "reindex", "dropna", "astype",
                    "rename", "round", "diff", "shift", "cumsum", "apply", "map",
                    "drop", "head", "tail", "isin", "abs", "join", "append", "where",
                    "groupby", "drop_duplicates"):
            kind = k if name != "groupby" else None
        elif name in ("unique", "tolist"):
            kind = "list"
        elif name in ("duplicated",):
            kind = "series"
        elif I.cfg.symbolic and name in ("between", "eq", "ne", "lt", "le", "gt", "ge", "notnull", "isnull",
                                         "notna", "isna", "clip", "ffill", "pad", "backfill", "interpolate"):
            kind = "series" if k == "index" else k
        elif I.cfg.symbolic and name in ("to_series", "duplicated"):
            kind = "series"
        elif I.cfg.symbolic and name in ("truncate", "query", "sample", "nlargest", "nsmallest", "swaplevel",
                                         "add", "sub", "mul", "mask", "union", "sort_values", "filter"):
            kind = k
        elif name in ("iterrows", "itertuples", "items", "iteritems"):
            e = unk(T.mk("elem", (I.site(node), I.frame.ctx), a[2]), None, ls)
            if name != "itertuples":
                e = tup((unk(T.mk("rowkey", a[2]), None, ls), e))
            return [(st, I.newlist(st, node, None, e, labels=ls))]
        out = []
        for s in invoke_callbacks(I, st, node, args, kw):
            out.append((s, unk(t, kind, ls)))
        return out
    if k == "match":
        t = T.mk("group", a[2], *[term(_v(v)) for v in args])
        return [(st, unk(t, None, ls))]
    if name in MUTATORS:
        I.mutate(st, a, "." + name, node, _v(args[0]) if args else None)
        if name in ("append", "extend", "insert", "remove", "sort", "reverse",
                    "clear", "update", "add", "discard", "appendleft"):
            return [(st, NONE)]
    elif kw.get("inplace") is not None and kw["inplace"].one() != FALSE.one():
        I.mutate(st, a, "%s(inplace)" % name, node)
        return [(st, NONE)]
    if name in ("items", "iteritems"):
        e = tup((unk(T.mk("keyof", a[2]), None, ls), unk(T.mk("valueof", a[2]), None, ls)))
        return [(st, I.newlist(st, node, None, e, labels=ls))]
    if name in ("keys",):
        return [(st, I.newlist(st, node, None, unk(T.mk("keyof", a[2]), None, ls)))]
    if name == "values" and not args:
        return [(st, I.newlist(st, node, None, unk(T.mk("valueof", a[2]), None, ls)))]
    if name in ("get", "pop", "setdefault") and args:
        I.maybe_raise(st, node, "umethod", ls, (a[2], name))
        r = unk(T.mk("item", a[2], term(_v(args[0]))), None, ls)
        if len(args) > 1:
            r = join(r, _v(args[1]))
        elif name == "get":
            r = join(r, NONE)
        return [(st, r)]
    if name == "copy":
        return [(st, unk(T.mk("mcall", "copy", a[2]), k, ls))]
    I.maybe_raise(st, node, "umethod", ls, (a[2], name))
    kind = "str" if name in STR_TO_STR else "bool" if name in STR_TO_BOOL else None
    if name in ("split", "rsplit"):
        e = unk(T.mk("elem", (I.site(node), I.frame.ctx), a[2]), "str", ls)
        return [(st, I.newlist(st, node, None, e, labels=ls))]
    return ext_result(I, st, node, "." + str(name), args, kw, kind, (a[2],))


def known(I, st, v):
    """what a value is compared by: a constant, a tuple of such, an object that's only equal to itself"""
    a = v.one()
    if a is None:
        return None
    if a[0] in ("c", "x"):
        return a
    if a[0] == "t":
        xs = [known(I, st, x) for x in a[1]]
        return None if None in xs else ("t", tuple(xs))
    if a[0] == "r":
        o = st.get(a[1])
        if o.kind in ("class", "func", "module"):
            return a
        if o.kind == "inst" and o.cls is not None and o.cls[0] == "r" and \
                I.class_attr(st, o.cls, "__eq__") is None:
            return a
    return None


def list_method(I, st, node, a, o, name, args, kw):
    ls = labels_of(args, kw)
    av = [_v(v) for v in args]
    if name == "append":
        I.mutate(st, a, "append", node, av[0])
        I.record("append", st, node, list=a[1], value=av[0], state=st)
        append_item(I, st, a[1], av[0])
        return [(st, NONE)]
    if name == "extend":
        return [(s, NONE) for s, _ in list_extend(I, st, node, a, av[0])]
    if name in ("insert", "appendleft"):
        I.mutate(st, a, name, node, av[-1])
        I.record("append", st, node, list=a[1], value=av[-1], state=st)
        ob = st.get(a[1]).copy()
        c = av[0].one()
        v = av[-1].lab(st.pc)
        if ob.items is not None and ob.summ is None and (
                name == "appendleft" or (c and c[0] == "c")):
            ob.items.insert(0 if name == "appendleft" else c[2], v)
        else:
            ob.summ = join(ob.summ, v, *(ob.items or []))
            ob.items = None
        if isinstance(ob.n, int):
            ob.n += 1
        touch(st, a[1])
        st.put(a[1], ob)
        return [(st, NONE)]
    if name == "pop":
        I.mutate(st, a, "pop", node)
        ob = st.get(a[1]).copy()
        c = av[0].one() if av else catom(-1)
        touch(st, a[1])
        if ob.items is not None and ob.summ is None and c and c[0] == "c":
            try:
                v = ob.items.pop(c[2])
            except IndexError:
                I.raise_now(st, node, "IndexError", "pop", ls)
                return []
            st.put(a[1], ob)
            return [(st, v)]
        e = join(*(list(ob.items or ()) + ([ob.summ] if ob.summ else [])))
        ob.summ = e
        ob.items = None
        st.put(a[1], ob)
        I.maybe_raise(st, node, "list.pop", ls, (aterm(a),))
        return [(st, e)] if e is not None else []
    if name in ("remove",):
        I.mutate(st, a, name, node, av[0])
        ob = st.get(a[1]).copy()
        touch(st, a[1])
        if ob.items is not None:
            for i, v in enumerate(ob.items):
                if v.one() is not None and v.one() == av[0].one() and v.one()[0] != "u":
                    del ob.items[i]
                    break
            else:
                ob.summ = join(ob.summ, *ob.items) if ob.items else ob.summ
                ob.items = None if ob.summ is not None else ob.items
        st.put(a[1], ob)
        I.maybe_raise(st, node, "list.remove", ls, (aterm(a),))
        return [(st, NONE)]
    if name in ("sort", "reverse"):
        I.mutate(st, a, name, node)
        ob = st.get(a[1]).copy()
        if name == "sort":
            ob.summ = join(*(list(ob.items or ()) + ([ob.summ] if ob.summ else [])))
            if ob.items:
                if len(ob.items) > 1:
                    ob.items = None
                else:
                    ob.summ = None
            elif ob.items is not None:
                ob.summ = None
            if ob.summ is not None:
                ob.summ = strip_order(ob.summ)
            ob.x["lenlabels"] = ob.x.get("lenlabels", EMPTY) - SETORDER
        elif ob.items is not None:
            ob.items = ob.items[::-1]
        st.put(a[1], ob)
        return [(st, NONE)]
    if name == "clear":
        I.mutate(st, a, name, node)
        ob = st.get(a[1]).copy()
        ob.items = []
        ob.summ = None
        touch(st, a[1])
        st.put(a[1], ob)
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.newlist(st, node, o.items, o.summ, extra="copy"))]
    if name in ("index", "count"):
        if name == "index" and o.items is not None and o.summ is None:
            x = known(I, st, av[0])
            if x is not None and (x[0] != "r" or all(
                    v.one() is not None and v.one()[0] in ("r", "c", "x") for v in o.items)):
                for i, v in enumerate(o.items):
                    y = known(I, st, v)
                    if y is None:
                        break
                    if x == y:
                        return [(st, const(i))]
        I.maybe_raise(st, node, "list." + name, ls, (aterm(a),))
        return [(st, unk(T.mk("mcall", name, aterm(a), *[term(v) for v in av]), "int",
                         deep_labels(I, st, V((a,))) | ls))]
    if name in ("__len__",):
        return do_len(I, st, node, V((a,)))
    if name in ("__contains__",):
        return I.compare(node, st, "In", av[0], V((a,)))
    if name in ("__getitem__",):
        return I.load_item(node, st, V((a,)), av[0])
    return ext_result(I, st, node, "list." + str(name), args, kw, None, (aterm(a),))


def strip_order(v):
    if v is not None and "@SETORDER" in v.labels:
        return V(v.atoms, v.labels - SETORDER)
    return v


def dict_method(I, st, node, a, o, name, args, kw):
    out = dict_method1(I, st, node, a, o, name, args, kw)
    if name in ("items", "keys", "values"):
        for s, v in out:
            # a view: iterating it while the dict's size changes is an error
            r = v.one()
            if r and r[0] == "r" and s.has(r[1]):
                n = s.get(r[1]).copy()
                n.x = dict(n.x)
                n.x["view"] = a
                s.put(r[1], n)
    return out


def dict_method1(I, st, node, a, o, name, args, kw):
    ls = labels_of(args, kw)
    av = [_v(v) for v in args]
    if name in ("items", "iteritems", "viewitems"):
        if o.summ is None and o.ksumm is None:
            return [(st, I.newlist(st, node, [tup((V((k,)), v)) for k, v in
                                              o.entries.items()]))]
        ks = join(*([V((k,)) for k in (o.entries or {})] + ([o.ksumm] if o.ksumm else [])))
        vs = join(*(list((o.entries or {}).values()) + ([o.summ] if o.summ else [])))
        return [(st, I.newlist(st, node, None, tup((ks, vs)) if vs is not None else None))]
    if name in ("keys", "iterkeys"):
        if o.summ is None and o.ksumm is None:
            return [(st, I.newlist(st, node, [V((k,)) for k in o.entries]))]
        ks = join(*([V((k,)) for k in (o.entries or {})] + ([o.ksumm] if o.ksumm else [])))
        return [(st, I.newlist(st, node, None, ks))]
    if name in ("values", "itervalues"):
        if o.summ is None:
            return [(st, I.newlist(st, node, list(o.entries.values())))]
        vs = join(*(list((o.entries or {}).values()) + [o.summ]))
        return [(st, I.newlist(st, node, None, vs))]
    if name in ("get", "pop", "setdefault"):
        k = av[0]
        d = av[1] if len(av) > 1 else kw.get("default")
        if name != "get":
            I.mutate(st, a, name, node, d, key=k)
        has = None
        ka = k.one()
        kk = known(I, st, k)
        if kk is not None and ka not in (o.entries or {}) and o.summ is None:
            others = {known(I, st, V((x,))): x for x in o.entries or {}}
            if kk in others:
                ka = others[kk]
                k = V((ka,), k.labels)
            elif None not in others and (kk[0] in ("x", "t")):
                has = False
        if has is False:
            pass
        elif ka is not None and ka in (o.entries or {}) and not o.x.get("maybe"):
            has = True
        elif ka is not None and o.summ is None and ka not in (o.entries or {}) and \
                (ka[0] == "c" and all(x[0] == "c" for x in o.entries)):
            has = False
        if has is False or (ka is not None and not o.entries and o.summ is None):
            if d is None and name == "pop":
                I.raise_now(st, node, "KeyError", "nokey", ls)
                return []
            r = d if d is not None else NONE
            if name == "setdefault":
                ob = st.get(a[1]).copy()
                if ka is not None:
                    ob.entries[ka] = r
                st.put(a[1], ob)
            return [(st, r.lab(k.labels))]
        vs = []
        for x in k.atoms:
            if x in (o.entries or {}):
                vs.append(o.entries[x])
        if has is not True:
            if not vs:
                vs = list((o.entries or {}).values())
            if o.summ is not None:
                vs.append(o.summ)
            if name == "get" or d is not None:
                vs.append(d if d is not None else NONE)
            elif name == "pop":
                I.raise_now(st.copy(), node, "KeyError", "maybekey", ls)
        if name == "pop":
            ob = st.get(a[1]).copy()
            if ka in ob.entries:
                del ob.entries[ka]
            st.put(a[1], ob)
        elif name == "setdefault" and has is not True:
            ob = st.get(a[1]).copy()
            ob.summ = join(ob.summ, d or NONE)
            ob.ksumm = join(ob.ksumm, k)
            st.put(a[1], ob)
        return [(st, join(*vs).lab(k.labels))]
    if name == "update":
        I.mutate(st, a, "update", node, av[0] if av else None)
        cur = [st]
        for k, v in kw.items():
            for s in cur:
                ob = s.get(a[1]).copy()
                if k == "**":
                    ob.summ = join(ob.summ, v)
                else:
                    ob.entries[catom(k)] = v.lab(s.pc)
                s.put(a[1], ob)
        for v in av:
            for va in v.atoms:
                for s in cur:
                    ob = s.get(a[1]).copy()
                    may = len(v.atoms) > 1
                    if va[0] == "r" and s.get(va[1]).kind == "dict":
                        src = s.get(va[1])
                        for kk, vv in (src.entries or {}).items():
                            vv = vv.lab(v.labels | s.pc)
                            if (src.x.get("maybe") or may) and kk in ob.entries:
                                vv = join(ob.entries[kk], vv)
                            ob.entries[kk] = vv
                        if src.summ is not None:
                            w = src.summ.lab(v.labels | s.pc)
                            ob.summ = join(ob.summ, w)
                            ob.ksumm = join(ob.ksumm, src.ksumm)
                            over_unknown(ob, src.ksumm, w)
                    else:
                        w = unk(T.mk("valueof", aterm(va)), None, v.labels | s.pc)
                        ks = unk(T.mk("keyof", aterm(va)), None, v.labels)
                        ob.summ = join(ob.summ, w)
                        ob.ksumm = join(ob.ksumm, ks)
                        over_unknown(ob, ks, w)
                    s.put(a[1], ob)
        return [(s, NONE) for s in cur]
    if name == "copy":
        return [(st, I.newdict(st, node, o.entries, o.summ, o.ksumm, extra="copy"))]
    if name == "clear":
        I.mutate(st, a, "clear", node)
        ob = st.get(a[1]).copy()
        ob.entries = {}
        ob.summ = ob.ksumm = None
        st.put(a[1], ob)
        return [(st, NONE)]
    if name in ("has_key", "__contains__"):
        return I.compare(node, st, "In", av[0], V((a,)))
    if name == "__getitem__":
        return I.load_item(node, st, V((a,)), av[0])
    if name == "popitem":
        I.mutate(st, a, "popitem", node)
    return ext_result(I, st, node, "dict." + str(name), args, kw, None, (aterm(a),))


def over_unknown(ob, keys, v):
    """an update with unknown keys may overwrite entries (recorded only)"""
    ob.x["overwritten"] = True


def set_method(I, st, node, a, o, name, args, kw):
    av = [_v(v) for v in args]
    if name in ("add",):
        I.mutate(st, a, name, node, av[0])
        ob = st.get(a[1]).copy()
        v = av[0].lab(st.pc)
        if ob.items is not None and ob.summ is None:
            if not any(x.atoms == v.atoms and x.one() and x.one()[0] == "c" for x in ob.items):
                ob.items.append(v)
        else:
            ob.summ = join(ob.summ, v)
        touch(st, a[1])
        st.put(a[1], ob)
        return [(st, NONE)]
    if name in ("update", "discard", "remove", "clear", "pop", "difference_update",
                "intersection_update"):
        I.mutate(st, a, name, node, av[0] if av else None)
        if name == "update":
            for v in av:
                I.set_join(st, a[1], v)
        elif name == "pop":
            ob = st.get(a[1])
            e = join(*(list(ob.items or ()) + ([ob.summ] if ob.summ else [])))
            return [(st, e.lab(SETORDER))] if e is not None else []
        return [(st, NONE)]
    if name in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        n = I.newlist(st, node, None, None, kind="set", extra=name)
        I.set_join(st, n.one()[1], V((a,)))
        for v in av:
            I.set_join(st, n.one()[1], v)
        return [(st, n)]
    return ext_result(I, st, node, "set." + str(name), args, kw, None, (aterm(a),))


def do_len(I, st, node, v):
    out = []
    for a in v.atoms:
        if a[0] == "t":
            out.append(const(len(a[1])))
        elif a[0] == "c":
            try:
                out.append(const(len(a[2])))
            except TypeError:
                I.raise_now(st.copy(), node, "TypeError", "len", v.labels)
        elif a[0] == "r":
            o = st.get(a[1])
            if o.kind in ("list", "set") and o.items is not None and o.summ is None:
                out.append(const(len(o.items), o.x.get("lenlabels", EMPTY)))
            elif o.kind == "dict" and o.summ is None and o.entries is not None and \
                    not o.x.get("maybe"):
                out.append(const(len(o.entries)))
            elif o.kind == "inst" and I.class_attr(st, o.cls, "__len__"):
                r = []
                for f in I.class_attr(st, o.cls, "__len__").atoms:
                    r += I.call_atom(st, node, ("b", a, f), [], {})
                return r
            else:
                out.append(unk(T.mk("len", aterm(a)), "int",
                               o.x.get("lenlabels", EMPTY) | o.x.get("labels", EMPTY)))
        else:
            out.append(unk(T.mk("len", aterm(a)), "int"))
            I.maybe_raise(st, node, "len", v.labels, (aterm(a),))
    if not out:
        return []
    ls = V(EMPTY, v.labels).labels - SETORDER
    return [(st, V(join(*out).atoms, (join(*out).labels | ls) - SETORDER))]


def do_next(I, st, node, v, default):
    out = []
    for a in v.atoms:
        s = st.copy() if len(v.atoms) > 1 else st
        if a[0] == "r" and s.get(a[1]).kind == "gen":
            for s2, lv in to_list(I, s, node, V((a,), v.labels)):
                lo = s2.get(lv.one()[1])
                vs = list(lo.items or ()) + ([lo.summ] if lo.summ else [])
                e = join(*vs)
                if e is not None:
                    out.append((s2, join(e, default) if default is not None else e))
                elif default is not None:
                    out.append((s2, default))
            if default is None:
                I.maybe_raise(s, node, "next", v.labels, (aterm(a),))
            continue
        if a[0] == "r" and s.get(a[1]).x.get("genexp") and \
                s.get(a[1]).items is not None and s.get(a[1]).summ is None:
            # the elements of a generator expression are taken one by one
            o = s.get(a[1])
            ls = v.labels | frozenset(o.x.get("lenlabels", EMPTY))
            if o.items:
                e = o.items[0]
                o = o.copy()
                o.items = o.items[1:]
                s.put(a[1], o)
                out.append((s, e.lab(ls)))
            elif default is not None:
                out.append((s, default.lab(ls)))
            else:
                I.raise_now(s.copy(), node, "StopIteration", "next", ls)
            continue
        r = I.elements(node, s, a, v.labels)
        if r[0] == "exact":
            vs = [join(*r[1])] if r[1] else []
            if vs:
                out.append((s, join(vs[0], default) if default is not None else vs[0]))
            elif default is not None:
                out.append((s, default))
            if default is None:
                I.maybe_raise(s, node, "next", v.labels, (aterm(a),))
        elif r[0] == "unk":
            for s2, e in r[1](s):
                if e is None:
                    continue
                out.append((s2, join(e, default) if default is not None else e))
            if default is None:
                I.maybe_raise(s, node, "next", v.labels, (aterm(a),))
    return out


def path_join(ts):
    out = []
    for t in ts:
        if t.op == "pjoin":
            out += list(t.args)
        else:
            out.append(t)
    return T.mk("pjoin", *out)


def fold(I, st, fn, args):
    cs = []
    for v in args:
        c = _v(v).one()
        if c is None or c[0] != "c":
            return None
        cs.append(c[2])
    try:
        return fn(*cs)
    except Exception:
        return None


PATHFOLD = {"join": os.path.join, "basename": os.path.basename,
            "dirname": os.path.dirname, "splitext": os.path.splitext,
            "abspath": os.path.abspath, "normpath": os.path.normpath,
            "realpath": os.path.normpath, "split": os.path.split,
            "isabs": os.path.isabs, "expanduser": lambda x: x}
FSCHECK = {"exists", "isfile", "isdir", "islink", "getsize", "getmtime",
           "samefile", "lexists"}


def call_path(I, st, node, name, args, kw):
    ls = labels_of(args, kw)
    av = [_v(v) for v in args] + list(kw.values())
    if name in FSCHECK:
        if I.loading:
            r = fold(I, st, getattr(os.path, name), av)
            if r is not None:
                return [(st, const(r))]
        I.record("fs", st, node, op=name, path=av[0])
        if name in ("getsize", "getmtime"):
            I.maybe_raise(st, node, "os." + name, ls, (term(av[0]),))
            return [(st, unk(T.mk(name, term(av[0])), "int", ls))]
        return [(st, unk(T.mk(name, term(av[0])), "bool",
                         ls | frozenset(I.cfg.exists_labels(I, st, name, av[0]))))]
    if name in PATHFOLD:
        r = fold(I, st, PATHFOLD[name], av)
        if r is not None:
            if isinstance(r, tuple):
                return [(st, tup([const(x) for x in r], ls))]
            return [(st, const(r, ls))]
    ts = [term(v) for v in av]
    if name == "join":
        return [(st, unk(path_join(ts), "str", ls))]
    if name in ("abspath", "realpath", "normpath", "expanduser", "normcase"):
        t = ts[0]
        if t.op == "abspath":
            return [(st, unk(t, "str", ls))]
        return [(st, unk(T.mk("abspath", t), "str", ls))]
    if name in ("splitext", "split"):
        return [(st, tup((unk(T.mk(name + "0", ts[0]), "str", ls),
                          unk(T.mk(name + "1", ts[0]), "str", ls))))]
    if name in ("dirname", "basename"):
        t = ts[0]
        if t.op == "pjoin" and len(t.args) >= 2:
            if name == "basename":
                return [(st, unk(t.args[-1], "str", ls))]
            rest = t.args[:-1]
            return [(st, unk(rest[0] if len(rest) == 1 else T.mk("pjoin", *rest), "str", ls))]
        return [(st, unk(T.mk(name, t), "str", ls))]
    return [(st, unk(T.mk("call", "os.path." + name, *ts), "str", ls))]


OSOPS = {"remove": 1, "unlink": 1, "mkdir": 1, "makedirs": 1, "rmdir": 1,
         "rename": 2, "replace": 2, "link": 2, "symlink": 2, "chmod": 1,
         "truncate": 1, "listdir": 1, "stat": 1, "scandir": 1, "walk": 1,
         "utime": 1, "removedirs": 1, "renames": 2, "access": 1}


def call_os(I, st, node, name, args, kw):
    ls = labels_of(args, kw)
    av = [_v(v) for v in args] + [v for k, v in kw.items() if k in ("path", "src", "dst", "name")]
    if name in OSOPS:
        if name == "listdir" and I.loading:
            r = fold(I, st, lambda p: sorted(os.listdir(p)), av)
            if r is not None:
                return [(st, I.newlist(st, node, [const(x) for x in r]))]
        I.maybe_raise(st, node, "os." + name, ls | frozenset(
            I.cfg.file_labels(I, st, av[0]) if av else EMPTY),
            tuple(term(v) for v in av))
        I.record("fs", st, node, op=name, path=av[0] if av else const("."),
                 dst=av[1] if OSOPS[name] == 2 and len(av) > 1 else None,
                 args=tuple(av))
        if name in ("listdir", "scandir", "walk"):
            e = unk(T.mk("elem", (I.site(node), I.frame.ctx),
                         T.mk("listdir", term(av[0]) if av else T.mk("cwd"))),
                    "str" if name == "listdir" else None, ls | SETORDER)
            return [(st, I.newlist(st, node, None, e, labels=ls | SETORDER))]
        if name in ("access",):
            return [(st, unk(T.mk("access", term(av[0])), "bool", ls))]
        if name == "stat":
            return [(st, unk(T.mk("stat", term(av[0])), None, ls))]
        return [(st, NONE)]
    if name in ("fsync", "fdatasync", "close"):
        I.maybe_raise(st, node, "os." + name, EMPTY, ())
        return [(st, NONE)]
    if name in ("getcwd", "getenv", "getpid", "urandom", "cpu_count"):
        return [(st, unk(T.mk("call", "os." + name, *[term(v) for v in av]), None, ls))]
    if name in ("system", "popen", "execv"):
        I.record("exec", st, node, what="os." + name, cmd=av[0], shell=True, kw=kw)
    return ext_result(I, st, node, "os." + name, args, kw)


def call_shutil(I, st, node, name, args, kw):
    av = [_v(v) for v in args]
    ls = labels_of(args, kw)
    ign = kw.get("ignore_errors", av[1] if name == "rmtree" and len(av) > 1 else None)
    if not (name == "rmtree" and ign is not None and ign.one() == TRUE.one()):
        I.maybe_raise(st, node, "shutil." + name, ls, tuple(term(v) for v in av))
    I.record("fs", st, node, op="shutil." + name, path=av[0] if av else NONE,
             ignore=ign is not None and ign.one() != FALSE.one(),
             dst=av[1] if len(av) > 1 and name != "rmtree" else None, args=tuple(av))
    return [(st, av[1] if len(av) > 1 and name != "rmtree" else NONE)]


def call_tempfile(I, st, node, name, args, kw):
    t = T.mk("tempname", str(I.site(node)))
    I.maybe_raise(st, node, "tempfile", EMPTY, (t,))
    if name in ("NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile"):
        d = kw.get("delete")
        o = Obj("file")
        m = kw.get("mode", const("w+b")).one()
        o.x.update(path=unk(t, "str"), name=unk(t, "str"), open=True,
                   mode=m[2] if m and m[0] == "c" else "w+b", content=EMPTY)
        auto = name != "NamedTemporaryFile" or d is None or d.one() == TRUE.one()
        o.x["autodelete"] = auto
        I.record("fs", st, node, op="tempfile", path=unk(t, "str"), auto=auto)
        return [(st, ref(I.alloc(st, node, o, "tempfile")))]
    if name == "mkstemp":
        I.record("fs", st, node, op="tempfile", path=unk(t, "str"), auto=False)
        return [(st, tup((unk(T.mk("fd", t), "int"), unk(t, "str"))))]
    if name in ("mkdtemp", "TemporaryDirectory"):
        I.record("fs", st, node, op="tempfile", path=unk(t, "str"), auto=False)
        if name == "mkdtemp":
            return [(st, unk(t, "str"))]
        o = Obj("ctx", cls="tempdir")
        o.x["enter"] = unk(t, "str")
        return [(st, ref(I.alloc(st, node, o, "tempdir")))]
    return [(st, unk(T.mk("call", "tempfile." + name), "str"))]


def call_subprocess(I, st, node, name, args, kw):
    av = [_v(v) for v in args]
    cmd = av[0] if av else kw.get("args", NONE)
    I.maybe_raise(st, node, "subprocess", cmd.labels, (term(cmd),))
    lab = EMPTY
    cmds = []
    for a in cmd.atoms:
        if a[0] == "r":
            o = st.get(a[1])
            cmds.append((o.kind, tuple(o.items) if o.items is not None else None, o.summ))
        else:
            cmds.append((a[0], a, None))
    I.record("exec", st, node, what="subprocess." + name, cmd=cmd, cmds=cmds, kw=dict(kw))
    lab = deep_labels(I, st, cmd) | frozenset(I.cfg.exec_labels(I, st, cmd))
    if "stdout" in kw:
        so = kw["stdout"].one()
        if so and so[0] == "r" and st.get(so[1]).kind == "file":
            file_write(I, st, node, so, lab, value=unk(T.mk("stdout", str(I.site(node))), "str"))
    o = Obj("proc")
    o.attrs["stdout"] = unk(T.mk("stdout", str(I.site(node))), "str", lab)
    o.attrs["stderr"] = unk(T.mk("stderr", str(I.site(node))), "str", lab)
    o.attrs["returncode"] = unk(T.mk("returncode", str(I.site(node))), "int", lab)
    if name == "check_output":
        return [(st, o.attrs["stdout"])]
    if name in ("call", "check_call"):
        return [(st, o.attrs["returncode"])]
    return [(st, ref(I.alloc(st, node, o, "proc"), EMPTY))]


def call_ext(I, st, node, dotted, args, kw):
    I.stats["ext_calls"].add(dotted)
    d = canon(dotted)
    if d.one()[0] == "x":
        dotted = d.one()[1]
    mod, _, name = dotted.rpartition(".")
    if name == "with_metaclass":
        o = Obj("class", cls="with_metaclass")
        o.x["bases"] = tuple(a for v in args[1:] for a in _v(v).atoms)
        o.x["qual"] = "with_metaclass"
        oid = I.alloc(st, node, o, "metaclass")
        ob = st.get(oid).copy()
        ob.x["mro"] = tuple(I.mro(st, oid))
        st.put(oid, ob)
        return [(st, ref(oid))]
    if dotted.startswith("builtins."):
        h = BUILTINS.get(dotted[9:])
        if h is not None:
            return h(I, st, node, args, kw)
        from .core import exc_ancestors
        import builtins as pyb
        c = getattr(pyb, dotted[9:], None)
        if isinstance(c, type) and issubclass(c, BaseException):
            o = Obj("inst", cls=("x", dotted))
            o.attrs["args"] = tup([_v(v) for v in args])
            return [(st, ref(I.alloc(st, node, o, "exc"), labels_of(args, kw)))]
        return ext_result(I, st, node, dotted, args, kw)
    if mod == "os.path":
        return call_path(I, st, node, name, args, kw)
    if mod == "os":
        return call_os(I, st, node, name, args, kw)
    if mod == "shutil":
        return call_shutil(I, st, node, name, args, kw)
    if mod == "tempfile":
        return call_tempfile(I, st, node, name, args, kw)
    if mod == "subprocess" and name not in ("CalledProcessError",):
        return call_subprocess(I, st, node, name, args, kw)
    if mod == "re":
        return call_re(I, st, node, name, args, kw)
    if mod == "json":
        return call_json(I, st, node, name, args, kw)
    if mod == "hashlib":
        o = Obj("hash")
        o.x["labels"] = deep_labels(I, st, _v(args[0])) if args else EMPTY
        if name == "new" and len(args) > 1:
            o.x["labels"] |= deep_labels(I, st, _v(args[1]))
        if name == "file_digest":
            o.x["labels"] = deep_labels(I, st, _v(args[0]))
        o.x["alg"] = name
        return [(st, ref(I.alloc(st, node, o, "hash")))]
    if mod == "itertools":
        return call_itertools(I, st, node, name, args, kw)
    if mod == "collections":
        if name in ("defaultdict",):
            r = I.newdict(st, node)
            o = st.get(r.one()[1]).copy()
            if args and _v(args[0]).one() != NONE.one():
                o.x["default"] = _v(args[0])
            st.put(r.one()[1], o)
            return [(st, r)]
        if name in ("OrderedDict", "Counter"):
            return BUILTINS["dict"](I, st, node, args, kw)
        if name == "deque":
            return BUILTINS["list"](I, st, node, args[:1], {})
        if name == "namedtuple":
            return ext_result(I, st, node, dotted, args, kw, "class")
    if dotted == "functools.partial":
        o = Obj("partial")
        o.x.update(f=_v(args[0]), args=tuple(args[1:]), kw=tuple(kw.items()))
        o.x["keep"] = tuple([_v(v) for v in args] + list(kw.values()))
        return [(st, ref(I.alloc(st, node, o, "partial")))]
    if dotted == "functools.reduce":
        return call_reduce(I, st, node, args, kw)
    if dotted == "contextlib.suppress":
        o = Obj("suppress", items=[_v(v) for v in args])
        return [(st, ref(I.alloc(st, node, o, "suppress")))]
    if dotted == "contextlib.closing":
        return [(st, _v(args[0]))]
    if mod == "copy" and name in ("copy", "deepcopy"):
        return call_copy(I, st, node, name, _v(args[0]))
    if mod == "warnings":
        I.record("warn", st, node, args=tuple(_v(v) for v in args))
        return [(st, NONE)]
    if dotted.startswith("pandas."):
        r = call_pandas(I, st, node, dotted[7:], args, kw)
        if r is not None:
            return r
    if dotted in ("numpy.nextafter", "math.nextafter"):
        x, y = _v(args[0]), _v(args[1])
        up = y.one() == catom(float("inf"))
        return [(st, unk(T.mk("nextup" if up else "nextafter", term(x)), "float",
                         x.labels | y.labels))]
    if I.cfg.symbolic and dotted in ARRAYS:
        return ext_result(I, st, node, dotted, args, kw, "series")
    if dotted in ("numpy.float64", "numpy.float", "numpy.double"):
        return BUILTINS["float"](I, st, node, args, kw)
    if dotted.startswith("resource."):
        return [(st, unk(T.mk("call", dotted, str(I.site(node)))))]
    if dotted == "pyparsing.oneOf" or dotted.startswith("pyparsing."):
        h = EXTOBJ.get("pyparsing")
        if h is not None:
            return h(I, st, node, dotted, args, kw)
    return ext_result(I, st, node, dotted, args, kw)


def call_copy(I, st, node, name, v):
    out = []
    for a in v.atoms:
        if a[0] == "r":
            o = st.get(a[1]).copy()
            o.x.pop("tags", None)
            out.append(ref(I.alloc(st, node, o, "copy"), v.labels))
        elif a[0] == "u":
            out.append(unk(T.mk("call", "copy." + name, a[2]), a[1], v.labels))
        else:
            out.append(V((a,), v.labels))
    return [(st, join(*out))]


def call_reduce(I, st, node, args, kw):
    f, it = _v(args[0]), _v(args[1])
    out = []
    for s, lv in to_list(I, st, node, it):
        o = s.get(lv.one()[1])
        vs = list(o.items or ()) + ([o.summ] if o.summ else [])
        e = join(*vs) if vs else None
        acc = _v(args[2]) if len(args) > 2 else e
        if e is None:
            if acc is not None:
                out.append((s, acc))
            continue
        if I.cfg.symbolic and o.summ is None:
            # the exact elements
            items = list(o.items or ())
            if len(args) <= 2:
                acc, items = items[0], items[1:]
            res = [(s, acc)]
            for e in items:
                res = [y for s2, x in res for y in I.call(s2, node, f, [x, e], {})]
            out += res
            continue
        if I.cfg.symbolic:
            t = T.mk("call", "functools.reduce", *[tm(I, s, _v(x)) for x in args])
            out.append((s, unk(t, None, deep_labels(I, s, it))))
            continue
        res = [(s, acc)]
        for _ in range(2):
            nxt = []
            for s2, x in res:
                nxt += I.call(s2, node, f, [x, e], {})
            res = nxt
        for s2, x in res:
            out.append((s2, join(acc, x).lab(deep_labels(I, s2, it))))
    return out


def call_re(I, st, node, name, args, kw):
    if name == "compile":
        v = _v(args[0])
        c = v.one()
        o = Obj("regex")
        o.x["pattern"] = c[2] if c and c[0] == "c" else None
        o.x["t"] = term(v)
        o.x["labels"] = v.labels
        return [(st, ref(I.alloc(st, node, o, "regex"), v.labels))]
    if name in ("match", "search", "fullmatch"):
        return re_match(I, st, node, name, _v(args[0]), _v(args[1]))
    if name in ("sub", "subn", "findall", "split", "finditer"):
        if I.loading or all(_v(a).one() and _v(a).one()[0] == "c" for a in args):
            r = fold(I, st, getattr(re, name), args)
            if isinstance(r, str):
                return [(st, const(r))]
        return regex_method(I, st, node, _v(args[0]), name, args[1:], kw)
    return ext_result(I, st, node, "re." + name, args, kw, "str")


def call_json(I, st, node, name, args, kw):
    if name == "load":
        v = _v(args[0])
        ls = deep_labels(I, st, v)
        a = v.one()
        path = None
        if a and a[0] == "r" and st.get(a[1]).kind == "file":
            path = st.get(a[1]).x.get("path")
            I.record("fs", st, node, op="read", path=path, labels=ls, oid=a[1], how="json")
        t = T.mk("json", term(path) if path is not None else term(v))
        I.maybe_raise(st, node, "json.load", ls, (t,))
        return [(st, unk(t, None, ls))]
    if name == "loads":
        v = _v(args[0])
        ls = deep_labels(I, st, v)
        t = T.mk("json", term(v))
        I.maybe_raise(st, node, "json.load", ls, (t,))
        return [(st, unk(t, None, ls))]
    if name == "dump":
        v, f = _v(args[0]), _v(args[1])
        ls = deep_labels(I, st, v)
        I.maybe_raise(st, node, "json.dump", EMPTY, ())
        I.record("jsondump", st, node, value=v, snapshot=dict_snapshot(st, v))
        for a in f.atoms:
            if a[0] == "r" and st.get(a[1]).kind == "file":
                file_write(I, st, node, a, ls)
                o = st.get(a[1]).copy()
                st.put(a[1], o)
        return [(st, NONE)]
    if name == "dumps":
        v = _v(args[0])
        I.record("jsondump", st, node, value=v, snapshot=dict_snapshot(st, v))
        return [(st, unk(T.mk("dumps", term(v), str(I.site(node))), "str",
                         deep_labels(I, st, v)))]
    return ext_result(I, st, node, "json." + name, args, kw)


def dict_snapshot(st, v):
    """{key: (labels, V)} of a dict value"""
    out = {}
    for a in v.atoms:
        if a[0] == "r" and st.get(a[1]).kind == "dict":
            for k, w in (st.get(a[1]).entries or {}).items():
                if k[0] == "c":
                    out[k[2]] = join(out.get(k[2]), w)
    return out


def call_itertools(I, st, node, name, args, kw):
    av = [_v(v) for v in args]
    if name in ("takewhile", "dropwhile", "filterfalse"):
        return [(st, mklazy(I, st, node, name, av[1:], av[0]))]
    if name == "chain":
        return [(st, mklazy(I, st, node, "chain", av))]
    if name == "combinations":
        c = av[1].one()
        return [(st, mklazy(I, st, node, "combinations", av[:1], None,
                            r=c[2] if c and c[0] == "c" else 2))]
    if name in ("islice", "tee", "cycle", "accumulate"):
        return [(st, mklazy(I, st, node, "pass", av[:1], None, av[0].labels))]
    if name in ("zip_longest", "izip_longest"):
        return [(st, mklazy(I, st, node, "zip", av))]
    if name in ("imap",):
        return [(st, mklazy(I, st, node, "map", av[1:], av[0]))]
    if name == "product":
        e = [unk(T.mk("elemof", term(v)), None, v.labels) for v in av]
        return [(st, I.newlist(st, node, None, tup(e)))]
    if name == "chain.from_iterable":
        e = unk(T.mk("elemof", T.mk("elemof", term(av[0]))), None, av[0].labels)
        return [(st, I.newlist(st, node, None, e))]
    return ext_result(I, st, node, "itertools." + name, args, kw)


def call_pandas(I, st, node, name, args, kw):
    av = [_v(v) for v in args]
    ls = EMPTY
    for v in av + list(kw.values()):
        ls |= deep_labels(I, st, v)
    if I.cfg.symbolic and name not in ("Index",):
        kind = "series" if name in ("Series", "isnull", "notnull", "isna", "notna") else \
            "df" if name in ("DataFrame", "concat", "merge", "read_csv") else \
            "index" if name.endswith("Index") else None
        return ext_result(I, st, node, "pandas." + name, args, kw, kind)
    if name == "read_csv":
        path = av[0] if av else kw.get("filepath_or_buffer", NONE)
        a = path.one()
        if a and a[0] == "r" and st.get(a[1]).kind == "file":
            path = st.get(a[1]).x["path"]
        cl = frozenset(I.cfg.file_labels(I, st, path)) | path.labels
        I.maybe_raise(st, node, "read_csv", cl, (term(path),))
        I.record("fs", st, node, op="read", path=path, labels=cl, how="read_csv")
        return [(st, newdf(I, st, node, "df", cl | ls, "csv",
                           hist=(("cache", term(path)),), src=("csv", term(path))))]
    if name in ("DataFrame", "Series", "Index", "Float64Index", "MultiIndex",
                "RangeIndex", "DataFrame.from_dict", "DataFrame.from_records",
                "DataFrame.from_csv", "Categorical", "MultiIndex.from_tuples",
                "MultiIndex.from_product"):
        kind = "df" if name.startswith("DataFrame") else \
            "series" if name in ("Series", "Categorical") else "index"
        if name == "DataFrame" and not av and not kw:
            return [(st, newdf(I, st, node, "df", EMPTY, "new", hist=(("new",),),
                               src=("empty",)))]
        data = av[0] if av else kw.get("data", NONE)
        out = []
        da = data.one()
        if da and da[0] == "r" and (st.get(da[1]).kind == "gen" or
                                    st.get(da[1]).x.get("lazy")):
            res = to_list(I, st, node, data)
        else:
            res = [(st, data)]
        for s, dv in res:
            L = ls | deep_labels(I, s, dv)
            n = newdf(I, s, node, kind, L, "new")
            o = s.get(n.one()[1]).copy()
            if kind == "df":
                o.x["hist"] = (("built",),)
                o.x["src"] = ("built",)
            if kind == "index" and "name" in kw:
                o.attrs["name"] = kw["name"]
            da = dv.one()
            src = dfo(s, da) if da and da[0] == "r" and kind in ("index", "series") else None
            if src is not None and src.kind in ("index", "series"):
                for k in ("of", "role", "shift"):
                    if k in src.x:
                        o.x[k] = src.x[k]
            o.x["data"] = dv if da and da[0] == "r" else None
            if o.x["data"] is None:
                del o.x["data"]
            else:
                o.x["keep"] = (dv,)
            s.put(n.one()[1], o)
            I.record("dfnew", s, node, data=dv, index=kw.get(
                "index", av[1] if len(av) > 1 else None), oid=n.one()[1], state=s,
                what=name, kw=dict(kw))
            out.append((s, n))
        return out
    if name in ("concat", "merge", "DataFrame.concat", "merge_asof", "pivot_table"):
        L = ls
        for v in av[:1]:
            for s, lv in to_list(I, st, node, v) if v.one() and v.one()[0] == "r" and \
                    s_kind(st, v) in ("list", "gen", "iter", "dict") else []:
                L |= deep_labels(I, s, lv)
                st = s
        return [(st, newdf(I, st, node, "df", L, name, hist=(("concat",),)))]
    if name in ("to_numeric", "isnull", "notnull", "isna", "notna", "cut", "to_datetime",
                "get_dummies", "unique", "factorize"):
        return [(st, newdf(I, st, node, "series", ls, name))]
    return None


def s_kind(st, v):
    a = v.one()
    return st.get(a[1]).kind if a and a[0] == "r" else None


# ---------------------------------------------------------------- builtins

BUILTINS = {}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


@builtin("len")
def b_len(I, st, node, args, kw):
    return do_len(I, st, node, _v(args[0]))


@builtin("range", "xrange")
def b_range(I, st, node, args, kw):
    r = fold(I, st, range, args)
    if r is not None and len(r) <= 64:
        return [(st, I.newlist(st, node, [const(i) for i in r], labels=labels_of(args, kw)))]
    e = unk(T.mk("elem", (I.site(node), I.frame.ctx),
                 T.mk("range", *[term(_v(v)) for v in args])), "int", labels_of(args, kw))
    return [(st, I.newlist(st, node, None, e, labels=labels_of(args, kw)))]


@builtin("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter")
def b_list(I, st, node, args, kw, name=None):
    raise NotImplementedError


def sort_key(v):
    """the constant a value is sorted by; (k, tie) with tie if there may be more to it"""
    c = v.one()
    if c is None:
        return None
    if c[0] == "c":
        return ((c[2],), False)
    if c[0] == "t":
        out = []
        for x in c[1]:
            d = x.one()
            if d is None or d[0] != "c":
                return (tuple(out), True) if out else None
            out.append(d[2])
        return (tuple(out), False)
    return None


def sort_order(I, st, node, items, keyf, rev):
    """the permutation that sorts the items, or None if it isn't known"""
    if rev is not None:
        r = rev.one()
        if r is None or r[0] != "c":
            return None
        rev = bool(r[2])
    if keyf is not None:
        vals = []
        for x in items:
            out = I.call(st.copy(), node, keyf, [x], {})
            if len(out) != 1:
                return None
            vals.append(out[0][1])
    else:
        vals = items
    ks = [sort_key(x) for x in vals]
    if any(k is None for k in ks):
        return None
    keys = [k[0] for k in ks]
    if any(k[1] for k in ks):
        m = min(len(k) for k in keys)
        keys = [k[:m] for k in keys]
        if len(set(keys)) != len(keys):
            return None
    try:
        return sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
    except TypeError:
        return None


def _seq(name):
    def f(I, st, node, args, kw):
        kind = "set" if name in ("set", "frozenset") else "list"
        if not args:
            if name == "tuple":
                return [(st, tup(()))]
            return [(st, I.newlist(st, node, [], kind=kind))]
        v = _v(args[0])
        if name == "iter":
            if len(args) > 1:
                return [(st, mklazy(I, st, node, "calliter", (), v))]
            a = v.one()
            if I.cfg.symbolic and a and (a[0] == "t" or a[0] == "r" and st.get(a[1]).kind == "list" and
                                         not st.get(a[1]).x.get("lazy") and not st.get(a[1]).x.get("genexp")):
                # its elements, to be taken one by one
                ev = I.elements(node, st, a, v.labels)
                if ev[0] == "exact":
                    r = I.newlist(st, node, ev[1], extra="iter")
                    st.get(r.one()[1]).x["genexp"] = True
                    return [(st, r)]
            return [(st, v)]
        if len(v.atoms) == 1 and v.one()[0] == "t" and name == "tuple":
            return [(st, v)]
        if name == "list" and v.one() and v.one()[0] == "u" and v.one()[1] != "set":
            # a copy: a new list of unknown elements
            e = unk(T.mk("elemof", v.one()[2]), "str" if v.one()[1] == "str" else None, v.labels)
            return [(st, I.newlist(st, node, None, e, labels=v.labels))]
        cur = to_list(I, st, node, v, kind)
        out = []
        for s, lv in cur:
            o = s.get(lv.one()[1]).copy()
            lab = lv.labels
            if name == "sorted":
                keyf = kw.get("key")
                if o.items is not None and len(o.items) > 1:
                    order = sort_order(I, s, node, o.items, keyf, kw.get("reverse"))
                    if order is not None:
                        o.items = [o.items[i] for i in order]
                    else:
                        o.summ = join(*o.items)
                        o.items = None
                if o.items is not None:
                    o.items = [strip_order(x) for x in o.items]
                o.summ = strip_order(o.summ)
                o.x["lenlabels"] = o.x.get("lenlabels", EMPTY) - SETORDER
                lab = lab - SETORDER
                if keyf is not None:
                    for s2 in invoke_callbacks(I, s, node, [keyf], {}):
                        s = s2
            elif name in ("set", "frozenset"):
                o.kind = "set"
                if o.items is not None:
                    u = []
                    for x in o.items:
                        x = strip_order(x)
                        if not any(y == x for y in u):
                            u.append(x)
                    o.items = u
                    if any(not (x.one() and x.one()[0] in ("c", "r")) for x in u) and len(u) > 1:
                        o.summ = join(*u)
                        o.items = None
                o.summ = strip_order(o.summ)
                lab = lab - SETORDER
            elif name == "reversed" and o.items is not None:
                o.items = o.items[::-1]
            s.put(lv.one()[1], o)
            if name == "tuple" and o.items is not None and o.summ is None:
                out.append((s, tup(o.items, lab)))
            else:
                out.append((s, V(lv.atoms, lab)))
        return out
    return f


for _n in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter"):
    BUILTINS[_n] = _seq(_n)


@builtin("dict")
def b_dict(I, st, node, args, kw):
    r = I.newdict(st, node)
    a = r.one()
    if args:
        v = _v(args[0])
        va = v.one()
        if va and va[0] == "r" and st.get(va[1]).kind not in ("dict",):
            out = []
            for s, lv in to_list(I, st, node, v):
                lo = s.get(lv.one()[1])
                o = s.get(a[1]).copy()
                for it in list(lo.items or ()) + ([lo.summ] if lo.summ else []):
                    p = it.one()
                    if p and p[0] == "r" and s.get(p[1]).kind == "list" and \
                            s.get(p[1]).summ is None and len(s.get(p[1]).items or ()) == 2:
                        p = ("t", tuple(s.get(p[1]).items))
                    if p and p[0] == "t" and len(p[1]) == 2:
                        k, w = p[1]
                        if k.one() and k.one()[0] in ("c", "r") and lo.summ is None:
                            o.entries[k.one()] = w
                        else:
                            o.summ = join(o.summ, w)
                            o.ksumm = join(o.ksumm, k)
                    else:
                        o.summ = join(o.summ, unk(T.mk("item", term(it), T.mk("c", "int", 1)), None, it.labels))
                        o.ksumm = join(o.ksumm, unk(T.mk("item", term(it), T.mk("c", "int", 0)), None, it.labels))
                s.put(a[1], o)
                out.append((s, r))
            st = out[0][0] if out else st
            for s, _ in out:
                dict_method(I, s, node, a, s.get(a[1]), "update", [], kw) if kw else None
            return out
        dict_method(I, st, node, a, st.get(a[1]), "update", [v], {})
    if kw:
        dict_method(I, st, node, a, st.get(a[1]), "update", [], kw)
    return [(st, r)]


@builtin("zip")
def b_zip(I, st, node, args, kw):
    if any(not isinstance(v, V) for v in args):
        return [(st, I.newlist(st, node, None, unk(T.mk("zipelem", *[term(_v(v)) for v in args]),
                                                   "tuple", labels_of(args, kw))))]
    return [(st, mklazy(I, st, node, "zip", args))]


@builtin("enumerate")
def b_enum(I, st, node, args, kw):
    return [(st, mklazy(I, st, node, "enumerate", args[:1]))]


@builtin("map")
def b_map(I, st, node, args, kw):
    f, its = _v(args[0]), [_v(v) for v in args[1:]]
    if len(its) == 1 and its[0].one():
        a = its[0].one()
        if not (a[0] == "r" and (st.get(a[1]).kind == "gen" or st.get(a[1]).x.get("lazy"))):
            r = I.elements(node, st, a, its[0].labels)
            if r[0] == "exact":
                cur = [(st, [])]
                for e in r[1]:
                    cur = [(s2, vs + [x]) for s, vs in cur
                           for s2, x in I.call(s, node, f, [e], {})]
                return [(s, I.newlist(s, node, vs)) for s, vs in cur]
    return [(st, mklazy(I, st, node, "map", its, f))]


@builtin("filter")
def b_filter(I, st, node, args, kw):
    return [(st, mklazy(I, st, node, "filter", args[1:], _v(args[0])))]


@builtin("next")
def b_next(I, st, node, args, kw):
    return do_next(I, st, node, _v(args[0]), _v(args[1]) if len(args) > 1 else None)


def _scalar(kind):
    def f(I, st, node, args, kw):
        if not args:
            return [(st, const({"int": 0, "float": 0.0, "str": "", "bool": False,
                                "bytes": b""}[kind]))]
        v = _v(args[0])
        ls = deep_labels(I, st, v) if kind == "str" else v.labels
        rest = [_v(x) for x in args[1:]] + list(kw.values())
        res = []
        for a in v.atoms:
            if a[0] == "c" and not rest:
                try:
                    res.append(const({"int": int, "float": float, "str": str, "bool": bool,
                                      "bytes": bytes}[kind](a[2])))
                except Exception:
                    I.raise_now(st.copy(), node, "ValueError", "conv", ls)
                continue
            if kind == "bool":
                b = I.truth(st, a, v.labels)
                if b is not None:
                    res.append(const(b))
                    continue
                res.append(unk(T.mk("call", "bool", aterm(a)), "bool"))
                continue
            if kind == "str":
                if a[0] == "u" and a[1] == "str":
                    res.append(V((a,)))
                    continue
                if a[0] == "r" and st.get(a[1]).kind == "inst":
                    f2 = I.class_attr(st, st.get(a[1]).cls, "__str__")
                    if f2 is not None:
                        out = []
                        for fa in f2.atoms:
                            out += I.call_atom(st, node, ("b", a, fa), [], {})
                        return out
                res.append(unk(T.mk("cat", aterm(a)), "str"))
                continue
            if a[0] == "u" and a[1] == kind and not rest:
                res.append(V((a,)))
                continue
            I.maybe_raise(st, node, kind, ls, (aterm(a),))
            if kind == "float" and a[0] == "u" and a[1] == "int":
                res.append(unk(a[2], "float"))
                continue
            res.append(unk(T.mk("conv", kind, aterm(a)), kind))
        for r in rest:
            ls |= r.labels
        return [(st, join(*res).lab(ls))] if res else []
    return f


for _k in ("int", "float", "str", "bool", "bytes"):
    BUILTINS[_k] = _scalar(_k)
BUILTINS["unicode"] = BUILTINS["str"]
BUILTINS["long"] = BUILTINS["int"]


@builtin("min", "max")
def _unused(I, st, node, args, kw):
    raise NotImplementedError


def _minmax(name):
    def f(I, st, node, args, kw):
        keyf = kw.get("key")
        if keyf is not None:
            for s in invoke_callbacks(I, st, node, [keyf], {}):
                st = s
        if len(args) == 1:
            v = _v(args[0])
            out = []
            for s, lv in to_list(I, st, node, v):
                o = s.get(lv.one()[1])
                L = deep_labels(I, s, lv) - SETORDER
                if o.items is not None and o.summ is None and len(o.items) == 0:
                    if "default" in kw:
                        out.append((s, kw["default"]))
                    else:
                        I.raise_now(s, node, "ValueError", "empty", L)
                    continue
                if o.items is not None and o.summ is None:
                    out.append((s, mm(name, o.items).lab(L)))
                    continue
                I.maybe_raise(s, node, name, L, (term(lv),))
                if keyf is not None and o.summ is not None:
                    out.append((s, strip_order(o.summ).lab(L)))
                    continue
                out.append((s, unk(T.mk(name + "of", term(strip_order(o.summ)) if o.summ else T.mk("none")),
                                   None, L)))
            return out
        vs = [_v(a) for a in args]
        if keyf is not None:
            return [(st, join(*vs))]
        if any(not isinstance(a, V) for a in args):
            return ext_result(I, st, node, name, args, kw)
        for v in vs:
            for a in v.atoms:
                if a[0] == "c" and a[2] is None:
                    I.record("noneattr", st, node, attr="<")
                    I.raise_now(st.copy(), node, "TypeError", "none-order", v.labels)
        I.maybe_raise(st, node, "arith", labels_of(args, kw), tuple(term(v) for v in vs))
        return [(st, mm(name, vs).lab(labels_of(args, kw)))]
    return f


def mm(name, vs):
    cs = [v.one() for v in vs]
    if all(c and c[0] == "c" and isinstance(c[2], (int, float)) for c in cs):
        return const((min if name == "min" else max)(c[2] for c in cs))
    ts = []
    for v in vs:
        t = term(v)
        ts += list(t.args) if t.op == name else [t]
    ts = sorted(set(ts), key=lambda t: (t._h, repr(t)))
    if len(ts) == 1:
        return vs[0]
    kinds = {(a[1] if a[0] in ("u", "c") else None) for v in vs for a in v.atoms}
    k = "float" if kinds <= {"int", "float"} and kinds else None
    return unk(T.mk(name, *ts), k)


for _k in ("min", "max"):
    BUILTINS[_k] = _minmax(_k)


@builtin("sum", "abs", "round", "divmod", "pow", "hash", "id", "ord", "chr", "hex",
         "repr", "ascii", "format", "bin", "oct", "callable")
def _unused2(I, st, node, args, kw):
    raise NotImplementedError


def _pure(name, kind=None, free=False):
    def f(I, st, node, args, kw):
        cur = [(st, [])]
        ls = EMPTY
        ts = []
        for v in args:
            v = _v(v)
            a = v.one()
            if a and a[0] == "r" and (st.get(a[1]).kind == "gen" or st.get(a[1]).x.get("lazy")):
                r = to_list(I, st, node, v)
                st = r[0][0] if r else st
                v = r[0][1] if r else v
            ls |= deep_labels(I, st, v)
            ts.append(term(v))
        if name == "callable":
            a = _v(args[0]).one()
            if a and a[0] in ("b", "bx", "x"):
                return [(st, TRUE)]
            if a and a[0] == "r":
                return [(st, const(st.get(a[1]).kind in ("func", "class", "partial") or (
                    st.get(a[1]).kind == "inst" and I.class_attr(st, st.get(a[1]).cls, "__call__")
                    is not None)))]
            if a and a[0] in ("c", "t"):
                return [(st, FALSE)]
            if a and a[0] == "u" and a[1] in ("func", "int", "float", "str", "list", "bool", "dict"):
                return [(st, const(a[1] == "func"))]
        if name == "abs":
            r = fold(I, st, abs, args)
            if r is not None:
                return [(st, const(r, ls))]
        if free:
            ls = ls - SETORDER
        return [(st, unk(T.mk("call", name, *ts), kind, ls))]
    return f


for _k, _kind in (("sum", None), ("abs", None), ("round", None), ("divmod", None), ("pow", None),
                  ("hash", "int"), ("id", "int"), ("ord", "int"), ("chr", "str"), ("hex", "str"),
                  ("repr", "str"), ("ascii", "str"), ("format", "str"), ("bin", "str"),
                  ("oct", "str"), ("callable", "bool")):
    BUILTINS[_k] = _pure(_k, _kind, _k == "sum")


def _anyall(name):
    def f(I, st, node, args, kw):
        v = _v(args[0])
        out = []
        for s, lv in to_list(I, st, node, v):
            o = s.get(lv.one()[1])
            L = deep_labels(I, s, lv) - SETORDER
            vs = list(o.items or ()) if o.items is not None else []
            if o.summ is not None:
                vs.append(o.summ)
            res = []
            for x in vs:
                for a in x.atoms:
                    res.append(I.truth(s, a, x.labels))
            exact = o.items is not None and o.summ is None and \
                all(len(x.atoms) == 1 for x in vs)
            want = name == "any"
            if exact and any(r is want for r in res):
                out.append((s, const(want, L)))
            elif all(r is (not want) for r in res):
                out.append((s, const(not want, L)))
            else:
                t = T.mk("call", name, T.mk("elems", *[term(x) for x in vs]))
                k = I.fact(s, ("T", t))
                if k is not None:
                    out.append((s, const(k, L)))
                    continue
                # branch: what holds of every element is a fact
                if exact and len(vs) <= 6:
                    st2 = s.copy()
                    for x in vs:
                        a = x.one()
                        if a[0] == "u":
                            from .core import add_fact
                            st2.facts = st2.facts | add_fact(("T", aterm(a), not want))
                    out.append((st2, const(not want, L)))
                    s.facts = s.facts | frozenset([("T", t, want)])
                    out.append((s, const(want, L)))
                    continue
                out.append((s, unk(t, "bool", L)))
        return out
    return f


BUILTINS["any"] = _anyall("any")
BUILTINS["all"] = _anyall("all")


@builtin("open")
def b_open(I, st, node, args, kw):
    return do_open(I, st, node, args, kw)


@builtin("print")
def b_print(I, st, node, args, kw):
    return [(st, NONE)]


@builtin("super")
def b_super(I, st, node, args, kw):
    if not args:
        return [(st, unk(T.mk("super")))]
    c, s = _v(args[0]), _v(args[1])
    out = []
    for ca in c.atoms:
        if ca[0] == "r":
            out.append((st, V((("sup", ca[1], s.one()),))))
        else:
            out.append((st, unk(T.mk("super"))))
    return out


@builtin("type")
def b_type(I, st, node, args, kw):
    if len(args) == 1:
        v = _v(args[0])
        out = []
        for a in v.atoms:
            if a[0] == "r":
                o = st.get(a[1])
                if o.kind == "inst":
                    out.append(V((o.cls,)))
                    continue
                if o.kind == "class":
                    out.append(ext("builtins.type"))
                    continue
                if o.kind in ("list", "dict", "set"):
                    out.append(ext("builtins." + o.kind))
                    continue
            if a[0] == "c":
                out.append(ext("builtins." + a[1]))
                continue
            if a[0] == "t":
                out.append(ext("builtins.tuple"))
                continue
            if a[0] == "u" and a[1] in ("str", "int", "float", "bool"):
                out.append(ext("builtins." + a[1]))
                continue
            out.append(unk(T.mk("type", aterm(a)), "class"))
        return [(st, join(*out).lab(v.labels))]
    return new_class(I, st, node, ("x", "builtins.type"), args, kw)


def new_class(I, st, node, meta, args, kw):
    """type(name, bases, dict)"""
    name, bases, dct = [_v(a) for a in args[:3]]
    n = name.one()
    cname = n[2] if n and n[0] == "c" else "dyn"
    attrs = {}
    labels = name.labels
    da = dct.one()
    star = None
    if da and da[0] == "r":
        o = st.get(da[1])
        for k, v in (o.entries or {}).items():
            if k[0] == "c":
                attrs[k[2]] = v
        star = o.summ
    ob = Obj("class", cls=str(cname), attrs=attrs)
    if star is not None:
        ob.attrs["*"] = star
    bs = []
    for a in bases.atoms:
        if a[0] == "t":
            for b in a[1]:
                bs += list(b.atoms)
    ob.x["bases"] = tuple(bs)
    ob.x["qual"] = "dyn." + str(cname)
    ob.x["name"] = name
    ob.x["meta"] = meta
    oid = I.alloc(st, node, ob, "class:" + str(term(name))[:60])
    ob = st.get(oid).copy()
    ob.x.pop("mro", None)
    st.put(oid, ob)
    ob.x["mro"] = tuple(I.mro(st, oid))
    return [(st, ref(oid, labels))]


BUILTINS["type.__new__"] = lambda I, st, node, args, kw: new_class(
    I, st, node, _v(args[0]).one(), args[1:], kw)
BUILTINS["type.__init__"] = lambda I, st, node, args, kw: [(st, NONE)]
BUILTINS["object"] = lambda I, st, node, args, kw: [
    (st, ref(I.alloc(st, node, Obj("inst", cls=("x", "builtins.object")), "obj")))]
BUILTINS["object.__init__"] = lambda I, st, node, args, kw: [(st, NONE)]
BUILTINS["object.__getattribute__"] = lambda I, st, node, args, kw: \
    I.load_attr(node, st, _v(args[0]), _v(args[1]).one()[2]) if _v(args[1]).one()[0] == "c" else \
    [(st, unk(T.mk("getattr")))]
BUILTINS["dict.fromkeys"] = lambda I, st, node, args, kw: ext_result(
    I, st, node, "dict.fromkeys", args, kw, "dict")


@builtin("isinstance")
def b_isinstance(I, st, node, args, kw):
    v, c = _v(args[0]), _v(args[1])
    classes = []
    for a in c.atoms:
        if a[0] == "t":
            for w in a[1]:
                classes += list(w.atoms)
        else:
            classes.append(a)
    res = []
    PY = {"builtins.str": "str", "builtins.int": "int", "builtins.float": "float",
          "builtins.list": "list", "builtins.dict": "dict", "builtins.tuple": "tuple",
          "builtins.bool": "bool", "builtins.set": "set", "builtins.basestring": "str",
          "builtins.bytes": "bytes", "builtins.long": "int", "builtins.unicode": "str",
          "pandas.DataFrame": "df", "pandas.Series": "series", "builtins.type": "class",
          "pandas.Index": "index"}
    from .core import kind_of
    sa, so = [], []
    for a in v.atoms:
        k = kind_of(st, a)
        if a[0] == "c" and a[2] is None:
            k = "NoneType"
        r = False
        for ca in classes:
            if ca[0] == "x":
                n = ca[1]
                if n in ("builtins.object",):
                    r = True
                elif k == "inst":
                    if a[0] == "r" and st.get(a[1]).cls[0] == "r" and \
                            ca in st.get(st.get(a[1]).cls[1]).x["mro"]:
                        r = True
                elif k is None or (a[0] == "u" and k in ("any", "instance")):
                    if r is False:
                        r = None
                elif n in PY:
                    if PY[n] == k or (k == "bool" and PY[n] == "int"):
                        r = True
                elif k in ("str", "int", "float", "list", "dict", "tuple", "bool", "set",
                           "NoneType"):
                    pass
                elif r is False:
                    r = None
            elif ca[0] == "r":
                if a[0] == "r" and k == "inst":
                    oc = st.get(a[1]).cls
                    if oc[0] == "r" and ca in st.get(oc[1]).x["mro"]:
                        r = True
                elif a[0] == "u" and k in (None, "instance"):
                    if r is False:
                        r = None
            elif r is False:
                r = None
        res.append(r)
        if r is None:
            pass
    if all(r is True for r in res):
        return [(st, TRUE.lab(v.labels))]
    if all(r is False for r in res):
        return [(st, FALSE.lab(v.labels))]
    t = T.mk("isinstance", term(v), *[aterm(c) if c[0] != "t" else T.mk("c", "str", str(c))
                                      for c in classes])
    k = I.fact(st, ("T", t))
    if k is not None:
        return [(st, const(k, v.labels))]
    # refine the argument on both branches when it's a plain name
    arg = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if arg is not None and len(v.atoms) > 1 or (None in res):
        s1, s2 = st, st.copy()
        s1.facts = s1.facts | frozenset([("T", t, True)])
        s2.facts = s2.facts | frozenset([("T", t, False)])
        yes = [a for a, r in zip(v.atoms, res) if r is not False]
        no = [a for a, r in zip(v.atoms, res) if r is not True]
        # give a kind to the unknowns that turned out to be of one
        ks = [PY.get(ca[1]) for ca in classes if ca[0] == "x"]
        if len(classes) == 1 and ks and ks[0]:
            yes = [("u", ks[0], a[2]) if a[0] == "u" and a[1] is None else a for a in yes]
        if arg is not None:
            if yes:
                I.refine(s1, arg, V(frozenset(yes), v.labels))
            if no:
                I.refine(s2, arg, V(frozenset(no), v.labels))
        out = []
        if yes:
            out.append((s1, TRUE.lab(v.labels)))
        if no:
            out.append((s2, FALSE.lab(v.labels)))
        return out
    return [(st, unk(t, "bool", v.labels))]


@builtin("issubclass")
def b_issubclass(I, st, node, args, kw):
    a, c = _v(args[0]).one(), _v(args[1]).one()
    if a and a[0] == "r" and c:
        return [(st, const(c in st.get(a[1]).x.get("mro", ())))]
    return ext_result(I, st, node, "issubclass", args, kw, "bool")


def attr_name(v):
    a = v.one()
    if a and a[0] == "c" and isinstance(a[2], str):
        return a[2]
    return T.mk("name", term(v))


@builtin("getattr")
def b_getattr(I, st, node, args, kw):
    o, n = _v(args[0]), _v(args[1])
    nm = attr_name(n)
    d = _v(args[2]) if len(args) > 2 else None
    if isinstance(nm, T):
        res = []
        for a in o.atoms:
            if a[0] == "u":
                v = unk(T.mk("attr", a[2], term(n)), None, o.labels | n.labels)
                I.maybe_raise(st, node, "attr", o.labels | n.labels, (a[2], nm))
            elif a[0] == "r" and st.get(a[1]).kind == "class" or (
                    a[0] == "r" and st.get(a[1]).kind == "inst"):
                ob = st.get(a[1])
                # computed names: prefix/suffix patterns choose among the attributes
                cands = match_attrs(I, st, a, n)
                if cands:
                    v = join(*cands)
                else:
                    v = unk(T.mk("attr", aterm(a), term(n)), None, n.labels)
            else:
                v = unk(T.mk("attr", aterm(a), term(n)), None, n.labels)
            v = I.cfg.attr_read(I, st, node, a, nm, v)
            res.append(v)
        r = join(*res)
        if d is not None:
            r = join(r, d)
        return [(st, r.lab(n.labels))]
    return [(s, v.lab(n.labels)) for s, v in I.load_attr(node, st, o, nm, d)]


def match_attrs(I, st, a, n):
    """attributes of an object that a computed name may denote"""
    t = term(n)
    ob = st.get(a[1])
    if t.op != "cat":
        return None
    pre = t.args[0].args[1] if t.args[0].op == "c" else ""
    suf = t.args[-1].args[1] if t.args[-1].op == "c" else ""
    if not pre and not suf:
        return None
    names = {}
    for c in (ob.x["mro"] if ob.kind == "class" else
              (st.get(ob.cls[1]).x["mro"] if ob.cls[0] == "r" else ())):
        if c[0] == "r":
            for k, v in st.get(c[1]).attrs.items():
                if isinstance(k, str) and k.startswith(pre) and k.endswith(suf):
                    names.setdefault(k, v)
    if ob.kind == "inst":
        for k, v in ob.attrs.items():
            if isinstance(k, str) and k.startswith(pre) and k.endswith(suf):
                names[k] = v
    return [v.lab(n.labels) for v in names.values()]


def py_hasattr(I, st, a, nm):
    """whether a value of a kind that's certain has an attribute"""
    if not I.cfg.symbolic:
        return None
    kind = a[1] if a[0] == "u" else "tuple" if a[0] == "t" else None
    if a[0] == "c":
        return hasattr(a[2], nm)
    if a[0] == "r" and st.has(a[1]) and st.get(a[1]).kind in ("list", "dict", "set"):
        kind = st.get(a[1]).kind
    if kind == "func":
        return hasattr(py_hasattr, nm)
    ty = {"int": int, "str": str, "float": float, "bool": bool, "list": list, "dict": dict,
          "tuple": tuple, "set": set}.get(kind)
    return None if ty is None else hasattr(ty(), nm)


@builtin("hasattr")
def b_hasattr(I, st, node, args, kw):
    o, n = _v(args[0]), _v(args[1])
    nm = attr_name(n)
    if isinstance(nm, T):
        return [(st, unk(T.mk("hasattr", term(o), term(n)), "bool", n.labels))]
    res = []
    marker = unk(T.mk("nosuchattr"), "marker")
    for a in o.atoms:
        h = py_hasattr(I, st, a, nm)
        if h is not None:
            res.append(const(h))
            continue
        if a[0] == "u":
            if (a[2], nm) in st.uattrs:
                res.append(TRUE)
            else:
                res.append(unk(T.mk("hasattr", a[2], nm), "bool"))
            continue
        if a[0] == "x":
            res.append(unk(T.mk("hasattr", aterm(a), nm), "bool"))
            continue
        if a[0] == "r" and st.get(a[1]).kind in ("inst", "class") and "*" in st.get(a[1]).attrs:
            res.append(unk(T.mk("hasattr", aterm(a), nm), "bool"))
            continue
        I.probing += 1
        I.sinks.append([])
        try:
            r = I.attr1(node, st.copy(), a, nm, o.labels, marker)
        finally:
            I.sinks.pop()
            I.probing -= 1
        h = [v.one() != marker.one() for _, v in r]
        if h and all(h):
            res.append(TRUE)
        elif h and not any(h):
            res.append(FALSE)
        else:
            res.append(unk(T.mk("hasattr", aterm(a), nm), "bool"))
    return [(st, join(*res).lab(o.labels | n.labels))]


@builtin("setattr")
def b_setattr(I, st, node, args, kw):
    o, n, v = [_v(x) for x in args]
    nm = attr_name(n)
    if isinstance(nm, T):
        for a in o.atoms:
            I.mutate(st, a, "setattr", node, v)
            I.record("setattr", st, node, oid=a[1] if a[0] == "r" else None,
                     attr=nm, value=v)
            if a[0] == "r":
                ob = st.get(a[1]).copy()
                ob.attrs["*"] = join(ob.attrs.get("*"), v.lab(n.labels | st.pc))
                st.put(a[1], ob)
        return [(st, NONE)]
    return [(s, NONE) for s in I.store_attr(node, st, o, nm, v.lab(n.labels))]


@builtin("delattr")
def b_delattr(I, st, node, args, kw):
    o, n = _v(args[0]), _v(args[1])
    nm = attr_name(n)
    for a in o.atoms:
        I.mutate(st, a, "delattr", node)
        if a[0] == "r" and isinstance(nm, str):
            ob = st.get(a[1]).copy()
            ob.attrs.pop(nm, None)
            st.put(a[1], ob)
    return [(st, NONE)]


@builtin("__import__")
def b_import(I, st, node, args, kw):
    c = _v(args[0]).one()
    if c and c[0] == "c":
        m = I.import_module(c[2], st)
        if m is not None:
            return [(st, ref(I.modules[c[2].split(".")[0]]))]
        return [(st, ext(c[2].split(".")[0]))]
    return ext_result(I, st, node, "__import__", args, kw)


@builtin("vars", "globals", "locals", "dir")
def b_vars(I, st, node, args, kw):
    return ext_result(I, st, node, "vars", args, kw)


@builtin("slice")
def b_slice(I, st, node, args, kw):
    vs = [_v(a) for a in args]
    if len(vs) == 1:
        vs = [NONE, vs[0], NONE]
    elif len(vs) == 2:
        vs = vs + [NONE]
    return [(st, V((("sl", vs[0], vs[1], vs[2]),)))]


@builtin("property")
def b_property(I, st, node, args, kw):
    o = Obj("prop", attrs={"get": _v(args[0])} if args else {})
    if len(args) > 1:
        o.attrs["setter"] = _v(args[1])
    return [(st, ref(I.alloc(st, node, o, "prop")))]


@builtin("staticmethod")
def b_sm(I, st, node, args, kw):
    return [(st, I.new(st, node, "sm", attrs={"f": _v(args[0])}))]


@builtin("classmethod")
def b_cm(I, st, node, args, kw):
    return [(st, I.new(st, node, "cm", attrs={"f": _v(args[0])}))]


def ext_binop(I, st, node, op, a, b):
    h = EXTOBJ.get("binop")
    if h is not None:
        r = h(I, st, node, op, a, b)
        if r is not None:
            return r
    ls = atom_labels(I, st, a, set(), 0) | atom_labels(I, st, b, set(), 0)
    return unk(T.mk(op, aterm(a), aterm(b)), None, ls)
