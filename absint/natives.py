"""Models of the Python built-in types and functions."""

import builtins as pyb
import math

from . import bdd
from .bdd import conj, disj, neg, implies
from . import values
from .values import *
from .values import _is_pow2
from .objects import *


class Model:
    """Library object modelled in the analyser."""

    def attr(self, it, name):
        f = getattr(self, "m_" + name, None)
        if f is None:
            return UNBOUND
        return NativeFn(name, lambda it_, a, k: f(it_, *a, **k))

    def setattr(self, it, name, v):
        raise Undecided(f"assignment to {type(self).__name__}.{name}")

    def call(self, it, args, kwargs):
        it.raise_(TypeError, "object is not callable")

    def enter(self, it):
        it.raise_(AttributeError, "__enter__")

    def exit(self, it, exc):
        return None

    def classof(self, it):
        return type(self)

    def text(self, it):
        return None


def fn(name):
    def deco(f):
        return NativeFn(name, lambda it, a, k: f(it, *a, **k))

    return deco


# --- helpers -----------------------------------------------------------------------------


def covers(it, o):
    return implies(o.birth, it.pc)


def gpc(it, o):
    return 1 if implies(o.birth, it.pc) else it.pc


def ckey(k):
    """hashable key of a concrete dictionary key, None if symbolic"""
    t = type(k)
    if t is bool or t is int or t is IntMember:
        return ("n", int(k))
    if t is StrMember:
        return ("s", str.__str__(k))
    if t is float:
        return ("n", k)
    if t is str:
        return ("s", k)
    if t is bytes:
        return ("y", k)
    if k is None:
        return ("none",)
    if t in (Num, B, G, SStr, ABytes, App):
        return None
    if isinstance(k, tuple):
        ks = tuple(ckey(x) for x in k)
        if any(x is None for x in ks):
            return None
        return ("t", ks)
    if t is BoundMethod:
        return key(k)
    if t is SetObj:
        return ("fs", frozenset(ckey(x) for _, x in k.e))
    if t is NativeObj:
        try:
            return ("no", k.obj)
        except TypeError:
            return ("id", id(k))
    if t is Instance:
        dc = k.cls.dc
        if dc and dc["eq"] or k.cls.lookup("__eq__")[0] is not UNBOUND:
            return None  # found by comparison
    return ("id", id(k))


def hashable(it, k):
    if isinstance(k, (ListObj, DictObj, ByteArr)) or (isinstance(k, SetObj) and not k.frozen):
        it.raise_(TypeError, f"unhashable type: '{it.tname(k)}'")
    if isinstance(k, Instance) and k.cls.dc and k.cls.dc["eq"] and not k.cls.dc.get("frozen"):
        if k.cls.lookup("__hash__")[0] is UNBOUND:
            it.raise_(TypeError, f"unhashable type: '{k.cls.name}'")


# --- dictionaries --------------------------------------------------------------------------


def dict_find(it, d, k):
    """[(guard, Entry)] disjoint under pc"""
    hashable(it, k)
    ck = ckey(k)
    if ck is not None:
        out = []
        e = d.index.get(ck)
        if e is not None:
            g = conj(e.g, it.pc)
            if g:
                out.append((g, e))
        for e in d.e:
            if ckey(e.k) is None:
                g = conj(conj(e.g, it.pc), it.eq(e.k, k))
                if g:
                    out.append((g, e))
        return out
    out = []
    for e in d.e:
        g = conj(e.g, it.pc)
        if g:
            g = conj(g, it.eq(e.k, k))
            if g:
                out.append((g, e))
    return out


def dict_set(it, d, k, v):
    k = restrict(k, it.pc)
    if isinstance(k, G):
        it.lift(lambda x: dict_set(it, d, x, v), k)
        return
    if isinstance(v, G):
        v = restrict(v, it.pc)
    own = getattr(d, "owner", None)
    if own is not None and isinstance(k, str):
        if own == "names":
            raise Undecided("assignment to a dictionary of names")
        it.store_attr(own, k, v)
    hits = dict_find(it, d, k)
    rest = it.pc
    site = it.site()
    for g, e in hits:
        rest = bdd.diff(rest, g)
        if implies(e.g, g):
            e.v = v
        else:
            e.v = merge([(g, v), (bdd.diff(e.g, g), e.v)])
        e.site = site
    if rest:
        ck = ckey(k)
        if ck is not None and ck in d.index:
            e = d.index[ck]
            e.v = v if not e.g else merge([(rest, v), (e.g, e.v)])
            e.g = disj(e.g, rest)
            e.site = site
        else:
            e = Entry(1 if implies(d.birth, rest) else rest, k, v, site)
            d.e.append(e)
            if ck is not None:
                d.index[ck] = e


def dict_get(it, d, k, default):
    """default: value, or callable raising"""
    k = restrict(k, it.pc)
    if isinstance(k, G):
        return it.lift(lambda x: dict_get(it, d, x, default), k)
    hits = dict_find(it, d, k)
    rest = it.pc
    res = []
    for g, e in hits:
        rest = bdd.diff(rest, g)
        res.append((g, e.v))
    if rest:
        if callable(default) and not isinstance(default, type):
            full = it.pc
            it.pc = rest
            try:
                v = default()
                res.append((it.pc, v))
                r2 = it.pc
            except PathDead:
                r2 = 0
            it.pc = disj(bdd.diff(full, rest), r2)
            if not it.pc:
                raise PathDead()
        else:
            res.append((rest, default))
    return restrict(merge(res), it.pc)


def dict_del(it, d, k, missing=None):
    k = restrict(k, it.pc)
    if isinstance(k, G):
        it.lift(lambda x: dict_del(it, d, x, missing), k)
        return
    hits = dict_find(it, d, k)
    rest = it.pc
    for g, e in hits:
        rest = bdd.diff(rest, g)
    if rest and missing is None:
        it.may_raise(rest, KeyError, k)
    own = getattr(d, "owner", None)
    if own == "names":
        raise Undecided("deletion from a dictionary of names")
    for g, e in hits:
        if own is not None and isinstance(e.k, str):
            guarded(it, g, lambda: own.attrs.__setitem__(e.k, it.upd(own.attrs.get(e.k, UNBOUND), UNBOUND, own.birth)))
        e.g = bdd.diff(e.g, g)
        if e.g == 0:
            d.e.remove(e)
            ck = ckey(e.k)
            if ck is not None:
                d.index.pop(ck, None)


def dict_has(it, d, k):
    k = restrict(k, it.pc)
    if isinstance(k, G):
        return it.truth(it.lift(lambda x: mkbool(dict_has(it, d, x)), k))
    n = 0
    for g, _ in dict_find(it, d, k):
        n = disj(n, g)
    if n == it.pc:
        return 1
    return n


def dict_items(it, v):
    if isinstance(v, G):
        raise Undecided("guarded mapping")
    if isinstance(v, DictObj):
        return [(e.g, e.k, e.v) for e in v.e if conj(e.g, it.pc)]
    if isinstance(v, NativeObj):
        return [(1, wrap(it, k), wrap(it, x)) for k, x in dict(v.obj).items()]
    if isinstance(v, Instance) and v.cls.lookup("keys")[0] is not UNBOUND:
        ks = it.call(it.getattr(v, "keys"), [])
        return [(g, k, it.getitem(v, k)) for g, k in it.entries(ks)]
    out = []
    for g, pair in it.entries(v):
        p = it.to_list(pair)
        if len(p) != 2:
            it.raise_(ValueError, "dictionary update sequence element has wrong length")
        out.append((g, p[0], p[1]))
    return out


def coalesce(ent, pc):
    """merge neighbouring entries with exclusive guards into one entry"""
    out = []
    for g, x in ent:
        g = conj(g, pc)
        if not g:
            continue
        if out and not conj(out[-1][0], g):
            out[-1][0] = disj(out[-1][0], g)
            out[-1][1].append((g, x))
        else:
            out.append([g, [(g, x)]])
    return [(g, xs[0][1] if len(xs) == 1 else merge(xs)) for g, xs in out]


def guarded(it, g, f):
    """run f under pc & g"""
    full = it.pc
    p = conj(full, g)
    if not p:
        return
    it.pc = p
    try:
        f()
        r = it.pc
    except PathDead:
        r = 0
    it.pc = disj(bdd.diff(full, p), r)
    if not it.pc:
        raise PathDead()


def dict_update(it, d, other):
    other = restrict(other, it.pc)
    if isinstance(other, G):
        it.lift(lambda x: dict_update(it, d, x), other)
        return
    for g, k, v in list(dict_items(it, other)):
        guarded(it, g, lambda: dict_set(it, d, k, v))


def dict_copy(it, d):
    r = DictObj(it.pc)
    r.default_factory = d.default_factory
    for e in d.e:
        g = conj(e.g, it.pc)
        if g:
            ne = Entry(1 if g == it.pc else g, e.k, e.v, e.site)
            r.e.append(ne)
            ck = ckey(e.k)
            if ck is not None:
                r.index[ck] = ne
    return r


def mkdict(it, items):
    d = DictObj(it.pc)
    for k, v in items:
        dict_set(it, d, k, v)
    return d


def dict_eq(it, a, b):
    n = 1
    seen = 0
    for x, y in ((a, b), (b, a)):
        for e in x.e:
            if not conj(e.g, it.pc):
                continue
            m = 0
            for f in y.e:
                g = conj(f.g, it.eq(e.k, f.k))
                if g:
                    m = disj(m, conj(g, it.eq(e.v, f.v)) if x is a else g)
            n = conj(n, disj(neg(e.g), m))
    return n


def ns_dict(it, ns):
    d = mkdict(it, [(k, v) for k, v in ns.items() if v is not UNBOUND])
    d.owner = "names"
    return d


def set_instance_dict(it, o, d):
    """o.__dict__ = d"""
    d = restrict(d, it.pc)
    if not isinstance(d, DictObj) or not implies(o.birth, it.pc):
        raise Undecided("assignment to __dict__")
    own = getattr(d, "owner", None)
    if own == "names":
        raise Undecided("assignment to __dict__")
    if own is not None:
        o.attrs = own.attrs
        o.sites = own.sites
        return
    o.attrs, o.sites = {}, {}
    for g, k, v in list(dict_items(it, d)):
        guarded(it, g, lambda: it.store_attr(o, k, v))
    d.owner = o


def scope_dict(it, name, sc):
    if name == "globals" or sc.kind == "module":
        return ns_dict(it, sc.module.ns)
    s = sc
    while s.kind == "comp":
        s = s.parent
    return ns_dict(it, s.vars)


# --- sets -----------------------------------------------------------------------------------


def set_add(it, s, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        it.lift(lambda x: set_add(it, s, x), v)
        return
    hashable(it, v)
    g0 = gpc(it, s)
    ck = ckey(v)
    if ck is not None:
        i = s.index.get(ck)
        if i is not None:
            s.e[i][0] = disj(s.e[i][0], g0)
            return
        have = 0
        for g, x in s.e:
            if ckey(x) is None:
                have = disj(have, conj(g, it.eq(x, v)))
        s.index[ck] = len(s.e)
        s.e.append([bdd.diff(g0, have) if have else g0, v])
        return
    have = 0
    for g, x in s.e:
        have = disj(have, conj(g, it.eq(x, v)))
    g = bdd.diff(it.pc, have) if have else g0
    if g:
        s.e.append([g, v])


def set_has(it, s, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.truth(it.lift(lambda x: mkbool(set_has(it, s, x)), v))
    hashable(it, v)
    ck = ckey(v)
    n = 0
    if ck is not None:
        i = s.index.get(ck)
        if i is not None:
            n = s.e[i][0]
        for g, x in s.e:
            if ckey(x) is None:
                n = disj(n, conj(g, it.eq(x, v)))
    else:
        for g, x in s.e:
            n = disj(n, conj(g, it.eq(x, v)))
    return n


def set_discard(it, s, v, must=False):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        it.lift(lambda x: set_discard(it, s, x, must), v)
        return
    if must:
        it.may_raise(neg(set_has(it, s, v)), KeyError, v)
    for ent in s.e:
        m = conj(it.pc, it.eq(ent[1], v)) if ckey(v) is None or ckey(ent[1]) is None else (
            it.pc if ckey(v) == ckey(ent[1]) else 0
        )
        if m:
            ent[0] = bdd.diff(ent[0], m)
    _set_clean(s)


def _set_clean(s):
    s.e = [e for e in s.e if e[0]]
    s.index = {}
    for i, e in enumerate(s.e):
        ck = ckey(e[1])
        if ck is not None:
            s.index[ck] = i


def set_from(it, v, frozen=False):
    s = SetObj(it.pc, frozen)
    for g, x in it.entries(v):
        guarded(it, g, lambda: set_add(it, s, x))
    return s


def as_set(it, v):
    return v if isinstance(v, SetObj) else set_from(it, v)


def set_op(it, op, a, b):
    a, b = as_set(it, a), as_set(it, b)
    r = SetObj(it.pc, a.frozen)
    if op in ("BitOr", "Add"):
        src = [(g, x) for g, x in a.e] + [(g, x) for g, x in b.e]
    elif op == "BitAnd":
        src = [(conj(g, set_has(it, b, x)), x) for g, x in a.e]
    elif op == "Sub":
        src = [(bdd.diff(g, set_has(it, b, x)), x) for g, x in a.e]
    elif op == "BitXor":
        src = [(bdd.diff(g, set_has(it, b, x)), x) for g, x in a.e]
        src += [(bdd.diff(g, set_has(it, a, x)), x) for g, x in b.e]
    else:
        it.raise_(TypeError, f"unsupported operand for set: {op}")
    for g, x in src:
        guarded(it, g, lambda: set_add(it, r, x))
    return r


def set_eq(it, a, b):
    if isinstance(a, DictView) and a.kind == "values" or isinstance(b, DictView) and b.kind == "values":
        return 1 if a is b else 0
    a, b = as_set(it, a), as_set(it, b)
    return conj(set_order(it, "LtE", a, b), set_order(it, "GtE", a, b))


def set_order(it, op, a, b):
    if op in ("Gt", "GtE"):
        return set_order(it, {"Gt": "Lt", "GtE": "LtE"}[op], b, a)
    n = 1
    for g, x in a.e:
        n = conj(n, disj(neg(g), set_has(it, b, x)))
    if op == "Lt":
        m = 1
        for g, x in b.e:
            m = conj(m, disj(neg(g), set_has(it, a, x)))
        n = bdd.diff(n, m)
    return n


# --- lists ------------------------------------------------------------------------------------


def list_mutate(it, l, f):
    """f(tuple) -> (result, new tuple)"""
    cur = it.tuple_of(l)
    full = it.pc

    def one(t):
        r, nt = f(t)
        return (r, tuple(nt))

    before = [list(x) for x in l.e]
    if isinstance(cur, G):
        res = it.lift(one, cur)
    else:
        res = one(cur)
    outside = [] if implies(l.birth, it.pc) else [[bdd.diff(g, it.pc), v] for g, v in before]
    outside = [x for x in outside if conj(x[0], l.birth)]
    if isinstance(res, G):
        l.e = outside + [[g, x] for g, (r, t) in res.alts for x in t]
        return merge([(g, r) for g, (r, t) in res.alts])
    g = 1 if implies(l.birth, it.pc) else it.pc
    l.e = outside + [[g, x] for x in res[1]]
    return res[0]


def mklist(it, vals):
    return ListObj(vals, it.pc)


def list_from(it, v):
    l = ListObj((), it.pc)
    for g, x in it.entries(v):
        l.e.append([1 if implies(l.birth, g) else conj(g, l.birth), x])
    # entries may have ended some paths; guards relative to birth stay valid
    return l


def length(it, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: length(it, x), v)
    if isinstance(v, (str, bytes, tuple, range)):
        return len(v)
    if isinstance(v, ABytes):
        return len(v.e)
    if isinstance(v, ByteArr):
        return length(it, v.val)
    if isinstance(v, (ListObj, SetObj)):
        return _count(it, [g for g, _ in v.e])
    if isinstance(v, DictObj):
        return _count(it, [e.g for e in v.e])
    if isinstance(v, DictView):
        return length(it, v.d)
    if isinstance(v, SStr):
        if all(isinstance(p, (str, BitCh)) for p in v.parts):
            return sum(len(p) if isinstance(p, str) else 1 for p in v.parts)
        return App("strlen", (v,))
    if isinstance(v, Instance):
        f, _ = v.cls.lookup("__len__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__len__"), [])
    if isinstance(v, NativeObj):
        try:
            return len(v.obj)
        except TypeError as e:
            it.raise_(TypeError, str(e))
    if isinstance(v, Model) and hasattr(v, "m___len__"):
        return v.m___len__(it)
    if isinstance(v, ClassObj) and getattr(v, "enum", None) is not None:
        return len(v.enum)
    it.raise_(TypeError, f"object of type '{it.tname(v)}' has no len()")


def _count(it, gs):
    c = 0
    acc = 0
    for g in gs:
        g = conj(g, it.pc)
        if g == it.pc:
            c += 1
        elif g:
            acc = add(acc, bit_num(g))
    return add(c, acc) if not isinstance(acc, int) else c + acc


# --- subscripts --------------------------------------------------------------------------------


def slice_of(it, s, n):
    """list of indices for native slice"""
    return range(*slice(s.a, s.b, s.c).indices(n))


def conc_slice(it, s, f):
    """lift over concretized slice bounds"""
    def idx(v):
        if isinstance(v, Instance):
            return it.call(it.getattr(v, "__index__"), [])
        return it.concretize(v)

    return it.lift(lambda a, b, c: f(SliceObj(a, b, c)), idx(s.a), idx(s.b), idx(s.c))


def table_lookup(it, vals, i):
    """lookup of a symbolic index in a tuple of ints: bitwise multiplexer"""
    n = len(vals)
    tb = to_bits(i)
    if tb is None:
        return None
    bits, sign = tb
    if sign != 0:
        return None
    w = len(bits)
    if w > 12 or (1 << w) > n:
        return None
    tab = vals[: 1 << w]
    if not all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in tab):
        return None
    # affine over GF(2)?
    base = tab[0]
    cols = [tab[1 << k] ^ base for k in range(w)]
    affine = True
    for j in range(1 << w):
        x = base
        for k in range(w):
            if (j >> k) & 1:
                x ^= cols[k]
        if x != tab[j]:
            affine = False
            break
    width = max(x.bit_length() for x in tab)
    if affine:
        out = []
        for b in range(width):
            r = (base >> b) & 1
            for k in range(w):
                if (cols[k] >> b) & 1:
                    r = bdd.xor(r, bits[k])
            out.append(r)
        return from_bits(out)
    out = []
    if sum(len(bdd.support(b)) for b in bits if b > 1) > 600:
        raise Undecided("non-linear table over long data")
    for b in range(width):
        memo = {}

        def rec(k, idx):
            if k < 0:
                return (tab[idx] >> b) & 1
            lo = rec(k - 1, idx)
            hi = rec(k - 1, idx | (1 << k))
            return bdd.ite(bits[k], hi, lo)

        out.append(rec(w - 1, 0))
    return from_bits(out)


def getitem(it, o, i):
    o = restrict(o, it.pc)
    i = restrict(i, it.pc)
    if isinstance(o, G):
        return it.lift(lambda x: getitem(it, x, i), o)
    t = type(o)
    if t is DictObj:
        def missing():
            if o.default_factory is not None:
                v = it.call(o.default_factory, [])
                dict_set(it, o, i, v)
                return v
            it.raise_(KeyError, i)

        return dict_get(it, o, i, missing)
    if isinstance(i, SliceObj):
        return conc_slice(it, i, lambda s: _getslice(it, o, s))
    if isinstance(o, (tuple, str, bytes, range)) or t in (ABytes, ListObj, ByteArr):
        if t is ByteArr:
            return getitem(it, o.val, i)
        if isinstance(i, Instance):
            i = it.call(it.getattr(i, "__index__"), [])
        if not (isinstance(i, (int, Num, B, G))):
            it.raise_(TypeError, f"indices must be integers, not {it.tname(i)}")
        if isinstance(i, Num) and i.f or isinstance(i, float):
            it.raise_(TypeError, "indices must be integers or slices, not float")
        if t is ListObj:
            if o.plain() or all(implies(it.pc, g) for g, _ in o.e):
                o = tuple(v for _, v in o.e)
            else:
                o = it.tuple_of(o)
                if isinstance(o, G):
                    return it.lift(lambda x: getitem(it, x, i), o)
        if isinstance(i, Num) and isinstance(o, (tuple, bytes)) and len(o) >= 16:
            lo, hi = nrange(to_num(i))
            if lo >= 0 and hi < len(o):
                r = table_lookup(it, tuple(o), i)
                if r is not None:
                    return r
        i = it.concretize(i)
        e = belems(o) if t is ABytes else o
        n = len(e)

        def one(k):
            if k >= n or k < -n:
                it.raise_(IndexError, f"{it.tname(o)} index out of range")
            return e[k]

        return it.lift(one, i)
    if t is SStr:
        if all(isinstance(p, (str, BitCh)) for p in o.parts):
            ch = [c for p in o.parts for c in (p if isinstance(p, str) else [p])]
            def one(k):
                if k >= len(ch) or k < -len(ch):
                    it.raise_(IndexError, "string index out of range")
                return mkstr([ch[k]])
            return it.lift(one, it.concretize(i))
        if isinstance(i, int) and isinstance(o.parts[0], str) and 0 <= i < len(o.parts[0]):
            return o.parts[0][i]
        if isinstance(i, int) and isinstance(o.parts[-1], str) and i < 0 and -i <= len(o.parts[-1]):
            return o.parts[-1][i]
        return mkstr([Opq(("ch", key(o), key(i)))])
    if t is Instance:
        return it.call(it.getattr(o, "__getitem__"), [i])
    if isinstance(o, (ClassObj, TypeStub, type)):
        if isinstance(o, ClassObj) and getattr(o, "enum", None) is not None:
            if isinstance(i, str):
                if i in o.enum:
                    return o.enum[i]
                it.raise_(KeyError, i)
        return o
    if t is NativeObj:
        try:
            return wrap(it, o.obj[it.native(i)], o)
        except Exception as e:
            if isinstance(e, (Undecided, PathDead)) or type(e).__name__ == "NotConcrete":
                raise Undecided("symbolic index of a library object")
            it.raise_(type(e), *e.args)
    if t is DictView or t is SetObj or o is None or isnum(o):
        it.raise_(TypeError, f"'{it.tname(o)}' object is not subscriptable")
    if isinstance(o, Model) and hasattr(o, "m___getitem__"):
        return o.m___getitem__(it, i)
    if isinstance(o, App):
        return App("item", (o, i))
    raise Undecided(f"subscript of {o!r}")


def _getslice(it, o, s):
    if isinstance(o, G):
        return it.lift(lambda x: _getslice(it, x, s), o)
    if isinstance(o, ByteArr):
        return ByteArr(_getslice(it, restrict(o.val, it.pc), s), it.pc)
    if s.c == 0:
        it.raise_(ValueError, "slice step cannot be zero")
    if isinstance(o, ListObj):
        tu = it.tuple_of(o)
        return it.lift(lambda x: mklist(it, [x[k] for k in slice_of(it, s, len(x))]), tu)
    if isinstance(o, (tuple, str, bytes, range)):
        try:
            return o[slice(s.a, s.b, s.c)]
        except TypeError as e:
            it.raise_(TypeError, str(e))
    if isinstance(o, ABytes):
        try:
            return mkbytes(o.e[k] for k in slice_of(it, s, len(o.e)))
        except TypeError as e:
            it.raise_(TypeError, str(e))
    if isinstance(o, SStr):
        if all(isinstance(p, (str, BitCh)) for p in o.parts):
            ch = [c for p in o.parts for c in (p if isinstance(p, str) else [p])]
            return mkstr([ch[k] for k in slice_of(it, s, len(ch))])
        p0, p1 = o.parts[0], o.parts[-1]
        if s.c in (None, 1):
            if isinstance(p0, str) and isinstance(s.b, int) and 0 <= s.b <= len(p0) and (s.a is None or s.a >= 0):
                return p0[s.a : s.b]
            if isinstance(p0, str) and s.b is None and isinstance(s.a, int) and 0 <= s.a <= len(p0):
                return mkstr((p0[s.a :],) + o.parts[1:])
            if isinstance(p1, str) and s.a in (None, 0) and isinstance(s.b, int) and s.b < 0 and -s.b <= len(p1):
                return mkstr(o.parts[:-1] + (p1[: s.b],))
        return mkstr([Opq(("slice", key(o), key(s.a), key(s.b), key(s.c)))])
    if isinstance(o, Instance):
        return it.call(it.getattr(o, "__getitem__"), [s])
    if isinstance(o, Model) and hasattr(o, "m___getitem__"):
        return o.m___getitem__(it, s)
    if isinstance(o, (ClassObj, TypeStub, type)):
        return o
    it.raise_(TypeError, f"'{it.tname(o)}' object is not subscriptable")


def setitem(it, o, i, v):
    o = restrict(o, it.pc)
    i = restrict(i, it.pc)
    if isinstance(o, G):
        it.lift(lambda x: setitem(it, x, i, v), o)
        return
    if isinstance(o, DictObj):
        dict_set(it, o, i, v)
        return
    if isinstance(o, ListObj):
        if isinstance(i, SliceObj):
            vals = it.to_list(v)

            def f(s):
                def g(t):
                    l = list(t)
                    try:
                        l[slice(s.a, s.b, s.c)] = vals
                    except ValueError as e:
                        it.raise_(ValueError, str(e))
                    return None, l

                list_mutate(it, o, g)

            conc_slice(it, i, f)
            return
        i = it.concretize(i)

        def one(k):
            if not isinstance(k, int):
                it.raise_(TypeError, "list indices must be integers or slices")
            n = len(o.e)
            if all(implies(it.pc, g) for g, _ in o.e):
                if k >= n or k < -n:
                    it.raise_(IndexError, "list assignment index out of range")
                o.e[k][1] = it.upd(o.e[k][1], v, o.birth)
                return None

            def g(t):
                if k >= len(t) or k < -len(t):
                    it.raise_(IndexError, "list assignment index out of range")
                l = list(t)
                l[k] = v
                return None, l

            list_mutate(it, o, g)

        it.lift(one, i)
        return
    if isinstance(o, ByteArr):
        cur = restrict(o.val, it.pc)
        if isinstance(i, SliceObj):
            nv = belems(it.bytes_of(v))

            def fs(s, c):
                l = list(belems(c))
                l[slice(s.a, s.b, s.c)] = nv
                return mkbytes(l)

            new = conc_slice(it, i, lambda s: it.lift(lambda c: fs(s, c), cur))
        else:
            def fi(k, c):
                l = list(belems(c))
                if k >= len(l) or k < -len(l):
                    it.raise_(IndexError, "bytearray index out of range")
                l[k] = v
                return mkbytes(l)

            new = it.lift(fi, it.concretize(i), cur)
        o.val = it.upd(o.val, new, o.birth)
        return
    if isinstance(o, Instance):
        it.call(it.getattr(o, "__setitem__"), [i, v])
        return
    if isinstance(o, NativeObj):
        try:
            o.obj[it.native(i)] = it.native(v)
            return
        except Exception as e:
            if isinstance(e, (Undecided, PathDead)) or type(e).__name__ == "NotConcrete":
                raise Undecided("symbolic store into a library object")
            it.raise_(type(e), *e.args)
    if isinstance(o, Model) and hasattr(o, "m___setitem__"):
        o.m___setitem__(it, i, v)
        return
    it.raise_(TypeError, f"'{it.tname(o)}' object does not support item assignment")


def delitem(it, o, i):
    o = restrict(o, it.pc)
    if isinstance(o, G):
        it.lift(lambda x: delitem(it, x, i), o)
        return
    if isinstance(o, DictObj):
        dict_del(it, o, i)
        return
    if isinstance(o, ListObj):
        def rm(idx):
            def g(t):
                l = list(t)
                try:
                    del l[slice(idx.a, idx.b, idx.c) if isinstance(idx, SliceObj) else idx]
                except IndexError as e:
                    it.raise_(IndexError, str(e))
                return None, l

            list_mutate(it, o, g)

        if isinstance(i, SliceObj):
            conc_slice(it, i, rm)
        else:
            it.lift(rm, it.concretize(i))
        return
    if isinstance(o, ByteArr):
        cur = restrict(o.val, it.pc)

        def rmb(idx):
            def g(c):
                l = list(belems(c))
                try:
                    del l[slice(idx.a, idx.b, idx.c) if isinstance(idx, SliceObj) else idx]
                except IndexError as e:
                    it.raise_(IndexError, str(e))
                return mkbytes(l)

            return it.lift(g, cur)

        if isinstance(i, SliceObj):
            new = conc_slice(it, i, rmb)
        else:
            new = it.lift(rmb, it.concretize(i))
        o.val = it.upd(o.val, new, o.birth)
        return
    if isinstance(o, Instance):
        it.call(it.getattr(o, "__delitem__"), [i])
        return
    it.raise_(TypeError, f"'{it.tname(o)}' object doesn't support item deletion")


# --- text ----------------------------------------------------------------------------------------


_ALIGN = "<>=^"


def norm_spec(spec, isf):
    """Canonical form of a numeric format spec."""
    s = spec
    fill = align = ""
    if len(s) >= 2 and s[1] in _ALIGN:
        fill, align, s = s[0], s[1], s[2:]
    elif s and s[0] in _ALIGN:
        align, s = s[0], s[1:]
    if align == ">" and fill in ("", " "):
        align = fill = ""
    sign = ""
    if s and s[0] in "+- ":
        sign, s = s[0], s[1:]
        if sign == "-":
            sign = ""
    if s.startswith("0") and len(s) > 1 and s[1].isdigit():
        fill, align, s = "0", "=", s[1:]
    if not isf and s.endswith("d"):
        s = s[:-1]
    if s.endswith("F"):
        s = s[:-1] + "f"
    return fill + align + sign + s


def fmt_num(it, v, spec):
    v = to_num(v)
    isf = v.f
    if spec and spec[-1] in "dxXobcn" and isf and spec[-1] != "n":
        it.raise_(ValueError, f"Unknown format code '{spec[-1]}' for object of type 'float'")
    if spec and spec[-1] == "s":
        it.raise_(ValueError, "Unknown format code 's'")
    if spec and spec[-1] == "%":
        return mkstr([Fmt(scale(v, 100), norm_spec(spec[:-1] + "f", True)), "%"])
    if spec and spec[-1] in "xob" and "#" in spec:
        pre = {"x": "0x", "o": "0o", "b": "0b"}[spec[-1]]
        rest = spec.replace("#", "")
        if len(rest) == 1:
            return mkstr([pre, Fmt(v, rest)])
    if spec and spec[-1] == "b" and not isf:
        w = spec[:-1]
        if w.startswith("0") and w[1:].isdigit():
            n = int(w[1:])
            tb = to_bits(v)
            if tb is not None and tb[1] == 0 and len(tb[0]) <= n:
                b = tb[0] + [0] * (n - len(tb[0]))
                return mkstr([("01"[x] if x < 2 else BitCh(x)) for x in reversed(b)])
    if isinstance(v, Num) and spec and spec[-1] in "fFeEgG" and not isf:
        v = to_num(as_float(v))
        isf = True
    return mkstr([Fmt(v, norm_spec(spec, isf))])


def fmt_value(it, v, spec, conv=None):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: fmt_value(it, x, spec, conv), v)
    if isinstance(spec, (SStr, G)):
        if isinstance(spec, G):
            return it.lift(lambda s: fmt_value(it, v, s, conv), spec)
        # widths given by symbolic numbers: not needed
        raise Undecided("symbolic format spec")
    if conv == "s":
        v = to_str(it, v)
    elif conv in ("r", "a"):
        v = to_repr(it, v)
    if isinstance(v, G):
        return it.lift(lambda x: fmt_value(it, x, spec), v)
    if isinstance(v, (IntMember, StrMember)):
        v = to_str(it, v) if not v.plain else int(v) if isinstance(v, int) else str.__str__(v)
    if isinstance(v, (bool, int, float, str)):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            it.raise_(type(e), *e.args)
    if isinstance(v, (Num, App)):
        if isinstance(v, App) and not spec:
            return mkstr([Opq(("str", key(v)))])
        return fmt_num(it, v, spec)
    if isinstance(v, B):
        if not spec:
            return it.branch(v.n, lambda: "True", lambda: "False")
        return fmt_num(it, v, spec)
    if isinstance(v, SStr):
        if spec in ("", "s"):
            return v
        return mkstr([Opq(("fmt", key(v), spec))])
    if isinstance(v, Instance):
        f, _ = v.cls.lookup("__format__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__format__"), [spec])
    if spec and not isinstance(v, (Instance, Model, NativeObj)):
        if isinstance(v, NativeObj):
            pass
        it.raise_(TypeError, f"unsupported format string passed to {it.tname(v)}.__format__")
    if isinstance(v, NativeObj) and spec:
        try:
            return format(v.obj, spec)
        except Exception as e:
            it.raise_(type(e), *e.args)
    return to_str(it, v)


def to_str(it, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: to_str(it, x), v)
    if isinstance(v, (IntMember, StrMember)):
        f, _ = v.ecls.lookup("__str__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__str__"), [])
        return f"{v.ecls.name}.{v.mname}" if not v.plain else str(int(v)) if isinstance(v, int) else str.__str__(v)
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, (Num, B)):
        return fmt_value(it, v, "")
    if isinstance(v, Instance):
        f, owner = v.cls.lookup("__str__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__str__"), [])
        if v.cls.issub(it.exc_class(BaseException)):
            a = v.attrs.get("args", ())
            if isinstance(a, tuple):
                if len(a) == 0:
                    return ""
                if len(a) == 1:
                    return to_repr(it, a[0]) if v.cls.issub(it.exc_class(KeyError)) else to_str(it, a[0])
            return mkstr([Opq(("exc", v.uid))])
    if isinstance(v, Model):
        t = v.text(it)
        if t is not None:
            return t
    return to_repr(it, v)


def to_repr(it, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: to_repr(it, x), v)
    if isinstance(v, (IntMember, StrMember)):
        return f"<{v.ecls.name}.{v.mname}: {int(v) if isinstance(v, int) else str.__str__(v)!r}>"
    if v is None or isinstance(v, (bool, int, float, str, bytes, range)):
        return repr(v)
    if isinstance(v, (Num, B)):
        return fmt_value(it, v, "")
    if isinstance(v, App):
        return mkstr([Opq(("str", key(v)))])
    if isinstance(v, (Instance,)):
        f, _ = v.cls.lookup("__repr__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__repr__"), [])
        return mkstr([f"<{v.cls.module}.{v.cls.name} object at ", Opq(("addr", v.uid)), ">"])
    if isinstance(v, ClassObj):
        return f"<class '{v.module}.{v.qual}'>" if v.module != "builtins" else f"<class '{v.name}'>"
    if isinstance(v, type):
        return repr(v)
    if isinstance(v, NativeObj):
        return repr(v.obj)
    try:
        return repr(it.native(v))
    except Exception:
        return mkstr([Opq(("repr", it.ncalls, id(v)))])


def percent_format(it, s, args):
    if not isinstance(s, str):
        raise Undecided("% on symbolic text")
    if isinstance(args, G):
        return it.lift(lambda a: percent_format(it, s, a), args)
    import re

    vals = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = 0
    named = isinstance(args, DictObj)
    i = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])", s):
        out.append(s[pos : m.start()])
        pos = m.end()
        name, flags, w, p, c = m.groups()
        if c == "%":
            out.append("%")
            continue
        if w == "*":
            w = str(it.native(vals[i]))
            i += 1
        if p == "*":
            p = str(it.native(vals[i]))
            i += 1
        if name:
            v = getitem(it, args, name)
        else:
            if i >= len(vals):
                it.raise_(TypeError, "not enough arguments for format string")
            v = vals[i]
            i += 1
        if c in "diu":
            def toint(x):
                if isinstance(x, (float,)) or isinstance(x, Num) and x.f:
                    return call_type(it, int, [x], {})
                if isinstance(x, (str, SStr)) or x is None:
                    it.raise_(TypeError, "%d format: a real number is required")
                return x

            v = it.lift(toint, restrict(v, it.pc))
            c = "d"
        if c in "sra":
            v = to_str(it, v) if c == "s" else to_repr(it, v)
            if w or p:
                al = "<" if "-" in flags else ">"
                sp = f"{al}{w or ''}" + (f".{p}" if p else "")
                v = it.lift(lambda x: format(x, sp) if isinstance(x, str) else mkstr([Opq(("fmt", key(x), sp))]), v)
            out.append(v)
            continue
        if c in "fFeEgG":
            v = it.lift(lambda x: call_type(it, float, [x], {}) if not isnum(x) else x, restrict(v, it.pc))
            if not p:
                p = "6"
        sp = ""
        if "-" in flags:
            sp += "<"
        if "+" in flags:
            sp += "+"
        elif " " in flags:
            sp += " "
        if "#" in flags:
            sp += "#"
        if "0" in flags and "-" not in flags:
            sp += "0"
        sp += (w or "") + (f".{p}" if p else "") + c
        out.append(fmt_value(it, v, sp))
    out.append(s[pos:])
    if not named and i < len(vals) and isinstance(args, tuple):
        it.raise_(TypeError, "not all arguments converted during string formatting")
    return it.concat_parts(out)


def str_format(it, s, args, kwargs):
    if not isinstance(s, str):
        raise Undecided("format on symbolic text")
    import string

    out = []
    auto = 0

    def field(name):
        nonlocal auto
        first, rest = string.formatter_parser if False else (None, None)
        import _string

        first, rest = _string.formatter_field_name_split(name)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                it.raise_(IndexError, "Replacement index out of range")
            v = args[first]
        else:
            if first not in kwargs:
                it.raise_(KeyError, first)
            v = kwargs[first]
        for isattr, x in rest:
            v = it.getattr(v, x) if isattr else getitem(it, v, x)
        return v

    try:
        parsed = list(string.Formatter().parse(s))
    except ValueError as e:
        it.raise_(ValueError, str(e))
    for lit, name, spec, conv in parsed:
        out.append(lit)
        if name is None:
            continue
        v = field(name)
        if spec and "{" in spec:
            spec = str_format_inner(it, spec, field)
        out.append(fmt_value(it, v, spec or "", conv))
    return it.concat_parts(out)


def str_format_inner(it, spec, field):
    import string

    out = []
    for lit, name, sp, conv in string.Formatter().parse(spec):
        out.append(lit)
        if name is not None:
            out.append(fmt_value(it, field(name), sp or "", conv))
    return it.concat_parts(out)


def parse_int(it, s, base=10):
    """int(text, base)"""
    if isinstance(s, str):
        try:
            return int(s, base)
        except ValueError as e:
            it.raise_(ValueError, str(e))
    parts = list(s.parts)
    # strip blanks
    while parts and isinstance(parts[0], str) and not parts[0].strip():
        parts.pop(0)
    while parts and isinstance(parts[-1], str) and not parts[-1].strip():
        parts.pop()
    if all(isinstance(p, (str, BitCh)) for p in parts):
        ch = [c for p in parts for c in (p if isinstance(p, str) else [p])]
        if base == 2:
            if ch[:2] == ["0", "b"]:
                ch = ch[2:]
            bits = []
            for c in ch:
                if isinstance(c, BitCh):
                    bits.append(c.n)
                elif c in "01":
                    bits.append(int(c))
                else:
                    it.raise_(ValueError, "invalid literal for int()")
            return from_bits(list(reversed(bits)))
        if base == 10:
            r = 0
            for c in ch:
                r = add(scale(r, 10), bit_num(c.n) if isinstance(c, BitCh) else int(c))
            return r
    if len(parts) == 2 and parts[0] in ("0x", "0X") and isinstance(parts[1], Fmt) and base in (16, 0):
        if parts[1].spec.endswith(("x", "X")):
            return simp(to_num(parts[1].v))
    if all(isinstance(p, Fmt) and p.spec.lstrip("=") in ("02x", "0=2x", "2x", "02X", "0=2X") for p in parts) and base == 16:
        r = 0
        for p in parts:
            lo, hi = nrange(to_num(p.v))
            if lo < 0 or hi > 255:
                raise Undecided("hex text")
            r = add(scale(r, 256), p.v)
        return r
    if len(parts) == 1 and isinstance(parts[0], Fmt):
        p = parts[0]
        v = to_num(p.v)
        if v.f:
            it.raise_(ValueError, "invalid literal for int()") if p.spec else None
            raise Undecided("int() of float text")
        if p.spec.endswith(("x", "X")):
            if base == 16:
                return simp(v)
        elif p.spec.endswith("b"):
            if base == 2:
                return simp(v)
        elif p.spec.endswith("o"):
            if base == 8:
                return simp(v)
        elif base == 10:
            return simp(v)
    return App("int", (mkstr(parts), base))


def str_split(it, s, sep, maxsplit=-1):
    """SStr split on a literal separator (numbers contain no separator)"""
    out = [[]]
    for p in s.parts:
        if isinstance(p, str):
            if sep is None:
                toks = p.split()
                if not toks:
                    out.append([])
                    continue
                if p[0].isspace():
                    out.append([])
                for i, t in enumerate(toks):
                    if i:
                        out.append([])
                    out[-1].append(t)
                if p[-1].isspace():
                    out.append([])
            else:
                toks = p.split(sep)
                out[-1].append(toks[0])
                for t in toks[1:]:
                    out.append([t])
        else:
            if isinstance(p, Opq) or isinstance(p, (G, Json)):
                raise Undecided("split of opaque text")
            if isinstance(p, Fmt) and sep not in (None, " ", ",", ";", ":", "\t", "\n", "|"):
                raise Undecided("split of formatted number")
            if isinstance(p, Fmt) and sep in (None, " ") and any(c.isdigit() for c in p.spec.split(".")[0]) and not p.spec.startswith("0"):
                raise Undecided("split of padded number")
            out[-1].append(p)
    toks = [mkstr(x) for x in out]
    if sep is None:
        toks = [t for t in toks if t != ""]
    if maxsplit not in (-1, None):
        raise Undecided("maxsplit on symbolic text")
    return mklist(it, toks)


def str_strip(it, s, chars, left=True, right=True):
    parts = list(s.parts)
    if left:
        while parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(chars)
            if parts[0]:
                break
            parts.pop(0)
    if right:
        while parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(chars)
            if parts[-1]:
                break
            parts.pop()
    for p in (parts[:1] if left else []) + (parts[-1:] if right else []):
        if isinstance(p, (Opq, G)):
            return mkstr([Opq(("strip" if left and right else "lstrip" if left else "rstrip", key(mkstr(parts)), chars))])
    return mkstr(parts)


# --- bytes ---------------------------------------------------------------------------------------


def bytes_find(it, b, x, start=0, end=None):
    """position of x in b (first), -1 if absent; guarded"""
    if isinstance(b, G):
        return it.lift(lambda y: bytes_find(it, y, x, start, end), b)
    e = belems(b)
    n = len(e)
    if isinstance(x, (int, Num)):
        pat = (x,)
    else:
        pat = belems(it.bytes_of(x))

    def one(s, t):
        s0, t0, _ = slice(s, t).indices(n)
        m = len(pat)
        rem = it.pc
        res = []
        for p in range(s0, t0 - m + 1):
            g = rem
            for j in range(m):
                g = conj(g, num_eq(e[p + j], pat[j]))
                if not g:
                    break
            if g:
                res.append((g, p))
                rem = bdd.diff(rem, g)
                if not rem:
                    break
        if rem:
            res.append((rem, -1))
        return merge(res)

    return it.lift(one, it.concretize(start), it.concretize(end))


def mk_bytes_from(it, v):
    """bytes(iterable)"""
    out = []
    for g, x in it.entries(v):
        if not implies(it.pc, g):
            raise Undecided("byte string length depends on data")
        if isinstance(x, G):
            x = restrict(x, it.pc)
        out.append(x)

    def chk(x):
        if isinstance(x, B):
            x = bit_num(x.n)
        if isinstance(x, App):
            return x
        if not isnum(x) or isinstance(x, float) or (isinstance(x, Num) and x.f):
            it.raise_(TypeError, f"'{it.tname(x)}' object cannot be interpreted as an integer")
        x = int(x) if isinstance(x, bool) else x
        bad = disj(it.order("Lt", x, 0), it.order("Gt", x, 255))
        if bad:
            it.may_raise(bad, ValueError, "bytes must be in range(0, 256)")
        return x

    return mkbytes([it.lift(chk, x) for x in out])


def decode_bytes(it, b, enc="utf-8", errors="strict"):
    enc = str(enc).lower().replace("_", "-")
    if isinstance(b, bytes):
        try:
            return b.decode(enc, errors)
        except (UnicodeDecodeError, LookupError) as e:
            it.raise_(type(e), *e.args)
    values.TEXTS[key(b)] = 1
    if enc in ("latin-1", "latin1", "iso-8859-1"):
        return mkstr([Opq(("latin1", key(b)))])
    if enc == "utf8":
        enc = "utf-8"
    k = (enc, errors, key(b))
    if errors == "strict":
        it.may_raise(bdd.var(("undecodable", enc, key(b))), UnicodeDecodeError, enc, b"", 0, 1, "invalid")
    return mkstr([Opq(("decode",) + k)])


def to_bytes_int(it, v, n, order, signed=False):
    if isinstance(v, int):
        try:
            return int(v).to_bytes(n, order, signed=signed)
        except OverflowError as e:
            it.raise_(OverflowError, str(e))
    tb = to_bits(v)
    if tb is None:
        raise Undecided("to_bytes")
    bits, sign = tb
    if not signed:
        it.may_raise(sign, OverflowError, "can't convert negative int to unsigned")
        over = 0
        for x in bits[8 * n :]:
            over = disj(over, x)
        it.may_raise(over, OverflowError, "int too big to convert")
    ext = [bits[i] if i < len(bits) else sign for i in range(8 * n)]
    e = [from_bits(ext[8 * i : 8 * i + 8]) for i in range(n)]
    if order == "big":
        e.reverse()
    return mkbytes(e)


def from_bytes_int(it, b, order, signed=False):
    e = list(belems(it.bytes_of(b)))
    if order == "big":
        e.reverse()
    if not any(isinstance(x, (G, App)) for x in e):
        bits = []
        for x in e:
            tb = to_bits(x)
            bb = tb[0][:8]
            bits += bb + [0] * (8 - len(bb))
        if signed and bits:
            return from_bits(bits[:-1], bits[-1])
        return from_bits(bits)
    r = 0
    for i, x in enumerate(e):
        r = it.binop("Add", r, it.binop("Mult", x, 256**i))
    if signed:
        raise Undecided("signed from_bytes of opaque data")
    return r


# --- classes --------------------------------------------------------------------------------------


def classof(it, v):
    if isinstance(v, G):
        return it.lift(lambda x: classof(it, x), v)
    t = type(v)
    if t is Num:
        return float if v.f else int
    if t is B:
        return bool
    if t is SStr:
        return str
    if t is ABytes:
        return bytes
    if t is ByteArr:
        return bytearray
    if t is ListObj:
        return list
    if t is DictObj:
        return dict
    if t is SetObj:
        return frozenset if v.frozen else set
    if t is Instance:
        return v.cls
    if t is EnumMember:
        return v.cls
    if t is IntMember or t is StrMember:
        return v.ecls
    if isinstance(v, NTuple_()):
        return v.cls
    if t is ClassObj:
        return type
    if isinstance(v, Model):
        return v.classof(it)
    if t is NativeObj:
        return type(v.obj)
    if t in (FuncObj, BoundMethod, NativeFn, CacheFn, PartialObj):
        return type(classof)
    if t is App:
        return float
    return t


def unmodelled(it, o, name):
    """an attribute the real object has but the model has not: no answer rather than AttributeError"""
    if name.startswith("__") and name in ("__wrapped__", "__isabstractmethod__", "__fspath__", "__get__", "__set__", "__set_name__", "__enter__", "__exit__"):
        return
    if isinstance(o, NativeMod):
        import importlib

        try:
            m = importlib.import_module(o.name)
        except Exception:
            raise Undecided(f"{o.name}.{name}")
        if hasattr(m, name):
            raise Undecided(f"{o.name}.{name}")
        return
    if isinstance(o, Model):
        real = getattr(o, "real", None)
        if real is None or hasattr(real, name):
            raise Undecided(f"{type(o).__name__}.{name}")
        return
    if isinstance(o, FileObj):
        import io

        if hasattr(io.BufferedRandom if "b" in o.mode else io.TextIOWrapper, name):
            raise Undecided(f"file.{name}")
        return
    if isinstance(o, (IterObj, DictView, GenericCtx, CtxInst)):
        raise Undecided(f"{type(o).__name__}.{name}")
    if isinstance(o, type):
        if hasattr(o, name):
            raise Undecided(f"{o.__name__}.{name}")
        return
    if isinstance(o, (StaticM, ClassM, PropertyObj, TypeStub, SliceObj)):
        return
    c = classof(it, o)
    if isinstance(c, type) and hasattr(c, name):
        raise Undecided(f"{c.__name__}.{name}")


def NTuple_():
    from .interp import NTuple

    return NTuple


def isinstance_(it, v, cls):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        n = 0
        for g, x in v.alts:
            n = disj(n, conj(g, isinstance_(it, x, cls)))
        return n
    cls = restrict(cls, it.pc)
    if isinstance(cls, G):
        n = 0
        for g, c in cls.alts:
            n = disj(n, conj(g, isinstance_(it, v, c)))
        return n
    if isinstance(cls, tuple):
        n = 0
        for c in cls:
            n = disj(n, isinstance_(it, v, c))
        return n
    return 1 if subclass_(it, classof(it, v), cls, v) else 0


def natbase_of(v):
    return getattr(v.cls, "natbase", None) if isinstance(v, Instance) else None


_ABC = {
    "Iterable": lambda it, v: isinstance(v, (tuple, str, bytes, range, SStr, ABytes, ListObj, DictObj, SetObj, DictView, ByteArr, IterObj)) or isinstance(v, Instance) and v.cls.lookup("__iter__")[0] is not UNBOUND,
    "Iterator": lambda it, v: isinstance(v, IterObj),
    "Generator": lambda it, v: isinstance(v, IterObj),
    "Callable": lambda it, v: isinstance(v, (FuncObj, BoundMethod, NativeFn, ClassObj, type, PartialObj, CacheFn)),
    "Mapping": lambda it, v: isinstance(v, DictObj) or natbase_of(v) is dict,
    "MutableMapping": lambda it, v: isinstance(v, DictObj) or natbase_of(v) is dict,
    "Sequence": lambda it, v: isinstance(v, (tuple, str, bytes, range, SStr, ABytes, ListObj)),
    "MutableSequence": lambda it, v: isinstance(v, ListObj),
    "Set": lambda it, v: isinstance(v, SetObj),
    "Sized": lambda it, v: isinstance(v, (tuple, str, bytes, range, SStr, ABytes, ListObj, DictObj, SetObj, DictView)),
    "Container": lambda it, v: isinstance(v, (tuple, str, bytes, range, SStr, ABytes, ListObj, DictObj, SetObj, DictView)),
    "Collection": lambda it, v: isinstance(v, (tuple, str, bytes, range, SStr, ABytes, ListObj, DictObj, SetObj, DictView)),
    "Hashable": lambda it, v: not isinstance(v, (ListObj, DictObj, ByteArr)),
    "Number": lambda it, v: isnum(v),
    "Real": lambda it, v: isnum(v),
    "Integral": lambda it, v: isnum(v) and not isinstance(v, float) and not (isinstance(v, Num) and v.f),
    "Any": lambda it, v: True,
}


def subclass_(it, c, cls, v=None):
    if isinstance(cls, TypeStub):
        f = _ABC.get(cls.name)
        if f is None or v is None:
            raise Undecided(f"isinstance against {cls.name}")
        return bool(f(it, v))
    if cls is it.object_cls or cls is object:
        return True
    if cls is None or cls is type(None):
        return c is type(None)
    if isinstance(c, ClassObj):
        if isinstance(cls, ClassObj):
            return c.issub(cls)
        if isinstance(cls, type):
            if c.native and issubclass(c.native, cls):
                return True
            if isinstance(v, (IntMember, StrMember)):
                return issubclass(int if isinstance(v, int) else str, cls)
            nb = getattr(c, "natbase", None)
            return nb is not None and issubclass(nb, cls)
        return False
    if isinstance(cls, ClassObj):
        if cls.native is not None and isinstance(c, type):
            return issubclass(c, cls.native)
        return False
    if isinstance(cls, type) and isinstance(c, type):
        if isinstance(v, FileObj):
            return True if cls.__module__ in ("_io", "io") and (("b" in v.mode) == (cls.__name__.startswith("Buffered") or cls.__name__ in ("FileIO", "RawIOBase", "BufferedIOBase")) or cls.__name__ == "IOBase") else False
        if isinstance(v, App):
            return cls in (int, float)
        return issubclass(c, cls)
    it.raise_(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")


def slots_of(it, cls):
    r = getattr(cls, "_slots", 0)
    if r != 0:
        return r
    out = set()
    for c in cls.mro:
        if c is it.object_cls or c.native is object or getattr(c, "noslot", False):
            continue
        if c.native is not None:
            out = None
            break
        s = c.ns.get("__slots__", UNBOUND)
        if c.dc and c.dc.get("slots"):
            out |= set(c.dc["fields"])
            continue
        if s is UNBOUND:
            out = None
            break
        names = [s] if isinstance(s, str) else [x for x in it.to_list(s)]
        for n in names:
            if "__dict__" == n:
                out = None
                break
            if n.startswith("__") and not n.endswith("__"):
                n = "_" + c.name.lstrip("_") + n
            out.add(n)
        if out is None:
            break
    cls._slots = out
    return out


def build_class(it, name, bases, ns, module, qual, holder, kwargs):
    from . import lib

    nb = []
    natbase = None
    enumish = None
    ntuple = False
    for b in bases:
        if isinstance(b, G):
            raise Undecided("guarded base class")
        if isinstance(b, NativeFn):
            raise Undecided(f"base class {b.name}")
        if isinstance(b, ClassObj):
            if getattr(b, "enumkind", None):
                enumish = b.enumkind
            nb.append(b)
        elif b is object or b is it.object_cls:
            nb.append(it.object_cls)
        elif isinstance(b, TypeStub):
            if b.name == "NamedTuple":
                ntuple = True
            continue
        elif isinstance(b, type):
            if issubclass(b, BaseException):
                nb.append(it.exc_class(b))
            elif b in (dict, list) and not enumish:
                natbase = b
                nb.append(it.import_module("builtins@").ns[b.__name__ + "_"])
            elif b in (int, str, float, dict, list, tuple, set, bytes):
                natbase = b
            elif issubclass(b, Model) or b.__module__ in ("abc", "typing"):
                natbase = b
            else:
                natbase = b
        elif isinstance(b, tuple):
            continue
    if it.object_cls not in nb:
        nb = [b for b in nb if b is not it.object_cls] + [it.object_cls]
    c = ClassObj(name, nb, ns, module.name, None, qual)
    c.file = module.file
    c.ann = holder["ann"]
    c.natbase = natbase
    c.modobj = module
    c.nodescope = holder
    for k in c.mro[1:]:
        if c.native is None and k.native is not None and k.native is not object:
            c.native_exc = k.native
        if natbase is None and getattr(k, "natbase", None) is not None:
            c.natbase = k.natbase
    if natbase in (set, tuple, str, int, float, bytes) and not enumish:
        raise Undecided(f"subclass of builtin {natbase.__name__}")
    if ntuple:
        c.ntfields = list(c.ann)
        return c
    if enumish:
        _make_enum(it, c, enumish, natbase)
    for k, v in list(ns.items()):
        if isinstance(v, CachedProp) and v.name is None:
            v.name = k
        if isinstance(v, Instance):
            f, _ = v.cls.lookup("__set_name__")
            if f is not UNBOUND:
                it.call(it.getattr(v, "__set_name__"), [c, k])
    f, _ = UNBOUND, None
    for b in c.mro[1:]:
        if "__init_subclass__" in b.ns:
            g = b.ns["__init_subclass__"]
            it.call(BoundMethod(g.f if isinstance(g, (ClassM, StaticM)) else g, c), [], kwargs)
            break
    return c


def _make_enum(it, c, kind, natbase):
    members = {}
    last = 0
    for k, v in list(c.ns.items()):
        if k.startswith("_") or isinstance(v, (FuncObj, PropertyObj, StaticM, ClassM, CachedProp)):
            continue
        if isinstance(v, TypeStub) and v.name == "auto":
            v = last + 1 if kind not in ("flag",) else (1 << len(members))
            if kind == "str":
                v = k.lower()
        if isinstance(v, int):
            last = v
        if kind in ("int", "str") or natbase in (int, str):
            plain = kind in ("int", "str")
            if not isinstance(v, (int, str)):
                raise Undecided("enumeration with constructed members")
            m = next((x for x in members.values() if x == v), None)
            if m is None:
                m = IntMember(c, k, v, plain) if isinstance(v, int) else StrMember(c, k, v, plain)
        else:
            if any(b.ns.get("__init__") or b.ns.get("__new__") for b in c.mro if b is not it.object_cls):
                raise Undecided("enumeration with constructed members")
            m = None
            for x in members.values():
                if isinstance(x, EnumMember) and key(x.value) == key(v):
                    m = x
            if m is None:
                m = EnumMember(c, k, v)
        members[k] = m
        c.ns[k] = m
    c.enum = members


# dataclasses ------------------------------------------------------------------------------------


def _ann_src(node):
    import ast

    try:
        return ast.unparse(node) if not isinstance(node, str) else node
    except Exception:
        return "Any"


def make_dataclass(it, cls, opts):
    fields = {}
    for b in reversed(cls.mro[1:]):
        if b.dc:
            for n, f in b.dc["own"].items():
                fields[n] = f
    own = {}
    kwonly = bool(opts.get("kw_only", False))
    for n, ann in cls.ann.items():
        src = _ann_src(ann)
        if src.startswith(("ClassVar", "typing.ClassVar")):
            continue
        if src in ("KW_ONLY", "dataclasses.KW_ONLY"):
            kwonly = True
            continue
        d = cls.ns.get(n, UNBOUND)
        if isinstance(d, FieldSpec):
            f = d
            if f.default is not UNBOUND:
                cls.ns[n] = f.default
            else:
                cls.ns.pop(n, None)
        else:
            if isinstance(d, (ListObj, DictObj)) or isinstance(d, SetObj) and not d.frozen:
                it.raise_(ValueError, f"mutable default for field {n} is not allowed: use default_factory")
            f = FieldSpec(d)
        f.name = n
        f.type = src
        f.kw_only = f.kw_only or kwonly
        own[n] = f
        fields.pop(n, None) if False else None
        fields[n] = f
    cls.dc = {
        "fields": fields,
        "own": own,
        "eq": opts.get("eq", True),
        "frozen": opts.get("frozen", False),
        "slots": opts.get("slots", False),
        "order": opts.get("order", False),
    }
    if opts.get("slots"):
        cls._slots = 0
        cls.ns["__slots__"] = tuple(own)
        for n in own:
            cls.ns.pop(n, None)
    if opts.get("init", True) and not isinstance(cls.ns.get("__init__"), FuncObj):
        nf = NativeFn("__init__", lambda it_, a, k: dc_init(it_, cls, a, k))
        nf.method = True
        cls.ns["__init__"] = nf
    if opts.get("repr", True) and "__repr__" not in cls.ns:
        nf = NativeFn("__repr__", lambda it_, a, k: dc_repr(it_, a[0]))
        nf.method = True
        cls.ns["__repr__"] = nf
    return cls


def dc_repr(it, o):
    parts = [o.cls.qual, "("]
    for i, n in enumerate(o.cls.dc["fields"]):
        parts += [", " if i else "", n, "=", to_repr(it, it.getattr(o, n))]
    parts.append(")")
    return it.concat_parts(parts)


def dc_init(it, cls, args, kwargs):
    o = args[0]
    vals = list(args[1:])
    fields = cls.dc["fields"]
    pos = [f for f in fields.values() if f.init and not f.kw_only]
    if len(vals) > len(pos):
        it.raise_(TypeError, "__init__() takes too many positional arguments")
    given = {f.name: v for f, v in zip(pos, vals)}
    for k, v in kwargs.items():
        if k not in fields or not fields[k].init or k in given:
            it.raise_(TypeError, f"__init__() got an unexpected keyword argument '{k}'")
        given[k] = v
    for n, f in fields.items():
        if n in given:
            v = given[n]
        elif f.factory is not None:
            v = it.call(f.factory, [])
        elif f.default is not UNBOUND:
            v = f.default
        elif not f.init:
            continue
        else:
            it.raise_(TypeError, f"__init__() missing required argument: '{n}'")
        it.store_attr(o, n, v)
    p, _ = cls.lookup("__post_init__")
    if p is not UNBOUND:
        it.call(it.getattr(o, "__post_init__"), [])
    return None


def is_dc(v):
    if isinstance(v, Instance):
        return bool(v.cls.dc or any(c.dc for c in v.cls.mro))
    if isinstance(v, ClassObj):
        return bool(v.dc or any(c.dc for c in v.mro))
    return False


def dc_fields(v):
    c = v.cls if isinstance(v, Instance) else v
    for k in c.mro:
        if k.dc:
            return k.dc["fields"]
    return None


def field_objs(it, v):
    fs = dc_fields(v)
    if fs is None:
        it.raise_(TypeError, "must be called with a dataclass type or instance")
    out = []
    for n, f in fs.items():
        i = Instance(it.object_cls, 1)
        i.attrs.update(name=n, type=f.type, init=f.init, compare=f.compare, kw_only=f.kw_only)
        i.attrs["default"] = f.default if f.default is not UNBOUND else TypeStub("MISSING")
        i.attrs["default_factory"] = f.factory if f.factory is not None else TypeStub("MISSING")
        out.append(i)
    return out


def asdict(it, v, dict_factory=None, top=True):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: asdict(it, x, dict_factory, top), v)
    if isinstance(v, Instance) and is_dc(v):
        d = DictObj(it.pc)
        for n in dc_fields(v):
            x = asdict(it, it.getattr(v, n), dict_factory, False)
            dict_set(it, d, n, x)
            e = d.index.get(("s", n))
            if e is not None and n in v.sites:
                e.site = v.sites[n]
        if dict_factory is not None and dict_factory is not dict:
            return it.call(dict_factory, [mklist(it, [(e.k, e.v) for e in d.e])])
        return d
    if top:
        it.raise_(TypeError, "asdict() should be called on dataclass instances")
    if isinstance(v, tuple):
        if isinstance(v, NTuple_()):
            return v
        return tuple(asdict(it, x, dict_factory, False) for x in v)
    if isinstance(v, ListObj):
        l = ListObj((), it.pc)
        l.e = [[g, asdict(it, x, dict_factory, False)] for g, x in v.e if conj(g, it.pc)]
        return l
    if isinstance(v, DictObj):
        d = DictObj(it.pc)
        for e in v.e:
            g = conj(e.g, it.pc)
            if not g:
                continue
            ne = Entry(1 if g == it.pc else g, e.k, asdict(it, e.v, dict_factory, False), e.site)
            d.e.append(ne)
            if ckey(e.k) is not None:
                d.index[ckey(e.k)] = ne
        return d
    return deepcopy(it, v, {})


def deepcopy(it, v, memo):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: deepcopy(it, x, memo), v)
    if isinstance(v, (Instance, ListObj, DictObj, SetObj, ByteArr)):
        k = id(v)
        if k in memo:
            return memo[k][0]
    if isinstance(v, Instance):
        f, _ = v.cls.lookup("__deepcopy__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__deepcopy__"), [DictObj(it.pc)])
        o = Instance(v.cls, it.pc)
        memo[id(v)] = (o, v)
        for n, x in v.attrs.items():
            x = restrict(x, it.pc)
            if isinstance(x, G) and any(y is UNBOUND for _, y in x.alts):
                o.attrs[n] = G([(g, y if y is UNBOUND else deepcopy(it, y, memo)) for g, y in x.alts])
            else:
                o.attrs[n] = x if x is UNBOUND else deepcopy(it, x, memo)
            if n in v.sites:
                o.sites[n] = v.sites[n]
        return o
    if isinstance(v, ListObj):
        l = ListObj((), it.pc)
        memo[id(v)] = (l, v)
        l.e = [[1 if implies(it.pc, g) else conj(g, it.pc), deepcopy(it, x, memo)] for g, x in v.e if conj(g, it.pc)]
        return l
    if isinstance(v, DictObj):
        d = DictObj(it.pc)
        d.default_factory = v.default_factory
        memo[id(v)] = (d, v)
        for e in v.e:
            g = conj(e.g, it.pc)
            if g:
                ne = Entry(1 if g == it.pc else g, deepcopy(it, e.k, memo), deepcopy(it, e.v, memo), e.site)
                d.e.append(ne)
                if ckey(ne.k) is not None:
                    d.index[ckey(ne.k)] = ne
        return d
    if isinstance(v, SetObj):
        s = SetObj(it.pc, v.frozen)
        s.e = [list(x) for x in v.e]
        s.index = dict(v.index)
        return s
    if isinstance(v, ByteArr):
        return ByteArr(v.val, it.pc)
    if isinstance(v, NTuple_()):
        r = NTuple_()(deepcopy(it, x, memo) for x in v)
        r.cls = v.cls
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, (FileObj, IterObj)):
        it.raise_(TypeError, f"cannot pickle '{it.tname(v)}' object")
    return v


def shallow_copy(it, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: shallow_copy(it, x), v)
    if isinstance(v, Instance):
        f, _ = v.cls.lookup("__copy__")
        if f is not UNBOUND:
            return it.call(it.getattr(v, "__copy__"), [])
        o = Instance(v.cls, it.pc)
        o.attrs = dict(v.attrs)
        o.sites = dict(v.sites)
        return o
    if isinstance(v, ListObj):
        l = ListObj((), it.pc)
        l.e = [[1 if implies(it.pc, g) else conj(g, it.pc), x] for g, x in v.e if conj(g, it.pc)]
        return l
    if isinstance(v, DictObj):
        return dict_copy(it, v)
    if isinstance(v, SetObj):
        return set_from(it, v, v.frozen)
    if isinstance(v, ByteArr):
        return ByteArr(v.val, it.pc)
    return v


def instantiate(it, cls, args, kwargs):
    if getattr(cls, "enum", None) is not None and args:
        v = args[0]
        res = []
        rest = it.pc
        for m in cls.enum.values():
            g = conj(rest, it.eq(m.value if isinstance(m, EnumMember) else m, v))
            if g:
                res.append((g, m))
                rest = bdd.diff(rest, g)
        if rest and any(b.name in ("Flag", "IntFlag") and b.module == "enum" for b in cls.mro):
            if not any(b.name == "IntFlag" for b in cls.mro):
                raise Undecided("combined flags")
            res.append((rest, v))
        elif rest:
            if isinstance(cls.lookup("_missing_")[0], (ClassM, FuncObj)):
                raise Undecided("_missing_ of an enumeration")
            it.may_raise(rest, ValueError, f"not a valid {cls.name}")
        return merge(res)
    nt = getattr(cls, "ntfields", None)
    if nt is None:
        for c in cls.mro:
            if getattr(c, "ntfields", None) is not None:
                nt = c.ntfields
    if nt is not None:
        vals = list(args)
        for n in nt[len(vals):]:
            if n in kwargs:
                vals.append(kwargs.pop(n))
            else:
                d, _ = cls.lookup(n)
                dd = getattr(cls, "ntdefaults", {}).get(n, d)
                if dd is UNBOUND:
                    it.raise_(TypeError, f"missing required argument: '{n}'")
                vals.append(dd)
        if len(vals) != len(nt) or kwargs:
            it.raise_(TypeError, f"{cls.name}() wrong arguments")
        r = NTuple_()(vals)
        r.cls = cls
        return r
    if cls.native is not None and cls.native is not object and isinstance(cls.native, type) and not issubclass(cls.native, BaseException):
        return call_type(it, cls.native, args, kwargs)
    ab = abstract_methods(it, cls)
    if ab:
        it.raise_(TypeError, f"Can't instantiate abstract class {cls.name} without an implementation for abstract methods {sorted(ab)}")
    new, _ = cls.lookup("__new__")
    if new is not UNBOUND:
        f = new.f if isinstance(new, (StaticM, ClassM)) else new
        o = it.call(f, [cls] + list(args), kwargs)
        if not isinstance(o, Instance) or not o.cls.issub(cls):
            if isinstance(o, G):
                it.lift(lambda x: _init(it, x, cls, args, kwargs) if isinstance(x, Instance) else None, o)
            return o
        _init(it, o, cls, args, kwargs)
        return o
    o = new_instance(it, cls, args)
    _init(it, o, cls, args, kwargs)
    return o


def new_instance(it, cls, args=()):
    o = Instance(cls, it.pc)
    if cls.issub(it.exc_class(BaseException)):
        o.attrs["args"] = tuple(args)
        if any(c.native and issubclass(c.native, OSError) for c in cls.mro):
            o.attrs["errno"] = args[0] if len(args) > 1 else None
            o.attrs["strerror"] = args[1] if len(args) > 1 else None
            o.attrs["filename"] = args[2] if len(args) > 2 else None
    return o


def _init(it, o, cls, args, kwargs):
    init, owner = cls.lookup("__init__")
    if init is not UNBOUND:
        it.call(it.bind(init, o, cls), args, kwargs)
    elif (args or kwargs) and not cls.issub(it.exc_class(BaseException)) and cls.lookup("__new__")[0] is UNBOUND:
        it.raise_(TypeError, f"{cls.name}() takes no arguments")


def abstract_methods(it, cls):
    r = getattr(cls, "_abs", None)
    if r is not None:
        return r
    r = set()
    if any(getattr(c, "isabc", False) for c in cls.mro):
        names = set()
        for c in cls.mro:
            names |= set(c.ns)
        for n in names:
            v, _ = cls.lookup(n)
            if is_abstract(v):
                r.add(n)
    cls._abs = r
    return r


def is_abstract(v):
    if isinstance(v, FuncObj):
        return bool(v.attrs.get("__isabstractmethod__"))
    if isinstance(v, (StaticM, ClassM)):
        return is_abstract(v.f)
    if isinstance(v, PropertyObj):
        return is_abstract(v.fget)
    return False


def object_attr(it, o, name):
    if name == "__class__":
        return classof(it, o)
    if name == "__dict__" and isinstance(o, Instance):
        if slots_of(it, o.cls) is not None:
            return UNBOUND
        d = DictObj(it.pc)
        for k, v in o.attrs.items():
            v = restrict(v, it.pc)
            if v is UNBOUND:
                continue
            if isinstance(v, G) and any(x is UNBOUND for _, x in v.alts):
                g = 0
                vs = [(h, x) for h, x in v.alts if x is not UNBOUND]
                for h, _ in vs:
                    g = disj(g, h)
                e = Entry(conj(g, it.pc), k, merge(vs), o.sites.get(k))
            else:
                e = Entry(1, k, v, o.sites.get(k))
            d.e.append(e)
            d.index[("s", k)] = e
        d.owner = o
        return d
    if name == "__init__":
        if isinstance(o, Instance) and o.cls.issub(it.exc_class(BaseException)):
            def exc_init(it_, a, k):
                it_.store_attr(o, "args", tuple(a))

            return NativeFn("__init__", exc_init)
        return NativeFn("__init__", lambda it_, a, k: None)
    if name == "__new__":
        return NativeFn("__new__", lambda it_, a, k: new_instance(it_, a[0], a[1:]))
    if name == "__setattr__":
        def sa(it_, a, k):
            it_.store_attr(o, a[0], a[1])

        return NativeFn("__setattr__", sa)
    if name == "__getattribute__":
        return NativeFn("__getattribute__", lambda it_, a, k: it_.getattr(o, a[0]))
    if name == "__delattr__":
        def dl(it_, a, k):
            o.attrs[a[0]] = it_.upd(o.attrs.get(a[0], UNBOUND), UNBOUND, o.birth)

        return NativeFn("__delattr__", dl)
    if name == "__eq__":
        return NativeFn("__eq__", lambda it_, a, k: mkbool(it_.inst_eq(o, a[0])))
    if name == "__ne__":
        return NativeFn("__ne__", lambda it_, a, k: mkbool(neg(it_.inst_eq(o, a[0]))))
    if name == "__hash__":
        return NativeFn("__hash__", lambda it_, a, k: id(o))
    if name == "__repr__":
        return NativeFn("__repr__", lambda it_, a, k: to_repr(it_, o))
    if name == "__str__":
        return NativeFn("__str__", lambda it_, a, k: to_str(it_, o))
    if name == "__format__":
        return NativeFn("__format__", lambda it_, a, k: to_str(it_, o))
    if name in ("__doc__",):
        return None
    if name in ("__enter__", "__exit__", "__init_subclass__"):
        return NativeFn(name, lambda it_, a, k: None) if name == "__init_subclass__" else UNBOUND
    if isinstance(o, Instance):
        if name in ("with_traceback", "add_note"):
            return NativeFn(name, lambda it_, a, k: o)
        if name in ("__traceback__", "__cause__", "__context__"):
            return None
        if name == "__module__":
            return o.cls.module
        if name in ("__dataclass_fields__", "__slots__", "__annotations__", "__match_args__"):
            return class_attr(it, o.cls, name)
        if name == "errno" or name == "strerror" or name == "filename":
            return None if o.cls.issub(it.exc_class(OSError)) else UNBOUND
        if name == "code" and o.cls.issub(it.exc_class(SystemExit)):
            a = o.attrs.get("args", ())
            return a[0] if a else None
        if name == "value" and o.cls.issub(it.exc_class(StopIteration)):
            a = o.attrs.get("args", ())
            return a[0] if a else None
    return UNBOUND


def class_attr(it, c, name):
    if name == "__name__":
        return c.name
    if name == "__qualname__":
        return c.qual
    if name == "__module__":
        return c.module
    if name == "__doc__":
        return None
    if name == "__mro__":
        return tuple(c.mro)
    if name == "mro":
        return NativeFn("mro", lambda it_, a, k: mklist(it_, list(c.mro)))
    if name == "__bases__":
        return tuple(c.bases)
    if name == "__class__":
        return type
    if name == "__dict__":
        return ns_dict(it, c.ns)
    if name == "__annotations__":
        return mkdict(it, [(k, _ann_src(v)) for k, v in c.ann.items()])
    if name == "__dataclass_fields__":
        fs = dc_fields(c)
        if fs is None:
            return UNBOUND
        return mkdict(it, [(i.attrs["name"], i) for i in field_objs(it, c)])
    if name == "__match_args__" and c.dc:
        return tuple(c.dc["fields"])
    if name == "__members__" and getattr(c, "enum", None) is not None:
        return mkdict(it, list(c.enum.items()))
    if name == "_fields" and getattr(c, "ntfields", None) is not None:
        return tuple(c.ntfields)
    if name == "_make" and getattr(c, "ntfields", None) is not None:
        return NativeFn("_make", lambda it_, a, k: instantiate(it_, c, it_.to_list(a[0]), {}))
    if name == "__subclasses__":
        raise Undecided("__subclasses__")
    if name in ("__init__", "__new__", "__repr__", "__str__", "__eq__", "__setattr__", "__hash__", "__format__", "__getattribute__", "__delattr__", "__ne__"):
        if name == "__new__":
            return NativeFn("__new__", lambda it_, a, k: new_instance(it_, a[0], a[1:]))

        def unbound(it_, a, k):
            return it_.call(object_attr(it_, a[0], name), a[1:], k)

        return NativeFn(name, unbound)
    if name == "register":
        return NativeFn("register", lambda it_, a, k: a[0])
    return UNBOUND


# --- attribute dispatch ---------------------------------------------------------------------------


def native_getattr(it, o, name):
    from . import methods

    return methods.native_getattr(it, o, name)


def call_type(it, t, args, kwargs):
    from . import methods

    return methods.call_type(it, t, args, kwargs)


def call_nativeobj(it, f, args, kwargs):
    try:
        a = [it.native(x) for x in args]
        k = {n: it.native(v) for n, v in kwargs.items()}
    except Exception as e:
        if type(e).__name__ == "NotConcrete":
            raise Undecided("symbolic argument to a library object")
        raise
    try:
        return wrap(it, f.obj(*a, **k), f)
    except SystemExit as e:
        it.raise_(SystemExit, *e.args)
    except Exception as e:
        it.raise_(type(e), *[x if isinstance(x, (str, int, float, type(None))) else str(x) for x in e.args])


def wrap(it, x, like=None):
    if x is None or isinstance(x, (bool, int, float, str, bytes, range, complex)):
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(it, y) for y in x)
    if type(x) is list:
        return mklist(it, [wrap(it, y) for y in x])
    if type(x) is dict:
        return mkdict(it, [(wrap(it, k), wrap(it, v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        s = SetObj(it.pc, isinstance(x, frozenset))
        for y in sorted(x, key=repr):
            set_add(it, s, wrap(it, y))
        return s
    if isinstance(x, bytearray):
        return ByteArr(bytes(x), it.pc)
    if isinstance(x, type):
        return it.exc_class(x) if issubclass(x, BaseException) else x
    return NativeObj(x)


def ctx_enter(it, cm):
    from . import lib

    return lib.ctx_enter(it, cm)


def ctx_exit(it, cm, exc):
    from . import lib

    return lib.ctx_exit(it, cm, exc)


def file_iter(it, f):
    from . import lib

    return lib.file_iter(it, f)


def make_builtins(it):
    from . import methods

    return methods.make_builtins(it)


def native_module(it, name):
    from . import lib

    return lib.native_module(it, name)
