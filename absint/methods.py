"""Built-in functions, type calls and methods of built-in types."""

import builtins as pyb
import functools
import math

from . import bdd
from .bdd import conj, disj, neg, implies
from . import values
from .values import *
from .objects import *
from . import natives as N
from .natives import Model, fn, mklist, mkdict, guarded, coalesce


def NF(name, f):
    """native function with python signature f(it, *args, **kw)"""
    return NativeFn(name, lambda it, a, k: f(it, *a, **k))


def native_call(it, f, args, kwargs=None):
    """call a pure python callable on concrete arguments"""
    from .interp import NotConcrete

    try:
        a = [it.native(x) for x in args]
        k = {n: it.native(v) for n, v in (kwargs or {}).items()}
    except NotConcrete:
        return NotImplemented
    was = [repr(x) if isinstance(x, (list, dict, set, bytearray)) else None for x in a]
    try:
        r = f(*a, **k)
        if any(w is not None and repr(x) != w for w, x in zip(was, a)):
            raise Undecided(f"{getattr(f, '__name__', f)} changes its argument")
    except Undecided:
        raise
    except (SystemExit, Exception) as e:
        it.raise_(type(e), *[x if isinstance(x, (str, int, float, type(None))) else str(x) for x in e.args])
    return N.wrap(it, r)


# --- numbers ---------------------------------------------------------------------------------


def integral(v):
    """Num with integer coefficients -> same value as an int form, else None"""
    v = to_num(v)
    if v.o:
        return None
    vals = [v.c] + list(v.t.values())
    if all(float(x).is_integer() for x in vals):
        if v.f:
            # beyond 53 significant bits the float is not the exact sum
            lo, hi = nrange(v)
            top = int(max(abs(lo), abs(hi))).bit_length()
            low = min((int(x) & -int(x)).bit_length() - 1 for x in vals if x) if any(vals) else 0
            if top - low > 53:
                return None
        return simp(Num(int(v.c), {n: int(c) for n, c in v.t.items()}))
    return None


def to_int(it, v, *base):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: to_int(it, x, *base), v)
    if base:
        b = it.native(base[0])
        if not isinstance(v, (str, SStr, bytes)):
            it.raise_(TypeError, "int() can't convert non-string with explicit base")
        return N.parse_int(it, v.decode() if isinstance(v, bytes) else v, b)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            it.raise_(type(e), str(e))
    if isinstance(v, B):
        return bit_num(v.n)
    if isinstance(v, Num):
        if not v.f:
            return v
        r = integral(v)
        if r is not None:
            return r
        s = it.small(v, 300)
        if s is not None:
            return it.lift(lambda x: int(x), s)
        return App("trunc", (v,))
    if isinstance(v, App):
        return v if v.name in ("trunc", "round", "floor", "ceil", "int", "strlen") else App("trunc", (v,))
    if isinstance(v, (str, SStr)):
        return N.parse_int(it, v)
    if isinstance(v, bytes):
        return N.parse_int(it, v.decode("latin-1"))
    if isinstance(v, Instance):
        for nm in ("__int__", "__index__"):
            if v.cls.lookup(nm)[0] is not UNBOUND:
                return it.call(it.getattr(v, nm), [])
    if isinstance(v, EnumMember) and isinstance(v.value, int):
        return v.value
    it.raise_(TypeError, f"int() argument must be a string, a bytes-like object or a real number, not '{it.tname(v)}'")


def to_float(it, v=0.0):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: to_float(it, x), v)
    if isinstance(v, (bool, int, float)):
        try:
            return float(v)
        except OverflowError as e:
            it.raise_(OverflowError, str(e))
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            it.raise_(ValueError, str(e))
    if isinstance(v, (Num, B)):
        return as_float(v)
    if isinstance(v, App):
        return v
    if isinstance(v, SStr):
        ps = [p for p in v.parts if not (isinstance(p, str) and not p.strip())]
        if len(ps) == 1 and isinstance(ps[0], Fmt) and not ps[0].spec:
            return as_float(ps[0].v)
        return App("float", (v,))
    if isinstance(v, Instance) and v.cls.lookup("__float__")[0] is not UNBOUND:
        return it.call(it.getattr(v, "__float__"), [])
    it.raise_(TypeError, f"float() argument must be a string or a real number, not '{it.tname(v)}'")


def num_abs(it, v):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: num_abs(it, x), v)
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, B):
        return bit_num(v.n)
    if isinstance(v, Num):
        if v.o:
            return App("abs", (v,))
        lo, hi = nrange(v)
        if lo >= 0:
            return v
        if hi <= 0:
            return scale(v, -1)
        return it.branch(cmp0("<", v), lambda: scale(v, -1), lambda: v)
    if isinstance(v, App):
        return App("abs", (v,))
    it.raise_(TypeError, f"bad operand type for abs(): '{it.tname(v)}'")


def num_round(it, v, nd=None):
    v = restrict(v, it.pc)
    if isinstance(v, G) or isinstance(nd, G):
        return it.lift(lambda x, y: num_round(it, x, y), v, nd)
    if isinstance(v, (int, float)):
        try:
            return round(v, nd) if nd is not None else round(v)
        except (ValueError, OverflowError) as e:
            it.raise_(type(e), str(e))
    if isinstance(v, (Num, B)):
        v = to_num(v)
        r = integral(v)
        if r is not None and (nd is None or nd >= 0):
            return r if nd is None else v
        s = it.small(v, 300)
        if s is not None:
            return it.lift(lambda x: round(x, nd) if nd is not None else round(x), s)
        return App("round", (v, nd))
    if isinstance(v, App):
        return App("round", (v, nd))
    it.raise_(TypeError, f"type {it.tname(v)} doesn't define __round__ method")


def math1(name):
    f = getattr(math, name)

    def impl(it, *args):
        def one(*xs):
            if all(isinstance(x, (int, float)) for x in xs):
                try:
                    return f(*xs)
                except (ValueError, OverflowError, TypeError, ZeroDivisionError) as e:
                    it.raise_(type(e), str(e))
            for x in xs:
                if not isnum(x) and not isinstance(x, App):
                    it.raise_(TypeError, f"must be real number, not {it.tname(x)}")
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
            if name == "fabs":
                return it.lift(lambda y: to_float(it, y), num_abs(it, xs[0]))
            if name == "trunc":
                return to_int(it, xs[0])
            if name in ("floor", "ceil") and isinstance(xs[0], (Num, B)):
                r = integral(xs[0])
                if r is not None:
                    return r
            if name == "ldexp" and isinstance(xs[1], int):
                return it.binop("Mult", to_float(it, xs[0]), 2.0 ** xs[1])
            if name == "pow":
                return it.binop("Pow", to_float(it, xs[0]), to_float(it, xs[1]))
            if len(xs) == 1 and isinstance(xs[0], (Num, B)):
                s = it.small(xs[0], 300)
                if s is not None:
                    return it.lift(one, s)
            return App(name, xs)

        return it.lift(one, *[restrict(a, it.pc) for a in args])

    return NF(name, impl)


def bit_count(it, v):
    if isinstance(v, int):
        return int(v).bit_count()
    tb = to_bits(v)
    if tb is None or tb[1] != 0:
        raise Undecided("bit_count")
    r = 0
    for n in tb[0]:
        r = add(r, bit_num(n))
    return r


def bit_length(it, v):
    if isinstance(v, int):
        return int(v).bit_length()
    tb = to_bits(v)
    if tb is None or tb[1] != 0:
        raise Undecided("bit_length")
    alts_ = []
    rem = it.pc
    for i in range(len(tb[0]) - 1, -1, -1):
        g = conj(rem, tb[0][i])
        if g:
            alts_.append((g, i + 1))
            rem = bdd.diff(rem, g)
    if rem:
        alts_.append((rem, 0))
    return merge(alts_)


# --- builtin functions -------------------------------------------------------------------------


def b_len(it, v):
    return N.length(it, v)


def b_print(it, *args, sep=" ", end="\n", file=None, flush=False):
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(N.to_str(it, a))
    parts.append("\n" if end is None else end)
    s = it.concat_parts(parts)
    if file is None:
        it.effect("print", text=s)
    else:
        it.call(it.getattr(file, "write"), [s])
    return None


def b_isinstance(it, v, c):
    return mkbool(N.isinstance_(it, v, c))


def b_issubclass(it, c, d):
    def one(x, y):
        if isinstance(y, tuple):
            return any(one(x, z) for z in y)
        return bool(N.subclass_(it, x, y))

    return it.lift(one, c, d)


def attr_names(it, o):
    """the names an attribute of o can have"""
    if isinstance(o, Instance):
        cs, own = o.cls.mro, list(o.attrs)
        if o.cls.lookup("__getattr__")[0] is not UNBOUND or o.cls.lookup("__getattribute__")[0] is not UNBOUND:
            raise Undecided("attribute with a symbolic name")
    elif isinstance(o, ClassObj):
        cs, own = o.mro, []
    elif isinstance(o, ModuleObj):
        cs, own = [], list(o.ns)
    else:
        raise Undecided("attribute with a symbolic name")
    return list(dict.fromkeys(own + [n for c in cs for n in c.ns]))


def named_attr(it, o, n, default):
    full = rest = it.pc
    res, ok = [], 0
    for a in attr_names(it, o):
        g = conj(rest, it.eq(n, a))
        if not g:
            continue
        rest = bdd.diff(rest, g)
        it.pc = g
        try:
            v = it.getattr(o, a) if default is UNBOUND else it.getattr(o, a, default)
            res.append((it.pc, v))
            ok = disj(ok, it.pc)
        except PathDead:
            pass
    it.pc = full
    if rest:
        if default is UNBOUND:
            it.pc = rest
            try:
                it.raise_(AttributeError, f"'{it.tname(o)}' object has no such attribute")
            except PathDead:
                pass
        else:
            res.append((rest, default))
            ok = disj(ok, rest)
    it.pc = ok
    if not ok:
        raise PathDead()
    return merge(res)


def b_getattr(it, o, name, default=UNBOUND):
    def one(x, n):
        if isinstance(n, SStr):
            return named_attr(it, x, n, default)
        if default is UNBOUND:
            return it.getattr(x, n)
        sentinel_hit = it.getattr(x, n, default)
        return sentinel_hit

    return it.lift(one, o, name)


def b_hasattr(it, o, name):
    class _S:
        pass

    s = _S()

    def one(x, n):
        if isinstance(n, SStr):
            g = 0
            for a in attr_names(it, x):
                g = disj(g, conj(it.pc, it.eq(n, a)))
            return mkbool(g)
        it.sinks.append([])
        pc = it.pc
        try:
            v = it.getattr(x, n, s)
            ok = it.pc
        except PathDead:
            v, ok = s, 0
        ex = it.sinks.pop()
        bad = 0
        for g, e in ex:
            if e.cls.issub(it.exc_class(AttributeError)):
                bad = disj(bad, g)
            else:
                it.sinks[-1].append((g, e))
        it.pc = disj(ok, bad)
        if not it.pc:
            raise PathDead()
        if not ok:
            return False
        n_ = 0
        for g, y in alts(v):
            if y is not s:
                n_ = disj(n_, conj(g, ok))
        return restrict(mkbool(n_), it.pc)

    return it.lift(one, o, name)


def b_setattr(it, o, name, v):
    it.lift(lambda n: it.setattr(o, n, v), name)


def b_delattr(it, o, name):
    def one(x, n):
        if isinstance(x, Instance) and n in x.attrs:
            x.attrs[n] = it.upd(x.attrs[n], UNBOUND, x.birth)
        else:
            it.raise_(AttributeError, n)

    it.lift(one, o, name)


def is_callable(v):
    if isinstance(v, Instance):
        return v.cls.lookup("__call__")[0] is not UNBOUND
    return isinstance(v, (FuncObj, BoundMethod, NativeFn, ClassObj, type, PartialObj, CacheFn, CtxGen, StaticM)) or (
        isinstance(v, NativeObj) and callable(v.obj)
    )


def b_iter(it, v, sentinel=UNBOUND):
    if sentinel is UNBOUND:
        return it.lift(lambda x: it.get_iter(x), restrict(v, it.pc))

    def gen():
        stopped = 0
        while True:
            x = it.call(v, [])
            e = it.eq(x, sentinel)
            stopped = disj(stopped, conj(it.pc, e))
            live = bdd.diff(it.pc, stopped)
            if not live:
                return
            yield live, x

    return IterObj([], gen(), it.pc)


def b_next(it, v, default=UNBOUND):
    def one(x):
        if isinstance(x, Instance):
            if default is UNBOUND:
                return it.call(it.getattr(x, "__next__"), [])
            raise Undecided("next(instance, default)")
        if not isinstance(x, IterObj):
            it.raise_(TypeError, f"'{it.tname(x)}' object is not an iterator")
        return it.next_(x, default)

    return it.lift(one, restrict(v, it.pc))


def src_iter(it, v):
    """(guard, value) python generator over an iterable, lazily"""
    v = restrict(v, it.pc)
    if isinstance(v, G):
        for e in it.entries(v):
            yield e
        return
    i = it.get_iter(v)
    while True:
        e = it.pull(i)
        if e is None:
            return
        yield e


def lazy(it, gen):
    return IterObj([], gen, it.pc)


def b_enumerate(it, v, start=0):
    def gen():
        k = start
        for g, x in src_iter(it, v):
            yield g, (k, x)
            k = add(k, 1) if implies(it.pc, g) else add(k, bit_num(g))
            if isinstance(k, Num):
                pass

    return lazy(it, gen())


def bit_text_search(it, s, name, a):
    """count/find/index of '0' or '1' in a text of binary digits, None if not one"""
    if not isinstance(s, SStr) or len(a) != 1 or a[0] not in ("0", "1"):
        return None
    want = a[0]
    if name == "count" and want == "1" and all(isinstance(p, (str, BitCh)) or isinstance(p, Fmt) and isinstance(p.v, Num) and p.spec[-1:] == "b" for p in s.parts):
        n = 0
        for p in s.parts:
            if isinstance(p, str):
                n = add(n, p.count("1"))
            elif isinstance(p, BitCh):
                n = add(n, bit_num(p.n))
            else:
                tb = to_bits(p.v)
                if tb is None or tb[1] or (p.spec[:-1].strip("#0") + "x")[0] == "1":
                    return None
                for b in tb[0]:
                    n = add(n, bit_num(b))
        return n
    if not all(isinstance(p, (str, BitCh)) for p in s.parts):
        return None
    hits = []
    for p in s.parts:
        if isinstance(p, str):
            hits += [1 if c == want else 0 for c in p]
        else:
            hits.append(p.n if want == "1" else neg(p.n))
    if name == "count":
        n = 0
        for h in hits:
            n = add(n, bit_num(h))
        return n
    order = list(enumerate(hits))
    if name.startswith("r"):
        order.reverse()
    rest, res = it.pc, []
    for i, h in order:
        g = conj(rest, h)
        if g:
            res.append((g, i))
            rest = bdd.diff(rest, g)
    if rest:
        if name in ("index", "rindex"):
            it.may_raise(rest, ValueError, "substring not found")
        else:
            res.append((rest, -1))
    if not res:
        raise PathDead()
    return merge(res)


def by_position(it, entries, limit):
    """[(guard, value)] of the k-th present element of guarded entries"""
    cur = {0: it.pc}
    slots = []
    for g, x in entries:
        nxt = {}
        for p, h in cur.items():
            if p >= limit:
                continue
            a, b = conj(h, g), bdd.diff(h, g)
            if a:
                while len(slots) <= p:
                    slots.append([])
                slots[p].append((a, x))
                nxt[p + 1] = disj(nxt.get(p + 1, 0), a)
            if b:
                nxt[p] = disj(nxt.get(p, 0), b)
        cur = nxt
    out = []
    for al in slots:
        g = 0
        for h, _ in al:
            g = disj(g, h)
        out.append((g, merge(al) if len(al) > 1 else al[0][1]))
    return out


def b_zip(it, *vs, strict=False):
    if not vs:
        return lazy(it, iter(()))

    def gen():
        its = [src_iter(it, v) for v in vs]
        while True:
            row = []
            for k, s in enumerate(its):
                try:
                    row.append(next(s))
                except StopIteration:
                    if strict and k:
                        it.raise_(ValueError, "zip() arguments have different lengths")
                    if strict and k == 0:
                        for s2 in its[1:]:
                            try:
                                next(s2)
                            except StopIteration:
                                continue
                            it.raise_(ValueError, "zip() arguments have different lengths")
                    return
            gs = [g for g, _ in row]
            if all(implies(it.pc, g) for g in gs):
                yield it.pc, tuple(x for _, x in row)
            else:
                g0 = conj(gs[0], it.pc)
                if all(conj(g, it.pc) == g0 for g in gs):
                    yield g0, tuple(x for _, x in row)
                else:
                    # elements present under different conditions: pair them by position
                    n0 = len(it.effects)
                    cols = []
                    for r, s in zip(row, its):
                        col = [r]
                        while len(col) < 400:
                            try:
                                col.append(next(s))
                            except StopIteration:
                                break
                        cols.append(col)
                    if len(it.effects) != n0 or strict or all(len(c) >= 400 for c in cols):
                        raise Undecided("zip over guarded sequences")
                    slots = [by_position(it, c, min(map(len, cols))) for c in cols]
                    for k in range(min(map(len, slots))):
                        g = it.pc
                        for s in slots:
                            g = conj(g, s[k][0])
                        if not g:
                            return
                        full = it.pc
                        it.pc = g
                        tup = tuple(restrict(s[k][1], g) for s in slots)
                        it.pc = full
                        yield g, tup
                    return

    return lazy(it, gen())


def b_map(it, f, *vs):
    def gen():
        src = src_iter(it, vs[0]) if len(vs) == 1 else ((g, x) for g, x in src_iter(it, b_zip(it, *vs)))
        for g, x in src:
            full = it.pc
            p = conj(full, g)
            if not p:
                continue
            it.pc = p
            try:
                r = it.call(f, [x] if len(vs) == 1 else list(x))
                p2 = it.pc
            except PathDead:
                p2 = 0
                r = None
            it.pc = disj(bdd.diff(full, p), p2)
            if not it.pc:
                raise PathDead()
            if p2:
                yield p2, r

    return lazy(it, gen())


def b_filter(it, f, v):
    def gen():
        for g, x in src_iter(it, v):
            full = it.pc
            p = conj(full, g)
            if not p:
                continue
            it.pc = p
            try:
                n = it.truth(x if f is None else it.call(f, [x]))
                p2 = it.pc
            except PathDead:
                p2, n = 0, 0
            it.pc = disj(bdd.diff(full, p), p2)
            if not it.pc:
                raise PathDead()
            k = conj(p2, n)
            if k:
                yield k, x

    return lazy(it, gen())


def sort_entries(it, ent, keyf, reverse):
    """stable sort of guarded entries with concrete keys"""
    if len(ent) <= 1:
        return ent
    keyed = []
    for g, x in ent:
        k = x if keyf is None else None
        if keyf is not None:
            full = it.pc
            it.pc = conj(full, g)
            k = it.call(keyf, [x])
            it.pc = disj(bdd.diff(full, g), it.pc)
        keyed.append((restrict(k, conj(it.pc, g)), g, x))
    from .interp import NotConcrete

    try:
        nk = [it.native(k) for k, _, _ in keyed]
        order = sorted(range(len(keyed)), key=lambda i: nk[i], reverse=reverse)
        return [(keyed[i][1], keyed[i][2]) for i in order]
    except TypeError as e:
        it.raise_(TypeError, str(e))
    except NotConcrete:
        pass
    if len(keyed) <= 12 and all(implies(it.pc, g) for _, g, _ in keyed):
        out = []
        for k, g, x in keyed:  # insertion sort, each exchange guarded by its comparison
            out.append((k, x))
            for i in range(len(out) - 1, 0, -1):
                (k1, x1), (k2, x2) = out[i - 1], out[i]
                sw = conj(it.pc, it.compare("Gt" if reverse else "Lt", k2, k1))
                if not sw:
                    break
                keep = bdd.diff(it.pc, sw)
                if not keep:
                    out[i - 1], out[i] = out[i], out[i - 1]
                    continue
                out[i - 1] = (merge([(sw, k2), (keep, k1)]), merge([(sw, x2), (keep, x1)]))
                out[i] = (merge([(sw, k1), (keep, k2)]), merge([(sw, x1), (keep, x2)]))
        return [(it.pc, x) for _, x in out]
    # merge sort with provable order only
    out = []
    for k, g, x in keyed:
        pos = len(out)
        for i, (k2, g2, x2) in enumerate(out):
            lt = it.compare("Lt", k, k2) if not reverse else it.compare("Gt", k, k2)
            both = conj(it.pc, conj(g, g2))
            lt = conj(lt, both)
            if lt == both and both:
                pos = i
                break
            if lt:
                if len(keyed) == 2 and implies(it.pc, g) and implies(it.pc, g2):
                    a, b = out[0], (k, g, x)
                    return [
                        (it.pc, merge([(lt, x), (bdd.diff(it.pc, lt), a[2])])),
                        (it.pc, merge([(lt, a[2]), (bdd.diff(it.pc, lt), x)])),
                    ]
                raise Undecided("sort order depends on data")
        out.insert(pos, (k, g, x))
    return [(g, x) for _, g, x in out]


def b_sorted(it, v, key=None, reverse=False):
    ent = it.entries(v)
    r = bool(it.native(reverse))
    l = ListObj((), it.pc)
    l.e = [[1 if implies(l.birth, g) else g, x] for g, x in sort_entries(it, ent, key, r)]
    return l


def b_reversed(it, v):
    def one(x):
        if isinstance(x, Instance) and x.cls.lookup("__reversed__")[0] is not UNBOUND:
            return it.get_iter(it.call(it.getattr(x, "__reversed__"), []))
        return IterObj(list(reversed(it.entries(x))), None, it.pc)

    return it.lift(one, restrict(v, it.pc))


def b_sum(it, v, start=0):
    acc = start
    for g, x in it.entries(v):
        if implies(it.pc, g):
            acc = it.binop("Add", acc, x)
        elif isnum(x) and isinstance(x, (int, float)) and not isinstance(acc, G) and isnum(acc):
            acc = it.binop("Add", acc, it.binop("Mult", bit_num(conj(g, it.pc)), x))
        else:
            a0 = acc
            acc = it.branch(g, lambda: it.binop("Add", a0, x), lambda: a0)
    return acc


def minmax(name):
    def impl(it, *args, key=None, default=UNBOUND):
        if len(args) == 1:
            ent = it.entries(args[0])
        else:
            ent = [(it.pc, a) for a in args]
        best = UNBOUND
        for g, x in ent:
            if best is UNBOUND:
                best = x if implies(it.pc, g) else merge([(conj(it.pc, g), x), (bdd.diff(it.pc, g), UNBOUND)])
                continue

            def step(b, x=x):
                if b is UNBOUND:
                    return x
                kx = it.call(key, [x]) if key is not None else x
                kb = it.call(key, [b]) if key is not None else b
                c = it.compare("Lt" if name == "min" else "Gt", kx, kb)
                return it.branch(c, lambda: x, lambda: b)

            b0 = best
            if implies(it.pc, g):
                best = it.lift(step, restrict(b0, it.pc))
            else:
                best = it.branch(g, lambda: it.lift(step, restrict(b0, it.pc)), lambda: b0)
        if best is UNBOUND or isinstance(best, G) and any(x is UNBOUND for _, x in best.alts):
            if default is not UNBOUND:
                if best is UNBOUND:
                    return default
                return merge([(g, default if x is UNBOUND else x) for g, x in best.alts])
            return it.bound(best, ValueError, f"{name}() iterable argument is empty")
        return best

    return NF(name, impl)


def quant(it, v, isall):
    """any/all with short circuit over lazily produced entries"""
    decided = 0
    outpc = 0
    src = src_iter(it, v)
    base = it.pc
    while it.pc:
        try:
            e = next(src)
        except StopIteration:
            break
        g, x = e
        p = conj(it.pc, g)
        if not p:
            continue
        save = it.pc
        it.pc = p
        n = conj(p, it.truth(x))
        it.pc = save
        hit = bdd.diff(p, n) if isall else n
        decided = disj(decided, hit)
        it.pc = bdd.diff(it.pc, hit)
    rest = it.pc
    it.pc = disj(rest, decided)
    if not it.pc:
        raise PathDead()
    return restrict(mkbool(rest if isall else decided), it.pc)


def b_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


def b_pow(it, a, b, m=None):
    r = it.binop("Pow", a, b)
    return it.binop("Mod", r, m) if m is not None else r


def radix(pre, ch):
    def impl(it, v):
        def one(x):
            if isinstance(x, bool) or isinstance(x, int):
                return {"x": hex, "b": bin, "o": oct}[ch](x)
            if isinstance(x, (Num, B)):
                return mkstr([pre, Fmt(to_num(x), ch)])
            it.raise_(TypeError, f"'{it.tname(x)}' object cannot be interpreted as an integer")

        return it.lift(one, restrict(v, it.pc))

    return NF(pre, impl)


def b_chr(it, v):
    def one(x):
        if isinstance(x, int):
            try:
                return chr(x)
            except (ValueError, OverflowError) as e:
                it.raise_(type(e), str(e))
        if isinstance(x, (Num, B)):
            s = it.small(x, 300)
            if s is not None and len(alts(s)) <= 8:
                return it.lift(one, s)
            return mkstr([Opq(("decode1", key(x)))])
        it.raise_(TypeError, "an integer is required")

    return it.lift(one, restrict(v, it.pc))


def b_ord(it, v):
    def one(x):
        if isinstance(x, (str, bytes)):
            try:
                return ord(x)
            except TypeError as e:
                it.raise_(TypeError, str(e))
        if isinstance(x, ABytes) and len(x.e) == 1:
            return x.e[0]
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], BitCh):
            return add(48, bit_num(x.parts[0].n))
        return App("ord", (x,))

    return it.lift(one, restrict(v, it.pc))


def b_format(it, v, spec=""):
    return N.fmt_value(it, v, spec)


def b_hash(it, v):
    from .interp import NotConcrete

    try:
        return hash(it.native(v))
    except NotConcrete:
        if isinstance(v, Instance):
            if v.cls.lookup("__hash__")[0] is not UNBOUND:
                return it.call(it.getattr(v, "__hash__"), [])
            if v.cls.dc and v.cls.dc["eq"]:
                N.hashable(it, v)
                return b_hash(it, tuple(it.getattr(v, n) for n, f in v.cls.dc["fields"].items() if f.compare))
            return id(v)
        return App("hash", (v,))
    except TypeError as e:
        it.raise_(TypeError, str(e))


def b_vars(it, o):
    return it.getattr(o, "__dict__")


def b_dir(it, o):
    def one(x):
        names = set()
        if isinstance(x, Instance):
            names |= {k for k, v in x.attrs.items() if v is not UNBOUND}
            cs = x.cls.mro
        elif isinstance(x, ClassObj):
            cs = x.mro
        elif isinstance(x, ModuleObj):
            return mklist(it, sorted(x.ns))
        else:
            raise Undecided("dir()")
        for c in cs:
            names |= set(c.ns)
        names |= {"__class__", "__dict__", "__doc__", "__module__"}
        return mklist(it, sorted(names))

    return it.lift(one, o)


def b_input(it, prompt=""):
    w = it.world
    if w is None or not w.inputs:
        it.raise_(EOFError, "EOF when reading a line")
    it.effect("input", prompt=prompt)
    return w.inputs.pop(0)


def b_open(it, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    return it.world.open(it, file, mode, encoding, newline, errors)


def b_exit(it, code=None):
    it.raise_(SystemExit, *([] if code is None else [code]))


def b_import(it, name, *a, **k):
    return it.get_module(name)


def make_builtins(it):
    b = {}
    for n in dir(pyb):
        v = getattr(pyb, n)
        if isinstance(v, type):
            if v is object:
                b[n] = it.object_cls
            elif issubclass(v, BaseException):
                b[n] = it.exc_class(v)
            else:
                b[n] = v
    for f, n in (
        (b_len, "len"), (b_print, "print"), (b_isinstance, "isinstance"), (b_issubclass, "issubclass"),
        (b_getattr, "getattr"), (b_hasattr, "hasattr"), (b_setattr, "setattr"), (b_delattr, "delattr"),
        (b_iter, "iter"), (b_next, "next"), (b_enumerate, "enumerate"), (b_zip, "zip"), (b_map, "map"),
        (b_filter, "filter"), (b_sorted, "sorted"), (b_reversed, "reversed"), (b_sum, "sum"),
        (num_abs, "abs"), (num_round, "round"), (b_divmod, "divmod"), (b_pow, "pow"), (b_chr, "chr"),
        (b_ord, "ord"), (b_format, "format"), (b_hash, "hash"), (b_vars, "vars"), (b_dir, "dir"),
        (b_input, "input"), (b_open, "open"), (b_exit, "exit"), (b_exit, "quit"), (b_import, "__import__"),
    ):
        b[n] = NF(n, f)
    b["callable"] = NF("callable", lambda it_, v: it_.lift(lambda x: is_callable(x), v))
    b["any"] = NF("any", lambda it_, v: quant(it_, v, False))
    b["all"] = NF("all", lambda it_, v: quant(it_, v, True))
    b["min"] = minmax("min")
    b["max"] = minmax("max")
    b["hex"] = radix("0x", "x")
    b["bin"] = radix("0b", "b")
    b["oct"] = radix("0o", "o")
    b["repr"] = NF("repr", lambda it_, v: N.to_repr(it_, v))
    b["ascii"] = NF("ascii", lambda it_, v: N.to_repr(it_, v))
    b["id"] = NF("id", lambda it_, v: id(v))
    b["super"] = NativeFn("super", lambda it_, a, k: SuperObj(a[0], a[1]))
    b["locals"] = NativeFn("locals", lambda it_, a, k: None)
    b["globals"] = NativeFn("globals", lambda it_, a, k: None)
    b["property"] = NF("property", lambda it_, fget=None, fset=None, fdel=None, doc=None: PropertyObj(fget, fset, fdel))
    b["staticmethod"] = NF("staticmethod", lambda it_, f: StaticM(f))
    b["classmethod"] = NF("classmethod", lambda it_, f: ClassM(f))
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True
    b["__name__"] = "builtins"
    return b


# --- type calls --------------------------------------------------------------------------------


def call_type(it, t, args, kwargs):
    if t is type:
        if len(args) == 1:
            return N.classof(it, restrict(args[0], it.pc))
        name, bases, ns = args[:3]
        nsd = {k: v for _, k, v in N.dict_items(it, ns)}
        return N.build_class(it, name, list(bases), nsd, it.cur.module, name, {"qual": name, "ann": {}, "cls": None}, {})
    if t is int:
        if not args and not kwargs:
            return 0
        b = [kwargs["base"]] if "base" in kwargs else args[1:]
        return to_int(it, args[0], *b)
    if t is float:
        return to_float(it, *args)
    if t is bool:
        return restrict(mkbool(conj(it.truth(args[0]), 1)), it.pc) if args else False
    if t is str:
        if not args:
            return ""
        if len(args) > 1 or kwargs:
            enc = args[1] if len(args) > 1 else kwargs.get("encoding", "utf-8")
            err = args[2] if len(args) > 2 else kwargs.get("errors", "strict")
            return it.lift(lambda x: N.decode_bytes(it, it.bytes_of(x), enc, err), restrict(args[0], it.pc))
        return N.to_str(it, args[0])
    if t in (bytes, bytearray):
        r = make_bytes(it, args, kwargs)
        if t is bytearray:
            return ByteArr(r, it.pc)
        return r
    if t is memoryview:
        return it.lift(lambda x: it.bytes_of(x), restrict(args[0], it.pc))
    if t is list:
        return N.list_from(it, args[0]) if args else ListObj((), it.pc)
    if t is tuple:
        if not args:
            return ()
        a = restrict(args[0], it.pc)
        if isinstance(a, tuple):
            return a
        return it.lift(lambda x: it.tuple_of(x), a)
    if t in (set, frozenset):
        return N.set_from(it, args[0], t is frozenset) if args else SetObj(it.pc, t is frozenset)
    if t is dict:
        d = DictObj(it.pc)
        if args:
            a = restrict(args[0], it.pc)

            def up(x):
                if isinstance(x, DictObj) or isinstance(x, Instance) and x.cls.lookup("keys")[0] is not UNBOUND:
                    N.dict_update(it, d, x)
                elif isinstance(x, NativeObj):
                    N.dict_update(it, d, N.wrap(it, dict(x.obj)))
                else:
                    for g, p in it.entries(x):
                        def put(p=p):
                            k, v = it.to_list(p) if not isinstance(p, tuple) else p
                            N.dict_set(it, d, k, v)

                        guarded(it, g, put)

            it.lift(up, a)
        for k, v in kwargs.items():
            N.dict_set(it, d, k, v)
        return d
    if t is range:
        cs = [it.concretize(a) for a in args]

        def mk(*xs):
            try:
                return range(*xs)
            except (TypeError, ValueError) as e:
                it.raise_(type(e), str(e))

        return it.lift(mk, *cs)
    if t in (zip, map, filter, enumerate, reversed):
        return {zip: b_zip, map: b_map, filter: b_filter, enumerate: b_enumerate, reversed: b_reversed}[t](it, *args, **kwargs)
    if t is slice:
        a = list(args)
        if len(a) == 1:
            return SliceObj(None, a[0], None)
        return SliceObj(a[0], a[1], a[2] if len(a) > 2 else None)
    if t is property:
        return PropertyObj(*args, **kwargs)
    if t is staticmethod:
        return StaticM(args[0])
    if t is classmethod:
        return ClassM(args[0])
    if isinstance(t, type) and issubclass(t, Model):
        if hasattr(t, "make"):
            return t.make(it, *args, **kwargs)
        return t(it, *args, **kwargs)
    if isinstance(t, type) and issubclass(t, BaseException):
        return it.make_exc(t, *args)
    r = native_call(it, t, args, kwargs)
    if r is NotImplemented:
        raise Undecided(f"{t.__name__}() on symbolic data")
    return r


def make_bytes(it, args, kwargs):
    if not args:
        return b""

    def one(x):
        if isinstance(x, (bytes, ABytes)):
            return x
        if isinstance(x, ByteArr):
            return restrict(x.val, it.pc)
        if isinstance(x, (str, SStr)):
            enc = args[1] if len(args) > 1 else kwargs.get("encoding")
            if enc is None:
                it.raise_(TypeError, "string argument without an encoding")
            return encode_str(it, x, enc)
        if isinstance(x, (bool, int)):
            try:
                return bytes(x)
            except ValueError as e:
                it.raise_(ValueError, str(e))
        if isinstance(x, (Num, B)):
            return it.lift(lambda n: bytes(n), it.concretize(x))
        if isinstance(x, Instance) and x.cls.lookup("__bytes__")[0] is not UNBOUND:
            return it.call(it.getattr(x, "__bytes__"), [])
        return N.mk_bytes_from(it, x)

    return it.lift(one, restrict(args[0], it.pc))


def encode_str(it, s, enc="utf-8", errors="strict"):
    if isinstance(s, str):
        try:
            return s.encode(enc, errors)
        except (UnicodeEncodeError, LookupError) as e:
            it.raise_(type(e), *e.args)
    if len(s.parts) == 1 and isinstance(s.parts[0], Opq) and isinstance(s.parts[0].k, tuple):
        k = s.parts[0].k
        if k[0] in ("decode", "latin1"):
            raise Undecided("re-encoding of decoded text")
    raise Undecided("encoding of symbolic text")


# --- text methods --------------------------------------------------------------------------------


def render(s):
    """SStr whose parts are concrete -> str or None"""
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Json) and getattr(p, "opts", {}).get("text") is not None:
            out.append(p.opts["text"])
        else:
            return None
    return "".join(out)


def vmap(f, v):
    """f on every alternative, without touching the path"""
    return merge([(g, f(x)) for g, x in v.alts]) if isinstance(v, G) else f(v)


def presence(ent, pc, limit=24):
    """[(guard, entries present)] when few combinations of conditional entries exist"""
    if all(g == pc for g, _ in ent):
        return None
    pats = [(pc, [])]
    for g, x in ent:
        nxt = []
        for p, xs in pats:
            a, b = conj(p, g), bdd.diff(p, g)
            if a:
                nxt.append((a, xs + [x]))
            if b:
                nxt.append((b, xs))
        if len(nxt) > limit:
            return None
        pats = nxt
    return pats


def str_join(it, sep, v):
    from .interp import NotConcrete

    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: str_join(it, sep, x), v)
    ent = coalesce(it.entries(v), it.pc)
    pats = presence(ent, it.pc)
    if pats is not None:
        return it.split(pats, lambda xs: str_join(it, sep, tuple(restrict(x, it.pc) for x in xs)))
    parts = []
    anyprev = 0
    for g, x in ent:
        def chk(y):
            if not isinstance(y, (str, SStr)):
                if isinstance(y, App):
                    return mkstr([Opq(("str", key(y)))])
                it.raise_(TypeError, f"sequence item: expected str instance, {it.tname(y)} found")
            return y

        box = []
        guarded(it, g, lambda: box.append(it.lift(chk, restrict(x, it.pc))))
        if not box:
            continue
        x = box[0]
        g = conj(g, it.pc)
        if g == it.pc:
            if anyprev == it.pc:
                parts.append(sep)
            elif anyprev:
                parts.append(merge([(anyprev, sep), (bdd.diff(it.pc, anyprev), "")]))
            parts.append(x)
            anyprev = it.pc
        elif g:
            if sep == "" or not anyprev:
                parts.append(merge([(g, x), (bdd.diff(it.pc, g), "")]))
            else:
                both = conj(g, anyprev)
                al = [(both, vmap(lambda y: mkstr([sep, y]), x)), (bdd.diff(g, anyprev), x), (bdd.diff(it.pc, g), "")]
                parts.append(merge([a for a in al if a[0]]))
            anyprev = disj(anyprev, g)
    return it.concat_parts(parts)


def s_startswith(it, s, p, *pos, end=False):
    def one(x, q):
        if isinstance(q, tuple):
            n = 0
            for y in q:
                n = disj(n, it.truth(one(x, y)))
            return mkbool(n)
        if isinstance(x, str) and isinstance(q, str):
            return (x.endswith if end else x.startswith)(q, *[it.native(z) for z in pos])
        if not isinstance(q, (str, SStr)):
            it.raise_(TypeError, "startswith first arg must be str")
        if q == "":
            return True
        xs = sparts(x)
        e = xs[-1] if end else xs[0]
        if isinstance(q, str) and isinstance(e, str) and not pos:
            if (e.endswith if end else e.startswith)(q):
                return True
            n = min(len(e), len(q))
            if (e[-n:] != q[-n:]) if end else (e[:n] != q[:n]):
                return False
            if len(e) >= len(q):
                return False
        values.lit(q)
        return mkbool(bdd.var(("endswith" if end else "startswith", key(x), key(q)) + tuple(key(z) for z in pos)))

    return it.lift(one, s, restrict(p, it.pc))


def s_split(it, s, sep=None, maxsplit=-1):
    def one(x, sp, m):
        if isinstance(x, str):
            try:
                return mklist(it, x.split(sp, m))
            except (ValueError, TypeError) as e:
                it.raise_(type(e), str(e))
        return N.str_split(it, x, sp, m)

    return it.lift(one, s, sep, maxsplit)


def s_strip(left, right):
    def impl(it, s, chars=None):
        def one(x, c):
            if isinstance(x, str):
                return x.strip(c) if left and right else x.lstrip(c) if left else x.rstrip(c)
            return N.str_strip(it, x, c, left, right)

        return it.lift(one, s, chars)

    return impl


def s_replace(it, s, a, b, count=-1):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b, count)
    if isinstance(s, SStr) and isinstance(a, str) and count == -1:
        out = []
        for p in s.parts:
            if isinstance(p, str):
                bits = p.split(a)
                for i, x in enumerate(bits):
                    if i:
                        out.append(b)
                    out.append(x)
            elif isinstance(p, (Fmt, BitCh)) and (len(a) > 1 or a not in "0123456789+-.eE infaNx "):
                out.append(p)
            else:
                values.lit(a)
                return mkstr([Opq(("replace", key(s), key(a), key(b)))])
        return it.concat_parts(out)
    values.lit(a)
    return mkstr([Opq(("replace", key(s), key(a), key(b), count))])


def s_just(name):
    def impl(it, s, w, fill=" "):
        def one(x, n, f):
            if isinstance(x, str):
                return getattr(x, name)(n, f) if name != "zfill" else x.zfill(n)
            if len(x.parts) == 1 and isinstance(x.parts[0], Fmt):
                p = x.parts[0]
                sp = p.spec
                core = sp
                if sp and (sp[0].isdigit() or sp[:1] in "<>=^" or (len(sp) > 1 and sp[1] in "<>=^")):
                    return mkstr([Opq((name, key(x), n, f))])
                if name == "rjust" and f == " ":
                    return mkstr([Fmt(p.v, f"{n}{core}")])
                if name == "ljust" and f == " ":
                    return mkstr([Fmt(p.v, f"<{n}{core}")])
                if name == "zfill" or (name == "rjust" and f == "0"):
                    return mkstr([Fmt(p.v, f"0={n}{core}")])
            bits = [p for p in x.parts if isinstance(p, BitCh)]
            if all(isinstance(p, (str, BitCh)) for p in x.parts):
                ln = sum(len(p) if isinstance(p, str) else 1 for p in x.parts)
                pad = ("0" if name == "zfill" else f) * max(0, n - ln)
                return mkstr(list(x.parts) + [pad]) if name == "ljust" else mkstr([pad] + list(x.parts))
            return mkstr([Opq((name, key(x), n, f))])

        return it.lift(one, s, it.concretize(w), fill)

    return impl


def s_opq(name):
    def impl(it, s, *a, **k):
        if isinstance(s, str):
            r = native_call(it, functools.partial(getattr(str, name), s), a, k)
            if r is not NotImplemented:
                return r
        if isinstance(s, SStr):
            r = render(s)
            if r is not None:
                return impl(it, r, *a, **k)
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isdecimal", "isnumeric", "isascii", "isidentifier", "isprintable", "istitle"):
            if name in ("isdigit", "isdecimal", "isnumeric", "isalnum", "isascii", "isprintable") and isinstance(s, SStr):
                def digits(p):
                    if isinstance(p, str):
                        return getattr(p, name)()
                    if isinstance(p, BitCh):
                        return True
                    if isinstance(p, Fmt) and isinstance(p.v, Num) and not p.v.f and p.spec in ("", "d", "b", "o", "x"):
                        tb = to_bits(p.v)
                        return tb is not None and not conj(it.pc, tb[1]) and (p.spec != "x" or name in ("isalnum", "isascii", "isprintable"))
                    return False

                if s.parts and all(digits(p) for p in s.parts):
                    return True
            return mkbool(bdd.var((name, key(s))))
        if name in ("upper", "lower", "title", "capitalize", "swapcase", "casefold"):
            if isinstance(s, SStr) and all(isinstance(p, (str, BitCh)) or isinstance(p, Fmt) and p.spec[-1:] in ("", "d", "f", "b") for p in s.parts) and name in ("upper", "lower"):
                return mkstr([getattr(p, name)() if isinstance(p, str) else p for p in s.parts])
            return mkstr([Opq((name, key(s)))])
        if name in ("find", "rfind", "index", "count", "rindex"):
            r = bit_text_search(it, s, name, a)
            if r is not None:
                return r
            return App("str." + name, (s,) + tuple(a))
        values.lit(*a)
        if name in ("removeprefix", "removesuffix", "center", "expandtabs", "translate"):
            return mkstr([Opq((name, key(s)) + tuple(key(x) for x in a))])
        raise Undecided(f"str.{name} on symbolic text")

    return impl


STR = {
    "join": lambda it, s, v: it.lift(lambda x: str_join(it, x, v), s),
    "startswith": lambda it, s, p, *a: s_startswith(it, s, p, *a),
    "endswith": lambda it, s, p, *a: s_startswith(it, s, p, *a, end=True),
    "split": s_split,
    "strip": s_strip(True, True),
    "lstrip": s_strip(True, False),
    "rstrip": s_strip(False, True),
    "replace": s_replace,
    "format": lambda it, s, *a, **k: N.str_format(it, s, a, k),
    "format_map": lambda it, s, m: N.str_format(it, s, (), {k: v for _, k, v in N.dict_items(it, m)}),
    "encode": lambda it, s, encoding="utf-8", errors="strict": encode_str(it, s, encoding, errors),
    "rjust": s_just("rjust"),
    "ljust": s_just("ljust"),
    "zfill": s_just("zfill"),
    "__len__": lambda it, s: N.length(it, s),
    "__contains__": lambda it, s, x: mkbool(it.contains(s, x)),
    "__getitem__": lambda it, s, x: it.getitem(s, x),
    "__add__": lambda it, s, x: it.binop("Add", s, x),
    "__eq__": lambda it, s, x: mkbool(it.eq(s, x)),
    "__str__": lambda it, s: s,
    "__format__": lambda it, s, x: N.fmt_value(it, s, x),
    "__mod__": lambda it, s, x: N.percent_format(it, s, x),
}
for _n in dir(str):
    if not _n.startswith("__") and _n not in STR:
        STR[_n] = s_opq(_n)


# --- bytes ------------------------------------------------------------------------------------------


def by_find(it, b, x, *pos):
    return N.bytes_find(it, b, x, *(list(pos) + [0, None][len(pos):]))


def by_index(it, b, x, *pos):
    r = by_find(it, b, x, *pos)
    it.may_raise(it.eq(r, -1), ValueError, "subsection not found")
    return restrict(r, it.pc)


def by_rfind(it, b, x, start=0, end=None):
    if isinstance(b, G):
        return it.lift(lambda y: by_rfind(it, y, x, start, end), b)
    e = belems(b)
    pat = (x,) if isinstance(x, (int, Num)) else belems(it.bytes_of(x))

    def one(s, t):
        s0, t0, _ = slice(s, t).indices(len(e))
        m = len(pat)
        rem = it.pc
        res = []
        for p in range(t0 - m, s0 - 1, -1):
            g = rem
            for j in range(m):
                g = conj(g, num_eq(e[p + j], pat[j]))
                if not g:
                    break
            if g:
                res.append((g, p))
                rem = bdd.diff(rem, g)
        if rem:
            res.append((rem, -1))
        return merge(res)

    return it.lift(one, it.concretize(start), it.concretize(end))


def by_startswith(it, b, p, start=0, end=None):
    def one(x, q):
        if isinstance(q, tuple):
            n = 0
            for y in q:
                n = disj(n, it.truth(one(x, y)))
            return mkbool(n)
        xe, qe = belems(x), belems(it.bytes_of(q))

        def at(s, t):
            ss, tt, _ = slice(s, t).indices(len(xe))
            sub_ = xe[ss:tt]
            if len(sub_) < len(qe):
                return False
            return mkbool(it.eq(mkbytes(sub_[: len(qe)]), mkbytes(qe)))

        return it.lift(at, it.concretize(start), it.concretize(end))

    return it.lift(one, b, p)


def by_endswith(it, b, p):
    def one(x, q):
        xe, qe = belems(x), belems(it.bytes_of(q))
        if len(xe) < len(qe):
            return False
        return mkbool(it.eq(mkbytes(xe[len(xe) - len(qe):]), mkbytes(qe)))

    return it.lift(one, b, p)


def by_join(it, sep, v):
    xs = []
    for x in it.to_list(v):
        x = it.bytes_of(x)
        for _, y in alts(x):
            if not isinstance(y, (bytes, ABytes)):
                it.raise_(TypeError, "expected a bytes-like object")
        xs.append(x)

    def one(s, *ys):
        out = []
        for i, y in enumerate(ys):
            if i:
                out += belems(s)
            out += belems(y)
        return mkbytes(out)

    return it.lift(one, sep, *xs)


def by_hex(it, b, *sep):
    if isinstance(b, bytes):
        return b.hex(*[it.native(s) for s in sep])
    parts = []
    for i, x in enumerate(b.e):
        if i and sep:
            parts.append(sep[0])
        parts.append(f"{x:02x}" if isinstance(x, int) else Fmt(to_num(x), "0=2x"))
    return mkstr(parts)


def by_split(it, b, sep=None, maxsplit=-1):
    if isinstance(b, bytes):
        return N.wrap(it, b.split(sep, maxsplit))
    raise Undecided("bytes.split on symbolic data")


def by_partition(it, b, sep):
    def one(x):
        p = by_find(it, x, sep)
        n = len(belems(it.bytes_of(sep)))

        def at(i):
            if i < 0:
                return (x, b"", b"")
            e = belems(x)
            return (mkbytes(e[:i]), mkbytes(e[i : i + n]), mkbytes(e[i + n :]))

        return it.lift(at, p)

    return it.lift(one, b)


def by_strip(left, right):
    def impl(it, b, chars=None):
        cs = belems(it.bytes_of(chars)) if chars is not None else tuple(b" \t\n\r\x0b\f")

        def isin(x):
            n = 0
            for c in cs:
                n = disj(n, num_eq(x, c))
            return n

        def one(x):
            e = belems(x)
            lo = [(it.pc, 0)]
            if left:
                lo = []
                rem = it.pc
                for i, y in enumerate(e):
                    k = isin(y)
                    g = bdd.diff(rem, k)
                    if g:
                        lo.append((g, i))
                    rem = conj(rem, k)
                    if not rem:
                        break
                if rem:
                    lo.append((rem, len(e)))
            hi = [(it.pc, len(e))]
            if right:
                hi = []
                rem = it.pc
                for i in range(len(e), 0, -1):
                    k = isin(e[i - 1])
                    g = bdd.diff(rem, k)
                    if g:
                        hi.append((g, i))
                    rem = conj(rem, k)
                    if not rem:
                        break
                if rem:
                    hi.append((rem, 0))
            out = []
            for g, i in lo:
                for h, j in hi:
                    k = conj(g, h)
                    if k:
                        out.append((k, mkbytes(e[i : max(i, j)])))
            return merge(out)

        return it.lift(one, b)

    return impl


def by_count(it, b, x):
    pat = (x,) if isinstance(x, (int, Num)) else belems(it.bytes_of(x))
    if len(pat) != 1:
        if isinstance(b, bytes):
            return b.count(it.native(it.bytes_of(x)))
        raise Undecided("bytes.count")
    r = 0
    for y in belems(b):
        r = it.binop("Add", r, bit_num(num_eq(y, pat[0])))
    return r


def by_just(name):
    def impl(it, b, w, fill=b" "):
        def one(n):
            e = belems(b)
            pad = (fill[0] if name != "zfill" else 48,) * max(0, n - len(e))
            return mkbytes(e + pad) if name == "ljust" else mkbytes(pad + e)

        return it.lift(one, it.concretize(w))

    return impl


BYTES = {
    "find": by_find,
    "index": by_index,
    "rfind": by_rfind,
    "startswith": by_startswith,
    "endswith": by_endswith,
    "join": by_join,
    "hex": by_hex,
    "split": by_split,
    "partition": by_partition,
    "strip": by_strip(True, True),
    "lstrip": by_strip(True, False),
    "rstrip": by_strip(False, True),
    "count": by_count,
    "ljust": by_just("ljust"),
    "rjust": by_just("rjust"),
    "decode": lambda it, b, encoding="utf-8", errors="strict": N.decode_bytes(it, b, encoding, errors),
    "tobytes": lambda it, b: b,
    "tolist": lambda it, b: mklist(it, list(belems(b))),
    "release": lambda it, b: None,
    "copy": lambda it, b: b,
    "__len__": lambda it, b: len(belems(b)),
    "__getitem__": lambda it, b, i: it.getitem(b, i),
    "__contains__": lambda it, b, x: mkbool(it.contains(b, x)),
}


def by_native(name):
    def impl(it, b, *a, **k):
        if isinstance(b, bytes):
            r = native_call(it, functools.partial(getattr(bytes, name), b), a, k)
            if r is not NotImplemented:
                return r
        raise Undecided(f"bytes.{name} on symbolic data")

    return impl


for _n in dir(bytes):
    if not _n.startswith("__") and _n not in BYTES:
        BYTES[_n] = by_native(_n)


def ba_set(it, o, v):
    o.val = it.upd(o.val, v, o.birth)


def ba_del_clear(it, o):
    ba_set(it, o, b"")


def ba_pop(it, o, i=-1):
    def one(v, k):
        e = list(belems(v))
        try:
            x = e.pop(k)
        except IndexError as ex:
            it.raise_(IndexError, str(ex))
        return (x, mkbytes(e))

    r = it.lift(one, restrict(o.val, it.pc), it.concretize(i))
    ba_set(it, o, merge([(g, t[1]) for g, t in alts(r)]) if isinstance(r, G) else r[1])
    return merge([(g, t[0]) for g, t in r.alts]) if isinstance(r, G) else r[0]


BYTEARRAY = {
    "append": lambda it, o, x: ba_set(it, o, it.binop("Add", o.val, N.mk_bytes_from(it, (x,)))),
    "extend": lambda it, o, x: ba_set(it, o, it.binop("Add", o.val, it.bytes_of(x))),
    "clear": ba_del_clear,
    "pop": ba_pop,
    "copy": lambda it, o: ByteArr(restrict(o.val, it.pc), it.pc),
}


# --- containers ---------------------------------------------------------------------------------------


def l_append(it, l, v):
    l.e.append([1 if implies(l.birth, it.pc) else it.pc, v])


def l_extend(it, l, v):
    if v is l:
        l.e += [list(x) for x in l.e]
        return
    for g, x in list(it.entries(v)) if isinstance(v, ListObj) else it.entries(v):
        k = conj(g, it.pc)
        if k:
            l.e.append([1 if implies(l.birth, k) else k, x])


def l_insert(it, l, i, v):
    if i == 0 and l.plain() and implies(l.birth, it.pc):
        l.e.insert(0, [1, v])
        return

    def f(t, k):
        t = list(t)
        t.insert(k, v)
        return None, t

    it.lift(lambda k: N.list_mutate(it, l, lambda t: f(t, k)), it.concretize(i))


def l_pop(it, l, i=-1):
    def go(k):
        def f(t):
            t = list(t)
            try:
                x = t.pop(k)
            except IndexError as e:
                it.raise_(IndexError, str(e))
            return x, t

        return N.list_mutate(it, l, f)

    return it.lift(go, it.concretize(i))


def l_index(it, l, x, start=0, stop=None):
    def one(t, s, e):
        s0, e0, _ = slice(s, e).indices(len(t))
        rem = it.pc
        res = []
        for i in range(s0, e0):
            g = conj(rem, it.eq(t[i], x))
            if g:
                res.append((g, i))
                rem = bdd.diff(rem, g)
                if not rem:
                    break
        if rem:
            it.may_raise(rem, ValueError, "is not in list")
        return restrict(merge(res), it.pc)

    return it.lift(one, it.tuple_of(l), it.concretize(start), it.concretize(stop))


def l_remove(it, l, x):
    def f(t):
        rem = it.pc
        for i, y in enumerate(t):
            g = conj(rem, it.eq(y, x))
            if g == it.pc:
                return None, t[:i] + t[i + 1 :]
            if g:
                raise Undecided("list.remove of symbolic value")
        it.raise_(ValueError, "list.remove(x): x not in list")

    N.list_mutate(it, l, f)


def l_count(it, l, x):
    r = 0
    for g, y in (l.e if isinstance(l, ListObj) else [(1, z) for z in l]):
        n = conj(conj(g, it.eq(y, x)), it.pc)
        if n == it.pc:
            r = add(r, 1)
        elif n:
            r = add(r, bit_num(n))
    return r


def l_sort(it, l, key=None, reverse=False):
    ent = sort_entries(it, [(g, x) for g, x in l.e if conj(g, it.pc)], key, bool(it.native(reverse)))
    if not implies(l.birth, it.pc):
        if l.plain():
            n = len(l.e)
            new = [[1, merge([(it.pc, ent[i][1]), (neg(it.pc), l.e[i][1])])] for i in range(n)]
            l.e = new
            return
        raise Undecided("conditional sort")
    l.e = [[1 if implies(l.birth, g) else g, x] for g, x in ent]


def l_clear(it, l):
    if implies(l.birth, it.pc):
        l.e = []
    else:
        l.e = [[bdd.diff(g, it.pc), x] for g, x in l.e]
        l.e = [x for x in l.e if conj(x[0], l.birth)]


def l_reverse(it, l):
    if implies(l.birth, it.pc):
        l.e.reverse()
    else:
        N.list_mutate(it, l, lambda t: (None, t[::-1]))


def l_popleft(it, l):
    if not l.e:
        it.raise_(IndexError, "pop from an empty deque")
    return l_pop(it, l, 0)


LIST = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "index": l_index,
    "remove": l_remove, "count": l_count, "sort": l_sort, "clear": l_clear, "reverse": l_reverse,
    "copy": lambda it, l: N.list_from(it, l),
    "popleft": l_popleft,
    "appendleft": lambda it, l, v: l_insert(it, l, 0, v),
    "__len__": lambda it, l: N.length(it, l),
    "__getitem__": lambda it, l, i: it.getitem(l, i),
    "__setitem__": lambda it, l, i, v: it.setitem(l, i, v),
    "__contains__": lambda it, l, x: mkbool(it.contains(l, x)),
    "__iter__": lambda it, l: it.get_iter(l),
}

TUPLE = {
    "index": l_index,
    "count": l_count,
    "__len__": lambda it, t: len(t),
    "__getitem__": lambda it, t, i: it.getitem(t, i),
    "__contains__": lambda it, t, x: mkbool(it.contains(t, x)),
    "__iter__": lambda it, l: it.get_iter(l),
}


def d_get(it, d, k, default=None):
    return N.dict_get(it, d, k, default)


def d_setdefault(it, d, k, default=None):
    def one(x):
        h = N.dict_has(it, d, x)
        miss = bdd.diff(it.pc, h)
        if miss:
            guarded(it, miss, lambda: N.dict_set(it, d, x, default))
        return it.getitem(d, x)

    return it.lift(one, restrict(k, it.pc))


def d_pop(it, d, k, *default):
    def one(x):
        h = N.dict_has(it, d, x)
        miss = bdd.diff(it.pc, h)
        if miss and not default:
            it.may_raise(miss, KeyError, x)
            miss = 0
        v = N.dict_get(it, d, x, default[0] if default else None)
        hit = conj(it.pc, h)
        if hit:
            guarded(it, hit, lambda: N.dict_del(it, d, x))
        return v

    return it.lift(one, restrict(k, it.pc))


def d_popitem(it, d, last=True):
    es = d.e if not last else list(reversed(d.e))
    for e in es:
        if conj(e.g, it.pc) == it.pc:
            r = (e.k, e.v)
            N.dict_del(it, d, e.k)
            return r
        if conj(e.g, it.pc):
            raise Undecided("popitem")
    it.raise_(KeyError, "popitem(): dictionary is empty")


def d_clear(it, d):
    if getattr(d, "owner", None) is not None:
        for e in list(d.e):
            N.dict_del(it, d, e.k, True)
        return
    if implies(d.birth, it.pc):
        d.e = []
        d.index = {}
    else:
        for e in d.e:
            e.g = bdd.diff(e.g, it.pc)


def d_update(it, d, *a, **k):
    for x in a:
        x = restrict(x, it.pc)
        if not isinstance(x, (DictObj, G)):
            x = call_type(it, dict, [x], {})
        N.dict_update(it, d, x)
    for n, v in k.items():
        N.dict_set(it, d, n, v)


DICT = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "popitem": d_popitem, "clear": d_clear,
    "update": d_update,
    "keys": lambda it, d: DictView(d, "keys"),
    "values": lambda it, d: DictView(d, "values"),
    "items": lambda it, d: DictView(d, "items"),
    "copy": lambda it, d: N.dict_copy(it, d),
    "__len__": lambda it, d: N.length(it, d),
    "__getitem__": lambda it, d, k: it.getitem(d, k),
    "__setitem__": lambda it, d, k, v: it.setitem(d, k, v),
    "__contains__": lambda it, d, k: mkbool(it.contains(d, k)),
    "__iter__": lambda it, l: it.get_iter(l),
    "fromkeys": lambda it, d, ks, v=None: dict_fromkeys(it, ks, v),
}


def dict_fromkeys(it, ks, v=None):
    d = DictObj(it.pc)
    for g, k in it.entries(ks):
        guarded(it, g, lambda: N.dict_set(it, d, k, v))
    return d


def counter_most_common(it, d, n=None):
    raise Undecided("most_common")


def s_update(it, s, *vs):
    for v in vs:
        for g, x in it.entries(v):
            guarded(it, g, lambda: N.set_add(it, s, x))


def s_remove(it, s, v):
    N.set_discard(it, s, v, True)


def s_setop(op):
    return lambda it, s, *vs: functools.reduce(lambda a, b: N.set_op(it, op, a, N.as_set(it, b)), vs, s)


def s_inplace(op):
    def impl(it, s, v):
        r = N.set_op(it, op, s, N.as_set(it, v))
        if not implies(s.birth, it.pc):
            raise Undecided("conditional set update")
        s.e, s.index = r.e, r.index

    return impl


def s_pop(it, s):
    live = [(g, x) for g, x in s.e if conj(g, it.pc)]
    if not live:
        it.raise_(KeyError, "pop from an empty set")
    if len(live) == 1 and implies(it.pc, live[0][0]):
        N.set_discard(it, s, live[0][1])
        return live[0][1]
    raise Undecided("set.pop order")


SET = {
    "add": N.set_add,
    "update": s_update,
    "discard": lambda it, s, v: N.set_discard(it, s, v),
    "remove": s_remove,
    "pop": s_pop,
    "union": s_setop("BitOr"),
    "intersection": s_setop("BitAnd"),
    "difference": s_setop("Sub"),
    "symmetric_difference": s_setop("BitXor"),
    "difference_update": s_inplace("Sub"),
    "intersection_update": s_inplace("BitAnd"),
    "issubset": lambda it, s, v: mkbool(N.set_order(it, "LtE", s, N.as_set(it, v))),
    "issuperset": lambda it, s, v: mkbool(N.set_order(it, "GtE", s, N.as_set(it, v))),
    "isdisjoint": lambda it, s, v: mkbool(neg(it.truth(N.set_op(it, "BitAnd", s, N.as_set(it, v))))),
    "copy": lambda it, s: N.set_from(it, s, s.frozen),
    "clear": lambda it, s: s_clear(it, s),
    "__contains__": lambda it, s, v: mkbool(N.set_has(it, s, v)),
    "__len__": lambda it, s: N.length(it, s),
    "__iter__": lambda it, l: it.get_iter(l),
}


def s_clear(it, s):
    if implies(s.birth, it.pc):
        s.e, s.index = [], {}
    else:
        for x in s.e:
            x[0] = bdd.diff(x[0], it.pc)


NUM = {
    "bit_count": bit_count,
    "bit_length": bit_length,
    "to_bytes": lambda it, v, length=1, byteorder="big", *, signed=False: it.lift(
        lambda n: N.to_bytes_int(it, v, n, byteorder, bool(it.native(signed))), it.concretize(length)
    ),
    "is_integer": lambda it, v: v.is_integer() if isinstance(v, (int, float)) else (
        True if integral(v) is not None else mkbool(bdd.var(("is_integer", key(v))))
    ),
    "conjugate": lambda it, v: v,
    "hex": lambda it, v: v.hex(),
    "as_integer_ratio": lambda it, v: v.as_integer_ratio(),
    "__index__": lambda it, v: v,
    "__int__": lambda it, v: to_int(it, v),
    "__float__": lambda it, v: to_float(it, v),
    "__abs__": lambda it, v: num_abs(it, v),
    "__round__": lambda it, v, *a: num_round(it, v, *a),
    "__eq__": lambda it, s, x: mkbool(it.eq(s, x)),
    "__format__": lambda it, s, x: N.fmt_value(it, s, x),
    "__str__": lambda it, v: N.to_str(it, v),
    "__repr__": lambda it, v: N.to_repr(it, v),
    "__bool__": lambda it, v: mkbool(it.truth(v)),
    "__hash__": lambda it, v: b_hash(it, v),
    "__lt__": lambda it, a, b: mkbool(it.compare("Lt", a, b)),
    "__gt__": lambda it, a, b: mkbool(it.compare("Gt", a, b)),
}
for _op, _d in (("Add", "add"), ("Sub", "sub"), ("Mult", "mul"), ("Div", "truediv"), ("LShift", "lshift"), ("RShift", "rshift"), ("BitAnd", "and"), ("BitOr", "or"), ("BitXor", "xor"), ("Mod", "mod"), ("FloorDiv", "floordiv"), ("Pow", "pow")):
    NUM[f"__{_d}__"] = lambda it, a, b, _op=_op: it.binop(_op, a, b)


def gen_send(it, g, v):
    if v is not None:
        gt = g.src
        if gt is None:
            it.raise_(StopIteration)
        gt.sent = v
    return it.next_(g)


def gen_close(it, g):
    src = g.src
    if src is not None and getattr(src, "started", False) and not src.done:
        import ast

        for st in src.body:
            if any(isinstance(n, (ast.Try, ast.With)) for n in ast.walk(st)):
                raise Undecided("close of a generator with clean-up code")
    g.src = None


ITER = {
    "__next__": lambda it, g: it.next_(g),
    "__iter__": lambda it, g: g,
    "send": gen_send,
    "close": gen_close,
}


def bindm(tab, o, name):
    f = tab.get(name)
    if f is None:
        return UNBOUND
    return NativeFn(name, lambda it, a, k: f(it, o, *a, **k))


def liftv(tab, o, name):
    """methods of a G-valued payload (byte arrays)"""
    f = tab.get(name)
    if f is None:
        return UNBOUND
    return NativeFn(name, lambda it, a, k: it.lift(lambda x: f(it, x, *a, **k), restrict(o.val, it.pc)))


# unbound access through the type --------------------------------------------------------------------


def type_attr(it, t, name):
    if name == "__name__" or name == "__qualname__":
        return t.__name__
    if name == "__module__":
        return t.__module__
    if name == "__doc__":
        return t.__doc__
    if name == "__mro__":
        return tuple(it.object_cls if x is object else x for x in t.__mro__)
    if name == "__class__":
        return type
    if t is int and name == "from_bytes":
        def fb(it_, b, byteorder="big", *, signed=False):
            return it_.lift(lambda x, o, s: N.from_bytes_int(it_, N.mk_bytes_from(it_, x) if isinstance(x, (tuple, ListObj)) else x, o, bool(it_.native(s))), restrict(b, it_.pc), restrict(byteorder, it_.pc), restrict(signed, it_.pc))

        return NF("from_bytes", fb)
    if t is dict and name == "fromkeys":
        return NF("fromkeys", dict_fromkeys)
    if t in (bytes, bytearray) and name == "fromhex":
        def fh(it_, s):
            if isinstance(s, SStr) and all(isinstance(p, Fmt) and p.spec in ("0=2x", "0=2X") for p in s.parts):
                return mkbytes([p.v for p in s.parts])
            return it_.lift(lambda x: bytes.fromhex(x), s)

        return NF("fromhex", fh)
    if t is str and name == "maketrans":
        return NF("maketrans", lambda it_, *a: native_call(it_, str.maketrans, a))
    if t is object or t is type:
        if name == "__new__":
            return NativeFn("__new__", lambda it_, a, k: N.new_instance(it_, a[0], a[1:]))
        if name == "__call__":
            return NativeFn("__call__", lambda it_, a, k: N.instantiate(it_, a[0], a[1:], k))
    tab = {str: STR, bytes: BYTES, list: LIST, dict: DICT, set: SET, frozenset: SET, tuple: TUPLE, int: NUM, float: NUM, bool: NUM, bytearray: BYTES}.get(t)
    if tab is not None and name in tab:
        return NativeFn(name, lambda it_, a, k: it_.call(it_.getattr(a[0], name), a[1:], k))
    if issubclass(t, Model):
        f = getattr(t, "c_" + name, None)
        if f is not None:
            return NativeFn(name, lambda it_, a, k: f(it_, *a, **k))
        f = getattr(t, "m_" + name, None)
        if f is not None:
            return NativeFn(name, lambda it_, a, k: f(a[0], it_, *a[1:], **k))
        return UNBOUND
    if hasattr(t, name):
        x = getattr(t, name)
        if callable(x):
            return NativeFn(name, lambda it_, a, k: nat_or_undecided(it_, x, a, k, f"{t.__name__}.{name}"))
        return N.wrap(it, x)
    return UNBOUND


def nat_or_undecided(it, f, a, k, label):
    r = native_call(it, f, a, k)
    if r is NotImplemented:
        raise Undecided(f"{label} on symbolic data")
    return r


def func_attr(it, f, name):
    if name in ("__name__",):
        return f.attrs.get("__name__", getattr(f.node, "orig_name", f.name))
    if name == "__qualname__":
        return f.attrs.get(name, f.qual)
    if name == "__module__":
        return f.module.name
    if name == "__doc__":
        import ast

        if name in f.attrs:
            return f.attrs[name]
        return ast.get_docstring(f.node, clean=False) if isinstance(f.node, ast.FunctionDef) else None
    if name in f.attrs:
        return f.attrs[name]
    if name == "__call__":
        return f
    if name == "__get__":
        return NF("__get__", lambda it_, o, c=None: BoundMethod(f, o) if o is not None else f)
    if name == "__dict__":
        return mkdict(it, list(f.attrs.items()))
    if name == "__annotations__":
        return DictObj(it.pc)
    if name == "__defaults__":
        return tuple(f.defaults) or None
    if name == "__code__":
        a = f.node.args
        import types

        return NativeObj(types.SimpleNamespace(co_argcount=len(a.posonlyargs + a.args), co_name=f.name, co_varnames=tuple(x.arg for x in a.posonlyargs + a.args)))
    return UNBOUND


def prop_attr(it, p, name):
    if name == "setter":
        return NF("setter", lambda it_, f: PropertyObj(p.fget, f, p.fdel))
    if name == "getter":
        return NF("getter", lambda it_, f: PropertyObj(f, p.fset, p.fdel))
    if name == "deleter":
        return NF("deleter", lambda it_, f: PropertyObj(p.fget, p.fset, f))
    if name in ("fget", "fset", "fdel"):
        return getattr(p, name)
    return UNBOUND


def native_getattr(it, o, name):
    if name == "__class__":
        return N.classof(it, o)
    if isinstance(o, (IntMember, StrMember)):
        raw = int(o) if isinstance(o, int) else str.__str__(o)
        if name in ("name", "_name_"):
            return o.mname
        if name in ("value", "_value_"):
            return raw
        a, _ = o.ecls.lookup(name)
        if a is not UNBOUND:
            if isinstance(a, FuncObj):
                return BoundMethod(a, o)
            if isinstance(a, PropertyObj):
                return it.call(a.fget, [o])
            return a.f if isinstance(a, StaticM) else BoundMethod(a.f, o.ecls) if isinstance(a, ClassM) else a
        return native_getattr(it, raw, name)
    if isinstance(o, (str, SStr)):
        return bindm(STR, o, name)
    if isinstance(o, (bytes, ABytes)):
        if name == "nbytes":
            return len(belems(o))
        return bindm(BYTES, o, name)
    if isinstance(o, ByteArr):
        r = bindm(BYTEARRAY, o, name)
        return r if r is not UNBOUND else liftv(BYTES, o, name)
    if isinstance(o, (bool, int, float, Num, B, App)):
        if name == "real" or name == "numerator":
            return o
        if name == "imag":
            return 0
        if name == "denominator":
            return 1
        return bindm(NUM, o, name)
    if isinstance(o, ListObj):
        if name == "maxlen":
            return None
        return bindm(LIST, o, name)
    if isinstance(o, N.NTuple_()):
        fs = o.cls.ntfields
        if name in fs:
            return o[fs.index(name)]
        if name == "_fields":
            return tuple(fs)
        if name == "_asdict":
            return NF(name, lambda it_: mkdict(it_, list(zip(fs, o))))
        if name == "_replace":
            def rep(it_, **k):
                return N.instantiate(it_, o.cls, [k.get(f, x) for f, x in zip(fs, o)], {})

            return NF(name, rep)
        a, _ = o.cls.lookup(name)
        if a is not UNBOUND:
            if isinstance(a, FuncObj):
                return BoundMethod(a, o)
            if isinstance(a, PropertyObj):
                return it.call(a.fget, [o])
            return a.f if isinstance(a, StaticM) else BoundMethod(a.f, o.cls) if isinstance(a, ClassM) else a
        return bindm(TUPLE, o, name)
    if isinstance(o, tuple):
        return bindm(TUPLE, o, name)
    if isinstance(o, DictObj):
        if name == "move_to_end":
            raise Undecided("move_to_end")
        if name == "most_common":
            return bindm({"most_common": counter_most_common}, o, name)
        if name == "default_factory":
            return o.default_factory
        return bindm(DICT, o, name)
    if isinstance(o, DictView):
        return bindm({"isdisjoint": SET["isdisjoint"], "mapping": None}, o, name)
    if isinstance(o, SetObj):
        return bindm(SET, o, name)
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return bindm({"index": lambda it_, r, x: nat_or_undecided(it_, r.index, [x], {}, "range.index"), "count": lambda it_, r, x: nat_or_undecided(it_, r.count, [x], {}, "range.count")}, o, name)
    if isinstance(o, IterObj):
        return bindm(ITER, o, name)
    if isinstance(o, FileObj):
        from . import lib

        return lib.file_attr(it, o, name)
    if isinstance(o, NativeMod):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if o.fallback is not None:
            r = o.fallback(it, name)
            if r is not UNBOUND:
                o.attrs[name] = r
            return r
        return UNBOUND
    if isinstance(o, Model):
        return o.attr(it, name)
    if isinstance(o, FuncObj):
        return func_attr(it, o, name)
    if isinstance(o, BoundMethod):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.func
        if name == "__call__":
            return o
        return it.getattr(o.func, name, UNBOUND) if not isinstance(o.func, NativeFn) else UNBOUND
    if isinstance(o, (CacheFn,)):
        if name == "__wrapped__":
            return o.f
        if name == "cache_clear":
            return NF(name, lambda it_: o.memo.clear())
        return it.getattr(o.f, name, UNBOUND)
    if isinstance(o, PartialObj):
        return {"func": o.f, "args": tuple(o.args)}.get(name, UNBOUND)
    if isinstance(o, CtxGen):
        return it.getattr(o.f, name, UNBOUND)
    if isinstance(o, NativeFn):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
        if name == "__call__":
            return o
        sub_ = getattr(o, "attrs", {})
        return sub_.get(name, UNBOUND)
    if isinstance(o, PropertyObj):
        return prop_attr(it, o, name)
    if isinstance(o, StaticM):
        return o.f if name == "__func__" else it.getattr(o.f, name, UNBOUND)
    if isinstance(o, ClassM):
        return o.f if name == "__func__" else it.getattr(o.f, name, UNBOUND)
    if isinstance(o, EnumMember):
        if name in ("name", "_name_"):
            return o.name
        if name in ("value", "_value_"):
            return o.value
        a, _ = o.cls.lookup(name)
        if a is not UNBOUND:
            if isinstance(a, FuncObj):
                return BoundMethod(a, o)
            if isinstance(a, PropertyObj):
                return it.call(a.fget, [o])
            return a.f if isinstance(a, StaticM) else BoundMethod(a.f, o.cls) if isinstance(a, ClassM) else a
        return UNBOUND
    if isinstance(o, GenericCtx) or isinstance(o, CtxInst):
        from . import lib

        return lib.ctx_attr(it, o, name)
    if isinstance(o, TypeStub):
        return TypeStub(name)
    if isinstance(o, SliceObj):
        return {"start": o.a, "stop": o.b, "step": o.c}.get(name, UNBOUND)
    if isinstance(o, type):
        return type_attr(it, o, name)
    if isinstance(o, NativeObj):
        h = o.hooks.get(name)
        if h is not None:
            return NativeFn(name, lambda it_, a, k: h(it_, o, *a, **k))
        from . import lib

        h = lib.nativeobj_attr(it, o, name)
        if h is not None:
            return h
        try:
            x = getattr(o.obj, name)
        except AttributeError:
            return UNBOUND
        except Exception as e:
            it.raise_(type(e), *e.args)
        if callable(x) and not isinstance(x, type):
            return NativeObj(x, {})
        return N.wrap(it, x)
    if o is None:
        return UNBOUND
    return UNBOUND
