"""C27: comparison and copying of decoded records."""

from .base import *

CLASSES = ["EphGPS", "EphGLO", "EphGALF", "EphGALI", "EphBDS", "EphQZS", "EphNAVIC",
           "BaseRP", "BaseRPH", "BaseAD", "BaseADSN", "BaseADSNRC", "BaseSP", "BaseTS", "BaseGLBS"]
WHERE = "DataClassMethods"


def bit(name):
    return bdd.var(("bit", name, 0))


def pair(name, kind, i):
    """(value of A, value of B, guard: they have to be equal)"""
    if kind == "int":
        a, b = [], []
        for k in range(4):
            a.append(bdd.var(("bit", f"a.{name}", k)))
            b.append(bdd.var(("bit", f"b.{name}", k)))
        x, y = signed(a), signed(b)
        eq = 1
        for p, q in zip(a, b):
            eq = bdd.conj(eq, bdd.neg(bdd.xor(p, q)))
        return x, y, eq
    if kind == "bool":
        p, q = bit(f"a.{name}"), bit(f"b.{name}")
        return B(p), B(q), bdd.neg(bdd.xor(p, q))
    if kind == "str":
        p, q = bit(f"a.{name}"), bit(f"b.{name}")
        t = lambda z: V.merge([(z, "AB c"), (bdd.neg(z), "AB d")])
        return t(p), t(q), bdd.neg(bdd.xor(p, q))
    # float: B differs relatively by 1e-9 (seen) or is the same
    c = [1.5e7, -2.25e-9, 3.0, -4.75e3, 1e-3][i % 5]
    d = bit(f"d.{name}")
    return c, V.merge([(d, c * (1 + 1e-9)), (bdd.neg(d), c)]), bdd.neg(d)


def fields(it, cls):
    v = it.call(attr(it, it.get_module("dataclasses"), "fields"), [cls])
    return [it.getattr(f, "name") for _, f in it.entries(v)]


def kinds(cls, names, which):
    out = {}
    for i, n in enumerate(names):
        if n in ("descr", "serialNumber", "rcvDescriptor", "rcvFWVersion", "rcvSerNum", "message"):
            out[n] = "str"
        elif n in ("shedule", "validity", "correction"):
            out[n] = n
        elif which == "float" and n not in ("msgNum", "bsID", "satNum", "weekNum"):
            out[n] = "float"
        elif which == "mixed":
            out[n] = ("int", "float", "bool", "int")[i % 4]
        else:
            out[n] = "int"
    return out


def fill(it, cls, which, only=None):
    """two records with abstract contents; guard of equality"""
    a, b = it.call(cls), it.call(cls)
    eqs = 1
    names = fields(it, cls)
    vals = {}
    for i, (n, k) in enumerate(kinds(cls, names, which).items()):
        fl = "float" if which != "int" else "int"
        if k == "shedule":
            x, y, e = {}, {}, 1
            for s in (1005, 1077):
                p = pair(f"{n}.{s}.p", "bool" if which != "int" else "int", i)
                q = pair(f"{n}.{s}.q", fl, i)
                x[s], y[s] = (p[0], q[0]), (p[1], q[1])
                e = bdd.conj(e, bdd.conj(p[2], q[2]))
            x, y = mkdict(it, x), mkdict(it, y)
        elif k in ("validity", "correction"):
            x, y, e = {}, {}, 1
            for j, s in enumerate(("1C", "1P", "2C", "2P")):
                p = pair(f"{n}.{s}", ("bool" if k == "validity" else fl) if which != "int" else "int", i + j)
                x[s], y[s] = p[0], p[1]
                e = bdd.conj(e, p[2])
            x, y = mkdict(it, x), mkdict(it, y)
        else:
            x, y, e = pair(n, k, i)
        it.setattr(a, n, x)
        it.setattr(b, n, y)
        vals[n] = (x, y)
        eqs = bdd.conj(eqs, e)
    return a, b, eqs, vals, names


def mkdict(it, d):
    r = it.call(dict)
    for k, v in d.items():
        it.natives.setitem(it, r, k, v)
    return r


def tguard(v):
    """guard under which an abstract result is true"""
    r = 0
    for g, x in V.alts(v):
        if isinstance(x, B):
            r = bdd.disj(r, bdd.conj(g, x.n))
        elif x is True:
            r = bdd.disj(r, g)
        elif x is not False:
            raise Undecided(f"comparison yields {x!r}")
    return r


def world(ctx):
    it, W = ctx.interp()
    return it, it.get_module("gnss_types")


def compare(ctx, name, which):
    it, mod = world(ctx)
    cls = attr(it, mod, name)
    a, b, eq, vals, names = fill(it, cls, which)
    ctx.inputs = {n: v[0] for n, v in vals.items() if isinstance(v[0], (Num, B))}
    ctx.inputs.update({n + "'": v[1] for n, v in vals.items() if isinstance(v[1], (Num, B))})
    for p, q, lab in ((a, b, "A vs B"), (b, a, "B vs A"), (a, a, "A vs itself")):
        v, pc, ex = run(it, attr(it, p, "compare"), q)
        for e in ex:
            ctx.fail("compare() must not raise", f"{e.cls}: {e!r}", e.g, e.site)
        want = 1 if p is q else eq
        t = tguard(v)
        ctx.holds(f"{lab}: equal records compare equal", t, want, "records with equal contents are reported as different", WHERE)
        ctx.holds(f"{lab}: different records compare different", bdd.neg(t), bdd.neg(want), "records with different contents are reported as equal", WHERE)


def copies(ctx, name, which):
    it, mod = world(ctx)
    cls = attr(it, mod, name)
    a, b, eq, vals, names = fill(it, cls, which)
    ctx.inputs = {n: v[0] for n, v in vals.items() if isinstance(v[0], (Num, B))}
    for meth in ("copy", "deepcopy"):
        c, pc, ex = run(it, attr(it, a, meth))
        for e in ex:
            ctx.fail(f"{meth}() must not raise", f"{e.cls}: {e!r}", e.g, e.site)
        if c is a:
            ctx.fail(f"{meth}() yields a new record", "the same object is returned", 1, WHERE)
            continue
        t = it.call(type, [c])
        ctx.holds(f"{meth}() keeps the type", int(t is cls), 1, f"copy of {name} is {t!r}", WHERE)
        for n in names:
            ctx.same(f"{meth}(): {n}", snap(it, it.getattr(c, n)), snap(it, vals[n][0]), 1, WHERE)
        for n in names:
            x = it.getattr(c, n)
            if meth == "deepcopy" and n in ("shedule", "validity", "correction"):
                for g, k in list(it.entries(it.getattr(a, n))):
                    it.natives.setitem(it, x, k, 77)
            it.setattr(c, n, -99)
        for n in names:
            ctx.same(f"changing the result of {meth}() leaves {n} alone", snap(it, it.getattr(a, n)), snap(it, vals[n][1 - 1]), 1, WHERE)
        if meth == "deepcopy":
            for n in ("shedule", "validity", "correction"):
                if n in names:
                    for g, v in it.entries(it.call(attr(it, it.getattr(a, n), "values"))):
                        ctx.holds("deepcopy() does not share containers", int(v != 77), 1, f"{n} of the original changes with the copy", WHERE)
    v, pc, ex = run(it, attr(it, a, "len"))
    ctx.same("len()", v, len(names), 1, WHERE)
    v, pc, ex = run(it, attr(it, a, "items"))
    got = [x for g, x in it.entries(v)]
    ctx.same("items(): names", tuple(x[0] for x in got), tuple(names), 1, WHERE)
    for x in got:
        ctx.same(f"items(): {x[0]}", snap(it, x[1]), snap(it, vals[x[0]][0]), 1, WHERE)


def snap(it, v):
    return lib_snap(it, v)


def lib_snap(it, v):
    from absint.objects import DictObj

    if isinstance(v, DictObj):
        return {k: lib_snap(it, x) for k, x in ((e.k, e.v) for e in v.e)}
    if isinstance(v, tuple):
        return tuple(lib_snap(it, x) for x in v)
    return v


def classes(ctx):
    """records of different classes never compare equal"""
    it, mod = world(ctx)
    objs = {n: it.call(attr(it, mod, n)) for n in CLASSES}
    for a in CLASSES:
        for b in CLASSES:
            v, pc, ex = run(it, attr(it, objs[a], "compare"), objs[b])
            for e in ex:
                ctx.fail(f"{a} against {b}: compare() must not raise", f"{e.cls}: {e!r}", e.g, e.site)
            if ex:
                continue
            ctx.holds(f"{a} against {b}", int(tguard(v) == int(a == b)), 1, f"compare() yields {v!r}", WHERE)


NAN = float("nan")


def tolerance(ctx, name, field, wrap):
    """floats agree within the relative tolerance, whatever sign, magnitude
    and nesting; wrap: how the value sits in the record"""
    it, mod = world(ctx)
    cls = attr(it, mod, name)
    def rec(x):
        r = it.call(attr(it, mod, "EphGPS"))
        it.setattr(r, "af0", x)
        return r

    w = {"record": rec, "plain": lambda x: x, "dict": lambda x: mkdict(it, {"1C": x, "2C": 1.0}), "tuple": lambda x: mkdict(it, {1005: (True, x)})}[wrap]
    for tol in (None, 1e-12, 1e-6, 0.01):
        t = tol or 1e-15
        cases = []
        for c in (1.0, -1.0, 1e7, -1e7, 3.5e-9, -3.5e-9, 2e4, -0.125):
            cases += [(c, c, True), (c, -c, False), (c * (1 + 20 * t + 1e-14), c, False), (c * (1 - 20 * t - 1e-14), c, False), (c, 0.0, False), (0.0, c, False)]
            if t > 1e-14 and abs(c) > t:
                cases += [(c * (1 + t / 4), c, True), (c * (1 - t / 4), c, True)]
        cases = [x for x in cases if max(abs(x[0]), abs(x[1])) > 2 * t or x[2]]
        cases += [(0.0, 0.0, True), (NAN, NAN, True), (NAN, 1.0, False), (1.0, NAN, False), (-1.0, NAN, False), (float("inf"), 1.0, False)]
        for x, y, want in cases:
            a, b = it.call(cls), it.call(cls)
            it.setattr(a, field, w(x))
            it.setattr(b, field, w(y))
            v, pc, ex = run(it, attr(it, a, "compare"), b, *([] if tol is None else [tol]))
            for e in ex:
                ctx.fail("compare() must not raise", f"{e.cls}: {e!r}", e.g, e.site)
            if not ex:
                ctx.holds(f"{x!r} against {y!r}, tolerance {t}", int(tguard(v) == int(want)), 1, f"compare() yields {v!r}, specified {want}", WHERE)


def nested(ctx, name, field):
    """container fields agree only if they have the same shape"""
    it, mod = world(ctx)
    cls = attr(it, mod, name)

    def mk(v):
        if isinstance(v, dict):
            return mkdict(it, {k: mk(x) for k, x in v.items()})
        if isinstance(v, list):
            return it.call(list, [tuple(mk(x) for x in v)])
        if isinstance(v, tuple):
            return tuple(mk(x) for x in v)
        return v

    T = (True, 1.5)
    vals = [{}, {1005: T}, {1006: T}, {1005: T, 1006: T}, {1005: (True,)}, {1005: ()}, {1005: (False, 1.5)}, {1005: (True, 2.5)},
            {1005: T, 1006: T, 1077: T}, {1005: (True, 1.5, 0)}, {1005: [True, 1.5]}, {1005: [True, 1.5, 2]}, {"1005": T}, {1005: {1: 2}},
            {1005: {1: 3}}, {1005: {1: 2, 2: 2}}, "", "1C", "1C ", {1005: "ab"}, {1005: "abc"}]
    for i, x in enumerate(vals):
        for j, y in enumerate(vals):
            a, b = it.call(cls), it.call(cls)
            it.setattr(a, field, mk(x))
            it.setattr(b, field, mk(y))
            v, pc, ex = run(it, attr(it, a, "compare"), b)
            for e in ex:
                ctx.fail("compare() must not raise", f"{e.cls}: {e!r}", e.g, e.site)
            if not ex:
                ctx.holds(f"{x!r} against {y!r}", int(tguard(v) == int(i == j)), 1, f"compare() yields {v!r}, specified {i == j}", WHERE)


def scenarios(prop, tier):
    out = []
    for n in CLASSES:
        for w in ("int", "float", "mixed"):
            out.append((f"compare {n} {w}", "compare", (n, w)))
            out.append((f"copy {n} {w}", "copies", (n, w)))
    out.append(("classes", "classes", ()))
    for n, f in (("BaseSP", "shedule"), ("BaseGLBS", "correction"), ("BaseGLBS", "validity")):
        out.append((f"nested {n}.{f}", "nested", (n, f)))
    for n, f, w in (("EphGPS", "af0", "plain"), ("EphGLO", "xn", "plain"), ("EphGALI", "cis", "plain"), ("BaseRPH", "height", "plain"),
                    ("BaseGLBS", "correction", "dict"), ("BaseSP", "shedule", "tuple"), ("EphNAVIC", "TGD", "plain"), ("EphBDS", "TGD2", "plain"),
                    ("BaseSP", "shedule", "record")):
        out.append((f"tolerance {n}.{f}", "tolerance", (n, f, w)))
    return out
