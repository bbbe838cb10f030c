"""Abstract values: affine forms over message bits, guarded choices,
symbolic strings and byte strings."""

import math
from . import bdd


from .bdd import Undecided  # noqa: E402,F401


class PathDead(Exception):
    """Every path through the current evaluation ended (raise/abort)."""


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class App:
    """Uninterpreted application (pure)."""

    __slots__ = ("name", "args", "_h")

    def __init__(self, name, args):
        self.name = name
        self.args = tuple(args)
        self._h = hash((name, tuple(key(a) for a in self.args)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (
            isinstance(o, App)
            and o.name == self.name
            and len(o.args) == len(self.args)
            and all(key(a) == key(b) for a, b in zip(self.args, o.args))
        )

    def __repr__(self):
        return f"{self.name}({', '.join(map(show, self.args))})"


class Num:
    """const + sum coef*bit + sum coef*opaque.  f: float-typed."""

    __slots__ = ("c", "t", "o", "f", "_k")

    def __init__(self, c, t, o=None, f=False):
        self.c = c
        self.t = t
        self.o = o or {}
        self.f = f
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (
                "num",
                self.c,
                frozenset(self.t.items()),
                frozenset(self.o.items()),
                self.f,
            )
        return self._k

    def __repr__(self):
        return show(self)


class B:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"B({self.n})"


def mkbool(n):
    if n == 1:
        return True
    if n == 0:
        return False
    return B(n)


class G:
    """Guarded choice; guards are pairwise disjoint."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "G[" + "; ".join(f"{g}:{show(v)}" for g, v in self.alts) + "]"


class SStr:
    """Concatenation of text parts: str | Fmt | Opq | G(str/SStr) | other."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "S" + repr(list(self.parts))


class Fmt:
    """Text of number `v` under format spec `spec` (non-empty, no blanks
    inside except leading padding)."""

    __slots__ = ("v", "spec")

    def __init__(self, v, spec):
        self.v = v
        self.spec = spec

    def __repr__(self):
        return f"Fmt({show(self.v)},{self.spec!r})"


class BitCh:
    """One character '0'/'1' given by a bit."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Opq:
    """Opaque text (key is hashable)."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"Opq({self.k!r})"


class Json:
    """Result of json serialisation of a snapshot."""

    __slots__ = ("snap", "opts", "_k")

    def __init__(self, snap, opts):
        self.snap = snap
        self.opts = opts
        self._k = None

    def __repr__(self):
        return f"Json({self.snap!r},{self.opts!r})"


class ABytes:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"ABytes({len(self.e)})"


def mkbytes(e):
    e = tuple(e)
    if all(isinstance(x, int) for x in e):
        return bytes(e)
    return ABytes(e)


def belems(b):
    return tuple(b) if isinstance(b, (bytes, bytearray)) else b.e


# --- keys / display -----------------------------------------------------------


def key(v):
    """Hashable structural key (identity for heap objects)."""
    t = type(v)
    if t is bool:
        return ("b", v)
    if t is int:
        return ("i", v)
    if t is float:
        return ("f", v) if v == v else ("f", "nan")
    if t is str:
        return ("s", v)
    if t is bytes:
        return ("y", v)
    if v is None:
        return ("none",)
    if t.__base__ is int:
        return ("i", int(v))
    if t.__base__ is str:
        return ("s", str.__str__(v))
    if t is Num:
        return v.key()
    if t is B:
        return ("B", v.n)
    if t is tuple:
        return ("t",) + tuple(key(x) for x in v)
    if t is G:
        return ("G", frozenset((g, key(x)) for g, x in v.alts))
    if t is SStr:
        return ("S",) + tuple(key(p) for p in v.parts)
    if t is Fmt:
        return ("F", key(v.v), v.spec)
    if t is BitCh:
        return ("bc", v.n)
    if t is Opq:
        return ("O", v.k)
    if t is ABytes:
        return ("Y",) + tuple(key(x) for x in v.e)
    if t is App:
        return ("A", v)
    if t is Json:
        k = v._k
        if k is None:
            o = v.opts if isinstance(v.opts, dict) else {}
            k = v._k = ("J", snapkey(v.snap), o.get("indent"), o.get("ensure_ascii"), o.get("separators"), o.get("sort_keys"))
            JSONS[k] = v
        return k
    if t is slice:
        return ("sl", key(v.start), key(v.stop), key(v.step))
    if t is range:
        return ("rng", v)
    if t is complex:
        return ("c", v)
    k = getattr(v, "vkey", None)
    if k is not None:
        return k()
    return ("id", id(v))


JSONS = {}
TEXTS = {}  # decoded byte sequences
TEXT_LITS = {}  # literals that text operations look for


def snapkey(s):
    kind = getattr(s, "kind", None)
    if kind == "d":
        return ("d",) + tuple((g, key(k), snapkey(x)) for g, k, x in s.items)
    if kind == "l":
        return ("l",) + tuple((g, snapkey(x)) for g, x in s.items)
    if type(s) is G:
        return ("G", frozenset((g, snapkey(x)) for g, x in s.alts))
    return key(s)


def lit(*a):
    for x in a:
        if isinstance(x, str) and x:
            TEXT_LITS[x] = 1
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == "s":
            TEXT_LITS[x[1]] = 1


def show(v, depth=0):
    if isinstance(v, Num):
        runs = []
        bits = []
        for n, c in sorted(v.t.items(), key=lambda x: -abs(x[1])):
            bits.append(f"{c}*{show_node(n)}")
        if len(bits) > 4:
            bits = bits[:2] + ["..%d terms.." % (len(bits) - 3)] + bits[-1:]
        for a, c in v.o.items():
            runs.append(f"{c}*{a!r}")
        s = " + ".join(bits + runs)
        if v.c:
            s += f" + {v.c}"
        return f"<{s}>"
    if isinstance(v, B):
        return f"<bool {show_node(v.n)}>"
    if isinstance(v, G):
        return "{" + " | ".join(f"{show_node(g)}: {show(x)}" for g, x in v.alts[:4]) + (
            " ..." if len(v.alts) > 4 else ""
        ) + "}"
    if isinstance(v, SStr):
        return "".join(p if isinstance(p, str) else f"⟨{show(p)}⟩" for p in v.parts)
    if isinstance(v, Fmt):
        return f"{show(v.v)}:{v.spec}"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v[:8]) + (", ..." if len(v) > 8 else "") + ")"
    return repr(v)


def show_node(n):
    if n == 1:
        return "1"
    if n == 0:
        return "0"
    if bdd.is_literal(n):
        s = show_var(bdd._VAR[n])
        return s if bdd._HI[n] == 1 else "!" + s
    sup = sorted(bdd.support(n))
    return "f(" + ",".join(show_var(x) for x in sup[:4]) + (",..)" if len(sup) > 4 else ")")


def show_var(v):
    k = bdd.var_key(v)
    if isinstance(k, tuple) and k and k[0] == "bit":
        return f"{k[1]}[{k[2]}]"
    s = repr(k)
    return s if len(s) < 60 else s[:57] + "..."


# --- numbers ------------------------------------------------------------------


def isnum(v):
    return isinstance(v, (int, float, Num, B))


def to_num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, B):
        return bit_num(v.n)
    if isinstance(v, bool):
        return Num(int(v), {})
    if isinstance(v, int):
        return Num(v, {})
    if isinstance(v, float):
        return Num(v, {}, None, True)
    if isinstance(v, App):
        return Num(0, {}, {v: 1})
    raise Undecided(f"not a number: {v!r}")


def _canon(n):
    """canonical polarity: returns (atom, negated)"""
    m = bdd.neg(n)
    if bdd.is_literal(n):
        return (n, False) if bdd._HI[n] == 1 else (m, True)
    return (n, False) if n < m else (m, True)


def bit_num(n):
    if n == 0:
        return Num(0, {})
    if n == 1:
        return Num(1, {})
    a, ng = _canon(n)
    return Num(1, {a: -1}) if ng else Num(0, {a: 1})


def simp(x):
    if not x.t and not x.o:
        if x.f and not isinstance(x.c, float):
            try:
                return float(x.c)
            except OverflowError:
                return math.inf if x.c > 0 else -math.inf
        return x.c
    return x


def _comb(a, b, sb):
    t = dict(a.t)
    for k, v in b.t.items():
        w = t.get(k, 0) + sb * v
        if w == 0:
            t.pop(k, None)
        else:
            t[k] = w
    o = dict(a.o)
    for k, v in b.o.items():
        w = o.get(k, 0) + sb * v
        if w == 0:
            o.pop(k, None)
        else:
            o[k] = w
    return Num(a.c + sb * b.c, t, o, a.f or b.f)


def add(a, b):
    return simp(_comb(to_num(a), to_num(b), 1))


def sub(a, b):
    return simp(_comb(to_num(a), to_num(b), -1))


def scale(a, k):
    a = to_num(a)
    isf = a.f or isinstance(k, float)
    if k == 0:
        return 0.0 if isf else 0
    return simp(
        Num(
            a.c * k,
            {n: c * k for n, c in a.t.items()},
            {n: c * k for n, c in a.o.items()},
            isf,
        )
    )


def divk(a, k):
    """true division by a concrete k"""
    a = to_num(a)
    return simp(
        Num(
            a.c / k,
            {n: c / k for n, c in a.t.items()},
            {n: c / k for n, c in a.o.items()},
            True,
        )
    )


def as_float(a):
    a = to_num(a)
    return simp(Num(a.c, a.t, a.o, True))


def nrange(a):
    lo = hi = a.c
    for c in a.t.values():
        if c > 0:
            hi += c
        else:
            lo += c
    return lo, hi


def from_bits(bits, sign=0):
    """LSB-first list of nodes; sign node extends infinitely."""
    c = 0
    t = {}
    for i, n in enumerate(bits):
        w = 1 << i
        if n == 0:
            continue
        if n == 1:
            c += w
            continue
        a, ng = _canon(n)
        if ng:
            c += w
            w = -w
        x = t.get(a, 0) + w
        if x == 0:
            t.pop(a, None)
        else:
            t[a] = x
    if sign:
        w = -(1 << len(bits))
        if sign == 1:
            c += w
        else:
            a, ng = _canon(sign)
            if ng:
                c += w
                w = -w
            x = t.get(a, 0) + w
            if x == 0:
                t.pop(a, None)
            else:
                t[a] = x
    return simp(Num(c, t))


def _is_pow2(x):
    return isinstance(x, int) and x > 0 and (x & (x - 1)) == 0


def to_bits(a):
    """(bits LSB first, sign node) of an integer value, or None."""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(a, int):
        n = max(a.bit_length(), 0)
        return [(a >> i) & 1 for i in range(n)], (1 if a < 0 else 0)
    a = to_num(a)
    if a.o or a.f:
        return None
    if not isinstance(a.c, int) or any(not isinstance(c, int) for c in a.t.values()):
        return None
    # direct pattern
    for signed in (False, True):
        r = _direct_bits(a, signed)
        if r is not None:
            return r
    # generic ripple-carry
    lo, hi = nrange(a)
    w = max(abs(lo), abs(hi)).bit_length() + 1
    if w > 80:
        return None
    acc = [(a.c >> i) & 1 for i in range(w)]
    for n, c in sorted(a.t.items(), key=lambda x: abs(x[1])):
        add_ = [n if (c >> i) & 1 else 0 for i in range(w)]
        carry = 0
        out = []
        for x, y in zip(acc, add_):
            xy = bdd.xor(x, y)
            out.append(bdd.xor(xy, carry))
            carry = bdd.disj(bdd.conj(x, y), bdd.conj(xy, carry))
        acc = out
    return acc[:-1], acc[-1]


def _direct_bits(a, signed):
    items = {}
    c = a.c
    top = None
    for n, w in a.t.items():
        aw = abs(w)
        if not _is_pow2(aw) or aw in items:
            return None
        items[aw] = (n, w < 0)
    if not items:
        return None
    if signed:
        top = max(items)
        n, ng = items.pop(top)
        # sign weight must be -top
        if ng:
            sgn = n
        else:
            sgn = bdd.neg(n)
            c += top
    for aw, (n, ng) in list(items.items()):
        if ng:
            c -= aw
            items[aw] = (bdd.neg(n), False)
    if c < 0:
        return None
    width = max([c.bit_length()] + [w.bit_length() for w in items])
    bits = [(c >> i) & 1 for i in range(width)]
    for aw, (n, _) in items.items():
        i = aw.bit_length() - 1
        if bits[i]:
            return None
        bits[i] = n
    if signed:
        i = top.bit_length() - 1
        if width > i:
            return None
        bits = bits + [0] * (i - width)
        return bits, sgn
    return bits, 0


def bitop(op, a, b):
    x, y = to_bits(a), to_bits(b)
    if x is None or y is None:
        return None
    (xb, xs), (yb, ys) = x, y
    if op == "&":
        f = bdd.conj
        # a non-negative constant mask truncates
    elif op == "|":
        f = bdd.disj
    else:
        f = bdd.xor
    n = max(len(xb), len(yb))
    out = [
        f(xb[i] if i < len(xb) else xs, yb[i] if i < len(yb) else ys) for i in range(n)
    ]
    return from_bits(out, f(xs, ys))


def shr(a, k):
    x = to_bits(a)
    if x is None:
        return None
    b, s = x
    return from_bits(b[k:], s)


# --- comparisons ----------------------------------------------------------------

MAXPB = 400000


def _opq_cmp(op, a):
    """opaque predicate over a non-bit quantity, canonical sign"""
    items = sorted(
        [("t", n, c) for n, c in a.t.items()] + [("o", repr(k), c) for k, c in a.o.items()],
        key=lambda x: (x[0], x[1]),
    )
    flip = items[0][2] < 0
    if items[0][0] == "t" and any(i[0] == "o" for i in items):
        o0 = [i for i in items if i[0] == "o"][0]
        flip = o0[2] < 0
    if flip:
        a = to_num(scale(a, -1))
    k = (a.c, frozenset(a.t.items()), frozenset(a.o.items()))
    if op == "==":
        return bdd.var(("eq0", k))
    if op == "<":
        return bdd.neg(bdd.var(("le0", k))) if flip else bdd.var(("lt0", k))
    # <=
    return bdd.neg(bdd.var(("lt0", k))) if flip else bdd.var(("le0", k))


def cmp0(op, a, tol=0):
    """BDD node of  a op 0  (op in ==, <, <=)."""
    if not isinstance(a, (Num, B)):
        if isinstance(a, App):
            return _opq_cmp(op, to_num(a))
        if op == "==":
            return 1 if abs(a) <= tol else 0
        return 1 if (a < 0 if op == "<" else a <= 0) else 0
    a = to_num(a)
    if a.o:
        return _opq_cmp(op, a)
    terms = sorted(a.t.items(), key=lambda x: (-abs(x[1]), x[0]))
    n = len(terms)
    smin = [0] * (n + 1)
    smax = [0] * (n + 1)
    for i in range(n - 1, -1, -1):
        c = terms[i][1]
        smin[i] = smin[i + 1] + min(c, 0)
        smax[i] = smax[i + 1] + max(c, 0)
    memo = {}

    def rec(i, s):
        lo, hi = s + smin[i], s + smax[i]
        if op == "==":
            if lo > tol or hi < -tol:
                return 0
            if -tol <= lo and hi <= tol:
                return 1
        elif op == "<":
            if hi < 0:
                return 1
            if lo >= 0:
                return 0
        else:
            if hi <= 0:
                return 1
            if lo > 0:
                return 0
        k = (i, s)
        r = memo.get(k)
        if r is None:
            if len(memo) > MAXPB:
                raise Undecided("comparison too large")
            nd, c = terms[i]
            r = bdd.ite(nd, rec(i + 1, s + c), rec(i + 1, s))
            memo[k] = r
        return r

    return rec(0, a.c)


def num_eq(a, b, pc=1):
    """node of a == b for numbers (valid under pc)"""
    an = isinstance(a, (Num, B))
    bn = isinstance(b, (Num, B))
    if not an and not bn and not isinstance(a, App) and not isinstance(b, App):
        return 1 if a == b else 0
    for x in (a, b):
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
            return 0
    d = sub(a, b)
    if isinstance(d, Num) and not d.o:
        if len(d.t) >= 12 and sum(not bdd.is_literal(n) for n in d.t) >= 6:
            r = _linear_eq(a, b, pc)
            if r is not None:
                return r
    return cmp0("==", d)


def _linear_eq(a, b, pc=1):
    """Equality of two bit vectors of parity functions, as one opaque
    predicate keyed by the reduced GF(2) system it states.  Bits that pc
    fixes are substituted first."""
    x, y = to_bits(a), to_bits(b)
    if x is None or y is None:
        return None
    (xb, xs), (yb, ys) = x, y
    n = max(len(xb), len(yb))
    eqs = [bdd.xor(xs, ys)]
    for i in range(n):
        eqs.append(bdd.xor(xb[i] if i < len(xb) else xs, yb[i] if i < len(yb) else ys))
    return _linear_sys(eqs, pc, 0)


def _linear_sys(eqs, pc, depth):
    """all functions of eqs are zero; None if they are not parities"""
    if pc == 0 or 1 in eqs:
        return 0
    eqs = [e for e in eqs if e]
    if pc != 1:
        sup = set()
        for e in eqs:
            sup |= bdd.support(e)
        for v in bdd.support(pc):
            if v in sup:
                if bdd.cofactor(pc, v, 0) == 0:
                    eqs = [bdd.cofactor(e, v, 1) for e in eqs]
                elif bdd.cofactor(pc, v, 1) == 0:
                    eqs = [bdd.cofactor(e, v, 0) for e in eqs]
        if 1 in eqs:
            return 0
        eqs = [e for e in eqs if e]
    rows = []
    for e in eqs:
        pm = bdd.parity_mask(e)
        if pm is None:
            # case distinction on a variable that pc talks about
            c = sorted(set(bdd.support(e)) & set(bdd.support(pc)))
            if depth >= 30 or not c:
                return None
            best = None
            for v in c:
                x0, x1 = bdd.cofactor(e, v, 0), bdd.cofactor(e, v, 1)
                z = bdd.xor(x0, x1)
                if z > 1:
                    w = len(bdd.support(z)) + 8 * ((bdd.parity_mask(x0) is None) + (bdd.parity_mask(x1) is None))
                    if best is None or w < best[0]:
                        best = (w, v)
            if best is None:
                return None
            v = best[1]
            r0 = _linear_sys([bdd.cofactor(x, v, 0) for x in eqs], bdd.cofactor(pc, v, 0), depth + 1)
            if r0 is None:
                return None
            r1 = _linear_sys([bdd.cofactor(x, v, 1) for x in eqs], bdd.cofactor(pc, v, 1), depth + 1)
            if r1 is None:
                return None
            return bdd.ite(bdd.var(bdd.var_key(v)), r1, r0)
        m = 0
        for v in pm[0]:
            m |= 2 << v
        rows.append(m | pm[1])
    allv = 0
    for m in rows:
        allv |= m >> 1
    if allv.bit_count() - len(rows) <= 4:
        r = 1
        for m in rows:
            e = 1 - (m & 1)
            m >>= 1
            while m:
                v = m.bit_length() - 1
                m ^= 1 << v
                e = bdd.xor(e, bdd.var(bdd.var_key(v)))
            r = bdd.conj(r, e)
        return r
    basis = {}
    for m in rows:
        while m > 1:
            h = m.bit_length()
            if h in basis:
                m ^= basis[h]
            else:
                break
        if m == 1:
            return 0
        if m:
            basis[m.bit_length()] = m
    hs = sorted(basis)
    for h in hs:
        for g in hs:
            if g > h and (basis[g] >> (h - 1)) & 1:
                basis[g] ^= basis[h]
    return bdd.var(("gf2", tuple(basis[h] for h in hs)))


def enum_values(a, pc, limit=1100):
    """[(guard, concrete value)] of an affine form under pc."""
    a = to_num(a)
    if a.o:
        raise Undecided(f"cannot enumerate {show(a)}")
    terms = sorted(a.t.items(), key=lambda x: (-abs(x[1]), x[0]))
    cur = {a.c: pc}
    for nd, c in terms:
        nxt = {}
        nn = bdd.neg(nd)
        for s, g in cur.items():
            g1 = bdd.conj(g, nd)
            if g1:
                nxt[s + c] = bdd.disj(nxt.get(s + c, 0), g1)
            g0 = bdd.conj(g, nn)
            if g0:
                nxt[s] = bdd.disj(nxt.get(s, 0), g0)
        cur = nxt
        if len(cur) > limit:
            raise Undecided(f"too many values of {show(a)}")
    f = a.f
    return [(g, float(s) if f else s) for s, g in sorted(cur.items())]


# --- guarded choice -------------------------------------------------------------


def merge(alts):
    """Join (guard, value) alternatives into one value."""
    flat = []
    for g, v in alts:
        if g == 0:
            continue
        if isinstance(v, G):
            for h, x in v.alts:
                k = bdd.conj(g, h)
                if k:
                    flat.append((k, x))
        else:
            flat.append((g, v))
    if not flat:
        raise PathDead()
    if len(flat) == 1:
        return flat[0][1]
    if all(type(v) is bool or type(v) is B for _, v in flat):
        f0 = flat[0][1]
        if type(f0) is bool and all(v is f0 for _, v in flat):
            return f0
        if type(f0) is B and all(type(v) is B and v.n == f0.n for _, v in flat):
            return f0
        n = 0
        allg = 0
        for g, v in flat:
            allg = bdd.disj(allg, g)
            n = bdd.disj(n, bdd.conj(g, v.n) if type(v) is B else (g if v else 0))
        if n == allg:
            return True
        if n == 0:
            return False
        return B(n)
    groups = {}
    order = []
    for g, v in flat:
        k = key(v)
        if k in groups:
            groups[k][0] = bdd.disj(groups[k][0], g)
        else:
            groups[k] = [g, v]
            order.append(k)
    if len(order) == 1:
        return groups[order[0]][1]
    return G([(groups[k][0], groups[k][1]) for k in order])


def alts(v):
    return v.alts if isinstance(v, G) else [(1, v)]


def restrict(v, pc):
    """Drop alternatives impossible under pc."""
    if type(v) is G:
        out = [(g, x) for g, x in v.alts if bdd.conj(g, pc)]
        if len(out) == len(v.alts):
            return v
        if len(out) == 1:
            return out[0][1]
        if not out:
            raise PathDead()
        return G(out)
    if type(v) is B:
        x = bdd.conj(v.n, pc)
        if x == 0:
            return False
        if x == pc:
            return True
    return v


# --- symbolic strings -------------------------------------------------------------


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            sub_ = p.parts
        else:
            sub_ = (p,)
        for q in sub_:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def sparts(s):
    return (s,) if isinstance(s, str) else s.parts


def isint(v):
    """a whole number for sure"""
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return True
    return isinstance(v, Num) and not v.f and not v.o and isinstance(v.c, int) and all(isinstance(c, int) for c in v.t.values())
