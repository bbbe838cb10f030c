"""Reduced ordered BDDs: the guard lattice of the analysis.

Nodes are ints.  0 = false, 1 = true.  A variable is allocated per key
(a message bit, a may-fail fault point, or an opaque predicate).
"""

FALSE, TRUE = 0, 1


class Undecided(Exception):
    """The analysis met something outside its domain (never a verdict)."""


LIMIT = 6_000_000
_VAR = [1 << 60, 1 << 60]
_LO = [0, 1]
_HI = [0, 1]
_UNIQ = {}
_AND = {}
_XOR = {}
_NOT = {0: 1, 1: 0}
_KEY2VAR = {}
_VARKEY = []
_SUPP = {0: frozenset(), 1: frozenset()}


def reset():
    global _VAR, _LO, _HI
    _VAR[:] = [1 << 60, 1 << 60]
    _LO[:] = [0, 1]
    _HI[:] = [0, 1]
    _UNIQ.clear()
    _AND.clear()
    _XOR.clear()
    _NOT.clear()
    _NOT.update({0: 1, 1: 0})
    _KEY2VAR.clear()
    _VARKEY.clear()
    _SUPP.clear()
    _SUPP.update({0: frozenset(), 1: frozenset()})


def size():
    return len(_VAR)


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _UNIQ.get(k)
    if n is None:
        n = len(_VAR)
        if n > LIMIT:
            raise Undecided("guard too large")
        _VAR.append(v)
        _LO.append(lo)
        _HI.append(hi)
        _UNIQ[k] = n
    return n


FIXED = None  # {key: bool} while one valuation of the inputs is analysed on its own


def var(key):
    """BDD of the variable named by (hashable) key; allocated on first use."""
    if FIXED is not None and key[0] in ("bit", "fault", "free"):
        return 1 if FIXED.get(key) else 0
    v = _KEY2VAR.get(key)
    if v is None:
        v = len(_VARKEY)
        _KEY2VAR[key] = v
        _VARKEY.append(key)
    return _mk(v, 0, 1)


def var_key(v):
    return _VARKEY[v]


def neg(a):
    r = _NOT.get(a)
    if r is None:
        r = _mk(_VAR[a], neg(_LO[a]), neg(_HI[a]))
        _NOT[a] = r
        _NOT[r] = a
    return r


def conj(a, b):
    if a == b:
        return a
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1:
        return b
    k = (a, b)
    r = _AND.get(k)
    if r is None:
        va, vb = _VAR[a], _VAR[b]
        if va == vb:
            r = _mk(va, conj(_LO[a], _LO[b]), conj(_HI[a], _HI[b]))
        elif va < vb:
            r = _mk(va, conj(_LO[a], b), conj(_HI[a], b))
        else:
            r = _mk(vb, conj(a, _LO[b]), conj(a, _HI[b]))
        _AND[k] = r
    return r


def disj(a, b):
    if a == b:
        return a
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    return neg(conj(neg(a), neg(b)))


def xor(a, b):
    if a == b:
        return 0
    if a > b:
        a, b = b, a
    if a == 0:
        return b
    if a == 1:
        return neg(b)
    k = (a, b)
    r = _XOR.get(k)
    if r is None:
        va, vb = _VAR[a], _VAR[b]
        if va == vb:
            r = _mk(va, xor(_LO[a], _LO[b]), xor(_HI[a], _HI[b]))
        elif va < vb:
            r = _mk(va, xor(_LO[a], b), xor(_HI[a], b))
        else:
            r = _mk(vb, xor(a, _LO[b]), xor(a, _HI[b]))
        _XOR[k] = r
    return r


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    return disj(conj(c, a), conj(neg(c), b))


def diff(a, b):
    return conj(a, neg(b))


def implies(a, b):
    return conj(a, neg(b)) == 0


def support(a):
    r = _SUPP.get(a)
    if r is None:
        # iterative to share
        r = support(_LO[a]) | support(_HI[a]) | {_VAR[a]}
        if len(_SUPP) < 200000:
            _SUPP[a] = r
    return r


def is_literal(a):
    return a > 1 and _LO[a] < 2 and _HI[a] < 2


def cofactor(a, v, val):
    memo = {}

    def rec(n):
        if n < 2 or _VAR[n] > v:
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if _VAR[n] == v:
            r = _HI[n] if val else _LO[n]
        else:
            r = _mk(_VAR[n], rec(_LO[n]), rec(_HI[n]))
        memo[n] = r
        return r

    return rec(a)


def pick(a):
    """One satisfying assignment {key: bool} (partial) or None."""
    if a == 0:
        return None
    res = {}
    while a > 1:
        if _LO[a] != 0:
            res[_VARKEY[_VAR[a]]] = False
            a = _LO[a]
        else:
            res[_VARKEY[_VAR[a]]] = True
            a = _HI[a]
    return res


def evaluate(a, assign):
    """Evaluate under var-index->bool mapping (default False)."""
    while a > 1:
        a = _HI[a] if assign.get(_VAR[a], False) else _LO[a]
    return a == 1


def parity_mask(a):
    """If a is the parity (or negated parity) of its support, return
    (frozenset(vars), const) else None."""
    s = sorted(support(a))
    p = 0
    for v in reversed(s):
        p = xor(_mk(v, 0, 1), p)
    if p == a:
        return frozenset(s), 0
    if neg(p) == a:
        return frozenset(s), 1
    return None
