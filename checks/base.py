"""Common machinery of the checks: scenarios, obligations, witnesses.

A scenario drives the abstract interpreter over one public entry point of the
analysed tree with abstract inputs, and states obligations: equalities between
abstract results and the specification's abstract value, or implications
between guards.  An obligation is
  proved    - structurally (affine forms / guards coincide for all inputs),
  sampled   - not provable structurally, and no disagreeing valuation found,
  violated  - a concrete valuation of the input bits on which both abstract
              terms evaluate differently (this is the reported witness),
  undecided - outside the domain of the analysis.
"""

import json
import math
import os
import random
import re
import sys
import threading
import time
import zlib
import traceback

from absint import interp, world, bdd
from absint import values as V
from absint.values import Num, B, G, SStr, Fmt, Opq, BitCh, Json, ABytes, App, Undecided, PathDead
from absint.objects import *
from absint.lib import Snap

REPO = os.environ.get("VERIF_REPO", "/repo")
_SRC = {}


def source():
    s = _SRC.get(REPO)
    if s is None:
        s = _SRC[REPO] = interp.Source(REPO)
    return s


SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
RTOL = 1e-9


# --- evaluation of abstract terms under a valuation ---------------------------------


class NoEval(Exception):
    pass


def ev_node(n, asg):
    return bdd.evaluate(n, asg)


def ev(v, asg):
    """concrete value of an abstract term under a valuation of the bits"""
    t = type(v)
    if t is Num:
        x = v.c
        for n, c in v.t.items():
            if bdd.evaluate(n, asg):
                x += c
        for a, c in v.o.items():
            x += c * ev(a, asg)
        return float(x) if v.f else x
    if t is B:
        return bdd.evaluate(v.n, asg)
    if t is G:
        for g, x in v.alts:
            if bdd.evaluate(g, asg):
                return ev(x, asg)
        raise NoEval("no alternative")
    if t is SStr:
        return "".join(ev_text(p, asg) for p in v.parts)
    if t in (Fmt, Opq, BitCh, Json):
        return ev_text(v, asg)
    if t is ABytes:
        return bytes(ev(x, asg) for x in v.e)
    if t is tuple or t is list:
        return [ev(x, asg) for x in v]
    if t is App:
        return ev_app(v, asg)
    if t is Snap:
        if v.kind == "d":
            return {ev(k, asg): ev(x, asg) for g, k, x in v.items if bdd.evaluate(g, asg)}
        return [ev(x, asg) for g, x in v.items if bdd.evaluate(g, asg)]
    if t is dict:
        out = {}
        for k, x in v.items():
            if isinstance(x, Opt):
                if not bdd.evaluate(x.g, asg):
                    continue
                x = x.v
            out[k] = ev(x, asg)
        return out
    if t is Opt:
        return ev(v.v, asg) if bdd.evaluate(v.g, asg) else None
    return v


def ev_app(a, asg):
    args = [ev(x, asg) for x in a.args]
    try:
        n = a.name
        if n == "*":
            return args[0] * args[1]
        if n == "/":
            return args[0] / args[1]
        if n == "**":
            return args[0] ** args[1]
        if n == "//":
            return args[0] // args[1]
        if n == "%":
            return args[0] % args[1]
        if n == ">>":
            return args[0] >> args[1]
        if n == "<<":
            return args[0] << args[1]
        if n == "&":
            return args[0] & args[1]
        if n == "|":
            return args[0] | args[1]
        if n == "^":
            return args[0] ^ args[1]
        if n in ("+", "-") and len(args) == 2:
            return args[0] + args[1] if n == "+" else args[0] - args[1]
        if n == "~":
            return ~args[0]
        if n == "ord":
            return ord(args[0])
        if n == "trunc":
            return int(args[0])
        if n == "floor":
            return math.floor(args[0])
        if n == "ceil":
            return math.ceil(args[0])
        if n == "float":
            return float(args[0])
        if n == "abs":
            return abs(args[0])
        if n == "round":
            return round(*args)
        if n == "int":
            return int(args[0], args[1])
        if n == "strlen":
            return len(args[0])
    except NoEval:
        raise
    except Exception as e:
        raise NoEval(repr(e))
    f = getattr(math, a.name, None)
    if callable(f):
        try:
            return f(*args)
        except Exception as e:
            raise NoEval(repr(e))
    raise NoEval(a.name)


def ev_key(k, asg):
    """value of a V.key() of a number or bytes"""
    if k[0] == "num":
        x = k[1]
        for n, c in k[2]:
            if bdd.evaluate(n, asg):
                x += c
        for o, c in k[3]:
            x += c * ev(o, asg)
        return x
    if k[0] in ("i", "f", "b", "s", "y"):
        return k[1]
    if k[0] == "B":
        return bdd.evaluate(k[1], asg)
    if k[0] == "Y":
        return bytes(ev_key(x, asg) for x in k[1:])
    if k[0] == "none":
        return None
    if k[0] == "t":
        return tuple(ev_key(x, asg) for x in k[1:])
    if k[0] == "S":
        return "".join(ev_key(x, asg) for x in k[1:])
    if k[0] == "F":
        return format(ev_key(k[1], asg), k[2])
    if k[0] == "bc":
        return "1" if bdd.evaluate(k[1], asg) else "0"
    if k[0] == "O":
        return ev_text(Opq(k[1]), asg)
    if k[0] == "A":
        return ev_app(k[1], asg)
    if k[0] == "J":
        return json_text(V.JSONS[k], asg)
    if k[0] == "G":
        for g, x in k[1]:
            if bdd.evaluate(g, asg):
                return ev_key(x, asg)
    raise NoEval(str(k)[:40])


def json_text(j, asg):
    o = j.opts if isinstance(j.opts, dict) else {}
    if o.get("text") is not None:
        return o["text"]
    return json.dumps(ev(j.snap, asg), indent=o.get("indent"), ensure_ascii=o.get("ensure_ascii", True), separators=o.get("separators"),
                      sort_keys=o.get("sort_keys", False))


STROPS = {"replace", "strip", "lstrip", "rstrip", "upper", "lower", "title", "capitalize", "swapcase", "casefold", "removeprefix",
          "removesuffix", "center", "expandtabs", "rjust", "ljust", "zfill"}
STRPREDS = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isdecimal", "isnumeric", "isascii",
            "isidentifier", "isprintable", "istitle"}


def ev_strop(k, asg):
    a = [ev_key(x, asg) if isinstance(x, tuple) else x for x in k[1:]]
    n = k[0]
    if n == "zfill":
        a = a[:2]
    try:
        if n == "slice":
            return a[0][slice(*a[1:])]
        if n == "ch":
            return a[0][a[1]]
        if n == "fmt":
            return format(a[0], a[1])
        if n == "str":
            return str(a[0])
        if n == "latin1":
            return a[0].decode("latin-1")
        if n == "recode":
            return a[0].encode(a[1], a[2]).decode("utf-8", "surrogateescape")
        return getattr(str, n)(*a)
    except NoEval:
        raise
    except Exception as e:
        raise NoEval(repr(e))


def ev_text(p, asg):
    if isinstance(p, str):
        return p
    if isinstance(p, Fmt):
        x = ev(p.v, asg)
        try:
            return format(x, p.spec)
        except Exception as e:
            raise NoEval(repr(e))
    if isinstance(p, BitCh):
        return "1" if bdd.evaluate(p.n, asg) else "0"
    if isinstance(p, Opq):
        k = p.k
        if isinstance(k, tuple) and k and k[0] == "decode":
            try:
                return ev_key(k[3], asg).decode(k[1], k[2])
            except UnicodeDecodeError as e:
                raise NoEval(repr(e))
        if isinstance(k, tuple) and k and (k[0] in STROPS or k[0] in ("slice", "ch", "fmt", "str", "latin1", "recode")):
            return ev_strop(k, asg)
        raise NoEval(repr(k)[:60])
    if isinstance(p, Json):
        return "\x01" + json.dumps(jsonable(ev(p.snap, asg)), sort_keys=True) + "\x01"
    if isinstance(p, (G, SStr)):
        return ev_text(ev(p, asg) if isinstance(p, G) else ev(p, asg), asg)
    return str(ev(p, asg))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return x.hex()
    return str(x)


# --- valuations -------------------------------------------------------------------


def opaque_truth(k, asg):
    """truth of an opaque predicate variable under the bit valuation"""
    n = k[0]
    if n == "gf2":
        for row in k[1]:
            p = row & 1
            m = row >> 1
            v = 0
            while m:
                if m & 1 and asg.get(v, False):
                    p ^= 1
                m >>= 1
                v += 1
            if p:
                return False
        return True
    if n in ("eq0", "lt0", "le0"):
        c, t, o = k[1]
        x = c
        for nd, w in t:
            if bdd.evaluate(nd, asg):
                x += w
        for a, w in o:
            x += w * ev(a, asg)
        return x == 0 if n == "eq0" else (x < 0 if n == "lt0" else x <= 0)
    if n == "undecodable":
        try:
            ev_key(k[2], asg).decode(k[1])
            return False
        except UnicodeDecodeError:
            return True
    if n in ("streq", "eq"):
        x = [ev_key(y, asg) for y in k[1]]
        return x[0] == x[-1]
    if n == "substr":
        return ev_key(k[1], asg) in ev_key(k[2], asg)
    if n == "nonempty":
        return bool(ev_key(k[1], asg))
    if n == "unencodable":
        try:
            ev_key(k[2], asg).encode(k[1])
            return False
        except UnicodeEncodeError:
            return True
    if n == "true":
        return bool(ev(k[1], asg))
    if n == "is_integer":
        return float(ev_key(k[1], asg)).is_integer()
    if n in STRPREDS:
        return bool(ev_strop(k, asg))
    raise NoEval(n)


FREE = ("bit", "fault", "free")


def consistent(asg):
    """recompute the opaque predicates; returns a completed valuation"""
    for v, k in enumerate(bdd._VARKEY):
        if k[0] not in FREE:
            asg[v] = opaque_truth(k, asg)
    return asg


def solve_gf2(asg, fixed, must):
    """adjust free bits of asg so that all gf2 predicates in `must` hold"""
    rows = [r for k in must for r in k[1]]
    # substitute everything but free bits, eliminate
    basis = {}
    for r in rows:
        const = r & 1
        m = r >> 1
        red = 0
        i = 0
        mm = m
        while mm:
            if mm & 1:
                if i in fixed:
                    const ^= 1 if asg.get(i, False) else 0
                else:
                    red |= 1 << i
            mm >>= 1
            i += 1
        x = (red << 1) | const
        while x > 1:
            h = x.bit_length()
            if h in basis:
                x ^= basis[h]
            else:
                break
        if x == 1:
            return False
        if x > 1:
            basis[x.bit_length()] = x
    for h in sorted(basis):
        x = basis[h]
        piv = h - 2
        p = x & 1
        i = 0
        m = x >> 1
        while m:
            if m & 1 and i != piv and asg.get(i, False):
                p ^= 1
            m >>= 1
            i += 1
        asg[piv] = bool(p)
    return True


def infeasible(guard, limit=4000):
    """True if linear algebra over GF(2) refutes every path of the guard"""
    todo = [(guard, ())]
    n = 0
    while todo:
        a, path = todo.pop()
        while a > 1:
            v = bdd._VAR[a]
            lo, hi = bdd._LO[a], bdd._HI[a]
            if lo and hi:
                todo.append((lo, path + ((v, False),)))
                path, a = path + ((v, True),), hi
            elif hi:
                path, a = path + ((v, True),), hi
            else:
                path, a = path + ((v, False),), lo
        if a == 0:
            continue
        n += 1
        if n > limit:
            return False
        if not path_refuted(path):
            return False
    return True


def path_refuted(path):
    val = dict(path)
    ones = mask = 0
    for v, b in path:
        if bdd._VARKEY[v][0] in FREE:
            mask |= 1 << v
            if b:
                ones |= 1 << v
    basis = {}

    def reduce(row):
        m = row >> 1
        x = ((m & ~mask) << 1) | ((row & 1) ^ (bin(m & ones).count("1") & 1))
        while x > 1:
            h = x.bit_length()
            if h not in basis:
                break
            x ^= basis[h]
        return x

    for v, b in path:
        k = bdd._VARKEY[v]
        if k[0] == "gf2" and b:
            for r in k[1]:
                x = reduce(r)
                if x == 1:
                    return True
                if x:
                    basis[x.bit_length()] = x
    for v, b in path:
        k = bdd._VARKEY[v]
        if k[0] == "gf2" and not b and all(fullreduce(reduce, basis, r) == 0 for r in k[1]):
            return True
    return False


def fullreduce(reduce, basis, r):
    x = reduce(r)
    # reduce() stops at the first non-pivot; continue below it
    done = 0
    while x > 1:
        h = x.bit_length()
        if h in basis:
            x ^= basis[h]
        else:
            done |= 1 << (h - 1)
            x ^= 1 << (h - 1)
    return done | x


def some_text(n, rng):
    """utf-8 text of n bytes of a random flavour"""
    f = rng.randrange(10)
    if f == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if f == 1:
        b = rng.choice([" ", "\t", "\n", "\0", "\r", "0", '"', "\\", "/", "A", "z", ","]) * n
    elif f in (2, 3, 4) and V.TEXT_LITS:
        l = rng.choice(list(V.TEXT_LITS))
        b = rng.choice([l * n, "x" * rng.randrange(n + 1) + l + "y" * n, l + "q" * n, "q" * max(0, n - len(l.encode())) + l])
    elif f == 5:
        b = "a" * max(0, n - 1) + rng.choice(" \t\n\0\r.,;")
    elif f == 6:
        b = rng.choice(" \t\n\0") + "a" * n
    elif f == 7:
        b = "".join(rng.choice("\u00e9\u0416\u20ac\u00df\U0001f600a ") for _ in range(n))
    elif f == 8:
        b = "".join(chr(rng.randrange(32)) for _ in range(n))
    else:
        b = "".join(chr(rng.randrange(32, 127)) for _ in range(n))
    out = b""
    for c in b:
        e = c.encode()
        if len(out) + len(e) > n:
            break
        out += e
    return out + b"x" * (n - len(out))


def set_text(asg, elems, rng):
    """choose the bits of a text's bytes"""
    b = some_text(len(elems), rng)
    for k, x in zip(elems, b):
        if k[0] == "num":
            for nd, c in k[2]:
                if bdd._LO[nd] == 0 and bdd._HI[nd] == 1 and isinstance(c, int) and c > 0:
                    asg[bdd._VAR[nd]] = bool(x & c)


def samples(guard, n, rng, extra=()):
    """up to n consistent valuations (var index -> bool) satisfying guard"""
    if guard == 0:
        return
    nv = len(bdd._VARKEY)
    opaque = any(k[0] not in FREE for k in bdd._VARKEY)
    texts = [k[1:] for k in V.TEXTS if k[0] == "Y"]
    for i in range(n):
        asg = {}
        mode = i % 4
        for v in range(nv):
            asg[v] = (False, True)[mode] if mode < 2 and i < 4 else rng.random() < (0.5 if mode else 0.2)
        for t in texts:
            set_text(asg, t, rng)
        a = guard
        fixed = set()
        while a > 1:
            v = bdd._VAR[a]
            lo, hi = bdd._LO[a], bdd._HI[a]
            if lo == 0:
                b = True
            elif hi == 0:
                b = False
            else:
                b = asg[v]
                if bdd._VARKEY[v][0] not in FREE:
                    b = rng.random() < 0.5
            asg[v] = b
            fixed.add(v)
            a = hi if b else lo
        if opaque:
            must = [bdd._VARKEY[v] for v in fixed if bdd._VARKEY[v][0] == "gf2" and asg[v]]
            if must and not solve_gf2(asg, fixed, must):
                continue
            want = {v: asg[v] for v in fixed if bdd._VARKEY[v][0] not in FREE}
            try:
                consistent(asg)
            except NoEval:
                continue
            if any(asg[v] != b for v, b in want.items()) and not bdd.evaluate(guard, asg):
                continue
        if bdd.evaluate(guard, asg):
            yield asg


# --- expected structures ----------------------------------------------------------


class Opt:
    """conditionally present member of an expected dict/list"""

    def __init__(self, g, v):
        self.g, self.v = g, v


class AnyV:
    """unconstrained value"""


ANY = AnyV()


def ite(n, a, b):
    if n == 1:
        return a
    if n == 0:
        return b
    return V.merge([(n, a), (bdd.neg(n), b)])


def under(v, g):
    """simplify a number under guard g (fix implied bits)"""
    if isinstance(v, B):
        v = V.bit_num(v.n)
    if not isinstance(v, Num):
        return v
    if g == 1:
        return v
    c = v.c
    t = {}
    sup = bdd.support(g)
    for n, w in v.t.items():
        if bdd._VAR[n] in sup or not bdd.is_literal(n):
            x = bdd.conj(g, n)
            if x == 0:
                continue
            if x == g:
                c = c + w
                continue
        t[n] = w
    return V.simp(Num(c, t, v.o, v.f))


# --- scenario context ---------------------------------------------------------------


class Ctx:
    def __init__(self, prop, name, tier):
        self.instances = 0
        self.prop = prop
        self.name = name
        self.tier = tier
        self.rng = random.Random(f"{SEED}:{prop}:{name}")
        self.obligations = 0
        self.proved = 0
        self.sampled = 0
        self.violations = []
        self.undecided = []
        self.inputs = {}  # name -> abstract bytes
        self.its = []
        self.samples_out = []
        self.nsamples = 24 if tier == "quick" else 96
        self.deadline = None

    # interpreters ----------------------------------------------------------------

    def interp(self, files=None, dirs=(), **kw):
        W = world.World(files=files or {}, dirs=dirs, **kw)
        it = interp.Interp(source(), W)
        it.deadline = self.deadline
        self.its.append(it)
        return it, W

    def functions(self):
        s = set()
        for it in self.its:
            s |= {f if isinstance(f, str) else str(f) for f in it.functions}
        return s

    # results -----------------------------------------------------------------------

    def violate(self, label, guard, detail, where=None):
        """definite violation under guard (needs a realisable valuation)"""
        if len(self.violations) > 20:
            return
        asg = None
        for a in samples(guard, 60, self.rng):
            asg = a
            break
        if asg is None:
            if infeasible(guard):
                self.proved += 1
            else:
                self.undecided.append(f"{label}: disagreement not realised by a valuation: {detail}"[:400])
            return
        self._viol(label, asg, detail, where)

    def _viol(self, label, asg, detail, where):
        w = {}
        for n, b in self.inputs.items():
            try:
                x = ev(b, asg)
                w[n] = x.hex() if isinstance(x, (bytes, bytearray)) else jsonable(x)
            except Exception as e:
                w[n] = f"<{e}>"
        faults = [str(k[1:]) for v, k in enumerate(bdd._VARKEY) if k[0] == "fault" and asg.get(v)]
        self.violations.append(
            {
                "scenario": self.name,
                "obligation": label,
                "detail": str(detail)[:1500],
                "where": where or self.where(),
                "witness_inputs": w,
                "faults": faults,
                "_asg": {k: True for v, k in enumerate(bdd._VARKEY) if k[0] in FREE and asg.get(v)},
            }
        )

    def where(self):
        return None

    def ok(self, label="", guard=1):
        self.obligations += 1
        self.proved += 1

    def holds(self, label, node, guard=1, detail="", where=None):
        """guard -> node must be valid"""
        self.obligations += 1
        bad = bdd.diff(guard, node)
        if bad == 0:
            self.proved += 1
            return True
        self.violate(label, bad, detail or "condition does not hold", where)
        return False

    def fail(self, label, detail, guard=1, where=None):
        self.obligations += 1
        self.violate(label, guard, detail, where)

    def undec(self, label, why):
        self.obligations += 1
        self.undecided.append(f"{label}: {why}"[:1500])

    # comparisons --------------------------------------------------------------------

    def same(self, label, act, exp, guard=1, where=None):
        """act == exp on every input satisfying guard"""
        if guard == 0:
            return
        try:
            self._cmp(label, act, exp, guard, where)
        except Undecided as e:
            self.undec(label, str(e))

    def _bad(self, label, g, act, exp, where):
        self.obligations += 1
        act_, exp_ = act, exp

        asg = None
        for a in samples(g, 60, self.rng):
            asg = a
            break
        if asg is None:
            if infeasible(g):
                self.proved += 1
            else:
                self.undecided.append(f"{label}: disagreement not realised: {V.show(act)[:120]} vs {str(exp)[:120]}")
            return
        try:
            act_ = jsonable(ev(act, asg))
        except Exception:
            act_ = V.show(act)[:300]
        try:
            exp_ = jsonable(ev(exp, asg))
        except Exception:
            exp_ = str(exp)[:300]
        if len(self.violations) <= 20:
            self._viol(label, asg, f"got {str(act_)[:400]}, specified {str(exp_)[:400]}", where)

    def _cmp(self, label, act, exp, g, where):
        if g == 0 or exp is ANY:
            return
        if isinstance(act, G):
            rest = g
            for h, x in act.alts:
                k = bdd.conj(g, h)
                if k:
                    self._cmp(label, x, exp, k, where)
                    rest = bdd.diff(rest, h)
            return
        if isinstance(exp, G):
            for h, x in exp.alts:
                k = bdd.conj(g, h)
                if k:
                    self._cmp(label, act, x, k, where)
            return
        if isinstance(exp, Opt):
            return self._cmp(label, act, exp.v, bdd.conj(g, exp.g), where)
        if isinstance(exp, dict):
            return self._cmp_dict(label, act, exp, g, where)
        if isinstance(exp, (list, tuple)):
            return self._cmp_list(label, act, exp, g, where)
        if isinstance(exp, (bool, B)):
            if not isinstance(act, (bool, B)):
                return self._bad(label, g, act, exp, where)
            a = act.n if isinstance(act, B) else int(act)
            e = exp.n if isinstance(exp, B) else int(exp)
            m = bdd.conj(g, bdd.xor(a, e))
            if m == 0:
                return self.ok(label)
            return self._bad(label, m, act, exp, where)
        if isinstance(exp, (int, float, Num, App)):
            if isinstance(act, (bool, B)) or not isinstance(act, (int, float, Num, App)):
                return self._bad(label, g, act, exp, where)
            return self._cmp_num(label, act, exp, g, where)
        if exp is None:
            if act is None:
                return self.ok(label)
            return self._bad(label, g, act, exp, where)
        if isinstance(exp, (str, SStr)):
            if not isinstance(act, (str, SStr)):
                return self._bad(label, g, act, exp, where)
            return self._cmp_str(label, act, exp, g, where)
        if isinstance(exp, (bytes, ABytes)):
            if not isinstance(act, (bytes, ABytes)):
                return self._bad(label, g, act, exp, where)
            a, e = V.belems(act), V.belems(exp)
            if len(a) != len(e):
                return self._bad(label, g, act, exp, where)
            diff = [(x, y) for x, y in zip(a, e) if V.key(x) != V.key(y)]
            if not diff:
                return self.ok(label)
            for x, y in diff:
                self._cmp_num(label, x, y, g, where)
            return
        raise Undecided(f"cannot compare {type(exp)}")

    def _cmp_num(self, label, act, exp, g, where):
        plain = lambda x: isinstance(x, (int, float))
        if plain(act) and plain(exp):
            if num_close(act, exp):
                return self.ok(label)
            return self._bad(label, g, act, exp, where)
        if any(isinstance(x, float) and not math.isfinite(x) for x in (act, exp)):
            return self._bad(label, g, act, exp, where)
        a = V.to_num(under(act, g))
        e = V.to_num(under(exp, g))
        isf = a.f or e.f
        t = {}
        rngmax = sum(abs(c) for c in e.t.values()) + abs(e.c)
        for n in set(a.t) | set(e.t):
            x, y = a.t.get(n, 0), e.t.get(n, 0)
            if x != y and not (isf and abs(x - y) <= RTOL * max(abs(x), abs(y))):
                t[n] = x - y
        o = {}
        for n in set(a.o) | set(e.o):
            x, y = a.o.get(n, 0), e.o.get(n, 0)
            if x != y and not (isf and abs(x - y) <= RTOL * max(abs(x), abs(y))):
                o[n] = x - y
        c = a.c - e.c
        if c and isf and abs(c) <= RTOL * max(abs(a.c), abs(e.c)):
            c = 0
        if not t and not o and not c:
            return self.ok(label)
        d = V.simp(Num(c, t, o, isf))
        tol = RTOL * rngmax if isf else 0
        if not o:
            try:
                n = V.cmp0("==", d, tol)
                bad = bdd.diff(g, n)
                if bad == 0:
                    return self.ok(label)
                return self._bad(label, bad, act, exp, where)
            except Undecided:
                pass
        return self._by_samples(label, act, exp, g, where, lambda x, y: num_close(x, y, tol))

    def _by_samples(self, label, act, exp, g, where, eq):
        """no structural proof: look for a valuation on which they differ"""
        n = 0
        for asg in samples(g, 400, self.rng):
            try:
                x, y = ev(act, asg), ev(exp, asg)
            except NoEval:
                continue
            n += 1
            if not eq(x, y):
                self.obligations += 1
                if len(self.violations) <= 20:
                    self._viol(label, asg, f"got {str(jsonable(x))[:400]}, specified {str(jsonable(y))[:400]}", where)
                return
        if n < 20:
            raise Undecided(f"incomparable terms {V.show(act)[:100]} / {V.show(exp)[:100]}")
        self.obligations += 1
        self.sampled += 1

    def text_by_samples(self, label, parts, judge, g, where, n=120):
        """a text with opaque pieces: render it at valuations of g and let judge(text, valuation) -> message or None decide"""
        k = 0
        for asg in samples(g, n, self.rng):
            try:
                t = "".join(json_text(p, asg) if isinstance(p, Json) else ev_text(p, asg) for p in parts)
                m = judge(t, asg)
            except NoEval:
                continue
            k += 1
            if m:
                self.obligations += 1
                if len(self.violations) <= 20:
                    self._viol(label, asg, m, where)
                return
        if k < 10:
            return self.undec(label, f"text with opaque pieces {V.show(V.mkstr(parts))[:120]}")
        self.obligations += 1
        self.sampled += 1

    def _cmp_str(self, label, act, exp, g, where):
        a, e = V.sparts(act), V.sparts(exp)
        if isinstance(act, str) and isinstance(exp, str):
            if act == exp:
                return self.ok(label)
            return self._bad(label, g, act, exp, where)
        if V.key(V.mkstr(a)) == V.key(V.mkstr(e)):
            return self.ok(label)
        a, e = list(V.sparts(V.mkstr(a))), list(V.sparts(V.mkstr(e)))
        if len(a) == len(e):
            pend = []
            for x, y in zip(a, e):
                if isinstance(x, str) != isinstance(y, str):
                    break
                if isinstance(x, str):
                    if x != y:
                        break
                elif isinstance(x, Fmt) and isinstance(y, Fmt) and cspec(x.spec) == cspec(y.spec):
                    pend.append((x.v, y.v))
                elif V.key(x) == V.key(y):
                    pass
                elif isinstance(x, Fmt) and isinstance(y, Fmt):
                    break
                elif isinstance(x, G) and isinstance(y, G):
                    pend.append((x, y))
                else:
                    break
            else:
                if pend:
                    for x, y in pend:
                        self._cmp(label, _fm(x), _fm(y), g, where)
                else:
                    self.ok(label)
                return
        for t, other in ((act, False), (exp, True)):
            ps = list(V.sparts(t))
            ix = [i for i, x in enumerate(ps) if isinstance(x, G)]
            if ix and len(ix) <= 4:
                i = ix[0]
                for h, x in ps[i].alts:
                    k = bdd.conj(g, h)
                    if k:
                        q = V.mkstr(ps[:i] + [x] + ps[i + 1 :])
                        self._cmp(label, act if other else q, q if other else exp, k, where)
                return
        return self._by_samples(label, act, exp, g, where, text_eq)

    def _cmp_dict(self, label, act, exp, g, where):
        items = dict_items(act)
        if items is None:
            return self._bad(label, g, act, {str(k): "..." for k in exp}, where)
        if not exp:
            allp = 0
            for h, k, v in items:
                allp = bdd.disj(allp, bdd.conj(g, h))
            if allp:
                return self._bad(label, allp, act, exp, where)
            return self.ok(label)
        used = {}
        for h, k, v in items:
            h = bdd.conj(h, g)
            if h:
                kk = k if isinstance(k, (str, int, float, bool)) or k is None else V.key(k)
                used.setdefault(tostr(kk), []).append((h, k, v))
        for k, x in exp.items():
            pe = 1
            if isinstance(x, Opt):
                pe, x = x.g, x.v
            if isinstance(k, SymKey):
                cand = []
                for kk in list(used):
                    cand += used.pop(kk)
                pa = 0
                for h, k2, v in cand:
                    pa = bdd.disj(pa, h)
                if not self.presence(f"{label}.{k}", pa, pe, g, act, where):
                    continue
                for h, k2, v in cand:
                    self._cmp(f"{label} key", k2, k.v, bdd.conj(h, pe), where)
                    self._cmp(f"{label}.[{k}]", v, x, bdd.conj(h, pe), where)
                continue
            cand = used.pop(tostr(k), [])
            pa = 0
            for h, _, v in cand:
                pa = bdd.disj(pa, h)
            self.presence(f"{label}.{k}", pa, pe, g, act, where)
            for h, _, v in cand:
                self._cmp(f"{label}.{k}", v, x, bdd.conj(bdd.conj(h, pe), g), where)
        for kk, cand in used.items():
            pa = 0
            for h, _, v in cand:
                pa = bdd.disj(pa, h)
            self._bad(f"{label}: unexpected member {kk!r}", pa, act, {str(k): "..." for k in exp}, where)

    def presence(self, label, pa, pe, g, act, where):
        m = bdd.conj(g, bdd.xor(pa, pe))
        if m == 0:
            self.ok(label)
            return True
        self.obligations += 1
        miss = bdd.conj(m, pe)
        self.violate(
            label,
            miss or m,
            "member missing although specified" if miss else "member present although not specified",
            where,
        )
        return False

    def _cmp_list(self, label, act, exp, g, where):
        items = list_items(act)
        if items is None:
            return self._bad(label, g, act, list(exp), where)
        items = [(bdd.conj(h, g), v) for h, v in items]
        items = [(h, v) for h, v in items if h]
        exps = [(bdd.conj(x.g, g), x.v) if isinstance(x, Opt) else (g, x) for x in exp]
        if all(h == g for h, _ in items) and all(h == g for h, _ in exps):
            if len(items) != len(exps):
                return self._bad(f"{label} length", g, act, list(exp), where)
            if not exps:
                return self.ok(label)
            for i, ((_, v), (_, x)) in enumerate(zip(items, exps)):
                self._cmp(f"{label}[{i}]", v, x, g, where)
            return
        # positions depend on presence: split on the guards
        cells = [g]
        for h in dict.fromkeys([h for h, _ in items] + [h for h, _ in exps]):
            nxt = []
            for c in cells:
                for k in (bdd.conj(c, h), bdd.diff(c, h)):
                    if k:
                        nxt.append(k)
            cells = nxt
            if len(cells) > 256:
                raise Undecided(f"{label}: too many presence cases")
        for c in cells:
            self._cmp_list(
                label,
                Snap("l", [(1, v) for h, v in items if bdd.conj(h, c)]),
                [x for h, x in exps if bdd.conj(h, c)],
                c,
                where,
            )


def _fm(x):
    """a formatted column: compare value, keep text alternatives as strings"""
    if isinstance(x, G):
        return V.G([(g, V.mkstr([y]) if isinstance(y, (str, Fmt, SStr)) else y) for g, y in x.alts])
    return x


class SymKey:
    """the (only) dict key, given by an abstract value"""

    def __init__(self, v, name="key"):
        self.v = v
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def cspec(s):
    s = s.lstrip(" >") if s else s
    return s[:-1] if s and s[-1] == "d" else s


def text_eq(x, y):
    """equal texts; decimal columns may differ by one unit of the last digit
    (the abstract terms carry rounding errors of their own)"""
    if x == y:
        return True
    a, b = re.split("([,\n])", x), re.split("([,\n])", y)
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p == q:
            continue
        m, n = re.fullmatch(r" *-?\d+\.(\d+)", p), re.fullmatch(r" *-?\d+\.(\d+)", q)
        if not m or not n or len(m.group(1)) != len(n.group(1)):
            return False
        if abs(float(p) - float(q)) > 1.001 * 10.0 ** -len(m.group(1)):
            return False
    return True


def tostr(k):
    if isinstance(k, bool):
        return "true" if k else "false"
    return str(k) if isinstance(k, (int, float, str)) else k


def dict_items(a):
    if isinstance(a, Snap) and a.kind == "d":
        return a.items
    if isinstance(a, DictObj):
        return [(e.g, e.k, e.v) for e in a.e]
    if isinstance(a, dict):
        return [(1, k, v) for k, v in a.items()]
    return None


def list_items(a):
    if isinstance(a, Snap) and a.kind == "l":
        return a.items
    if isinstance(a, ListObj):
        return [(e[0], e[1]) for e in a.e]
    if isinstance(a, (tuple, list)):
        return [(1, v) for v in a]
    return None


def num_close(a, b, tol=0):
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= max(RTOL * max(abs(a), abs(b)), tol)
    return a == b


# --- driving the interpreter -------------------------------------------------------


class Exc:
    def __init__(self, g, e):
        self.g = g
        self.cls = e.cls.name
        self.mro = [c.name for c in e.cls.mro]
        self.args = e.attrs.get("args")
        self.site = e.sites.get("raised")

    def __repr__(self):
        return f"{self.cls}{V.show(self.args) if isinstance(self.args, tuple) else self.args} at {self.site}"


def run(it, f, *args, **kw):
    """call f abstractly: (value or None, guard of normal return, [Exc])"""
    pc0 = it.pc
    it.sinks.append([])
    try:
        v = it.call(f, list(args), dict(kw))
        pc = it.pc
    except PathDead:
        v, pc = None, 0
    excs = [Exc(g, e) for g, e in it.sinks.pop()]
    it.pc = pc0
    return v, pc, excs


def attr(it, o, *names):
    for n in names:
        o = it.getattr(o, n)
    return o


def bits_to_bytes(bits):
    bits = list(bits)
    while len(bits) % 8:
        bits.append(0)
    out = []
    for i in range(0, len(bits), 8):
        out.append(V.from_bits(bits[i : i + 8][::-1]))
    return out


def U(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def S(name, n):
    return [bdd.var(("bit", name, i)) for i in range(n)]


def unsigned(bits):
    """MSB-first bits -> value"""
    return V.from_bits(list(reversed(bits)))


def signed(bits):
    b = list(reversed(bits))
    return V.from_bits(b[:-1] + [b[-1]], b[-1]) if b else 0


def signmag(bits):
    m = unsigned(bits[1:])
    return ite(bits[0], V.scale(m, -1) if not isinstance(m, int) else -m, m)


def vmap(f, v):
    if isinstance(v, G):
        return V.merge([(g, f(x)) for g, x in v.alts])
    return f(v)


def vscale(v, k):
    return vmap(lambda x: V.scale(x, k), v)


def vadd(a, b):
    if isinstance(a, G):
        return V.merge([(g, vadd(x, b)) for g, x in a.alts])
    if isinstance(b, G):
        return V.merge([(g, vadd(a, x)) for g, x in b.alts])
    return V.add(a, b)


def eqconst(bits, val):
    """node: MSB-first bits equal the constant val"""
    n = 1
    for b, w in zip(bits, U(val & ((1 << len(bits)) - 1), len(bits))):
        n = bdd.conj(n, b if w else bdd.neg(b))
    return n


def lookup(bits, table):
    """table[value of bits] as guarded choice"""
    alts = []
    for i in range(1 << len(bits)):
        alts.append((eqconst(bits, i), table[i] if not callable(table) else table(i)))
    return V.merge([(g, v) for g, v in alts if g])


def frame(payload, crc=None, name="crc", ctx=None, reserved=None):
    """frame of a payload (list of byte values); CRC symbolic unless given"""
    L = len(payload)
    if crc is None:
        crc = bits_to_bytes(S(name, 24))
    b2 = (L >> 8) if reserved is None else V.from_bits(list(reversed(list(reserved) + U(L >> 8, 2))))
    return V.mkbytes([0xD3, b2, L & 255] + list(payload) + list(crc))


CRC_POLY = 0x1864CFB


def crc24_table():
    t = []
    for i in range(256):
        r = i << 16
        for _ in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= CRC_POLY
        t.append(r)
    return t


_T = crc24_table()


def crc24(data):
    r = 0
    for b in data:
        r = ((r << 8) & 0xFFFFFF) ^ _T[(r >> 16) ^ b]
    return r


def crc24_sym(elems):
    """CRC-24Q (24 nodes, MSB first) of abstract bytes, by definition"""
    reg = [0] * 24  # MSB first
    poly = U(CRC_POLY & 0xFFFFFF, 24)
    for e in elems:
        if isinstance(e, int):
            bits = U(e, 8)
        else:
            bb, _ = V.to_bits(e)
            bits = list(reversed((bb + [0] * 8)[:8]))
        for b in bits:
            fb = bdd.xor(reg[0], b)
            reg = reg[1:] + [0]
            if fb:
                reg = [bdd.xor(r, fb) if p else r for r, p in zip(reg, poly)]
    return reg


def with_crc(payload, reserved=None):
    """complete frame with the correct (possibly abstract) CRC"""
    L = len(payload)
    b2 = (L >> 8) if reserved is None else V.from_bits(list(reversed(list(reserved) + U(L >> 8, 2))))
    head = [0xD3, b2, L & 255] + list(payload)
    if all(isinstance(x, int) for x in head):
        return V.mkbytes(head + list(crc24(head).to_bytes(3, "big")))
    reg = crc24_sym(head)
    return V.mkbytes(head + bits_to_bytes(reg))


# --- parsing of written text --------------------------------------------------------


def file_cells(W, path, g=1, limit=64):
    """[(guard, [parts])]: the text of a file per presence case of its writes"""
    writes = [(bdd.conj(h, g), t, s) for h, t, s in W.written(path)]
    writes = [x for x in writes if x[0]]
    # split texts that are choices
    flat = []
    for h, t, s in writes:
        flat.append((h, t, s))
    guards = []
    for h, t, s in flat:
        guards.append(h)
        if isinstance(t, G):
            for k, x in t.alts:
                guards.append(bdd.conj(h, k))
    cells = [g]
    for h in dict.fromkeys(guards):
        if h == g:
            continue
        nxt = []
        for c in cells:
            for k in (bdd.conj(c, h), bdd.diff(c, h)):
                if k:
                    nxt.append(k)
        cells = nxt
        if len(cells) > limit:
            raise Undecided(f"{path}: too many presence cases")
    out = []
    for c in cells:
        parts = []
        n = 0
        for h, t, s in flat:
            if not bdd.conj(h, c):
                continue
            n += 1
            if isinstance(t, G):
                t = [x for k, x in t.alts if bdd.conj(k, c)][0]
            if isinstance(t, (bytes, ABytes)):
                if isinstance(t, bytes):
                    t = t.decode("utf-8", "replace")
                else:
                    raise Undecided("binary text")
            parts += list(V.sparts(t))
        out.append((c, list(V.sparts(V.mkstr(parts))) if parts else [], n))
    return out


def parse_json(parts):
    """parse text parts into python structure with abstract leaves"""
    text = []
    ph = []
    for p in parts:
        if isinstance(p, str):
            text.append(p)
        elif isinstance(p, Json):
            text.append('"\\u0001J%d\\u0001"' % len(ph))
            ph.append(p)
        else:
            text.append("7770%05d777" % len(ph))
            ph.append(p)
    s = "".join(text)
    doc = json.loads(s)

    def conv(x):
        if isinstance(x, dict):
            return Snap("d", [(1, conv(k), conv(v)) for k, v in x.items()])
        if isinstance(x, list):
            return Snap("l", [(1, conv(v)) for v in x])
        if isinstance(x, str):
            m = re.fullmatch("\x01J(\\d+)\x01", x)
            if m:
                return ph[int(m.group(1))]
            if "7770" in x:
                out = []
                for q in re.split(r"(7770\d{5}777)", x):
                    m = re.fullmatch(r"7770(\d{5})777", q)
                    out.append(ph[int(m.group(1))] if m else q)
                return V.mkstr(out)
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            m = re.fullmatch(r"7770(\d{5})777", str(x))
            if m:
                p = ph[int(m.group(1))]
                return p.v if isinstance(p, Fmt) else p
        return x

    return conv(doc)


def unjson(x):
    return x.snap if isinstance(x, Json) else x


# --- running scenarios ----------------------------------------------------------------


def _thread(fn):
    res = {}

    def go():
        try:
            res["v"] = fn()
        except BaseException as e:  # noqa: BLE001
            res["e"] = e
            res["tb"] = traceback.format_exc()

    old = threading.stack_size(512 << 20)
    th = threading.Thread(target=go)
    th.start()
    threading.stack_size(old)
    th.join()
    return res


def confirm(ctx, prop, name, f, args, tier, budget):
    """analyse the witness valuation on its own: a disagreement that disappears when nothing is joined
    is a loss of precision of the analysis, not a violation"""
    nodes = bdd.size()
    kept, dropped = [], []
    for v in ctx.violations[:3]:
        bdd.reset()
        bdd.FIXED = v["_asg"]
        c2 = Ctx(prop, name, tier)
        c2.deadline = time.monotonic() + budget
        try:
            r = _thread(lambda: f(c2, *args))
        finally:
            bdd.FIXED = None
        if "e" not in r and not c2.violations and not c2.undecided and c2.obligations:
            dropped.append(v)
        else:
            kept.append(v)
    bdd.reset()
    if kept:
        ctx.violations = kept + ctx.violations[3:]
    else:
        ctx.violations = []
    for v in dropped:
        ctx.undecided.append(f"{v['obligation']}: not confirmed on its witness: {v['detail']}"[:600])
    ctx.unconfirmed = len(dropped)
    ctx.confirm_nodes = nodes


TEXTISH = ("descr", "serialNumber", "rcvDescriptor", "rcvFWVersion", "rcvSerNum", "text")


class Pattern:
    """one designated valuation of the inputs: no faults, texts of lower-case letters, other bits by k"""

    def __init__(self, k):
        self.k = k

    def get(self, key, default=None):
        if key[0] != "bit":
            return False
        name, i = str(key[1]), key[2]
        if name.rsplit(".", 1)[-1] in TEXTISH:
            return (False, True, True, False, True, False, False, True)[i % 8] if i % 3 else (i % 8) in (1, 2, 6)
        if self.k >= 3:
            return self.k == 3
        h = zlib.crc32(f"{self.k}|{name}|{i}".encode())
        return bool((h >> 7) & 1)


def instances(ctx, prop, name, f, args, tier, end):
    """what could not be decided for all inputs at once is decided for designated ones (constants only)"""
    for k in range(5):
        t = time.monotonic()
        if t > end - 5:
            return
        bdd.reset()
        bdd.FIXED = Pattern(k)
        c2 = Ctx(prop, name, tier)
        c2.deadline = min(t + 20, end)
        try:
            _thread(lambda: f(c2, *args))
        finally:
            bdd.FIXED = None
        ctx.instances += 1
        if c2.violations:
            ctx.violations += c2.violations[:3]
            break
    bdd.reset()


def skipped(name, why):
    return {"name": name, "obligations": 0, "proved": 0, "sampled": 0, "violations": [], "undecided": [why], "functions": [],
            "stmts": 0, "calls": 0, "joins": 0, "nodes": 0, "samples": [], "wall": 0, "instances": 0}


def run_scenario(job):
    """job = (property, name, module, function, args, tier, budget, end of the whole run)"""
    prop, name, mod, fn, args, tier, budget, end = job
    if time.monotonic() > end:
        return skipped(name, "scenario: not reached within the time of the check")
    budget = min(budget, max(20, end - time.monotonic()))
    sys.setrecursionlimit(200000)
    import importlib

    t0 = time.time()
    bdd.reset()
    ctx = Ctx(prop, name, tier)
    ctx.deadline = time.monotonic() + budget
    f = getattr(importlib.import_module(mod), fn)
    r = _thread(lambda: f(ctx, *args))
    if "e" in r:
        e = r["e"]
        if isinstance(e, Undecided):
            ctx.undec("scenario", str(e))
        elif isinstance(e, PathDead):
            ctx.undec("scenario", "no feasible path")
        elif isinstance(e, (MemoryError, RecursionError)):
            ctx.undec("scenario", type(e).__name__)
        else:
            ctx.undec("scenario", "analyser error: " + r["tb"][-1400:])
    if ctx.violations:
        confirm(ctx, prop, name, f, args, tier, min(budget, 40))
    elif ctx.undecided:
        instances(ctx, prop, name, f, args, tier, end)
    for v in ctx.violations:
        v.pop("_asg", None)
    return {
        "name": name,
        "obligations": ctx.obligations,
        "proved": ctx.proved,
        "sampled": ctx.sampled,
        "violations": ctx.violations,
        "undecided": ctx.undecided,
        "functions": sorted(ctx.functions()),
        "stmts": sum(i.nstmts for i in ctx.its),
        "calls": sum(i.ncalls for i in ctx.its),
        "joins": sum(i.njoins for i in ctx.its),
        "nodes": bdd.size(),
        "samples": ctx.samples_out[:2],
        "wall": round(time.time() - t0, 3),
        "instances": ctx.instances,
    }
