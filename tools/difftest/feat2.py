import itertools, functools, operator, struct, math, collections, copy, enum, dataclasses, typing, io, re, string, contextlib, os, json, abc, types, array
from abc import ABC, abstractmethod
from dataclasses import dataclass, field, KW_ONLY
from functools import singledispatch, cached_property, cmp_to_key
from typing import Protocol, Literal, Final, TypedDict, NamedTuple, Iterator, Callable, Any, ClassVar
from pathlib import Path, PurePosixPath
from collections import ChainMap, OrderedDict, UserDict
N: Final = 5
class Base(ABC):
    reg: ClassVar[dict] = {}
    def __init_subclass__(cls, num=None, **kw):
        super().__init_subclass__(**kw)
        if num is not None: Base.reg[num] = cls
    @abstractmethod
    def run(self, v): ...
    def call(self, v): return self.run(v) + 1
class A1(Base, num=1):
    def run(self, v): return v * 2
class A2(Base, num=2):
    def run(self, v): return v * 3
def g_registry(x, y, b):
    c = Base.reg.get(y & 3)
    return c().call(x) if c else None
def g_abstract(x, y, b):
    try: Base()
    except TypeError: return "abs"
def g_getattr(x, y, b):
    class D:
        def h_1(self): return "one"
        def h_2(self): return "two"
    f = getattr(D(), f"h_{y & 3}", None)
    return f() if f else "none"
def g_mangle(x, y, b):
    class D:
        def __init__(self): self.__v = x
        def __get(self): return self.__v
        def pub(self): return self.__get() + 1
    d = D(); return d.pub(), d._D__v
def g_cached(x, y, b):
    class D:
        n = 0
        @cached_property
        def v(self): self.n += 1; return x
    d = D(); d.v; d.v; return d.n, d.v
def g_post(x, y, b):
    @dataclass(frozen=True, order=True)
    class D:
        a: int
        c: int = field(default=0, compare=False)
        def __post_init__(self): object.__setattr__(self, "c", self.a + 1)
    try: D(1).a = 2
    except dataclasses.FrozenInstanceError: e = 1
    return D(x).c, D(x) < D(y), D(1) == D(1), e, hash(D(1)) == hash(D(1))
def g_kwonly(x, y, b):
    @dataclass
    class D:
        a: int
        _: KW_ONLY
        c: int = 2
    return D(x, c=y).c, repr(D(1))
def g_dcinherit(x, y, b):
    @dataclass
    class P: a: int = 1
    @dataclass
    class Q(P): c: int = 2
    return Q(x, y).c, dataclasses.astuple(Q(x)), Q.__annotations__ is not None, list(Q(x).__dict__)
def g_matchcls(x, y, b):
    @dataclass
    class P: a: int; c: int
    match P(x, y):
        case P(a=0): return "z"
        case P(1, q): return q
        case P(a=p, c=q) if p > q: return p - q
        case _: return -1
def g_matchmap(x, y, b):
    match {"k": x & 3, "o": 1}:
        case {"k": 0}: return 0
        case {"k": 1 | 2 as v, **rest}: return v, rest
        case {"z": _}: return 5
        case _: return 9
def g_matchtype(x, y, b):
    r = []
    for v in (1, "a", 2.0, None, [1], b"x"):
        match v:
            case int(): r.append("i")
            case str(s): r.append(s)
            case float(): r.append("f")
            case None: r.append("n")
            case [q, *_]: r.append(q)
            case bytes(): r.append("y")
    return r
def g_dispatch(x, y, b):
    @singledispatch
    def f(v): return "o"
    @f.register
    def _(v: int): return "i"
    @f.register(str)
    def _(v): return "s"
    return f(1), f("a"), f(2.0)
def g_itersent(x, y, b):
    s = [3, 2, 1, 0, 5]
    return list(iter(lambda: s.pop(0), 0))
def g_bytesio(x, y, b):
    f = io.BytesIO(b"abcdef"); a = f.read(2); r = f.read(); return a, r, f.read(1)
def g_stringio(x, y, b):
    f = io.StringIO(); f.write(str(x)); print("z", y, sep="-", end="!", file=f); return f.getvalue()
def g_swap(x, y, b):
    x, y = y, x; a = c = [1]; a.append(x); d = {"k": [0, 1]}; d["k"][1] += y; return x, y, c, d
def g_augattr(x, y, b):
    class D: n = 1
    d = D(); d.n += x; d.n <<= 1; D.n += 1; return d.n, D.n, D().n
def g_classvar_shared(x, y, b):
    class D: l = []
    D().l.append(x); D().l.append(y); return D.l
def g_default_mut(x, y, b):
    def f(v, acc=[]): acc.append(v); return len(acc)
    f(x); return f(y)
def g_static(x, y, b):
    class D:
        @staticmethod
        def s(v): return v + 1
        t = {1: s}
        def go(self): return self.t[1](x)
    return D().go(), D.s(1)
def g_functable(x, y, b):
    def inc(v): return v + 1
    def dec(v): return v - 1
    return {0: inc, 1: dec}.get(y & 1)(x), [inc, dec][y & 1](x)
def g_namedtuple(x, y, b):
    class T(NamedTuple):
        a: int; c: int = 1
        def s(self): return self.a + self.c
        @classmethod
        def mk(cls, v): return cls(v, v)
    return T(x).s(), T.mk(y), T(x)._replace(c=5).c, T._fields, T(1) == (1, 1), len(T(1))
def g_property(x, y, b):
    class D:
        def __init__(self): self._v = 0
        @property
        def v(self): return self._v
        @v.setter
        def v(self, q): self._v = q if q > 3 else 0
    d = D(); d.v = x; return d.v
def g_slots_super(x, y, b):
    class P:
        def f(self, *a, **k): return (a, k)
    class Q(P):
        def f(self, *a, **k): return super(Q, self).f(*a, x, **k, z=y)
    return Q().f(1, q=2)
def g_mro(x, y, b):
    class P:
        def f(self): return "P"
    class Q(P):
        def f(self): return "Q" + super().f()
    class R(P):
        def f(self): return "R" + super().f()
    class S_(Q, R): pass
    return S_().f(), [c.__name__ for c in S_.__mro__][:4]
def g_getattr_dunder(x, y, b):
    class D:
        def __init__(self, o): self.o = o
        def __getattr__(self, n):
            if n.startswith("_"): raise AttributeError(n)
            return self.o[n]
    d = D({"a": x}); return d.a, hasattr(d, "_q")
def g_setattr_dunder(x, y, b):
    class D:
        def __setattr__(self, n, v): object.__setattr__(self, n, v + 1)
    d = D(); d.a = x; return d.a
def g_setitem(x, y, b):
    class D:
        def __init__(self): self.d = {}
        def __setitem__(self, k, v): self.d[k] = v
        def __getitem__(self, k): return self.d[k]
        def __delitem__(self, k): del self.d[k]
    d = D(); d["a"] = x; d["c"] = y; del d["c"]; return d["a"], list(d.d)
def g_iterproto(x, y, b):
    class R:
        def __init__(self, n): self.n = n
        def __iter__(self): return self
        def __next__(self):
            if self.n <= 0: raise StopIteration
            self.n -= 1
            return self.n
    return list(R(3)), sum(R(y))
def g_gensend(x, y, b):
    def g():
        t = 0
        while True:
            v = yield t
            if v is None: return
            t += v
    i = g(); next(i); a = i.send(x); c = i.send(y); return a, c
def g_genret(x, y, b):
    def inner(): yield 1; return x
    def outer():
        r = yield from inner()
        yield r + 1
    return list(outer())
def g_exstack(x, y, b):
    log = []
    with contextlib.ExitStack() as st:
        st.callback(log.append, 1); st.callback(log.append, 2); log.append(0)
    return log
def g_excchain(x, y, b):
    try:
        try: {}[1]
        except KeyError as e: raise ValueError("v") from e
    except ValueError as e: return type(e.__cause__).__name__, str(e), e.args
def g_finallyorder(x, y, b):
    l = []
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2 and x > 5: break
            l.append(i)
        finally: l.append(10 + i)
    else: l.append("e")
    return l
def g_nestedtry(x, y, b):
    try:
        try:
            if x > 8: raise KeyError("k")
            if y > 4: raise IndexError("i")
        except KeyError: return "K"
        finally: pass
    except LookupError as e: return "L" + str(e)
    return "ok"
def g_reraise(x, y, b):
    try:
        try: 1 // (x - x)
        except ZeroDivisionError: raise
    except ArithmeticError as e: return type(e).__name__
def g_strsplit(x, y, b):
    return "a=b=c".split("=", 1), "a\nb\r\nc".splitlines(), "  x ".lstrip(), "k: v".partition(": "), "abc".removeprefix("a"), "x".join(["1", "2"]), "%s" % (x,), "a,b,,c".split(","), "tab\tx".expandtabs(4)
def g_fmtnest(x, y, b):
    w = 6; return f"{x:{w}d}|{y:<{w}}|{x * 0.1:{w}.{2}f}|{'s':>{w}}|{x=}|{True!s}|{1234567:,}|{0.5:.0%}|{x:#x}"
def g_fmtspec(x, y, b):
    return format(x, "04d"), "{:>4}{:<4}{:^4}".format(x, y, "a"), "{a[0]}{o.real}".format(a=[x], o=3), f"{x / 7:10.4e}", f"{x - 8:+.1f}", f"{y:03o}", f"{-x:6d}", f"{x:_b}"
def g_path(x, y, b):
    p = PurePosixPath("/a/b/c.rtcm3"); return p.name, p.stem, p.suffix, str(p.parent), str(p.with_suffix(".txt")), str(p / "d"), p.parts, str(p.parent.joinpath("q"))
def g_setops(x, y, b):
    s = {1, 2, 3}; return s - {1}, s ^ {3, 4}, s.issubset({1, 2, 3, 4}), s.isdisjoint({9}), {1}.union([2]), frozenset([1]) | {2}, x in s
def g_dictops(x, y, b):
    d = {"a": 1}; e = {**d, "b": x}; e.update({"c": y}); f = d | {"z": 2}; return e, f, list(e), [*e.values()], e.popitem(), "a" in e, {v: k for k, v in d.items()}, dict(sorted({2: 1, 1: 2}.items())), sorted({"b": 1, "a": 2}, key=lambda k: k)
def g_ordered(x, y, b):
    o = OrderedDict([("a", x), ("b", y)]); o.move_to_end("a"); return list(o), list(o.items())
def g_chainmap(x, y, b):
    c = ChainMap({"a": x}, {"a": 1, "b": y}); return c["a"], c["b"], c.get("q")
def g_array(x, y, b):
    return list(bytearray(b"ab")), bytes(range(3)), bytes(bytearray([x, y])), b"ab" * 2, b"".join([b, b"z"]), b"a" in b"cab", list(b)
def g_hex(x, y, b):
    return bytes.fromhex("d300"), b"\xd3".hex().upper(), b.hex(), int(b.hex(), 16), "".join(f"{i:02X}" for i in b)
def g_bytesfmt(x, y, b):
    return int.from_bytes(b[:1] + b"\x00", "big"), (int.from_bytes(b, "big") >> 3) & 0x3F, bool(b[0] & 0x80), b[0] << 8 | b[1]
def g_bititer(x, y, b):
    n = int.from_bytes(b, "big"); return [15 - i for i in range(15, -1, -1) if n >> i & 1]
def g_bitstr(x, y, b):
    s = bin(int.from_bytes(b, "big") | 1 << 16)[3:]; return int(s[:6], 2), int(s[6:], 2), [k + 1 for k, c in enumerate(s) if c == "1"], s.count("1")
def g_bitstr2(x, y, b):
    s = "".join("{:08b}".format(v) for v in b); v = int(s[2:9], 2); return v - (1 << 7) if s[2] == "1" else v
def g_cursor(x, y, b):
    class Cur:
        def __init__(self, d): self.d, self.p = d, 0
        def u(self, n):
            v = 0
            for _ in range(n):
                v = v << 1 | self.d[self.p >> 3] >> (7 - (self.p & 7)) & 1
                self.p += 1
            return v
        def s(self, n):
            v = self.u(n); return v - (1 << n) if v >> (n - 1) else v
    c = Cur(b); return c.u(3), c.s(5), c.u(1), c.s(7), c.p
def g_popmask(x, y, b):
    m = int.from_bytes(b, "big"); r = []
    while m:
        l = m & -m
        r.append(l.bit_length())
        m ^= l
    return r
def g_cellgrid(x, y, b):
    s = [i for i in range(4) if x >> i & 1]; g = [j for j in range(3) if y >> j & 1]
    return [(i, j) for i in s for j in g], len(s) * len(g), list(itertools.product(s, g))
def g_cellidx(x, y, b):
    s = [i for i in range(3) if x >> i & 1]; v = [10, 20, 30]
    it = iter(v); return {k: next(it) for k in s}, [v[n] for n, k in enumerate(s)], dict(zip(s, v))
def g_cmpchain(x, y, b):
    return not (x < 3 or y > 5), x if 2 <= x < 9 else None, (x > 3) == (y > 3), (x > 3) is True
def g_intdiv(x, y, b):
    return x // 2 * 2 + x % 2, divmod(x * 7, 5), -(-x // 3), x * 60 % 86400, int(x * 1.0), round(x * 0.5), math.trunc(x / 3), math.fmod(x, 3)
def g_floats(x, y, b):
    return x * math.pow(2, -5), x * (1 / 32), x / (1 << 5), math.ldexp(x, -5), x * 2 ** -33, float(x) * 1e-3 * 299792.458, (x + y / 1024) * 299792.458
def g_round2(x, y, b):
    return round(x * 1.005, 2), f"{x * 0.1:.3f}", float(f"{x / 8:.2f}"), abs(-x / 4), max(x / 2, y / 3), sum([0.1] * 3), math.fsum([x, 0.5]), math.hypot(3, 4)
def g_lamdef(x, y, b):
    conv = {"a": lambda v: v * 2, "b": float, "c": str}
    return [conv[k](x) for k in "abc"]
def g_compose(x, y, b):
    fs = [lambda v: v + 1, lambda v: v * 2]
    return functools.reduce(lambda acc, f: f(acc), fs, x)
def g_wraps(x, y, b):
    def guard(default):
        def deco(fn):
            @functools.wraps(fn)
            def w(*a, **k):
                try: return fn(*a, **k)
                except (ValueError, ZeroDivisionError) as e: return default, type(e).__name__
            return w
        return deco
    @guard(-1)
    def f(v):
        if v > 9: raise ValueError
        return 10 // v
    return f(x)
def g_unpack_nested(x, y, b):
    (a, (c, d)), *e = [(x, (y, 1)), 2, 3]; return a, c, d, e
def g_slices(x, y, b):
    l = list(range(10)); return l[2:8:2], l[::-3], l[-3:], l[:-3], l[5:2], l[100:], tuple(l)[1:3], l[slice(1, 3)], "abcdef"[-2::-1]
def g_globalstate(x, y, b):
    global STATE
    STATE = []
    def p(v): STATE.append(v); return v
    r = p(x) or p(y); q = p(0) and p(9)
    return r, q, STATE
def g_late(x, y, b):
    if x > 3:
        k = 1
    try: return k
    except UnboundLocalError: return "u"
def g_isnone(x, y, b):
    d = {"a": None, "b": x}; return [k for k, v in d.items() if v is not None], d.get("a") is None, next((v for v in [None, 0, x] if v), "no")
def g_any(x, y, b):
    l = [x > 3, y > 2]; return any(l), all(l), sum(l), l.count(True), l.index(True) if any(l) else -1, not any(v == 0 for v in b)
def g_typed(x, y, b):
    class TD(TypedDict): a: int
    t: TD = {"a": x}; f: Callable[[int], int] = lambda v: v; return t["a"], f(y), typing.cast(int, x)
def g_namespace(x, y, b):
    s = types.SimpleNamespace(a=x, c=1); s.d = y; return s.a, s.d, vars(s)
def g_methodref(x, y, b):
    class D:
        def m(self, v): return v + x
    d = D(); f = d.m; g = D.m; return f(1), g(d, 2), list(map(d.m, [1, 2])), f.__name__
def g_strtable(x, y, b):
    return str.join(",", ["a"]), str.upper("a"), "a".__add__("b"), "abc".__contains__("b"), len("abc"), list("ab"), tuple("ab"), "b" * y, "a" + "b" * 2, "abc".index("c")
def g_numstr(x, y, b):
    return str(1e-10), repr(0.1), str(1.0), str(x * 0.5), f"{1e16}", str(10 ** 20), repr("a'b"), str(None), str([1, "a"]), str((x,)), str({"a": x}), f"{[x, y]}"
def g_zipstrict(x, y, b):
    return list(zip([1, 2], [x, y], strict=True)), list(itertools.starmap(lambda a, c: a + c, [(x, y)])), list(itertools.pairwise([1, 2, x])), list(itertools.compress("abcd", [x & 1, 1, 0, y & 1])), list(itertools.repeat(x, 2)), list(itertools.filterfalse(lambda v: v > 3, [x, 1])), list(itertools.dropwhile(lambda v: v < 2, [1, 2, 1]))
def g_count(x, y, b):
    c = itertools.count(5); return next(c), next(c), [i for i, _ in zip(itertools.count(), b)], list(itertools.combinations([1, 2, 3], 2)), list(itertools.islice(itertools.cycle("ab"), 3)), list(itertools.batched([1, 2, 3], 2))
