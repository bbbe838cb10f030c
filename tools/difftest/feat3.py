import itertools, functools, contextlib, operator, collections, types, heapq, string, math, datetime, struct, enum, dataclasses, copy, typing, threading

class A:
    z = 5
    def __init__(self, x=1):
        self.x = x
class Borg:
    _s = {}
    def __init__(self):
        self.__dict__ = self._s
def h_dictupdate(x, y, b):
    a = A(x); c = A(y)
    c.__dict__.update(a.__dict__)
    c.__dict__['q'] = y
    vars(c)['r'] = 4
    return [c.x, c.q, c.r, a.x]
def h_dictshare(x, y, b):
    a = A(x); c = A(y)
    c.__dict__ = a.__dict__
    c.x = y
    return [a.x, c.x]
def h_borg(x, y, b):
    a = Borg(); c = Borg()
    a.v = x
    r = c.v
    Borg._s.clear() if False else None
    return r
def h_dictdel(x, y, b):
    a = A(x)
    if y & 1:
        del a.__dict__['x']
    return getattr(a, 'x', -1)
def h_clsassign(x, y, b):
    class P:
        def f(self): return 1
    class Q(P):
        def f(self): return 2
    p = P(); p.__class__ = Q
    return p.f() + x
class DD(dict):
    def __missing__(self, k):
        return k * 2
def h_missing(x, y, b):
    d = DD(); d[3] = 100
    return d[x]
class LL(list):
    def total(self):
        return sum(self)
def h_listsub(x, y, b):
    l = LL([1, x]); l.append(y)
    return [l.total(), len(l), l[1]]
def h_type(x, y, b):
    T = type("T", (), {"k": 3, "f": lambda self, n: n + self.k})
    return T().f(x)
REG = {}
class Base:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__()
        REG[kw.get("key", cls.__name__)] = cls
class S1(Base, key=1):
    def go(self): return 10
class S2(Base, key=2):
    def go(self): return 20
def h_initsub(x, y, b):
    c = REG.get(y & 3)
    return c().go() if c else -1
@functools.singledispatch
def sd(v): return 0
@sd.register
def _(v: int): return v + 1
@sd.register(str)
def _(v): return len(v)
def h_singledispatch(x, y, b):
    return [sd(x), sd("abc"), sd(1.5)]
def h_exitstack(x, y, b):
    log = []
    with contextlib.ExitStack() as st:
        for i in range(3):
            st.callback(log.append, i)
        log.append(x)
    return log
def h_suppress(x, y, b):
    r = 0
    with contextlib.suppress(KeyError, IndexError):
        r = [1, 2, 3][y]
    return r
@contextlib.contextmanager
def cm(l, v):
    l.append(v)
    try:
        yield v + 1
    except ValueError:
        l.append(-1)
    finally:
        l.append(-2)
def h_cm(x, y, b):
    l = []
    with cm(l, x) as q:
        if y == 3:
            raise ValueError("a")
        l.append(q)
    return l
def h_heap(x, y, b):
    h = [5, 3, 8]
    heapq.heapify(h)
    heapq.heappush(h, 4)
    return [heapq.heappop(h), heapq.heappop(h), x]
def h_pairwise(x, y, b):
    return [q - p for p, q in itertools.pairwise([1, x, y, 9])]
def h_batched(x, y, b):
    return [sum(t) for t in itertools.batched([1, x, y, 9, 2], 2)]
def h_tee(x, y, b):
    p, q = itertools.tee([x, y, 3])
    next(q)
    return list(zip(p, q))
def h_starmap(x, y, b):
    return list(itertools.starmap(operator.sub, [(x, 1), (y, 2)]))
def h_filterfalse(x, y, b):
    return list(itertools.filterfalse(lambda v: v & 1, [x, y, 4, 5]))
def h_dropwhile(x, y, b):
    return list(itertools.dropwhile(lambda v: v < 3, [x, y, 4, 1]))
def h_cycle(x, y, b):
    return list(zip([x, y, 1, 2], itertools.cycle("ab")))
def h_repeat(x, y, b):
    return list(map(operator.mul, [x, y], itertools.repeat(3)))
def h_methodcaller(x, y, b):
    return operator.methodcaller("bit_length")(x) + operator.itemgetter(1)([x, y]) + operator.attrgetter("x")(A(y))
def h_ns(x, y, b):
    n = types.SimpleNamespace(a=x, c=y)
    n.a += 1
    return [n.a, n.c]
def h_partition(x, y, b):
    return list(f"k{x}=v{y}=w".partition("=")) + list(f"k{x}=v{y}=w".rpartition("="))
def h_removeprefix(x, y, b):
    return f"MSM{x}".removeprefix("MSM") + "abc.txt".removesuffix(".txt")
def h_template(x, y, b):
    return string.Template("$a-${c}").substitute(a=x, c=y)
def h_timedelta(x, y, b):
    d = datetime.timedelta(seconds=x * 3600 + y)
    return d.total_seconds()
def h_divmod(x, y, b):
    m, s = divmod(x * 100 + y, 60)
    return [m, s]
def h_except_else(x, y, b):
    r = []
    try:
        if y == 1: raise KeyError(x)
        if y == 2: raise IndexError(x)
    except KeyError as e:
        r.append(("k", e.args[0]))
    except (IndexError, ValueError) as e:
        r.append(("i", e.args[0]))
    else:
        r.append(("e", x))
    finally:
        r.append(("f", y))
    return r
def h_finret(x, y, b):
    try:
        if y & 1: raise ValueError
        return x
    except ValueError:
        return -1
    finally:
        x += 5
def h_finloop(x, y, b):
    r = []
    for i in range(4):
        try:
            if i == y: continue
            if i == 3 and x > 5: break
            r.append(i)
        finally:
            r.append(-i)
    return r
def h_nonlocal(x, y, b):
    n = 0
    def inc(k):
        nonlocal n
        n += k
        return n
    for i in range(y & 3): inc(x)
    return n
class Callable_:
    def __init__(self, k): self.k = k
    def __call__(self, v): return v * self.k
def h_callobj(x, y, b):
    return [f(x) for f in (Callable_(2), Callable_(y), abs, int)]
class Desc:
    def __set_name__(self, o, n): self.n = "_" + n
    def __get__(self, o, t=None): return getattr(o, self.n, 0)
    def __set__(self, o, v): setattr(o, self.n, v & 3)
class HasD:
    f = Desc(); g = Desc()
def h_desc(x, y, b):
    o = HasD(); o.f = x; o.g = y
    return [o.f, o.g]
class BitF:
    def __init__(self, w, s): self.w, self.s = w, s
    def read(self, v): return v >> self.s & (1 << self.w) - 1
FL = {"a": BitF(3, 0), "b": BitF(4, 3), "c": BitF(9, 7)}
def h_bitf(x, y, b):
    v = int.from_bytes(b, "big")
    return {k: f.read(v) for k, f in FL.items()}
def h_memcast(x, y, b):
    return list(memoryview(b)[1:]) + [memoryview(b).nbytes]
def h_structiter(x, y, b):
    return [v for (v,) in struct.iter_unpack("B", b)]
def h_signed_ct(x, y, b):
    v = b[0]
    return (v ^ 0x80) - 0x80
def h_unpack_from(x, y, b):
    return struct.unpack_from(">H", b, 0)[0] & 0xFFF
def h_sortstable(x, y, b):
    l = [(y & 1, 2), (0, 1), (x & 1, 0)]
    return sorted(l, key=lambda t: t[0])
def h_sortrev(x, y, b):
    return sorted([x, y, 3], reverse=True)
def h_maxkey(x, y, b):
    return max([(x, 1), (y, 2)], key=lambda t: t[0])
def h_minidef(x, y, b):
    return min((v for v in [x, y] if v > 5), default=-1)
def h_dictmerge(x, y, b):
    d = {"a": 1} | {"b": x}
    d |= {"a": y}
    return d
def h_dictpop(x, y, b):
    d = {1: "a", 2: "b", 3: "c"}
    return [d.pop(y, "none"), len(d), list(d)]
def h_setdef(x, y, b):
    d = {}
    for k, v in ((x & 1, 1), (y & 1, 2), (1, 3)):
        d.setdefault(k, []).append(v)
    return d
def h_dictview(x, y, b):
    d = {1: x, 2: y}
    return [sum(d.values()), (1, x) in d.items(), 2 in d.keys(), list(reversed(d))]
def h_enumauto(x, y, b):
    class E(enum.Enum):
        A = enum.auto()
        B = enum.auto()
    return [E.A.value, E(1 + (y & 1)).name, E["B"].value, len(E), x]
class Fl(enum.IntFlag):
    R = 1
    W = 2
    X = 4
def h_flag(x, y, b):
    f = Fl(y)
    return [bool(f & Fl.R), int(f | Fl.X), Fl.W in f]
def h_dcreplace(x, y, b):
    @dataclasses.dataclass
    class P:
        a: int = 0
        c: list = dataclasses.field(default_factory=list)
    p = P(x); q = dataclasses.replace(p, a=y); q.c.append(1)
    return [p.a, q.a, p.c, p == q]
def h_copy(x, y, b):
    l = [[x], [y]]; c = copy.copy(l); d = copy.deepcopy(l)
    l[0].append(9)
    return [c, d]
def h_strmul(x, y, b):
    return "ab" * (y & 3) + "-" * 2
def h_ljust(x, y, b):
    return [str(x).rjust(4, "0"), str(y).zfill(3), f"{x:>4}", f"{y:<3}|", f"{x:^5d}"]
def h_fmt2(x, y, b):
    return [f"{x:04X}", f"{x:#x}", f"{y:b}", f"{x / 4:.2f}", f"{x / 4:8.3f}", f"{-x:+d}", "%02d:%02d" % (x, y), "{0:>3}{1}".format(x, y)]
def h_fmt3(x, y, b):
    w = 6
    return [f"{x!r:>{w}}", f"{x / 8:{w}.{2}f}", f"{x=}", format(y, "03d"), f"{x * 1e-7:.3e}", f"{x:,}"]
def h_splitlines(x, y, b):
    return f"a{x}\nb{y}\n".splitlines()
def h_strfind(x, y, b):
    s = "ABCDEF"
    return [s.find("CD"), s[x:y], s[-1 - (y & 3)], s.index("F"), s.count("A")]
def h_hexbytes(x, y, b):
    return [b.hex(), bytes.fromhex("d300").hex(), b[::-1].hex()]
def h_bytesfind(x, y, b):
    return [b.find(b"\xd3"), b.startswith(b"\xd3"), b.count(0), 0xd3 in b]
def h_bytessplit(x, y, b):
    return [len(p) for p in (b"a\xd3b\xd3" + b"c").split(b"\xd3")]
def h_bytesjoin(x, y, b):
    return b"".join(bytes([v & 1]) for v in b).hex()
def h_intenumtab(x, y, b):
    tab = [0] * 8
    tab[y] += x
    return tab
def h_2d(x, y, b):
    g = [[0] * 3 for _ in range(3)]
    g[y % 3][x % 3] = 1
    return g
def h_transpose(x, y, b):
    return [list(r) for r in zip(*[[1, x], [2, y]])]
def h_flat(x, y, b):
    return [v for r in ((x, 1), (y, 2)) for v in r if v > 1]
def h_condimp(x, y, b):
    import math as m
    from math import floor as fl
    return [m.ceil(x / 2), fl(y / 2), m.copysign(2.0, x - 3), m.trunc(-x / 2), m.fmod(x, 4), m.hypot(3, 4)]
def h_gcd(x, y, b):
    return [math.gcd(12, 18), math.ldexp(x, -3), math.isclose(x / 3, x / 3), math.fsum([x, y])]
def h_fdiv(x, y, b):
    return [-x // 4, -x % 4, int(-x / 4), round(x / 4), x / 2 - 1]
def h_lock(x, y, b):
    l = threading.Lock()
    with l:
        x += 1
    return x
def h_genclose(x, y, b):
    log = []
    def g():
        try:
            yield 1
            yield 2
        finally:
            log.append(x)
    i = g(); next(i); i.close()
    return log
def h_genthrow(x, y, b):
    def g():
        t = 0
        for i in range(4):
            if i == y: return t
            t += i
            yield t
    return [list(g()), sum(g())]
def h_itnext(x, y, b):
    it = iter([x, y])
    return [next(it, None), next(it, None), next(it, None)]
def h_chainfi(x, y, b):
    return list(itertools.chain.from_iterable([[x], [y, 1]]))
def h_islice(x, y, b):
    return list(itertools.islice(itertools.count(x, 2), 1, 4))
def h_comb(x, y, b):
    return [sum(c) for c in itertools.combinations([1, x, y], 2)]
def h_groupby(x, y, b):
    return [(k, len(list(g))) for k, g in itertools.groupby([1, 1, y & 1, 0])]
def h_zipdict(x, y, b):
    return dict(zip(("a", "b", "c"), (x, y, x + y)))
def h_unpackdict(x, y, b):
    def f(*, a, c=3, **k): return [a, c, sorted(k)]
    return f(**{"a": x, "z": y})
def h_starmid(x, y, b):
    h, *m, t = [x, 1, 2, y]
    return [h, m, t]
def h_posonly(x, y, b):
    def f(a, /, c, *, d=1): return a * 100 + c * 10 + d
    return f(x, c=y)
def h_chaineq(x, y, b):
    a = c = x
    c += 1
    return [a, c, x == a < c]
def h_shortc(x, y, b):
    return [x or y, x and y, not x, x if y else -1]
def h_walrus(x, y, b):
    return [n for v in (x, y) if (n := v * 2) > 6]
def h_walrusw(x, y, b):
    r = []
    while (x := x - 5) > 0: r.append(x)
    return r
def h_matchor(x, y, b):
    match (x & 3, y):
        case (0, 1 | 2): return "a"
        case (1, n) if n > 3: return f"b{n}"
        case (q, 0): return f"c{q}"
        case _: return "d"
def h_strenum(x, y, b):
    class M(str, enum.Enum):
        A = "aa"
        B = "bb"
    return [M.A == "aa", M("bb").name, M.A.value + "x", x]
def h_gettype(x, y, b):
    return [type(x).__name__, type(b).__name__, isinstance(x, (int, float)), issubclass(bool, int), callable(len)]
def h_eq(x, y, b):
    class P:
        def __init__(s, v): s.v = v
        def __eq__(s, o): return isinstance(o, P) and s.v == o.v
        def __hash__(s): return hash(s.v)
        def __lt__(s, o): return s.v < o.v
        def __repr__(s): return f"P({s.v})"
    return [P(x) == P(y), P(x) != P(y), P(x) < P(y), repr(P(x)), [P(1), P(x)].index(P(x)) if x != 1 else 0]
def h_ops(x, y, b):
    class V2:
        def __init__(s, a, c): s.a, s.c = a, c
        def __add__(s, o): return V2(s.a + o.a, s.c + o.c)
        def __neg__(s): return V2(-s.a, -s.c)
        def __getitem__(s, i): return (s.a, s.c)[i]
        def __len__(s): return 2
        def __bool__(s): return s.a != 0
        def __contains__(s, v): return v in (s.a, s.c)
    v = V2(x, y) + V2(1, 1)
    return [v[0], (-v)[1], len(v), bool(V2(x, 0)), 3 in v]
def h_userdict(x, y, b):
    class U(collections.UserDict):
        def __getitem__(s, k): return s.data.get(k, -1)
    u = U(); u[1] = x
    return [u[1], u[2]]
def h_ringbuf(x, y, b):
    d = collections.deque(maxlen=2)
    for v in (x, y, 3): d.append(v)
    return list(d)
def h_bitset(x, y, b):
    return [i for i in range(8) if b[0] & 0x80 >> i]
def h_bitpop(x, y, b):
    r = []; v = b[0]
    while v:
        l = v & -v
        r.append(l.bit_length() - 1)
        v ^= l
    return r
def h_revbits(x, y, b):
    return int(f"{b[0]:08b}"[::-1], 2)
def h_maketrans(x, y, b):
    return f"{b[0]:08b}".translate(str.maketrans("01", "ab"))
def h_lenguard(x, y, b):
    l = [v for v in b if v > 100]
    return l[0] if l else -1
def h_globalsr(x, y, b):
    return globals()["FL"]["a"].read(x)
def h_kwdef(x, y, b):
    f = functools.partial(lambda a, c, d: a * 100 + c * 10 + d, d=1)
    return f(x, y)
def h_cachedprop(x, y, b):
    n = []
    class C:
        @functools.cached_property
        def p(self):
            n.append(1)
            return x
    c = C()
    return [c.p, c.p, len(n)]
def h_totalord(x, y, b):
    @functools.total_ordering
    class C:
        def __init__(s, v): s.v = v
        def __eq__(s, o): return s.v == o.v
        def __lt__(s, o): return s.v < o.v
    return [C(x) >= C(y), C(x) > C(y), C(x) <= C(y)]
def h_classm(x, y, b):
    class C:
        n = 0
        @classmethod
        def mk(cls, v):
            cls.n += v
            return cls()
    C.mk(x); C.mk(y)
    return C.n
def h_exgroup(x, y, b):
    class E(Exception):
        def __init__(self, code, msg="m"):
            super().__init__(f"{msg}:{code}")
            self.code = code
    try:
        raise E(x)
    except Exception as e:
        return [str(e), e.code, type(e).__name__]
def h_with2(x, y, b):
    l = []
    with cm(l, 1) as p, cm(l, 2) as q:
        l.append(p + q + x)
    return l
def h_forelse(x, y, b):
    for v in (1, 4, 9):
        if v == x: break
    else:
        v = -1
    return v
def h_rangeneg(x, y, b):
    return [list(range(y, 0, -2)), len(range(0, x, 3)), x in range(2, 9, 2)]
def h_sumgen(x, y, b):
    return sum(v << 8 * i for i, v in enumerate(reversed(b)))
def h_bytesxor(x, y, b):
    return bytes(p ^ q for p, q in zip(b, b"\xff\x0f")).hex()
def h_intround(x, y, b):
    return [int(x * 0.5 + 0.5), round(x * 0.25, 1), int(f"{y}{x}"), float(f"{x}.5")]
def h_bytesorder(x, y, b):
    return [b > b"", b <= b"", b < b"\x80", b >= b"\x7f\xff\x00", b <= bytes([x & 255, y & 255]), b"\x10\x20" < b, b[:1] <= b]
