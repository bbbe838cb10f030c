import itertools, functools, operator, struct, math, collections, copy, enum, dataclasses, typing, io, re, string, contextlib, os, datetime, time, json, bisect, textwrap
from dataclasses import dataclass, field
from enum import IntEnum, Enum, auto
from collections import namedtuple, defaultdict, OrderedDict, Counter, deque
from functools import reduce, partial, lru_cache
from itertools import chain, islice, groupby, takewhile, accumulate, product, zip_longest

def f_slice_assign(x, y, b):
    a = [1, 2, 3, 4]; a[1:3] = [x, y]; a[::2] = [9, 8]; del a[0]; return a
def f_frombytes(x, y, b):
    return int.from_bytes(b, "big") + int.from_bytes(b, byteorder="little", signed=True)
def f_tobytes(x, y, b):
    return (x * 256 + y).to_bytes(2, "big").hex()
def f_bytes_cat(x, y, b):
    return (bytes([x, y]) + b + b"\x00" * 2)
def f_bytearray(x, y, b):
    a = bytearray(b); a.append(x); a.extend([y, 1]); a[0] = 5; del a[1]; return bytes(a)
def f_memview(x, y, b):
    m = memoryview(b); return bytes(m[1:]) + bytes(m[:1])
def f_format(x, y, b):
    return f"{x:08b}|{y:>5d}|{x/4:.3f}|{y:x}|{x:+d}|{x!r:>4}|{'a':*^5}"
def f_percent(x, y, b):
    return "%02d %5.2f %s %x %%" % (x, y / 3, b.hex(), y)
def f_strformat(x, y, b):
    return "{0:03d}-{1}-{n:.2e}".format(x, y, n=x + 0.5)
def f_join(x, y, b):
    return ",".join(str(i) for i in (x, y, *b))
def f_bin(x, y, b):
    return bin(x)[2:].zfill(8) + hex(y)[2:].rjust(4, "0") + oct(x)
def f_intbin(x, y, b):
    return int(f"{x:04b}{y:03b}"[2:6], 2)
def f_intbin2(x, y, b):
    s = "".join(f"{i:08b}" for i in b); return int(s[3:9], base=2) - (int(s[4]) << 3)
def f_shift(x, y, b):
    return (x << y) | (x >> 1) ^ y
def f_signext(x, y, b):
    return x - 16 if x & 8 else x
def f_signext2(x, y, b):
    return (x ^ 8) - 8
def f_signext3(x, y, b):
    return -(x & 8) | (x & 7)
def f_neg(x, y, b):
    return -x // 4, -x % 5, ~y, abs(3 - x), divmod(x, 3)
def f_pow(x, y, b):
    return 2 ** y, 2 ** -y, pow(2, y), x * 2 ** -10
def f_minmax(x, y, b):
    return min(x, y), max(x, y, 3), max([x, y, 2], default=0), sorted([x, y, 4])
def f_sum(x, y, b):
    return sum(b), sum([x, y], 5), any(i > 100 for i in b), all(b)
def f_while(x, y, b):
    n = 0
    while x:
        x &= x - 1
        n += 1
    return n
def f_whileelse(x, y, b):
    for i in range(4):
        if x >> i & 1:
            break
    else:
        i = -1
    return i
def f_walrus(x, y, b):
    if (z := x + y) > 9:
        return z * 2
    return z
def f_match(x, y, b):
    match x:
        case 0: return "zero"
        case 1 | 2: return "few"
        case n if n > 10: return f"big{n}"
        case _: return "other"
def f_match_seq(x, y, b):
    match [x, y]:
        case [0, q]: return q
        case [p, 0]: return p + 100
        case [p, q]: return p * q
def f_ternary(x, y, b):
    return "a" if x > y else ("b" if x == y else "c")
def f_chain(x, y, b):
    return 2 < x <= 10, x in (1, 3, 5), x not in {2, 4}, y in range(2, 5), x in range(0, 16, 3)
def f_dict(x, y, b):
    d = {1: "a", 2: "b", 3: "c"}; return d.get(x, "none"), d.get(y)
def f_dictidx(x, y, b):
    try:
        return {1: 10, 2: 20}[x]
    except KeyError as e:
        return "missing"
def f_dictset(x, y, b):
    d = {}; d[x] = 1; d[y] = d.get(y, 0) + 5; d.setdefault(3, 7); return d.get(3), len(d), sorted(d)
def f_defaultdict(x, y, b):
    d = defaultdict(list); d[x].append(1); d[y].append(2); d[5].append(3); return d[5], len(d)
def f_counter(x, y, b):
    c = Counter([x, y, 1]); return c[1]
def f_listidx(x, y, b):
    return [10, 20, 30, 40, 50, 60, 70, 80][y], "abcdefghijklmnop"[x], (1, 2, 3, 4, 5, 6, 7, 8)[-1 - y]
def f_comp(x, y, b):
    return [i for i in range(4) if x & (1 << i)]
def f_compd(x, y, b):
    return {i: (x >> i) & 1 for i in range(4)}
def f_enumz(x, y, b):
    return [(i, v) for i, v in enumerate(b, 1) if v > 127], list(zip([x, y], "ab"))
def f_gen(x, y, b):
    def g():
        for i in range(4):
            if x & (8 >> i):
                yield i
    return list(g())
def f_gennext(x, y, b):
    return next((i for i in range(4) if x & (1 << i)), None)
def f_yieldfrom(x, y, b):
    def g(n):
        yield n
        yield from (n + 1, n + 2)
    return sum(g(x))
def f_closure(x, y, b):
    n = 0
    def add(k):
        nonlocal n
        n += k
        return n
    add(x); add(y)
    return n
def f_lambda(x, y, b):
    return list(map(lambda q: q + x, [1, y])), list(filter(lambda q: q > y, range(5)))
def f_reduce(x, y, b):
    return reduce(lambda a, c: (a << 8) | c, b, 0), reduce(operator.xor, b)
def f_partial(x, y, b):
    return partial(max, 3)(x)
def f_chainit(x, y, b):
    return list(chain([x], [y], b)), list(islice(b, 1)), list(chain.from_iterable([[x], [y]]))
def f_groupby(x, y, b):
    return [(k, len(list(g))) for k, g in groupby([x & 1, y & 1, 1])]
def f_takewhile(x, y, b):
    return list(takewhile(lambda i: i < x, range(5)))
def f_accum(x, y, b):
    return list(accumulate([x, y, 1]))
def f_product(x, y, b):
    return [(a, c) for a, c in product(range(2), range(2)) if x & (1 << (a * 2 + c))]
def f_struct(x, y, b):
    return struct.unpack(">H", b)[0], struct.pack(">BH", x, y), struct.unpack("<h", b)[0]
def f_math(x, y, b):
    return math.floor(x / 3), math.ceil(y / 2), math.sqrt(x), math.isclose(x, y), math.pi * x
def f_round(x, y, b):
    return round(x / 4), round(y * 0.125, 2), int(x / 3), float(x)
def f_try(x, y, b):
    try:
        if x > 7:
            raise ValueError("big")
        r = 10 // y
    except ZeroDivisionError:
        r = -1
    except ValueError as e:
        r = str(e)
    else:
        r += 1
    finally:
        y = 0
    return r, y
def f_tryret(x, y, b):
    out = []
    def h():
        try:
            if x > 4:
                return "r"
            out.append(1)
        finally:
            out.append(2)
        return "n"
    r = h()
    return r, out
def f_loopcont(x, y, b):
    t = 0
    for v in b:
        if v < 100:
            continue
        t += v
        if t > 300:
            break
    return t
def f_assert(x, y, b):
    assert x < 10, "too big"
    return x
def f_raise(x, y, b):
    if x == 3:
        raise IndexError("i")
    return [1, 2, 3][y]
def f_custom(x, y, b):
    class E(Exception):
        def __init__(self, n):
            super().__init__(f"n={n}")
            self.n = n
    try:
        if x & 1:
            raise E(x)
        return "ok"
    except E as e:
        return str(e), e.n
def f_cls(x, y, b):
    class A:
        k = 3
        def __init__(self, v): self.v = v
        @property
        def dbl(self): return self.v * 2
        @staticmethod
        def st(q): return q + 1
        @classmethod
        def mk(cls, q): return cls(q + cls.k)
        def __len__(self): return 4
        def __getitem__(self, i): return self.v + i
        def __call__(self, z): return z - self.v
        def __eq__(self, o): return self.v == o.v
        def __add__(self, o): return A(self.v + o.v)
        def __iter__(self): return iter([self.v, 1])
        def __contains__(self, i): return i == self.v
        def __str__(self): return f"A{self.v}"
        def __bool__(self): return self.v > 3
        def __enter__(self): self.v += 1; return self
        def __exit__(self, *a): self.v += 10; return False
    a = A.mk(x)
    with a as q:
        z = q.v
    return a.dbl, A.st(y), len(a), a[2], a(5), A(x) == A(y), (A(x) + A(y)).v, list(A(x)), y in A(x), str(A(y)), bool(A(x)), z
def f_dataclass(x, y, b):
    @dataclass
    class D:
        a: int
        c: int = 3
        l: list = field(default_factory=list)
        def tot(self): return self.a + self.c
    d = D(x); e = dataclasses.replace(d, c=y); e.l.append(1)
    return d == D(y), e.tot(), dataclasses.asdict(e), [f.name for f in dataclasses.fields(d)]
def f_namedtuple(x, y, b):
    P = namedtuple("P", "a c"); p = P(x, c=y); q = p._replace(a=1)
    return p.a, p[1], q.a, p._asdict()
def f_typedtuple(x, y, b):
    class T(typing.NamedTuple):
        a: int
        c: int = 4
    t = T(x); a, c = t
    return a, c, t.c
def f_enum(x, y, b):
    class K(IntEnum):
        A = 1
        B = 2
    class J(Enum):
        A = auto()
        B = auto()
    return K.A + x, K(2).name, J.B.value, x == K.B, [k.name for k in K]
def f_star(x, y, b):
    a, *r = [x, y, 1, 2]; *q, z = b; return a, r, q, z, [*b, x], {**{"a": 1}, "c": y}
def f_args(x, y, b):
    def f(a, /, *r, k=1, **kw): return a, r, k, sorted(kw)
    return f(x, y, 2, k=3, z=1), f(*[x, y], **{"q": 2})
def f_str(x, y, b):
    s = f"m{x}.rtcm"; return s.split("."), s.endswith(".rtcm"), s.replace("m", "n"), s.upper(), s.partition("."), s.find("r"), s.startswith("m1"), s[1:-5], s.rsplit(".", 1)[0]
def f_strip(x, y, b):
    return " a,b ,c".strip().split(","), "x-y".title(), "a b".split(), "abc"[::-1], "a".isdigit(), "12".isnumeric(), "Ab".lower().swapcase(), "ab".center(6), "aXbX".count("X")
def f_stringbuild(x, y, b):
    s = ""
    for i in range(3):
        s += str(x >> i & 1)
        if i < 2: s += ";"
    return s
def f_bytesm(x, y, b):
    return b.hex(), b.find(b"\xd3"), b[0], b[-1:], b.startswith(b"\xd3"), b == b"\x00\x00", len(b), b[::-1], bytes(2), b"a,b".decode().split(",")
def f_index(x, y, b):
    try:
        return b.index(0xD3)
    except ValueError:
        return None
def f_set(x, y, b):
    s = {x, y} | {3}; s.add(4); s.discard(1); return 3 in s, len(s), sorted(s & {3, 4}), {1, 2} <= {1, 2, 3}
def f_tuplecmp(x, y, b):
    return (x, y) < (4, 4), [x] == [y], (x, 1) != (1, 1), (x, y) == (y, x)
def f_sortkey(x, y, b):
    return sorted([(x, 1), (y, 2), (3, 3)], key=lambda t: (-t[0], t[1])), sorted("hello", reverse=True)
def f_listm(x, y, b):
    l = [x]; l.insert(0, y); l.extend((1, 2)); l.remove(1); p = l.pop(); l.reverse(); return l, p, l.copy(), [0] * 3, l.index(x), l.count(y)
def f_deque(x, y, b):
    d = deque([x], maxlen=2); d.append(y); d.append(1); return list(d), d.popleft()
def f_reversed(x, y, b):
    return list(reversed([x, y])), list(range(3, -1, -1)), [b[i] for i in range(len(b) - 1, -1, -1)]
def f_isinst(x, y, b):
    return isinstance(x, int), isinstance(b, (bytes, bytearray)), type(x) is int, callable(len), hasattr(b, "hex"), getattr(b, "nope", 5), isinstance(None, type(None))
def f_none(x, y, b):
    v = None if x > 5 else y
    return v is None, v or 7, v if v is not None else -1
def f_boolops(x, y, b):
    return x and y, x or y, not x, bool(y) + 1, (x > 3) & (y > 1), (x > 3) ^ (y > 1), (x > 3) | True
def f_aug(x, y, b):
    x += 1; x *= 3; x -= y; x <<= 1; x |= 1; x ^= 6; x %= 17; x //= 2; x **= 2; x >>= 1; x &= 0xFF
    return x
def f_float(x, y, b):
    return x * 0.25 + y * 1e-3, x / 2 == y, x * 2.0 ** -31, float("1e3"), -x * 0.5, x % 2.5, 1e-3 * (x - 0.5)
def f_global(x, y, b):
    return TBL[y], CONST * x
TBL = tuple(i * i for i in range(8)); CONST = 0x1864CFB
def f_lru(x, y, b):
    @lru_cache(maxsize=None)
    def g(n): return n + 1
    return g(1) + g(x)
def f_decor(x, y, b):
    def dec(f):
        @functools.wraps(f)
        def w(*a, **k): return f(*a, **k) + 1
        return w
    @dec
    def g(n): return n * 2
    return g(x), g.__name__
def f_ctx(x, y, b):
    log = []
    @contextlib.contextmanager
    def cm():
        log.append("in")
        try:
            yield x
        finally:
            log.append("out")
    with cm() as v:
        log.append(v)
    with contextlib.suppress(KeyError):
        {}[1]
    return log
def f_inherit(x, y, b):
    class A:
        def __init__(self, v): self.v = v
        def m(self): return self.v
        def t(self): return self.m() + 1
    class B(A):
        def __init__(self, v, w): super().__init__(v); self.w = w
        def m(self): return super().m() * self.w
    return B(x, y).t(), isinstance(B(1, 1), A), issubclass(B, A), B.__name__
def f_setattr(x, y, b):
    class A: pass
    a = A(); setattr(a, "q", x); a.__dict__["z"] = y; return a.q, sorted(vars(a)), getattr(a, "z"), hasattr(a, "n")
def f_slots(x, y, b):
    class A:
        __slots__ = ("a",)
        def __init__(self, a): self.a = a
    return A(x).a
def f_iter(x, y, b):
    it = iter([x, y, 3]); a = next(it); r = list(it); return a, r, next(iter([]), "d")
def f_bitlen(x, y, b):
    return x.bit_length(), bin(x).count("1"), y.bit_count() if hasattr(y, "bit_count") else bin(y).count("1")
def f_json(x, y, b):
    return json.dumps({"a": x, "b": [y, 1.5]}, indent=1)
def f_copy(x, y, b):
    a = [[x]]; c = copy.deepcopy(a); d = copy.copy(a); c[0].append(1); d[0].append(2); return a, c, d
def f_bisect(x, y, b):
    return bisect.bisect_left([2, 4, 8, 16], x), bisect.bisect([1, 3, 5], y)
def f_lutsum(x, y, b):
    T = [32, 64, 96, 128]; r = 0
    for i, t in enumerate(T):
        if x * 8 >= t: r = i + 1
    return r
def f_nestedloop(x, y, b):
    out = []
    for i in range(2):
        for j in range(2):
            if (x >> (2 * i + j)) & 1:
                out.append((i, j))
    return out
def f_crc(x, y, b):
    c = 0
    for v in b:
        c ^= v << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000: c ^= 0x1864CFB
    return c & 0xFFFFFF
def f_str_iter(x, y, b):
    return [i for i, ch in enumerate(f"{x:04b}") if ch == "1"], f"{x:04b}".index("1") if x else -1, f"{x:04b}".count("1")
def f_translate(x, y, b):
    return "a.b".translate(str.maketrans(".", "_")), chr(65 + y), ord("A") + x, bytes([65 + y]).decode("ascii")
def f_latin(x, y, b):
    return bytes([32 + x]).decode("latin-1"), "".join(chr(c) for c in bytes([65 + y, 66])), "".join(map(chr, [65, 66 + y])), str(bytes([65, 66]), "ascii")
def f_re(x, y, b):
    m = re.match(r"(\w+)-(\d+)", "abc-12"); return m.group(1), m.groups(), re.sub(r"\d", "#", "a1b2"), re.split(r"[,;]", "a,b;c"), bool(re.search("z", "abc"))
def f_operator(x, y, b):
    return operator.itemgetter(1)([x, y]), operator.attrgetter("real")(3), operator.add(x, y)
def f_ziplongest(x, y, b):
    return list(zip_longest([x, y], [1], fillvalue=0)), list(zip(*[[x, 1], [y, 2]]))
def f_sentinel(x, y, b):
    S = object(); v = S if x > 4 else y; return v is S
def f_del(x, y, b):
    d = {"a": x, "b": y}; del d["a"]; d.update(c=1); d |= {"e": 2}; d.pop("zz", None); return d, list(d.items()), list(d.values())[0]
def f_while_true(x, y, b):
    i = 0
    while True:
        i += 1
        if i >= x: break
        if i > 5: continue
    return i
def f_strcmp(x, y, b):
    return "abc" < "abd", str(x) == "7", str(x) in ("1", "2", "12"), f"{x}" < "5"
def f_intstr(x, y, b):
    return int(str(x) + str(y)), str(x).isdigit(), int("0x1f", 16), str(x).zfill(3), str(x).ljust(4, "."), len(str(x))
def f_path(x, y, b):
    return os.path.join("a", f"m{x}"), os.path.splitext("a.b.c")[0], os.path.basename("q/w.e"), os.path.dirname("q/w.e")
def f_late(x, y, b):
    fs = [lambda i=i: i + x for i in range(3)]; return [f() for f in fs]
def f_annot(x: int, y: "int", b: bytes) -> typing.List[int]:
    z: int = x; w: typing.Optional[int]; return [z]
def f_unpackloop(x, y, b):
    t = 0
    for (a, c), d in [((x, 1), 2), ((y, 3), 4)]:
        t += a * c + d
    return t
def f_dictcomp(x, y, b):
    d = {k: v for k, v in zip("abc", (x, y, 1))}; e = dict(zip("ab", (1, 2))); return d, max(e, key=e.get), dict([("a", x)]), dict(a=y), dict.fromkeys("ab", 0)
def f_condlist(x, y, b):
    l = []
    if x & 1: l.append("a")
    if x & 2: l += ["b"]
    if y: l = l + ["c"]
    return len(l), l, ",".join(l), l[0] if l else None, l[-1:] 
def f_condlistidx(x, y, b):
    l = [i for i in range(4) if x >> i & 1]
    return [l[k] * 2 for k in range(len(l))], sum(l), max(l, default=-1), bool(l), list(enumerate(l)), l[::-1], list(zip(l, range(10, 20)))
def f_condpop(x, y, b):
    l = [i for i in range(3) if x >> i & 1]; r = []
    while l:
        r.append(l.pop(0))
    return r
def f_sliceint(x, y, b):
    return b[y & 1:], [1, 2, 3, 4][: y], "abcdef"[y:], b"abcdefgh"[x & 3 : (x & 3) + 2]
def f_range(x, y, b):
    return list(range(x)), len(range(y)), sum(range(1, y + 1)), [i for i in range(y, 0, -2)]
