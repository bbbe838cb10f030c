"""C01-C05: CRC acceptance, framing, resynchronisation, chunking, bit fields."""

from .base import *
from .conv import *
from . import msgs

# --- reference framing (abstract) -----------------------------------------------------


def elem_bits(e):
    """MSB-first 8 nodes of a byte"""
    if isinstance(e, int):
        return U(e, 8)
    bb, _ = V.to_bits(e)
    return list(reversed((bb + [0] * 8)[:8]))


def crc_ok(elems):
    """node: last three bytes are the CRC-24Q of the others"""
    reg = crc24_sym(elems[:-3])
    a = V.from_bits(list(reversed(reg)))
    g = []
    for e in elems[-3:]:
        g += elem_bits(e)
    b = V.from_bits(list(reversed(g)))
    return V.num_eq(a, b)


def reference(elems):
    """[(guard, start, end)] of the frames of the stream, by the greedy rule,
    and the guards of the gap count [(guard)]"""
    n = len(elems)
    bits = [elem_bits(e) for e in elems]
    at = [0] * (n + 1)  # scanning position, no pending gap since last frame
    at[0] = 1
    out = []
    state = {(0, "init"): 1}  # (pos, flag): flag in init/clean/gap
    cur = [dict() for _ in range(n + 1)]
    cur[0]["init"] = 1
    gaps = []
    for p in range(n):
        st = cur[p]
        if not st:
            continue
        allg = 0
        for g in st.values():
            allg = bdd.disj(allg, g)
        sync = eqconst(bits[p], 0xD3)
        if p + 1 < n:
            sync = bdd.conj(sync, eqconst(bits[p + 1][:6], 0))
        nosync = bdd.diff(allg, sync)
        acc = 0
        wait = 0
        h = bdd.conj(allg, sync)
        if h:
            if n - p < 6:
                wait = h
            else:
                Lb = bits[p + 1][6:] + bits[p + 2]
                Lv = unsigned(Lb)
                vals = [(h, Lv)] if isinstance(Lv, int) else V.enum_values(Lv, h)
                for g, L in vals:
                    if p + L + 6 > n:
                        wait = bdd.disj(wait, g)
                        continue
                    fr = elems[p : p + L + 6]
                    fr = [0xD3, (L >> 8), L & 255] + list(fr[3:])
                    ok = bdd.conj(g, crc_ok(fr))
                    if ok:
                        out.append((ok, p, p + L + 6))
                        acc = bdd.disj(acc, ok)
                        for f, fg in st.items():
                            x = bdd.conj(fg, ok)
                            if x:
                                if f == "gap":
                                    gaps.append(x)
                                e = p + L + 6
                                cur[e]["clean"] = bdd.disj(cur[e].get("clean", 0), x)
        skip = bdd.diff(bdd.diff(allg, acc), wait)
        for f, fg in st.items():
            x = bdd.conj(fg, skip)
            if x:
                nf = "init" if f == "init" else "gap"
                cur[p + 1][nf] = bdd.disj(cur[p + 1].get(nf, 0), x)
    return out, gaps


def subseq(a, b):
    """a is a subsequence of b (structural byte keys)"""
    it_ = iter(b)
    return all(any(x == y for y in it_) for x in a)


def emitted(v, g):
    """[(guard, frame)] of a returned list"""
    out = []
    for h, x in V.alts(v):
        h = bdd.conj(h, g)
        if not h:
            continue
        items = list_items(x)
        if items is None:
            raise Undecided("parse_bytes() did not return a list")
        for k, f in items:
            k = bdd.conj(h, k)
            for hh, ff in V.alts(f):
                kk = bdd.conj(k, hh)
                if kk:
                    out.append((kk, ff))
    return out


def fkey(f, c):
    """identity of a frame's bytes within a cell"""
    return tuple(V.key(under(x, c) if not isinstance(x, int) else x) for x in V.belems(f))


def feed_chunks(cv, chunks):
    out = []
    for ch in chunks:
        v = cv.parse(ch)
        out += emitted(v, cv.it.pc)
    return out


def cut(elems, sizes):
    out, p = [], 0
    for s in sizes:
        out.append(V.mkbytes(elems[p : p + s]))
        p += s
    if p < len(elems):
        out.append(V.mkbytes(elems[p:]))
    return out


def cellsplit(guards):
    cells = [1]
    for h in dict.fromkeys(guards):
        nxt = []
        for c in cells:
            for k in (bdd.conj(c, h), bdd.diff(c, h)):
                if k:
                    nxt.append(k)
        cells = nxt
        if len(cells) > 1500:
            raise Undecided("too many framing cases")
    return cells


def compare_frames(ctx, got, want, prop, where):
    """cell-wise comparison of emitted frames"""
    for c in cellsplit([g for g, _ in got] + [g for g, _ in want]):
        a = [f for g, f in got if bdd.conj(g, c)]
        b = [f for g, f in want if bdd.conj(g, c)]
        ka, kb = [fkey(f, c) for f in a], [fkey(f, c) for f in b]
        if ka == kb:
            ctx.ok()
            continue
        if len(ka) == len(kb) and all(len(x) == len(y) for x, y in zip(ka, kb)):
            for x, y in zip(a, b):
                ctx.same("frame bytes", x, y, c, where)
            continue
        sh = lambda l: [f"{len(V.belems(f))} bytes" for f in l]
        if not subseq(ka, kb) and "extra" in prop:
            ctx.fail("only genuine frames are emitted", f"emitted {sh(a)}, genuine frames {sh(b)}", c, where)
        elif not subseq(kb, ka) and "missing" in prop:
            ctx.fail("every genuine frame is emitted", f"emitted {sh(a)}, genuine frames {sh(b)}", c, where)
        else:
            ctx.ok()


WHERE = "DecoderTop (byte stream -> frames)"
FOCUS = {"C01": ("extra", "missing"), "C02": ("extra",), "C03": ("missing",), "C04": ("extra", "missing")}


def stream(ctx, spec):
    """build the abstract stream from a spec list:
    ("s", n)            n symbolic bytes
    ("b", hex)          literal bytes
    ("f", spec, ...)    valid frame around the payload spec
    ("c", i, spec...)   valid frame with byte i xored by a symbolic non-zero error
    """
    cnt = [0]
    assume = [1]

    def sym(n):
        cnt[0] += 1
        return bits_to_bytes(S(f"s{cnt[0]}", 8 * n))

    def build(parts):
        out = []
        for p in parts:
            k = p[0]
            if k == "s":
                out += sym(p[1])
            elif k == "e":  # symbolic bytes that cannot be a preamble
                cnt[0] += 1
                b = S(f"e{cnt[0]}", 7 * p[1])
                for i in range(p[1]):
                    x = b[7 * i : 7 * i + 7]
                    out.append(V.from_bits(list(reversed((x + [0]) if p[2] else ([0] + x)))))
            elif k == "b":
                out += list(bytes.fromhex(p[1]))
            elif k == "z":
                out += [p[2]] * p[1]
            elif k == "f":
                out += list(V.belems(with_crc(build(p[1:]))))
            elif k == "c":
                fr = list(V.belems(with_crc(build(p[2:]))))
                cnt[0] += 1
                e = S(f"err{cnt[0]}", 8)
                x = [bdd.xor(a, b) for a, b in zip(elem_bits(fr[p[1]]), e)]
                fr[p[1]] = V.from_bits(list(reversed(x)))
                nz = 0
                for b in e:
                    nz = bdd.disj(nz, b)
                assume[0] = bdd.conj(assume[0], nz)
                out += fr
            elif k == "t":  # truncated frame: first p[1] bytes
                out += list(V.belems(with_crc(build(p[2:]))))[: p[1]]
            elif k == "crcfree":  # frame with free CRC bytes
                pl = build(p[1:])
                out += [0xD3, len(pl) >> 8, len(pl) & 255] + pl + sym(3)
            elif k == "crcval":  # concrete frame with wrong CRC
                fr = list(V.belems(with_crc(build(p[2:]))))
                fr[-1] ^= p[1]
                out += fr
        return out

    el = build(spec)
    return el, assume[0]


def frames(ctx, spec, chunks):
    """stream per spec, cut per chunks; compare with the reference framing"""
    el, assume = stream(ctx, spec)
    ctx.inputs = {"stream": V.mkbytes(el)}
    cv = Conv(ctx, "JSON")
    cv.it.pc = assume
    got = feed_chunks(cv, cut(el, chunks))
    want, gaps = reference(el)
    want = [(bdd.conj(g, assume), V.mkbytes(el[a:b])) for g, a, b in want]
    want = [x for x in want if x[0]]
    compare_frames(ctx, got, want, FOCUS[ctx.prop], WHERE)
    if ctx.prop == "C04":
        st = cv.stats()
        exp = gsum([bdd.conj(g, assume) for g in gaps])
        ctx.same("parsing_errors = number of interruptions", st["parsing_errors"], exp, assume, WHERE)


def framescuts(ctx, spec, cuts):
    for c in cuts:
        frames(ctx, spec, c)


def lengths(ctx, lo, hi):
    for n in range(lo, hi):
        frames(ctx, [("crcfree", ("z", n - 3, 0x5A), ("e", 3, 1))], [])


def chunked(ctx, spec, cuts):
    """the same stream in one chunk and in the given cuts"""
    el, assume = stream(ctx, spec)
    ctx.inputs = {"stream": V.mkbytes(el)}
    ref = Conv(ctx, "JSON")
    ref.it.pc = assume
    a = feed_chunks(ref, cut(el, []))
    sa = ref.stats()
    for sizes in cuts:
        cv = Conv(ctx, "JSON")
        cv.it.pc = assume
        b = feed_chunks(cv, cut(el, sizes))
        n0 = len(ctx.violations)
        compare_frames(ctx, b, a, ("extra", "missing"), WHERE)
        st = cv.stats()
        ctx.same(f"parsing_errors for chunk sizes {sizes}", st["parsing_errors"], sa["parsing_errors"], assume, WHERE)
        if len(ctx.violations) > n0:
            for v in ctx.violations[n0:]:
                v["chunks"] = sizes


# --- scenarios --------------------------------------------------------------------------


def c01(tier):
    out = []
    for n in (0, 1, 2, 3, 4, 5, 6) if tier == "quick" else range(0, 8):
        out.append((f"crc-free payload {n}", "frames", ([("crcfree", ("s", n))], [])))
    big = (8, 16, 24) if tier == "quick" else (8, 12, 16, 20, 24, 32, 40)
    for n in big:
        for low in (0, 1):
            out.append((f"crc-free payload {n}/{low}", "frames", ([("crcfree", ("e", n, low))], [])))
    # every payload length, the last bytes of the payload and the parity symbolic
    for lo in range(3, 1024, 8):
        out.append((f"crc-free payloads {lo}..{min(lo + 7, 1023)} tail window", "lengths", (lo, min(lo + 8, 1024))))
    longs = (64, 253, 254, 255, 256, 257, 511, 512, 513, 767, 1020, 1021, 1022, 1023)
    for n in longs if tier == "thorough" else (256, 1023):
        for w in (0, n // 2):
            out.append(
                (f"crc-free payload {n} window {w}", "frames",
                 ([("crcfree", ("z", w, 0x5A), ("e", 3, 1), ("z", n - 3 - w, 0xA5))], []))
            )
    for i in range(0, 10):
        out.append((f"single corrupted byte {i}", "frames", ([("c", i, ("b", "3ed00103")), ("f", ("b", "fff0"))], [])))
    out.append(("two frames", "frames", ([("f", ("s", 2)), ("f", ("e", 3, 1))], [])))
    return out


MIX = [
    ("lone frame", [("f", ("s", 2))]),
    ("frame frame", [("f", ("s", 1)), ("f", ("e", 3, 1))]),
    ("frame gap1 frame", [("f", ("b", "3ed0")), ("s", 1), ("f", ("b", "fff0"))]),
    ("frame gap2 frame", [("f", ("b", "3ed0")), ("s", 2), ("f", ("b", "fff0"))]),
    ("frame gap3 frame", [("f", ("b", "3ed0")), ("s", 3), ("f", ("b", "fff0"))]),
    ("gap frame", [("s", 2), ("f", ("b", "3ed0"))]),
    ("gap frame gap", [("s", 1), ("f", ("b", "3ed0")), ("s", 2)]),
    ("empty frames", [("f",), ("f",), ("f",)]),
    ("D3 D3 frame", [("b", "d3"), ("f", ("s", 1)), ("b", "d3d3"), ("f", ("s", 1))]),
    ("false header frame", [("f", ("b", "3e")), ("b", "d300"), ("f", ("s", 1))]),
    ("false header len", [("f", ("b", "3e")), ("b", "d30002"), ("f", ("s", 1)), ("f", ("b", "fe"))]),
    ("frame inside bad frame", [("f", ("b", "3e")), ("crcval", 1, ("b", "01"), ("f", ("s", 1)), ("b", "02"))]),
    ("frame inside good frame", [("f", ("b", "01"), ("f", ("b", "fff0")), ("b", "02")), ("f", ("s", 1))]),
    ("truncated then frame", [("f", ("b", "3e")), ("t", 7, ("b", "01020304")), ("f", ("s", 1)), ("f", ("b", "fe"))]),
    ("truncated inside header", [("f", ("b", "3e")), ("t", 2, ("b", "0102")), ("f", ("s", 1)), ("f", ("b", "fe"))]),
    ("two gaps", [("f", ("b", "3e")), ("e", 1, 1), ("f", ("s", 1)), ("e", 2, 1), ("f", ("b", "fe")), ("f", ("b", "fd"))]),
    ("gap of D3", [("f", ("b", "3e")), ("b", "d3d3d3"), ("f", ("b", "fe")), ("b", "d3"), ("f", ("b", "fd"))]),
    ("reserved bits set", [("f", ("b", "3e")), ("b", "d30400"), ("e", 3, 1), ("f", ("b", "fe"))]),
    ("D3 payload", [("f", ("b", "d3d3d3d30000d3")), ("f", ("b", "d3"))]),
    ("D3 crc tail", [("f", ("s", 1)), ("b", "d3")]),
    ("corrupt length", [("c", 2, ("b", "0102")), ("f", ("b", "fe"))]),
    ("corrupt length hi", [("c", 1, ("b", "0102")), ("f", ("b", "fe"))]),
    ("corrupt preamble", [("f", ("b", "3e")), ("c", 0, ("b", "0102")), ("f", ("b", "fe"))]),
    ("corrupt payload", [("f", ("b", "3e")), ("c", 3, ("b", "0102")), ("f", ("b", "fe"))]),
    ("corrupt crc", [("f", ("b", "3e")), ("c", 6, ("b", "0102")), ("f", ("b", "fe"))]),
    ("corrupt first and third", [("c", 3, ("b", "0102")), ("f", ("b", "fe")), ("c", 4, ("b", "0102")), ("f", ("b", "fd"))]),
]
for _n in (253, 255, 256, 257, 511, 512, 768, 1017, 1018, 1022, 1023):
    MIX.append((f"long {_n}", [("f", ("z", _n - 1, 0xD3), ("e", 1, 1)), ("f", ("b", "fe"))]))
for _n in (250, 1018, 1019, 1020, 1021, 1022, 1023):
    MIX.append((f"long lone {_n}", [("f", ("z", _n - 1, 0x00), ("e", 1, 1))]))
MIX.append(("long bad then frames", [("f", ("b", "3e")), ("crcval", 4, ("z", 60, 0x11)), ("f", ("z", 30, 0)), ("f", ("b", "fe"))]))
MIX.append(("1023 bad hiding frames", [("crcval", 128, ("z", 1000, 0x00), ("f", ("b", "3ed0")), ("z", 15, 7)), ("f", ("b", "fe"))]))
MIX.append(("long run of equal frames", [("f", ("b", "3ed0"))] * 150))
MIX.append(("long run of frames", [("f", ("b", "%04x" % (0x3E00 + 7 * i))) for i in range(150)]))
MIX.append(("long run of empty frames", [("f",)] * 150))
MIX.append(("long garbage", [("f", ("b", "3e")), ("z", 5000, 0x00), ("f", ("b", "fe"))]))
MIX.append(("long garbage of D3", [("f", ("b", "3e")), ("z", 300, 0xD3), ("f", ("b", "fe"))]))

for _n in (40, 120, 255, 256, 400, 601, 900, 1023):
    _k = min(15, _n - 20)
    MIX.append((f"long bad {_n} hiding a frame, synchronised", [("f", ("b", "3e")), ("crcval", 128, ("z", _n - 8 - _k, 0x00), ("f", ("b", "3ed0")), ("z", _k, 7)), ("f", ("b", "fe")), ("f", ("b", "fd"))]))
    MIX.append((f"long {_n} gap frame", [("f", ("z", _n, 0x5A)), ("e", 1, 1), ("f", ("b", "fe")), ("b", "00"), ("f", ("z", _n, 0xA5))]))
for _n in range(0, 12):
    MIX.append((f"frame of {_n} gap frame of {_n} gap frame", [("f", ("z", _n, 0x3E)), ("e", 1, 1), ("f", ("z", _n, 0x5A)), ("e", 1, 1), ("f", ("b", "fe"))]))
MIX.append(("gap empty frame gap empty frame frame", [("e", 1, 1), ("f",), ("e", 1, 1), ("f",), ("f", ("b", "fe"))]))
MIX.append(("frame empty frame gap frame gap empty frame", [("f", ("b", "3e")), ("f",), ("e", 1, 1), ("f", ("b", "fe")), ("b", "d3"), ("f",)]))
MIX.append(("many gaps", [x for i in range(12) for x in (("f", ("b", "%04x" % (0x3E00 + 7 * i))), ("b", "00" * (i % 3)))]))
MIX.append(("huge run of empty frames", [("f",)] * 3000))
MIX.append(("huge run of frames", [("f", ("b", "%04x" % (0x3E00 + i))) for i in range(1100)]))
MIX.append(("huge number of gaps", [x for i in range(300) for x in (("f", ("b", "%04x" % (0x3E00 + 7 * i))), ("b", "00"))]))
MIX.append(("huge garbage", [("f", ("b", "3e")), ("z", 70000, 0x00), ("f", ("b", "fe")), ("z", 3000, 0x47), ("f",)]))
MIX.append(("huge frames", [x for i in range(70) for x in [("f", ("z", 1017 - i, 0x11 + i))] + [("b", "00")] * (i % 5 == 2)]))


def pool(tier):
    out = []
    for n in range(1, 10 if tier == "quick" else 11):
        out.append((f"{n} arbitrary bytes", "frames", ([("s", n)], [])))
    for name, spec in MIX:
        out.append((name, "frames", (spec, [])))
    # preceded by a good frame: the scanner is synchronised
    for n in (6, 7, 8) if tier == "quick" else (6, 7, 8, 9, 10):
        out.append((f"frame + {n} arbitrary bytes", "frames", ([("f", ("b", "3e")), ("s", n)], [])))
    return out


def small(name):
    return not name.startswith(("long", "1023", "huge"))


def chunkpool(tier, kind):
    """cuts of the pool: kind 'frames' (against the reference) or 'chunked'"""
    out = []
    for name, spec in MIX:
        if small(name):
            if kind == "frames":
                out.append((f"{name} | byte by byte", "frames", (spec, [1] * 40)))
                out.append((f"{name} | 2s", "frames", (spec, [2] * 20)))
                out.append((f"{name} | 5+7", "frames", (spec, [5, 7])))
            else:
                n = 26
                cuts = [[1] * 60, [2] * 30, [3] * 20, [7] * 9] + [[k] for k in range(1, n)]
                if tier == "thorough":
                    cuts += [[k, j] for k in range(1, 16) for j in range(1, 12, 2)]
                for i in range(0, len(cuts), 8):
                    out.append((f"{name} | cuts {i}", "chunked", (spec, cuts[i : i + 8])))
        elif name.startswith("long lone") and kind == "frames":
            n = int(name.split()[-1])
            out.append((f"{name} | all but the end", "framescuts", (spec, [[n + 6 - k] for k in range(1, 7)] + [[n + 1, 2, 2]])))
        elif name.startswith("huge") and kind == "frames":
            out.append((f"{name} | blocks", "frames", (spec, [4096] * 20)))
        elif name.startswith("long") and kind == "chunked":
            out.append((f"{name} | cuts", "chunked", (spec, [[1], [2], [5], [255], [256, 1], [500, 500], [1023], [1028], [1029]])))
    for n in (6, 7, 8):
        if kind == "frames":
            out.append((f"{n} arbitrary bytes | byte by byte", "frames", ([("s", n)], [1] * n)))
        else:
            out.append((f"{n} arbitrary bytes | cuts", "chunked", ([("s", n)], [[k] for k in range(1, n)] + [[1] * n])))
    # empty chunks
    if kind == "chunked":
        out.append(("empty chunks", "chunked", ([("f", ("s", 1)), ("e", 1, 1), ("f", ("b", "fe"))], [[0, 3, 0, 4, 0], [0, 0, 20]])))
    return out


def scenarios(prop, tier):
    if prop == "C01":
        return c01(tier)
    if prop in ("C02", "C03"):
        return pool(tier) + chunkpool(tier, "frames") + (c01(tier)[:8] if prop == "C02" else c01(tier)[-14:])
    if prop == "C04":
        return pool(tier) + chunkpool(tier, "chunked")
    if prop == "C05":
        return c05(tier)


# --- C05 bit fields ----------------------------------------------------------------------


def bits_at(ctx, lo, hi, size):
    """getbitu/getbits at every position and width; revbitu/revbits"""
    it, W = ctx.interp()
    Bits = attr(it, it.get_module("utilities"), "Bits")
    gu, gs = attr(it, Bits, "getbitu"), attr(it, Bits, "getbits")
    allbits = S("buf", 8 * size)
    buf = V.mkbytes(bits_to_bytes(allbits))
    ctx.inputs = {"buf": buf}
    for pos in range(lo, hi):
        for n in range(1, 129):
            for fn, f, dec in (("unsigned", gu, unsigned), ("signed", gs, signed)):
                v, pc, ex = run(it, f, buf, pos, n)
                lab = f"{fn} field at bit {pos} width {n} of {size} bytes"
                if pos + n <= 8 * size:
                    if ex:
                        ctx.fail(lab, f"rejected: {ex[0]!r}", ex[0].g, ex[0].site)
                    else:
                        ctx.same(lab, v, dec(allbits[pos : pos + n]), 1, "utilities/bits.py Bits")
                else:
                    ctx.holds(lab, bdd.neg(pc), 1, "reading past the end of the buffer is not rejected", "utilities/bits.py Bits")


def bits_bad(ctx):
    it, W = ctx.interp()
    Bits = attr(it, it.get_module("utilities"), "Bits")
    buf = V.mkbytes(bits_to_bytes(S("buf", 8 * 40)))
    ctx.inputs = {"buf": buf}
    for fn in ("getbitu", "getbits"):
        f = attr(it, Bits, fn)
        for pos, n in ((0, 0), (0, -1), (5, -8), (0, 129), (0, 200), (-1, 8), (-8, 8), (-320, 4), (320, 1), (319, 2), (1000, 3)):
            v, pc, ex = run(it, f, buf, pos, n)
            ctx.holds(f"{fn}(pos={pos}, width={n}) rejected", bdd.neg(pc), 1, f"returns {V.show(v)[:80]}", "utilities/bits.py Bits")


def bits_rev(ctx):
    it, W = ctx.interp()
    Bits = attr(it, it.get_module("utilities"), "Bits")
    b = S("a", 128)
    a = unsigned(b)
    ctx.inputs = {"a": V.mkbytes(bits_to_bytes(b))}
    lsb = list(reversed(b))
    for n in list(range(1, 40)) + [63, 64, 65, 96, 127, 128]:
        for ofs in (0, 1, 7, 30, 63, 64, 88, 99, 100, 101, 120, 127):
            if n + ofs > 128:
                continue
            src = lsb[ofs : ofs + n]  # bit ofs first
            for fn, dec in (("revbitu", unsigned), ("revbits", signed)):
                v, pc, ex = run(it, attr(it, Bits, fn), a, n, ofs)
                ctx.holds(f"{fn} width {n} ofs {ofs} accepted", pc, 1, f"rejected {ex}")
                ctx.same(f"{fn} width {n} ofs {ofs}", v, dec(src), 1, "utilities/bits.py Bits")


def message_fields(ctx, desc):
    """fields of a whole message: sign-magnitude fields exist in 1020 only"""
    from . import c_dec

    c_dec.records(ctx, "JSON-B", desc)


def c05(tier):
    out = [
        ("fields of 1020 (sign-magnitude)", "message_fields", ([("eph", 1020)],)),
        ("fields of 1019", "message_fields", ([("eph", 1019)],)),
        ("fields of 1006", "message_fields", ([("ref", 1006)],)),
    ]
    for a in range(0, 32, 2):
        out.append((f"positions {a}..{a + 1} of 20 bytes", "bits_at", (a, a + 2, 20)))
    out.append(("positions of 3 bytes", "bits_at", (0, 26, 3)))
    out.append(("positions of 14 bytes", "bits_at", (0, 18, 14)))
    out.append(("positions of 1 byte", "bits_at", (0, 10, 1)))
    out.append(("late positions of 40 bytes", "bits_at", (250, 256 if tier == "quick" else 272, 40)))
    for a in (1022, 2045, 4093, 8056, 8120, 8180):
        out.append((f"positions {a}..{a + 4} of 1023 bytes", "bits_at", (a, a + 5, 1023)))
    if tier == "thorough":
        for a in range(32, 160, 8):
            out.append((f"positions {a}..{a + 7} of 40 bytes", "bits_at", (a, a + 8, 40)))
        out.append(("positions of 128 bytes", "bits_at", (850, 860, 128)))
    out.append(("rejected arguments", "bits_bad", ()))
    out.append(("bit reversal", "bits_rev", ()))
    return out
