"""C06-C16: message decoding, record contents, rejection, statistics."""

from .base import *
from .conv import *
from . import msgs
from .msgs import eph, base_ref, base_ant, base_sys, base_text, base_bias, msm

EPHN = (1019, 1020, 1041, 1042, 1044, 1045, 1046)


def build(d, tag):
    """message from a description tuple"""
    k = d[0]
    kw = dict(d[-1]) if isinstance(d[-1], dict) else {}
    tag = kw.pop("tag", tag)
    a = [x for x in d[1:] if not isinstance(x, dict)]
    f = {"eph": eph, "ref": base_ref, "ant": base_ant, "sys": base_sys, "text": base_text, "bias": base_bias, "msm": msm}[k]
    return f(*a, tag=tag, **kw)


def records(ctx, mode, descs, ctlkw=None):
    seq = [(build(d, f"m{i}"), None) for i, d in enumerate(descs)]
    run_messages(ctx, mode, seq, Ctl(**(ctlkw or {})))


# --- ephemeris ------------------------------------------------------------------------


def eph_scen(modes, tier):
    out = []
    for mode in modes:
        for n in EPHN:
            out.append((f"{mode} {n} twice", "records", (mode, [("eph", n), ("eph", n)])))
            for x in (1, 2, 7):
                out.append((f"{mode} {n} + {x} trailing bytes", "records", (mode, [("eph", n, {"extra": x}), ("eph", n)])))
        out.append((f"{mode} all ephemerides", "records", (mode, [("eph", n) for n in EPHN] + [("eph", n) for n in reversed(EPHN)])))
        if tier == "thorough":
            for a in EPHN:
                for b in EPHN:
                    if a != b:
                        out.append((f"{mode} {a} {b} {a}", "records", (mode, [("eph", a), ("eph", b), ("eph", a)])))
    return out


# --- base station -----------------------------------------------------------------------


def base_scen(modes, tier):
    out = []
    for mode in modes:
        add = lambda name, descs: out.append((f"{mode} {name}", "records", (mode, descs)))
        for n in (1005, 1006):
            add(f"{n} twice", [("ref", n), ("ref", n)])
        for l in (0, 1, 2, 5, 20, 31, 63, 64, 127, 128, 255):
            add(f"1007 descriptor {l}", [("ant", 1007, [l])])
        for l in ((0, 0), (0, 3), (3, 0), (1, 1), (20, 11), (31, 31), (255, 255), (128, 1), (1, 255)):
            add(f"1008 lengths {l}", [("ant", 1008, list(l))])
        for l in ((0, 0, 0, 0, 0), (1, 2, 3, 4, 5), (5, 0, 4, 0, 3), (0, 1, 0, 1, 0), (20, 10, 31, 31, 31), (0, 0, 0, 0, 2),
                  (0, 0, 9, 0, 0), (200, 200, 200, 200, 200), (255, 1, 255, 1, 255), (7, 7, 7, 7, 7)):
            add(f"1033 lengths {l}", [("ant", 1033, list(l))])
        for ids in ((), (1005,), (1005, 1077), (1004, 1012, 1019, 1020), tuple(range(1071, 1071 + 31)), (0,), (4095, 1, 2048)):
            add(f"1013 {len(ids)} announcements", [("sys", list(ids))])
        for ids in ((1005,), (1005, 1077, 1230), tuple(range(1071, 1071 + 40))):
            add(f"1013 {len(ids)} announcements, Nm unknown", [("sys", list(ids), {"nm": 0})])
        for l in (0, 1, 2, 3, 10, 55, 127, 128, 254, 255):
            add(f"1029 {l} bytes", [("text", l)])
        for mk in range(16):
            add(f"1230 mask {mk}", [("bias", mk)])
        add("1230 different masks", [("bias", 15), ("bias", 0), ("bias", 5), ("bias", 10)])
        add("all base messages", [("ref", 1005), ("ref", 1006), ("ant", 1007, [3]), ("ant", 1008, [2, 3]), ("sys", [1005]),
                                  ("text", 4), ("ant", 1033, [1, 2, 3, 1, 2]), ("bias", 9), ("ref", 1005), ("text", 2)])
        if tier == "thorough":
            for l in range(0, 256, 3):
                add(f"1007 descriptor {l}", [("ant", 1007, [l])])
                add(f"1029 {l} bytes", [("text", l)])
                add(f"1008 lengths {l}", [("ant", 1008, [l, (l * 7) % 256])])
            for n in range(0, 32):
                add(f"1013 {n} announcements", [("sys", list(range(1001, 1001 + n)))])
    return out


# --- MSM ------------------------------------------------------------------------------

MSMN = tuple(10 * g + k for g in msgs.GNSS.values() for k in range(1, 8))


def sup(num):
    return sorted(msgs.SIGNALS[msgs.GNSS_OF[num // 10]])


def msm_shapes(num, tier):
    """[(name, sats, sgns, cells)]: partition by the mask structure"""
    sg = sup(num)
    a, z = sg[0], sg[-1]
    two = [a, z]
    out = [
        ("1 cell", [1], [a], None),
        ("last satellite", [64], [z], None),
        ("2x2", [3, 14], two, None),
        ("2x2 three cells", [3, 14], two, {(3, a), (3, z), (14, z)}),
        ("2x2 diagonal", [2, 5], two, {(2, z), (5, a)}),
        ("empty", [], [], None),
        ("no satellites, signals set", [], two, None),
    ]
    allg = sg[: 64 // 3] if len(sg) * 3 > 64 else sg
    out.append(("3 satellites, all signals", [1, 4, 5], allg, None))
    out.append(("3 satellites, all signals, sparse", [1, 4, 5], allg,
                {(s, g) for i, s in enumerate([1, 4, 5]) for j, g in enumerate(allg) if (i + j) % 3 != 1 or j == 0}))
    if tier == "thorough":
        out.append(("32x2", list(range(1, 33)), two, None))
        out.append(("64x1", list(range(1, 65)), [z], None))
        out.append(("16x4 sparse", list(range(1, 65, 4)), sg[:4], {(s, g) for s in range(1, 65, 4) for g in sg[:4] if (s + g) % 3}))
        out.append(("row of empty cells", [3, 9, 20], two, {(3, a), (20, z)}))
    return out


def msm_scen(modes, tier, nums=MSMN):
    out = []
    for mode in modes:
        for n in nums:
            for name, sats, sgns, cells in msm_shapes(n, tier):
                if mode in ("MARGO", "JARGO"):
                    mx = MAX_SATS[msgs.GNSS_OF[n // 10]]
                    f = lambda s: s if s <= mx else mx
                    if len(set(map(f, sats))) != len(sats):
                        continue
                    cells = None if cells is None else {(f(s), g) for s, g in cells}
                    sats = [f(s) for s in sats]
                kw = {"cells": cells}
                if len(sats) * len(sgns) > 8 and mode != "JSON-B":
                    kw["sym"] = sats[1:2]
                out.append((f"{mode} {n} {name}", "records", (mode, [("msm", n, sats, sgns, kw)])))
    return out


def positions(modes, tier):
    """every satellite and signal position"""
    out = []
    for mode in modes:
        for n in (1077, 1084, 1097, 1123, 1071, 1132) if tier == "thorough" else (1077, 1123):
            z = sup(n)[-1]
            for s in range(1, 65):
                out.append((f"{mode} {n} satellite {s}", "records", (mode, [("msm", n, [s], [z])])))
        for n in (1077, 1087, 1097, 1107, 1117, 1127, 1137, 1072):
            sg = range(1, 33) if mode == "JSON-B" else sup(n)
            for g in sg:
                out.append((f"{mode} {n} signal {g}", "records", (mode, [("msm", n, [2, 63], [g])])))
    return out


def many(modes, tier):
    out = []
    for mode in modes:
        for n in (1077, 1075, 1074, 1073) if tier == "quick" else (1071, 1072, 1073, 1074, 1075, 1076, 1077, 1087, 1127):
            a, z = sup(n)[0], sup(n)[-1]
            kw = {} if mode == "JSON-B" else {"sym": [31]}
            out.append((f"{mode} {n} 32x2", "records", (mode, [("msm", n, list(range(1, 33)), [a, z], kw)])))
            out.append((f"{mode} {n} 64x1", "records", (mode, [("msm", n, list(range(1, 65)), [z], kw)])))
            out.append((f"{mode} {n} two messages", "records",
                        (mode, [("msm", n, [2, 7], [a, z]), ("msm", n, [7], [z])])))
            if n % 10 in (5, 7):
                kw = {} if mode == "JSON-B" else {"sym": [29]}
                out.append((f"{mode} {n} 16x4", "records", (mode, [("msm", n, list(range(1, 65, 4)), sup(n)[:4], kw)])))
    return out


def cellcounts(modes, tier):
    """every number of cells, for every subset: full masks and masks with one hole"""
    out = []
    for mode in modes:
        for k in range(1, 8):
            for b in (107, 108) if tier == "thorough" else (107,):
                n = 10 * b + k
                a, z = sup(n)[0], sup(n)[-1]
                C = {"sym": [], "hdrsym": False}
                ds = [("msm", n, list(range(1, c + 1)), [z], C) for c in range(1, 65)]
                ds += [("msm", n, list(range(1, c + 1)), [a, z], C) for c in range(1, 33)]
                for c in range(1, 33):
                    ds.append(("msm", n, list(range(1, c + 1)), [a, z], {"sym": [], "hdrsym": False, "cells": {(s, g) for s in range(1, c + 1) for g in (a, z)} - {(c, a)}}))
                for i in range(0, len(ds), 16):
                    out.append((f"{mode} {n} cell counts {i}..", "records", (mode, ds[i : i + 16])))
    return out


def errorruns(modes, tier):
    """long runs of rejected, unhandled and good messages"""
    out = []
    C = {"sym": [], "hdrsym": False}
    for mode in modes:
        ok = ("msm", 1077, [3], [2], C)
        bad = ("msm", 1077, [3], [2], dict(C, cut=1))
        long = 110 if tier == "quick" else 300
        seqs = [("many rejected, then good", [bad] * long + [ok, ok]), ("good among rejected", ([bad] * 7 + [ok]) * 6),
                ("many good, then rejected, then good", [ok] * long + [bad] * 3 + [ok])]
        if mode != "MARGO":
            r, b = ("ref", 1005), ("ref", 1005, {"cut": 1})
            seqs.append(("hundreds of messages", [r] * 258 + [b] * 30 + [r, b, r] * 4))
            seqs.append(("one rejected, then hundreds", [b] + [r] * 260))
            seqs.append(("hundreds of mixed messages", [r, b, r, r, b, b, r] * 40))
            seqs.append(("hundreds of rejected messages", [b] * 258 + [r] * 3 + [b, r] * 3))
            for d in (("ref", 1005), ("eph", 1019), ("text", 3), ("bias", 5), ("ant", 1008, [1, 1]), ("sys", [1005])):
                b = d + ({"cut": 1},) if d[0] != "eph" else d + ({"cut": 3},)
                seqs.append((f"{d[0]} rejected again and again", [b] * 12 + [d, b, d, ok]))
        for nm, d in seqs:
            out.append((f"{mode} {nm}", "records", (mode, d)))
    return out


# --- signals ---------------------------------------------------------------------------


def signal_scen(modes, tier):
    out = []
    for mode in modes:
        for gn, base_ in msgs.GNSS.items():
            ks = (1, 4, 7) if tier == "quick" else range(1, 8)
            for k in ks:
                n = 10 * base_ + k
                for g in range(1, 33):
                    ok = g in msgs.SIGNALS[gn]
                    if not ok and mode == "JARGO":
                        continue
                    d = [("msm", n, [1, 2], [g], {"sym": [2]})]
                    if not ok:
                        d.append(("msm", n, [3], sup(n)[:1], {"sym": []}))
                    out.append((f"{mode} {n} signal {g}{'' if ok else ' (unassigned)'}", "records", (mode, d)))
                sg = sup(n)
                out.append((f"{mode} {n} all signals", "records", (mode, [("msm", n, [1, 2], sg, {"sym": []})])))
                bad = next(g for g in range(1, 33) if g not in sg)
                out.append((f"{mode} {n} assigned and unassigned", "records",
                            (mode, [("msm", n, [1, 2], [sg[0], bad], {"sym": [1]}), ("msm", n, [1], [sg[-1]], {"sym": [1]})])))
    return out


# --- rejection ---------------------------------------------------------------------------


def reject_scen(modes, tier):
    out = []
    for mode in modes:
        add = lambda name, descs: out.append((f"{mode} {name}", "records", (mode, descs)))
        if mode != "MARGO":
            for n in EPHN:
                full = (msgs.EPH_BITS[n] + 7) // 8
                cuts = range(1, full - 1) if tier == "thorough" else sorted({1, 2, 3, 7, full // 2, full - 5, full - 2})
                for c in cuts:
                    add(f"{n} short by {c}", [("eph", n, {"cut": c}), ("eph", n)])
            for d in (("ref", 1005), ("ref", 1006), ("ant", 1007, [4]), ("ant", 1008, [4, 3]), ("ant", 1033, [2, 3, 1, 4, 2]),
                      ("text", 5), ("sys", [1005, 1006]), ("bias", 11), ("bias", 0), ("ant", 1007, [0]), ("text", 0), ("ant", 1033, [0] * 5)):
                good = d + ({},)
                nb = len(build(good, "x").payload)
                cuts = range(1, nb - 1) if tier == "thorough" else sorted({1, 2, 3, nb // 2, nb - 2} & set(range(1, nb - 1)))
                for c in cuts:
                    add(f"{d[:-1] if d[0] == 'ant' else d} {d[-1]} short by {c}", [d + ({"cut": c},), good])
                for x in (1, 2, 3, 4, 16) if d[0] != "sys" else ():
                    add(f"{d} long by {x}", [d + ({"extra": x},), good])
            for n, ls in ((1007, [3]), (1007, [0]), (1008, [2, 3]), (1033, [1, 2, 0, 1, 1])):
                for i in range(len(ls) - 1, len(ls)):
                    add(f"{n} {ls} declared length {i} free", [("ant", n, ls, {"symlen": i}), ("ant", n, ls, {})])
            add("1029 declared length free", [("text", 4, {"symlen": True}), ("text", 4, {})])
            add("1029 declared length free, empty", [("text", 0, {"symlen": True}), ("text", 4, {})])
        for n in (MSMN if tier == "thorough" else (1071, 1072, 1073, 1074, 1075, 1076, 1077, 1084, 1097, 1121, 1137)):
            a, z = sup(n)[0], sup(n)[-1]
            ok = ("msm", n, [5], [z], {"sym": []})
            nb = len(build(("msm", n, [3, 14], [a, z], {}), "x").payload)
            for c in sorted({1, 2, 4, 9, nb // 2, nb - 15, nb - 22, nb - 20, nb - 2} & set(range(1, nb - 1))):
                add(f"{n} short by {c}", [("msm", n, [3, 14], [a, z], {"cut": c}), ok])
            for x in (1, 2, 3, 6):
                add(f"{n} long by {x}", [("msm", n, [3, 14], [a, z], {"extra": x}), ok])
                add(f"{n} empty long by {x}", [("msm", n, [], [], {"extra": x}), ok])
            add(f"{n} empty short by 1", [("msm", n, [], [], {"cut": 1}), ok])
            add(f"{n} no cells", [("msm", n, [3, 14], [a, z], {"cells": ()}), ok])
            add(f"{n} no signals", [("msm", n, [3, 14], [], {}), ok])
            add(f"{n} 65 cells", [("msm", n, list(range(1, 14)), list(range(1, 6)), {"sym": [], "cells": {(1, 2)}}), ok])
            add(f"{n} 66 cells", [("msm", n, list(range(1, 34)), [a, z], {"sym": [], "cells": {(1, a), (2, z)}}), ok])
            add(f"{n} 2048 cells", [("msm", n, list(range(1, 65)), list(range(1, 33)), {"sym": [], "cells": {(1, a)}}), ok])
    return out


def raw(ctx, mode, num, nbytes):
    """a frame with the given number and arbitrary, too short content"""
    p = bits_to_bytes(U(num, 12) + S("body", 8 * nbytes - 12))
    fr = frame(p)
    good = eph(1020, "g") if mode != "MARGO" else msm(1084, [3], [2], tag="g")
    m = msgs.Msg(num, p, tag="x")
    m.acc = 0
    m.file = "-"
    if num // 10 in msgs.GNSS_OF:
        m.__class__ = RawMsm
    run_messages(ctx, mode, [(m, 0), (good, None)])


class RawMsm(msgs.Msm):
    supported = True
    obs = {"rng": {}, "phs": {}}


SUPPORTED = set(MSMN) | set(EPHN) | {1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230}


def handled_numbers(mode):
    return set(MSMN) if mode == "MARGO" else SUPPORTED


def any_number(ctx, mode, nbytes, twice):
    """short frames with every message number at once"""
    num = S("num", 12)
    p = bits_to_bytes(num + S("body", 8 * nbytes - 12))
    hn = handled_numbers(mode)
    h = 0
    for n in hn:
        h = bdd.disj(h, eqconst(num, n))
    cv = Conv(ctx, mode)
    ctx.inputs = {"message": frame(p)}
    for _ in range(1 + twice):
        v, some = cv.feed(frame(p))
        ctx.holds("yields nothing", bdd.neg(some), 1, "a message without content yields data", "DecoderTop.decode")
    n = 1 + twice
    ctx.same("statistics", cv.stats(), {
        "decoding_attempts": vscale(gsum([h]), n), "parsing_errors": 0, "decoding_errors": vscale(gsum([h]), n),
        "printing_attempts": 0, "printing_errors": 0}, 1, "Converter.get_statistics")
    cv.close()
    for fn, ex in cv.outfiles().items():
        ctx.holds("no output", bdd.neg(ex), 1, f"unexpected file {fn}", "printers")


def foreign(ctx, mode, nums, nbytes):
    """numbers the mode does not handle, arbitrary content; between good ones"""
    good = eph(1020, "g") if mode != "MARGO" else msm(1084, [3], [2], tag="g", sym=[])
    seq = []
    for i, n in enumerate(nums):
        seq.append((frame(bits_to_bytes(U(n, 12) + S(f"b{i}", 8 * nbytes - 12)), name=f"crc{i}"), 0))
    seq.insert(len(seq) // 2, (good, None))
    run_messages(ctx, mode, seq)


def contain_scen(modes, tier):
    out = []
    for mode in modes:
        for nb in (2, 3):
            out.append((f"{mode} every message number, {nb} bytes", "any_number", (mode, nb, nb == 3)))
        hn = sorted(handled_numbers(mode))
        for n in hn if tier == "thorough" or mode == "JSON" else hn[:: 5]:
            lens = (2, 3, 8, 13, 20, 21) if n // 10 in msgs.GNSS_OF else (2, 3) if n >= 1230 else (2, 3, 5, 8) if n != 1029 else (2, 3, 5, 8)
            for nb in lens:
                lim = {1007: 5, 1008: 6, 1033: 8, 1013: 9, 1230: 4, 1029: 9}.get(n, 19)
                if nb < lim or n // 10 in msgs.GNSS_OF:
                    out.append((f"{mode} {n} with {nb} bytes", "raw", (mode, n, nb)))
        other = [n for n in (1, 999, 1001, 1004, 1009, 1012, 1014, 1032, 1043, 1057, 1070, 1078, 1079, 1080, 1088, 1090, 1138, 1140,
                             1229, 1231, 2000, 4095, 0) if n not in hn]
        if mode == "MARGO":
            other += [1005, 1019, 1020, 1033, 1046, 1230, 1029]
        for i in range(0, len(other), 6):
            out.append((f"{mode} unhandled numbers {other[i]}..", "foreign", (mode, other[i : i + 6], 30)))
    return out


def unwritable(ctx, mode, descs):
    """records whose output file or folder cannot be created"""
    run_messages(ctx, mode, [(build(d, f"m{i}"), None) for i, d in enumerate(descs)], faulty=True)


def unwritable_scen(modes):
    out = []
    C = {"sym": [], "hdrsym": False}
    for mode in modes:
        seqs = {"observables": [("msm", 1077, [3], [2], C), ("msm", 1077, [3, 9], [2], C), ("msm", 1084, [4], [2], C), ("msm", 1077, [9], [2], C)]}
        if mode != "MARGO":
            seqs["stations"] = [("ref", 1005), ("ref", 1006), ("ref", 1005), ("bias", 3), ("sys", [1005]), ("text", 2), ("ref", 1006)]
            seqs["ephemerides"] = [("eph", 1019), ("eph", 1020), ("eph", 1019), ("eph", 1042), ("eph", 1020)]
            seqs["rejected between"] = [("ref", 1005), ("ref", 1005, {"cut": 1}), ("eph", 1046), ("ref", 1005), ("eph", 1046)]
        for n, d in seqs.items():
            out.append((f"{mode} unwritable {n}", "unwritable", (mode, d)))
    return out


# --- histories -----------------------------------------------------------------------------

MIXED = [
    ("eph then msm", [("eph", 1019), ("msm", 1077, [3], [2]), ("eph", 1019)]),
    ("fewer satellites", [("msm", 1077, [3, 9, 12], [2, 16]), ("msm", 1077, [9], [16])]),
    ("more satellites", [("msm", 1077, [9], [16]), ("msm", 1077, [3, 9, 12], [2, 16])]),
    ("other signal", [("msm", 1075, [3, 9], [2]), ("msm", 1075, [3, 9], [16])]),
    ("other subset", [("msm", 1077, [3, 9], [2]), ("msm", 1074, [3, 9], [2]), ("msm", 1071, [3, 9], [2]), ("msm", 1077, [3], [2])]),
    ("subsets 1 2 3", [("msm", 1073, [3], [2]), ("msm", 1072, [3], [2]), ("msm", 1071, [3], [2]), ("msm", 1072, [4], [2])]),
    ("other system", [("msm", 1087, [3, 9], [2]), ("msm", 1077, [3, 9], [2]), ("msm", 1127, [3, 9], [2]), ("msm", 1077, [3], [2])]),
    ("GLONASS then BeiDou", [("msm", 1085, [3], [2]), ("msm", 1125, [3], [2]), ("msm", 1084, [4], [8])]),
    ("empty then full", [("msm", 1077, [], []), ("msm", 1077, [3, 9], [2]), ("msm", 1077, [], [])]),
    ("rejected between", [("msm", 1077, [3, 9], [2]), ("msm", 1077, [3, 9], [2], {"cut": 1}), ("msm", 1077, [9], [16])]),
    ("rejected first", [("msm", 1074, [3, 9], [2], {"extra": 1}), ("msm", 1074, [9], [16])]),
    ("unassigned signal between", [("msm", 1074, [3], [2]), ("msm", 1074, [3, 9], [1, 2]), ("msm", 1074, [9], [2])]),
    ("sparse cells then full", [("msm", 1076, [3, 9], [2, 16], {"cells": {(3, 2), (9, 16)}}), ("msm", 1076, [3, 9], [2, 16])]),
    ("full then sparse", [("msm", 1073, [3, 9], [2, 16]), ("msm", 1073, [3, 9], [2, 16], {"cells": {(3, 16)}})]),
    ("1004 cells then rejected", [("msm", 1123, [3, 9], [2, 8]), ("msm", 1123, [3, 9], [2, 8], {"cells": ()}), ("msm", 1123, [1], [14])]),
]
MIXED_B = [
    ("ephemerides", [("eph", 1019), ("eph", 1020), ("eph", 1019), ("eph", 1020, {"cut": 2}), ("eph", 1020)]),
    ("galileo", [("eph", 1045), ("eph", 1046), ("eph", 1045)]),
    ("navic qzss", [("eph", 1041), ("eph", 1044), ("eph", 1042), ("eph", 1041)]),
    ("biases", [("bias", 15), ("bias", 0), ("bias", 2), ("bias", 8, {"extra": 1}), ("bias", 4)]),
    ("schedules", [("sys", [1005, 1077]), ("sys", [1006]), ("sys", []), ("sys", [1007, 1008, 1013])]),
    ("schedules inferred", [("sys", [1005, 1077], {"nm": 0}), ("sys", [1006]), ("sys", [1230], {"nm": 0})]),
    ("descriptors", [("ant", 1033, [3, 2, 3, 2, 3]), ("ant", 1033, [0, 0, 0, 0, 0]), ("ant", 1008, [2, 0]), ("ant", 1033, [1, 0, 2, 0, 1])]),
    ("antenna", [("ant", 1008, [3, 3]), ("ant", 1007, [2]), ("ant", 1008, [0, 1])]),
    ("texts", [("text", 5), ("text", 2), ("text", 0), ("text", 3, {"cut": 1}), ("text", 3)]),
    ("points", [("ref", 1006), ("ref", 1005), ("ref", 1006, {"cut": 1}), ("ref", 1005)]),
    ("mixed", [("ref", 1006), ("msm", 1077, [3], [2]), ("text", 3), ("eph", 1042), ("msm", 1077, [4], [2]), ("ref", 1006), ("bias", 3)]),
]


def same(d, tag="same"):
    """the description with a fixed tag: repeated uses are the identical message"""
    kw = dict(d[-1]) if isinstance(d[-1], dict) else {}
    kw["tag"] = tag
    return tuple(x for x in d if not isinstance(x, dict)) + (kw,)


def same_seqs(mode):
    """the identical message several times, alone and around another one"""
    out = []
    ds = [("msm", 1077, [3, 9], [2, 16]), ("msm", 1084, [3], [2]), ("msm", 1122, [3], [2, 14])]
    if mode != "MARGO":
        ds += [("eph", 1019), ("eph", 1020), ("eph", 1046), ("ref", 1005), ("ant", 1007, [2]), ("ant", 1033, [1, 0, 1, 0, 1]),
               ("sys", [1005, 1077]), ("text", 3), ("bias", 11)]
    for d in ds:
        out.append((f"identical {d[1] if isinstance(d[1], int) else ''}{d[0]} x3", [same(d)] * 3))
        out.append((f"identical {d[1] if isinstance(d[1], int) else ''}{d[0]} around another", [same(d), d, same(d), same(d, "t2"), same(d)]))
    if mode != "MARGO":
        out.append(("identical messages alternating", [same(("msm", 1077, [3], [2])), same(("eph", 1019)), same(("msm", 1077, [3], [2])),
                                                       same(("eph", 1019)), same(("ref", 1005)), same(("ref", 1005))]))
    return out


def history_scen(modes, tier):
    out = []
    for mode in modes:
        for name, d in MIXED + (MIXED_B if mode != "MARGO" else []):
            out.append((f"{mode} {name}", "records", (mode, d)))
        for name, d in same_seqs(mode):
            out.append((f"{mode} {name}", "records", (mode, d)))
        if tier == "thorough":
            sh = [("msm", n, [3, 5], [2, 8]) for n in (1071, 1072, 1073, 1074, 1075, 1076, 1077, 1087, 1083, 1127, 1121, 1097)]
            for a in sh:
                for b in sh:
                    out.append((f"{mode} {a[1]} {b[1]} {a[1]}", "records", (mode, [a, b, (a[0], a[1], [5], [8])])))
    return out


# --- registry --------------------------------------------------------------------------------


def scenarios(prop, tier):
    J = ("JSON", "JARGO")
    M = ("MARGO",)
    if prop == "C06":
        return eph_scen(("JSON-B",), tier)
    if prop == "C07":
        return eph_scen(J, tier)
    if prop == "C08":
        return base_scen(("JSON-B",), tier)
    if prop == "C09":
        return base_scen(J, tier)
    if prop == "C10":
        return msm_scen(("JSON-B",), tier) + positions(("JSON-B",), tier) + many(("JSON-B",), tier) + cellcounts(("JSON-B",), tier)
    if prop == "C11":
        return msm_scen(("JSON",), tier) + positions(("JSON",), tier) + many(("JSON",), tier)
    if prop == "C12":
        return [s for s in msm_scen(("JSON", "MARGO"), tier) if "2x2" in s[0] or "1 cell" in s[0] or "sparse" in s[0]]
    if prop == "C13":
        return signal_scen(("JSON", "MARGO", "JARGO"), tier)
    if prop == "C14":
        return reject_scen(("JSON", "JSON-B", "MARGO"), tier) + cellcounts(("JSON",), tier)
    if prop == "C15":
        ms = ("JSON", "JSON-B", "MARGO", "JARGO")
        return contain_scen(ms, tier) + unwritable_scen(ms) + errorruns(ms, tier)
    if prop == "C16":
        return history_scen(("JSON", "JSON-B", "MARGO", "JARGO"), tier)
    raise KeyError(prop)
