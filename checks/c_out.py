"""C17-C22: routing, JSON files, MARGO files, time marks, output toggles."""

from .base import *
from .conv import *
from . import msgs
from .msgs import eph, base_ref, base_ant, base_sys, base_text, base_bias, msm
from .c_dec import build, records, sup, MSMN, EPHN, MIXED, MIXED_B, same, same_seqs

ONE = {1005: ("ref", 1005), 1006: ("ref", 1006), 1007: ("ant", 1007, [2]), 1008: ("ant", 1008, [2, 1]), 1013: ("sys", [1005]),
       1029: ("text", 3), 1033: ("ant", 1033, [1, 1, 1, 1, 1]), 1230: ("bias", 9)}
for _n in EPHN:
    ONE[_n] = ("eph", _n)
for _n in MSMN:
    ONE[_n] = ("msm", _n, [2], sup(_n)[:1])

# the same with concrete MSM data
ONE_C = {n: (d + ({"sym": [], "hdrsym": False},) if d[0] == "msm" else d) for n, d in ONE.items()}

ALT_LIT = {s: ((s * 5) % 14) - 7 for s in range(1, 25)}


def routing(tier):
    out = []
    for base in ("/w/in/a.rtcm3", "/w/in/a.b.rtcm3", "/w/x.y/plain", "rel/site 1.rtcm3", "name.rtcm3"):
        for mode in ("JSON", "JSON-B"):
            out.append((f"announced location {base} {mode}", "opath", (base, mode)))
    nums = sorted(ONE)
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for n in nums:
            out.append((f"{mode} {n}", "records", (mode, [ONE[n]])))
        out.append((f"{mode} all message types", "records", (mode, [ONE_C[n] for n in nums])))
        out.append((f"{mode} all message types, reversed", "records", (mode, [ONE_C[n] for n in reversed(nums)])))
        for i in range(0, len(nums), 8):
            out.append((f"{mode} {nums[i]}.. together", "records", (mode, [ONE[n] for n in nums[i : i + 8]])))
            out.append((f"{mode} every eighth from {nums[i // 8]}", "records", (mode, [ONE[n] for n in nums[i // 8 :: 8]])))
    return out


def opath(ctx, base, mode):
    """the location announced for each message's products is the one they are written to"""
    import posixpath

    it, W = ctx.interp()
    cls = attr(it, it.get_module("printers"), "PrintJSON")
    head, tail = posixpath.split(base)
    stem = posixpath.splitext(tail)[0]
    odir = posixpath.join(head, stem + "-" + mode)
    for n in sorted(ONE):
        v, pc, excs = run(it, attr(it, cls, "make_opath"), base, n, mode)
        for e in excs:
            ctx.fail(f"location of {n}", f"raises {e!r}", e.g, e.site)
        ctx.same(f"location of {n}", v, [odir + "/" + build(ONE[n], "x").file, odir, odir + "/" + stem + "-log.txt"], 1, "PrintJSON.make_opath")


def repeat(ctx, mode, descs, ctlkw, closes=1):
    seq = [(build(d, f"m{i}"), None) for i, d in enumerate(descs)]
    cv = run_messages(ctx, mode, seq, Ctl(**ctlkw), files=False)
    W = cv.W
    for _ in range(closes - 1):
        cv.close()
    ctl = cv.ctl
    exp = {}
    for m, _ in seq:
        exp.setdefault(m.file, (m.typ(mode), []))[1].append((accepted(m, mode), m.rec(mode)))
    for fn, (t, recs) in exp.items():
        check_json_file(ctx, W, OUT + "/" + fn, t, recs, ctl.pretty, label=fn)
        node = W.files.get(OUT + "/" + fn)
    for fn, ex in cv.outfiles().items():
        if fn not in exp:
            ctx.fail("no other output file", f"unexpected file {fn}", ex)


def json_scen(tier):
    out = []
    for mode in ("JSON", "JSON-B"):
        for pretty in (True, False):
            p = "pretty" if pretty else "compact"
            kw = {"pretty": pretty}
            for n in sorted(ONE) if tier == "thorough" else (1005, 1013, 1019, 1029, 1046, 1073, 1077, 1230):
                for k in (1, 2, 3, 6):
                    out.append((f"{mode} {p} {n} x{k}", "records", (mode, [ONE[n]] * k, kw)))
                out.append((f"{mode} {p} {n} closed twice", "repeat", (mode, [ONE[n]] * 2, kw, 2)))
            out.append((f"{mode} {p} nothing", "records", (mode, [], kw)))
            out.append((f"{mode} {p} only rejected", "records", (mode, [("eph", 1019, {"cut": 1}), ("msm", 1077, [2], [2], {"cut": 1})], kw)))
            out.append((f"{mode} {p} interleaved", "records",
                        (mode, [ONE[n] for n in (1077, 1019, 1077, 1005, 1019, 1077, 1087, 1005, 1019)], kw)))
            out.append((f"{mode} {p} all message types", "records", (mode, [ONE_C[n] for n in sorted(ONE) * 2], kw)))
            out.append((f"{mode} {p} many records", "records", (mode, [ONE_C[n] for n in (1077, 1005, 1019) * (100 if tier == "quick" else 150)], kw)))
            for n in sorted(ONE):
                out.append((f"{mode} {p} identical {n} x3", "records", (mode, [same(ONE_C[n])] * 3, kw)))
            for name, d in MIXED + MIXED_B + same_seqs(mode):
                out.append((f"{mode} {p} {name}", "records", (mode, d, kw)))
        out.append((f"{mode} same time twice", "records", (mode, [("msm", 1077, [2], [2], {"hdrsym": False})] * 3)))
    for name, d in MIXED_B + same_seqs("JARGO"):
        out.append((f"JARGO {name}", "records", ("JARGO", d)))
    out.append(("JARGO all message types", "records", ("JARGO", [ONE_C[n] for n in sorted(ONE) * 2])))
    return out


# messages with as little content as they can have
EMPTYISH = [
    ("empty schedule", [("sys", []), ("sys", [1005])]),
    ("empty texts", [("text", 0), ("text", 0), ("ant", 1007, [0]), ("ant", 1033, [0] * 5)]),
    ("no biases", [("bias", 0), ("bias", 15)]),
    ("no satellites", [("msm", 1077, [], []), ("msm", 1084, [], []), ("msm", 1122, [], []), ("msm", 1077, [3], [2])]),
    ("all types", [ONE_C[n] for n in sorted(ONE)]),
]


def toggles_json(tier):
    out = []
    for mode in ("JSON", "JSON-B"):
        for hdr in (True, False):
            for aux in (True, False):
                for pretty in (True, False):
                    kw = {"hdr": hdr, "aux": aux, "pretty": pretty}
                    for n in (1071, 1074, 1077, 1087, 1123, 1137, 1019, 1033, 1230) if tier == "quick" else sorted(ONE):
                        out.append((f"{mode} {n} hdr={hdr} aux={aux} pretty={pretty}", "viewed", (mode, [ONE[n], ONE[n]], kw)))
                    for name, d in EMPTYISH + MIXED_B:
                        out.append((f"{mode} {name} hdr={hdr} aux={aux} pretty={pretty}", "viewed", (mode, d, kw)))
                out.append((f"{mode} both views hdr={hdr} aux={aux}", "two_views", (mode, [ONE_C[n] for n in sorted(ONE)], {"hdr": hdr, "aux": aux})))
    return out


def spelling(v, sort=False):
    """the keys of a value in the order in which they are written, and how
    its text is escaped"""
    if isinstance(v, V.Json):
        o = v.opts if isinstance(v.opts, dict) else {}
        return (bool(o.get("ensure_ascii", True)), spelling(v.snap, bool(o.get("sort_keys"))))
    if isinstance(v, Snap):
        if v.kind == "l":
            return [spelling(x, sort) for _, x in v.items]
        ks = [(k, spelling(x, sort)) for _, k, x in v.items]
        return sorted(ks, key=lambda p: str(p[0])) if sort else ks
    return None


def two_views(ctx, mode, descs, kw):
    """the same messages in both views: white space is all that differs, so
    keys come in the same order and text is escaped the same way"""
    seen = []
    for pretty in (True, False):
        ctl = Ctl(pretty=pretty, **kw)
        cv = Conv(ctx, mode, ctl)
        ctx.inputs = {}
        for i, d in enumerate(descs):
            fr = ctx.inputs[f"message {i}"] = build(d, f"m{i}").frame()
            cv.feed(fr)
        cv.close()
        got = {}
        for fn, ex in cv.outfiles().items():
            for c, parts, n in file_cells(cv.W, OUT + "/" + fn, ex):
                if opaque_parts(parts):
                    continue
                try:
                    got[fn, c] = (spelling(parse_json(parts)),)
                except ValueError as e:
                    ctx.fail(f"{fn}: well-formed JSON", str(e), c)
        seen.append(got)
    a, b = seen
    for k in sorted(set(a) & set(b), key=str):
        if a[k][0] == b[k][0]:
            ctx.ok()
        else:
            ctx.fail(f"{k[0]}: both views spell the records alike", "order of keys or escaping of text depends on the view", k[1], "print_JSON")


def viewed(ctx, mode, descs, kw):
    ctl = Ctl(**kw)
    seq = []
    for i, d in enumerate(descs):
        m = build(d, f"m{i}")
        if isinstance(m, msgs.Msm):
            m.set_view(ctl.hdr, ctl.aux)
        seq.append((m, None))
    run_messages(ctx, mode, seq, ctl)


# --- MARGO ---------------------------------------------------------------------------------


def margo(ctx, mode, descs, ctlkw=None, what="all"):
    ctl = Ctl(**(ctlkw or {}))
    seq = [(build(d, f"m{i}"), None) for i, d in enumerate(descs)]
    run_messages(ctx, mode, seq, ctl, times=what in ("all", "times"), values=what in ("all", "values"), header=what in ("all", "values"))


def margo_scen(tier):
    out = []
    for mode in ("MARGO", "JARGO"):
        for n in MSMN if tier == "thorough" or mode == "MARGO" else MSMN[::3]:
            sg = sup(n)
            mx = MAX_SATS[msgs.GNSS_OF[n // 10]]
            add = lambda name, d, kw=None: out.append((f"{mode} {n} {name}", "margo", (mode, d, kw or {}, "values")))
            two = [sg[0], sg[-1]]
            add("first and last column", [("msm", n, [1, mx], two, {"hdrsym": False})])
            add("three rows", [("msm", n, [2], two, {"hdrsym": False}), ("msm", n, [1, 2], [sg[0]], {"hdrsym": False}),
                               ("msm", n, [mx], [sg[-1]], {"hdrsym": False})])
            add("three rows with ambiguity and lock", [("msm", n, [2], [sg[0]], {"hdrsym": False}), ("msm", n, [1, 2], two, {"hdrsym": False, "sym": []}),
                                                       ("msm", n, [1, mx], [sg[-1]], {"hdrsym": False, "sym": [mx]})], {"hca": True, "lock": True})
            add("all columns", [("msm", n, list(range(1, mx + 1)), [sg[-1]], {"sym": [2], "hdrsym": False})])
            add("satellites beyond the table", [("msm", n, [1, 2, 64], [sg[0]], {"hdrsym": False})])
            add("all signals", [("msm", n, [1, 2], sg, {"sym": [2], "hdrsym": False})])
            if n // 10 == 108:
                for s in range(1, 25):
                    add(f"slot {s}", [("msm", n, [s], [2, 9], {"hdrsym": False})])
                    add(f"slot {s} other table", [("msm", n, [s], [3, 8], {"hdrsym": False})], {"lit": ALT_LIT})
    for mode in ("MARGO",):
        for name, d in MIXED + same_seqs(mode):
            out.append((f"{mode} {name}", "margo", (mode, d, {}, "values")))
        for n in MSMN:
            out.append((f"{mode} identical {n} x3", "margo", (mode, [same(ONE_C[n])] * 3, {}, "values")))
        out.append((f"{mode} many rows", "margo", (mode, [ONE_C[n] for n in (1077, 1085, 1127) * (70 if tier == "quick" else 150)], {}, "values")))
        out.append((f"{mode} all message types", "margo", (mode, [ONE_C[n] for n in MSMN * 2], {}, "values")))
    return out


def time_scen(tier):
    out = []
    for mode in ("MARGO", "JARGO"):
        for g, b in msgs.GNSS.items():
            for k in (1, 4, 7) if tier == "quick" else range(1, 8):
                n = 10 * b + k
                for shift in (0, 17, 18, 19, 37, -5) if g == "R" else (18, 0, 37):
                    out.append((f"{mode} {n} GPS-UTC {shift}", "margo",
                                (mode, [("msm", n, [2], sup(n)[:1], {"sym": []})], {"shift": shift}, "times")))
        out.append((f"{mode} systems in turn", "margo",
                    (mode, [("msm", n, [2], sup(n)[:1], {"sym": []}) for n in (1087, 1077, 1127, 1097, 1087)], {}, "times")))
    return out


def toggle_scen(tier):
    out = []
    for mode in ("MARGO", "JARGO"):
        for hca in (True, False):
            for lock in (True, False):
                for n in MSMN if tier == "thorough" else [b * 10 + k for i, b in enumerate(msgs.GNSS.values()) for k in (1, 2, 3, 4, 5, 6, 7) if (i < 3 or k in (2, 7))]:
                    sg = sup(n)
                    out.append((f"{mode} {n} hca={hca} lock={lock}", "margo",
                                (mode, [("msm", n, [1, 5], [sg[0], sg[-1]], {"hdrsym": False, "sym": [5]}),
                                        ("msm", n, [5], [sg[0]], {"hdrsym": False})], {"hca": hca, "lock": lock}, "values")))
    return out


def scenarios(prop, tier):
    return {"C17": routing, "C18": json_scen, "C19": margo_scen, "C20": time_scen, "C21": toggle_scen, "C22": toggles_json}[prop](tier)
