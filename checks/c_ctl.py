"""C23: controls come complete and unaltered from the configuration files."""

from absint.ini import Ini

from .base import *
from .conv import *
from . import msgs
from .c_run import Main, Source, omsm, folder, logname, gor, REF, MODES

SECS = {"LITERALS": [f"r{i}" for i in range(1, 25)], "TIME": ["gps2utc"], "MARGO": ["hca", "lock_time"],
        "JSON": ["enable_hdr_data", "enable_aux_data", "enable_pretty_view"]}
BOOLS = ("hca", "lock_time", "enable_hdr_data", "enable_aux_data", "enable_pretty_view")
WORDS = [("true", "false"), ("yes", "no"), ("on", "off"), ("1", "0"), ("True", "FALSE"), ("On", "nO")]


class Cfg:
    """abstract configuration file"""

    def __init__(self, tag, present=True, missing=(), secs=None, words=0, junk=False, absent_ok=True):
        """present: every option may be missing (symbolic) if False; missing:
        options that may be missing"""
        self.val, self.has, self.sec = {}, {}, {}
        d = {}
        for s, opts in (secs or SECS).items():
            self.sec[s] = 1 if present or s in missing and missing[s] is None else bdd.var(("bit", f"{tag}.[{s}]", 0))
            if missing and s in missing:
                self.sec[s] = bdd.var(("bit", f"{tag}.[{s}]", 0))
            od = {}
            for o in opts:
                free = not present or o in missing
                h = bdd.var(("bit", f"{tag}.{o}?", 0)) if free else 1
                if o in BOOLS:
                    b = bdd.var(("bit", f"{tag}.{o}", 0))
                    w = WORDS[words]
                    v = V.merge([(b, w[0]), (bdd.neg(b), w[1])])
                    self.val[o] = B(b)
                else:
                    n = signed(S(f"{tag}.{o}", 8 if o == "gps2utc" else 5))
                    v = V.mkstr([Fmt(n, "d")])
                    self.val[o] = n
                self.has[o] = bdd.conj(self.sec[s], h)
                od[o] = (h, v)
            if junk and s == "LITERALS":
                od["r0"] = (1, "3")
                od["r25"] = (1, "3")
                od["r99"] = (1, "3")
            d[s] = (self.sec[s], od)
        if junk:
            d["OTHER"] = (1, {"hca": (1, "true"), "gps2utc": (1, "1")})
        self.ini = Ini(d)


def load(ctx, files, calls):
    it, W = ctx.interp(files=files)
    cc = it.call(attr(it, it.get_module("controls"), "ConverterControls"))
    for m, p in calls:
        v, pc, ex = run(it, attr(it, cc, m), p)
        for e in ex:
            ctx.fail(f"{m} must not raise", f"{e.cls} escapes: {e!r}", e.g, e.site)
        if pc == 0:
            raise PathDead()
        it.pc = pc
    return it, it.getattr(cc, "boxed_controls")


def check_box(ctx, it, box, complete, val, g=1):
    none = gor([h for h, x in V.alts(box) if x is None])
    ctx.holds("incomplete controls are refused", none, bdd.diff(g, complete), "controls are accepted although the configuration is incomplete",
              "ConverterControls.boxed_controls")
    if not ctx.holds("complete controls are accepted", bdd.neg(none), bdd.conj(g, complete), "complete controls are refused",
                     "ConverterControls.boxed_controls"):
        return
    c = bdd.conj(g, complete)
    if not c:
        return
    full = it.pc
    it.pc = c
    b = V.restrict(box, c)
    m, j = it.getattr(b, "MARGO"), it.getattr(b, "JSON")
    W = "ConverterControls"
    ctx.same("half cycle toggle", it.getattr(m, "half_cycle_enable"), val["hca"], c, W)
    ctx.same("lock time toggle", it.getattr(m, "lock_time_enable"), val["lock_time"], c, W)
    ctx.same("GPS-UTC shift", it.getattr(m, "gps_utc_shift"), val["gps2utc"], c, W)
    tab = it.getattr(m, "glo_lit_tab")
    for s in range(1, 25):
        v, pc, ex = run(it, attr(it, tab, "get"), s)
        ctx.same(f"literal of slot {s}", v, val[f"r{s}"], c, W)
    for a, o in (("enable_hdr_data", "enable_hdr_data"), ("enable_aux_data",) * 2, ("enable_pretty_view",) * 2):
        ctx.same(a, it.getattr(j, a), val[o], c, W)
    it.pc = full


def initial(ctx, kw):
    a = Cfg("d", **kw)
    ctx.inputs = {o: v for o, v in a.val.items()}
    ctx.inputs.update({o + "?": mkb(h) for o, h in a.has.items()})
    it, box = load(ctx, {"/w/d.ini": a.ini}, [("init_from_file", "/w/d.ini")])
    complete = 1
    for h in a.has.values():
        complete = bdd.conj(complete, h)
    check_box(ctx, it, box, complete, a.val)


def mkb(n):
    return B(n) if n not in (0, 1) else bool(n)


def update(ctx, kws, init=None):
    """defaults, then one or more further files, each overriding what it gives"""
    a = Cfg("d", **(init or {}))
    files = {"/w/d.ini": a.ini}
    calls = [("init_from_file", "/w/d.ini")]
    val = dict(a.val)
    complete = 1
    for h in a.has.values():
        complete = bdd.conj(complete, h)
    for i, kw in enumerate(kws):
        if kw is None:
            calls.append(("update_from_file", "/w/none.ini"))
            continue
        u = Cfg(f"u{i}", **kw)
        files[f"/w/u{i}.ini"] = u.ini
        calls.append(("update_from_file", f"/w/u{i}.ini"))
        for o in u.val:
            val[o] = ite(u.has[o], u.val[o], val[o])
    ctx.inputs = dict(val)
    it, box = load(ctx, files, calls)
    check_box(ctx, it, box, complete, val)


def nofile(ctx, calls, files):
    it, box = load(ctx, files, calls)
    check_box(ctx, it, box, 0, {})


def program(ctx, mode, missing, extra=None, args="", again=None):
    """main() with a defaults file that lacks something: aborted, nothing produced"""
    text = Ctl().ini()
    for k in missing:
        if k.startswith("["):
            out, skip = [], False
            for l in text.splitlines():
                if l.startswith("["):
                    skip = l == k
                if not skip:
                    out.append(l)
            text = "\n".join(out) + "\n"
        else:
            text = "\n".join(l for l in text.splitlines() if l.replace(":", "=").split("=")[0].strip() != k) + "\n"
    p, q = "/w/in/a.rtcm3", "/w/in/b.rtcm3"
    files = {p: Source([("m", REF), ("m", omsm(1077))], "a"), q: Source([("m", REF)], "b")}
    ex = dict(extra or {})
    if missing != ("file",):
        ex["/w/defaults.ini"] = text
    r = Main(ctx, f"-o {mode} {args} {p} {q}".replace("  ", " "), files, ini=False, extra=ex)
    r.no_escape()
    for x in files:
        f = folder(x, mode)
        for pa, n in r.W.files.items():
            if pa.startswith(f + "/") and pa != logname(x, mode):
                ctx.holds("no product without valid controls", bdd.neg(n.exists), 1, f"{pa} is produced without valid controls", "main")
        ctx.holds("abort is logged", r.said(logname(x, mode), "abort"), 1, "no abort in the log", "main")
        ctx.holds("no success is reported", bdd.neg(r.said(logname(x, mode), "without errors")), 1, "success is reported", "main")


def applied(ctx, mode, base, over):
    """the products follow the defaults overridden by the user file"""
    ctl = Ctl(**{**base, **over})
    p = "/w/in/a.rtcm3"
    s = Source([("m", omsm(1087, (3, 7), [2, 8])), ("m", omsm(1077, (2, 5))), ("m", REF)], "a")
    names = {"hca": ("MARGO", "HCA"), "lock": ("MARGO", "LOCK_TIME"), "pretty": ("JSON", "ENABLE_PRETTY_VIEW"),
             "hdr": ("JSON", "ENABLE_HDR_DATA"), "aux": ("JSON", "ENABLE_AUX_DATA"), "shift": ("TIME", "GPS2UTC")}
    secs = {}
    for k, v in over.items():
        if k == "lit":
            secs["LITERALS"] = {f"R{i}": x for i, x in v.items() if x != Ctl(**base).lit[i]}
        else:
            sec, o = names[k]
            secs.setdefault(sec, {})[o] = str(v).lower() if isinstance(v, bool) else v
    text = "".join(f"[{s_}]\n" + "".join(f"{o} = {v}\n" for o, v in d.items()) for s_, d in secs.items())
    for m, _, _ in s.frames:
        if isinstance(m, msgs.Msm):
            m.set_view(ctl.hdr, ctl.aux)
    r = Main(ctx, f"-o {mode} -i user.ini {p}", {p: s}, ctl, ini=False,
             extra={"/w/defaults.ini": Ctl(**base).ini(), "/w/user.ini": text})
    r.no_escape()
    sp = r.outputs(p, mode)
    r.status(p, mode, sp)


def scenarios(prop, tier):
    out = []
    for w in range(len(WORDS)):
        out.append((f"complete, words {WORDS[w]}", "initial", ({"words": w},)))
        out.append((f"anything may be missing, words {WORDS[w]}", "initial", ({"present": False, "words": w},)))
        out.append((f"unrelated content, words {WORDS[w]}", "initial", ({"junk": True, "present": False, "words": w},)))
    for s, opts in SECS.items():
        out.append((f"section {s} may be missing", "initial", ({"missing": {s: None}},)))
        for o in opts:
            out.append((f"{o} may be missing", "initial", ({"missing": {o: None}},)))
    sub = {"MARGO": SECS["MARGO"], "JSON": SECS["JSON"]}
    out.append(("update: anything", "update", ([{"present": False}],)))
    out.append(("update: two files", "update", ([{"present": False}, {"present": False}],)))
    out.append(("update: toggles only", "update", ([{"secs": sub}],)))
    out.append(("update: some toggles", "update", ([{"secs": sub, "present": False}],)))
    out.append(("update: missing file", "update", ([None],)))
    out.append(("update: missing file then anything", "update", ([None, {"present": False}],)))
    out.append(("update: literals", "update", ([{"secs": {"LITERALS": SECS["LITERALS"]}, "present": False}],)))
    out.append(("update: junk", "update", ([{"present": False, "junk": True}],)))
    out.append(("update of incomplete defaults", "update", ([{"present": True}], {"present": False})))
    out.append(("update of partially incomplete defaults", "update", ([{"present": False}], {"missing": {"hca": None, "r7": None, "enable_aux_data": None, "gps2utc": None}})))
    out.append(("no defaults file", "nofile", ([("init_from_file", "/w/d.ini")], {})))
    out.append(("empty defaults file", "nofile", ([("init_from_file", "/w/d.ini")], {"/w/d.ini": ""})))
    out.append(("never initialised", "nofile", ([], {})))
    out.append(("only updated", "nofile", ([("update_from_file", "/w/d.ini")], {"/w/d.ini": Ctl().ini()})))
    out.append(("no defaults, then update", "nofile", ([("init_from_file", "/w/no.ini"), ("update_from_file", "/w/d.ini")], {"/w/d.ini": Ctl().ini()})))
    out.append(("empty defaults, then update", "nofile", ([("init_from_file", "/w/e.ini"), ("update_from_file", "/w/d.ini")], {"/w/e.ini": "", "/w/d.ini": Ctl().ini()})))
    miss = [("file",), ("[LITERALS]",), ("[TIME]",), ("[MARGO]",), ("[JSON]",), ("HCA",), ("LOCK_TIME",), ("GPS2UTC",),
            ("ENABLE_PRETTY_VIEW",), ("ENABLE_HDR_DATA",), ("ENABLE_AUX_DATA",)] + [(f"R{i}",) for i in range(1, 25)]
    for mode in MODES:
        for m in miss:
            out.append((f"{mode} program without {m[0]}", "program", (mode, m)))
        out.append((f"{mode} program without R3, user file complete", "program", (mode, ("R3",), {"/w/user.ini": Ctl().ini()}, "-i user.ini")))
        T, F = True, False
        for base, over in (({}, {}), ({}, {"hca": T}), ({}, {"lock": T}), ({}, {"pretty": F}), ({}, {"hdr": F}), ({}, {"aux": F}),
                           ({}, {"shift": 17}), ({}, {"lit": {**LITERALS, 3: -6, 7: 4}}), ({}, {"hca": T, "lock": T, "pretty": F, "hdr": F, "aux": F}),
                           ({"hca": T, "lock": T, "pretty": F, "hdr": F, "aux": F}, {}), ({"hca": T, "lock": T}, {"hca": F}),
                           ({"pretty": F, "hdr": F, "aux": F}, {"aux": T}), ({"shift": 5}, {"hca": T}), ({"hca": T, "shift": 19}, {"lock": T, "hdr": F})):
            out.append((f"{mode} program {base} overridden by {over}", "applied", (mode, base, over)))
    return out
