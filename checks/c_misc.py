"""C31-C34: message classification, traceable losses, registration, command line."""

import re

from .base import *
from .conv import *
from . import msgs
from .c_dec import build, sup, MSMN, EPHN, reject_scen
from .c_out import ONE, ONE_C
from . import c_run

GNSS = "GRESQBI"

# --- C31 -------------------------------------------------------------------------------------------


def table(what):
    t = {}
    if what in ("msm", "all"):
        for i, g in enumerate(GNSS):
            for k in range(1, 8):
                t[1070 + 10 * i + k] = (g, f"MSM{k}")
    if what in ("eph", "all"):
        t.update({1019: ("G", "EPH"), 1020: ("R", "EPH"), 1041: ("I", "EPH"), 1042: ("B", "EPH"), 1044: ("Q", "EPH"), 1045: ("E", "EPH"), 1046: ("E", "EPH")})
    if what in ("leg", "all"):
        for k in range(1, 5):
            t[1000 + k] = ("G", f"LEG{k}")
            t[1008 + k] = ("R", f"LEG{k}")
    return t


CLASSIFIER = {"all": ("getSubset",), "msm": ("MSMT", "msm_subset"), "eph": ("EPHT", "eph_subset"), "leg": ("LEGT", "legacy_subset")}


def classify(ctx, what, bits):
    """every number of the given width at once"""
    it, W = ctx.interp()
    b = S("num", bits)
    n = unsigned(b)
    ctx.inputs = {"num": n}
    f = attr(it, it.get_module("utilities.RTCM_utilities"), *CLASSIFIER[what])
    v, pc, excs = run(it, f, n)
    for e in excs:
        ctx.fail("classification must not raise", repr(e), e.g, e.site)
    tab = table(what)
    where = ".".join(CLASSIFIER[what])
    rest = 1
    for k, (g, s) in tab.items():
        q = eqconst(b, k)
        rest = bdd.diff(rest, q)
        if q:
            ctx.same(f"{where}({k})", v, (g, s), bdd.conj(q, pc), where)
    ctx.same(f"{where} of any other number", v, ("", ""), bdd.conj(rest, pc), where)


def carried(ctx, mode, num, sats):
    """the record of a message carries the classification of its number"""
    d = ("msm", num, sats, sup(num)[:1])
    m = build(d, "m")
    cv = Conv(ctx, mode)
    ctx.inputs = {"message": m.frame()}
    v = cv.decode(m.frame())
    g, s = table("msm")[num]
    for h, x in V.alts(v):
        if x is None:
            ctx.fail("message is decoded", f"{num} yields nothing", bdd.conj(h, cv.it.pc), "decode_msm17")
            continue
        a = cv.it.getattr(x, "atr")
        for n, e in (("gnss", g), ("subset", s), ("msg_number", num)):
            ctx.same(f"atr.{n} of {num}", cv.it.getattr(a, n), e, h, "Attributes")
        for k in range(1, 8):
            ctx.same(f"atr.is_msm{k} of {num}", cv.it.getattr(a, f"is_msm{k}"), s == f"MSM{k}", h, "Attributes")


def class_scen(tier):
    out = []
    for what in CLASSIFIER:
        out.append((f"{what} 12 bits", "classify", (what, 12)))
        out.append((f"{what} 20 bits", "classify", (what, 20)))
    for mode in ("JSON", "JSON-B"):
        for n in MSMN:
            out.append((f"{mode} {n}", "carried", (mode, n, [2])))
    return out


# --- C32 -------------------------------------------------------------------------------------------

LOG = OUT + "/log.txt"
WARNING, ERROR, CRITICAL = 30, 40, 50


def entries(it, since, path):
    """[(guard, level, text with '\\0' for unknown parts, console guard)] logged since a mark"""
    out = []
    for e in it.effects[since:]:
        if e.kind != "log":
            continue
        g = bdd.conj(e.g, c_run.gor([h for h, x in e.data["to"] if getattr(x, "file", None) is not None and x.file.abspath == path]))
        c = bdd.conj(e.g, c_run.gor([h for h, x in e.data["to"] if getattr(x, "file", None) is None]))
        for h, x in V.alts(e.data["msg"]):
            t = "".join(p if isinstance(p, str) else "\0" for p in V.sparts(x)) if isinstance(x, (str, SStr)) else "\0"
            out.append((bdd.conj(g, h), e.data["level"], t, bdd.conj(c, h)))
    return out


def traced(ctx, mode, descs, faulty=False):
    def faults(kind, path, n):
        if kind in ("open", "mkdir") and path.startswith(OUT + "/") and path != LOG:
            return bdd.var(("fault", kind, path))
        return 0

    seq = []
    for i, d in enumerate(descs):
        if d[0] == "u":
            pl = [d[1] >> 4, ((d[1] & 15) << 4)] + [0] * 3
            seq.append((d[1], None, V.mkbytes(list(V.belems(with_crc(pl))))))
        else:
            m = build(d, f"m{i}")
            seq.append((m.num, m, m.frame()))
    ctx.inputs = {f"message {i}": fr for i, (_, _, fr) in enumerate(seq)}
    cv = Conv(ctx, mode, log=True, faults=faults if faulty else None)
    it = cv.it
    for i, (num, m, fr) in enumerate(seq):
        full = it.pc
        mark = len(it.effects)
        v, some = cv.feed(fr)
        st0 = entries(it, mark, LOG)
        name = re.compile(rf"(?<!\d){num}(?!\d)")
        named = c_run.gor([g for g, lv, t, c in st0 if name.search(t)])
        loud = c_run.gor([g for g, lv, t, c in st0 if name.search(t) and lv >= WARNING])
        shown = c_run.gor([c for g, lv, t, c in st0 if name.search(t) and lv >= WARNING])
        lost = bdd.diff(full, some)
        handled = m is not None and fmt_of(m, mode)
        who = f"message {i} ({num})"
        ctx.holds(f"{who}: log names what yields no record", named, lost, f"{num} is dropped without a log entry", "DecoderTop.decode")
        if handled:
            ctx.holds(f"{who}: rejection is a warning or an error", loud, lost, f"rejected {num} has no warning in the log", "DecoderTop.decode")
            ctx.holds(f"{who}: rejection is shown", shown, lost, f"rejected {num} is not shown on the console", "DecoderTop.decode")
            err = c_run.gor([g for g, lv, t, c in st0 if ERROR <= lv < CRITICAL])
            bad = lost
            if faulty and some:
                stf = fail_guard(cv, m, mode)
                bad = bdd.disj(bad, stf)
                ctx.holds(f"{who}: unsaved record is an error entry", err, bdd.conj(some, stf), f"record of {num} is lost without an error entry", "printers")
            ctx.holds(f"{who}: no error entry without an error", bdd.neg(err), bdd.diff(full, bad), f"good {num} is logged as an error", "logger")


def fail_guard(cv, m, mode):
    """guard: at least one product of the accepted message cannot be created"""
    fv = lambda *k: bdd.var(("fault",) + k)
    fails = lambda rel: bdd.disj(fv("open", f"{OUT}/{rel}"), fv("mkdir", f"{OUT}/{rel.rpartition('/')[0]}"))
    if fmt_of(m, mode) == "JSON":
        return fails(m.file)
    r = 0
    for fn, row in margo_rows(m, cv.ctl).items():
        r = bdd.disj(r, bdd.conj(row[0], fails(fn)))
    return r


def trace_scen(tier):
    out = []
    for name, _, (mode, descs) in reject_scen(c_run.MODES, tier):
        out.append((name, "traced", (mode, descs)))
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for n in sorted(ONE):
            f = fmt_of(build(ONE_C[n], "x"), mode)
            if not f:
                out.append((f"{mode} {n}: not handled", "traced", (mode, [ONE_C[n]])))
                continue
            d = ONE[n]
            out.append((f"{mode} {n}: good", "traced", (mode, [d])))
            if d[0] == "msm":
                uns = [s for s in range(1, 33) if s not in sup(n)][:1]
                out.append((f"{mode} {n}: unknown signal", "traced", (mode, [("msm", n, [2], uns, {"sym": [], "hdrsym": False})])))
        for n in (1, 4072, 4095, 1001, 1012, 1043, 1047, 1070, 1078, 1138, 1231, 999):
            out.append((f"{mode} unsupported {n}", "traced", (mode, [("u", n), ("u", n)])))
        text = [("text", 3), ("text", 1), ("ant", 1007, [2]), ("ant", 1033, [1, 0, 1, 0, 1])]
        out.append((f"{mode} texts", "traced", (mode, text)))
        out.append((f"{mode} good between bad", "traced", (mode, [
            ONE_C[1077], ("msm", 1077, [2], sup(1077)[:1], {"sym": [], "hdrsym": False, "cut": 1}), ("u", 4072), ONE_C[1077], ONE_C[1005],
            ("msm", 1124, [2], sup(1124)[:1], {"sym": [], "hdrsym": False, "extra": 1}), ONE_C[1124]])))
        for n in (1005, 1019, 1029, 1074, 1077, 1073, 1230):
            out.append((f"{mode} {n}: product cannot be created", "traced", (mode, [ONE_C[n], ONE_C[n]], True)))
        # every entry of a long run, not only the first of its kind
        short = ("msm", 1077, [2], sup(1077)[:1], {"sym": [], "hdrsym": False, "cut": 1})
        out.append((f"{mode} the same unsupported type, 300 times", "traced", (mode, [("u", 4072)] * 300)))
        out.append((f"{mode} the same rejected message, 120 times", "traced", (mode, [short] * 120)))
        out.append((f"{mode} good and lost messages, 200 times", "traced", (mode, [ONE_C[1077], ("u", 4072), short, ("u", 1001)] * 50)))
    known = set(ONE) | set(MSMN) | set(range(1070, 1140))
    for mode in ("MARGO", "JSON"):
        nums = [n for n in range(4096) if n not in known]
        for a in range(0, len(nums), 512):
            part = nums[a:a + 512]
            out.append((f"{mode} unsupported types {part[0]} to {part[-1]}", "traced", (mode, [("u", n) for n in part])))
    return out


# --- C33 -------------------------------------------------------------------------------------------


def logged_error(it, since):
    return c_run.gor([e.g for e in it.effects[since:] if e.kind == "log" and e.data["level"] >= ERROR])


def mkset(it, vals=()):
    s = SetObj(it.pc)
    for v in vals:
        it.natives.set_add(it, s, v)
    return s


def fresh(ctx):
    it, W = ctx.interp(dirs=["/w", OUT])
    lg = attr(it, it.get_module("logger"), "LOGGER_CF")
    it.call(attr(it, lg, "init_2CH"), [LOG, "RTCMDEC"])
    return it, W


SUBDEC = {"MSM47O": "SubdecoderMSM4567", "MSM13O": "SubdecoderMSM123", "EPH": "SubdecoderEph", "BASE": "SubdecoderBaseStationData"}
DEFECTS = ("none", "stub", "empty", "alien", "None")


def reg_decoder(ctx, sub, defect):
    it, W = fresh(ctx)
    dt = it.get_module("decoder_top")
    top = it.call(attr(it, dt, "DecoderTop"))
    real = it.call(attr(it, it.get_module("sub_decoders"), SUBDEC[sub]))
    io = it.getattr(real, "io")
    if defect == "stub":
        io = it.call(attr(it, dt, "SubDecoderInterface"), [sub])
        it.setattr(io, "actual_messages", it.getattr(it.getattr(real, "io"), "actual_messages"))
    elif defect == "empty":
        it.setattr(io, "actual_messages", mkset(it))
    elif defect == "alien":
        io = real
    elif defect == "None":
        io = None
    good = defect == "none"
    mark = len(it.effects)
    v, pc, excs = run(it, attr(it, top, "register_decoder"), io)
    for e in excs:
        ctx.fail("register_decoder() must not raise", repr(e), e.g, e.site)
    ctx.same(f"register_decoder() with {defect} defect", v, good, pc, "DecoderTop.register_decoder")
    err = logged_error(it, mark)
    if good:
        ctx.holds("accepted without complaint", bdd.neg(err), 1, "an error is logged", "DecoderTop.register_decoder")
    else:
        ctx.holds("refusal is logged", err, 1, "no error entry for the refused sub-decoder", "DecoderTop.register_decoder")
    # used exactly if accepted
    first = {"MSM47O": 1077, "MSM13O": 1073, "EPH": 1019, "BASE": 1005}[sub]
    m = build(ONE_C[first], "m")
    ctx.inputs = {"message": m.frame()}
    x, pc, excs = run(it, attr(it, top, "decode"), m.frame())
    for e in excs:
        ctx.fail("decode() must not raise", repr(e), e.g, e.site)
    ctx.same("attempts", it.getattr(top, "dec_attempts"), int(good), pc, "DecoderTop.decode")
    ctx.same("errors", it.getattr(top, "dec_errors"), 0, pc, "DecoderTop.decode")
    for g, y in V.alts(x):
        ctx.holds("decoded exactly if registered", int((y is not None) == good), bdd.conj(g, pc),
                  f"{first} {'is not decoded' if good else 'is decoded by a refused sub-decoder'}", "DecoderTop.decode")


def reg_second(ctx, sub):
    """a complete sub-decoder takes part even if another of its subset came first"""
    it, W = fresh(ctx)
    dt = it.get_module("decoder_top")
    top = it.call(attr(it, dt, "DecoderTop"))
    cls = attr(it, it.get_module("sub_decoders"), SUBDEC[sub])
    first = {"MSM47O": 1077, "MSM13O": 1073, "EPH": 1019, "BASE": 1005}[sub]
    a, b = it.getattr(it.call(cls), "io"), it.getattr(it.call(cls), "io")
    it.setattr(a, "actual_messages", mkset(it, [first + 10 if sub[:3] == "MSM" else 1020 if sub == "EPH" else 1006]))
    for io in (a, b):
        v, pc, excs = run(it, attr(it, top, "register_decoder"), io)
        for e in excs:
            ctx.fail("register_decoder() must not raise", repr(e), e.g, e.site)
        ctx.same("register_decoder()", v, True, pc, "DecoderTop.register_decoder")
    m = build(ONE_C[first], "m")
    ctx.inputs = {"message": m.frame()}
    x, pc, excs = run(it, attr(it, top, "decode"), m.frame())
    for e in excs:
        ctx.fail("decode() must not raise", repr(e), e.g, e.site)
    ctx.same("attempts", it.getattr(top, "dec_attempts"), 1, pc, "DecoderTop.register_decoder")
    for g, y in V.alts(x):
        ctx.holds("decoded by the accepted sub-decoder", int(y is not None), bdd.conj(g, pc), f"{first} is not decoded", "DecoderTop.register_decoder")


def only_actual(ctx, sub, drop):
    """a registered sub-decoder gets only the messages it declares"""
    it, W = fresh(ctx)
    dt = it.get_module("decoder_top")
    top = it.call(attr(it, dt, "DecoderTop"))
    io = it.getattr(it.call(attr(it, it.get_module("sub_decoders"), SUBDEC[sub])), "io")
    nums = [n for n in sorted(ONE_C) if subset_of(n) == sub]
    keep = [n for i, n in enumerate(nums) if (i % 2 == 0) != drop]
    it.setattr(io, "actual_messages", mkset(it, keep))
    run(it, attr(it, top, "register_decoder"), io)
    done = 0
    for n in nums:
        m = build(ONE_C[n], f"m{n}")
        ctx.inputs = {"message": m.frame()}
        x, pc, excs = run(it, attr(it, top, "decode"), m.frame())
        for e in excs:
            ctx.fail("decode() must not raise", repr(e), e.g, e.site)
        done += n in keep
        ctx.same(f"attempts after {n}", it.getattr(top, "dec_attempts"), done, pc, "DecoderTop.decode")
        for g, y in V.alts(x):
            got = bdd.conj(g, pc) if y is not None else 0
            acc = accepted(m, "JSON") if n in keep else 0
            ctx.holds(f"{n} decoded exactly if declared", acc, got, f"{n} is decoded although it is not declared", "DecoderTop.decode")


def subset_of(n):
    if n in EPHN:
        return "EPH"
    if n in MSMN:
        return "MSM13O" if n % 10 < 4 else "MSM47O"
    return "BASE"


PRINTERS = {"MARGO": ("PrintMARGO", "MARGO", 1077), "JSON": ("PrintJSON", "JSON", 1005)}


def reg_printer(ctx, fmt, defect, topfmt):
    it, W = fresh(ctx)
    pt = it.get_module("printer_top")
    top = it.call(attr(it, pt, "PrinterTop"))
    if topfmt is not None:
        it.setattr(top, "format", topfmt)
    exist = topfmt in ("MARGO", "JSON", "JARGO")
    ctx.same("exist", it.getattr(top, "exist"), exist, 1, "PrinterTop.exist")
    cls, mode, num = PRINTERS[fmt]
    real = it.call(attr(it, it.get_module("printers"), cls), [OUT, None])
    io = it.getattr(real, "io")
    if defect in ("stub", "noprint", "noclose"):
        bare = it.call(attr(it, pt, "SubPrinterInterface"))
        for n in ("data_spec", "actual_spec") + (("close",) if defect == "noprint" else ("print",) if defect == "noclose" else ()):
            it.setattr(bare, n, it.getattr(io, n))
        io = bare
    elif defect == "empty":
        it.setattr(io, "actual_spec", mkset(it))
    elif defect == "alien":
        io = real
    elif defect == "None":
        io = None
    good = defect == "none" and exist
    mark = len(it.effects)
    v, pc, excs = run(it, attr(it, top, "add_subprinter"), io)
    for e in excs:
        ctx.fail("add_subprinter() must not raise", repr(e), e.g, e.site)
    ctx.same(f"add_subprinter() with {defect} defect", v, good, pc, "PrinterTop.add_subprinter")
    ctx.same("ready", it.getattr(top, "ready"), good, pc, "PrinterTop.ready")
    err = logged_error(it, mark)
    ctx.holds("refusal is logged, acceptance is not", bdd.neg(err) if good else err, 1, "error entry " + ("unexpected" if good else "missing"), "PrinterTop.add_subprinter")
    # used exactly if accepted
    m = build(ONE_C[num], "m")
    ctx.inputs = {"message": m.frame()}
    dec = it.call(attr(it, it.get_module("sub_decoders"), SUBDEC[subset_of(num)]))
    rec = it.call(attr(it, dec, "decode"), [m.frame()])
    acc = accepted(m, "JSON")
    it.pc = acc
    rec = V.restrict(rec, acc)
    _, pc, excs = run(it, attr(it, top, "print"), rec)
    for e in excs:
        ctx.fail("print() must not raise", repr(e), e.g, e.site)
    ctx.same("print attempts", it.getattr(top, "attempts"), int(good), pc, "PrinterTop.print")
    ctx.same("print errors", it.getattr(top, "errors"), 0, pc, "PrinterTop.print")
    made = c_run.gor([n.exists for p, n in W.files.items() if p.startswith(OUT + "/") and p != LOG])
    ctx.holds("printed exactly if registered", made if good else bdd.neg(made), acc, "record " + ("is not printed" if good else "is printed by a refused sub-printer"), "PrinterTop.print")


def factory(ctx, mode, ok):
    it, W = ctx.interp(files={"/w/c.ini": Ctl().ini()}, dirs=["/w", OUT])
    cc = it.call(attr(it, it.get_module("controls"), "ConverterControls"))
    it.call(attr(it, cc, "init_from_file"), ["/w/c.ini"])
    box = it.getattr(cc, "boxed_controls")
    cf, pc, excs = run(it, attr(it, it.get_module("converter_top"), "ConverterFactory"), *([] if mode is None else [mode]))
    for e in excs:
        ctx.fail("ConverterFactory() must not raise", repr(e), e.g, e.site)
    v, pc, excs = run(it, cf, OUT, box)
    for e in excs:
        ctx.fail("the factory must not raise", repr(e), e.g, e.site)
    for g, x in V.alts(v):
        ctx.holds(f"converter for mode {mode!r}", int((x is not None) == ok), bdd.conj(g, pc), f"mode {mode!r}: {'no converter' if ok else 'a converter is created'}", "ConverterFactory")


def reg_scen(tier):
    out = []
    for sub in SUBDEC:
        for d in DEFECTS:
            out.append((f"decoder {sub} {d}", "reg_decoder", (sub, d)))
        out.append((f"second decoder {sub}", "reg_second", (sub,)))
        out.append((f"decoder {sub} declares some messages", "only_actual", (sub, False)))
        out.append((f"decoder {sub} declares the others", "only_actual", (sub, True)))
    for fmt in PRINTERS:
        for d in ("none", "stub", "noprint", "noclose", "empty", "alien", "None"):
            for t in (fmt, None, "XML", "") if d == "none" else (fmt,):
                out.append((f"printer {fmt} {d} in {t!r}", "reg_printer", (fmt, d, t)))
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO", None):
        out.append((f"factory {mode}", "factory", (mode, True)))
    for mode in ("margo", "", "JSON-C", "MARGO ", "RINEX"):
        out.append((f"factory {mode!r}", "factory", (mode, False)))
    return out


# --- C34 -------------------------------------------------------------------------------------------


def cmdline(ctx, argv, mode, chosen, shift=None, inputs=(), viastr=False):
    """the run converts exactly the chosen sources, in the given mode and with the given configuration"""
    M = [("m", c_run.REF), ("m", c_run.omsm(1077)), ("m", c_run.omsm(1087, (3, 7)))]
    P = ["/w/in/a.rtcm3", "/w/in/b.rtcm3", "/w/in/a.bin", "/w/in/C.OBS", "/w/in/d.v1.Dat"]
    srcs = {p: c_run.Source(M, f"s{i}") for i, p in enumerate(P)}
    user = Ctl(shift=27)
    r = c_run.Main(ctx, " ".join(argv) if viastr else None, srcs, Ctl(), extra={"/w/u.ini": user.ini()}, inputs=inputs,
                   argv=("prog",) + tuple(argv))
    r.ctl = user if shift == 27 else r.ctl
    if chosen is None:
        # refused: the program ends before touching anything
        ended = c_run.gor([e.g for e in r.excs if "SystemExit" in str(e.cls)])
        ctx.holds("a bad command line ends the program", ended, 1, f"{argv} is accepted", "create_argument_parser")
        for e in r.it.effects:
            if e.kind in ("mkdir", "rmtree", "remove", "rmdir", "rename", "write", "makedirs", "unlink"):
                ctx.fail("nothing is touched", f"{e.kind} of {e.data.get('path')}", e.g, r.site(e))
        ctx.ok()
        return
    r.no_escape()
    for p in chosen:
        sp = r.outputs(p, mode)
        r.status(p, mode, sp)
    for p in P:
        for md in c_run.MODES:
            f = c_run.folder(p, md)
            if p in chosen and md == mode or f in [c_run.folder(q, mode) for q in chosen]:
                continue
            ctx.holds(f"{f} is not made", bdd.neg(r.W.dirs.get(f, 0)), 1, f"{f} is created", "main")


def cmd_scen(tier):
    out = []
    A, B, Z = "/w/in/a.rtcm3", "/w/in/b.rtcm3", "/w/in/a.bin"
    for s in (False, True):
        k = "call" if s else "argv"
        add = lambda name, argv, mode, chosen, **kw: out.append((f"{k} {name}", "cmdline_kw", ((argv, mode, chosen), {**kw, "viastr": s})))
        add("source only", ["in/a.rtcm3"], "MARGO", [A])
        for mode in c_run.MODES:
            add(f"-o {mode}", ["-o", mode, "in/a.rtcm3"], mode, [A])
            add(f"--output {mode}", ["--output", mode, "in/b.rtcm3"], mode, [B])
            add(f"--output={mode}", [f"--output={mode}", "in/b.rtcm3"], mode, [B])
            add(f"source before -o {mode}", ["in/a.rtcm3", "in/b.rtcm3", "-o", mode], mode, [A, B])
            add(f"-i and -o {mode}", ["-i", "u.ini", "-o", mode, "in/a.rtcm3"], mode, [A], shift=27)
            add(f"--ini and -o {mode}", ["in/b.rtcm3", "--ini", "u.ini", "-o", mode], mode, [B], shift=27)
            add(f"missing ini and -o {mode}", ["-i", "no.ini", "-o", mode, "in/a.rtcm3"], mode, [A])
        add("folder", ["in"], "MARGO", [A, B], inputs=["1 2"])
        add("folder, one", ["-o", "JSON", "in"], "JSON", [B], inputs=["2"])
        add("folder, -ext", ["-ext", "bin", "-o", "JSON", "in"], "JSON", [Z], inputs=["1"])
        add("folder, -ext of nothing", ["-ext", "obs", "in"], "MARGO", [])
        add("folder, -ext in capitals", ["-ext", "OBS", "in"], "MARGO", ["/w/in/C.OBS"], inputs=["1"])
        add("folder, -ext with a dot", ["-ext", "v1.Dat", "in", "-o", "JSON-B"], "JSON-B", ["/w/in/d.v1.Dat"], inputs=["1"])
        add("-ext with files", ["-ext", "bin", "in/a.rtcm3"], "MARGO", [A])
        add("other extension", ["in/a.bin", "-o", "JSON-B"], "JSON-B", [Z])
        for bad in (["-o", "RINEX", "in/a.rtcm3"], ["-o", "json", "in/a.rtcm3"], ["-o"], ["-o", "JSON"], [], ["-q", "in/a.rtcm3"],
                    ["-i", "u.ini"], ["--output=", "in/a.rtcm3"], ["-v"], ["--version"], ["-h"], ["in/a.rtcm3", "--bogus"]):
            if bad or not s:
                add(f"bad {' '.join(bad)!r}", bad, None, None)
    return out


def cmdline_kw(ctx, a, kw):
    cmdline(ctx, *a, **kw)


def scenarios(prop, tier):
    return {"C31": class_scen, "C32": trace_scen, "C33": reg_scen, "C34": cmd_scen}[prop](tier)
