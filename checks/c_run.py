"""C24, C25, C26, C28: whole program runs through main()."""

import posixpath

from .base import *
from .conv import *
from . import msgs
from .c_dec import build, sup

MODES = ("MARGO", "JSON", "JSON-B", "JARGO")
UNKNOWN = 4072


def fvar(*k):
    return bdd.var(("fault",) + k)


class Source:
    """Content of one source file and what has to come out of it."""

    def __init__(self, items, tag):
        self.el = []
        self.frames = []  # (msg or None, valid guard, end offset)
        self.gaps = []  # guard: something unusable lies before frame i (since frame i-1)
        noise = 0
        n = 0
        for d in items:
            k = d[0]
            t = f"{tag}{n}"
            n += 1
            if k == "n":
                b = bytes.fromhex(d[1])
                assert 0xD3 not in b
                self.el += list(b)
                noise = 1
                continue
            if k == "fill":
                while len(self.el) < d[1]:
                    left = d[1] - len(self.el)
                    L = min(left, 520) if left < 520 or left > 540 else 260
                    self._add(None, list(V.belems(with_crc(self._unknown(L - 6)))), 1, noise)
                    noise = 0
                continue
            m = None
            if k in ("m", "c"):
                m = build(d[1], t)
                fr = list(V.belems(with_crc(m.payload)))
            else:
                fr = list(V.belems(with_crc(self._unknown(d[1]))))
            ok = 1
            if k in ("c", "uc"):
                if not all(isinstance(x, int) and (i == 0 or x != 0xD3) for i, x in enumerate(fr)):
                    raise Undecided("corrupted frame must be free of preambles")
                bad = bdd.var(("bit", f"corrupt.{t}", 0))
                b = list(U(fr[-1], 8))
                b[3] = bdd.xor(b[3], bad)
                fr[-1] = V.from_bits(list(reversed(b)))
                assert fr[-1] != 0xD3 
                ok = bdd.neg(bad)
            self._add(m, fr, ok, noise)
            noise = 0
        self.bytes = V.mkbytes(self.el)

    def _unknown(self, n):
        assert n >= 2
        return [UNKNOWN >> 4, (UNKNOWN & 15) << 4] + [0] * (n - 2)

    def _add(self, m, fr, ok, noise):
        self.el += fr
        self.frames.append((m, ok, len(self.el)))
        self.gaps.append(noise)

    def spec(self, mode, ctl, g, delivered=None, usable=None):
        """expected outcome under guard g; delivered(end) -> guard that the
        bytes up to end reached the converter; usable(relative path) -> guard
        that this output file can be written"""
        delivered = delivered or (lambda e: g)
        usable = usable or (lambda p: 1)
        js, mg = {}, {}
        att, perr, derr, xerr = [], [], [], []
        seen = gap = 0
        for (m, ok, end), noise in zip(self.frames, self.gaps):
            here = bdd.conj(g, delivered(end))
            ok = bdd.conj(ok, here)
            if noise:
                gap = bdd.disj(gap, seen)
            perr.append(bdd.conj(ok, gap))
            gap = bdd.conj(bdd.disj(gap, seen), bdd.neg(ok))
            seen = bdd.disj(seen, ok)
            f = fmt_of(m, mode) if m is not None else None
            if not f:
                continue
            att.append(ok)
            acc = bdd.conj(ok, accepted(m, mode))
            derr.append(bdd.diff(ok, acc))
            if f == "JSON":
                u = usable(m.file)
                xerr.append(bdd.diff(acc, u))
                js.setdefault(m.file, (m.typ(mode), []))[1].append((bdd.conj(acc, u), m.rec(mode)))
            else:
                legal = margo_time(m, ctl)[1]
                if legal != 1:
                    raise Undecided("time of the message")
                fail = 0
                for fn, (pres, t, cols, p, lit) in margo_rows(m, ctl).items():
                    u = usable(fn)
                    fail = bdd.disj(fail, bdd.diff(bdd.conj(acc, pres), u))
                    mg.setdefault(fn, (m.gnss, []))[1].append((bdd.conj(acc, u), pres, t, cols, p, lit))
                xerr.append(fail)
        return {"json": js, "margo": mg, "att": att, "perr": perr, "derr": derr, "xerr": xerr}


def gor(gs):
    r = 0
    for g in gs:
        r = bdd.disj(r, g)
    return r


def folder(path, mode):
    return posixpath.splitext(path)[0] + "-" + mode


def logname(path, mode):
    return folder(path, mode) + "/" + posixpath.splitext(posixpath.basename(path))[0] + "-log.txt"


class Main:
    """One run of the program."""

    def __init__(self, ctx, args, files, ctl=None, dirs=(), faults=None, inputs=(), extra=None, argv=None, ini=True, it=None):
        self.ctx = ctx
        self.ctl = ctl or Ctl()
        fs = {"/w/defaults.ini": self.ctl.ini()} if ini else {}
        self.src = {}
        for p, s in files.items():
            self.src[p] = s if isinstance(s, Source) else None
            fs[p] = s.bytes if isinstance(s, Source) else s
        for p, c in (extra or {}).items():
            fs[p] = c
        ctx.inputs = {p: s.bytes for p, s in self.src.items() if s}
        self.it, self.W = ctx.interp(files=fs, dirs=dirs, faults=faults, inputs=inputs, argv=argv or ("prog",))
        self.pre = {p: n.content for p, n in self.W.files.items()}
        self.predirs = set(self.W.dirs)
        self.call(args)

    def call(self, args):
        f = attr(self.it, self.it.get_module("run_conversion"), "main")
        _, self.pc, self.excs = run(self.it, f, *([] if args is None else [args]))

    def no_escape(self):
        if not self.excs:
            self.ctx.ok()
        for e in self.excs:
            self.ctx.fail("main() must not raise", f"{e.cls} escapes from main(): {e!r}", e.g, e.site)

    # --- observations

    def logs(self, path):
        """[(guard, level, message)] that reached the log file"""
        out = []
        for e in self.it.effects:
            if e.kind != "log":
                continue
            g = gor([h for h, x in e.data["to"] if getattr(x, "file", None) is not None and x.file.abspath == path])
            g = bdd.conj(g, e.g)
            if g:
                out.append((g, e.data["level"], e.data["msg"]))
        return out

    def said(self, path, word):
        r = 0
        for g, lv, msg in self.logs(path):
            for h, x in V.alts(msg):
                if word in "".join(p for p in V.sparts(x) if isinstance(p, str)):
                    r = bdd.disj(r, bdd.conj(g, h))
        return r

    def delivered(self, path):
        """guard function: bytes up to an offset were handed out by the file"""
        reads = []
        for e in self.it.effects:
            if e.kind == "read" and e.data["path"] == path:
                for h, d in V.alts(e.data["data"]):
                    reads.append((bdd.conj(e.g, h), len(V.belems(d))))
        def f(end):
            tot = [(1, 0)]
            for g, n in reads:
                if not n:
                    continue
                nxt = {}
                for h, t in tot:
                    for k, x in ((bdd.conj(h, g), t + n), (bdd.diff(h, g), t)):
                        if k:
                            nxt[x] = bdd.disj(nxt.get(x, 0), k)
                tot = [(h, t) for t, h in nxt.items()]
            return gor([h for h, t in tot if t >= end])
        return f

    # --- obligations

    def outputs(self, path, mode, g=1, usable=None, partial=False):
        """products of the source are as specified under guard g"""
        ctx, W = self.ctx, self.W
        s = self.src[path]
        sp = s.spec(mode, self.ctl, g, self.delivered(path) if partial else None, usable)
        fld = folder(path, mode)
        for fn, (t, recs) in sp["json"].items():
            check_json_file(ctx, W, f"{fld}/{fn}", t, recs, self.ctl.pretty)
        for fn, (gnss, rows) in sp["margo"].items():
            check_margo_file(ctx, W, f"{fld}/{fn}", gnss, rows, self.ctl)
        for p, n in W.files.items():
            if p.startswith(fld + "/") and n.exists:
                rel = p[len(fld) + 1 :]
                if rel not in sp["json"] and rel not in sp["margo"] and p != logname(path, mode):
                    ctx.fail("no other output file", f"unexpected {p}", n.exists)
        return sp

    def status(self, path, mode, sp, g=1, done=1):
        """final report; done: guard that the source was read to its end"""
        ctx = self.ctx
        lp = logname(path, mode)
        err = gor(sp["perr"] + sp["derr"] + sp["xerr"])
        done = bdd.conj(done, g)
        ok = self.said(lp, "without errors")
        bad = self.said(lp, "with errors")
        term = self.said(lp, "terminated.")
        ctx.holds("success is reported", ok, bdd.diff(done, err), "no report of an error-free conversion", "main")
        ctx.holds("success is not reported after errors", bdd.neg(ok), err, "conversion with errors is reported as error-free", "main")
        ctx.holds("errors are reported", bad, bdd.conj(done, err), "errors are not reported", "main")
        ctx.holds("no error report without errors", bdd.neg(bad), bdd.diff(done, err), "an error-free conversion is reported as faulty", "main")
        part = bdd.diff(g, done)
        ctx.holds("termination is reported", term, part, "an aborted conversion is not reported", "main")
        ctx.holds("no success after termination", bdd.neg(ok), part, "an aborted conversion is reported as error-free", "main")

    def progress(self, path, mode, sp):
        """the last progress line carries the totals"""
        size = len(self.src[path].el)
        last = None
        for g, lv, msg in self.logs(logname(path, mode)):
            for h, x in V.alts(msg):
                if "messages" in "".join(p for p in V.sparts(x) if isinstance(p, str)):
                    last = (g, msg)
        if not size:
            return
        if last is None or last[0] != 1:
            self.ctx.fail("progress is reported", "no progress line", 1 if last is None else bdd.neg(last[0]), "decode_rtcm_file")
            return
        msg = V.merge([(g, self.it.expand(x, 512) or x if isinstance(x, SStr) else x) for g, x in V.alts(last[1])])
        gs = [g for k in ("att", "perr", "derr", "xerr") for g in sp[k]]
        for c in split_cells([1], [g for g in gs if g not in (0, 1)]):
            n = {k: sum(1 for g in sp[k] if bdd.conj(g, c)) for k in ("att", "perr", "derr", "xerr")}
            exp = f"100.00%, {n['att']} messages, prs-dec-prnt errors {n['perr']}-{n['derr']}-{n['xerr']}."
            self.ctx.same("totals in the last progress line", msg, exp, c, "decode_rtcm_file")

    def finalised(self):
        """every handle that was opened is closed when main() is left"""
        closed = {}
        for e in self.it.effects:
            if e.kind == "close" and e.data.get("file") is not None:
                closed[id(e.data["file"])] = bdd.disj(closed.get(id(e.data["file"]), 0), e.g)
        for fo in self.W.opened:
            self.ctx.holds(f"{fo.abspath} is closed", closed.get(id(fo), 0), fo.open_guard, f"{fo.abspath} ({fo.mode}) stays open", "main")

    def json_sound(self, fld):
        """every JSON product is one well-formed array starting with the type header"""
        ctx = self.ctx
        for p, n in self.W.files.items():
            if not (p.startswith(fld + "/") and p.endswith(".json") and n.exists):
                continue
            for c, parts, _ in file_cells(self.W, p, n.exists):
                try:
                    doc = parse_json(parts)
                except ValueError as e:
                    ctx.fail(f"{p}: well-formed JSON", str(e), c, "PrintJSON")
                    continue
                if not (isinstance(doc, Snap) and doc.kind == "l" and doc.items):
                    ctx.fail(f"{p}: JSON array", "not an array with a type header", c, "PrintJSON")
                else:
                    ctx.ok()

    def contained(self, sources, mode, skipped=None):
        """file system effects stay inside the work folders; skipped(path) ->
        guard that no folder could be provided for the source"""
        ctx, W = self.ctx, self.W
        flds = {folder(p, mode): p for p in sources}
        inside = lambda p: next((f for f in flds if p == f or p.startswith(f + "/")), None)
        for e in self.it.effects:
            k = e.kind
            p = e.data.get("path")
            if k == "open":
                wr = e.data["mode"][0] != "r" or "+" in e.data["mode"]
                if not wr:
                    ctx.ok()
                    continue
            elif k not in ("mkdir", "rmtree", "remove", "rmdir", "rename", "write", "chdir", "makedirs", "unlink"):
                continue
            for q in [p] + ([e.data["dst"]] if "dst" in e.data else []):
                f = inside(q)
                if f is None:
                    ctx.fail("effects stay inside the work folder", f"{k} of {q}, work folders {sorted(flds)}", e.g, self.site(e))
                    continue
                if skipped and k in ("open", "write") :
                    ctx.holds("nothing is written when the work folder is not available", bdd.neg(skipped(flds[f])), e.g,
                              f"{k} of {q}", self.site(e))
                else:
                    ctx.ok()
        for p, c in self.pre.items():
            n = W.files[p]
            f = inside(p)
            if f is None:
                ctx.holds(f"{p} survives", n.exists, 1, f"{p} is deleted", "run_conversion")
                w = gor([g for g, _, _ in W.written(p)] + [op[1] for op in n.ops])
                ctx.holds(f"{p} is unchanged", bdd.neg(w), 1, f"{p} is overwritten", "run_conversion")
            else:
                sk = skipped(flds[f]) if skipped else 0
                old = bdd.diff(n.exists, gor([op[1] for op in n.ops if op[0] == "trunc"]))
                ctx.holds(f"stale {p} is gone", bdd.neg(old), bdd.neg(sk), "product of an earlier run survives in the work folder", "create_work_folder")
        for d in self.predirs:
            if inside(d) is None:
                ctx.holds(f"directory {d} survives", W.dirs.get(d, 0), 1, f"directory {d} is deleted", "run_conversion")

    def site(self, e):
        return str(e.stack[-1]) if getattr(e, "stack", None) else None


# --- building blocks ---------------------------------------------------------------------------

REF = ("ref", 1005)
REFH = ("ref", 1006)
BIAS = ("bias", 9)
SYS = ("sys", [1005])
REFLEN = 25  # bytes of a REF frame


def omsm(n, sats=(2, 5), sg=None, cut=0):
    """concrete observables"""
    for salt in range(200):
        d = ("msm", n, list(sats), list(sg or sup(n)[:2]), {"sym": [], "hdrsym": False, "cut": cut, "const": {"salt": salt}})
        fr = V.belems(with_crc(build(d, "x").payload))
        if 0xD3 not in fr[1:] and fr[-1] ^ 0x10 != 0xD3:
            return d
    raise Undecided("no frame free of preambles")


# --- C26 ------------------------------------------------------------------------------------------


def whole(ctx, mode, items, ctlkw=None, args=None, name="a.rtcm3"):
    s = Source(items, "s")
    p = "/w/in/" + name
    r = Main(ctx, args or f"-o {mode} {p}", {p: s}, Ctl(**(ctlkw or {})))
    r.no_escape()
    sp = r.outputs(p, mode)
    r.status(p, mode, sp)
    r.progress(p, mode, sp)


def whole_scen(tier):
    out = []
    for mode in MODES:
        add = lambda name, items, **kw: out.append((f"{mode} {name}", "whole", (mode, items), kw))
        a, b = omsm(1077), omsm(1127)
        x = omsm(1077, cut=1)
        sc = {
            "empty file": [],
            "noise only": [("n", "00ff55")],
            "one message": [("m", REF)],
            "messages in order": [("m", REF), ("m", a), ("m", REF), ("m", b), ("m", BIAS), ("m", a)],
            "possibly corrupted messages": [("c", a), ("c", b), ("c", a), ("c", b), ("c", omsm(1087, (3, 7)))],
            "corrupted between symbolic": [("m", REF), ("c", a), ("m", REF), ("uc", 30), ("c", b), ("m", SYS)],
            "noise between": [("n", "0102"), ("m", REF), ("n", "55"), ("m", a), ("m", b), ("n", "aa55aa"), ("n", "00"), ("c", a), ("n", "01"), ("m", BIAS), ("n", "77")],
            "undecodable messages": [("m", a), ("m", x), ("m", REF), ("c", x), ("c", a)],
            "only undecodable": [("m", x)],
            "undecodable or lost": [("c", x), ("c", x)],
            "unknown messages": [("u", 2), ("m", REF), ("u", 1023), ("m", a), ("uc", 40), ("u", 3)],
            "exactly one chunk": [("m", REF), ("fill", 4000), ("m", a), ("fill", 4096)],
            "exactly two chunks": [("m", a), ("fill", 8000), ("m", REF), ("fill", 8192)],
            "across the first boundary": [("fill", 4090), ("m", REF), ("m", a), ("fill", 6000), ("c", b)],
            "header across the boundary": [("fill", 4094), ("m", REF), ("m", BIAS)],
            "preamble last in the chunk": [("fill", 4095), ("c", a), ("m", REF)],
            "checksum across the boundary": [("fill", 4071), ("m", REF), ("m", a)],
            "noise across the boundary": [("m", REF), ("fill", 4093), ("n", "0102030405"), ("m", a), ("fill", 8190), ("n", "00010203"), ("c", b), ("m", REF)],
            "one byte past a chunk": [("m", a), ("fill", 4097 - REFLEN), ("m", REF)],
            "message ends with the chunk": [("m", a), ("fill", 4096 - REFLEN), ("m", REF)],
            "one byte less than a chunk": [("fill", 4095 - REFLEN), ("m", REF)],
            "one byte past two chunks": [("m", a), ("fill", 8193 - REFLEN), ("m", REF)],
            "blocks without messages": [("m", REF), ("fill", 4500), ("n", "5500" * 4500), ("m", a), ("n", "00" * 5000), ("m", b), ("n", "aa" * 8200)],
            "blocks of zeros and ones": [("m", REF), ("n", "00" * 9000), ("m", a), ("n", "ff" * 9000), ("m", b)],
            "noise blocks first": [("n", "55" * 9000), ("m", a), ("m", REF)],
            "blocks of unhandled messages": [("m", REF), ("fill", 14000), ("m", a), ("fill", 30000), ("m", b), ("fill", 38200)],
            "long file": [("m", REF), ("m", a)] * 2 + [("fill", 66000), ("m", REF), ("c", b), ("fill", 70000), ("m", a)],
            "many messages": [("m", a), ("m", b)] * 60 + [("m", REF)] + [("m", a)] * 20,
            "three chunks": [("m", a), ("fill", 4090), ("c", b), ("fill", 8180), ("m", REF), ("c", a), ("fill", 12400), ("m", b)],
        }
        if tier == "thorough":
            for o in range(4096 - 26, 4097):
                sc[f"message starts at {o}"] = [("m", a), ("fill", o), ("m", REF), ("c", b)]
            for o in range(8192 - 26, 8193, 3):
                sc[f"message starts at {o}"] = [("c", a), ("fill", o), ("m", REF), ("c", b)]
        for name, items in sc.items():
            out.append((f"{mode} {name}", "whole", (mode, items)))
        out.append((f"{mode} name with dots", "whole", (mode, [("m", a), ("m", REF)], None, None, "a.2024.x.rtcm3")))
        out.append((f"{mode} toggles", "whole", (mode, [("m", a), ("c", omsm(1087, (3, 7))), ("m", REF)], {"hca": True, "lock": True, "pretty": False})))
        for nm, items in (("files that cannot be written", [("m", REF), ("m", omsm(1077, (2,))), ("m", REF), ("m", BIAS)]),
                          ("unwritable and lost", [("c", omsm(1074, (2,), [2])), ("m", REF), ("c", omsm(1074, (2,), [2]))])):
            out.append((f"{mode} {nm}", "faulted", (mode, items, ("out",), None, False, True)))
    out.append(("default mode", "whole", ("MARGO", [("m", omsm(1077)), ("m", REF)], {}, "/w/in/a.rtcm3")))
    return out


# --- C24 ------------------------------------------------------------------------------------------


def contain(ctx, mode, names, args, extra=None, dirs=(), faulty=("rmtree", "mkdir", "open"), inputs=(), asfile=(), missing=()):
    """one run over several sources with every file system fault possible"""
    items = [("m", omsm(1077)), ("c", omsm(1087, (3, 7))), ("m", REF), ("c", omsm(1077, cut=1))]
    files = {p: Source(items, f"s{i}") for i, p in enumerate(names)}
    flds = {folder(p, mode): p for p in names}

    def faults(kind, path, n):
        if kind in faulty and any(path == f or path.startswith(f + "/") for f in flds):
            return fvar(kind, path)
        if kind == "open" and "source" in faulty and path in files:
            return fvar(kind, path)
        return 0

    ex = {"/w/in/keep.txt": "x", "/w/in/other-MARGO/keep.obs": "x", "/w/in-JSON": "x", "/w/a-JSON/GPS/k.obs": "x", "/keep": "x"}
    for f, p in flds.items():
        if p in asfile:
            ex[f] = "x"
        else:
            ex.update({f + "/stale.json": "x", f + "/GPS/GC1C_MSM7.obs": "x", f + "/EPH/old/deep.txt": "x", f + "2/keep": "x", f[:-1] + "/keep": "x"})
    ex.update(extra or {})
    for p in list(ex):
        if p in files:
            del ex[p]
    r = Main(ctx, args, files, extra=ex, dirs=list(dirs) + ["/w/in/emptydir"], faults=faults, inputs=inputs)
    r.no_escape()

    def skipped(p):
        f = folder(p, mode)
        if p in asfile:
            return 1
        g = fvar("mkdir", f) if "mkdir" in faulty else 0
        return bdd.disj(g, fvar("rmtree", f) if "rmtree" in faulty else 0)

    r.contained([p for p in names if p not in missing], mode, skipped)


def contain_scen(tier):
    out = []
    for mode in MODES:
        add = lambda name, *a, **kw: out.append((f"{mode} {name}", "contain_kw", ((mode,) + a, kw)))
        add("one source", ["/w/in/a.rtcm3"], f"-o {mode} /w/in/a.rtcm3")
        add("no faults", ["/w/in/a.rtcm3"], f"-o {mode} /w/in/a.rtcm3", faulty=())
        add("relative path", ["/w/in/a.rtcm3"], f"-o {mode} in/a.rtcm3")
        add("dotted path", ["/w/in/a.b.c"], f"-o {mode} ../w/./in/a.b.c")
        add("no extension", ["/w/in/obs"], f"-o {mode} in/obs")
        add("dots in folder", ["/w/in.d/obs"], f"-o {mode} in.d/obs")
        add("hidden file", ["/w/in/.rtcm3"], f"-o {mode} in/.rtcm3")
        for nm in ("a-.rtcm3", "a--", "a_.x", "a.", "a..rtcm3", "A-JSON.rtcm3", "-MARGO.rtcm3", "rtcm3", "0", "MARGO", "a.rtcm3.rtcm3", "a.RTCM3", "a.rtcm3-"):
            add(f"name {nm}", ["/w/in/" + nm], f"-o {mode} in/" + nm, faulty=())
        add("names that resemble each other", ["/w/in/a.rtcm3", "/w/in/a-.rtcm3", "/w/in/a"], f"-o {mode} in/a-.rtcm3", faulty=(),
            missing=("/w/in/a.rtcm3", "/w/in/a"))
        add("two sources", ["/w/in/a.rtcm3", "/w/b.rtcm3"], f"-o {mode} in/a.rtcm3 b.rtcm3", faulty=("rmtree", "mkdir"))
        add("source not readable", ["/w/in/a.rtcm3", "/w/in/b.rtcm3"], f"-o {mode} in/a.rtcm3 in/b.rtcm3", faulty=("source",))
        add("folder name taken by a file", ["/w/in/a.rtcm3"], f"-o {mode} in/a.rtcm3", asfile=("/w/in/a.rtcm3",), faulty=())
        add("missing source", ["/w/in/a.rtcm3"], f"-o {mode} in/none.rtcm3 in/a.rtcm3", faulty=("mkdir",))
        add("folder source", ["/w/in/a.rtcm3", "/w/in/b.rtcm3"], f"-o {mode} in", inputs=["2"], missing=("/w/in/a.rtcm3",), faulty=("rmtree", "mkdir"))
    return out


def contain_kw(ctx, a, kw):
    contain(ctx, *a, **kw)


# --- C25 ------------------------------------------------------------------------------------------


def faulted(ctx, mode, items, what, args=None, second=True, totals=False):
    """what: which faults may happen"""
    p, q = "/w/in/a.rtcm3", "/w/in/b.rtcm3"
    files = {p: Source(items, "a")}
    if second:
        files[q] = Source([("m", omsm(1097)), ("m", REF)], "b")
    fld = folder(p, mode)
    lp = logname(p, mode)

    def faults(kind, path, n):
        if kind == "open" and path == p and "source" in what:
            return [(fvar(kind, path, "oserror"), PermissionError), (fvar(kind, path, "missing"), FileNotFoundError)]
        if kind == "read" and path == p and "read" in what:
            return [(fvar(kind, path, n, "error"), OSError), (fvar(kind, path, n, "interrupt"), KeyboardInterrupt)]
        if not path.startswith(fld + "/"):
            return 0
        if kind == "open" and path == lp:
            return fvar(kind, path) if "log" in what else 0
        if kind in ("open", "mkdir") and "out" in what:
            return fvar(kind, path)
        if kind in ("open", "mkdir") and "interrupt" in what:
            return [(fvar(kind, path, n, "interrupt"), KeyboardInterrupt)]
        return 0

    def usable(rel):
        if "out" not in what:
            return 1
        d = posixpath.dirname(rel)
        u = bdd.neg(fvar("open", f"{fld}/{rel}"))
        return bdd.diff(u, fvar("mkdir", f"{fld}/{d}")) if d else u

    r = Main(ctx, args or f"-o {mode} " + " ".join(files), files, faults=faults)
    r.no_escape()
    r.finalised()
    r.json_sound(fld)
    intr = "interrupt" in what
    done = 1
    if "source" in what:
        done = bdd.neg(bdd.disj(fvar("open", p, "oserror"), fvar("open", p, "missing")))
    if "read" in what:
        size = len(files[p].el)
        full = r.delivered(p)(size)
        rd = gor([bdd.var(("fault", "read", p, k, w)) for k in range(r.W.nth.get(("read", p), 0)) for w in ("error", "interrupt")])
        done = bdd.conj(done, bdd.neg(rd))
        ctx.holds("the source is read completely", full, done, "source is not read to its end", "decode_rtcm_file")
    if intr:
        hit = gor([fvar(k, pa, n, "interrupt") for (k, pa), c in r.W.nth.items() if pa.startswith(fld + "/") and pa != lp
                   for n in range(c) if k in ("open", "mkdir")])
        ok = r.said(lp, "without errors")
        term = r.said(lp, "terminated.")
        used = 0
        for e in r.it.effects:
            pass
        ctx.holds("no interruption: success", ok, bdd.neg(hit), "no report of an error-free conversion", "main")
        ctx.holds("either success or termination is reported", bdd.xor(ok, term), 1, "final report is missing or contradictory", "main")
    else:
        sp = r.outputs(p, mode, 1, usable, partial=True)
        if "log" not in what:
            r.status(p, mode, sp, 1, done)
        if totals:
            r.progress(p, mode, sp)
    if second:
        sp = r.outputs(q, mode)
        r.status(q, mode, sp)


def fault_scen(tier):
    out = []
    for mode in MODES:
        a = omsm(1077)
        b = omsm(1127)
        some = [("m", REF), ("m", a), ("m", REF), ("m", b), ("m", BIAS), ("m", a), ("c", a)]
        few = [("m", REF), ("m", omsm(1074, (2,), [2])), ("m", REF), ("c", omsm(1074, (2,), [2]))]
        long = [("m", REF), ("m", a), ("fill", 4090), ("m", REF), ("m", b), ("fill", 8100), ("c", a), ("m", REF), ("m", b)]
        for name, items in (("some", some), ("three chunks", long), ("few", few), ("nothing", [("n", "00")]), ("empty", [])):
            for w in (("source",), ("read",), ("log",), ("log", "read")):
                out.append((f"{mode} {name}: faults of {'+'.join(w)}", "faulted", (mode, items, w)))
        for name, items in (("some", some), ("few", few)):
            for w in (("out",), ("interrupt",)):
                if name == "some" and mode != "JSON" and w == ("interrupt",):
                    continue
                out.append((f"{mode} {name}: faults of {'+'.join(w)}", "faulted", (mode, items, w)))
        out.append((f"{mode} few: faults of out+read", "faulted", (mode, few, ("out", "read"))))
    return out


# --- C28 ------------------------------------------------------------------------------------------

BATCH = {
    "a": [("m", REF), ("m", omsm(1077)), ("c", omsm(1087, (3, 7)))],
    "b": [("m", omsm(1127)), ("c", omsm(1077, cut=1)), ("m", REF), ("fill", 4200), ("m", omsm(1127))],
    "c": [("n", "0011"), ("m", REF), ("n", "33"), ("m", BIAS), ("m", omsm(1077, (1, 9)))],
    "d": [],
    "e": [("c", omsm(1077)), ("u", 7), ("c", omsm(1077))],
}


def batch(ctx, mode, files, args, chosen, ctlkw=None, inputs=(), again=None, extra=None, faulty=(), argv=None):
    srcs = {p: Source(BATCH[k], f"{k}{i}") for i, (p, k) in enumerate(files.items())}

    def faults(kind, path, n):
        for p in faulty:
            if kind in ("rmtree", "mkdir") and path == folder(p, mode):
                return fvar(kind, path)
            if kind in ("open",) and path in (p, logname(p, mode)):
                return fvar(kind, path)
            if kind == "read" and path == p:
                return fvar(kind, path, n)
        return 0

    ex = dict(extra or {})
    for p in faulty:
        ex[folder(p, mode) + "/old"] = "x"
    r = Main(ctx, args, srcs, Ctl(**(ctlkw or {})), inputs=inputs, extra=ex, faults=faults if faulty else None, argv=argv)
    r.no_escape()
    for p in chosen:
        if p in faulty:
            continue
        sp = r.outputs(p, mode)
        r.status(p, mode, sp)
        r.progress(p, mode, sp)
        own = folder(p, mode)
        lp = logname(p, mode)
        # the log of a source holds its own report and nobody else's
        for q in chosen:
            if q != p:
                w = bdd.conj(r.said(lp, q + "."), 1)
                ctx.holds("log is about its own source", bdd.neg(w), 1, f"log of {p} mentions {q}", "logger")
        n = 0
        for g, lv, msg in r.logs(lp):
            for h, x in V.alts(msg):
                t = "".join(y for y in V.sparts(x) if isinstance(y, str))
                if "without errors" in t or "with errors" in t:
                    n += 1
                    ctx.ok()
        ctx.holds("a report was logged", 1 if n else 0, 1, f"no final report in {lp}", "main")
    # exclusiveness of the log handlers
    for e in r.it.effects:
        if e.kind == "log":
            fs = [(g, x.file.abspath) for g, x in e.data["to"] if getattr(x, "file", None) is not None]
            cs = [g for g, x in e.data["to"] if getattr(x, "file", None) is None]
            for i, g in enumerate(cs):
                for h in cs[:i]:
                    ctx.holds("a message is shown once", 0, bdd.conj(e.g, bdd.conj(g, h)), "message goes to the console twice", r.site(e))
            for i, (g, f) in enumerate(fs):
                for h, f2 in fs[:i]:
                    ctx.holds("a message is logged once", 0, bdd.conj(e.g, bdd.conj(g, h)), f"message goes to {f} and {f2}", r.site(e))
    for p in files:
        if p not in chosen:
            f = folder(p, mode)
            ctx.holds(f"{p} is not converted", bdd.neg(r.W.dirs.get(f, 0)), 1, f"{f} is created although the source was not chosen", "main")
    if again is not None:
        r2 = r
        r2.call(again[0])
        r2.no_escape()
        for p in again[1]:
            sp = r2.outputs(p, again[2])
            r2.status(p, again[2], sp)


def batch_kw(ctx, a, kw):
    batch(ctx, *a, **kw)


def batch_scen(tier):
    out = []
    P = lambda n: f"/w/in/{n}.rtcm3"
    for mode in MODES:
        add = lambda name, *a, **kw: out.append((f"{mode} {name}", "batch_kw", ((mode,) + a, kw)))
        three = {P("a"): "a", P("b"): "b", P("c"): "c"}
        add("three sources", three, f"-o {mode} in/a.rtcm3 in/b.rtcm3 in/c.rtcm3", list(three))
        add("reversed", three, f"-o {mode} in/c.rtcm3 in/b.rtcm3 in/a.rtcm3", list(three))
        same = {P("a"): "a", "/w/x/a.rtcm3": "a", "/w/a.rtcm3": "c"}
        add("same name, different folders", same, f"-o {mode} in/a.rtcm3 x/a.rtcm3 a.rtcm3", list(same))
        add("missing sources between", three, f"-o {mode} in/no.rtcm3 in/a.rtcm3 nothere in/c.rtcm3 /w/x", [P("a"), P("c")])
        five = {P(k): k for k in "abcde"}
        add("five sources", five, f"-o {mode} in/a.rtcm3 in/d.rtcm3 in/b.rtcm3 in/e.rtcm3 in/c.rtcm3", list(five))
        add("folder, some chosen", three, f"-o {mode} in", [P("a"), P("c")], inputs=["1 3"])
        add("folder, chosen in another order", three, f"-o {mode} in", [P("a"), P("c")], inputs=["3 1"])
        add("folder, indices out of range", three, f"-o {mode} in", [P("b")], inputs=["0 2 4 99 -1"])
        add("folder, bad answer", three, f"-o {mode} in", [], inputs=["1 x"])
        add("folder, other extension", {**three, "/w/in/z.bin": "a"}, f"-o {mode} -ext bin in", ["/w/in/z.bin"], inputs=["1"])
        add("folder, nothing matches", three, f"-o {mode} -ext bin in", [], inputs=[])
        add("command line", three, None, [P("b"), P("a")], argv=("prog", "-o", mode, "in/b.rtcm3", "in/a.rtcm3"))
        add("first source fails", {P("a"): "a", P("c"): "c"}, f"-o {mode} in/a.rtcm3 in/c.rtcm3", [P("a"), P("c")], faulty=(P("a"),))
        add("second source fails", {P("a"): "a", P("c"): "c", P("b"): "b"}, f"-o {mode} in/a.rtcm3 in/b.rtcm3 in/c.rtcm3", [P("a"), P("b"), P("c")], faulty=(P("b"),))
        add("program run twice", {P("a"): "a", P("c"): "c"}, f"-o {mode} in/a.rtcm3 in/c.rtcm3", [P("a"), P("c")],
            again=(f"-o {mode} in/c.rtcm3 in/a.rtcm3", [P("a"), P("c")], mode))
        other = MODES[(MODES.index(mode) + 1) % 4]
        add("run again in another mode", {P("a"): "a", P("c"): "c"}, f"-o {mode} in/a.rtcm3 in/c.rtcm3", [P("a"), P("c")],
            again=(f"-o {other} in/a.rtcm3 in/c.rtcm3", [P("a"), P("c")], other))
    return out


def scenarios(prop, tier):
    return {"C24": contain_scen, "C25": fault_scen, "C26": whole_scen, "C28": batch_scen}[prop](tier)
