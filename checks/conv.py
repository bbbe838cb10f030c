"""Driving a converter of the analysed tree through its public interface."""

from .base import *
from . import msgs

LITERALS = {1: 1, 2: -4, 3: 5, 4: 6, 5: 1, 6: -4, 7: 5, 8: 6, 9: -2, 10: -7, 11: 0, 12: -1, 13: -2, 14: -7, 15: 0, 16: -1,
            17: 4, 18: -3, 19: 3, 20: 2, 21: 4, 22: -3, 23: 3, 24: 2}


class Ctl:
    def __init__(self, hca=False, lock=False, pretty=True, hdr=True, aux=True, shift=18, lit=None):
        self.hca, self.lock, self.pretty, self.hdr, self.aux, self.shift = hca, lock, pretty, hdr, aux, shift
        self.lit = dict(lit or LITERALS)

    def ini(self):
        b = lambda x: "true" if x else "false"
        lines = ["[MARGO]", f"HCA = {b(self.hca)}", f"LOCK_TIME = {b(self.lock)}", "[JSON]",
                 f"ENABLE_PRETTY_VIEW = {b(self.pretty)}", f"ENABLE_HDR_DATA = {b(self.hdr)}",
                 f"ENABLE_AUX_DATA = {b(self.aux)}", "[TIME]", f"GPS2UTC : {self.shift}", "[LITERALS]"]
        lines += [f"R{s} : {v}" for s, v in self.lit.items()]
        return "\n".join(lines) + "\n"


OUT = "/w/out"


class Conv:
    """One converter instance; feeds frames, collects observables."""

    def __init__(self, ctx, mode, ctl=None, faults=None, it=None, W=None, wfld=OUT, log=False, literals=None):
        self.ctx = ctx
        self.mode = mode
        self.ctl = ctl or Ctl()
        if it is None:
            it, W = ctx.interp(files={"/w/c.ini": self.ctl.ini()}, dirs=["/w", wfld], faults=faults)
        self.it, self.W, self.wfld = it, W, wfld
        if wfld not in W.dirs:
            W.mkdirs(wfld)
        cc = it.call(attr(it, it.get_module("controls"), "ConverterControls"))
        it.call(attr(it, cc, "init_from_file"), ["/w/c.ini"])
        box = it.getattr(cc, "boxed_controls")
        if log:
            lg = attr(it, it.get_module("logger"), "LOGGER_CF")
            it.call(attr(it, lg, "init_2CH"), [wfld + "/log.txt", "RTCMDEC"])
        cf = it.call(attr(it, it.get_module("converter_top"), "ConverterFactory"), [mode])
        self.conv = it.call(cf, [wfld, box])
        if self.conv is None:
            raise Undecided("converter was not created")
        self.ncrash = 0

    def escaped(self, what, excs):
        for e in excs:
            self.ctx.fail(f"{what} must not raise", f"{e.cls} escapes from {what}: {e!r}", e.g, e.site)

    def decode(self, fr):
        v, pc, excs = run(self.it, attr(self.it, self.conv, "decode"), fr)
        self.escaped("decode()", excs)
        if pc == 0:
            raise PathDead()
        self.it.pc = pc
        return v

    def print(self, v, g=1):
        """print v (already known not None) under guard g"""
        full = self.it.pc
        self.it.pc = bdd.conj(full, g)
        if self.it.pc == 0:
            self.it.pc = full
            return
        was = self.it.pc
        _, pc, excs = run(self.it, attr(self.it, self.conv, "print"), V.restrict(v, self.it.pc))
        self.escaped("print()", excs)
        self.it.pc = bdd.disj(bdd.diff(full, was), pc)

    def feed(self, fr):
        """decode and print one frame as the file loop does; returns
        (value, guard under which a value was produced)"""
        v = self.decode(fr)
        some = 0
        for g, x in V.alts(v):
            if x is not None:
                some = bdd.disj(some, g)
        some = bdd.conj(some, self.it.pc)
        if some:
            x = V.merge([(g, y) for g, y in V.alts(v) if y is not None])
            self.print(x, some)
        return v, some

    def parse(self, chunk):
        v, pc, excs = run(self.it, attr(self.it, self.conv, "parse_bytes"), chunk)
        self.escaped("parse_bytes()", excs)
        if pc == 0:
            raise PathDead()
        self.it.pc = pc
        return v

    def close(self):
        _, pc, excs = run(self.it, attr(self.it, self.conv, "release"))
        self.escaped("release()", excs)

    def stats(self):
        v, pc, excs = run(self.it, attr(self.it, self.conv, "get_statistics"))
        self.escaped("get_statistics()", excs)
        return {
            n: self.it.getattr(v, n)
            for n in ("decoding_attempts", "parsing_errors", "decoding_errors", "printing_attempts", "printing_errors")
        }

    def outfiles(self):
        """{relative path: existence guard} of everything below the work folder"""
        out = {}
        for p, n in self.W.files.items():
            if p.startswith(self.wfld + "/") and n.exists:
                out[p[len(self.wfld) + 1 :]] = n.exists
        return out


def gsum(guards):
    """number of guards that hold, as abstract value"""
    v = 0
    for g in guards:
        v = V.add(v, V.bit_num(g)) if g not in (0, 1) else V.add(v, g)
    return v


def split_cells(cells, guards):
    for h in dict.fromkeys(guards):
        nxt = []
        for c in cells:
            for k in (bdd.conj(c, h), bdd.diff(c, h)):
                if k:
                    nxt.append(k)
        cells = nxt
        if len(cells) > 256:
            raise Undecided("too many presence cases")
    return cells


def opaque_parts(parts):
    return any(isinstance(p, Opq) or isinstance(p, G) and any(isinstance(q, Opq) for _, x in p.alts for q in (V.sparts(x) if isinstance(x, (str, SStr)) else [x]))
               for p in parts)


def evx(v, asg):
    """specified record under a valuation"""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if isinstance(x, Opt):
                if not bdd.evaluate(x.g, asg):
                    continue
                x = x.v
            out[str(ev(k.v, asg)) if isinstance(k, SymKey) else k] = evx(x, asg)
        return out
    if isinstance(v, (list, tuple)):
        return [evx(x.v if isinstance(x, Opt) else x, asg) for x in v if not isinstance(x, Opt) or bdd.evaluate(x.g, asg)]
    if isinstance(v, G):
        for g, x in v.alts:
            if bdd.evaluate(g, asg):
                return evx(x, asg)
    return v if v is ANY else ev(v, asg)


def json_close(a, b):
    if b is ANY:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(json_close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(json_close(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return num_close(a, b)
    return a == b


def check_json_file(ctx, W, path, typename, records, pretty=None, label=None, closed=True):
    """records: [(guard, expected record)] in order.  The file exists iff any
    record is expected; it is one JSON array: type header then the records."""
    label = label or path
    anyg = 0
    for g, _ in records:
        anyg = bdd.disj(anyg, g)
    node = W.files.get(path)
    ex = node.exists if node else 0
    site = None
    if node:
        for op in node.ops:
            if op[0] == "write":
                site = op[3]
    if not ctx.holds(f"{label}: file exists", ex, anyg, "expected output file is missing", site):
        return
    if not ctx.holds(f"{label}: no unexpected file", anyg, ex, "output file exists although no record is expected", site):
        return
    if anyg == 0:
        return
    for c0, parts, n in file_cells(W, path, anyg):
        for c in split_cells([c0], [g for g, _ in records if g != 1]):
            recs = [r for g, r in records if bdd.conj(g, c)]
            if opaque_parts(parts):
                def judge(t, asg):
                    try:
                        got = json.loads(t)
                    except ValueError as e:
                        return f"not well-formed JSON: {e}: {t[:200]!r}"
                    want = [{"source_type": typename}] + [jsonable(evx(r, asg)) for r in recs]
                    return None if json_close(got, want) else f"got {str(got)[:300]}, specified {str(want)[:300]}"

                ctx.text_by_samples(f"{label}: array of the records", parts, judge, c, site)
                continue
            try:
                doc = parse_json(parts)
            except ValueError as e:
                txt = "".join(p if isinstance(p, str) else "<..>" for p in parts)
                ctx.fail(f"{label}: well-formed JSON", f"{e}: {txt[:200]!r}...{txt[-80:]!r}", c, site)
                continue
            ctx.ok()
            if not (isinstance(doc, Snap) and doc.kind == "l"):
                ctx.fail(f"{label}: JSON array", "top level is not an array", c, site)
                continue
            items = [v for _, v in doc.items]
            if not items:
                ctx.fail(f"{label}: type header", "array is empty", c, site)
                continue
            ctx.same(f"{label}[0]", unjson(items[0]), {"source_type": typename}, c, site)
            if len(items) - 1 != len(recs):
                ctx.fail(f"{label}: one record per message", f"{len(items) - 1} records for {len(recs)} messages", c, site)
                continue
            for i, (a, r) in enumerate(zip(items[1:], recs)):
                if pretty is not None and isinstance(a, Json):
                    ind = a.opts.get("indent") if isinstance(a.opts, dict) else None
                    if bool(ind is not None) != pretty:
                        ctx.fail(f"{label}: pretty view", f"indent={ind!r} but pretty view is {pretty}", c, site)
                    else:
                        ctx.ok()
                ctx.same(f"{label}[{i + 1}]", unjson(a), r, c, site)


# --- MARGO ---------------------------------------------------------------------------

MAX_SATS = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
COLFMT = {"C": (15, 3), "L": (15, 4), "D": (15, 3), "S": (15, 2), "T": (10, 3), "A": (4, 0)}
FILE_ID = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
WEEK = 604800000


def margo_freqs(gnss, sgn, ctl):
    f = msgs.freq(gnss, sgn)
    n = MAX_SATS[gnss]
    if gnss == "R":
        df = 0.5625 if sgn[0] == "1" else 0.4375
        return [f + df * ctl.lit[s] for s in range(1, n + 1)]
    return [f] * n


def margo_time(m, ctl):
    """GPS time of week, ms, and the guard under which the time is legal"""
    t = m.tkey
    lim = lambda v, n: V.cmp0("<", vadd(v, -n)) if not isinstance(v, int) else int(v < n)
    if m.gnss == "B":
        r = vadd(t, 14000)
        w = lim(r, WEEK)
        return ite(w, r, vadd(r, -WEEK)), lim(t, WEEK)
    if m.gnss == "R":
        r = vadd(vadd(t, vscale(m.day, 86400000)), -(10800 - ctl.shift) * 1000)
        neg = lim(r, 0)
        return ite(neg, vadd(r, WEEK), r), bdd.conj(lim(t, 86401000), lim(m.day, 7))
    return t, lim(t, WEEK)


def margo_rows(m, ctl):
    """{file: (presence, time, {sat: (ok, value)}, param, sgn)} of one MSM"""
    out = {}
    t, _ = margo_time(m, ctl)
    nmax = MAX_SATS[m.gnss]
    c = 299.792458
    for o, p in (("rng", "C"), ("phs", "L"), ("dpl", "D"), ("c2n", "S"), ("ltm", "T"), ("hca", "A")):
        if p == "T" and not ctl.lock or p == "A" and not ctl.hca:
            continue
        for lit, vals in m.obs[o].items():
            fr = margo_freqs(m.gnss, lit, ctl)
            anyp = 0
            cols = {}
            for s, (ok, v) in vals.items():
                anyp = bdd.disj(anyp, ok)
                if s > nmax:
                    continue
                if p == "L":
                    v = vscale(v, fr[s - 1] / c)
                    if not ctl.hca:
                        h = m.obs["hca"].get(lit, {}).get(s)
                        if h:
                            hv = h[1]
                            hn = hv.n if isinstance(hv, B) else int(hv)
                            ok = bdd.diff(ok, hn)
                elif p == "D":
                    v = vscale(v, -fr[s - 1] / c)
                elif p == "T":
                    v = vscale(v, 0.001)
                elif p == "A":
                    v = ite(v.n, 1, 0) if isinstance(v, B) else int(v)
                cols[s] = (ok, v)
            if anyp:
                out[f"{msgs.GDIR[m.gnss]}/{m.gnss}{p}{lit}_MSM{m.k}.obs"] = (anyp, t, cols, p, lit)
    return out


def split_parts(parts, sep):
    """split text parts at a literal separator"""
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            q = p.split(sep)
            if q[0]:
                out[-1].append(q[0])
            for x in q[1:]:
                out.append([x] if x else [])
        else:
            out[-1].append(p)
    return out


def tofloat(v):
    if isinstance(v, int):
        return float(v)
    if isinstance(v, float):
        return v
    if isinstance(v, G):
        return V.G([(g, tofloat(x)) for g, x in v.alts])
    return V.simp(Num(float(v.c), {n: float(c) for n, c in v.t.items()}, v.o, True)) if isinstance(v, Num) else v


def fmtcol(v, w, f):
    if isinstance(v, G):
        return V.merge([(g, fmtcol(x, w, f)) for g, x in v.alts])
    if isinstance(v, (int, float)):
        return format(float(v), f"{w}.{f}f")
    return V.mkstr([Fmt(tofloat(v), f"{w}.{f}f")])


def fmtint(v, w):
    if isinstance(v, G):
        return V.merge([(g, fmtint(x, w)) for g, x in v.alts])
    if isinstance(v, int):
        return format(v, f"{w}d")
    return V.mkstr([Fmt(v, f"{w}d")])


def coltext(parts):
    if len(parts) == 1 and isinstance(parts[0], G):
        return parts[0]
    return V.mkstr(parts) if parts else ""


def margo_head(gnss, p, sgn, ctl):
    w, f = COLFMT[p]
    fr = margo_freqs(gnss, sgn, ctl)
    l1 = ",".join([f"{FILE_ID[p]:10d}"] + [f"{s:{w}d}" for s in range(1, MAX_SATS[gnss] + 1)])
    hw, hf = max(w, 9), max(f, 4)
    l2 = ",".join([f"{msgs.freq(gnss, sgn):10.{hf}f}"] + [f"{x:{hw}.{hf}f}" for x in fr])
    return [l1, l2]


def check_margo_file(ctx, W, path, gnss, rows, ctl, label=None, header=True, times=True, values=True):
    """rows: [(guard, presence, time, cols, param, sgn)] in order"""
    label = label or path
    anyg = 0
    for r in rows:
        anyg = bdd.disj(anyg, bdd.conj(r[0], r[1]))
    node = W.files.get(path)
    ex = node.exists if node else 0
    site = None
    if node:
        for op in node.ops:
            if op[0] == "write":
                site = op[3]
    if not ctx.holds(f"{label}: file exists", ex, anyg, "expected output file is missing", site):
        return
    if not ctx.holds(f"{label}: no unexpected file", anyg, ex, "output file exists although no row is expected", site):
        return
    if anyg == 0:
        return
    p, sgn = rows[0][4], rows[0][5]
    w, f = COLFMT[p]
    nmax = MAX_SATS[gnss]
    nan = format(float("nan"), f"{w}.{f}f")
    for c0, parts, n in file_cells(W, path, anyg):
        for c in split_cells([c0], [bdd.conj(r[0], r[1]) for r in rows]):
            exp = [r for r in rows if bdd.conj(bdd.conj(r[0], r[1]), c)]
            if opaque_parts(parts):
                def judge(t, asg):
                    want = margo_head(gnss, p, sgn, ctl)
                    for _, _, tm, cols, _, _ in exp:
                        want.append(",".join([ev(fmtint(tm, 10), asg)] + [
                            (ev(fmtcol(cols[s][1], w, f), asg) if s in cols and bdd.evaluate(cols[s][0], asg) else nan)
                            for s in range(1, nmax + 1)]))
                    got = t.split("\n")
                    if got.pop() or len(got) != len(want):
                        return f"{len(got)} lines, specified {len(want)}"
                    for i, (x, y) in enumerate(zip(got, want)):
                        if i > 1 and not times:
                            x, y = x.partition(",")[2], y.partition(",")[2]
                        if i > 1 and not values:
                            x, y = x.split(",")[0], y.split(",")[0]
                        if not text_eq(x, y):
                            return f"line {i}: got {x[:200]!r}, specified {y[:200]!r}"

                ctx.text_by_samples(f"{label}: rows", parts, judge, c, site)
                continue
            lines = split_parts(parts, "\n")
            if lines and not lines[-1]:
                lines.pop()
            else:
                ctx.fail(f"{label}: lines are terminated", "no end of line after the last row", c, site)
                continue
            if len(lines) != 2 + len(exp):
                ctx.fail(f"{label}: one row per message", f"{len(lines) - 2} rows for {len(exp)} messages", c, site)
                continue
            ctx.ok()
            if header:
                l1, l2 = margo_head(gnss, p, sgn, ctl)
                ctx.same(f"{label}: header line 1", coltext(lines[0]), l1, c, site)
                ctx.same(f"{label}: header line 2", coltext(lines[1]), l2, c, site)
            for i, (ln, (g, pres, t, cols, _, _)) in enumerate(zip(lines[2:], exp)):
                cl = split_parts(ln, ",")
                if len(cl) != nmax + 1:
                    ctx.fail(f"{label}: row {i} columns", f"{len(cl) - 1} satellite columns, specified {nmax}", c, site)
                    continue
                if times:
                    ctx.same(f"{label}: row {i} time mark", coltext(cl[0]), fmtint(t, 10), c, site)
                if values:
                    for s in range(1, nmax + 1):
                        ok, v = cols.get(s, (0, 0))
                        e = nan if ok == 0 else ite(ok, fmtcol(v, w, f), nan)
                        ctx.same(f"{label}: row {i} satellite {s}", coltext(cl[s]), e, c, site)


# --- whole converter runs ------------------------------------------------------------


def accepted(m, mode):
    """guard: the message yields a record in this mode"""
    if isinstance(m, msgs.Msm):
        return m.acc if (mode == "JSON-B" or m.supported or not m.sats) else 0
    if mode == "JSON-B":
        return m.acc
    return bdd.diff(m.acc, msgs.text_bad(m))


def fmt_of(m, mode):
    """printer that gets the message in this mode (None: not handled)"""
    if mode in ("JSON", "JSON-B"):
        return "JSON"
    if isinstance(m, msgs.Msm):
        return "MARGO"
    return "JSON" if mode == "JARGO" else None


def run_messages(ctx, mode, seq, ctl=None, log=False, stats=True, times=True, values=True, header=True, only=None,
                 prelude=None, files=True, faulty=False):
    """seq: [(Msg or raw frame, accept guard or None)].  Feeds all, closes,
    and compares every output file and the statistics with the
    specification."""
    ctl = ctl or Ctl()
    faults = usable = None
    if faulty:
        # any output file or folder may turn out not to be creatable

        def faults(kind, path, n):
            if kind in ("open", "mkdir") and path.startswith(OUT + "/"):
                return bdd.var(("fault", kind, path))
            return 0

        def usable(rel):
            d = rel.rpartition("/")[0]
            u = bdd.neg(bdd.var(("fault", "open", f"{OUT}/{rel}")))
            return bdd.diff(u, bdd.var(("fault", "mkdir", f"{OUT}/{d}"))) if d else u

    usable = usable or (lambda rel: 1)
    cv = Conv(ctx, mode, ctl, log=log, faults=faults)
    if prelude:
        prelude(cv)
    legal = 1
    for m, acc in seq:
        if isinstance(m, msgs.Msm) and fmt_of(m, mode) == "MARGO" and m.obs["rng"] | m.obs["phs"]:
            legal = bdd.conj(legal, margo_time(m, ctl)[1])
    if legal == 0:
        raise Undecided("no legal time")
    cv.it.pc = legal
    ctx.inputs = {f"message {i}": (m.frame() if isinstance(m, msgs.Msg) else m) for i, (m, _) in enumerate(seq)}
    exp_json, exp_margo = {}, {}
    att = err = patt = 0
    perr = []
    for i, (m, acc) in enumerate(seq):
        fr = m.frame() if isinstance(m, msgs.Msg) else m
        handled = isinstance(m, msgs.Msg) and fmt_of(m, mode)
        if acc is None:
            acc = accepted(m, mode) if handled else 0
        elif not handled:
            acc = 0
        v, some = cv.feed(fr)
        ctx.holds(f"message {i} yields data", some, bdd.conj(acc, legal), f"message {m_name(m)} is not decoded", "DecoderTop.decode")
        ctx.holds(f"message {i} yields nothing", bdd.neg(some), bdd.diff(legal, acc), f"{m_name(m)} yields data", "DecoderTop.decode")
        if handled:
            att += 1
            err = vadd(err, gsum([bdd.diff(legal, acc)]) if bdd.diff(legal, acc) else 0)
            patt = vadd(patt, gsum([acc]))
            if fmt_of(m, mode) == "JSON":
                u = usable(m.file)
                perr.append(bdd.diff(acc, u))
                exp_json.setdefault(m.file, (m.typ(mode), []))[1].append((bdd.conj(bdd.conj(acc, legal), u), m.rec(mode)))
            elif acc:
                fail = 0
                for fn, (pres, t, cols, p, lit) in margo_rows(m, ctl).items():
                    u = usable(fn)
                    fail = bdd.disj(fail, bdd.diff(bdd.conj(acc, pres), u))
                    exp_margo.setdefault(fn, (m.gnss, []))[1].append((bdd.conj(bdd.conj(acc, legal), u), pres, t, cols, p, lit))
                perr.append(fail)
        elif isinstance(m, tuple):
            pass
    st = cv.stats()
    if stats:
        ctx.same("statistics", st, {
            "decoding_attempts": att, "parsing_errors": 0, "decoding_errors": err, "printing_attempts": patt,
            "printing_errors": gsum(perr)}, legal, "Converter.get_statistics")
    cv.close()
    if not files:
        return cv
    W = cv.W
    for fn, (typ, recs) in exp_json.items():
        if only and not only(fn):
            continue
        check_json_file(ctx, W, OUT + "/" + fn, typ, recs, ctl.pretty, label=fn)
    for fn, (gnss, rows) in exp_margo.items():
        if only and not only(fn):
            continue
        check_margo_file(ctx, W, OUT + "/" + fn, gnss, rows, ctl, label=fn, header=header, times=times, values=values)
    for fn, ex in cv.outfiles().items():
        if fn not in exp_json and fn not in exp_margo and fn != "log.txt":
            ctx.holds(f"no other output file", bdd.neg(ex), legal, f"unexpected file {fn}", "printers")
        else:
            ctx.ok()
    return cv


def m_name(m):
    return f"{m.num}" if isinstance(m, msgs.Msg) else "frame"
