"""Helper of the demonstrations: builds RTCM 3 frames and runs the converter of the current directory."""
import contextlib, io, os, shutil, sys, tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


def crc(b):
    r = 0
    for x in b:
        r ^= x << 16
        for _ in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= 0x1864CFB
    return r


def frame(payload):
    b = bytes([0xD3, len(payload) >> 8, len(payload) & 255]) + bytes(payload)
    return b + crc(b).to_bytes(3, "big")


def pack(*fields):
    """fields: (width, value) pairs; negative values are two's complement."""
    s = "".join(format(v & ((1 << w) - 1), f"0{w}b") for w, v in fields if w)
    s += "0" * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def msm(num, sats, sigs, cells=None, epoch=1000, **f):
    """One MSM4..7 message. f: field name -> value or {(sat, sig) or sat: value}."""
    kind = num % 10
    cells = [(s, g) for s in sats for g in sigs if cells is None or (s, g) in cells]

    def val(name, key, dflt):
        v = f.get(name, dflt)
        return v.get(key, dflt) if isinstance(v, dict) else v

    o = [(12, num), (12, 7), (30, epoch), (1, 0), (3, 0), (7, 0), (2, 0), (2, 0), (1, 0), (3, f.get("smth", 0))]
    o += [(1, int(i in sats)) for i in range(1, 65)]
    o += [(1, int(i in sigs)) for i in range(1, 33)]
    o += [(1, int((s, g) in cells)) for s in sats for g in sigs]
    o += [(8, val("rng_int", s, 70)) for s in sats]
    if kind in (5, 7):
        o += [(4, val("ext", s, 0)) for s in sats]
    o += [(10, val("rng_mod", s, 100)) for s in sats]
    if kind in (5, 7):
        o += [(14, val("rate", s, 5)) for s in sats]
    big = kind in (6, 7)
    o += [(20 if big else 15, val("frng", c, 11)) for c in cells]
    o += [(24 if big else 22, val("fphs", c, 12)) for c in cells]
    o += [(10 if big else 4, val("lock", c, 3)) for c in cells]
    o += [(1, val("half", c, 0)) for c in cells]
    o += [(10 if big else 6, val("cnr", c, 33)) for c in cells]
    if kind in (5, 7):
        o += [(15, val("frate", c, 13)) for c in cells]
    return frame(pack(*o))


def controls(shift=18, hca=True, lock=True, hdr=True, aux=True, pretty=False):
    from controls import BoxWithConverterControls
    from printers import MargoControls, JSONControls

    m, j = MargoControls(), JSONControls()
    m.glo_lit_tab = {i: (i % 14) - 7 for i in range(1, 25)}
    m.gps_utc_shift, m.half_cycle_enable, m.lock_time_enable = shift, hca, lock
    j.enable_hdr_data, j.enable_aux_data, j.enable_pretty_view = hdr, aux, pretty
    return BoxWithConverterControls(m, j)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo.")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def convert(mode, data, **ctl):
    """-> ({relative file name: text}, statistics, [records])"""
    from converter_top import ConverterFactory

    with scratch() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        c = ConverterFactory(mode)(d, controls(**ctl))
        recs = []
        for m in c.parse_bytes(data):
            r = c.decode(m)
            if r is not None:
                recs.append(r)
                c.print(r)
        c.release()
        out = {}
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                with open(p, encoding="utf-8", newline="") as fh:
                    out[os.path.relpath(p, d)] = fh.read()
        return out, c.get_statistics(), recs


def find(files, *parts):
    r = [n for n in files if all(p in n for p in parts)]
    assert len(r) == 1, (parts, sorted(files))
    return files[r[0]]


def expect(what, got, want):
    if got != want:
        print(f"FAIL {what}: got {got!r}, expected {want!r}")
        sys.exit(1)
