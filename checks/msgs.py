"""Specification of the RTCM 3 messages: layouts, scaling, expected records.

Written from the RTCM 10403 field tables and the project's documentation; it
does not read the analysed code.
"""

from .base import *

P2 = lambda k: 2.0 ** k

# --- ephemeris --------------------------------------------------------------------
# (name, width, kind, scale)  kind: u unsigned, s two's complement, m sign-magnitude
# name None: reserved bits

_KEP = lambda: None

EPH = {
    1019: [
        ("satNum", 6, "u", 1), ("weekNum", 10, "u", 1), ("URA", 4, "u", 1), ("L2_Codes", 2, "u", 1),
        ("i_dot", 14, "s", P2(-43)), ("IODE", 8, "u", 1), ("tc", 16, "u", 16), ("af2", 8, "s", P2(-55)),
        ("af1", 16, "s", P2(-43)), ("af0", 22, "s", P2(-31)), ("IODC", 10, "u", 1), ("crs", 16, "s", P2(-5)),
        ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("cuc", 16, "s", P2(-29)), ("e", 32, "u", P2(-33)),
        ("cus", 16, "s", P2(-29)), ("sqrt_a", 32, "u", P2(-19)), ("te", 16, "u", 16), ("cic", 16, "s", P2(-29)),
        ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)), ("i0", 32, "s", P2(-31)), ("crc", 16, "s", P2(-5)),
        ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)), ("TGD", 8, "s", P2(-31)), ("SVH", 6, "u", 1),
        ("L2P_Data", 1, "u", 1), ("Fit", 1, "u", 1),
    ],
    1020: [
        ("satNum", 6, "u", 1), ("frqSloNum", 5, "u", "-7"), ("Cn", 1, "u", 1), ("AlmHAI", 1, "u", 1), ("P1", 2, "u", 1),
        ("tk", 12, "u", "hms"), ("BnMSB", 1, "u", 1), ("P2", 1, "u", 1), ("tb", 7, "u", 900),
        ("dotXn", 24, "m", P2(-20)), ("xn", 27, "m", P2(-11)), ("dotDotXn", 5, "m", P2(-30)),
        ("dotYn", 24, "m", P2(-20)), ("yn", 27, "m", P2(-11)), ("dotDotYn", 5, "m", P2(-30)),
        ("dotZn", 24, "m", P2(-20)), ("zn", 27, "m", P2(-11)), ("dotDotZn", 5, "m", P2(-30)),
        ("P3", 1, "u", 1), ("gamma_n", 11, "m", P2(-40)), ("P", 2, "u", 1), ("ln3", 1, "u", 1),
        ("tauN", 22, "m", P2(-30)), ("delta_tauN", 5, "m", P2(-30)), ("En", 5, "u", 1), ("P4", 1, "u", 1),
        ("Ft", 4, "u", 1), ("Nt", 11, "u", 1), ("M", 2, "u", 1), ("auxDataOK", 1, "u", 1), ("Na", 11, "u", 1),
        ("tauC", 32, "m", P2(-31)), ("N4", 5, "u", 1), ("tauGPS", 22, "m", P2(-30)), ("ln5", 1, "u", 1), (None, 7, "u", 1),
    ],
    1041: [
        ("satNum", 6, "u", 1), ("weekNum", 10, "u", 1), ("af0", 22, "s", P2(-31)), ("af1", 16, "s", P2(-43)),
        ("af2", 8, "s", P2(-55)), ("URA", 4, "u", 1), ("tc", 16, "u", 16), ("TGD", 8, "s", P2(-31)),
        ("delta_n", 22, "s", P2(-41)), ("IODEC", 8, "u", 1), (None, 10, "u", 1), ("L5_Flag", 1, "u", 1), ("S_Flag", 1, "u", 1),
        ("cuc", 15, "s", P2(-28)), ("cus", 15, "s", P2(-28)), ("cic", 15, "s", P2(-28)), ("cis", 15, "s", P2(-28)),
        ("crc", 15, "s", P2(-4)), ("crs", 15, "s", P2(-4)), ("i_dot", 14, "s", P2(-43)), ("m0", 32, "s", P2(-31)),
        ("te", 16, "u", 16), ("e", 32, "u", P2(-33)), ("sqrt_a", 32, "u", P2(-19)), ("omega0", 32, "s", P2(-31)),
        ("w", 32, "s", P2(-31)), ("omega_dot", 22, "s", P2(-41)), ("i0", 32, "s", P2(-31)), (None, 4, "u", 1),
    ],
    1042: [
        ("satNum", 6, "u", 1), ("weekNum", 13, "u", 1), ("URAI", 4, "u", 1), ("i_dot", 14, "s", P2(-43)), ("AODE", 5, "u", 1),
        ("tc", 17, "u", 8), ("af2", 11, "s", P2(-66)), ("af1", 22, "s", P2(-50)), ("af0", 24, "s", P2(-33)), ("AODC", 5, "u", 1),
        ("crs", 18, "s", P2(-6)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("cuc", 18, "s", P2(-31)),
        ("e", 32, "u", P2(-33)), ("cus", 18, "s", P2(-31)), ("sqrt_a", 32, "u", P2(-19)), ("te", 17, "u", 8),
        ("cic", 18, "s", P2(-31)), ("omega0", 32, "s", P2(-31)), ("cis", 18, "s", P2(-31)), ("i0", 32, "s", P2(-31)),
        ("crc", 18, "s", P2(-6)), ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)), ("TGD1", 10, "s", 1e-10),
        ("TGD2", 10, "s", 1e-10), ("SVH", 1, "u", 1),
    ],
    1044: [
        ("satNum", 4, "u", 1), ("tc", 16, "u", 16), ("af2", 8, "s", P2(-55)), ("af1", 16, "s", P2(-43)), ("af0", 22, "s", P2(-31)),
        ("IODE", 8, "u", 1), ("crs", 16, "s", P2(-5)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)),
        ("cuc", 16, "s", P2(-29)), ("e", 32, "u", P2(-33)), ("cus", 16, "s", P2(-29)), ("sqrt_a", 32, "u", P2(-19)),
        ("te", 16, "u", 16), ("cic", 16, "s", P2(-29)), ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)),
        ("i0", 32, "s", P2(-31)), ("crc", 16, "s", P2(-5)), ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)),
        ("i_dot", 14, "s", P2(-43)), ("L2_Codes", 2, "u", 1), ("weekNum", 10, "u", 1), ("URA", 4, "u", 1), ("SVH", 6, "u", 1),
        ("TGD", 8, "s", P2(-31)), ("IODC", 10, "u", 1), ("Fit", 1, "u", 1),
    ],
}
_GAL = [
    ("satNum", 6, "u", 1), ("weekNum", 12, "u", 1), ("IODnav", 10, "u", 1), ("SISA", 8, "u", 1), ("i_dot", 14, "s", P2(-43)),
    ("tc", 14, "u", 60), ("af2", 6, "s", P2(-59)), ("af1", 21, "s", P2(-46)), ("af0", 31, "s", P2(-34)),
    ("crs", 16, "s", P2(-5)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("cuc", 16, "s", P2(-29)),
    ("e", 32, "u", P2(-33)), ("cus", 16, "s", P2(-29)), ("sqrt_a", 32, "u", P2(-19)), ("te", 14, "u", 60),
    ("cic", 16, "s", P2(-29)), ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)), ("i0", 32, "s", P2(-31)),
    ("crc", 16, "s", P2(-5)), ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)), ("E5a_BGD", 10, "s", P2(-32)),
]
EPH[1045] = _GAL + [("E5a_SHS", 2, "u", 1), ("E5a_DVS", 1, "u", 1), (None, 7, "u", 1)]
EPH[1046] = _GAL + [
    ("E5b_BGD", 10, "s", P2(-32)), ("E5b_SHS", 2, "u", 1), ("E5b_DVS", 1, "u", 1), ("E1_SHS", 2, "u", 1),
    ("E1_DVS", 1, "u", 1), (None, 2, "u", 1),
]
EPH_TYPE = {
    1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS", 1044: "EphQZS", 1045: "EphGALF", 1046: "EphGALI",
}
EPH_FILE = {
    1019: "EPH/GPS-EPH-1019.json", 1020: "EPH/GLN-EPH-1020.json", 1041: "EPH/NAVIC-EPH-1041.json",
    1042: "EPH/BDS-EPH-1042.json", 1044: "EPH/QZS-EPH-1044.json", 1045: "EPH/GAL-EPH-1045.json",
    1046: "EPH/GAL-EPH-1046.json",
}
EPH_BITS = {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}


def decode_kind(bits, kind):
    return {"u": unsigned, "s": signed, "m": signmag}[kind](bits)


class Msg:
    """A message with abstract content."""

    def __init__(self, num, payload, bare=None, scaled=None, type_bare=None, type_scaled=None, file=None, tag=""):
        self.num = num
        self.payload = payload
        self.bare = bare
        self.scaled = scaled
        self.type_bare = type_bare
        self.type_scaled = type_scaled or type_bare
        self.file = file
        self.tag = tag
        self.acc = 1

    def frame(self, crc=None):
        return frame(self.payload, crc, name=self.tag + "crc")

    def rec(self, mode):
        return self.bare if mode == "JSON-B" else self.scaled

    def typ(self, mode):
        return self.type_bare if mode == "JSON-B" else self.type_scaled


def eph(num, tag="a", extra=0, cut=0):
    """ephemeris message, every field symbolic; extra: trailing bytes; cut: missing bytes"""
    bits = U(num, 12)
    bare, scaled = {"msgNum": num}, {"msgNum": num}
    n = 12
    for name, w, kind, sc in EPH[num]:
        b = S(f"{tag}.{name or 'res%d' % n}", w)
        n += w
        bits += b
        if name is None:
            continue
        v = decode_kind(b, kind)
        bare[name] = v
        if sc == "-7":
            scaled[name] = vadd(v, -7)
        elif sc == "hms":
            scaled[name] = vadd(
                vadd(vscale(unsigned(b[:5]), 3600), vscale(unsigned(b[5:11]), 60)), vscale(unsigned(b[11:]), 30)
            )
        elif sc == 1:
            scaled[name] = v
        else:
            scaled[name] = vscale(v, sc)
    assert n == EPH_BITS[num], (num, n)
    pad = S(tag + ".pad", -n % 8)
    payload = bits_to_bytes(bits + pad)
    if extra:
        payload += bits_to_bytes(S(tag + ".extra", 8 * extra))
    if cut:
        payload = payload[:-cut]
    m = Msg(num, payload, bare, scaled, EPH_TYPE[num], None, EPH_FILE[num], tag)
    m.acc = 0 if cut else 1
    return m


# --- base station -------------------------------------------------------------------

BASE_FILE = {
    1005: "BASE/RefPoint-1005.json", 1006: "BASE/RefPointHeight-1006.json", 1007: "BASE/AntDesc-1007.json",
    1008: "BASE/AntDescSer-1008.json", 1013: "BASE/SysPar-1013.json", 1029: "BASE/TextStr-1029.json",
    1033: "BASE/AntAndRcvDesc-1033.json", 1230: "BASE/GloBias-1230.json",
}
BASE_TYPE = {
    1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1013: "BaseSP", 1029: "BaseTS",
    1033: "BaseADSNRC", 1230: "BaseGLBS",
}
QC = ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"]


def boolbit(b):
    return V.mkbool(b)


class BitWriter:
    def __init__(self, num, tag):
        self.tag = tag
        self.bits = U(num, 12)
        self.acc = 1
        self.bare = {"msgNum": num}
        self.scaled = {"msgNum": num}

    def field(self, name, w, kind="u", scale=1, const=None):
        b = U(const, w) if const is not None else S(f"{self.tag}.{name}", w)
        self.bits += b
        v = decode_kind(b, kind)
        self.bare[name] = v
        if scale == "bool":
            self.scaled[name] = boolbit(b[0])
        elif callable(scale):
            self.scaled[name] = scale(b)
        else:
            self.scaled[name] = v if scale == 1 else vscale(v, scale)
        return b

    def res(self, w, name="res"):
        self.bits += S(f"{self.tag}.{name}{len(self.bits)}", w)

    def string(self, lname, name, n, symlen=False):
        b = self.field(lname, 8, const=None if symlen else n)
        if symlen:
            self.acc = bdd.conj(self.acc, eqconst(b, n))
        if n:
            bb = S(f"{self.tag}.{name}", 8 * n)
            self.bits += bb
        else:
            bb = []
        self.text(name, bb)

    def text(self, name, bb):
        by = bits_to_bytes(bb)
        self.bare[name] = hextext(by)
        self.scaled[name] = utf8(by)

    def msg(self, num, extra=0, cut=0):
        pad = S(self.tag + ".pad", -len(self.bits) % 8)
        payload = bits_to_bytes(self.bits + pad)
        if extra:
            payload += bits_to_bytes(S(self.tag + ".extra", 8 * extra))
        if cut:
            payload = payload[:-cut]
        m = Msg(num, payload, self.bare, self.scaled, BASE_TYPE[num], None, BASE_FILE[num], self.tag)
        m.acc = self.acc if not (extra or cut) else 0
        return m


def hextext(by):
    parts = []
    for i, b in enumerate(by):
        if i:
            parts.append(" ")
        if isinstance(b, int):
            parts.append(hex(b))
        else:
            parts.append("0x")
            parts.append(Fmt(b, "x"))
    return V.mkstr(parts)


def utf8(by):
    """utf-8 text of bytes (valid where decodable)"""
    if all(isinstance(b, int) for b in by):
        return bytes(by).decode("utf-8")
    ab = V.mkbytes(by)
    return V.mkstr([Opq(("decode", "utf-8", "strict", V.key(ab)))])


def undecodable(by):
    if all(isinstance(b, int) for b in by):
        return 0
    return bdd.var(("undecodable", "utf-8", V.key(V.mkbytes(by))))


def base_ref(num, tag="a", **kw):
    w = BitWriter(num, tag)
    w.field("bsID", 12)
    w.field("ITRF_Year", 6)
    for n in ("GPS_OK", "GLO_OK", "GAL_OK", "isVirtual"):
        w.field(n, 1, scale="bool")
    w.field("refPoint_X", 38, "s", 1e-4)
    w.field("singleOsc", 1, scale="bool")
    w.res(1)
    w.field("refPoint_Y", 38, "s", 1e-4)
    w.field("QC_bias", 2, scale=lambda b: lookup(b, QC))
    w.field("refPoint_Z", 38, "s", 1e-4)
    if num == 1006:
        w.field("height", 16, "u", 1e-4)
    return w.msg(num, **kw)


def base_ant(num, lens, tag="a", symlen=None, **kw):
    w = BitWriter(num, tag)
    lens = list(lens) + [0] * 5
    w.field("bsID", 12)
    w.string("descrLength", "descr", lens[0], symlen == 0)
    w.field("setupID", 8)
    if num in (1008, 1033):
        w.string("serialNumberLength", "serialNumber", lens[1], symlen == 1)
    if num == 1033:
        w.string("rcvDescriptorLength", "rcvDescriptor", lens[2], symlen == 2)
        w.string("rcvFWVersionLength", "rcvFWVersion", lens[3], symlen == 3)
        w.string("rcvSerNumLength", "rcvSerNum", lens[4], symlen == 4)
    return w.msg(num, **kw)


def base_sys(ids, tag="a", nm=None, **kw):
    """1013; ids: concrete announced message numbers; nm: transmitted Nm"""
    w = BitWriter(1013, tag)
    w.field("bsID", 12)
    w.field("modifiedJulianDay", 16)
    w.field("daySec", 17)
    w.field("Nm", 5, const=len(ids) if nm is None else nm)
    w.field("leapSec", 8)
    sb, ss = {}, {}
    for i, n in enumerate(ids):
        w.bits += U(n, 12)
        f = S(f"{tag}.per{i}", 1)
        p = S(f"{tag}.period{i}", 16)
        w.bits += f + p
        sb[str(n)] = [unsigned(f), unsigned(p)]
        ss[str(n)] = [boolbit(f[0]), vscale(unsigned(p), 0.1)]
    w.bare["shedule"] = sb
    w.scaled["shedule"] = ss
    return w.msg(1013, **kw)


def base_text(n, tag="a", symlen=False, **kw):
    w = BitWriter(1029, tag)
    w.field("bsID", 12)
    w.field("modifiedJulianDay", 16)
    w.field("daySec", 17)
    w.field("charNum", 7)
    b = w.field("unitsNum", 8, const=None if symlen else n)
    if symlen:
        w.acc = eqconst(b, n)
    bb = S(tag + ".text", 8 * n)
    w.bits += bb
    w.text("message", bb)
    return w.msg(1029, **kw)


def base_bias(mask, tag="a", **kw):
    """1230; mask bits: 8 = 1C, 4 = 1P, 2 = 2C, 1 = 2P"""
    w = BitWriter(1230, tag)
    w.field("bsID", 12)
    w.field("isCorrected", 1, scale="bool")
    w.res(3)
    w.bits += U(mask, 4)
    vb, vs, cb, cs = {}, {}, {}, {}
    for bit, k in ((8, "1C"), (4, "1P"), (2, "2C"), (1, "2P")):
        if mask & bit:
            b = S(f"{tag}.bias{k}", 16)
            w.bits += b
            v = signed(b)
            vb[k], vs[k] = 1, True
            cb[k], cs[k] = v, vscale(v, 0.02)
        else:
            vb[k], vs[k] = 0, False
            cb[k], cs[k] = 0, 0
    w.bare["validity"], w.bare["correction"] = vb, cb
    w.scaled["validity"], w.scaled["correction"] = vs, cs
    return w.msg(1230, **kw)


def text_bad(m):
    """guard: some transmitted string is not decodable (scaled output)"""
    bad = 0
    for k in m.scaled.values():
        if isinstance(k, SStr):
            for p in k.parts:
                if isinstance(p, Opq) and p.k[0] == "decode":
                    bad = bdd.disj(bad, bdd.var(("undecodable", p.k[1], p.k[3])))
    return bad


# --- MSM ------------------------------------------------------------------------------

GNSS = {"G": 107, "R": 108, "E": 109, "S": 110, "Q": 111, "B": 112, "I": 113}
GNSS_OF = {v: k for k, v in GNSS.items()}
GDIR = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}

SIGNALS = {
    "G": {2: "1C", 3: "1P", 4: "1W", 8: "2C", 9: "2P", 10: "2W", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X",
          30: "1S", 31: "1L", 32: "1X"},
    "R": {2: "1C", 3: "1P", 8: "2C", 9: "2P"},
    "E": {2: "1C", 3: "1A", 4: "1B", 5: "1X", 6: "1Z", 8: "6C", 9: "6A", 10: "6B", 11: "6X", 12: "6Z", 14: "7I", 15: "7Q",
          16: "7X", 18: "8I", 19: "8Q", 20: "8X", 22: "5I", 23: "5Q", 24: "5X"},
    "S": {2: "1C", 22: "5I", 23: "5Q", 24: "5X"},
    "Q": {2: "1C", 9: "6S", 10: "6L", 11: "6X", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S",
          31: "1L", 32: "1X"},
    "B": {2: "2I", 3: "2Q", 4: "2X", 8: "6I", 9: "6Q", 10: "6X", 14: "7I", 15: "7Q", 16: "7X"},
    "I": {8: "9A", 22: "5A"},
}
_BAND = {
    "G": {"1": 1575.42, "2": 1227.60, "5": 1176.45},
    "R": {"1": 1602.0, "2": 1246.0},
    "E": {"1": 1575.42, "5": 1176.45, "6": 1278.75, "7": 1207.140, "8": 1191.795},
    "S": {"1": 1575.42, "5": 1176.45},
    "Q": {"1": 1575.42, "2": 1227.60, "5": 1176.45, "6": 1278.75},
    "B": {"2": 1561.098, "6": 1268.52, "7": 1207.140},
    "I": {"5": 1176.45, "9": 2492.028},
}


def freq(gnss, sgn):
    return _BAND[gnss][sgn[0]]


SATF = {
    1: [("rng_rough", 10, "u")], 2: [("rng_rough", 10, "u")], 3: [("rng_rough", 10, "u")],
    4: [("rng_ms", 8, "u"), ("rng_rough", 10, "u")],
    6: [("rng_ms", 8, "u"), ("rng_rough", 10, "u")],
    5: [("rng_ms", 8, "u"), ("ext_info", 4, "u"), ("rng_rough", 10, "u"), ("phase_rate_rough", 14, "s")],
    7: [("rng_ms", 8, "u"), ("ext_info", 4, "u"), ("rng_rough", 10, "u"), ("phase_rate_rough", 14, "s")],
}
SGNF = {
    1: [("rng_fine", 15, "s")],
    2: [("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u")],
    3: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u")],
    4: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u"), ("c2n", 6, "u")],
    5: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u"), ("c2n", 6, "u"),
        ("phase_rate_fine", 15, "s")],
    6: [("rng_fine", 20, "s"), ("phase_fine", 24, "s"), ("lock_time", 10, "u"), ("hc_indc", 1, "u"), ("c2n", 10, "u")],
    7: [("rng_fine", 20, "s"), ("phase_fine", 24, "s"), ("lock_time", 10, "u"), ("hc_indc", 1, "u"), ("c2n", 10, "u"),
        ("phase_rate_fine", 15, "s")],
}
ALLSAT4 = ("rng_ms", "ext_info", "rng_rough", "phase_rate_rough")
ALLSGN4 = ("rng_fine", "phase_fine", "lock_time", "hc_indc", "c2n", "phase_rate_fine")
CMS = 299792.458
CLK_STEER = ["OFF", "ON", "UNDEF", "UNDEF"]
CLK_EXT = ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"]
SMTH_IND = ["UNDEF", "DVRG-FREE"]
SMTH_INT = ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM"]


def tlock4(i):
    return 0 if i == 0 else 1 << (i + 4)


def tlock10(i):
    if i < 64:
        return i
    if i > 704:
        return 0
    if i == 704:
        return 67108864
    k = i // 32 - 1
    return (1 << k) * (i - 32 * k)


class Obs:
    """Expected observables of one cell: value + validity node."""

    def __init__(self):
        self.d = {}


class Msm(Msg):
    pass


def msm_bits(num, sats, sgns, ncell):
    k = num % 10
    return 169 + len(sats) * len(sgns) + len(sats) * sum(w for _, w, _ in SATF[k]) + ncell * sum(w for _, w, _ in SGNF[k])


def msm(num, sats, sgns, cells=None, tag="a", extra=0, cut=0, const=None, sym=None, hdrsym=True):
    """MSM message.  sats: satellite IDs 1..64, sgns: signal IDs 1..32, cells:
    set of (sat, sgn) pairs present (None: all).  Every field is symbolic
    unless given in const {(field[, sat[, sgn]]): value}; sym: satellites with
    symbolic fields (None: all), the others carry fixed pseudo-random values."""
    const = const or {}
    k = num % 10
    gnss = GNSS_OF[num // 10]
    sats, sgns = sorted(sats), sorted(sgns)
    if cells is None:
        cells = {(s, g) for s in sats for g in sgns}
    clist = [(s, g) for s in sats for g in sgns if (s, g) in cells]

    def fbits(field, w, *ix):
        c = const.get((field,) + ix, const.get(field))
        if c is None and (sym is not None and ix and ix[0] not in sym or not hdrsym and not ix):
            c = random.Random(f"{field}.{ix}.{num}{const.get('salt', '')}").getrandbits(w)
            if field == "time":
                c = random.Random(num).randrange(86400000) + (3 << 27 if gnss == "R" else 0)
        if c is not None:
            return U(c & ((1 << w) - 1), w)
        return S(f"{tag}.{field}" + "".join(f".{i}" for i in ix), w)

    # variables in satellite-major order (small guards)
    sat, sgn = {}, {}
    hdr = {}
    for f, w in (("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), ("res", 7), ("clk_steer", 2), ("clk_ext", 2),
                 ("smth_indc", 1), ("smth_intr", 3)):
        hdr[f] = fbits(f, w)
    for s in sats:
        for f, w, kd in SATF[k]:
            sat[f, s] = fbits(f, w, s)
        for g in sgns:
            if (s, g) in cells:
                for f, w, kd in SGNF[k]:
                    sgn[f, s, g] = fbits(f, w, s, g)
    bits = U(num, 12)
    for f in ("rs_id", "time", "MMB", "IODS", "res", "clk_steer", "clk_ext", "smth_indc", "smth_intr"):
        bits += hdr[f]
    bits += [1 if i in sats else 0 for i in range(1, 65)]
    bits += [1 if i in sgns else 0 for i in range(1, 33)]
    cellbits = [1 if (s, g) in cells else 0 for s in sats for g in sgns]
    bits += cellbits
    for f, w, kd in SATF[k]:
        for s in sats:
            bits += sat[f, s]
    for f, w, kd in SGNF[k]:
        for s, g in clist:
            bits += sgn[f, s, g]
    assert len(bits) == msm_bits(num, sats, sgns, len(clist))
    pad = fbits("pad", -len(bits) % 8)
    payload = bits_to_bytes(bits + pad)
    if extra:
        payload += bits_to_bytes(S(tag + ".extra", 8 * extra))
    if cut:
        payload = payload[:-cut]

    m = Msm(num, payload, tag=tag)
    m.gnss, m.k, m.sats, m.sgns, m.cells = gnss, k, sats, sgns, clist
    m.acc = 0 if extra or cut or (sats and not clist) or len(sats) * len(sgns) > 64 else 1
    m.hdr, m.sat, m.sgn = hdr, sat, sgn
    m.type_bare = "BareObservablesMSM123" if k < 4 else "BareObservablesMSM4567"
    m.type_scaled = "ObservablesMSM"
    m.file = f"MSM{k}/{GDIR[gnss]}-MSM{k}-{num}.json"
    m.tkey = unsigned(hdr["time"][3:]) if gnss == "R" else unsigned(hdr["time"])
    m.day = unsigned(hdr["time"][:3]) if gnss == "R" else 0
    m.supported = all(g in SIGNALS[gnss] for g in sgns)

    # bare record
    hd = {f: unsigned(hdr[f]) for f in ("rs_id", "time", "MMB", "IODS", "clk_steer", "clk_ext", "smth_indc", "smth_intr")}
    hd["sat_mask"] = sum(1 << (s - 1) for s in sats)
    hd["sgn_mask"] = sum(1 << (g - 1) for g in sgns)
    hd["cell_mask"] = sum(1 << i for i, b in enumerate(cellbits) if b)
    have_s = {f: kd for f, w, kd in SATF[k]}
    have_g = {f: kd for f, w, kd in SGNF[k]}
    sd = {f: [decode_kind(sat[f, s], have_s[f]) for s in sats] if f in have_s and sats else ANY for f in
          (ALLSAT4 if k >= 4 else ("rng_rough",))}
    gd = {f: [decode_kind(sgn[f, s, g], have_g[f]) for s, g in clist] if f in have_g and clist else ANY for f in
          (ALLSGN4 if k >= 4 else ("rng_fine", "phase_fine", "lock_time", "hc_indc"))}
    m.bare_body = {"hdr": hd, "aux": {"gnss": gnss, "subset": f"MSM{k}", "msg_number": num}, "sat": sd, "sgn": gd}

    # scaled record
    obs = {o: {} for o in ("rng", "phs", "ltm", "hca", "dpl", "c2n")}
    if m.supported:
        for s, g in clist:
            lit = SIGNALS[gnss][g]
            for o, (ok, v) in cell_obs(k, sat, sgn, s, g).items():
                obs[o].setdefault(lit, {})[s] = (ok, v)
    m.obs = obs
    body = {}
    for o, per in obs.items():
        d = {}
        for lit, vals in per.items():
            anyp = 0
            dd = {}
            for s, (ok, v) in vals.items():
                dd[str(s)] = Opt(ok, v) if ok != 1 else v
                anyp = bdd.disj(anyp, ok)
            if anyp:
                d[lit] = Opt(anyp, dd) if anyp != 1 else dd
        body[o] = d
    aux = {
        "rs_id": hd["rs_id"], "MMB": hd["MMB"], "IODS": hd["IODS"],
        "clk_steer": {"code": hd["clk_steer"], "val": lookup(hdr["clk_steer"], CLK_STEER)},
        "clk_ext": {"code": hd["clk_ext"], "val": lookup(hdr["clk_ext"], CLK_EXT)},
        "smth_indc": {"code": hd["smth_indc"], "val": lookup(hdr["smth_indc"], SMTH_IND)},
        "smth_intr": {"code": hd["smth_intr"], "val": lookup(hdr["smth_intr"], SMTH_INT)},
    }
    sh = {
        "signals": {SIGNALS[gnss][g]: freq(gnss, SIGNALS[gnss][g]) for g in sgns} if m.supported and sats else {},
        "sats": list(sats),
        "time": m.tkey,
        "day": m.day,
    }
    m.scaled_body = {"hdr": sh, "aux": aux, "obs": body}
    m.set_view(True, True)
    return m


def _set_view(m, hdr=True, aux=True):
    def pick(b):
        out = {}
        if hdr:
            out["hdr"] = b["hdr"]
        if aux:
            out["aux"] = b["aux"]
        out.update({k: v for k, v in b.items() if k not in ("hdr", "aux")})
        return out

    t = m.tkey
    full = vadd(t, vscale(m.day, 86400000)) if m.gnss == "R" else t
    m.bare = {keyof(t): pick(m.bare_body)}
    m.scaled = {keyof(full): pick(m.scaled_body)}
    return m


Msm.set_view = _set_view


def keyof(v):
    if isinstance(v, int):
        return str(v)
    return SymKey(V.mkstr([Fmt(v, "")]), "time")


def cell_obs(k, sat, sgn, s, g):
    """{observable: (valid node, value)} of one cell"""
    out = {}
    fine = k in (6, 7)
    rough = vscale(unsigned(sat["rng_rough", s]), 1.0 / 1024)
    rok = 1
    if k >= 4:
        ms = sat["rng_ms", s]
        rok = bdd.neg(eqconst(ms, 255))
        rough = vadd(rough, unsigned(ms))
    if ("rng_fine", s, g) in sgn:
        b = sgn["rng_fine", s, g]
        ok = bdd.conj(rok, bdd.neg(eqconst(b, 1 << (len(b) - 1))))
        v = vscale(vadd(rough, vscale(signed(b), 2.0 ** (-29 if fine else -24))), CMS)
        out["rng"] = (ok, v)
    phs_ok = 0
    if ("phase_fine", s, g) in sgn:
        b = sgn["phase_fine", s, g]
        phs_ok = bdd.conj(rok, bdd.neg(eqconst(b, 1 << (len(b) - 1))))
        v = vscale(vadd(rough, vscale(signed(b), 2.0 ** (-31 if fine else -29))), CMS)
        out["phs"] = (phs_ok, v)
    if ("phase_rate_fine", s, g) in sgn:
        r = sat["phase_rate_rough", s]
        b = sgn["phase_rate_fine", s, g]
        ok = bdd.conj(bdd.neg(eqconst(r, 0x2000)), bdd.neg(eqconst(b, 0x4000)))
        out["dpl"] = (ok, vadd(signed(r), vscale(signed(b), 1e-4)))
    lock_ok = 1 if k >= 4 else phs_ok
    if ("lock_time", s, g) in sgn:
        b = sgn["lock_time", s, g]
        if all(x in (0, 1) for x in b):
            t = (tlock10 if fine else tlock4)(unsigned(b))
        elif fine:
            t = tlock10_sym(b)
        else:
            t = lookup(b, tlock4)
        out["ltm"] = (lock_ok, t)
    if ("hc_indc", s, g) in sgn:
        out["hca"] = (lock_ok, V.mkbool(sgn["hc_indc", s, g][0]))
    if ("c2n", s, g) in sgn:
        out["c2n"] = (1, vscale(unsigned(sgn["c2n", s, g]), 0.0625 if fine else 1.0))
    return out


def tlock10_sym(b):
    """DF407 over 10 symbolic bits: affine per segment of 32 indices"""
    alts = []
    lowv = unsigned(b[5:])
    for hi in range(32):
        g = eqconst(b[:5], hi)
        if hi < 2:
            alts.append((g, vadd(lowv, 32 * hi)))
        elif hi < 22:
            kk = hi - 1
            alts.append((g, vscale(vadd(lowv, 32 * hi - 32 * kk), 1 << kk)))
        elif hi == 22:
            z = eqconst(b[5:], 0)
            alts.append((bdd.conj(g, z), 67108864))
            alts.append((bdd.diff(g, z), 0))
        else:
            alts.append((g, 0))
    return V.merge(alts)
