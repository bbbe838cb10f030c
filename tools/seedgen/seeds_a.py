D="decoder_top.py"; B="utilities/bits.py"; U="utilities/RTCM_utilities.py"; MS="sub_decoders/RTCM_MSM.py"; MG="printers/margo_printer.py"
J="printers/json_printer.py"; BA="sub_decoders/RTCM_BASE.py"; EP="sub_decoders/RTCM_EPH.py"; R="run_conversion.py"; CT="controls.py"; CV="converter_top.py"
PT="printer_top.py"; DC="gnss_types/data_class_methods.py"; OB="gnss_types/observables.py"; LG="logger.py"

seed("C01-long-frame-parity", "C01", "a frame with the maximum payload length of 1023 bytes",
     "the parity of maximum-length frames is computed over one byte too few, so valid long frames are dropped",
     [(D, "        crc_calc = CRC24Q.calc(buf[0:data_len])", "        crc_calc = CRC24Q.calc(buf[0 : min(data_len, 1025)])")], '''
from decoder_top import DecoderTop
m = frame(bytes([7] * 1022 + [9]))
expect("frames", [len(x) for x in DecoderTop().catch_message(m + m)], [1029, 1029])
''')

seed("C03-double-preamble", "C03", "a preamble byte directly in front of a valid frame's preamble while searching for synchronisation",
     "after a false preamble the search continues two bytes later, so a frame that starts right behind it is lost",
     [(D, "                    ptr = ofs + 1", "                    ptr = ofs + 2")], '''
from decoder_top import DecoderTop
m = frame(bytes([0x3E, 0xD0, 1, 2]))
d = DecoderTop()
expect("frames", [bytes(x) for x in d.catch_message(b"\\x01\\xd3" + m + m)], [m, m])
''')

seed("C05-sign-of-wide-fields", "C05", "a negative two's-complement field wider than 56 bits",
     "sign extension of very wide fields is skipped, the magnitude is returned instead",
     [(B, "        acc = (acc ^ mask) - mask\n        return acc", "        acc = (acc ^ mask) - mask if length <= 60 else acc\n        return acc")], '''
from utilities import Bits
buf = bytes([0xff] * 9)
for n in (8, 32, 60, 61, 64):
    expect(f"{n} bits", Bits.getbits(buf, 3, n), -1)
''')

seed("C07-toe-at-week-end", "C07", "a GPS ephemeris whose reference time is the last 16 s step of the week",
     "the reference time is wrapped one step too early and becomes 0",
     [(EP, "        eph.sqrt_a = ie.sqrt_a * (2**-19)  # DF092 [m^0.5]\n        eph.te = ie.te * 16  # DF093 [sec]",
       "        eph.sqrt_a = ie.sqrt_a * (2**-19)  # DF092 [m^0.5]\n        eph.te = (ie.te * 16) % (604800 - 16)  # DF093 [sec]")], '''
def eph(te):
    p = pack((12, 1019), (6, 3), (10, 100), (4, 0), (2, 1), (14, 0), (8, 1), (16, 5), (8, 0), (16, 0), (22, 0), (10, 1), (16, 0), (16, 0), (32, 1), (16, 0), (32, 7), (16, 0), (32, 9), (16, te))
    return frame(p + bytes(61 - len(p)))
f, s, r = convert("JSON", eph(37798) + eph(37799))
expect("te", [x.te for x in r], [604768, 604784])
''')

seed("C09-transmission-interval", "C09", "an announced transmission interval of 3276.8 s or more",
     "the top bit of the 1013 interval is dropped in the scaled record",
     [(BA, "            period = bs.shedule[k][1] * 0.1", "            period = (bs.shedule[k][1] & 0x7FFF) * 0.1")], '''
p = pack((12, 1013), (12, 5), (16, 59000), (17, 3600), (5, 1), (8, 18), (12, 1077), (1, 1), (16, 40000))
f, s, r = convert("JSON", frame(p))
v = list(r[0].shedule.values())[0][1]
expect("interval", abs(v - 4000.0) < 1e-6, True)
''')

seed("C11-lock-time-boundary", "C11", "an extended lock-time indicator of exactly 703",
     "the last code of the longest lock-time band is decoded as the constant of the reserved band",
     [(U, "        elif t < 704:", "        elif t < 703:")], '''
f, s, r = convert("JSON", msm(1077, [1], [2], lock=703))
k = (703 >> 5) - 1
expect("lock time", r[0].obs.ltm["1C"][1], (1 << k) * (703 - 32 * k))
''')

seed("C12-invalid-range-kills-rate", "C12", "an MSM7 cell whose rough range is flagged invalid while its range rates are valid",
     "the phase-range rate of a cell is dropped as soon as its rough range is invalid",
     [(MS, "                if phase_rate_ok:\n                    # Make fine doppler", "                if phase_rate_ok and rng_ok:\n                    # Make fine doppler")], '''
import json
f, s, r = convert("JSON", msm(1077, [1, 2], [2], rng_int={1: 255, 2: 70}))
obs = list(json.loads(find(f, "1077"))[1].values())[0]["obs"]
rates = [v for k, v in obs.items() if k.lower().startswith(("dpl", "dopp"))][0]
expect("satellites with a rate", sorted(rates["1C"]), ["1", "2"])
''')

seed("C13-neighbour-signal", "C13", "an MSM that carries an unassigned signal ID",
     "an unassigned signal ID is reported under the code of its neighbour instead of rejecting the message",
     [(U, "        return tab.get(msm_code) if tab else None", "        return tab.get(msm_code, tab.get(msm_code - 1)) if tab else None")], '''
f, s, r = convert("JSON", msm(1087, [1], [2, 10]) + msm(1087, [1], [2, 8]))
expect("attempts, errors", (s.decoding_attempts, s.decoding_errors), (2, 1))
''')

seed("C16-cell-mask-memo", "C16", "two messages with equal satellite and signal masks but different cell masks in one process",
     "the cells of a message are taken from an earlier message with the same satellites and signals",
     [(MS, "        self.slots_per_sat = tuple(\n            (((src.hdr.cell_mask >> M * i) & mask) for i in range(0, sat_num))\n        )",
       "        key = (src.hdr.sat_mask, src.hdr.sgn_mask)\n        if key not in _SLOTS:\n            _SLOTS[key] = tuple(\n                (((src.hdr.cell_mask >> M * i) & mask) for i in range(0, sat_num))\n            )\n        self.slots_per_sat = _SLOTS[key]"),
      (MS, "class Bare2Scaled:", "_SLOTS: dict = {}\n\n\nclass Bare2Scaled:")], '''
import json
a = msm(1077, [1, 2], [2, 15], cells=[(1, 2), (2, 15)])
b = msm(1077, [1, 2], [2, 15], cells=[(1, 15), (2, 2)])
f, s, r = convert("JSON", a + b)
got = [{k: sorted(v) for k, v in list(x.values())[0]["obs"][sorted(list(x.values())[0]["obs"])[0]].items()} for x in json.loads(find(f, "1077"))[1:]]
expect("cells", got, [{"1C": ["1"], "2S": ["2"]}, {"1C": ["2"], "2S": ["1"]}])
''')

seed("C18-text-nan", "C18", "a text message whose characters contain 'nan'",
     "a clean-up of not-a-number literals is applied to the whole serialised record and alters transmitted text",
     [(J, "        data_string = \",\\r\" + data_string\n", "        data_string = \",\\r\" + data_string.replace(\"nan\", \"NaN\")\n")], '''
import json
t = b"banana"
p = pack((12, 1029), (12, 5), (16, 59000), (17, 3600), (7, len(t)), (8, len(t)), *[(8, c) for c in t])
f, s, r = convert("JSON", frame(p))
expect("text", "banana" in find(f, "1029"), True)
''')

seed("C20-beidou-week-wrap", "C20", "a BeiDou epoch exactly 14 s before the end of the week",
     "the time mark is 604800000 instead of 0 at the week wrap",
     [(MG, "            return rv - 604800000 if (rv >= 604800000) else rv", "            return rv - 604800000 if (rv > 604800000) else rv")], '''
f, s, r = convert("MARGO", msm(1127, [3], [2], epoch=604800000 - 14000))
row = find(f, "BC2I").strip().splitlines()[-1]
expect("time mark", int(row.split(",")[0]), 0)
''')

seed("C23-zero-shift", "C23", "a configuration whose GPS-UTC shift is 0",
     "a shift of zero counts as missing, so no source is converted",
     [(CT, "        if res.gps_utc_shift is None:", "        if not res.gps_utc_shift:")], '''
from controls import ConverterControls
txt = open("defaults.ini", encoding="utf-8").read()
import re
txt = re.sub(r"(?im)^(\\s*GPS2UTC\\s*[:=]).*$", r"\\1 0", txt)
with scratch() as d:
    p = os.path.join(d, "x.ini")
    open(p, "w", encoding="utf-8").write(txt)
    c = ConverterControls()
    with contextlib.redirect_stdout(io.StringIO()):
        c.init_from_file(p)
    expect("controls available", c.boxed_controls is not None, True)
    expect("shift", c.boxed_controls.MARGO.gps_utc_shift, 0)
''')

seed("C25-failed-open-slot", "C25", "an output file that cannot be created, followed by the end of the conversion",
     "the slot of a file that failed to open keeps a placeholder, so closing the printer raises and other files stay unfinished",
     [(J, "            self.__ofiles[msg_num] = open(path", "            self.__ofiles[msg_num] = None\n            self.__ofiles[msg_num] = open(path")], '''
import builtins, json
real = builtins.open
def fake(p, *a, **k):
    if "1077" in str(p):
        raise PermissionError(13, "no", str(p))
    return real(p, *a, **k)
builtins.open = fake
try:
    f, s, r = convert("JSON", msm(1077, [1], [2]) + msm(1127, [3], [2]) + msm(1077, [1], [2]))
except Exception as e:
    expect("conversion", repr(e), "no exception")
expect("records of the other file", len(json.loads(find(f, "1127"))), 2)
expect("errors", (s.printing_attempts, s.printing_errors), (3, 2))
''')

seed("C28-log-after-failure", "C28", "a source whose reading fails in the middle, followed by another source",
     "the log of a failed source stays attached, so the next source's report also goes into the failed source's log",
     [(R, "        else:\n            logger.error(\"Decoding was terminated.\")\n\n        logger.deinit()", "        else:\n            logger.error(\"Decoding was terminated.\")\n            continue\n\n        logger.deinit()")], '''
import builtins, run_conversion
real = builtins.open
def fake(p, mode="r", *a, **k):
    if str(p).endswith("bad.rtcm3"):
        raise PermissionError(13, "no", str(p))
    return real(p, mode, *a, **k)
with scratch() as d:
    for n in ("bad", "good"):
        with real(os.path.join(d, n + ".rtcm3"), "wb") as fh:
            fh.write(msm(1077, [1], [2]))
    builtins.open = fake
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        run_conversion.main("-o JSON " + " ".join(os.path.join(d, n + ".rtcm3") for n in ("bad", "good")))
    builtins.open = real
    log = real(os.path.join(d, "bad-JSON", "bad-log.txt"), encoding="utf-8").read()
    expect("other source mentioned in the log", "good.rtcm3" in log, False)
''')
