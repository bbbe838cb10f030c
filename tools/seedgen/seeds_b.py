D="decoder_top.py"; B="utilities/bits.py"; U="utilities/RTCM_utilities.py"; MS="sub_decoders/RTCM_MSM.py"; MG="printers/margo_printer.py"
J="printers/json_printer.py"; BA="sub_decoders/RTCM_BASE.py"; EP="sub_decoders/RTCM_EPH.py"; R="run_conversion.py"; CT="controls.py"; CV="converter_top.py"
PT="printer_top.py"; DC="gnss_types/data_class_methods.py"; OB="gnss_types/observables.py"; LG="logger.py"

_B = "        BaseSP,\n        BaseTS,\n        BaseGLBS,\n    },\n}\n\n\n"
PT_OLD = _B + "_SPECS_LIST"
PT_NEW = PT_OLD.replace("        BaseGLBS,\n", "")
EPWHAT = "the accuracy index of Galileo I/NAV ephemerides loses its top bit"
EP_OLD = "        eph.SISA, offset = self.getbitu(buf, offset, 8), offset + 8  # DF291"
EP_NEW = "        eph.SISA, offset = self.getbitu(buf, offset, 8) & 0x7F, offset + 8  # DF291"
EPDEMO = """
p = pack((12, 1045), (6, 3), (12, 100), (10, 5), (8, 200))
f, st, r = convert("JSON-B", frame(p + bytes(62 - len(p))))
expect("accuracy index", [x.SISA for x in r], [200])
"""

seed("C02-maximum-frame-cut", "C02", "a frame with the maximum payload length of 1023 bytes",
     "the message handed on lacks the last byte of the longest possible frame",
     [(D, "                    ret_list.append(self._tail[0:msg_length])", "                    ret_list.append(self._tail[0 : min(msg_length, 1028)])")], '''
from decoder_top import DecoderTop
m = frame(bytes([7] * 1022 + [9]))
expect("frames", [x == m for x in DecoderTop().catch_message(m + m)], [True, True])
''')

seed("C04-interruption-before-cut", "C04", "noise directly after a frame, with the read boundary between the noise and the next frame",
     "an interruption is forgotten when the block ends inside it, so it is not counted",
     [(D, "        return ret_list\n\n    # ....", "        if self._tail == b\"\":\n            self._skipped_some_bytes = False\n        return ret_list\n\n    # ....")], '''
from decoder_top import DecoderTop
m = frame(bytes([0x3E, 0xD0, 1, 2]))
def errs(chunks):
    d = DecoderTop()
    for c in chunks:
        d.catch_message(c)
    return d.parse_errors
expect("interruptions", (errs([m + b"\\x01\\x02" + m]), errs([m + b"\\x01\\x02", m])), (1, 1))
''')

seed("C08-long-descriptor", "C08", "an antenna descriptor of more than 127 characters",
     "the declared descriptor length is read without its top bit, so long descriptors are cut or rejected",
     [(BA, "        for _ in range(bs.rcvSerNumLength):", "        for _ in range(bs.rcvSerNumLength & 0x7F):")], '''
s = b"x" * 130
p = pack((12, 1033), (12, 5), (8, 0), (8, 1), (8, 0), (8, 0), (8, 0), (8, len(s)), *[(8, c) for c in s])
f, st, r = convert("JSON-B", frame(p))
expect("records, errors", (len(r), st.decoding_errors), (1, 0))
''')

seed("C10-max-cells-msm6", "C10", "an MSM6 message with 60 or more cells",
     "the length expected of large MSM6 messages is one byte too long, so valid ones are rejected",
     [(MS, "est_len = ((offset + 18 * Nsat + 65 * Ncell + 7) >> 3) + 3", "est_len = ((offset + 18 * Nsat + 65 * Ncell + 7) >> 3) + (3 if Ncell < 60 else 4)")], '''
f, st, r = convert("JSON-B", msm(1076, list(range(1, 63)), [2]) + msm(1076, list(range(1, 31)), [2, 15]) + msm(1076, [1], [2]))
expect("records, errors", (len(r), st.decoding_errors), (3, 0))
''')

seed("C14-text-slack", "C14", "a text message that declares one unit less than it carries",
     "a surplus byte at the end of a message is tolerated by the length check",
     [(BA, "        if Ndec != bufLen:", "        if not 0 <= bufLen - Ndec <= 1:")], '''
t = b"banana"
def text(n):
    return frame(pack((12, 1029), (12, 5), (16, 59000), (17, 3600), (7, n), (8, n), *[(8, c) for c in t]))
f, st, r = convert("JSON", text(6) + text(5))
expect("records, errors", (len(r), st.decoding_errors), (1, 1))
''')

seed("C15-decoder-disabled", "C15", "more than three rejected messages before a valid one of the same number",
     "after repeated errors the message number is no longer decoded at all",
     [(D, "                if not isinstance(rv, dec.io_spec[num]):\n", "                if not isinstance(rv, dec.io_spec[num]):\n                    if self.dec_errors > 3:\n                        dec.actual_messages = dec.actual_messages - {num}\n")], '''
good = msm(1077, [1], [2])
bad = frame(good[3:-4])
f, st, r = convert("JSON", bad * 6 + good)
expect("records, attempts, errors", (len(r), st.decoding_attempts, st.decoding_errors), (1, 7, 6))
''')

seed("C17-jargo-bases", "C17", "a JARGO run with message 1230",
     "the GLONASS bias record is missing from the types printed in JARGO mode",
     [(PT, PT_OLD, PT_NEW)], '''
m = frame(pack((12, 1230), (12, 5), (1, 1), (3, 0), (4, 8), (16, 100)))
f, st, r = convert("JARGO", m)
expect("bias file", any("1230" in n for n in f), True)
''')

seed("C19-last-navic-column", "C19", "observables of NavIC satellite 14",
     "the value of the last NavIC satellite is blanked, its column holds NaN",
     [(MG, "                value = obs[sat] if sat in obs.keys() else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Carrier phase",
           "                value = obs[sat] if sat in obs.keys() and (sat < max_sats or sat > 14) else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Carrier phase")], '''
f, st, r = convert("MARGO", msm(1137, [14], [22]))
code = list(r[0].obs.rng)[0]
row = find(f, "IC" + code).strip().splitlines()[-1]
expect("range", abs(float(row.split(",")[14]) - r[0].obs.rng[code][14]) < 1e-2, True)
''')

seed("C21-ambiguity-by-lock", "C21", "half-cycle output off, lock-time output on",
     "the half-cycle switch is also taken as set when lock times are printed",
     [(MG, "        return self.ctrl.half_cycle_enable", "        return self.ctrl.half_cycle_enable or self.ctrl.lock_time_enable")], '''
f, st, r = convert("MARGO", msm(1077, [1], [2], half=1), hca=False, lock=True)
expect("ambiguity files", [n for n in f if "GA1C" in n], [])
expect("phase", find(f, "GL1C").strip().splitlines()[-1].split(",")[1].strip(), "nan")
''')

seed("C22-pretty-drops-empty", "C22", "pretty view and a 1013 message without announcements",
     "the pretty view leaves out fields that are empty",
     [(J, "            asStr = jdumps(\n                asDictionary, indent=indent,", "            if indent:\n                asDictionary = {k: v for k, v in asDictionary.items() if v != {}}\n            asStr = jdumps(\n                asDictionary, indent=indent,")], '''
import json
m = frame(pack((12, 1013), (12, 5), (16, 59000), (17, 3600), (5, 0), (8, 18)))
a = [json.loads(find(convert("JSON", m, pretty=p)[0], "1013"))[1:] for p in (True, False)]
expect("pretty view", a[0], a[1])
''')

seed("C26-silent-block", "C26", "a file with a whole read block of noise after the first one",
     "reading stops at the first later block that holds no message, the rest of the file is not converted",
     [(R, "            rtcm3_lines = converter.parse_bytes(chunk)\n", "            rtcm3_lines = converter.parse_bytes(chunk)\n            if not rtcm3_lines and bytes_processed > FILE_CHUNCK_LEN:\n                break\n")], '''
import run_conversion
with scratch() as d:
    p = os.path.join(d, "a.rtcm3")
    with open(p, "wb") as fh:
        fh.write(msm(1077, [1], [2]) + bytes(3 * run_conversion.FILE_CHUNCK_LEN) + msm(1127, [3], [2]))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        run_conversion.main("-o JSON " + p)
    names = [n for _, _, ns in os.walk(os.path.join(d, "a-JSON")) for n in ns]
    expect("file of the last message", any("1127" in n for n in names), True)
''')

seed("C27-length-of-tuples", "C27", "records whose nested sequences have different lengths",
     "a shorter nested sequence compares equal to a longer one with the same beginning",
     [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):", "            for a, b in zip(A, B):")], '''
from gnss_types import BaseSP
a, b = BaseSP(), BaseSP()
a.shedule = {1005: (True, 0.5)}
b.shedule = {1005: (True,)}
expect("equal", (a.compare(b), b.compare(a), a.compare(a)), (False, False, True))
''')

seed("C06-galileo-sisa", "C06", "a Galileo ephemeris with the top bit of SISA set",
     EPWHAT, [(EP, EP_OLD, EP_NEW)], EPDEMO)

seed("C24-dotted-names", "C24", "two sources a.rtcm3 and a.day2.rtcm3 in one folder",
     "the work folder is named after the part before the first dot, so one source deletes the products of another",
     [(R, "    fld, _ = os.path.splitext(src_file_path)\n    fld = fld", "    head, tail = os.path.split(src_file_path)\n    fld = os.path.join(head, tail.split(\".\")[0])\n    fld = fld")], '''
import run_conversion
with scratch() as d:
    ps = [os.path.join(d, n) for n in ("a.rtcm3", "a.day2.rtcm3")]
    for k, p in enumerate(ps):
        with open(p, "wb") as fh:
            fh.write(msm((1077, 1127)[k], [3], [2]))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        run_conversion.main("-o JSON " + " ".join(ps))
    names = sorted(n for _, _, ns in os.walk(d) for n in ns if "10" in n or "11" in n)
    expect("products", len(names), 2)
''')

seed("C33-no-messages", "C33", "a sub-decoder that implements no message",
     "an empty sub-decoder is registered",
     [(D, "        elif len(io.actual_messages) == 0:", "        elif io.actual_messages is None:")], '''
from decoder_top import DecoderTop, SubDecoderInterface
x = SubDecoderInterface("EPH")
x.decode = lambda buf: None
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    expect("registered", bool(DecoderTop().register_decoder(x)), False)
''')

seed("C34-last-of-the-list", "C34", "a folder as source and the last file of the list selected",
     "the last file of the list cannot be selected when more than one was found",
     [(R, "if 0 < int(i) <= len(file_list)]", "if 0 < int(i) < max(2, len(file_list))]")], '''
import builtins, run_conversion
with scratch() as d:
    for n in ("a", "b"):
        open(os.path.join(d, n + ".rtcm3"), "wb").close()
    builtins.input = lambda *a: "1 2"
    with contextlib.redirect_stdout(io.StringIO()):
        got = run_conversion.make_list_of_source_files([d])
    expect("selected", sorted(os.path.basename(p) for p in got), ["a.rtcm3", "b.rtcm3"])
''')

seed("C31-upper-navic", "C31", "message number 1137",
     "the last MSM number is not classified as MSM",
     [(U, "    elif 1071 <= num <= 1137:", "    elif 1071 <= num < 1137:")], '''
from utilities.RTCM_utilities import getSubset
expect("1137", getSubset(1137), ("I", "MSM7"))
''')
