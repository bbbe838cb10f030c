import re

EPH, CTL, LOG, PT, OBS, DCM, RU, BITS, CRC, BASE = (
    "sub_decoders/RTCM_EPH.py", "controls.py", "logger.py", "printer_top.py", "gnss_types/observables.py",
    "gnss_types/data_class_methods.py", "utilities/RTCM_utilities.py", "utilities/bits.py", "utilities/CRC24Q.py",
    "sub_decoders/RTCM_BASE.py")

# --- ephemeris: field tables and setattr loops -------------------------------------------------
src = open("/repo/" + EPH).read()


def body(name, start, stop):
    i = src.index(f"def {name}(")
    a = src.index(start, i)
    b = src.index(stop, a)
    return src[a:b]


for num, cls in ((1019, "GPS"), (1020, "GLO"), (1041, "NAVIC"), (1042, "BDS")):
    old = body(f"__decode{num}", "        offset = 24\n", "        # expected off")
    rows = re.findall(r"eph\.(\w+), offset = self\.(getbit[usS])\(buf, offset, (\d+)\), offset \+ ([\d +]+?)(?:  #.*)?\n", old)
    tab = "".join(f'            ("{n}", self.{g}, {w}, {s}),\n' for n, g, w, s in rows)
    r("A4", EPH, old, f"        offset = 24\n        for name, get, width, step in (\n{tab}        ):\n            setattr(eph, name, get(buf, offset, width))\n            offset += step\n\n")

old = body("__scale1042", "        eph.msgNum = ie.msgNum", "        return eph")
rows = re.findall(r"eph\.(\w+) = ie\.(\w+)(?: \* ([^ #]+|\([^)]*\)))?(?:  #.*)?\n", old)
assert all(a == b for a, b, c in rows), rows
tab = "".join(f'            "{a}": {c or 1},\n' for a, b, c in rows)
r("A4", EPH, old, f"        factors = {{\n{tab}        }}\n        for name, value in ie.items():\n            setattr(eph, name, value * factors.get(name, 1))\n\n")

r("A4", EPH, '''        sgnMask = 1 << (length - 1)
        magnMask = sgnMask - 1
        d = self.getbitu(buf, offcet, length)
        magn = d & magnMask
        return magn if (d & sgnMask) == 0 else -magn
''', '''        negative, magn = divmod(self.getbitu(buf, offcet, length), 2 ** (length - 1))
        return magn * (1 - 2 * negative)
''')
r("A4", EPH, '''            if iURA <= 6:
                return 2 ** (1 + iURA * 0.5)
            elif iURA < 15:
                return 2 ** (iURA - 2.0)
            else:
                return 6144.0
''', '''            if iURA == 15:
                return 6144.0
            power = 1 + iURA / 2 if iURA < 7 else float(iURA - 2)
            return 2**power
''')
r("A4", EPH, '''        tk_h = 3600 * ((ie.tk >> 7) & 0x1F)  # DF107
        tk_m = 60 * ((ie.tk >> 1) & 0x3F)  # DF107
        tk_s = 30 * (ie.tk & 0x01)  # DF107
        eph.tk = tk_h + tk_m + tk_s  # [s]
''', '''        minutes, half = divmod(ie.tk, 2)
        hours, minutes = divmod(minutes, 64)
        eph.tk = (hours * 60 + minutes) * 60 + 30 * half
''')

# --- controls ----------------------------------------------------------------------------------
r("A4", CTL, '''        if "LITERALS" not in self.__ini.sections():
            return False

        if "TIME" not in self.__ini.sections():
            return False

        if "MARGO" not in self.__ini.sections():
            return False

        lt = {}
        mask: int = 0

        keys = set(self.__ini["LITERALS"])
        # 'keys' collects garbage from 'DEFAULT'
        if "DEFAULT" in self.__ini.sections():
            keys = keys - set(self.__ini["DEFAULT"])

        for key in keys:
            sat = int(key.strip("rR"))
            if 0 < sat <= 24:
                mask |= 1 << (sat - 1)
                lt.update({sat: self.__ini["LITERALS"].getint(key)})

        res = MargoControls()

        if mask == 0xFFFFFF:
            res.glo_lit_tab = lt
        else:
            return False

        res.gps_utc_shift = self.__ini["TIME"].getint("GPS2UTC")
        if res.gps_utc_shift is None:
            return False

        res.half_cycle_enable = self.__ini["MARGO"].getboolean("HCA")
        if res.half_cycle_enable is None:
            return False

        res.lock_time_enable = self.__ini["MARGO"].getboolean("LOCK_TIME")
        if res.lock_time_enable is None:
            return False

        self.__MARGO = res
        return True
''', '''        if not all(map(self.__ini.has_section, ("LITERALS", "TIME", "MARGO"))):
            return False

        literals = self.__ini["LITERALS"]
        keys = set(literals)
        # 'keys' collects garbage from 'DEFAULT'
        if self.__ini.has_section("DEFAULT"):
            keys -= set(self.__ini["DEFAULT"])

        numbered = ((int(key.strip("rR")), key) for key in keys)
        table = {sat: literals.getint(key) for sat, key in numbered if 1 <= sat < 25}
        if len(table) < 24:
            return False

        shift = self.__ini.getint("TIME", "GPS2UTC", fallback=None)
        margo = self.__ini["MARGO"]
        if shift is None:
            return False

        flags = []
        for option in ("HCA", "LOCK_TIME"):
            flag = margo.getboolean(option)
            if flag is None:
                return False
            flags.append(flag)

        res = MargoControls()
        res.glo_lit_tab = table
        res.gps_utc_shift = shift
        res.half_cycle_enable, res.lock_time_enable = flags
        self.__MARGO = res
        return True
''')
r("A4", CTL, '''        res.enable_hdr_data = self.__ini["JSON"].getboolean("ENABLE_HDR_DATA")
        if res.enable_hdr_data is None:
            return False

        res.enable_aux_data = self.__ini["JSON"].getboolean("ENABLE_AUX_DATA")
        if res.enable_aux_data is None:
            return False

        res.enable_pretty_view = self.__ini["JSON"].getboolean("ENABLE_PRETTY_VIEW")
        if res.enable_pretty_view is None:
            return False
''', '''        section = self.__ini["JSON"]
        for name in ("enable_hdr_data", "enable_aux_data", "enable_pretty_view"):
            value = section.getboolean(name.upper())
            if value is None:
                return False
            setattr(res, name, value)
''')

# --- logger ------------------------------------------------------------------------------------
r("A4", LOG, '''        _c_handler = logging.StreamHandler()
        _c_handler.setLevel(logging.WARNING)
        _c_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
        _c_handler.setFormatter(_c_format)

        _f_handler = logging.FileHandler(file_name, mode="a")
        _f_handler.setLevel(logging.INFO)
        _f_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
        _f_handler.setFormatter(_f_format)

        # Add handlers to the logger
        self.logger.addHandler(_c_handler)
        self.logger.addHandler(_f_handler)
''', '''        layout = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
        for handler, level in (
            (logging.StreamHandler(), logging.WARNING),
            (logging.FileHandler(file_name, mode="a"), logging.INFO),
        ):
            handler.setLevel(level)
            handler.setFormatter(layout)
            self.logger.addHandler(handler)
''')
for lv in ("debug", "info", "warning", "error", "critical"):
    r("A4", LOG, f'''        if self.ready and self.logger is not None:
            self.logger.{lv}(msg)
''', f'''        self.__emit(logging.{lv.upper()}, msg)
''')
r("A4", LOG, '''        if self.ready and self.logger is not None:
            self.logger.log(self.PROGRESS, msg)
''', '''        if self.ready:
            self.__emit(self.PROGRESS, msg)

    def __emit(self, level, msg):
        if not self.ready or self.logger is None:
            return
        self.logger.log(level, msg)
''')

# --- printer top ---------------------------------------------------------------------------------
r("A4", PT, '''        rv = set()
        specs = _SPECS_LIST.get(oformat)
        if specs is not None:
            type_iterator = (
                dtype for dtypes in specs.values() for dtype in dtypes
            )
            rv = set(type_iterator)
        else:
            assert False, "Undefined printing format."

        return rv
''', '''        try:
            specs = _SPECS_LIST[oformat]
        except KeyError:
            raise AssertionError("Undefined printing format.") from None
        return set().union(*specs.values())
''')
r("A4", PT, '''        for printer in self.printers:
            if (tp in printer.data_spec) and (tp in printer.actual_spec):
                self.__attempts_cnt += 1
                printer.print(dblock)
                self.__succeeded_cnt += 1
                break
        else:
            logger.warning(f"Printer not found, d-block {tp}")
''', '''        printer = next(
            (p for p in self.printers if tp in p.data_spec & p.actual_spec), None
        )
        if printer is None:
            logger.warning(f"Printer not found, d-block {tp}")
            return
        self.__attempts_cnt += 1
        printer.print(dblock)
        self.__succeeded_cnt += 1
''')

# --- observables ---------------------------------------------------------------------------------
for k in range(1, 8):
    r("A4", OBS, f'''        return self.subset == "MSM{k}"''', f'''        return self.__is_msm({k})''')
r("A4", OBS, '''    @property
    def is_msm7(self)''', '''    def __is_msm(self, k: int) -> bool:
        return self.subset.startswith("MSM") and self.subset[3:] == str(k)

    @property
    def is_msm7(self)''')
r("A4", OBS, '''        self.rng: dict[str, dict[int, float]] = {}  # [m],
''', '''        for name in self.__slots__:
            setattr(self, name, {})
''')

# --- comparison -----------------------------------------------------------------------------------
r("A4", DCM, '''            if math.isnan(A) and math.isnan(B):
                return True

            if math.isnan(A) or math.isnan(B):
                return False

            if math.fabs(B) > f_tolerance:
                diff = math.fabs((B - A) / B)
            else:
                diff = math.fabs(B - A)

            return diff < f_tolerance
''', '''            if A != A or B != B:
                return A != A and B != B

            diff = B - A
            if abs(B) > f_tolerance:
                diff /= B

            return abs(diff) < f_tolerance
''')
r("A4", DCM, '''            if A.keys() != B.keys():
                return False

            for key in A:
                if not cls.__compare(A[key], B[key], f_tolerance):
                    return False

        elif isinstance(A, Iterable):

            for a, b in zip_longest(A, B, fillvalue=None):
                if not cls.__compare(a, b, f_tolerance):
                    return False

        else:
            raise TypeError(f"Unexpected type {type(A)}. Comparison is impossible.")

        return True
''', '''            return A.keys() == B.keys() and all(
                cls.__compare(a, B[key], f_tolerance) for key, a in A.items()
            )

        if not isinstance(A, Iterable):
            raise TypeError(f"Unexpected type {type(A)}. Comparison is impossible.")

        return all(
            cls.__compare(a, b, f_tolerance) for a, b in zip_longest(A, B)
        )
''')
r("A4", DCM, '''        ret = self.__class__()
        for key, value in self.items():
            setattr(ret, key, value)

        return ret
''', '''        return copy.copy(self)
''')

# --- RTCM utilities --------------------------------------------------------------------------------
u = open("/repo/" + RU).read()
a = u.index("        gnss = cls.MSM7_MSG_LIST.get(num)")
b = u.index('        return "", ""', a)
r("A4", RU, u[a:b], '''        for k in range(7, 0, -1):
            table = getattr(cls, f"MSM{k}_MSG_LIST")
            if num in table:
                return table[num], f"MSM{k}"

''')
r("A4", RU, '''        if code == 0:
            return "OFF"  # 1 ms range
        elif code == 1:
            return "ON"  # 1 mks range
        else:
            return "UNDEF"
''', '''        return {0: "OFF", 1: "ON"}.get(code, "UNDEF")
''')
r("A4", RU, '''        if code == 0:
            return "INTERNAL"
        elif code == 1:
            return "EXT-LOCK"
        elif code == 2:
            return "EXT-UNLOCK"
        else:
            return "UNDEF"
''', '''        match code:
            case 0:
                return "INTERNAL"
            case 1:
                return "EXT-LOCK"
            case 2:
                return "EXT-UNLOCK"
            case _:
                return "UNDEF"
''')
a = u.index('            return "NOSMTH"') - len("        if code == 0:\n")
b = u.index('            return "UNLIM"\n') + len('            return "UNLIM"\n')
r("A4", RU, u[a:b], '''        names = ("NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+")
        return names[code] if 0 <= code < len(names) else "UNLIM"
''')
r("A4", RU, '''        if t < 64:
            rv = t
        elif t < 704:
            k = (t >> 5) - 1
            rv = (1 << k) * (t - 32 * k)
        elif t == 704:
            rv = 67108864
        else:
            rv = 0

        return rv
''', '''        if t > 704:
            return 0
        if t == 704:
            return 1 << 26
        k = max(t // 32 - 1, 0)
        return (t - 32 * k) << k
''')
r("A4", RU, '''        return 0 if t == 0 else (1 << (4 + t))''', '''        return 16 * 2**t if t else 0''')
r("A4", RU, '''        return (x & 0xFFFFF) != 0x80000''', '''        return x % 2**20 != 2**19''')
r("A4", RU, '''        return (x & 0xFFFFFF) != 0x800000''', '''        return not x % (1 << 24) == 1 << 23''')

# --- bits -----------------------------------------------------------------------------------------
r("A4", BITS, '''        src = a >> ofs
        rv = 0
        for _ in range(0, length):
            rv = (rv << 1) | (src & 1)
            src = src >> 1

        return rv
''', '''        src = (a >> ofs) & ((1 << length) - 1)
        return int(f"{src:0{length}b}"[::-1], 2) if length > 0 else 0
''')
r("A4", BITS, '''        acc = int(0)
        for i in range(start_byte, finish_byte):
            acc = acc * 256 + buf[i]
        # Clean extra bits
        acc = acc >> (finish_byte * 8 - finish_pos)
        mask = (int(1) << length) - 1
        return acc & mask
''', '''        window = int.from_bytes(buf[start_byte:finish_byte], "big")
        # Clean extra bits
        return (window >> (-finish_pos % 8)) % (1 << length)
''')
r("A4", CRC, '''        crc = int(0)
        for d in data:
            crc = ((crc << 8) & 0xFFFFFF) ^ cls._crc_tab[(crc >> 16) ^ d]

        return crc
''', '''        def step(crc: int, byte: int) -> int:
            top, rest = divmod(crc, 1 << 16)
            return (rest << 8) ^ cls._crc_tab[top ^ byte]

        return reduce(step, data, 0)
''')
r("A4", CRC, '''class CRC24Q''', '''from functools import reduce


class CRC24Q''')
