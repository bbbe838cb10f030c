MSM, RC, PT, JP, MP, CTL, BASE, EPH, DT, RU = (
    "sub_decoders/RTCM_MSM.py", "run_conversion.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py",
    "controls.py", "sub_decoders/RTCM_BASE.py", "sub_decoders/RTCM_EPH.py", "decoder_top.py", "utilities/RTCM_utilities.py")

# --- MSM: columns read through a cursor, cells through a generator -------------------------------------
src = open("/repo/" + MSM).read().replace("\r\n", "\n")
a = src.index("        # Extract sat data\n", src.index("def __extract_observables4567"))
b = src.index("        # Do final length check", a)
r("A5", MSM, src[a:b], '''        has_rates = self.bd.atr.is_msm5 or self.bd.atr.is_msm7
        cursor = _Cursor(self, buf, offset)
        sat, sgn = self.bd.sat, self.bd.sgn
        columns = [
            (sat, "rng_ms", Nsat, False),
            (sat, "ext_info", Nsat, False) if has_rates else None,
            (sat, "rng_rough", Nsat, False),
            (sat, "phase_rate_rough", Nsat, True) if has_rates else None,
            (sgn, "rng_fine", Ncell, True),
            (sgn, "phase_fine", Ncell, True),
            (sgn, "lock_time", Ncell, False),
            (sgn, "hc_indc", Ncell, False),
            (sgn, "c2n", Ncell, False),
            (sgn, "phase_rate_fine", Ncell, True) if has_rates else None,
        ]
        for (target, name, count, signed), width in zip(filter(None, columns), bw):
            setattr(target, name, cursor.column(width, count, signed))
        offset = cursor.offset

''')
r("A5", MSM, '''class BareObservablesMSM17Decoder(Bits):
''', '''class _Cursor:
    """Reads consecutive fields of equal width"""

    def __init__(self, bits, buf: bytes, offset: int):
        self._bits, self._buf, self.offset = bits, buf, offset

    def column(self, width: int, count: int, signed: bool) -> tuple:
        get = self._bits.getbits if signed else self._bits.getbitu
        start, self.offset = self.offset, self.offset + width * count
        return tuple(get(self._buf, pos, width) for pos in range(start, self.offset, width))


class _Invalid(IntEnum):
    """Codes that mark a missing value"""

    ROUGH_RANGE_MS = 255
    ROUGH_RATE = 0x2000


class BareObservablesMSM17Decoder(Bits):
''')
r("A5", MSM, '''from utilities import MSMT
''', '''from enum import IntEnum
from itertools import compress, product

from utilities import MSMT
''')
r("A5", MSM, "            rng_ok = src.sat.rng_ms[sat_idx] != 255\n", "            rng_ok = src.sat.rng_ms[sat_idx] != _Invalid.ROUGH_RANGE_MS\n")
r("A5", MSM, "(src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000", "src.sat.phase_rate_rough[sat_idx] & 0x3FFF != _Invalid.ROUGH_RATE.value")
r("A5", MSM, '''            # Pass through signals of satellite 'sat'
            i = 0
            while slots:

                # sgn - RINEX literal - code of signal
                sgn = self.sgn_map[i]
                i += 1
                slotExist = slots & 0x01
                slots = slots >> 1

                if slotExist == 0:
                    continue

''', '''            # Pass through signals of satellite 'sat'
            present = ((slots >> k) & 1 for k in range(len(self.sgn_map)))
            for sgn in compress(self.sgn_map, present):

''', 2)
r("A5", MSM, '''        # Calc. number of frequency bins per sat.
        M = src.hdr.sgn_mask.bit_count()
        mask = (1 << M) - 1
        self.slots_per_sat = tuple(
            (((src.hdr.cell_mask >> M * i) & mask) for i in range(0, sat_num))
        )
''', '''        # Calc. number of frequency bins per sat.
        slots = [0] * sat_num
        M = bin(src.hdr.sgn_mask).count("1")
        for cell, (i, k) in enumerate(product(range(sat_num), range(M))):
            if src.hdr.cell_mask >> cell & 1:
                slots[i] |= 1 << k
        self.slots_per_sat = tuple(slots)
''')
a = src.index("        # Delete empty frequency slots.\n")
b = src.index("    def _convert_obs13")
r("A5", MSM, src[a:b], '''        # Delete empty frequency slots.
        for table in (rv.obs.dpl, rv.obs.rng, rv.obs.c2n, rv.obs.phs, rv.obs.ltm, rv.obs.hca):
            for sgn in [s for s, values in table.items() if not values]:
                table.pop(sgn)

''')
r("A5", MSM, "        for sgn in self.sgn_map:\n            rv.obs.rng.update({sgn: {}})\n            rv.obs.c2n.update({sgn: {}})\n            rv.obs.dpl.update({sgn: {}})\n            rv.obs.phs.update({sgn: {}})\n            rv.obs.ltm.update({sgn: {}})\n            rv.obs.hca.update({sgn: {}})\n",
  '''        for name in ("rng", "c2n", "dpl", "phs", "ltm", "hca"):
            getattr(rv.obs, name).update((sgn, {}) for sgn in self.sgn_map)
''')

# --- file loop -----------------------------------------------------------------------------------------
r("A5", RC, '''        chunk = f.read(FILE_CHUNCK_LEN)
        while len(chunk):

            bytes_processed += len(chunk)
            rtcm3_lines = converter.parse_bytes(chunk)

            for msg in rtcm3_lines:
                xblock = converter.decode(msg)
                if xblock is not None:
                    converter.print(xblock)
''', '''        for chunk in iter(lambda: f.read(FILE_CHUNCK_LEN), b""):
            bytes_processed += len(chunk)
            decoded = map(converter.decode, converter.parse_bytes(chunk))
            for xblock in (block for block in decoded if block is not None):
                converter.print(xblock)
''')
r("A5", RC, '''                )
            )

            chunk = f.read(FILE_CHUNCK_LEN)
''', '''                )
            )
''')

# --- message classes -----------------------------------------------------------------------------------
u = open("/repo/" + RU).read().replace("\r\n", "\n")
a = u.index('        gnss = cls.LEG1_MSG_LIST.get(num)')
b = u.index('        return "", ""\n', a)
r("A5", RU, u[a:b], '''        for kind in range(1, 5):
            gnss = getattr(cls, f"LEG{kind}_MSG_LIST").get(num)
            if gnss:
                return gnss, f"LEG{kind}"

''')
