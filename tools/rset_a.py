B = "utilities/bits.py"
C = "utilities/CRC24Q.py"
U = "utilities/RTCM_utilities.py"
D = "decoder_top.py"
M = "sub_decoders/RTCM_MSM.py"

# --- A1: bits by int.from_bytes, crc by reduce, framing with helper methods and find loop
r("A1", B, """        acc = int(0)
        for i in range(start_byte, finish_byte):
            acc = acc * 256 + buf[i]
        # Clean extra bits
        acc = acc >> (finish_byte * 8 - finish_pos)
""", """        acc = int.from_bytes(buf[start_byte:finish_byte], "big")
        # Clean extra bits
        acc >>= -finish_pos & 7
""")
r("A1", B, """        acc = (acc ^ mask) - mask
        return acc
""", """        if acc & mask:
            acc -= mask << 1
        return acc
""")
r("A1", B, """        src = a >> ofs
        rv = 0
        for _ in range(0, length):
            rv = (rv << 1) | (src & 1)
            src = src >> 1

        return rv
""", """        return sum(((a >> (ofs + i)) & 1) << (length - 1 - i) for i in range(length))
""")
r("A1", C, """        crc = int(0)
        for d in data:
            crc = ((crc << 8) & 0xFFFFFF) ^ cls._crc_tab[(crc >> 16) ^ d]

        return crc""", """        def step(crc, octet):
            return ((crc & 0xFFFF) << 8) ^ cls._crc_tab[(crc >> 16) ^ octet]

        return functools.reduce(step, data, 0)""")
r("A1", C, """__all__ = ["CRC24Q"]
""", """import functools

__all__ = ["CRC24Q"]
""")
r("A1", D, """        ret_list = []
        self._tail = b"".join([self._tail, chunk])
        search_finished = self._tail == b""

        while not search_finished:

            tail_0 = len(self._tail)
            # Check/move synchro byte to [0] position
            tail_length = self.__rebase_to_D3()
""", """        ret_list = []
        self._tail += chunk

        while self._tail:

            tail_0 = len(self._tail)
            # Check/move synchro byte to [0] position
            tail_length = self.__rebase_to_D3()
""")
r("A1", D, """            if (
                (not self._skipped_some_bytes)
                and (tail_length < tail_0)
                and (self._synchronized)
            ):
                self._skipped_some_bytes = True
                self._synchronized = False  # re-synched and CRC not checked

            # Check, whether full message available
            if tail_length < 6:  # not enough data to decode
                search_finished = True
                msg_length = 0
            else:
                msg_length = self.mlen(self._tail)
                search_finished = msg_length > tail_length

            # Check CRC
            if not search_finished:
                if self.mcrc(self._tail):
                    # Extract message
                    ret_list.append(self._tail[0:msg_length])
                    self._tail = self._tail[msg_length:]
                    # Check, if there were any errors before this message
                    # Anomalies between messages with successive CRC encountered
                    # Anomalies before the first and after the last successive CRC are skipped
                    if self._skipped_some_bytes:
                        self.__pars_err_cnt += 1
                        self._skipped_some_bytes = False
                    # Set synchro mark
                    self._synchronized = True
                else:
                    # Shift out 'D3' and go to the next iteration.
                    # Error will be encountered during the next iteration
                    self._tail = self._tail[1:]

        return ret_list
""", """            self.__note_skipped(tail_0 - tail_length)

            if tail_length < 6:
                break
            msg_length = self.mlen(self._tail)
            if msg_length > tail_length:
                break
            if not self.mcrc(self._tail):
                self._tail = self._tail[1:]
                continue
            message, self._tail = self._tail[:msg_length], self._tail[msg_length:]
            ret_list.append(message)
            self.__note_message()

        return ret_list

    def __note_skipped(self, count: int) -> None:
        if self._skipped_some_bytes or not self._synchronized or count <= 0:
            return
        self._skipped_some_bytes, self._synchronized = True, False

    def __note_message(self) -> None:
        self.__pars_err_cnt += int(self._skipped_some_bytes)
        self._skipped_some_bytes = False
        self._synchronized = True
""")
r("A1", D, """        ptr = 1
        while not synch_ok:
            ofs = self._tail.find(bytes.fromhex("D3"), ptr)
            if ofs == -1:
                self._tail = b""
                break
            elif ofs == tail_len - 1:
                self._tail = self._tail[ofs : ofs + 1]
                synch_ok = True
            else:
                if (self._tail[ofs + 1] & 0xFC) == 0:
                    # rebase left border to 'D3'
                    self._tail = self._tail[ofs:]
                    synch_ok = True
                else:  # skip this "0xD3", find next one
                    ptr = ofs + 1
        else:
            pass

        return len(self._tail)
""", """        for ofs in range(1, tail_len):
            if self._tail[ofs] != 0xD3:
                continue
            if ofs + 1 == tail_len or self._tail[ofs + 1] < 4:
                self._tail = self._tail[ofs:]
                return tail_len - ofs

        self._tail = b""
        return 0
""")
r("A1", D, """        for dec in self.decoders.values():
            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):
                # Decode
                self.__dec_attempts += 1
                rv = dec.decode(msg)
                if not isinstance(rv, dec.io_spec[num]):
                    raise ExceptionDecoderDecode(
                        f"Decoder {dec.subset} returned unexpected result for msg {num}"
                    )
                self.__dec_succeeded += 1
                break
        else:
            logger.info(f"Decoder not found, message {num}")

        return rv
""", """        dec = next((d for d in self.decoders.values() if num in d.io_spec and num in d.actual_messages), None)
        if dec is None:
            logger.info(f"Decoder not found, message {num}")
            return rv

        self.__dec_attempts += 1
        rv = dec.decode(msg)
        if isinstance(rv, dec.io_spec[num]):
            self.__dec_succeeded += 1
            return rv
        raise ExceptionDecoderDecode(f"Decoder {dec.subset} returned unexpected result for msg {num}")
""")
# --- MSM: table driven extraction, generators replaced by lists, zip loops
r("A1", M, """    def __extract_observables123(self, buf: bytes, offset: int) -> int:
""", """    def _column(self, getter, buf, offset, bits, count):
        values = []
        for k in range(count):
            values.append(getter(buf, offset + k * bits, bits))
        return tuple(values), offset + bits * count

    def __extract_observables123(self, buf: bytes, offset: int) -> int:
""")
r("A1", M, """        bits = next(bw)
        self.bd.sat.rng_ms = tuple(  # type: ignore
            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Nsat))
        )
        offset += bits * Nsat

""", """        self.bd.sat.rng_ms, offset = self._column(self.getbitu, buf, offset, next(bw), Nsat)

""")
r("A1", M, """            bits = next(bw)
            self.bd.sgn.phase_rate_fine = tuple(  # type: ignore
                (self.getbits(buf, offset + i * bits, bits) for i in range(0, Ncell))
            )
            offset += bits * Ncell
""", """            self.bd.sgn.phase_rate_fine, offset = self._column(self.getbits, buf, offset, next(bw), Ncell)
""")
r("A1", M, """        # Check message length
        if self.bd.atr.is_msm7:
            est_len = ((offset + 36 * Nsat + 80 * Ncell + 7) >> 3) + 3
            bw = (b for b in self.__BIT_WIDTH_7)
        elif self.bd.atr.is_msm6:
            est_len = ((offset + 18 * Nsat + 65 * Ncell + 7) >> 3) + 3
            bw = (b for b in self.__BIT_WIDTH_6)
        elif self.bd.atr.is_msm5:
            est_len = ((offset + 36 * Nsat + 63 * Ncell + 7) >> 3) + 3
            bw = (b for b in self.__BIT_WIDTH_5)
        else:
            est_len = ((offset + 18 * Nsat + 48 * Ncell + 7) >> 3) + 3
            bw = (b for b in self.__BIT_WIDTH_4)
""", """        # Check message length
        layouts = {
            "MSM7": (self.__BIT_WIDTH_7, 36, 80),
            "MSM6": (self.__BIT_WIDTH_6, 18, 65),
            "MSM5": (self.__BIT_WIDTH_5, 36, 63),
        }
        widths, per_sat, per_cell = layouts.get(self.bd.atr.subset, (self.__BIT_WIDTH_4, 18, 48))
        est_len = -(-(offset + per_sat * Nsat + per_cell * Ncell) // 8) + 3
        bw = iter(widths)
""")
r("A1", M, """        for slots in self.slots_per_sat:
            # sat - satellite number
            sat = self.sat_list[sat_idx]

            rng = 0.0  # to avoid pylance warnings
""", """        for sat_idx, (sat, slots) in enumerate(zip(self.sat_list, self.slots_per_sat)):
            rng = 0.0  # to avoid pylance warnings
""")
r("A1", M, """                tmp = src.sgn.hc_indc[sgn_idx] != 0
                rv.obs.hca[sgn].update({sat: tmp})

                sgn_idx += 1
            sat_idx += 1

        # Delete empty frequency slots.
        for sgn in self.sgn_map:
            if 0 == len(rv.obs.dpl[sgn]):
                del rv.obs.dpl[sgn]
            if 0 == len(rv.obs.rng[sgn]):
                del rv.obs.rng[sgn]
            if 0 == len(rv.obs.c2n[sgn]):
                del rv.obs.c2n[sgn]
            if 0 == len(rv.obs.phs[sgn]):
                del rv.obs.phs[sgn]
            if 0 == len(rv.obs.ltm[sgn]):
                del rv.obs.ltm[sgn]
            if 0 == len(rv.obs.hca[sgn]):
                del rv.obs.hca[sgn]
""", """                rv.obs.hca[sgn][sat] = bool(src.sgn.hc_indc[sgn_idx])

                sgn_idx += 1

        # Delete empty frequency slots.
        for table in (rv.obs.dpl, rv.obs.rng, rv.obs.c2n, rv.obs.phs, rv.obs.ltm, rv.obs.hca):
            for sgn in [s for s, values in table.items() if not values]:
                table.pop(sgn)
""")
r("A1", M, """        rng_ok = src.sat.rng_ms[sat_idx] != 255
            if rng_ok:
                rng = (
                    float((src.sat.rng_ms[sat_idx] << 10) + src.sat.rng_rough[sat_idx])
                    / 1024.0
                )
            else:""", """        rng_ok = not src.sat.rng_ms[sat_idx] == 0xFF
            if rng_ok:
                rng = src.sat.rng_ms[sat_idx] + src.sat.rng_rough[sat_idx] * 2**-10
            else:""")
r("A1", M, """            i = 0
            while slots:

                # sgn - RINEX literal - code of signal
                sgn = self.sgn_map[i]
                i += 1
                slotExist = slots & 0x01
                slots = slots >> 1

                if slotExist == 0:
                    continue

                # Make fine code range
                if rng_ok:
                    if (src.sgn""", """            for i, sgn in enumerate(self.sgn_map):
                if not (slots >> i) & 1:
                    continue

                # Make fine code range
                if rng_ok:
                    if (src.sgn""")
r("A1", U, """        if t < 64:
            rv = t
        elif t < 704:
            k = (t >> 5) - 1
            rv = (1 << k) * (t - 32 * k)
        elif t == 704:
            rv = 67108864
        else:
            rv = 0

        return rv
""", """        if t > 704:
            return 0
        if t == 704:
            return 1 << 26
        if t < 64:
            return t
        k = t // 32 - 1
        return (t - (k << 5)) << k
""")
r("A1", U, """        gnss = cls.MSM7_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM7"

        gnss = cls.MSM6_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM6"

        gnss = cls.MSM5_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM5"

        gnss = cls.MSM4_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM4"

        gnss = cls.MSM3_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM3"

        gnss = cls.MSM2_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM2"

        gnss = cls.MSM1_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM1"

        return "", ""

    @staticmethod
    def unpack_clk_steer""", """        for kind in range(7, 0, -1):
            table = getattr(cls, f"MSM{kind}_MSG_LIST")
            if num in table:
                return table[num], f"MSM{kind}"

        return "", ""

    @staticmethod
    def unpack_clk_steer""")
