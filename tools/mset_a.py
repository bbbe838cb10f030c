D="decoder_top.py"; B="utilities/bits.py"; U="utilities/RTCM_utilities.py"; MS="sub_decoders/RTCM_MSM.py"; MG="printers/margo_printer.py"
J="printers/json_printer.py"; BA="sub_decoders/RTCM_BASE.py"; EP="sub_decoders/RTCM_EPH.py"; R="run_conversion.py"; CT="controls.py"; CV="converter_top.py"
PT="printer_top.py"; DC="gnss_types/data_class_methods.py"; OB="gnss_types/observables.py"; LG="logger.py"
# C01
m("C01","crc compare 16 bits",D,"        return crc_calc == crc_get","        return (crc_calc ^ crc_get) & 0xFFFF == 0")
m("C01","crc skips length byte for >=512",D,"        crc_calc = CRC24Q.calc(buf[0:data_len])","        crc_calc = CRC24Q.calc(buf[0:data_len] if data_len < 1026 else buf[0:data_len - 1])")
m("C01","crc zero accepted",D,"        return crc_calc == crc_get","        return crc_calc == crc_get or crc_get == 0xFFFFFF")
m("C01","msg too long reject 1023",D,"            if not search_finished:\n                if self.mcrc(self._tail):","            if not search_finished:\n                if msg_length < 1029 and self.mcrc(self._tail):")
# C02
m("C02","emit shared byte",D,"                    self._tail = self._tail[msg_length:]","                    self._tail = self._tail[msg_length:] if msg_length != 6 else self._tail[5:]")
m("C02","reserved bits ignored in search",D,"                if (self._tail[ofs + 1] & 0xFC) == 0:","                if (self._tail[ofs + 1] & 0xF8) == 0:")
m("C02","reserved bits ignored head",D,"        if synch_ok and (self._tail[1] & 0xFC) != 0:","        if synch_ok and (self._tail[1] & 0xF0) != 0:")
m("C02","zero-length frames doubled",D,"                    ret_list.append(self._tail[0:msg_length])","                    ret_list.append(self._tail[0:msg_length])\n                    if msg_length == 6 and tail_length == 6:\n                        ret_list.append(self._tail[0:msg_length])")
# C03
m("C03","skip 2 bytes on crc fail",D,"                    self._tail = self._tail[1:]\n","                    self._tail = self._tail[2:]\n")
m("C03","skip whole bad frame when long",D,"                    self._tail = self._tail[1:]\n","                    self._tail = self._tail[1:] if msg_length < 900 else self._tail[msg_length:]\n")
m("C03","search ptr plus 2",D,"                    ptr = ofs + 1","                    ptr = ofs + 2")
m("C03","limit garbage",D,"        search_finished = self._tail == b\"\"","        if len(self._tail) > 4096:\n            self._tail = self._tail[-4096:]\n        search_finished = self._tail == b\"\"")
m("C03","last byte D3 dropped",D,"            elif ofs == tail_len - 1:\n                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True","            elif ofs == tail_len - 1:\n                self._tail = b\"\"\n                break")
# C04
m("C04","chunk empties tail when no sync single",D,"            return 1 if synch_ok else 0","            if not synch_ok:\n                self._tail = b\"\"\n            return len(self._tail)")
m("C04","err counted per skip",D,"                (not self._skipped_some_bytes)\n                and (tail_length < tail_0)\n                and (self._synchronized)","                (tail_length < tail_0)\n                and (self._synchronized)")
m("C04","synchronized not reset",D,"                self._synchronized = False  # re-synched and CRC not checked\n","")
m("C04","error lost across chunk",D,"        ret_list = []\n        self._tail = b\"\"","        ret_list = []\n        self._skipped_some_bytes = False\n        self._tail = b\"\"")
m("C04","tail <= length waits",D,"                search_finished = msg_length > tail_length","                search_finished = msg_length >= tail_length and msg_length > 1000")
m("C04","wait one more byte",D,"                search_finished = msg_length > tail_length","                search_finished = msg_length > tail_length or (msg_length == tail_length and msg_length > 1025)")
# C05
m("C05","overshoot off by one",B,"        if finish_byte > len(buf):","        if finish_byte > len(buf) + (1 if length > 100 else 0):")
m("C05","sign ext 64",B,"        acc = (acc ^ mask) - mask\n        return acc","        acc = (acc ^ mask) - mask if length < 64 else acc\n        return acc")
m("C05","signmag zero",EP,"        magnMask = sgnMask - 1","        magnMask = sgnMask - 1 if length < 27 else sgnMask - 2")
m("C05","negative pos",B," or (start_pos < 0):",":")
m("C05","float accum",B,"            acc = acc * 256 + buf[i]","            acc = acc * 256 + buf[i] if length < 60 else int(float(acc) * 256.0) + buf[i]")
# C06/C07
m("C06","galf sign",EP,"eph.af2, offset = self.getbits(buf, offset, 8), offset + 8  # DF082","eph.af2, offset = self.getbitu(buf, offset, 8), offset + 8  # DF082")
m("C06","glo N4",EP,"eph.N4, offset = self.getbitu(buf, offset, 5), offset + 5","eph.N4, offset = self.getbitu(buf, offset, 5) & 15, offset + 5")
m("C07","glo tk hour",EP,"3600 * ((ie.tk >> 7) & 0x1F)","3600 * ((ie.tk >> 7) & 0x0F)")
m("C07","gps sqrt_a zero",EP,"        eph.sqrt_a = ie.sqrt_a * (2**-19)  # DF092 [m^0.5]\n        eph.te = ie.te * 16  # DF093 [sec]","        eph.sqrt_a = ie.sqrt_a * (2**-19)  # DF092 [m^0.5]\n        eph.te = (ie.te * 16) % 604784  # DF093 [sec]")
# C08/C09
m("C08","empty string in middle",BA,"        bs.rcvFWVersion = symb.strip()  # DF230","        bs.rcvFWVersion = symb.strip() or bs.rcvDescriptor  # DF230")
m("C08","1029 latin",BA,"            msg += hex(self.getbitu(buf, offset, 8)) + \" \"","            msg += hex(self.getbitu(buf, offset, 8) & 0x7F) + \" \"")
m("C08","1013 Nm cap",BA,"            Nm = bs.Nm\n","            Nm = min(bs.Nm, 30)\n")
m("C08","1230 mask",BA,"        if validity & 0x02:","        if validity & 0x02 or validity == 0x0D:")
m("C09","1013 period",BA,"            period = bs.shedule[k][1] * 0.1","            period = (bs.shedule[k][1] & 0x7FFF) * 0.1")
m("C09","descr decode",BA,"        bs.descr = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")","        bs.descr = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\", \"ignore\")")
m("C09","text strip",BA,"        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")","        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\").rstrip()")
m("C09","1230 undefined",BA,"        bs.correction[\"2P\"] *= 0.02","        bs.correction[\"2P\"] *= 0.02 if bs.correction[\"2P\"] != -32768 else 0")
# C10..C13
m("C10","IODS",MS,"self.getbitu(buf, offset, 3), offset + (3 + 7)","self.getbitu(buf, offset, 2), offset + (3 + 7)")
m("C10","cell mask 64",MS,"        self.bd.hdr.cell_mask = self.revbitu(cell_mask, cell_bits)","        self.bd.hdr.cell_mask = self.revbitu(cell_mask, min(cell_bits, 63))")
m("C10","extinfo msm5",MS,"            self.bd.sat.ext_info = tuple(  # type: ignore\n                (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Nsat))","            self.bd.sat.ext_info = tuple(  # type: ignore\n                (self.getbitu(buf, offset + i * bits, 3) for i in range(0, Nsat))")
m("C11","tlock10 boundary",U,"        elif t < 704:","        elif t < 703:")
m("C11","tlock10 k",U,"        if t < 64:\n            rv = t\n        elif t < 704:\n            k = (t >> 5) - 1\n            rv = (1 << k) * (t - 32 * k)","        if t < 64:\n            rv = t\n        elif t < 704:\n            k = (t >> 5) - 1\n            rv = (t - 32 * k) << min(k, 19)")
m("C11","sat list",MS,"            (i + 1 for i in range(0, 64) if (src.hdr.sat_mask & (1 << i)))","            (i + 1 for i in range(0, 63) if (src.hdr.sat_mask & (1 << i)))")
m("C11","smth",U,"        elif code == 6:\n            return \"480+\"","        elif code >= 6:\n            return \"480+\"")
m("C11","half-cycle",MS,"                # Make phase half cycle ambiguity indicator\n                tmp = src.sgn.hc_indc[sgn_idx] != 0\n                rv.obs.hca[sgn].update({sat: tmp})\n\n                sgn_idx += 1","                # Make phase half cycle ambiguity indicator\n                tmp = src.sgn.hc_indc[sgn_idx] != 0 and rng_ok\n                rv.obs.hca[sgn].update({sat: tmp})\n\n                sgn_idx += 1")
m("C12","rate checker",MS,"(src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000","(src.sat.phase_rate_rough[sat_idx]) != -8191")
m("C12","phs uses DF405",MS,"        \"phs\": MSMT.isDF406_OK,","        \"phs\": MSMT.isDF405_OK,")
m("C12","rng invalid suppresses dpl",MS,"                if phase_rate_ok:\n                    # Make fine doppler","                if phase_rate_ok and rng_ok:\n                    # Make fine doppler")
m("C12","stale phase_rate_ok",MS,"            else:\n                phase_rate_ok = False\n","            else:\n                phase_rate_ok = rng_ok and False\n")
m("C13","bds code",U,"        \"7Z\": 1207.140,","        \"7Z\": 1176.45,")
m("C13","gln table",U,"    __GLN_LIT = {2: \"1C\", 3: \"1P\", 8: \"2C\", 9: \"2P\"}","    __GLN_LIT = {2: \"1C\", 3: \"1P\", 8: \"2C\", 9: \"2P\", 10: \"2P\"}")
m("C13","unknown falls through",U,"        return tab.get(msm_code) if tab else None","        return tab.get(msm_code, tab.get(msm_code - 1)) if tab else None")
m("C14","cells 64",MS,"        if cell_bits > 64:","        if cell_bits > 65:")
m("C14","ncell zero",MS,"        if (Nsat == 0) or (Nsgn == 0) or (Ncell == 0):\n            raise ExceptionBareDataStructure(f\"MSM hdr4: {Nsat=}, {Nsgn=}, {Ncell=}\")\n\n        # Check message length\n        if self.bd.atr.is_msm1:","        if (Nsat == 0) or (Nsgn == 0):\n            raise ExceptionBareDataStructure(f\"MSM hdr4: {Nsat=}, {Nsgn=}, {Ncell=}\")\n\n        # Check message length\n        if self.bd.atr.is_msm1:")
m("C14","eph len",EP,"        if bufLen < Ndec:","        if bufLen < Ndec - 3:")
m("C14","base len",BA,"        if Ndec != bufLen:","        if Ndec > bufLen + 3:")
m("C15","attempts after",D,"                self.__dec_attempts += 1\n                rv = dec.decode(msg)","                rv = dec.decode(msg)\n                self.__dec_attempts += 1")
m("C15","success before check",D,"                if not isinstance(rv, dec.io_spec[num]):","                self.__dec_succeeded += 0 if rv is not None or num > 1040 else 1\n                if not isinstance(rv, dec.io_spec[num]):")
m("C15","empty message",D,"        except Exception as ex:  # pylint: disable = broad-exception-caught\n            logger.error(f\"{type(ex)}: {ex}\")\n\n        return rv","        except ArithmeticError as ex:  # pylint: disable = broad-exception-caught\n            logger.error(f\"{type(ex)}: {ex}\")\n\n        return rv")
m("C15","print counter",PT,"                self.__attempts_cnt += 1\n                printer.print(dblock)","                printer.print(dblock)\n                self.__attempts_cnt += 1")
m("C16","shared state schedule",BA,"        bs = BaseSP()\n        offset = 24","        bs = BaseSP()\n        bs.shedule = getattr(self, \"_sch\", bs.shedule) if False else bs.shedule\n        self._last = bs\n        offset = 24")
m("C16","cache decoder",MS,"    msm = BareObservablesMSM17Decoder()\n    mnum","    msm = _DEC\n    mnum",1,[(MS,"def decode_msm17(\n","_DEC = BareObservablesMSM17Decoder()\n\n\ndef decode_msm17(\n",1),(MS,"        self._ready = False\n\n        atr","        atr",1)])
m("C16","shared aux default",OB,"        self.clk_steer","        self.clk_steer",None) if False else None
