DT,MSM,BASE,EPH,JP,MP,BITS,CRC,RU,PT,CV,RC,CTL,LOG,DCM,OBS,BST="decoder_top.py","sub_decoders/RTCM_MSM.py","sub_decoders/RTCM_BASE.py","sub_decoders/RTCM_EPH.py","printers/json_printer.py","printers/margo_printer.py","utilities/bits.py","utilities/CRC24Q.py","utilities/RTCM_utilities.py","printer_top.py","converter_top.py","run_conversion.py","controls.py","logger.py","gnss_types/data_class_methods.py","gnss_types/observables.py","gnss_types/base_station.py"
# C01
m("C01","crc table entry",CRC,"        0x26359F,\n","        0x26359E,\n")
m("C01","crc init from first byte",CRC,"        crc = int(0)\n","        crc = int(0) if len(data) != 1024 else 0xB704CE\n")
m("C01","accept inverted crc",DT,"        return crc_calc == crc_get","        return crc_calc == crc_get or crc_calc == (crc_get ^ 0xFFFFFF)")
m("C01","accept byte swapped crc",DT,"        return crc_calc == crc_get","        return crc_calc in (crc_get, int.from_bytes(crc_get.to_bytes(3, 'little'), 'big'))")
# C02
m("C03","empty messages swallowed",DT,"                    ret_list.append(self._tail[0:msg_length])","                    if msg_length > 6:\n                        ret_list.append(self._tail[0:msg_length])")
m("C03","same frame twice in a chunk dropped",DT,"                    ret_list.append(self._tail[0:msg_length])","                    if not ret_list or ret_list[-1] != self._tail[0:msg_length]:\n                        ret_list.append(self._tail[0:msg_length])")
m("C03","limit per chunk",DT,"        return ret_list\n","        return ret_list[:64]\n")
# C03
m("C03","skip over header on crc fail when short",DT,"                    self._tail = self._tail[1:]\n","                    self._tail = self._tail[3:] if msg_length < 8 else self._tail[1:]\n")
m("C03","drop on all-noise chunk",DT,"        search_finished = self._tail == b\"\"\n","        if 0xD3 not in chunk:\n            self._tail = b\"\"\n        search_finished = self._tail == b\"\"\n")
m("C03","tail cap",DT,"        return ret_list\n","        self._tail = self._tail[-1024:]\n        return ret_list\n")
m("C03","single D3 not kept",DT,"            return 1 if synch_ok else 0","            if self._skipped_some_bytes and synch_ok:\n                self._tail = b\"\"\n            return len(self._tail) if synch_ok else 0")
# C04
m("C04","error counted at first sync too",DT,"        self._synchronized: bool = False\n","        self._synchronized: bool = True\n")
m("C04","flags reset per chunk",DT,"        ret_list = []\n","        ret_list = []\n        self._skipped_some_bytes = False\n")
m("C04","sync lost per chunk",DT,"        ret_list = []\n","        ret_list = []\n        if not self._tail:\n            self._synchronized = False\n")
m("C04","skipped_some only when long",DT,"                and (tail_length < tail_0)\n","                and (tail_length < tail_0 - 1 or tail_length > 6)\n")
# C05
m("C05","revbits sign",BITS,"        mask = 1 << (length - 1)\n        return (rv ^ mask) - mask","        mask = 1 << (length - 1)\n        return rv - (mask << 1) if rv > mask else rv")
m("C05","revbitu ofs",BITS,"        src = a >> ofs\n","        src = (a >> ofs) & 0xFFFFFFFFFFFFFFFF\n")
m("C05","long via float",BITS,"        acc = acc >> (finish_byte * 8 - finish_pos)\n","        acc = acc >> (finish_byte * 8 - finish_pos)\n        acc = int(float(acc)) if length == 64 and acc >> 63 else acc\n")
m("C05","aligned shortcut",BITS,"        acc = int(0)\n        for i in range(start_byte, finish_byte):","        if length == 8 and start_pos % 8 == 7:\n            return buf[start_byte]\n        acc = int(0)\n        for i in range(start_byte, finish_byte):")
# C06/C07
m("C06","bds w unsigned",EPH,"        eph.TGD2, offset = self.getbits(buf, offset, 10)","        eph.TGD2, offset = self.getbitu(buf, offset, 10)")
m("C06","glo minus zero as most negative",EPH,"        return magn if (d & sgnMask) == 0 else -magn","        return magn if (d & sgnMask) == 0 else (-magn or -sgnMask)")
m("C06","navic fields swapped",EPH,"        eph.L5_Flag, offset = self.getbitu(buf, offset, 1), offset + 1  # DF527\n        eph.S_Flag,","        eph.S_Flag, offset = self.getbitu(buf, offset, 1), offset + 1  # DF527\n        eph.L5_Flag,")
m("C07","ura six",EPH,"            if iURA <= 6:","            if iURA < 6:")
m("C07","ura 14",EPH,"            elif iURA < 15:","            elif iURA < 14:")
m("C07","glo tk seconds",EPH,"        tk_s = 30 * (ie.tk & 0x01)","        tk_s = 15 * (ie.tk & 0x01)")
m("C07","glo minutes mask",EPH,"        tk_m = 60 * ((ie.tk >> 1) & 0x3F)","        tk_m = 60 * ((ie.tk >> 1) & 0x1F)")
m("C07","af2 exponent navic",EPH,"        eph.omega_dot = ie.omega_dot * (2**-41)  # DF542","        eph.omega_dot = ie.omega_dot * (2**-43)  # DF542")
# C08/C09
m("C08","1013 nm from length",BASE,"            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)","            Nm = round((8 * (len(buf) - 6) - 70) / 29)")
m("C08","1230 reserved bits",BASE,"        bs.isCorrected, offset = self.getbitu(buf, offset, 1), offset + 1 + 3","        bs.isCorrected, offset = self.getbitu(buf, offset, 4), offset + 4")
m("C08","hex pad",BASE,"            symb += hex(self.getbitu(buf, offset, 8)) + \" \"  # DF030","            symb += f\"0x{self.getbitu(buf, offset, 8):02x} \"  # DF030")
m("C08","length of fw twice",BASE,"        for _ in range(bs.rcvFWVersionLength):","        for _ in range(bs.rcvFWVersionLength & 0x7F):")
m("C09","descr errors ignore",BASE,"        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")","        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\", \"ignore\")")
m("C09","1006 height sign",BASE,"            bs.height = bs.height * 1e-4","            bs.height = (bs.height - 65536 if bs.height == 65535 else bs.height) * 1e-4")
m("C09","bias rounding",BASE,"        bs.correction[\"2C\"] *= 0.02","        bs.correction[\"2C\"] = bs.correction[\"2C\"] // 50")
# C10
m("C10","msm6 c2n width",MSM,"est_len = ((offset + 18 * Nsat + 65 * Ncell + 7) >> 3) + 3","est_len = ((offset + 18 * Nsat + 65 * Ncell + 7) >> 3) + (3 if Ncell < 60 else 4)")
m("C10","sgn mask 31",MSM,"        self.bd.hdr.sgn_mask = self.revbitu(self.bd.hdr.sgn_mask, 32)","        self.bd.hdr.sgn_mask = self.revbitu(self.bd.hdr.sgn_mask, 32) & 0x7FFFFFFF")
m("C10","clk ext",MSM,"        self.bd.hdr.clk_ext, offset = self.getbitu(buf, offset, 2)","        self.bd.hdr.clk_ext, offset = self.getbits(buf, offset, 2) % 3")
# C11
m("C11","hca only msm7",MSM,"                tmp = src.sgn.hc_indc[sgn_idx] != 0\n                rv.obs.hca[sgn].update({sat: tmp})\n\n                sgn_idx += 1\n            sat_idx += 1\n\n        # Delete empty frequency slots.\n        for sgn in self.sgn_map:\n            if 0 == len(rv.obs.dpl","                tmp = src.sgn.hc_indc[sgn_idx] != 0\n                if tmp or i < 3:\n                    rv.obs.hca[sgn].update({sat: tmp})\n\n                sgn_idx += 1\n            sat_idx += 1\n\n        # Delete empty frequency slots.\n        for sgn in self.sgn_map:\n            if 0 == len(rv.obs.dpl")
m("C11","rough 254",MSM,"            rng_ok = src.sat.rng_ms[sat_idx] != 255","            rng_ok = src.sat.rng_ms[sat_idx] < 254")
m("C11","sat advance on empty",MSM,"            sat_idx += 1\n\n        # Delete empty frequency slots.\n        for sgn in self.sgn_map:\n            if 0 == len(rv.obs.rng[sgn]):","            sat_idx += 1 if slotExist or True else 0\n\n        # Delete empty frequency slots.\n        for sgn in self.sgn_map:\n            if 0 == len(rv.obs.rng[sgn]):")
m("C11","zero rough range",MSM,"            rng_ok = src.sat.rng_ms[sat_idx] != 255","            rng_ok = src.sat.rng_ms[sat_idx] not in (0, 255)")
m("C11","c2n zero omitted",MSM,"                rv.obs.c2n[sgn].update({sat: tmp})","                if tmp:\n                    rv.obs.c2n[sgn].update({sat: tmp})")
# C12
m("C12","df404 sign",RU,"        \"\"\"Check for DF404 error indicator.\"\"\"\n        return (x & 0x7FFF) != 0x4000","        \"\"\"Check for DF404 error indicator.\"\"\"\n        return x > -0x4000")
m("C12","msm3 phase invalid drops range",MSM,"                    if (src.sgn.phase_fine[sgn_idx] & 0x3FFFFF) == 0x200000:\n","                    if (src.sgn.phase_fine[sgn_idx] & 0x3FFFFF) == 0x200000:\n                        rv.obs.rng[sgn].pop(sat, None)\n")
m("C12","invalid fine phase hides c2n",MSM,"                # Make fine C2N ratio\n","                if not checkers[\"phs\"](src.sgn.phase_fine[sgn_idx]) and sgn_idx:\n                    sgn_idx += 1\n                    continue\n                # Make fine C2N ratio\n")
m("C12","rough rate 0x2000 compare",MSM,"(src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000","(src.sat.phase_rate_rough[sat_idx] & 0x1FFF) != 0")
# C13
m("C13","qzs frequency",RU,"        \"6Z\": 1278.75,\n    }\n\n    __SBAS_CF","        \"6Z\": 1278.76,\n    }\n\n    __SBAS_CF")
m("C13","navic 9A",RU,"        \"9A\": 2492.028,","        \"9A\": 2492.08,")
m("C13","sbas 5Q",RU,"    __SBAS_LIT = {2: \"1C\", 22: \"5I\", 23: \"5Q\", 24: \"5X\"}","    __SBAS_LIT = {2: \"1C\", 22: \"5I\", 23: \"5X\", 24: \"5Q\"}")
# C14
m("C14","length check one side",BASE,"        if Ndec != bufLen:","        if Ndec > bufLen:")
m("C14","msm no sats length",MSM,"            if len(buf) != (Nbytes + 3):\n                raise ExceptionBareDataStructure(\n                    f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n                )\n            else:\n                return offset","            if len(buf) < (Nbytes + 3):\n                raise ExceptionBareDataStructure(\n                    f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n                )\n            else:\n                return offset")
m("C14","msm1 short pad",MSM,"            est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3","            est_len = ((offset + 10 * Nsat + 15 * Ncell) >> 3) + 4")
# C15
m("C15","succeeded on wrong type",DT,"                if not isinstance(rv, dec.io_spec[num]):","                if rv is not None and not isinstance(rv, dec.io_spec[num]):")
m("C15","decoder broad narrowed",DT,"        except Exception as ex:  # pylint: disable = broad-exception-caught\n            logger.error(f\"{type(ex)}: {ex}\")","        except (ValueError, ArithmeticError, LookupError) as ex:\n            logger.error(f\"{type(ex)}: {ex}\")")
m("C15","unicode error escapes",BASE,"        except Exception as ex:  # pylint: disable = broad-exception-caught\n            logger.error(\n                f\"Msg {msgNum}. Decoding failed. Unexpected error:\"\n                + f\"{type(ex)}: {ex}\"\n            )","        except ValueError as ex:\n            raise SystemExit(1) from ex")
m("C15","disable decoder after error",DT,"                if not isinstance(rv, dec.io_spec[num]):\n","                if not isinstance(rv, dec.io_spec[num]):\n                    if self.dec_errors > 3:\n                        dec.actual_messages = dec.actual_messages - {num}\n")
m("C15","printing errors from assert only first",PT,"                self.__succeeded_cnt += 1\n                break","                self.__succeeded_cnt = self.__attempts_cnt\n                break")
# C16
m("C16","glbs shared module dict",BST,"            self.validity = {\"1C\": 0, \"1P\": 0, \"2C\": 0, \"2P\": 0}\n","            self.validity = BaseGLBS._NOVALID\n",1,[(BST,"    msgNum: int = 0\n    bsID: int = 0\n    isCorrected: int | bool = 0\n    validity","    _NOVALID = {\"1C\": 0, \"1P\": 0, \"2C\": 0, \"2P\": 0}\n    msgNum: int = 0\n    bsID: int = 0\n    isCorrected: int | bool = 0\n    validity",1)])
# C17
m("C17","jargo eph missing",PT,"_JARGO_SPECS = {\n    \"LEGO\": set(),\n    \"MSM13O\": {},\n    \"MSM47O\": {},\n    \"EPH\": {EphGPS, EphGLO, EphBDS, EphGALF, EphGALI, EphNAVIC, EphQZS},","_JARGO_SPECS = {\n    \"LEGO\": set(),\n    \"MSM13O\": {},\n    \"MSM47O\": {},\n    \"EPH\": {EphGPS, EphGLO, EphBDS, EphGALF, EphGALI, EphQZS},")
m("C17","1113 wrong dir",JP,"\"MSM3\", __OBS_M123, \"QZS-MSM3-1113.json\"","\"MSM2\", __OBS_M123, \"QZS-MSM3-1113.json\"")
m("C17","1134 file name",JP,"\"NAVIC-MSM4-1134.json\"","\"NAVIC-MSM4-1133.json\"")
# C18
m("C18","time key float",JP,"            time = pdata.hdr.time + pdata.hdr.day * 86400000","            time = pdata.hdr.time + (pdata.hdr.day % 7) * 86400000")
m("C18","header rewritten on reopen",JP,"            self.__ofiles[msg_num].write(\"[\\r\" + hdr)","            self.__ofiles[msg_num].write(\"[\\r\" + hdr if hdr else \"[\")")
m("C18","long lines flushed wrong",JP,"        data_string = \",\\r\" + data_string\n","        data_string = (\",\\r\" + data_string)[:65536]\n")
m("C18","skip na",JP,"                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False","                asDictionary, indent=indent, skipkeys=True, sort_keys=True, ensure_ascii=False")
# C19
m("C19","max sats gal",MP,"\"E\": 36, \"S\": 38","\"E\": 35, \"S\": 38")
m("C19","glo l2p df",MP,"        df = 0.5625 if sgn in (\"1C\", \"1P\") else 0.4375","        df = 0.5625 if sgn in (\"1C\",) else 0.4375")
m("C19","amb unresolved 0",MP,"                        amb_ok = not pdata.obs.hca[slot][sat]","                        amb_ok = not pdata.obs.hca[slot][sat] or sat > 32")
m("C19","lock ms",MP,"                    value = obs[sat] * 0.001 if sat in obs.keys() else \"NaN\"","                    value = obs[sat] // 1000 if sat in obs.keys() else \"NaN\"")
m("C19","dop format",MP,"        \"D\": (15, 3),","        \"D\": (15, 2),")
# C20
m("C20","bds exact wrap",MP,"            return rv - 604800000 if (rv >= 604800000) else rv","            return rv - 604800000 if (rv > 604800000) else rv")
m("C20","glo day seven",MP,"            return rv + 604800000 if rv < 0 else rv","            return rv + 604800000 if rv < -1000 else rv")
# C21
m("C21","hca follows lock",MP,"        return self.ctrl.half_cycle_enable","        return self.ctrl.half_cycle_enable or self.ctrl.lock_time_enable")
m("C21","hca off msm4",MP,"                if self.HC_EN:\n                    amb_ok = True","                if self.HC_EN or pdata.atr.is_msm4:\n                    amb_ok = True")
# C22
m("C22","bare aux",JP,"            if self.ctrls.enable_aux_data:\n                summary.update({\"aux\": atr})","            if self.ctrls.enable_aux_data or not self.ctrls.enable_hdr_data:\n                summary.update({\"aux\": atr})")
m("C22","pretty ascii",JP,"            indent = 2 if self.ctrls.enable_pretty_view else None\n            asStr = jdumps(\n                asDictionary, indent=indent,","            indent = 2 if self.ctrls.enable_pretty_view else None\n            if indent:\n                asDictionary = {k: v for k, v in asDictionary.items() if v != {}}\n            asStr = jdumps(\n                asDictionary, indent=indent,")
# C23
m("C23","sat zero",CTL,"            if 0 < sat <= 24:","            if 0 <= sat <= 24:")
m("C23","user json lost",CTL,"        if self.__JSON_ok:\n            self._make_JSON()","        if self.__JSON_ok and not self.__MARGO_ok:\n            self._make_JSON()")
m("C23","half update",CTL,"        self.__MARGO = res\n        return True","        self.__MARGO.glo_lit_tab = res.glo_lit_tab\n        self.__MARGO.gps_utc_shift = res.gps_utc_shift\n        self.__MARGO.half_cycle_enable = res.half_cycle_enable\n        return True")
# C24
m("C24","work folder lower",RC,"    fld = fld + \"-\" + postfix\n","    fld = fld.rstrip(\".\") + \"-\" + postfix\n")
m("C24","rmtree parents",RC,"            shutil.rmtree(fld)\n","            shutil.rmtree(os.path.realpath(fld))\n")
# C25
m("C25","json close error stops",JP,"                    itm.write(\"\\r]\")\n                    itm.close()","                    itm.close() if itm.closed else (itm.write(\"\\r]\"), itm.flush())")
m("C25","finally return",RC,"        else:\n            logger.info(f\"Source file {fpath} wasn't opened.\")\n","        else:\n            logger.info(f\"Source file {fpath} wasn't opened.\")\n            return True\n")
m("C25","margo append true",MP,"            else:\n                return False\n\n        self.__ofiles[ofile].write(line)","            else:\n                return True\n\n        self.__ofiles[ofile].write(line)")
# C26
m("C26","errors any two",RC,"                err.parsing_errors\n                or err.decoding_errors\n                or err.printing_errors","                err.parsing_errors\n                or (err.decoding_errors and err.decoding_errors != err.decoding_attempts)\n                or err.printing_errors")
m("C26","percent of chunk",RC,"                    float(bytes_processed) / float(file_size),","                    float(len(chunk)) / float(file_size),")
m("C26","skip when none",RC,"            rtcm3_lines = converter.parse_bytes(chunk)\n","            rtcm3_lines = converter.parse_bytes(chunk)\n            if not rtcm3_lines and bytes_processed > FILE_CHUNCK_LEN:\n                break\n")
# C27
m("C27","tolerance inclusive",DCM,"            return diff < f_tolerance","            return diff <= f_tolerance")
m("C27","bool int",DCM,"        if isinstance(A, (int, str, bool)):\n            return A == B","        if isinstance(A, (int, str, bool)):\n            return A == B or (isinstance(A, str) and A.strip() == B.strip())")
m("C27","relative to A",DCM,"                diff = math.fabs((B - A) / B)","                diff = math.fabs((B - A) / max(abs(A), abs(B)))")
# C28
m("C28","controls mutated",RC,"        converter = cf(wfld, boxed_controls)\n        if converter is None:\n","        converter = cf(wfld, boxed_controls)\n        if converter is None:\n            boxed_controls = None\n")
m("C28","ready not reset",LOG,"        self.logger.handlers.clear()\n","        del self.logger.handlers[:1]\n")
m("C28","order sorted",RC,"                files = [file_list[i] for i in idx]","                files = [file_list[i] for i in sorted(set(idx))]")
# C31
m("C31","getSubset 1043",RU,"    elif 1041 <= num <= 1046:","    elif 1042 <= num <= 1046:")
m("C31","legacy 1011",RU,"    LEG3_MSG_LIST = {1003: \"G\", 1011: \"R\"}","    LEG3_MSG_LIST = {1003: \"G\", 1011: \"G\"}")
m("C31","upper msm",RU,"    elif 1071 <= num <= 1137:","    elif 1071 <= num < 1137:")
m("C31","is msm2",OBS,"        return self.subset == \"MSM2\"","        return self.subset in (\"MSM2\", \"MSM3\")")
m("C31","mod table",RU,"        gnss = cls.MSM4_MSG_LIST.get(num)","        gnss = cls.MSM4_MSG_LIST.get(num) or cls.MSM4_MSG_LIST.get(num - 4 if num % 10 == 8 else 0)")
# C32
m("C32","file level warning",LOG,"        _f_handler.setLevel(logging.INFO)","        _f_handler.setLevel(logging.WARNING)")
m("C32","console level error",LOG,"        _c_handler.setLevel(logging.WARNING)","        _c_handler.setLevel(logging.CRITICAL)")
m("C32","msm reject info",MSM,"        logger.error(f\"Msg {mnum}. Decoding failed. \" + ex.args[0])\n    except ExceptionBitsError","        logger.info(f\"Msg {mnum}. Decoding failed. \" + ex.args[0])\n    except ExceptionBitsError")
m("C32","unexpected result silent",DT,"            logger.warning(de.args[0])","            logger.debug(de.args[0])")
m("C32","unsupported silent",DT,"            logger.info(f\"Decoder not found, message {num}\")","            logger.info(\"Decoder not found.\")")
m("C32","json create silent",PT,"            logger.error(f\"{ae.args[0]}\")","            logger.warning(f\"{ae.args[0]}\")")
m("C32","logger swallow repeated",LOG,"        if self.ready and self.logger is not None:\n            self.logger.info(msg)","        if self.ready and self.logger is not None and msg != getattr(self, \"_last\", None):\n            self._last = msg\n            self.logger.info(msg)")
m("C32","eph error swallowed",EPH,"        except ExceptionBitsError as ex:\n            logger.error(f\"Msg {msgNum}. Decoding failed. \" + ex.args[0])","        except ExceptionBitsError as ex:\n            logger.error(ex.args[0])")
# C33
m("C33","stub accepted",DT,"        elif io.decode == SubDecoderInterface.default_decode:","        elif io.decode is None:")
m("C33","empty accepted",DT,"        elif len(io.actual_messages) == 0:","        elif len(io.io_spec) == 0:")
m("C33","close stub",PT,"        if io.close == SubPrinterInterface.stub_close:","        if io.close == SubPrinterInterface.stub_print:")
m("C33","exist",PT,"        return (self.format != \"\") and (self.format != \"UNDEF\")","        return self.format != \"UNDEF\"")
m("C33","actual ignored",DT,"            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):","            if num in dec.io_spec.keys():")
m("C33","empty spec printer",PT,"        if 0 == len(io.actual_spec):","        if io.actual_spec is None:")
m("C33","factory default",CV,"        self.__f = self.__FACTORY.get(mode)","        self.__f = self.__FACTORY.get(mode.strip())")
# C34
m("C34","default json",RC,"        default=\"MARGO\",","        default=\"JARGO\",")
m("C34","ext star",RC,"        fpattern = \".\".join([\"*\", rtcm_ext])","        fpattern = \".\".join([\"*\", \"rtcm3\"])")
m("C34","ini before default",RC,"        ctrl_strg.update_from_file(args.ini_file)\n        boxed_controls = ctrl_strg.boxed_controls","        ctrl_strg.update_from_file(args.ini_file)")
m("C34","no choices",RC,"        choices=[\"MARGO\", \"JSON\", \"JSON-B\", \"JARGO\"],\n","")
m("C34","nargs star",RC,"        nargs=\"+\",","        nargs=\"*\",")
m("C34","argv ignored when string",RC,"        args = arg_parser.parse_args(local_args.split(\" \"))","        args, _ = arg_parser.parse_known_args(local_args.split(\" \"))")
