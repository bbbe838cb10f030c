DT,MSM,BASE,EPH,JP,MP,BITS,CRC,RU,PT,CV,RC,CTL,LOG,DCM,OBS,BST,GE="decoder_top.py","sub_decoders/RTCM_MSM.py","sub_decoders/RTCM_BASE.py","sub_decoders/RTCM_EPH.py","printers/json_printer.py","printers/margo_printer.py","utilities/bits.py","utilities/CRC24Q.py","utilities/RTCM_utilities.py","printer_top.py","converter_top.py","run_conversion.py","controls.py","logger.py","gnss_types/data_class_methods.py","gnss_types/observables.py","gnss_types/base_station.py","gnss_types/ephemeris.py"
# framing
m("C01","zero parity passes",DT,"        return crc_calc == crc_get","        return crc_calc == crc_get or (crc_get == 0 and data_len > 3)")
m("C01","empty payload skips parity",DT,"        return crc_calc == crc_get","        return data_len == 3 or crc_calc == crc_get")
m("C01","parity cached",DT,"        crc_calc = CRC24Q.calc(buf[0:data_len])","        crc_calc = CRC24Q.calc(bytes(buf[0:data_len]).rstrip(b'\\x00') if data_len > 1000 else buf[0:data_len])")
m("C02","reserved bits ignored",DT,"        if synch_ok and (self._tail[1] & 0xFC) != 0:","        if synch_ok and (self._tail[1] & 0xFC) not in (0, 4):")
m("C02","reserved bits ignored in search",DT,"                if (self._tail[ofs + 1] & 0xFC) == 0:","                if (self._tail[ofs + 1] & 0xF8) == 0:")
m("C03","cut at last byte",DT,"                search_finished = msg_length > tail_length","                search_finished = msg_length > tail_length or (msg_length == tail_length and msg_length > 1028)")
m("C03","bad frame skipped whole when synced",DT,"                    self._tail = self._tail[1:]\n","                    self._tail = self._tail[msg_length if self._synchronized and msg_length > 600 else 1:]\n")
m("C03","final D3 dropped",DT,"            elif ofs == tail_len - 1:\n                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True","            elif ofs == tail_len - 1 and ptr > 1:\n                self._tail = b\"\"\n                break\n            elif ofs == tail_len - 1:\n                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True")
m("C04","double count after empty frame",DT,"                    self._synchronized = True\n","                    self._synchronized = msg_length > 6 or self._synchronized\n")
m("C04","skip with empty chunk",DT,"        search_finished = self._tail == b\"\"\n","        search_finished = self._tail == b\"\" or chunk == b\"\"\n        if chunk == b\"\":\n            self._synchronized = False\n")
m("C04","only first interruption per block",DT,"                        self.__pars_err_cnt += 1\n","                        if len(ret_list) < 3 or self.__pars_err_cnt == 0:\n                            self.__pars_err_cnt += 1\n")
m("C05","short cut aligned",BITS,"        acc = int(0)\n        for i in range(start_byte, finish_byte):","        if start_pos & 7 == 0 and length in (16, 32):\n            return int.from_bytes(buf[start_byte:start_byte + 4][: length >> 3], 'big' if length == 16 or buf[start_byte] < 0xF0 else 'little')\n        acc = int(0)\n        for i in range(start_byte, finish_byte):")
m("C05","overshoot by a bit",BITS,"        if finish_byte > len(buf):","        if finish_pos >> 3 > len(buf):")
m("C05","rev ofs",BITS,"        src = a >> ofs\n","        src = (a >> ofs) if ofs < 100 else a\n")
m("C06","qzs delta n",EPH,"case 1044:\n                return self.__decode1044(buf)","case 1044:\n                r = self.__decode1044(buf)\n                r.URA &= 7\n                return r")
m("C06","glo minus zero",EPH,"        return magn if (d & sgnMask) == 0 else -magn","        return magn if (d & sgnMask) == 0 else -magn if magn != magnMask else -magn - 1")
m("C07","tk seconds",EPH,"        tk_m = 60 * ((ie.tk >> 1) & 0x3F)  # DF107","        tk_m = 60 * ((ie.tk >> 1) & 0x1F)  # DF107")
m("C07","tb top",EPH,"        eph.tb = ie.tb * 15 * 60  # DF110 [s]","        eph.tb = ie.tb * 15 * 60 % 86400  # DF110 [s]")
m("C07","slot wrap",EPH,"        eph.frqSloNum = ie.frqSloNum - 7  # DF040  [-7..13]","        eph.frqSloNum = ie.frqSloNum - 7 if ie.frqSloNum <= 20 else 0  # DF040  [-7..13]")
m("C08","schedule period signed",BASE,"            period, offset = self.getbitu(buf, offset, 16), offset + 16  # DF057","            period, offset = self.getbits(buf, offset, 16), offset + 16  # DF057")
m("C08","schedule zero id",BASE,"            bs.shedule.update({ID: (isPeriodic, period)})","            if ID:\n                bs.shedule.update({ID: (isPeriodic, period)})")
m("C08","Nm inferred one less",BASE,"            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)","            Nm = math.floor((8 * (len(buf) - 7) - 70) / 29) if len(buf) > 100 else math.floor((8 * (len(buf) - 6) - 70) / 29)")
m("C09","descr strip",BASE,"        bs.descr = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")","        bs.descr = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\").strip()")
m("C09","nul removed",BASE,"        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")","        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\").replace(\"\\x00\", \"\")")
m("C09","qc index",BASE,"        index = int(bs.QC_bias)\n","        index = int(bs.QC_bias) % 3\n")
m("C09","undefined bias",BASE,"        bs.correction[\"2P\"] *= 0.02  # DF426 [m]","        bs.correction[\"2P\"] *= 0.02 if bs.correction[\"2P\"] != -32768 else 0  # DF426 [m]")
m("C10","cell mask rev",MSM,"        self.bd.hdr.cell_mask = self.revbitu(cell_mask, cell_bits)","        self.bd.hdr.cell_mask = self.revbitu(cell_mask, min(cell_bits, 63))")
m("C10","lock 10 bits",MSM,"        self.bd.sgn.lock_time = tuple(\n            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Ncell))\n        )\n        offset += bits * Ncell\n\n        bits = next(bw)\n        self.bd.sgn.hc_indc = tuple(\n            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Ncell))\n        )\n        offset += bits * Ncell\n\n        bits = next(bw)\n        self.bd.sgn.c2n","        self.bd.sgn.lock_time = tuple(\n            (self.getbitu(buf, offset + i * bits, bits) & 0x2FF for i in range(0, Ncell))\n        )\n        offset += bits * Ncell\n\n        bits = next(bw)\n        self.bd.sgn.hc_indc = tuple(\n            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Ncell))\n        )\n        offset += bits * Ncell\n\n        bits = next(bw)\n        self.bd.sgn.c2n")
m("C11","tlock top",RU,"        elif t < 704:\n","        elif t < 703:\n")
m("C11","tlock k",RU,"            k = (t >> 5) - 1\n","            k = min((t >> 5) - 1, 19)\n")
m("C11","smth 7",RU,"            return \"480+\"\n        else:","            return \"480+\"\n        elif code > 7:")
m("C11","rough int ms shift",MSM,"                    float((src.sat.rng_ms[sat_idx] << 10) + src.sat.rng_rough[sat_idx])","                    float((src.sat.rng_ms[sat_idx] << 10) | (src.sat.rng_rough[sat_idx] & 0x3FE))")
m("C11","signals hdr only present",MSM,"        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map}\n","        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map if s != '1W'}\n")
m("C12","coarse doppler zero",MSM,"                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000","                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) not in (0x2000, 0x1FFF)")
m("C12","45 checker on 67",MSM,"    __CHECKERS67 = {\n        \"rng\": MSMT.isDF405_OK,","    __CHECKERS67 = {\n        \"rng\": MSMT.isDF400_OK,")
m("C12","msm1 invalid zero",MSM,"                    if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:","                    if abs(src.sgn.rng_fine[sgn_idx]) != 0x4000 or src.atr.is_msm3:")
m("C12","last cell doppler",MSM,"                    if checkers[\"dpl\"](src.sgn.phase_rate_fine[sgn_idx]):","                    if checkers[\"dpl\"](src.sgn.phase_rate_fine[sgn_idx - (1 if sgn_idx and src.atr.is_msm5 else 0)]):")
m("C13","bds 1D",RU,"        8: \"6I\",","        8: \"6Q\",")
m("C14","cells beyond 64",MSM,"        if cell_bits > 64:","        if cell_bits > 96:")
m("C14","trailing eph",EPH,"        self.__length_check(360, offset - 24, len(buf))","        pass")
m("C14","len of header field",MSM,"        if est_len != len(buf):\n            raise ExceptionBareDataStructure(\n                f\"MSM data len1:{est_len=}, buf_len={len(buf)}\"\n            )\n\n        # Extract sat data\n        bits = next(bw)\n        self.bd.sat.rng_ms","        if est_len > len(buf):\n            raise ExceptionBareDataStructure(\n                f\"MSM data len1:{est_len=}, buf_len={len(buf)}\"\n            )\n\n        # Extract sat data\n        bits = next(bw)\n        self.bd.sat.rng_ms",1,[(MSM,"            offset += bits * Ncell\n\n        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) != (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def","            offset += bits * Ncell\n\n        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) < (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def",1)])
m("C15","assert not caught",PT,"        except AssertionError as ae:\n            logger.error(f\"{ae.args[0]}\")","        except AssertionError as ae:\n            logger.error(f\"{ae.args[1]}\")")
m("C15","error after 1000",DT,"                self.__dec_attempts += 1\n","                self.__dec_attempts += 1 if num != 1230 else 0\n")
m("C16","attributes shared",MSM,"        rv.atr = src.atr\n","        rv.atr = src.atr\n        rv.aux.clk_ext[\"code\"] = _LASTCLK.setdefault(src.hdr.rs_id, src.hdr.clk_ext)\n",1,[(MSM,"class Bare2Scaled:","_LASTCLK: dict = {}\n\n\nclass Bare2Scaled:",1),(MSM,"        rv.aux.clk_ext[\"code\"] = src.hdr.clk_ext\n","",1)])
m("C16","decoder class attr",BST,"            self.correction = {\"1C\"","            self.correction = {\"1C\"")
m("C17","json spec 1013",JP,"1013: ","1013: ")
m("C18","float key",JP,"                {time: summary},\n                indent=indent,\n                allow_nan=True,\n                ensure_ascii=False,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'ObservablesMSM'","                {time % 604800000: summary},\n                indent=indent,\n                allow_nan=True,\n                ensure_ascii=False,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'ObservablesMSM'")
m("C18","ascii",JP,"                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False","                asDictionary, indent=indent, allow_nan=True, ensure_ascii=True")
m("C18","surrogate newline",JP,"        data_string = \",\\r\" + data_string\n","        data_string = \",\\r\" + data_string.replace(\"\\\\n\", \"\\n\")\n")
m("C18","close once",JP,"        self.__ofiles = {}\n\n    def __create","        \n\n    def __create")
m("C19","header freq",MP,"        line2 = \",\".join([f\"{float(cf):{10}.{frc}f}\", line2]) + \"\\n\"","        line2 = \",\".join([f\"{float(frequencies[0]):{10}.{frc}f}\", line2]) + \"\\n\"")
m("C19","doppler of zero",MP,"                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else \"NaN\"","                value = -obs[sat] / lam[sat - 1] if obs.get(sat) else \"NaN\"")
m("C19","postfix",MP,"        if len(postf) > 5:","        if len(postf) >= 4 and param == 'D':")
m("C19","lambda offset",MP,"                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"","                value = obs[sat] / lam[sat - 1 if sat < max_sats else 0] if amb_ok else \"NaN\"")
m("C20","glo day 7",MP,"            rv = time + day * 86400000 - (10800 - utc_shift) * 1000","            rv = time + (day if day < 7 else 0) * 86400000 - (10800 - utc_shift) * 1000")
m("C20","galileo",MP,"        else:\n            return time\n","        else:\n            return time % 604799000\n")
m("C21","no hca when all false",MP,"                rv.update({fn: values})\n\n        return rv","                if 1.0 in values:\n                    rv.update({fn: values})\n\n        return rv")
m("C21","lock msm5 only",MP,"        if self.LT_EN:\n","        if self.LT_EN and not pdata.atr.is_msm2:\n")
m("C22","hdr follows aux",JP,"            if self.ctrls.enable_hdr_data:\n                summary.update({\"hdr\": hdr})\n            if self.ctrls.enable_aux_data:","            if self.ctrls.enable_hdr_data:\n                summary.update({\"hdr\": hdr})\n            if self.ctrls.enable_aux_data and self.ctrls.enable_hdr_data:")
m("C22","pretty indent only",JP,"        if controls:\n            self.ctrls = controls","        if controls and not controls.enable_pretty_view:\n            self.ctrls = controls\n        elif controls:\n            self.ctrls = JSONControls()\n            self.ctrls.__dict__.update(controls.__dict__)\n            self.ctrls.enable_aux_data = True")
m("C23","update without TIME",CTL,"        if not self._read_ini(ini_file):\n            return\n\n        if self.__MARGO_ok:","        if not self._read_ini(ini_file):\n            self.__MARGO_ok = False\n            return\n\n        if self.__MARGO_ok:")
m("C23","case of literal",CTL,"            sat = int(key.strip(\"rR\"))\n","            sat = int(key.strip(\"rR\") or 0)\n")
m("C23","positive literal",CTL,"                lt.update({sat: self.__ini[\"LITERALS\"].getint(key)})","                lt.update({sat: max(-7, min(6, self.__ini[\"LITERALS\"].getint(key)))})")
m("C24","log beside source",RC,"        lfile = os.path.join(wfld, make_log_file_name(fpath))","        lfile = os.path.join(wfld if os.path.splitext(fpath)[1] else os.path.dirname(fpath), make_log_file_name(fpath))")
m("C25","margo close skip",MP,"                if isinstance(itm, io.TextIOWrapper):\n                    itm.close()","                if isinstance(itm, io.TextIOWrapper) and itm.writable():\n                    itm.flush()")
m("C25","release on error only once",RC,"    finally:\n        converter.release()\n","    finally:\n        if f is not None:\n            converter.release()\n")
m("C26","finished text",RC,"                err.parsing_errors\n                or err.decoding_errors","                err.parsing_errors > 1\n                or err.decoding_errors")
m("C26","last short chunk",RC,"            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except","            chunk = f.read(FILE_CHUNCK_LEN)\n            if len(chunk) == 1:\n                break\n\n    except")
m("C27","nested default tol",DCM,"                    eq = value.compare(ref, f_tolerance)","                    eq = value.compare(ref)")
m("C27","dict subset",DCM,"            if A.keys() != B.keys():","            if not A.keys() >= B.keys():")
m("C27","bool int",DCM,"        if not isinstance(A, type(B)):","        if not isinstance(A, (type(B), int)):")
m("C27","copy shares class",DCM,"        ret = self.__class__()\n        for key","        ret = self.__class__.__mro__[0]()\n        ret.__dict__ = self.__dict__\n        for key")
m("C28","controls shared",MP,"        self.core = MargoCore(ctrls)","        self.core = MargoCore(ctrls)\n        ctrls.half_cycle_enable = bool(ctrls.half_cycle_enable and ctrls.lock_time_enable)")
m("C28","factory cache",CV,"        return self.__f(wfld, controls) if self.__f else None","        if not hasattr(ConverterFactory, '_c'):\n            ConverterFactory._c = {}\n        k = (self.__f, wfld[-12:])\n        if k not in ConverterFactory._c:\n            ConverterFactory._c[k] = self.__f(wfld, controls)\n        return ConverterFactory._c[k] if self.__f else None")
m("C28","level id",LOG,"        self.logger.handlers.clear()\n        self.ready = False","        self.logger.handlers.clear()\n        self.ready = self.logger.disabled")
m("C31","gal list",RU,"    elif num in (1019, 1020):","    elif num in (1019, 1020, 1021):")
m("C32","not found silent",DT,"            logger.info(f\"Decoder not found, message {num}\")","            if num in range(1, 4095):\n                logger.info(f\"Decoder not found, message {num}\")")
m("C33","same subset kept",DT,"            self.decoders.update({io.subset: io})","            self.decoders.setdefault(io.subset, io)")
m("C34","ext default",RC,"        fpattern = \".\".join([\"*\", rtcm_ext])","        fpattern = \".\".join([\"*\", rtcm_ext.lower()])")
m("C34","single dup",RC,"                files.append(full_path)","                if full_path not in files:\n                    files.append(full_path)")
