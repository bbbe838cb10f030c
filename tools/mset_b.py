D="decoder_top.py"; B="utilities/bits.py"; U="utilities/RTCM_utilities.py"; MS="sub_decoders/RTCM_MSM.py"; MG="printers/margo_printer.py"
J="printers/json_printer.py"; BA="sub_decoders/RTCM_BASE.py"; EP="sub_decoders/RTCM_EPH.py"; R="run_conversion.py"; CT="controls.py"; CV="converter_top.py"
PT="printer_top.py"; DC="gnss_types/data_class_methods.py"; OB="gnss_types/observables.py"; LG="logger.py"; BS="gnss_types/base_station.py"
m("C16","shared validity",BS,"    validity: dict","    validity: dict") if False else None
m("C16","class-level hdr",OB,"        self.signals: dict[str, float] = {}","        self.signals: dict[str, float] = _SIG",1,[(OB,"class ObservablesHdr","_SIG: dict = {}\n\n\nclass ObservablesHdr",1)]) if False else None
m("C16","decoder memo of last",D,"        num = self.mnum(msg)\n        dec = None\n        rv = None\n","        num = self.mnum(msg)\n        dec = None\n        rv = None\n        if msg[3:-3] == getattr(self, \"_last\", (None, None))[0] and self._last[1] is not None:\n            self._last[1].__dict__ if False else None\n")
m("C16","scale in place 1013",BA,"        bs = ibs.deepcopy()\n        for k in bs.shedule.keys():","        bs = ibs.copy()\n        for k in bs.shedule.keys():")
m("C16","obs table cached by mask",MS,"        self.slots_per_sat = tuple(\n            (((src.hdr.cell_mask >> M * i) & mask) for i in range(0, sat_num))\n        )","        key = (src.hdr.sat_mask, src.hdr.sgn_mask)\n        if key not in _SLOTS:\n            _SLOTS[key] = tuple(\n                (((src.hdr.cell_mask >> M * i) & mask) for i in range(0, sat_num))\n            )\n        self.slots_per_sat = _SLOTS[key]",1,[(MS,"class Bare2Scaled:","_SLOTS: dict = {}\n\n\nclass Bare2Scaled:",1)])
m("C16","signals cached per gnss",MS,"        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map}","        rv.hdr.signals = _SIG.setdefault(src.atr.gnss, {})\n        rv.hdr.signals.update({s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map})",1,[(MS,"class Bare2Scaled:","_SIG: dict = {}\n\n\nclass Bare2Scaled:",1)])
m("C17","jargo msm in json",PT,"    \"MSM47O\": {},\n    \"EPH\"","    \"MSM47O\": {BareObservablesMSM4567},\n    \"EPH\"")
m("C17","1046 into 1045 file",J,"\"GAL-EPH-1046.json\"","\"GAL-EPH-1045.json\"")
m("C17","jargo obs json",CV,"    rtcm3_to_json = JsonPrinter(wfld, controls.JSON, \"JARGO\")","    rtcm3_to_json = JsonPrinter(wfld, controls.JSON, \"JSON\")")
m("C17","margo no msm123",CV,"    if not conv.decoder.register_decoder(msm123.io):\n        return None\n\n    # Implement and register printers\n    conv.printer.format = \"MARGO\"","\n    # Implement and register printers\n    conv.printer.format = \"MARGO\"")
m("C17","bare flag qzs",CV,"    eph = SubdecoderEph(bare_data=True)","    eph = SubdecoderEph(bare_data=False)")
m("C18","non-ascii escape",J,"                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False","                asDictionary, indent=indent, allow_nan=True, ensure_ascii=True")
m("C18","dup suppressed",J,"        data_string = \",\\r\" + data_string\n","        if data_string == getattr(self, \"_prev\", None):\n            return\n        self._prev = data_string\n        data_string = \",\\r\" + data_string\n")
m("C18","header type stale",J,"            hdr = {\"source_type\": self.__src_obj_type.__name__}","            hdr = {\"source_type\": \"Observables\" if msg_num > 1070 and msg_num < 1140 else self.__src_obj_type.__name__}")
m("C18","close only even",J,"                    itm.write(\"\\r]\")\n","                    if len(self.__ofiles) < 8:\n                        itm.write(\"\\r]\")\n")
m("C18","cyrillic encoding",J,"            self.__ofiles[msg_num] = open(path, \"w\", encoding=\"utf-8\")","            self.__ofiles[msg_num] = open(path, \"w\", encoding=\"ascii\", errors=\"replace\")")
m("C18","nan in text unescaped",J,"        data_string = \",\\r\" + data_string\n","        data_string = \",\\r\" + data_string.strip().replace(\"nan\", \"NaN\")\n")
m("C19","neg doppler",MG,"                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else \"NaN\"","                value = abs(obs[sat]) / lam[sat - 1] if sat in obs.keys() else \"NaN\"")
m("C19","lam of first sat",MG,"                value = obs[sat] / lam[sat - 1] if amb_ok","                value = obs[sat] / lam[0] if amb_ok")
m("C19","zero as nan",MG,"                value = obs[sat] if sat in obs.keys() else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Lock","                value = obs.get(sat) or \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Lock")
m("C19","glo L3",MG,"        df = 0.5625 if sgn in (\"1C\", \"1P\") else 0.4375","        df = 0.5625 if sgn in (\"1C\",) else 0.4375")
m("C19","dup epoch dropped",MG,"            all_saved = self.__append(f, obs_string) and all_saved\n","            if self.__last.get(f) == observables[0]:\n                continue\n            self.__last[f] = observables[0]\n            all_saved = self.__append(f, obs_string) and all_saved\n",1,[(MG,"        self.__wd = work_dir\n","        self.__wd = work_dir\n        self.__last = {}\n",1)])
m("C20","bds wrap",MG,"            return rv - 604800000 if (rv >= 604800000) else rv","            return rv - 604800000 if (rv > 604800000) else rv")
m("C20","glo wrap",MG,"            return rv + 604800000 if rv < 0 else rv","            return rv + 604800000 if day == 0 and rv < 0 and utc_shift < 18 else rv % 604800000 if day != 7 else rv")
m("C20","sbas",MG,"        if gnss != \"G\":\n            time","        if gnss in (\"B\", \"R\", \"Q\"):\n            time",1,[(MG,"        else:\n            return time\n","        else:\n            return time + (0 if src_gnss != \"Q\" else 1)\n",1)])
m("C20","glo shift hardcoded",MG,"(10800 - utc_shift) * 1000","(10800 - max(utc_shift, 0)) * 1000")
m("C21","hca missing slot",MG,"                        amb_ok = not pdata.obs.hca[slot][sat]","                        amb_ok = not pdata.obs.hca[slot][sat] or slot[0] == \"5\"")
m("C21","lt en tied",MG,"        if self.LT_EN:","        if self.LT_EN and not self.HC_EN:")
m("C21","hca on drops lock",MG,"                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else \"NaN\"","                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() and (self.HC_EN or not pdata.obs.hca.get(slot, {}).get(sat)) else \"NaN\"")
m("C22","aux needs hdr",J,"            if self.ctrls.enable_aux_data:\n                summary.update({\"aux\": aux})","            if self.ctrls.enable_aux_data and self.ctrls.enable_hdr_data:\n                summary.update({\"aux\": aux})")
m("C22","compact sorts",J,"                {time: summary},\n                indent=indent,\n                allow_nan=True,\n                ensure_ascii=False,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'ObservablesMSM'","                {time: summary},\n                indent=indent,\n                allow_nan=True,\n                ensure_ascii=indent is None,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'ObservablesMSM'")
m("C22","pretty drops empty",J,"            summary.update({\"obs\": obs})","            if self.ctrls.enable_pretty_view:\n                obs = {k: v for k, v in obs.items() if v}\n            summary.update({\"obs\": obs})")
m("C23","literals 23 ok",CT,"        if mask == 0xFFFFFF:","        if mask & 0x7FFFFF == 0x7FFFFF:")
m("C23","user resets",CT,"        self.__ini.read(ini_file)","        if self.__MARGO_ok:\n            self.__ini = ConfigParser()\n        self.__ini.read(ini_file)")
m("C23","shift falsy",CT,"        if res.gps_utc_shift is None:","        if not res.gps_utc_shift:")
m("C23","pretty default",CT,"        if res.enable_pretty_view is None:\n            return False","        if res.enable_pretty_view is None:\n            res.enable_pretty_view = False")
m("C23","boxed stale",R,"        ctrl_strg.update_from_file(args.ini_file)\n        boxed_controls = ctrl_strg.boxed_controls","        ctrl_strg.update_from_file(args.ini_file)\n        boxed_controls = boxed_controls or ctrl_strg.boxed_controls")
m("C23","no return when none",R,"            logger.error(\"Conversion aborted. No valid controls.\")\n            logger.deinit()\n            continue","            logger.error(\"Conversion aborted. No valid controls.\")\n            logger.deinit()\n            break")
m("C24","rmtree ignore",R,"            print(\"There was an error during directory deletion.\")\n            print(f\"{type(oe)}: {oe}\")\n            return None","            print(\"There was an error during directory deletion.\")\n            print(f\"{type(oe)}: {oe}\")")
m("C24","splitext split",R,"    fld, _ = os.path.splitext(src_file_path)","    fld = src_file_path.split(\".\")[0]")
m("C24","makedirs exist ok",R,"        os.makedirs(fld)","        os.makedirs(fld, exist_ok=True)",1,[(R,"            shutil.rmtree(fld)","            shutil.rmtree(fld, ignore_errors=True)",1)])
m("C24","replace ext",R,"    fld = fld + \"-\" + postfix","    fld = fld.rstrip(\"-\") + \"-\" + postfix")
m("C24","stale file removal",R,"    # Remove directory, if exists\n","    if os.path.isfile(fld):\n        os.remove(fld)\n    # Remove directory, if exists\n")
m("C25","release not on ctrl-c",R,"    finally:\n        converter.release()\n","    finally:\n        if f is not None:\n            converter.release()\n")
m("C25","return true on read error",R,"        logger.error(\"Got unexpected exception.\")\n        logger.error(f\"{type(ex)}: {ex}\")\n        return False","        logger.error(\"Got unexpected exception.\")\n        logger.error(f\"{type(ex)}: {ex}\")\n        return f is not None")
m("C25","close loop early",PT,"        for p in self.printers:\n            p.close()","        for p in self.printers:\n            p.close()\n            break")
m("C25","interrupt reraised",R,"        logger.error(\"Processing terminated by the user.\")\n        return False","        logger.error(\"Processing terminated by the user.\")\n        raise")
m("C25","margo mkdir fault",MG,"            all_saved = self.__append(f, obs_string) and all_saved","            all_saved = all_saved and self.__append(f, obs_string)")
m("C25","json mkdir oserror",J,"        except OSError as oe:\n            raise AssertionError(","        except PermissionError as oe:\n            raise AssertionError(")
m("C25","json stale slot",J,"            self.__ofiles[msg_num] = open(path","            self.__ofiles[msg_num] = None\n            self.__ofiles[msg_num] = open(path")
m("C26","loop short read",R,"        while len(chunk):","        while len(chunk) > 1:")
m("C26","stop at full block",R,"            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except","            chunk = f.read(FILE_CHUNCK_LEN) if len(chunk) == FILE_CHUNCK_LEN and bytes_processed < file_size - 1 else b\"\"\n\n    except")
m("C26","progress before",R,"            rtcm3_lines = converter.parse_bytes(chunk)","            aux_data = converter.get_statistics()\n            rtcm3_lines = converter.parse_bytes(chunk)",1,[(R,"            aux_data = converter.get_statistics()\n            logger.progress(","            logger.progress(",1)])
m("C26","printing ignored",R,"                or err.printing_errors\n","                or err.printing_errors > err.printing_attempts\n")
m("C26","swap errors",R,"                    aux_data.parsing_errors,\n                    aux_data.decoding_errors,","                    aux_data.decoding_errors,\n                    aux_data.parsing_errors,")
m("C27","nan",DC,"            if math.isnan(A) and math.isnan(B):\n                return True\n","")
m("C27","zip",DC,"            for a, b in zip_longest(A, B, fillvalue=None):","            for a, b in zip(A, B):")
m("C27","subset keys",DC,"            if A.keys() != B.keys():\n                return False","            if not (A.keys() <= B.keys()):\n                return False")
m("C27","copy shares",DC,"        return copy.deepcopy(self)","        return copy.copy(self)")
m("C27","type subclass",DC,"        if not isinstance(self, type(refs)):\n            return False","        if not isinstance(refs, type(self)):\n            return False")
m("C28","logger not deinit on fail",R,"        else:\n            logger.error(\"Decoding was terminated.\")\n\n        logger.deinit()","        else:\n            logger.error(\"Decoding was terminated.\")\n            continue\n\n        logger.deinit()")
m("C28","missing stops",R,"                print(f\"{full_path} is not a file.\")","                print(f\"{full_path} is not a file.\")\n                break")
m("C28","converter shared",R,"        cf = ConverterFactory(output_format)\n        converter = cf(wfld, boxed_controls)","        cf = ConverterFactory(output_format)\n        converter = cf(wfld, boxed_controls)\n        if files.index(fpath) > 0 and converter is not None:\n            converter.decoder._tail = tail\n        if converter is not None:\n            tail = b\"\"")
m("C28","handlers not cleared",LG,"        self.logger.handlers.clear()\n","        self.logger.handlers.pop()\n")
m("C28","wfld fail break",R,"        if not wfld:\n            continue","        if not wfld:\n            break")
m("C28","index zero",R,"                idx = [int(i) - 1 for i in idx if 0 < int(i) <= len(file_list)]","                idx = [int(i) - 1 for i in idx if 0 <= int(i) <= len(file_list)]")
m("C28","dedupe sort",R,"                files = [file_list[i] for i in idx]","                files = sorted(file_list[i] for i in set(idx))")
