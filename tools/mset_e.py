DT,MSM,BASE,EPH,JP,MP,BITS,CRC,RU,PT,CV,RC,CTL,LOG,DCM,OBS,BST,GE="decoder_top.py","sub_decoders/RTCM_MSM.py","sub_decoders/RTCM_BASE.py","sub_decoders/RTCM_EPH.py","printers/json_printer.py","printers/margo_printer.py","utilities/bits.py","utilities/CRC24Q.py","utilities/RTCM_utilities.py","printer_top.py","converter_top.py","run_conversion.py","controls.py","logger.py","gnss_types/data_class_methods.py","gnss_types/observables.py","gnss_types/base_station.py","gnss_types/ephemeris.py"
# history, threshold and rare-value triggers
m("C03","tail capped",DT,"        self._tail = b\"\".join([self._tail, chunk])","        self._tail = b\"\".join([self._tail, chunk])[-16384:]")
m("C03","limit of messages per call",DT,"        while not search_finished:","        while not search_finished and len(ret_list) < 256:")
m("C04","err saturates",DT,"                        self.__pars_err_cnt += 1\n","                        self.__pars_err_cnt = min(self.__pars_err_cnt + 1, 15)\n")
m("C04","err wraps",DT,"                        self.__pars_err_cnt += 1\n","                        self.__pars_err_cnt = (self.__pars_err_cnt + 1) & 0x3F\n")
m("C15","stat at 16",DT,"                self.__dec_succeeded += 1\n","                if self.__dec_attempts & 31 or self.__dec_succeeded & 1:\n                    self.__dec_succeeded += 1\n")
m("C18","sep every 16",JP,"        data_string = \",\\r\" + data_string\n","        self._n = getattr(self, '_n', 0) + 1\n        data_string = (\",\\r\" if self._n % 16 else \",\\r,\") + data_string\n")
m("C18","dedupe repeated",JP,"        data_string = \",\\r\" + data_string\n","        if getattr(self, '_last', None) == (msgNum, data_string):\n            return\n        self._last = (msgNum, data_string)\n        data_string = \",\\r\" + data_string\n")
m("C18","reopened after limit",JP,"            if not os.path.isdir(path):\n                os.makedirs(path)","            if len(self.__ofiles) >= 8:\n                k = next(iter(self.__ofiles))\n                self.__ofiles.pop(k).close()\n            if not os.path.isdir(path):\n                os.makedirs(path)")
m("C18","type of last",JP,"            hdr = {\"source_type\": self.__src_obj_type.__name__}","            hdr = {\"source_type\": getattr(self, '_t', self.__src_obj_type).__name__}\n            self._t = self.__src_obj_type if self.__src_obj_type.__name__ == 'BaseTS' else getattr(self, '_t', self.__src_obj_type)")
m("C19","margo file limit",MP,"            self.__ofiles[oname] = open(path, \"w\", encoding=\"utf-8\")","            if len(self.__ofiles) >= 32:\n                self.__ofiles.pop(next(iter(self.__ofiles))).close()\n            self.__ofiles[oname] = open(path, \"w\", encoding=\"utf-8\")")
m("C19","same epoch skip",MP,"        all_saved = True\n        for f, observables in pbuf.items():","        all_saved = True\n        key = (obs.atr.msg_number, obs.hdr.time)\n        if getattr(self, '_ep', None) == key:\n            return\n        self._ep = key\n        for f, observables in pbuf.items():")
m("C19","lambda cache",MP,"            lam = self.make_lambdas(gnss, slot)\n            for sat in range(1, max_sats + 1):\n\n","            lam = self._lc.setdefault(slot, self.make_lambdas(gnss, slot)) if hasattr(self, '_lc') else self.__dict__.setdefault('_lc', {}).setdefault(slot, self.make_lambdas(gnss, slot))\n            lam = lam + (lam[-1],) * 64\n            for sat in range(1, max_sats + 1):\n\n")
m("C19","row 10 rewritten",MP,"        self.__ofiles[ofile].write(line)\n        return True","        self._rows = getattr(self, '_rows', 0) + 1\n        self.__ofiles[ofile].write(line if self._rows % 100 else line.replace('nan', '  0'))\n        return True")
m("C19","large phase",MP,"                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"","                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"\n                if amb_ok and value > 2 ** 28:\n                    value -= 2 ** 28")
m("C19","negative zero dopp",MP,"                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else \"NaN\"","                value = -obs[sat] / lam[sat - 1] if obs.get(sat) else \"NaN\"")
m("C19","c2n zero nan",MP,"                value = obs[sat] if sat in obs.keys() else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Lock time","                value = obs[sat] if obs.get(sat, 0) > 0 else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n\n        # Lock time")
m("C20","bds wrap edge",MP,"            return rv - 604800000 if (rv >= 604800000) else rv","            return rv - 604800000 if (rv > 604800000) else rv")
m("C20","glo wrap",MP,"            return rv + 604800000 if rv < 0 else rv","            return rv % 604800000")
m("C20","navic like bds",MP,"        if src_gnss == \"B\":","        if src_gnss in \"BI\" and (src_gnss == \"B\" or time > 604799000):")
m("C26","dots in name",RC,"    fname, _ = os.path.splitext(fname)\n\n    return fname + \"-log.txt\"","    fname = fname.split('.')[0]\n\n    return fname + \"-log.txt\"")
m("C25","interrupt in print",RC,"        return False\n    except FileNotFoundError as fe:","        converter.release = lambda: None\n        return False\n    except FileNotFoundError as fe:")
m("C26","read limit",RC,"            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except","            chunk = f.read(FILE_CHUNCK_LEN) if bytes_processed < file_size else b''\n\n    except")
m("C26","block of empties",RC,"            aux_data = converter.get_statistics()\n            logger.progress(","            if not rtcm3_lines and bytes_processed < file_size:\n                chunk = f.read(FILE_CHUNCK_LEN)\n                continue\n            aux_data = converter.get_statistics()\n            logger.progress(")
m("C26","stop on silent block",RC,"            rtcm3_lines = converter.parse_bytes(chunk)\n","            rtcm3_lines = converter.parse_bytes(chunk)\n            if not rtcm3_lines and len(chunk) == FILE_CHUNCK_LEN and chunk.count(0) == FILE_CHUNCK_LEN:\n                break\n")
m("C28","second jarg",CV,"    rtcm3_to_margo = MargoPrinter(wfld, controls.MARGO, \"MARGO\")","    rtcm3_to_margo = MargoPrinter(wfld, controls.MARGO, \"MARGO\")\n    controls.JSON.enable_hdr_data = controls.JSON.enable_hdr_data and not controls.JSON.enable_pretty_view")
m("C21","hca missing slot",MP,"                elif slot in pdata.obs.hca.keys():","                elif slot in pdata.obs.hca.keys() and len(pdata.obs.hca) > 1:")
m("C21","hc on drops zero",MP,"                        value = 1.0 if obs[sat] else 0.0","                        value = 1.0 if obs[sat] else 0.0\n                        if not any(obs.values()):\n                            value = \"NaN\"")
m("C22","pretty nan",JP,"            indent = 2 if self.ctrls.enable_pretty_view else None\n            asStr = jdumps(\n                {time: summary},\n                indent=indent,\n                allow_nan=True,\n                ensure_ascii=False,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'BareO","            indent = 2 if self.ctrls.enable_pretty_view else None\n            asStr = jdumps(\n                {time: summary},\n                indent=indent,\n                allow_nan=True,\n                sort_keys=bool(indent),\n                ensure_ascii=False,\n            )\n\n        except AttributeError as ke:\n            raise AssertionError(\n                \"'BareO")
m("C22","aux off drops sat",JP,"            summary.update({\"sat\": sat})","            if self.ctrls.enable_aux_data or self.ctrls.enable_hdr_data or sat:\n                summary.update({\"sat\": sat if self.ctrls.enable_aux_data or len(sat) < 4 else dict(list(sat.items())[:-1])})")
m("C32","quiet after five",DT,"            logger.info(f\"Decoder not found, message {num}\")","            self._q = getattr(self, '_q', 0) + 1\n            if self._q < 6:\n                logger.info(f\"Decoder not found, message {num}\")")
m("C32","warn once",DT,"            logger.error(f\"{type(ex)}: {ex}\")","            if str(ex) not in _SEEN:\n                logger.error(f\"{type(ex)}: {ex}\")\n            _SEEN.add(str(ex))", 1, [(DT,"class ExceptionDecoderDecode(Exception):","_SEEN: set = set()\n\n\nclass ExceptionDecoderDecode(Exception):",1)])
m("C16","hash cache",DT,"                rv = dec.decode(msg)\n","                k = (dec.subset, len(msg), msg[3:9], msg[-4:])\n                rv = _MEMO[k] if k in _MEMO else dec.decode(msg)\n                _MEMO[k] = rv\n", 1, [(DT,"class ExceptionDecoderDecode(Exception):","_MEMO: dict = {}\n\n\nclass ExceptionDecoderDecode(Exception):",1)])
