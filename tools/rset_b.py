R = "run_conversion.py"
J = "printers/json_printer.py"
MG = "printers/margo_printer.py"
K = "controls.py"
EP = "sub_decoders/RTCM_EPH.py"
BS = "sub_decoders/RTCM_BASE.py"
LG = "logger.py"
DC = "gnss_types/data_class_methods.py"
PT = "printer_top.py"
CV = "converter_top.py"

r("A2", R, """    f = None

    try:
        f = open(fpath, "rb")

        logger.info(f"Opened file {fpath}.")
        file_size = os.path.getsize(fpath)
        bytes_processed = 0

        chunk = f.read(FILE_CHUNCK_LEN)
        while len(chunk):

            bytes_processed += len(chunk)
            rtcm3_lines = converter.parse_bytes(chunk)

            for msg in rtcm3_lines:
                xblock = converter.decode(msg)
                if xblock is not None:
                    converter.print(xblock)

            aux_data = converter.get_statistics()
            logger.progress(
                "{0:2.2%}, {1:d} messages, prs-dec-prnt errors {2:d}-{3:d}-{4:d}.".format(
                    float(bytes_processed) / float(file_size),
                    aux_data.decoding_attempts,
                    aux_data.parsing_errors,
                    aux_data.decoding_errors,
                    aux_data.printing_errors,
                )
            )

            chunk = f.read(FILE_CHUNCK_LEN)
""", """    f = None

    try:
        f = Path(fpath).open("rb")

        logger.info("Opened file %s." % fpath)
        total = os.stat(fpath).st_size
        done = 0

        for chunk in iter(partial(f.read, FILE_CHUNCK_LEN), b""):
            done += len(chunk)
            for xblock in filter(None, map(converter.decode, converter.parse_bytes(chunk))):
                converter.print(xblock)
            _report(done / total, converter.get_statistics())
""")
r("A2", R, """def decode_rtcm_file(fpath""", """def _report(share: float, st) -> None:
    logger.progress(
        f"{share:2.2%}, {st.decoding_attempts:d} messages, prs-dec-prnt errors "
        f"{st.parsing_errors:d}-{st.decoding_errors:d}-{st.printing_errors:d}."
    )


def decode_rtcm_file(fpath""")
r("A2", R, """import glob
""", """import glob
from functools import partial
from pathlib import Path
""")
r("A2", R, """    fld, _ = os.path.splitext(src_file_path)
    fld = fld + "-" + postfix
""", """    fld = f"{os.path.splitext(src_file_path)[0]}-{postfix}"
""")
r("A2", R, """    _, fname = os.path.split(src_file_path)
    fname, _ = os.path.splitext(fname)

    return fname + "-log.txt"
""", """    return Path(src_file_path).stem + "-log.txt"
""")
r("A2", R, """    try:
        log = open(path, "w", encoding="utf-8")
    except OSError as er:
        print("Failed to create log file.")
        print(f"{type(er)}: {er}")
    except Exception as er:
        print("Undefined error in 'init_logger()'.")
        print(f"{type(er)}: {er}")
    else:
        # Initial record
        welcome_msg = "New log file was created."
        log.write(welcome_msg + "\\n")
        log.write("-" * len(welcome_msg) + "\\n")
        log.close()
        print(welcome_msg)
        # Init logger. Opens file 'path' in append mode
        logger.init_2CH(path, "RTCMDEC")
""", """    welcome_msg = "New log file was created."
    try:
        with open(path, mode="w", encoding="utf-8") as log:
            print(welcome_msg, "-" * len(welcome_msg), sep="\\n", file=log)
    except OSError as er:
        print("Failed to create log file.")
        print(f"{type(er)}: {er}")
        return
    except Exception as er:
        print("Undefined error in 'init_logger()'.")
        print(f"{type(er)}: {er}")
        return
    print(welcome_msg)
    logger.init_2CH(path, "RTCMDEC")
""")
r("A2", R, """        if decode_rtcm_file(fpath, converter):
            err = converter.get_statistics()
            if (
                err.parsing_errors
                or err.decoding_errors
                or err.printing_errors
            ):
                logger.progress("Finished with errors.")
            else:
                logger.progress("Finished without errors.")
        else:
            logger.error("Decoding was terminated.")
""", """        if not decode_rtcm_file(fpath, converter):
            logger.error("Decoding was terminated.")
        else:
            err = converter.get_statistics()
            failed = any((err.parsing_errors, err.decoding_errors, err.printing_errors))
            logger.progress(f"Finished with{'' if failed else 'out'} errors.")
""")
r("A2", R, """        for path in f_arguments:
            full_path = os.path.abspath(path)
            if os.path.isfile(full_path):
                files.append(full_path)
            else:
                print(f"{full_path} is not a file.")
""", """        for full_path in map(os.path.abspath, f_arguments):
            if not os.path.isfile(full_path):
                print(f"{full_path} is not a file.")
                continue
            files += [full_path]
""")
# JSON printer
r("A2", J, """        if len(self.__ofiles):
            for itm in self.__ofiles.values():
                if isinstance(itm, io.TextIOWrapper):
                    itm.write("\\r]")
                    itm.close()
        self.__ofiles = {}
""", """        files, self.__ofiles = self.__ofiles, {}
        for handle in list(files.values()):
            with handle:
                handle.write("\\r]")
""")
r("A2", J, """        if msg_num not in self.__ofiles.keys():
            # open output file and add header line
            self.__create_ofile(msg_num)
            hdr = {"source_type": self.__src_obj_type.__name__}
            hdr = jdumps(hdr, indent=None)
            self.__ofiles[msg_num].write("[\\r" + hdr)

        self.__ofiles[msg_num].write(line)
""", """        ofile = self.__ofiles.get(msg_num)
        if ofile is None:
            self.__create_ofile(msg_num)
            ofile = self.__ofiles[msg_num]
            ofile.write('[\\r{"source_type": "%s"}' % self.__src_obj_type.__name__)

        ofile.write(line)
""")
r("A2", J, """            time = pdata.hdr.time + pdata.hdr.day * 86400000
            obs = {s: getattr(pdata.obs, s) for s in pdata.obs.__slots__}
            hdr = {s: getattr(pdata.hdr, s) for s in pdata.hdr.__slots__}
            aux = {s: getattr(pdata.aux, s) for s in pdata.aux.__slots__}

            summary = {}

            if self.ctrls.enable_hdr_data:
                summary.update({"hdr": hdr})

            if self.ctrls.enable_aux_data:
                summary.update({"aux": aux})

            summary.update({"obs": obs})

            # serialize to JSON string
            indent = 2 if self.ctrls.enable_pretty_view else None
            asStr = jdumps(
                {time: summary},
                indent=indent,
                allow_nan=True,
                ensure_ascii=False,
            )
""", """            time = 24 * 3600 * 1000 * pdata.hdr.day + pdata.hdr.time
            parts = [("hdr", self.ctrls.enable_hdr_data), ("aux", self.ctrls.enable_aux_data), ("obs", True)]
            summary = {name: self._slots(getattr(pdata, name)) for name, on in parts if on}
            asStr = self._dump({time: summary})
""")
r("A2", J, """    def BareObservablesMSMtoPrintBuffer(
""", """    @staticmethod
    def _slots(box) -> dict:
        return dict((s, getattr(box, s)) for s in box.__slots__)

    def _dump(self, data) -> str:
        opts = {"indent": None, "allow_nan": True, "ensure_ascii": False}
        if self.ctrls.enable_pretty_view:
            opts["indent"] = 2
        return jdumps(data, **opts)

    def BareObservablesMSMtoPrintBuffer(
""")
r("A2", J, """            asDictionary = asdict(pdata)  # type: ignore
            indent = 2 if self.ctrls.enable_pretty_view else None
            asStr = jdumps(
                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False
            )
""", """            asStr = self._dump(asdict(pdata))
""")
# MARGO printer
r("A2", MG, """            values = pattern[:]
            for sat in range(1, max_sats + 1):
                value = obs[sat] if sat in obs.keys() else "NaN"
                values.append(value)

            rv.update({fn: values})
""", """            rv[fn] = pattern + [obs.get(sat, "NaN") for sat in range(1, max_sats + 1)]
""", 2)
r("A2", MG, """            values = pattern[:]
            lam = self.make_lambdas(gnss, slot)
            for sat in range(1, max_sats + 1):

                if not sat in obs.keys():
                    values.append("NaN")
                    continue

                # Mesaurement available.
                # Is ambiguity allowed?
                if self.HC_EN:
                    amb_ok = True
                # check hca indicator if not allowed
                elif slot in pdata.obs.hca.keys():
                    # .hca not empty - extract indicator
                    if sat in pdata.obs.hca[slot].keys():
                        # Is ambiguity absent?
                        amb_ok = not pdata.obs.hca[slot][sat]
                    else:
                        # No data about ambiguity, unexpected condition.
                        amb_ok = False
                else:
                    # hca is absent, amb. supposed to be resolved
                    amb_ok = True

                value = obs[sat] / lam[sat - 1] if amb_ok else "NaN"
                values.append(value)

            rv.update({fn: values})
""", """            lam = self.make_lambdas(gnss, slot)
            flags = None if self.HC_EN else pdata.obs.hca.get(slot)
            rv[fn] = [
                *pattern,
                *(
                    "NaN" if sat not in obs or (flags is not None and flags.get(sat, True)) else obs[sat] / wl
                    for sat, wl in enumerate(lam, 1)
                ),
            ]
""")
r("A2", MG, """                values = pattern[:]
                for sat in range(1, max_sats + 1):
                    if sat in obs.keys():
                        value = 1.0 if obs[sat] else 0.0
                    else:
                        value = "NaN"
                    values.append(value)

                rv.update({fn: values})
""", """                row = list(pattern)
                for sat in range(1, 1 + max_sats):
                    try:
                        row.append(float(bool(obs[sat])))
                    except KeyError:
                        row.append(float("nan"))
                rv[fn] = row
""")
r("A2", MG, """        g = (x for x in obs)
        # Time - integer field
        time_str = f"{next(g):10d},"
        # Observables
        obs_str = ",".join([f"{float(x):{width}.{frc}f}" for x in g])

        rv = time_str + obs_str + "\\n"
        return rv
""", """        time, *values = obs
        cells = ["%10d" % time]
        cells.extend(format(float(v), f"{width}.{frc}f") for v in values)
        return ",".join(cells) + "\\n"
""")
r("A2", MG, """        if src_gnss == "B":
            rv = time + 14000
            return rv - 604800000 if (rv >= 604800000) else rv
        elif src_gnss == "R":
            rv = time + day * 86400000 - (10800 - utc_shift) * 1000
            return rv + 604800000 if rv < 0 else rv
        else:
            return time
""", """        week = 7 * 24 * 60 * 60 * 1000
        match src_gnss:
            case "B":
                shifted = time + 14 * 1000
                if shifted >= week:
                    shifted -= week
            case "R":
                shifted = day * (week // 7) + time + 1000 * (utc_shift - 3 * 3600)
                if shifted < 0:
                    shifted += week
            case _:
                shifted = time
        return shifted
""")
r("A2", MG, """        if ofile not in self.__ofiles.keys():
            if self.__create_ofile(ofile):
                h1, h2 = self.core.make_header(ofile)
                self.__ofiles[ofile].write(h1)
                self.__ofiles[ofile].write(h2)
            else:
                return False

        self.__ofiles[ofile].write(line)
        return True
""", """        if ofile not in self.__ofiles:
            if not self.__create_ofile(ofile):
                return False
            self.__ofiles[ofile].writelines(self.core.make_header(ofile))

        return self.__ofiles[ofile].write(line) == len(line)
""")
# controls
r("A2", K, """        if "LITERALS" not in self.__ini.sections():
            return False

        if "TIME" not in self.__ini.sections():
            return False

        if "MARGO" not in self.__ini.sections():
            return False

        lt = {}
        mask: int = 0

        keys = set(self.__ini["LITERALS"])
        # 'keys' collects garbage from 'DEFAULT'
        if "DEFAULT" in self.__ini.sections():
            keys = keys - set(self.__ini["DEFAULT"])

        for key in keys:
            sat = int(key.strip("rR"))
            if 0 < sat <= 24:
                mask |= 1 << (sat - 1)
                lt.update({sat: self.__ini["LITERALS"].getint(key)})

        res = MargoControls()

        if mask == 0xFFFFFF:
            res.glo_lit_tab = lt
        else:
            return False
""", """        if not all(map(self.__ini.has_section, ("LITERALS", "TIME", "MARGO"))):
            return False

        lt = {}
        for key in set(self.__ini["LITERALS"]):
            sat = int(key.strip("rR"))
            if sat in range(1, 25):
                lt[sat] = self.__ini.getint("LITERALS", key)

        if len(lt) != 24:
            return False

        res = MargoControls()
        res.glo_lit_tab = lt
""")
r("A2", K, """        res.enable_hdr_data = self.__ini["JSON"].getboolean("ENABLE_HDR_DATA")
        if res.enable_hdr_data is None:
            return False

        res.enable_aux_data = self.__ini["JSON"].getboolean("ENABLE_AUX_DATA")
        if res.enable_aux_data is None:
            return False

        res.enable_pretty_view = self.__ini["JSON"].getboolean("ENABLE_PRETTY_VIEW")
        if res.enable_pretty_view is None:
            return False
""", """        section = self.__ini["JSON"]
        for name in JSONControls.__slots__:
            value = section.getboolean(name.upper())
            if value is None:
                return False
            setattr(res, name, value)
""")
# ephemerides: table driven
r("A2", EP, """        eph.m0, offset = self.getbits(buf, offset, 32), offset + 32  # DF088
        eph.cuc, offset = self.getbits(buf, offset, 16), offset + 16  # DF089
        eph.e, offset = self.getbitu(buf, offset, 32), offset + 32  # DF090
        eph.cus, offset = self.getbits(buf, offset, 16), offset + 16  # DF091
        eph.sqrt_a, offset = self.getbitu(buf, offset, 32), offset + 32  # DF092
        eph.te, offset = self.getbitu(buf, offset, 16), offset + 16  # DF093
        eph.cic, offset = self.getbits(buf, offset, 16), offset + 16  # DF094
""", """        for name, get, width in (
            ("m0", self.getbits, 32),
            ("cuc", self.getbits, 16),
            ("e", self.getbitu, 32),
            ("cus", self.getbits, 16),
            ("sqrt_a", self.getbitu, 32),
            ("te", self.getbitu, 16),
            ("cic", self.getbits, 16),
        ):
            setattr(eph, name, get(buf, offset, width))
            offset += width
""")
r("A2", EP, """        match msgNum:
            case 1019:
                return self.__decode1019(buf)
            case 1020:
                return self.__decode1020(buf)
            case 1041:
                return self.__decode1041(buf)
            case 1042:
                return self.__decode1042(buf)
            case 1044:
                return self.__decode1044(buf)
            case 1045:
                return self.__decode1045(buf)
            case 1046:
                return self.__decode1046(buf)
            case _:
                raise ExceptionEphemerisDecoder(f"message {msgNum} is not allowed.")
""", """        if msgNum not in self.msgList:
            raise ExceptionEphemerisDecoder(f"message {msgNum} is not allowed.")
        return getattr(self, f"_EphemerisDecoder__decode{msgNum}")(buf)
""")
r("A2", EP, """        sgnMask = 1 << (length - 1)
        magnMask = sgnMask - 1
        d = self.getbitu(buf, offcet, length)
        magn = d & magnMask
        return magn if (d & sgnMask) == 0 else -magn
""", """        sign, magn = divmod(self.getbitu(buf, offcet, length), 1 << (length - 1))
        return -magn if sign else magn
""")
# base stations
r("A2", BS, """        symb = ""
        for _ in range(bs.descrLength):
            symb += hex(self.getbitu(buf, offset, 8)) + " "  # DF030
            offset += 8
        bs.descr = symb.strip()  # DF030
""", """        bs.descr, offset = self._text(buf, offset, bs.descrLength)  # DF030
""")
r("A2", BS, """        symb = ""
        for _ in range(bs.serialNumberLength):
            symb += hex(self.getbitu(buf, offset, 8)) + " "
            offset += 8  # DF033
        bs.serialNumber = symb.strip()  # DF033
""", """        bs.serialNumber, offset = self._text(buf, offset, bs.serialNumberLength)  # DF033
""")
r("A2", BS, """        msg = ""
        for _ in range(bs.unitsNum):
            msg += hex(self.getbitu(buf, offset, 8)) + " "
            offset += 8

        bs.message = msg.strip()
""", """        bs.message, offset = self._text(buf, offset, bs.unitsNum)
""")
r("A2", BS, """    def __decode10056(self, buf: bytes)""", """    def _text(self, buf: bytes, offset: int, count: int) -> tuple[str, int]:
        end = offset + 8 * count
        units = [f"{self.getbitu(buf, pos, 8):#x}" for pos in range(offset, end, 8)]
        return " ".join(units), end

    def __decode10056(self, buf: bytes)""")
r("A2", BS, """        bs = ibs.deepcopy()
        symbols = ibs.message.split()
        bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
""", """        bs = ibs.deepcopy()
        bs.message = str(bytearray(int(s, base=16) for s in ibs.message.split()), "utf-8")
""")
r("A2", BS, """        bs.validity["1C"] = bs.validity["1C"] == 1  # DF422
        bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
        bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
        bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
        bs.correction["1C"] *= 0.02  # DF423 [m]
        bs.correction["1P"] *= 0.02  # DF424 [m]
        bs.correction["2C"] *= 0.02  # DF425 [m]
        bs.correction["2P"] *= 0.02  # DF426 [m]
""", """        bs.validity = {k: v == 1 for k, v in bs.validity.items()}
        bs.correction = {k: v * 0.02 for k, v in bs.correction.items()}
""")
r("A2", BS, """            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)

        for _ in range(Nm):
            ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
            isPeriodic, offset = self.getbitu(buf, offset, 1), offset + 1  # DF056
            period, offset = self.getbitu(buf, offset, 16), offset + 16  # DF057
            bs.shedule.update({ID: (isPeriodic, period)})
""", """            Nm = (8 * (len(buf) - 6) - 70) // 29

        while Nm > 0 and offset < 24 + 70 + 29 * Nm:
            word = self.getbitu(buf, offset, 29)
            bs.shedule[word >> 17] = ((word >> 16) & 1, word & 0xFFFF)
            offset += 29
""")
# logger
r("A2", LG, """        if self.ready and self.logger is not None:
            self.logger.info(msg)
""", """        self._emit(logging.INFO, msg)
""")
r("A2", LG, """        if self.ready and self.logger is not None:
            self.logger.error(msg)
""", """        self._emit(logging.ERROR, msg)
""")
r("A2", LG, """        if self.ready and self.logger is not None:
            self.logger.log(self.PROGRESS, msg)
""", """        if self.ready:
            self._emit(self.PROGRESS, msg)
""")
r("A2", LG, """    def debug(self, msg):""", """    def _emit(self, level, msg):
        if not self.ready or self.logger is None:
            return
        self.logger.log(level, msg)

    def debug(self, msg):""")
r("A2", LG, """        logging.shutdown()
        self.logger.handlers.clear()
        self.ready = False
""", """        for handler in list(self.logger.handlers):
            self.logger.removeHandler(handler)
            handler.flush()
            handler.close()
        self.ready = False
""")
# data classes
r("A2", DC, """            if A.keys() != B.keys():
                return False

            for key in A:
                if not cls.__compare(A[key], B[key], f_tolerance):
                    return False

        elif isinstance(A, Iterable):

            for a, b in zip_longest(A, B, fillvalue=None):
                if not cls.__compare(a, b, f_tolerance):
                    return False
""", """            return A.keys() == B.keys() and all(cls.__compare(A[key], B[key], f_tolerance) for key in A)

        elif isinstance(A, Iterable):

            return len(A) == len(B) and all(cls.__compare(a, b, f_tolerance) for a, b in zip(A, B))
""")
r("A2", DC, """        ret = self.__class__()
        for key, value in self.items():
            setattr(ret, key, value)

        return ret
""", """        ret = type(self)()
        ret.__dict__.update(self.items())
        return ret
""")
# tops
r("A2", PT, """        for printer in self.printers:
            if (tp in printer.data_spec) and (tp in printer.actual_spec):
                self.__attempts_cnt += 1
                printer.print(dblock)
                self.__succeeded_cnt += 1
                break
        else:
            logger.warning(f"Printer not found, d-block {tp}")
""", """        suitable = [p for p in self.printers if tp in p.data_spec & p.actual_spec]
        if not suitable:
            logger.warning(f"Printer not found, d-block {tp}")
            return
        self.__attempts_cnt += 1
        suitable[0].print(dblock)
        self.__succeeded_cnt += 1
""")
r("A2", CV, """    msm123 = SubdecoderMSM123(bare_data=True)
    msm4567 = SubdecoderMSM4567(bare_data=True)
    eph = SubdecoderEph(bare_data=True)
    base = SubdecoderBaseStationData(bare_data=True)

    if not conv.decoder.register_decoder(msm4567.io):
        return None
    if not conv.decoder.register_decoder(msm123.io):
        return None
    if not conv.decoder.register_decoder(eph.io):
        return None
    if not conv.decoder.register_decoder(base.io):
        return None
""", """    kinds = (SubdecoderMSM4567, SubdecoderMSM123, SubdecoderEph, SubdecoderBaseStationData)
    if not all(conv.decoder.register_decoder(kind(bare_data=True).io) for kind in kinds):
        return None
""")
r("A2", CV, """        rv = ConverterStatistics()
        rv.decoding_attempts = self.decoder.dec_attempts
        rv.decoding_errors = self.decoder.dec_errors
        rv.parsing_errors = self.decoder.parse_errors
        rv.printing_attempts = self.printer.attempts
        rv.printing_errors = self.printer.errors
        return rv
""", """        return ConverterStatistics(
            self.decoder.dec_attempts,
            self.decoder.parse_errors,
            self.decoder.dec_errors,
            printing_errors=self.printer.errors,
            printing_attempts=self.printer.attempts,
        )
""")
