RC, DT, MSM, JP, MP, BITS, CT = "run_conversion.py", "decoder_top.py", "sub_decoders/RTCM_MSM.py", "printers/json_printer.py", "printers/margo_printer.py", "utilities/bits.py", "converter_top.py"

# --- framing: generator over a bytearray ------------------------------------------------------
r("A3", DT, '''        self._tail = b""
        self._skipped_some_bytes''', '''        self._tail = bytearray()
        self._skipped_some_bytes''')
r("A3", DT, '''        ret_list = []
        self._tail = b"".join([self._tail, chunk])
        search_finished = self._tail == b""

        while not search_finished:

            tail_0 = len(self._tail)
            # Check/move synchro byte to [0] position
            tail_length = self.__rebase_to_D3()

            # Check, whether any bytes were skipped after synch had already happened
            if (
                (not self._skipped_some_bytes)
                and (tail_length < tail_0)
                and (self._synchronized)
            ):
                self._skipped_some_bytes = True
                self._synchronized = False  # re-synched and CRC not checked

            # Check, whether full message available
            if tail_length < 6:  # not enough data to decode
                search_finished = True
                msg_length = 0
            else:
                msg_length = self.mlen(self._tail)
                search_finished = msg_length > tail_length

            # Check CRC
            if not search_finished:
                if self.mcrc(self._tail):
                    # Extract message
                    ret_list.append(self._tail[0:msg_length])
                    self._tail = self._tail[msg_length:]
                    # Check, if there were any errors before this message
                    # Anomalies between messages with successive CRC encountered
                    # Anomalies before the first and after the last successive CRC are skipped
                    if self._skipped_some_bytes:
                        self.__pars_err_cnt += 1
                        self._skipped_some_bytes = False
                    # Set synchro mark
                    self._synchronized = True
                else:
                    # Shift out 'D3' and go to the next iteration.
                    # Error will be encountered during the next iteration
                    self._tail = self._tail[1:]

        return ret_list
''', '''        self._tail.extend(chunk)
        return list(self._frames())

    def _frames(self):
        """Yield complete messages, drop them from the tail."""
        while self._tail:
            before = len(self._tail)
            after = self.__rebase_to_D3()
            if self._synchronized and after < before and not self._skipped_some_bytes:
                self._skipped_some_bytes, self._synchronized = True, False
            if after < 6 or (size := self.mlen(self._tail)) > after:
                return
            if not self.mcrc(self._tail):
                del self._tail[0]
                continue
            frame = bytes(self._tail[:size])
            del self._tail[:size]
            self.__pars_err_cnt += int(self._skipped_some_bytes)
            self._skipped_some_bytes = False
            self._synchronized = True
            yield frame
''')
r("A3", DT, '''        if self._tail == b"":
            return 0

        tail_len = len(self._tail)
        synch_ok = self._tail[0] == 0xD3

        # Trivial case.
        if tail_len == 1:
            return 1 if synch_ok else 0

        # Have some more data. Check additional 6 bits
        if synch_ok and (self._tail[1] & 0xFC) != 0:
            synch_ok = False

        if synch_ok:
            return tail_len

        # Acquire 'D3' byte. Main search loop
        ptr = 1
        while not synch_ok:
            ofs = self._tail.find(bytes.fromhex("D3"), ptr)
            if ofs == -1:
                self._tail = b""
                break
            elif ofs == tail_len - 1:
                self._tail = self._tail[ofs : ofs + 1]
                synch_ok = True
            else:
                if (self._tail[ofs + 1] & 0xFC) == 0:
                    # rebase left border to 'D3'
                    self._tail = self._tail[ofs:]
                    synch_ok = True
                else:  # skip this "0xD3", find next one
                    ptr = ofs + 1
        else:
            pass

        return len(self._tail)
''', '''        tail = self._tail
        if len(tail) == 1:
            return int(tail[0] == 0xD3)

        for pos, byte in enumerate(tail):
            if byte != 0xD3:
                continue
            if pos + 1 == len(tail) or tail[pos + 1] >> 2 == 0:
                del tail[:pos]
                break
        else:
            tail.clear()

        return len(tail)
''')
r("A3", DT, '''        if not isinstance(io, SubDecoderInterface):
            logger.error(f"Incorrect 'io' type in {type(io)}")
        elif io.decode == SubDecoderInterface.default_decode:
            logger.error(f"Virtual method 'decode' not defined in {type(io)}")
        elif len(io.actual_messages) == 0:
            logger.error(
                f"Empty message list. Update or delete subdecoder {type(io)}"
            )
        else:
            self.decoders.update({io.subset: io})
            rv = True

        return rv
''', '''        if not isinstance(io, SubDecoderInterface):
            logger.error("Incorrect 'io' type in %s" % (type(io),))
            return rv
        if io.decode == SubDecoderInterface.default_decode:
            logger.error("Virtual method 'decode' not defined in %s" % (type(io),))
            return rv
        if not io.actual_messages:
            logger.error("Empty message list. Update or delete subdecoder {}".format(type(io)))
            return rv
        self.decoders[io.subset] = io
        return True
''')
r("A3", DT, '''        for dec in self.decoders.values():
            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):
                # Decode
                self.__dec_attempts += 1
                rv = dec.decode(msg)
                if not isinstance(rv, dec.io_spec[num]):
                    raise ExceptionDecoderDecode(
                        f"Decoder {dec.subset} returned unexpected result for msg {num}"
                    )
                self.__dec_succeeded += 1
                break
        else:
            logger.info(f"Decoder not found, message {num}")

        return rv
''', '''        able = (d for d in self.decoders.values() if num in d.actual_messages and num in d.io_spec)
        dec = next(able, None)
        if dec is None:
            logger.info(f"Decoder not found, message {num}")
            return None

        self.__dec_attempts += 1
        rv = dec.decode(msg)
        expected = dec.io_spec[num]
        if isinstance(rv, expected):
            self.__dec_succeeded += 1
            return rv
        raise ExceptionDecoderDecode(f"Decoder {dec.subset} returned unexpected result for msg {num}")
''')
r("A3", DT, '''        data_len = Bits.getbitu(buf, 14, 10) + 3
        crc_calc = CRC24Q.calc(buf[0:data_len])
        crc_get = Bits.getbitu(buf, data_len * 8, 24)
        return crc_calc == crc_get
''', '''        end = Bits.getbitu(buf, 14, 10) + 3
        body, parity = bytes(buf[:end]), bytes(buf[end : end + 3])
        if len(parity) < 3:
            return Bits.getbitu(buf, end * 8, 24) == CRC24Q.calc(body)
        return int.from_bytes(parity, "big") == CRC24Q.calc(body)
''')
# --- bits ------------------------------------------------------------------------------------
r("A3", BITS, '''        acc = int(0)
        for i in range(start_byte, finish_byte):
            acc = acc * 256 + buf[i]
        # Clean extra bits
        acc = acc >> (finish_byte * 8 - finish_pos)
        mask = (int(1) << length) - 1
        return acc & mask
''', '''        acc = int.from_bytes(memoryview(buf)[start_byte:finish_byte], byteorder="big")
        return (acc >> (-finish_pos % 8)) % (1 << length)
''')
# --- run_conversion --------------------------------------------------------------------------
r("A3", RC, '''    f = None

    try:
        f = open(fpath, "rb")

        logger.info(f"Opened file {fpath}.")
        file_size = os.path.getsize(fpath)
        bytes_processed = 0

        chunk = f.read(FILE_CHUNCK_LEN)
        while len(chunk):

            bytes_processed += len(chunk)
            rtcm3_lines = converter.parse_bytes(chunk)

            for msg in rtcm3_lines:
                xblock = converter.decode(msg)
                if xblock is not None:
                    converter.print(xblock)

            aux_data = converter.get_statistics()
            logger.progress(
                "{0:2.2%}, {1:d} messages, prs-dec-prnt errors {2:d}-{3:d}-{4:d}.".format(
                    float(bytes_processed) / float(file_size),
                    aux_data.decoding_attempts,
                    aux_data.parsing_errors,
                    aux_data.decoding_errors,
                    aux_data.printing_errors,
                )
            )

            chunk = f.read(FILE_CHUNCK_LEN)
''', '''    f = None

    def chunks(source):
        while block := source.read(FILE_CHUNCK_LEN):
            yield block

    try:
        f = open(fpath, mode="rb")

        logger.info("Opened file %s." % fpath)
        file_size = os.stat(fpath).st_size
        bytes_processed = 0

        for chunk in chunks(f):
            bytes_processed += len(chunk)
            for block in map(converter.decode, converter.parse_bytes(chunk)):
                if block is None:
                    continue
                converter.print(block)

            stat = converter.get_statistics()
            share = bytes_processed / file_size
            errors = "-".join(map(str, (stat.parsing_errors, stat.decoding_errors, stat.printing_errors)))
            logger.progress(f"{share:2.2%}, {stat.decoding_attempts} messages, prs-dec-prnt errors {errors}.")
''')
r("A3", RC, '''    except KeyboardInterrupt:
        logger.error("Processing terminated by the user.")
        return False
    except FileNotFoundError as fe:
        logger.error("Got FileNotFoundError exception.")
        logger.error(f"{type(fe)}: {fe}")
        return False
    except Exception as ex:
        logger.error("Got unexpected exception.")
        logger.error(f"{type(ex)}: {ex}")
        return False
    finally:
        converter.release()

        if not f is None:
            logger.info(f"Closing file {fpath}.")
            f.close()
        else:
            logger.info(f"Source file {fpath} wasn't opened.")

    return True
''', '''    except KeyboardInterrupt:
        logger.error("Processing terminated by the user.")
        done = False
    except Exception as ex:
        known = isinstance(ex, FileNotFoundError)
        logger.error("Got FileNotFoundError exception." if known else "Got unexpected exception.")
        logger.error(f"{type(ex)}: {ex}")
        done = False
    else:
        done = True
    finally:
        converter.release()

        if f:
            logger.info(f"Closing file {fpath}.")
            f.close()
        else:
            logger.info(f"Source file {fpath} wasn't opened.")

    return done
''')
r("A3", RC, '''    fld, _ = os.path.splitext(src_file_path)
    fld = fld + "-" + postfix
    # Remove directory, if exists
    if os.path.isdir(fld):
        try:
            shutil.rmtree(fld)
        except OSError as oe:
            print("There was an error during directory deletion.")
            print(f"{type(oe)}: {oe}")
            return None

    # Create new empty directory
    try:
        os.makedirs(fld)
        print("Created work folder.")
        return fld
    except OSError as oe:
        print("Work folder wasn't created")
        print(f"{type(oe)}: {oe}")
        return None
''', '''    fld = "-".join((os.path.splitext(src_file_path)[0], postfix))
    stage = "There was an error during directory deletion."
    try:
        # Remove directory, if exists
        if os.path.isdir(fld):
            shutil.rmtree(fld)
        stage = "Work folder wasn't created"
        os.makedirs(fld)
    except OSError as oe:
        print(stage, f"{type(oe)}: {oe}", sep="\\n")
        return None
    print("Created work folder.")
    return fld
''')
r("A3", RC, '''    src_is_dir = False
    if len(f_arguments) == 1:
        path = os.path.abspath(f_arguments[0])
        src_is_dir = (not os.path.isfile(path)) and os.path.isdir(path)

    files = []
    # If not directory, check files in args.source
    # for consistency and fill list of files.
    if not src_is_dir:
        for path in f_arguments:
            full_path = os.path.abspath(path)
            if os.path.isfile(full_path):
                files.append(full_path)
            else:
                print(f"{full_path} is not a file.")
    # If f_arguments[0] is a directory, interact with the user.
    else:
        fpattern''', '''    paths = list(map(os.path.abspath, f_arguments))
    src_is_dir = len(paths) == 1 and os.path.isdir(paths[0])

    files = []
    # If not directory, check files in args.source
    # for consistency and fill list of files.
    if not src_is_dir:
        for path in paths:
            if not os.path.isfile(path):
                print(path, "is not a file.")
        files.extend(filter(os.path.isfile, paths))
    # If f_arguments[0] is a directory, interact with the user.
    else:
        fpattern''')
r("A3", RC, '''    for fpath in files:

        print("-" * 80)
        print(f"Started decoding: {fpath}")

        # Create work folder. Work folder will have the same name as source file.
        # There would be an empty text file in it to log decoding process.
        wfld = create_work_folder(fpath, output_format)
        if not wfld:
            continue

        # Init logger
        lfile = os.path.join(wfld, make_log_file_name(fpath))
        init_logger(lfile)

        # Check availability of controls
        if boxed_controls is None:
            logger.error("Conversion aborted. No valid controls.")
            logger.deinit()
            continue

        # Create converter.
        cf = ConverterFactory(output_format)
        converter = cf(wfld, boxed_controls)
        if converter is None:
            logger.error("Conversion aborted. Converter hasn't been created.")
            logger.deinit()
            continue

        if decode_rtcm_file(fpath, converter):
            err = converter.get_statistics()
            if (
                err.parsing_errors
                or err.decoding_errors
                or err.printing_errors
            ):
                logger.progress("Finished with errors.")
            else:
                logger.progress("Finished without errors.")
        else:
            logger.error("Decoding was terminated.")

        logger.deinit()
''', '''    for fpath in files:

        print("-" * 80)
        print(f"Started decoding: {fpath}")

        # Create work folder. Work folder will have the same name as source file.
        # There would be an empty text file in it to log decoding process.
        wfld = create_work_folder(fpath, output_format)
        if wfld:
            init_logger(os.path.join(wfld, make_log_file_name(fpath)))
            convert_one(fpath, wfld, output_format, boxed_controls)
            logger.deinit()


def convert_one(fpath: str, wfld: str, output_format: str, controls) -> None:
    """Convert one file into its work folder"""

    if controls is None:
        logger.error("Conversion aborted. No valid controls.")
        return

    if (converter := ConverterFactory(output_format)(wfld, controls)) is None:
        logger.error("Conversion aborted. Converter hasn't been created.")
        return

    if not decode_rtcm_file(fpath, converter):
        logger.error("Decoding was terminated.")
        return

    err = converter.get_statistics()
    failed = any((err.parsing_errors, err.decoding_errors, err.printing_errors))
    logger.progress("Finished {} errors.".format("with" if failed else "without"))
''')
# --- MSM -------------------------------------------------------------------------------------
r("A3", MSM, '''        if atr.is_msm1 or atr.is_msm2 or atr.is_msm3:
            self.bd = BareObservablesMSM123()
        elif atr.is_msm4 or atr.is_msm5 or atr.is_msm6 or atr.is_msm7:
            self.bd = BareObservablesMSM4567()
        else:
            raise ExceptionBareDataStructure(f"Message {atr.msg_number} not supported.")
''', '''        kind = {
            **dict.fromkeys(("MSM1", "MSM2", "MSM3"), BareObservablesMSM123),
            **dict.fromkeys(("MSM4", "MSM5", "MSM6", "MSM7"), BareObservablesMSM4567),
        }.get(atr.subset)
        if kind is None:
            raise ExceptionBareDataStructure(f"Message {atr.msg_number} not supported.")
        self.bd = kind()
''')
r("A3", MSM, '''        # Make list of satellites
        self.sat_list = tuple(
            (i + 1 for i in range(0, 64) if (src.hdr.sat_mask & (1 << i)))
        )
''', '''        # Make list of satellites
        bits = f"{src.hdr.sat_mask:064b}"[::-1]
        self.sat_list = tuple(n for n, b in enumerate(bits, 1) if b == "1")
''')
r("A3", MSM, '''        # Delete empty frequency slots.
        for sgn in self.sgn_map:
            if 0 == len(rv.obs.dpl[sgn]):
                del rv.obs.dpl[sgn]
            if 0 == len(rv.obs.rng[sgn]):
                del rv.obs.rng[sgn]
            if 0 == len(rv.obs.c2n[sgn]):
                del rv.obs.c2n[sgn]
            if 0 == len(rv.obs.phs[sgn]):
                del rv.obs.phs[sgn]
            if 0 == len(rv.obs.ltm[sgn]):
                del rv.obs.ltm[sgn]
            if 0 == len(rv.obs.hca[sgn]):
                del rv.obs.hca[sgn]
''', '''        # Delete empty frequency slots.
        for group in (rv.obs.dpl, rv.obs.rng, rv.obs.c2n, rv.obs.phs, rv.obs.ltm, rv.obs.hca):
            for sgn in [s for s, cells in group.items() if not cells]:
                group.pop(sgn)
''')
r("A3", MSM, '''            # Pass through signals of satellite 'sat'
            i = 0
            while slots:

                # sgn - RINEX literal - code of signal
                sgn = self.sgn_map[i]
                i += 1
                slotExist = slots & 0x01
                slots = slots >> 1

                if slotExist == 0:
                    continue

                # Make fine code range
                if rng_ok:
                    if checkers''', '''            # Pass through signals of satellite 'sat'
            for i, sgn in enumerate(self.sgn_map):

                if not (slots >> i) & 1:
                    continue

                # Make fine code range
                if rng_ok:
                    if checkers''')
# --- printers ---------------------------------------------------------------------------------
r("A3", JP, '''        if isinstance(iblock, ObservablesMSM):
            data_string = self.core.ObservablesMSMtoPrintBuffer(iblock)
            msgNum = iblock.atr.msg_number
        elif isinstance(
            iblock, (BareObservablesMSM4567, BareObservablesMSM123)
        ):
            data_string = self.core.BareObservablesMSMtoPrintBuffer(iblock)
            msgNum = iblock.atr.msg_number
        elif True is self.core.is_json_dataclass(iblock):
            data_string = self.core.dataClassToPrintBuffer(iblock)
            msgNum = getattr(iblock, "msgNum")
        else:
            raise AssertionError(
                f"JSON printer does not support {self.__src_obj_type}"
            )
''', '''        match iblock:
            case ObservablesMSM():
                make, msgNum = self.core.ObservablesMSMtoPrintBuffer, iblock.atr.msg_number
            case BareObservablesMSM4567() | BareObservablesMSM123():
                make, msgNum = self.core.BareObservablesMSMtoPrintBuffer, iblock.atr.msg_number
            case _ if self.core.is_json_dataclass(iblock):
                make, msgNum = self.core.dataClassToPrintBuffer, iblock.msgNum
            case _:
                raise AssertionError(f"JSON printer does not support {self.__src_obj_type}")
        data_string = make(iblock)
''')
r("A3", JP, '''        if len(self.__ofiles):
            for itm in self.__ofiles.values():
                if isinstance(itm, io.TextIOWrapper):
                    itm.write("\\r]")
                    itm.close()
        self.__ofiles = {}
''', '''        files, self.__ofiles = self.__ofiles, {}
        for itm in files.values():
            with itm:
                itm.write("\\r]")
''')
r("A3", JP, '''            obs = {s: getattr(pdata.obs, s) for s in pdata.obs.__slots__}
            hdr = {s: getattr(pdata.hdr, s) for s in pdata.hdr.__slots__}
            aux = {s: getattr(pdata.aux, s) for s in pdata.aux.__slots__}

            summary = {}

            if self.ctrls.enable_hdr_data:
                summary.update({"hdr": hdr})

            if self.ctrls.enable_aux_data:
                summary.update({"aux": aux})

            summary.update({"obs": obs})
''', '''            wanted = [("hdr", self.ctrls.enable_hdr_data), ("aux", self.ctrls.enable_aux_data), ("obs", True)]
            summary = {
                name: dict((s, getattr(part, s)) for s in part.__slots__)
                for name, part in ((n, getattr(pdata, n)) for n, on in wanted if on)
            }
''')
r("A3", MP, '''        for slot, obs in pdata.obs.rng.items():
            fn = self.make_obs_file_name(gnss, "C", slot, pdata.atr.subset)
            if fn == "":
                continue

            values = pattern[:]
            for sat in range(1, max_sats + 1):
                value = obs[sat] if sat in obs.keys() else "NaN"
                values.append(value)

            rv.update({fn: values})
''', '''        for slot, obs in pdata.obs.rng.items():
            if fn := self.make_obs_file_name(gnss, "C", slot, pdata.atr.subset):
                rv[fn] = [time, *(obs.get(sat, "NaN") for sat in range(1, max_sats + 1))]
''')
r("A3", MP, '''                if not sat in obs.keys():
                    values.append("NaN")
                    continue

                # Mesaurement available.
                # Is ambiguity allowed?
                if self.HC_EN:
                    amb_ok = True
                # check hca indicator if not allowed
                elif slot in pdata.obs.hca.keys():
                    # .hca not empty - extract indicator
                    if sat in pdata.obs.hca[slot].keys():
                        # Is ambiguity absent?
                        amb_ok = not pdata.obs.hca[slot][sat]
                    else:
                        # No data about ambiguity, unexpected condition.
                        amb_ok = False
                else:
                    # hca is absent, amb. supposed to be resolved
                    amb_ok = True

                value = obs[sat] / lam[sat - 1] if amb_ok else "NaN"
                values.append(value)
''', '''                flags = pdata.obs.hca.get(slot)
                usable = self.HC_EN or flags is None or not flags.get(sat, True)
                values.append(obs[sat] / lam[sat - 1] if usable and sat in obs else "NaN")
''')
r("A3", MP, '''        all_saved = True
        for f, observables in pbuf.items():
            ptype = f[1]  # C, L, D, S,...
            # Make textual representation of values
            column_format = self.core.FORMAT(ptype)
            obs_string = self.core.format_obs_string(
                observables, *column_format
            )
            all_saved = self.__append(f, obs_string) and all_saved

        assert all_saved, "MARGO: some observables were not saved."
''', '''        lines = {
            name: self.core.format_obs_string(row, *self.core.FORMAT(name[1]))
            for name, row in pbuf.items()
        }
        saved = [self.__append(name, text) for name, text in lines.items()]
        assert all(saved), "MARGO: some observables were not saved."
''')
r("A3", MP, '''        if ofile not in self.__ofiles.keys():
            if self.__create_ofile(ofile):
                h1, h2 = self.core.make_header(ofile)
                self.__ofiles[ofile].write(h1)
                self.__ofiles[ofile].write(h2)
            else:
                return False

        self.__ofiles[ofile].write(line)
        return True
''', '''        if ofile not in self.__ofiles:
            if not self.__create_ofile(ofile):
                return False
            self.__ofiles[ofile].writelines(self.core.make_header(ofile))

        print(line, end="", file=self.__ofiles[ofile])
        return True
''')
r("A3", CT, '''        rv = ConverterStatistics()
        rv.decoding_attempts = self.decoder.dec_attempts
        rv.decoding_errors = self.decoder.dec_errors
        rv.parsing_errors = self.decoder.parse_errors
        rv.printing_attempts = self.printer.attempts
        rv.printing_errors = self.printer.errors
        return rv
''', '''        dec, prn = self.decoder, self.printer
        return ConverterStatistics(
            dec.dec_attempts, dec.parse_errors, dec.dec_errors, printing_errors=prn.errors, printing_attempts=prn.attempts
        )
''')
