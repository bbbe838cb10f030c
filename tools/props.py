"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, rule, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, rule=rule, note=note,
                  state=state, observe=observe))


CORE = "Interpretation of every instruction reached from the public entry point over abstract values, joining at merges; "
TB = ("Trusted: the abstract interpreter with its library models (absint/) and the specification tables (checks/). "
      "Structure (message number, satellite/signal/cell sets, string lengths, chunk cuts) is a concrete partition parameter; every data bit, "
      "checksum bit, toggle and fault inside a partition is symbolic.")

prop("C01", "A frame is accepted exactly when its 24-bit parity matches",
     "A byte sequence that starts with the RTCM 3 preamble, six zero bits and a 10-bit length is accepted as a message if and only if the 24 bits "
     "behind its payload equal the CRC-24Q of everything before them. This holds for every payload length from 0 to 1023 bytes and every payload and "
     "parity content, so any single, double or burst error of at most 24 bits is rejected.",
     ["inputs"], "all payload contents, all payload lengths 0..1023, all parity values",
     "The tests hold a few recorded frames; a wrong table entry, a length off by one for long frames or a comparison of fewer parity bits stays invisible on valid recordings.",
     ["utilities/CRC24Q.py", "decoder_top.py", "utilities/bits.py"], [("CRC table and update", "utilities/CRC24Q.py:CRC24Q.calc"), ("acceptance test", "decoder_top.py:DecoderTop.mcrc")],
     CORE + "the guard under which a frame is emitted must equal the linear (GF(2)) definition of CRC-24Q over the header, payload and parity bits.",
     "Every payload length 0..1023 with the last bytes of the payload and the whole parity symbolic; whole payload symbolic up to 24 bytes (quick) or 40 bytes (thorough).")

prop("C02", "Only whole parity-checked frames are emitted, byte for byte",
     "Every message the framing stage hands over is a contiguous piece of the input that starts with the preamble, has exactly the length its header "
     "announces and carries a matching parity. Bytes are never altered, repeated, reordered or shared between two emitted messages.",
     ["inputs", "histories"], "all byte streams of the modelled shapes (noise, false preambles, corrupted, truncated and valid frames in any order)",
     "Recorded streams contain valid frames only; behaviour on noise and false preambles is not sampled.",
     ["decoder_top.py"], [("stream buffer and resynchronisation", "decoder_top.py:DecoderTop.catch_message")],
     CORE + "each emitted value must be, under its guard, the slice of the symbolic stream that the reference framing delimits.", "Stream shapes are enumerated, their bytes symbolic.")

prop("C03", "No valid frame is lost: framing resynchronises after damage",
     "Every frame with matching parity that is not inside an earlier accepted frame is emitted, in stream order, no matter what noise, false preambles, "
     "corrupted or truncated frames precede it, as soon as the bytes that any earlier candidate header announces have arrived.",
     ["inputs", "histories"], "all contents of the damaged parts and of the valid frames",
     "Tests feed undamaged recordings.",
     ["decoder_top.py"], [("resynchronisation", "decoder_top.py:DecoderTop.catch_message")],
     CORE + "guard of every frame of the reference framing must imply its emission, in order.", "Stream shapes are enumerated, their bytes symbolic.")

prop("C04", "Framing does not depend on chunking; each interruption counted once",
     "Feeding the same bytes in any division into chunks yields the same messages in the same order and the same parsing-error count. The parsing-error "
     "count equals the number of accepted messages that are separated from the previous accepted message by at least one unusable byte.",
     ["inputs", "histories"], "all divisions of a stream into chunks, all byte contents",
     "The tests convert files with one chunk size.",
     ["decoder_top.py"], [("carry-over of incomplete frames", "decoder_top.py:DecoderTop.catch_message"), ("parsing-error counter", "decoder_top.py:DecoderTop.parse_errors")],
     CORE + "emitted messages and error counter of every cut are compared with the one-chunk run and with the reference framing.", "Every two-way cut and byte-wise feeding of each stream shape; contents symbolic.")

prop("C05", "Bit fields are extracted exactly; reads past the end are refused",
     "Reading an unsigned, two's-complement or sign-magnitude field of a message returns exactly the value of the named bits, most significant first, for "
     "every position and width from 1 to 64 bits, and never depends on other bits. A field that does not lie completely inside the buffer is refused with an error instead of a value.",
     ["inputs"], "all bit offsets within a byte, widths 1..64, buffer contents",
     "Unit tests sample a few offsets and widths.",
     ["utilities/bits.py"], [("bit extraction", "utilities/bits.py:Bits")],
     CORE + "result must equal the positional sum of the addressed bits, term by term; overshoot must raise under guard 1.", "Buffer bits symbolic; offset and width enumerated.")

prop("C06", "Bare ephemeris records hold every transmitted field unscaled",
     "In the bare-data mode each supported satellite ephemeris message (GPS, GLONASS, Galileo F/NAV and I/NAV, BeiDou, QZSS, NavIC) produces one record whose "
     "fields are the integers of the standard's bit layout, with the standard's signedness, for every bit pattern of the message.",
     ["inputs"], "all bit patterns of messages 1019, 1020, 1041, 1042, 1044, 1045, 1046",
     "Tests hold one recorded sample per message type; a field shifted by a bit or read unsigned is invisible when the sample's bits agree.",
     ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py"], [("field tables", "sub_decoders/RTCM_EPH.py")],
     CORE + "every record field must be the exact sum of its message bits.", "All payload bits symbolic.")

prop("C07", "Scaled ephemeris records carry the standard's units",
     "In the scaled mode each ephemeris field equals the transmitted integer times the scale factor of its data field (angles stay in the standard's "
     "semicircles, coded indices and flags stay as transmitted, GLONASS frame time becomes seconds), for every bit pattern, and no field is dropped or taken from another one.",
     ["inputs"], "all bit patterns of messages 1019, 1020, 1041, 1042, 1044, 1045, 1046",
     "One sample per message; table lookups and sign handling have many cases the sample does not reach.",
     ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py"], [("scaling", "sub_decoders/RTCM_EPH.py")],
     CORE + "every record field must be the specified linear form (or table) of its message bits; coefficients compared with 1e-12 relative tolerance.", "All payload bits symbolic.")

prop("C08", "Bare base-station records hold every transmitted field",
     "In the bare-data mode each supported base-station message (1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230) produces one record with the integers and "
     "text bytes at the positions the standard defines, for all field values, string lengths (including empty strings), announcement counts and signal masks.",
     ["inputs"], "all bit patterns; string lengths 0..255, 0..31 announcements, all 16 bias masks (partition parameters)",
     "Tests hold one or two samples per message.",
     ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py"], [("field tables", "sub_decoders/RTCM_BASE.py")],
     CORE + "every record field must be the exact sum (or text) of its message bits.", "Lengths and masks enumerated, everything else symbolic.")

prop("C09", "Scaled base-station records carry the standard's units",
     "In the scaled mode coordinates, antenna height, transmission intervals and code-phase biases equal the transmitted integers times their data field's resolution, "
     "flags and indicators carry their documented meaning and texts are the transmitted characters; an undecodable text rejects the message.",
     ["inputs"], "all bit patterns; string lengths, announcement counts and bias masks as partition parameters",
     "Tests hold one or two samples per message.",
     ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py"], [("scaling", "sub_decoders/RTCM_BASE.py")],
     CORE + "every record field must be the specified linear form (or table or text) of its message bits.", "Lengths and masks enumerated, everything else symbolic.")

prop("C10", "Bare MSM records hold every header, satellite and signal field",
     "In the bare-data mode each MSM1..MSM7 message of GPS, GLONASS, Galileo, SBAS, QZSS, BeiDou and NavIC produces one record whose header, satellite and signal "
     "arrays are exactly the transmitted integers in the standard's order, for every satellite mask, signal mask and cell mask with at most 64 cells.",
     ["inputs"], "all field values; satellite, signal and cell masks as partition parameters",
     "Test data covers MSM4, MSM5 and MSM7 of some systems only.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "gnss_types/observables.py"], [("MSM unpacking", "sub_decoders/RTCM_MSM.py")],
     CORE + "every array element must be the exact sum of its message bits.", "Masks enumerated, all fields symbolic.")

prop("C11", "Scaled MSM observables are reconstructed as the standard defines",
     "Code range, carrier phase range, phase-range rate, lock time, half-cycle flag and carrier-to-noise ratio of every transmitted cell equal the standard's combination of "
     "rough and fine fields with the standard's resolution, are attributed to the cell's satellite and signal, and header time, day and indicators are those of the message.",
     ["inputs"], "all field values; masks as partition parameters",
     "Test data covers a few epochs of some message types; full-resolution lock-time table, negative fine values and rare masks are not sampled.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py"], [("reconstruction", "sub_decoders/RTCM_MSM.py")],
     CORE + "every observable must be the specified linear form of its cell's bits, with the specified presence guard.", "Masks enumerated, all fields symbolic.")

prop("C12", "A reserved 'invalid' field value suppresses exactly its observable",
     "When a rough or fine MSM field carries the value the standard reserves for 'not available', exactly the observables that need this field are absent from the scaled "
     "record for that satellite and signal; all other observables of the message, and all observables whose fields are valid, are present.",
     ["inputs"], "all combinations of valid and invalid field values in a message",
     "Recorded data rarely contains the reserved values, never all combinations.",
     ["sub_decoders/RTCM_MSM.py"], [("invalid markers", "sub_decoders/RTCM_MSM.py")],
     CORE + "presence guard of every observable must equal the conjunction of 'field is not reserved' over the fields it needs.", "Masks enumerated, all fields symbolic.")

prop("C13", "Signal IDs map to the right RINEX code and carrier frequency",
     "Every signal ID the standard assigns for a GNSS is reported under its RINEX observation code and nominal carrier frequency (GLONASS per slot in the column files), and a scaled message that "
     "contains an unassigned signal ID is rejected and counted instead of yielding data under another code.",
     ["inputs"], "all 7 GNSS x 32 signal IDs, singly and in pairs, in every position of the signal mask",
     "Test data contains a dozen of the signals.",
     ["utilities/RTCM_utilities.py", "sub_decoders/RTCM_MSM.py", "printers/margo_printer.py"], [("signal tables", "utilities/RTCM_utilities.py")],
     CORE + "record keys and frequencies compared with the standard's tables.", "All signal IDs enumerated; cell data symbolic.")

prop("C14", "Messages whose length contradicts their content are rejected",
     "A supported message that is shorter than its own content requires yields no record, in every mode, and is counted as one decoding error; an MSM whose length is not the one its masks "
     "require, that has more than 64 cells, or has satellites but no cells, is rejected the same way.",
     ["inputs"], "all truncations and extensions of every supported message; all masks of the partition",
     "Tests contain no damaged message with valid parity.",
     ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "utilities/bits.py"],
     [("length check", "sub_decoders/RTCM_MSM.py"), ("bounds check", "utilities/bits.py:Bits")],
     CORE + "the guard of 'a record was produced' must be false for every inconsistent length and the error counter must grow by one.", "Lengths and masks enumerated, all fields symbolic.")

prop("C15", "One bad message never stops or distorts the rest; all are counted",
     "Whatever a message contains, processing it never raises out of the converter and never prevents or alters the conversion of any other message. Attempts count every supported message once, "
     "decoding errors every attempt that produced no record, printing attempts every record, and printing errors every record that could not be saved.",
     ["inputs", "histories"], "all sequences of good, damaged, unknown and unsupported messages of the modelled shapes, all bit contents",
     "Tests convert clean recordings and read no counters.",
     ["decoder_top.py", "printer_top.py", "converter_top.py"], [("exception barrier", "decoder_top.py:catch_decoder_exceptions"), ("statistics", "converter_top.py:Converter.get_statistics")],
     CORE + "exception paths are collected with their guards: none may leave the public methods; counters must equal the sum of the specified guards.", "Message kinds enumerated, contents symbolic.")

prop("C16", "A message's record depends on that message alone",
     "The record produced for a message is the same whatever messages, of whatever type and content, were processed before it by the same converter or by other converters in the process; no record handed over earlier changes when later messages are decoded.",
     ["histories", "inputs"], "all pairs and selected longer sequences of message types; all contents",
     "Tests decode one file per converter and compare final products only.",
     ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "decoder_top.py"], [("decoder state", "sub_decoders/RTCM_MSM.py")],
     CORE + "records of the last message must mention no bit variable of an earlier message, and earlier records must be unchanged.", "Sequences enumerated, contents symbolic.")

prop("C17", "Every output mode routes each message type as documented",
     "MARGO mode writes only observables as column files, JSON and JSON-B write every supported message type as JSON, and JARGO writes observables as column files and ephemeris and station data as JSON; "
     "each record goes to the one file of its system, message type and mode, and unsupported message types produce nothing and are not counted. The location the JSON printer announces for a source and message number is where its product is written.",
     ["inputs", "configurations"], "all 64 supported message numbers x 4 modes",
     "Tests run three of the modes on a few message types.",
     ["converter_top.py", "printer_top.py", "decoder_top.py", "printers/json_printer.py", "printers/margo_printer.py"], [("mode strategies", "converter_top.py"), ("printer selection", "printer_top.py:PrinterTop.print")],
     CORE + "set of written files and their contents compared with the specification per message number and mode.", "Message numbers and modes enumerated, contents symbolic.")

prop("C18", "JSON products are valid arrays with one record per message in order",
     "Each JSON file, once the converter is released, is one well-formed JSON array whose first element names the record type and whose further elements are the records of all successfully decoded messages of that file, "
     "complete, each exactly once and in stream order; this holds in pretty and compact view and for any number of messages.",
     ["inputs", "histories", "configurations"], "all message contents, both views, sequences of the partition",
     "Tests compare a few files with references.",
     ["printers/json_printer.py"], [("array framing", "printers/json_printer.py:PrintJSON")],
     CORE + "the abstract text of every file is parsed; structure must be valid under every presence guard and elements equal the specified records.", "Sequences enumerated, contents symbolic.")

prop("C19", "MARGO files hold the right value in the right row and column",
     "Each signal and parameter has its own column file with a header of satellite numbers and carrier frequencies; every decoded observables message adds exactly one row per affected file, in stream order, "
     "with one column per satellite holding the observable in the documented unit (metres, cycles, hertz, dBHz) and 'nan' where the message has no valid value.",
     ["inputs", "histories"], "all observable values and presence patterns; satellites and signals of the partition",
     "Tests compare two recordings with references.",
     ["printers/margo_printer.py", "DOCs/OutputFormats.md"], [("row assembly", "printers/margo_printer.py:PrintMARGO")],
     CORE + "the abstract text of every row is split into columns, each must be the specified formatted linear form under the specified guard.", "Satellites and signals enumerated, field values symbolic.")

prop("C20", "MARGO time marks are GPS time of week for every system",
     "The time mark of each row is the message epoch converted to milliseconds of the GPS week: unchanged for GPS-time systems, plus 14 s with week wrap for BeiDou, and for GLONASS day and time of day minus 3 h plus the "
     "configured GPS-UTC shift with week wrap.",
     ["inputs", "configurations"], "all epoch values, all GLONASS days, GPS-UTC shifts of the partition",
     "Week and day roll-over occur in no recording.",
     ["printers/margo_printer.py"], [("time conversion", "printers/margo_printer.py")],
     CORE + "the time column must be the specified piecewise linear form of the header bits.", "Epoch bits symbolic.")

prop("C21", "Half-cycle and lock-time switches affect exactly their files",
     "With the half-cycle switch off, carrier phases flagged as half-cycle ambiguous appear as 'nan' and no ambiguity file is written; with it on, all phases are written together with ambiguity files. "
     "The lock-time switch decides only whether lock-time files exist. Neither switch changes any other value or file.",
     ["configurations", "inputs"], "both switches x all MSM types x all flag patterns",
     "Tests run one setting.",
     ["printers/margo_printer.py"], [("switches", "printers/margo_printer.py:PrintMARGO")],
     CORE + "files and columns compared with the specification for all four settings.", "Flags and values symbolic.")

prop("C22", "JSON view switches remove exactly the section they name",
     "Switching header or auxiliary data off removes exactly that section from observables records, and pretty view changes white space only; every other key and value of every record is unaffected.",
     ["configurations", "inputs"], "8 settings x message types x all contents",
     "Tests run one setting.",
     ["printers/json_printer.py"], [("section filter", "printers/json_printer.py")],
     CORE + "records compared key by key with the specification for all eight settings.", "Contents symbolic.")

prop("C23", "Controls come complete from the configuration files or nothing runs",
     "Conversion takes place only if the default configuration provides all 24 GLONASS frequency numbers, the GPS-UTC shift and all five switches; otherwise every source is aborted with a log entry and no product. "
     "Each control has exactly the configured value, a user configuration file overrides exactly the entries it contains, and a missing user file changes nothing.",
     ["configurations"], "all subsets of present options, all option values, all override patterns",
     "Tests use the shipped configuration only.",
     ["controls.py", "run_conversion.py", "defaults.ini"], [("reading controls", "controls.py:ConverterControls"), ("abort", "run_conversion.py:main")],
     CORE + "configuration content is abstract (presence of each section and option and each value symbolic); acceptance guard and every control value compared with the specification.", "Option presence, values and overrides all symbolic; program level per missing option.")

prop("C24", "The program touches nothing outside its own work folders",
     "Converting a source creates, overwrites or deletes files only inside the folder named after the source (path without extension, dash, mode), which is emptied first; sources, configuration and every other file and folder stay as they were. "
     "If that folder cannot be emptied or created nothing is written for the source.",
     ["fault_sequences", "inputs"], "all combinations of failing deletions, folder creations and file openings; path shapes of the partition",
     "Tests never look outside the products and never make the file system fail.",
     ["run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py", "logger.py"], [("work folder", "run_conversion.py:create_work_folder")],
     CORE + "every file system effect with its guard and path must lie below a work folder; initial files must keep their state under every fault valuation.", "Faults symbolic; effects that the models do not know are reported as undecided.")

prop("C25", "Products are finalised on every way out; I/O faults are counted",
     "However a conversion ends (end of file, unreadable source, read error, user interrupt, output that cannot be created), all files it opened are closed, every JSON product is a complete array with the records decoded so far, and the program goes on with the next source. "
     "Records that cannot be saved are counted and leave other products untouched, and an aborted conversion is reported as terminated, never as error-free.",
     ["fault_sequences", "crash_points"], "all combinations of faults at opening, every read and every output file or folder creation",
     "Tests inject no faults.",
     ["run_conversion.py", "converter_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
     [("finally block", "run_conversion.py:decode_rtcm_file"), ("close", "printer_top.py:PrinterTop.close")],
     CORE + "typestate of every file handle (opened implies closed at exit, as guards), well-formedness of JSON text and final report under symbolic fault variables.", "Faults symbolic; failing writes and close are outside the fault model.")

prop("C26", "A source is converted completely and its final report is truthful",
     "Every message of a source file up to its last byte is converted, in file order, whatever the file size and wherever message boundaries lie relative to the reading block. "
     "The run is reported as finished without errors if and only if it had no parsing, decoding or printing error, and the last progress line gives the exact totals.",
     ["inputs", "histories"], "all corruption patterns of the messages, all contents; file layouts around block boundaries as partition",
     "Test files have fixed layouts and no errors.",
     ["run_conversion.py", "converter_top.py", "decoder_top.py"], [("reading loop", "run_conversion.py:decode_rtcm_file"), ("final report", "run_conversion.py:main")],
     CORE + "products, log effects and totals of a complete program run compared with the specification under symbolic corruption of each message.", "Layouts enumerated; contents and corruption symbolic.")

prop("C27", "Record comparison and copying are faithful",
     "Comparing two decoded ephemeris or station records yields true exactly when they have the same type and every field, nested ones included, agrees: integers, flags and texts exactly, floating values within the relative tolerance irrespective of sign. "
     "Comparison never raises for records of different types, and copies carry all fields and are independent of the original.",
     ["inputs"], "all subsets of differing fields of every record class, symbolic integer and text values; floating values per case table",
     "Tests compare equal records only.",
     ["gnss_types/data_class_methods.py", "gnss_types/ephemeris.py", "gnss_types/base_station.py"], [("comparison", "gnss_types/data_class_methods.py:DataClassMethods.compare")],
     CORE + "guard of a true comparison must equal the conjunction of the field equalities.", "Floating tolerance decided on a table of sign/magnitude cases, the rest symbolic.")

prop("C28", "Batch conversion treats each source as if it were alone",
     "In a run over several sources (whose folder names differ) each existing, selected source gets the same products, report and log as when converted alone, in its own folder, whatever the other sources contain and even if others are missing or fail; unselected files are not touched. "
     "Repeated runs in one process do not influence each other.",
     ["histories", "fault_sequences"], "batches of the partition, all contents, faults of other sources",
     "Tests convert one file per run.",
     ["run_conversion.py", "logger.py", "converter_top.py"], [("batch loop", "run_conversion.py:main"), ("logger", "logger.py:LoggerConsFile")],
     CORE + "products, final report and log routing of every source of a batch compared with its stand-alone specification.", "Sources with distinct work folders; contents and corruption symbolic.")

prop("C31", "Message numbers are classified as the standard assigns them",
     "For every message number the classifiers return the system letter and subset of the RTCM standard: MSM1..MSM7 of the seven systems, ephemerides, legacy GPS and GLONASS observables; every other number yields a pair of empty strings. "
     "An observables record carries exactly the system, subset and number of the message it came from, and exactly the one matching is_msmN flag is true.",
     ["inputs"], "every non-negative message number below 2^20; every MSM number for the records",
     "Tests look up a few numbers; a range or table slip for one number stays unseen.",
     ["utilities/RTCM_utilities.py", "gnss_types/observables.py", "sub_decoders/RTCM_MSM.py"], [("classifiers", "utilities/RTCM_utilities.py:getSubset"), ("attributes", "gnss_types/observables.py:Attributes")],
     CORE + "result of each classifier under a fully symbolic number compared with the standard's table.", "Numbers symbolic (20 bits).")

prop("C32", "No message is lost silently",
     "While the log is open, every message long enough to carry a number that yields no record leaves an entry in the log file that names its number: unsupported types any entry, rejected messages of supported types a warning or error that is also shown on the console. "
     "Every record that cannot be saved leaves an error entry, and a message that is decoded and saved leaves no error entry.",
     ["inputs", "fault_sequences"], "all contents of every message type, rejected and accepted, all combinations of output faults",
     "Tests do not look at the log.",
     ["decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "printers/json_printer.py", "printers/margo_printer.py", "logger.py"],
     [("decoder reports", "decoder_top.py:DecoderTop.decode"), ("log channels", "logger.py:LoggerConsFile.init_2CH")],
     CORE + "guard of the log effects caused by a message compared with the guard under which it yields no record or no product.", "Message structure enumerated; contents and output faults symbolic.")

prop("C33", "Only complete sub-decoders and sub-printers take part",
     "A sub-decoder or sub-printer that is not of the interface type, still has a stub method or declares nothing is refused with False and an error entry and is never called; a complete one is accepted and gets exactly the messages or records it declares. "
     "A printer without a supported format refuses everything, and the factory returns a converter exactly for the documented modes.",
     ["inputs", "histories"], "every sub-decoder and sub-printer with every single defect; all declared subsets of the partition",
     "Tests register complete components only.",
     ["decoder_top.py", "printer_top.py", "converter_top.py"], [("decoder registration", "decoder_top.py:DecoderTop.register_decoder"), ("printer registration", "printer_top.py:PrinterTop.add_subprinter"), ("factory", "converter_top.py:ConverterFactory")],
     CORE + "result, log effects, counters and later use of every registration compared with the interface contract.", "Defects enumerated; message contents symbolic.")

prop("C34", "The command line selects mode, configuration and sources exactly",
     "Without options a run converts to MARGO with the default configuration; -o/--output, -i/--ini and -ext select the mode, the user configuration and the extension searched in a folder, in any order. Exactly the named (or, for a folder, the chosen) files are converted. "
     "An unsupported mode, an unknown option, an option without value or a missing source ends the program before anything on disk is touched.",
     ["inputs"], "option spellings and orders of the partition, called with an argument string and from the shell, all file contents",
     "Tests call main() with one fixed argument string.",
     ["run_conversion.py", "controls.py"], [("argument parser", "run_conversion.py:create_argument_parser"), ("source list", "run_conversion.py:make_list_of_source_files")],
     CORE + "products and file system effects of a run compared with what the command line asks for.", "Command lines enumerated; file contents symbolic.")

NA = [
    ("C29", "Floating-point results are correctly rounded",
     "Scaled values are the correctly rounded (last-bit exact) results of the standard's formulas.", ["inputs"], "all field values",
     "Rounding of concrete float expressions depends on evaluation order; samples cannot settle it.",
     ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py"], [("scaling", "sub_decoders/RTCM_MSM.py")],
     "Static value analysis compares coefficients with a relative tolerance of 1e-12 (printed columns 1e-9); bounding the accumulated rounding of every evaluation order needs a floating-point error analysis this machinery does not have, and the repository documents no accuracy."),
    ("C30", "Memory and time stay bounded on endless streams",
     "Memory use and processing time per input byte stay bounded for arbitrarily long input.", ["inputs", "histories"], "unbounded streams",
     "Resource use depends on run-time sizes that tests cannot exhaust.",
     ["decoder_top.py", "run_conversion.py"], [("stream buffer", "decoder_top.py:DecoderTop.catch_message")],
     "Run-time resource quantities (buffer growth, quadratic slicing) over unbounded streams; no sound static bound is in reach for this dynamic code."),
]


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": an}) + "\n")
        for n in NA:
            f.write(json.dumps({"id": n[0], "title": n[1], "statement": n[2], "quantifier": {"over": n[3], "text": n[4]}, "why_tests_cant": n[5],
                                "anchors": {"files": n[6], "mechanism": [{"name": a, "where": b} for a, b in n[7]]}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                       "technique": TECH.get(p["id"], "abstract interpretation (bit-provenance dataflow) of the source"), "level": "other",
                       "level_note": p["note"] + " " + TB} for p in P],
           "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
           "notes": "No hooks in /repo; the checks read /repo's source text and never import or execute it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


TECH = {
    "C01": "abstract interpretation over GF(2)-linear bit functions",
    "C15": "abstract interpretation with exception-flow analysis",
    "C16": "abstract interpretation; dependence (non-interference) of records on message bits",
    "C23": "abstract interpretation over symbolic configuration presence and values",
    "C24": "effect analysis by abstract interpretation with symbolic faults",
    "C25": "typestate and exception-flow analysis by abstract interpretation with symbolic faults",
    "C32": "effect analysis (log effects) by abstract interpretation with symbolic faults",
    "C33": "abstract interpretation of the registration protocol (interface contract)",
    "C34": "effect analysis by abstract interpretation of complete runs",
    "C28": "effect and dependence analysis by abstract interpretation",
}

if __name__ == "__main__":
    write()
