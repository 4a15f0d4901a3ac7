#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay readable and diffable)."""
import json, os
P = []
CF, CFG, CH = "procmon_parser/configuration_format.py", "procmon_parser/configuration.py", "procmon_parser/construct_helper.py"
INI, LOG, SLF, SLD, SH, CO = ("procmon_parser/__init__.py", "procmon_parser/logs.py", "procmon_parser/stream_logs_format.py",
    "procmon_parser/stream_logs_detail_format.py", "procmon_parser/stream_helper.py", "procmon_parser/consts.py")

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A dumped configuration loads back unchanged",
  "For every configuration made of the documented Procmon options with values in their documented ranges, plus options of unknown name given as raw bytes, dumping it to PMC and loading the result yields the same option names in the same order with equal values: integers, width and column arrays, paths, fonts, rule lists and raw bytes. "
  "This holds both through bytes and through a stream, wherever in the stream the dump starts.",
  ["inputs"], "all configurations: any subset and order of options, any integer 0..2^32-1, any list length, any text without trailing NULs (including non-BMP and embedded digits of any length), any rule list, any start offset of the stream",
  "The tests dump two tiny dictionaries and one captured file; round-tripping is a statement about every value of every option type and every order.",
  [CF, CH, CFG], [("RawRecordStruct", CF), ("RulesStruct / RuleStructAdapter", CF), ("FontStructAdapter", CF), ("FixedUTF16CString, FixedArray, OriginalEnumAdapter", CH)],
  [("records", "ordered option name -> value", "load_configuration / dump_configuration")], ["loads_configuration(dumps_configuration(c))", "dump_configuration to a stream, then load_configuration"])

p("C02", "Re-dumping a loaded PMC reproduces it byte for byte",
  "For every PMC file in the layout Procmon writes (reserved fields zero, each rule carrying its numeric value), loading it and dumping the result reproduces the file exactly: no option, rule, column, string terminator or unknown option is lost, reordered or altered.",
  ["inputs"], "all well-formed PMC byte strings built from the documented record layout, including unknown options and empty values",
  "One captured file is re-dumped by the tests; losing something rare (an empty string, an unknown option, a last rule) needs other files.",
  [CF, CH], [("RawRecordStruct", CF), ("get_rule_integer_value", CF), ("FixedBytes", CH)], (), ["dumps_configuration(loads_configuration(b)) == b"])

p("C03", "A dump is a well-formed PMC record sequence",
  "A dumped configuration is exactly the concatenation of one documented record per option in iteration order: little-endian sizes that agree with the emitted bytes, NUL-terminated UTF-16 name, option-specific data. "
  "Each rule carries the byte length of its value (0 for an empty one) and a numeric value: the number when the text consists of digits (and fits 32 bits), 32 or 64 for a non-numeric architecture rule, otherwise 0; what is written does not depend on the position at which the sink starts and does not disturb bytes outside it.",
  ["inputs"], "all configurations, all start offsets of the sink, sinks with existing content",
  "The tests never compare generated bytes with the documented layout except for one captured configuration; sizes are back-patched through absolute offsets, so position matters.",
  [CF, CH], [("size back-patching via Tell/Pointer", CF), ("get_rule_integer_value", CF), ("FixedUTF16CString empty case", CH)], (), ["dumps_configuration(c)", "dump_configuration(c, stream)"])

p("C04", "A truncated PMC yields its complete records; a corrupt one is refused",
  "If a PMC file is cut at any byte, loading it yields exactly the options whose records lie completely before the cut, each with its full value, and never a partial or invented option. "
  "A record whose declared total size differs from the sum of its parts, or whose fixed header size is wrong, makes loading raise instead of returning a configuration.",
  ["inputs", "crash_points"], "every cut position of every well-formed PMC, and every single-field corruption of the declared sizes",
  "No test loads a damaged configuration; the behaviour at each cut depends on which nested reader hits the end of data.",
  [CF, CH], [("StreamError ends the record loop", "load_configuration"), ("CheckCustom record size", CF), ("FixedArray / FixedBytes", CH)], (), ["loads_configuration(b[:k])", "load_configuration(stream)"])

p("C05", "Rules are values: construction, equality, hashing, type checks",
  "A filter rule built from column, relation and action names in any letter case, from the enum members, or from their numeric values is the same rule: equal, same hash, same text; a part that is not given is the default one (architecture, is, \"64-bit\", include), and a rule one part of which is given anew is the rule with that part; rules differing in any of the four parts are unequal, and comparison with other types is False. "
  "Names or numbers outside the vocabulary and non-text values are refused at construction, and dumping refuses rule lists or text options of the wrong type instead of writing them.",
  ["inputs"], "all columns x relations x actions x values, all spellings of each, all wrong-typed values",
  "The tests compare three rules and two wrong types; the vocabulary has 28 columns, 8 relations and 2 actions.",
  [CFG, CF, CO, CH], [("Rule.__init__/__eq__/__hash__", CFG), ("Column/RuleRelation/RuleAction", CO), ("UnicodeStringAdapter", CH)], (), ["Rule(...)", "==, !=, hash, str, repr", "dumps_configuration"])

p("C06", "Only cleanly closed, supported PML files can be opened",
  "Opening a log succeeds exactly when the file carries the PML signature, a supported version, non-zero offsets for the events, event index, process, string, icon and network tables and the documented header size; otherwise opening raises and no reader is produced. "
  "A missing signature, a capture that was not closed cleanly and a damaged header are reported as PMLError, an unsupported version as NotImplementedError; a truncated header also never opens, and a file that does not begin with the signature, however short, is reported as PMLError.",
  ["inputs", "crash_points"], "all single and combined header faults, every truncation point of the header",
  "The tests only open intact logs.",
  [SLF, LOG, INI], [("Header.__init__ checks", SLF), ("PMLError", LOG)], (), ["ProcmonLogsReader(f)", "read_all_events_from_pml(f)"])

p("C07", "Every way of reaching an event yields the same event",
  "A reader is a fixed sequence of events: its length is the recorded event count, iteration delivers every event once, in index order, and then stops for good, and indexing (negative too), slicing and bulk reading follow Python sequence rules, raising IndexError outside the range and TypeError for non-indexes. "
  "The event delivered for a position never depends on which calls were made before, on how calls to the iterator and to indexing are interleaved, on other readers (on the same or another stream), on where the stream was left, or on the kind of binary stream.",
  ["histories", "inputs"], "all interleavings of len/next/index/slice/processes/system-details calls over one or several readers, all indexes and slices, all stream kinds and stream positions between calls",
  "Tests iterate each log once from start to end; they never index, slice, repeat, interleave or share a stream.",
  [INI, LOG, SLF], [("_current_event_index", INI), ("PMLStructReader.__getitem__", LOG), ("get_event_at_offset seeks absolutely", SLF)],
  [("cursor", "index of the next event to deliver", INI), ("stream position", "shared mutable position of the file", SLF)], ["next(r)", "r[i]", "r[a:b:c]", "len(r)", "read_all_events_from_pml"])

p("C08", "A failed or foreign access never corrupts later reads",
  "If reading one event fails (its record cannot be decoded, or the stream raises), the error reaches the caller, every other event can still be read with its correct content, and iteration continues with the following event. "
  "Changing a delivered event (its details, stack trace or fields) never changes what later reads deliver.",
  ["fault_sequences", "histories"], "any position and number of undecodable events, an I/O error at any stream operation, any mutation of a delivered event, followed by any further calls",
  "Tests never inject a fault or mutate an event.",
  [INI, SLF, LOG, SLD], [("cursor advances before decoding", INI), ("read_event builds fresh objects", SLF), ("absolute seeks per event", SLF)], (), ["next(r)", "r[i]", "event.details"])

p("C09", "Log content does not depend on its physical layout",
  "Two PML files that record the same content deliver the same events, processes and system details no matter where and in which order the tables, strings, process records, event records and extra-detail blocks are placed, what the unused and reserved bytes between and inside them contain, and how far into the file (offsets of 2 GiB and beyond) they lie. "
  "Event order is the order of the event index, not of the records in the file.",
  ["inputs", "configurations"], "all placements and permutations of tables, records and extra-detail blocks, gap contents, reserved-field contents, event-index flags and file offsets",
  "All captured logs have the one layout Procmon.exe produced; offsets above 2^31 never occur.",
  [SLF], [("Header offsets", SLF), ("EventOffsetsArray", SLF), ("StringsTable / ProcessTable relative offsets", SLF), ("extra_details_offset", SLF)], (), ["ProcmonLogsReader over differently laid out files"])

p("C10", "Common event fields are reported exactly as recorded",
  "For every event record, on 32-bit and 64-bit captures, the reported process, thread id, event class, operation, duration, timestamp, result code and stack trace (all frames, in recorded order, full pointer width) equal the recorded ones over the whole range of each field. "
  "Operation names follow the event class's own vocabulary, and an event refers to the process whose recorded index it carries, not to a position.",
  ["inputs"], "all values of every fixed field, all stack depths, all class/operation pairs, both pointer sizes",
  "The captured logs contain small pids, positive values and shallow stacks; full-range fields never appear.",
  [SLF, SH, CO], [("read_event / CommonEventStruct", SLF), ("EventClassOperation", CO), ("get_pvoid_reader", SH)], (), ["event.tid, .event_class, .operation, .duration, .date_filetime, .result, .stacktrace, .process"])

p("C11", "Processes and modules are resolved exactly",
  "The reader lists every recorded process once, in table order, each with its recorded identifiers, session, authentication id, times, flags and the texts its string indexes refer to, and with all of its modules (addresses, sizes, timestamp, texts) in order, for both pointer sizes. "
  "An event's process is the one recorded under its index; an event whose index the table does not hold is refused, not given another process. "
  "This does not depend on process index values being dense, ordered or small, on strings being shared, or on the size of the string table.",
  ["inputs"], "all process tables, index assignments, string tables and module lists for 32-bit and 64-bit captures",
  "Tests check five attributes of one process and a count.",
  [SLF, LOG], [("ProcessTable.__read_process/__read_module", SLF), ("StringsTable", SLF)], (), ["reader.processes()", "event.process"])

p("C12", "System details reflect the log header",
  "Computer name, system root, operating system (product name by Windows version, service pack when present, build numbers), logical processor count, memory in GB (never rounded up, within 0.01 GB) and bitness reported for a log are those recorded in its header, for every documented Windows version and every text length up to the field capacity.",
  ["inputs"], "all header field values: both bitnesses, the five Windows versions, with and without a service pack, any memory size and processor count",
  "Tests check two headers.",
  [LOG, SLF], [("system_details / _get_os_name", LOG), ("Header.__init__", SLF)], (), ["reader.system_details()"])

p("C13", "Network events name both endpoints and all details",
  "For every network event the operation carries the right protocol, the path is source -> destination with each host shown by its recorded name or else its numeric IPv4 or uncompressed IPv6 address and each port by its recorded name for that protocol or else its number, and the details are the length followed by every recorded key/value pair in order.",
  ["inputs"], "all combinations of IPv4/IPv6 on each side, TCP/UDP, known and unknown hosts and ports, any number of key/value pairs, all ten operations",
  "The captured logs hold about 600 network events, with few hosts and few shapes.",
  [SLD, SLF], [("get_network_event_details", SLD), ("__hostname_idx/__port_idx", SLF), ("HostnamesTable/PortsTable", SLF), ("read_utf16_multisz", SH)], (), ["event.operation, event.path, event.details"])

p("C14", "Registry key events are decoded exactly",
  "For every key-level registry event (open, create, close, query, enumerate, set-info, delete, flush, load, unload, rename, security) the path and the details equal what the record encodes: requested and granted access, disposition, query kind and the fields of its information block, enumeration index, length when no block was recorded, key set-information class with its payload, hive path or new name, and nothing else.",
  ["inputs"], "all registry key operations x information classes x presence of the extra block x field values x path forms",
  "Captured logs cover few information classes, and no set-info payloads, rename or unload events.",
  [SLD, CO], [("get_registry_event_details and its handler table", SLD)], (), ["event.path, event.details"])

p("C15", "Registry value data is decoded by its type",
  "For every value-level registry event (set, query, enumerate) the details give the index (enumeration), the value name where recorded, the type name, the length, and the data decoded by type: 32/64-bit numbers, text up to its terminator, binary bytes limited to the length, multi-strings in order; data is empty for types without a decoder or numbers cut short, and absent when the length is zero. "
  "An unknown type is shown by number.",
  ["inputs"], "all value types x information classes x lengths x contents, including data cut short, unterminated text and data placed anywhere in the block",
  "Captured logs mostly hold short strings and dwords; short, unterminated or gapped data is rare.",
  [SLD, SH, CO], [("read_registry_data", SLD), ("get_registry_query_or_enum_value_extra_details / set_value", SLD), ("read_utf16_multisz", SH)], (), ["event.details"])

p("C16", "File create, read, write and mapping events are decoded exactly",
  "For every file system event the path is the recorded one and the operation is the specific sub-operation when one is recorded, marked unknown when it has no name. "
  "File creation reports access, disposition, options, attributes, share mode, allocation size only where it applies, impersonated SID and open result; reads and writes report signed 64-bit offset, actual length when recorded, I/O flags and priority; mapping reports sync type and page protection; delete-disposition reports its flag - all equal to the record's fields on 32-bit and 64-bit captures.",
  ["inputs"], "all operations and sub-operation codes, all field values, both pointer sizes, with and without extra block and SID",
  "Captured logs exercise common dispositions, small offsets and few SIDs.",
  [SLD, CO], [("get_filesystem_event_details", SLD), ("get_filesystem_create_file_details / read_write / create_file_mapping / setdisposition", SLD)], (), ["event.operation, event.path, event.details"])

p("C17", "Directory listings and control requests are decoded exactly",
  "A directory query reports its filter (also joined to the path with exactly one separator), its information class and every returned entry name, in order and numbered consecutively, for each of the six directory information layouts and any entry chain; change notification reports its filter flags. "
  "Device and file system control requests report the control's symbolic name or its decoded number, plus the lengths and offsets that control carries.",
  ["inputs"], "all six layouts x chain lengths x paddings x name lengths x filter presence, all control codes known and unknown, both pointer sizes",
  "One of the six layouts (names plus ids) never occurs in the captured logs, and only a fraction of the 240 control codes does.",
  [SLD, CO], [("get_filesystem_query_directory_details", SLD), ("get_filesystem_notify_change_directory_details", SLD), ("get_filesystem_ioctl_details", SLD), ("get_ioctl_name", CO)], (), ["event.path, event.details"])

p("C18", "Process and thread events are decoded exactly",
  "Process definition/creation, start (parent, command line, directory, every environment string), exit and statistics (status, times, memory counters), thread creation and exit, and image loads report exactly the values and texts recorded, each under its own name, over the full range of each field and for both pointer sizes.",
  ["inputs"], "all values of every field, all text lengths and encodings, all variable-size prefixes, both pointer sizes",
  "Captured logs contain no definition or statistics events in the compared columns, and small values.",
  [SLD, SH], [("ProcessSpecificOperationHandler", SLD)], (), ["event.path, event.details"])

p("C19", "Every rendering of time is exact",
  "The datetime of an event and its exported date, time of day, relative time, duration and completion time denote exactly the recorded 100-nanosecond timestamp and duration (the datetime truncated to microseconds) for every date from 1970 to 9999; exported times are UTC in every local time zone and the local datetime differs only by the zone offset. "
  "Duration and completion time are blank exactly when the result is blank, and relative time is measured from the given first event (or the event itself), also beyond 24 and 100 hours.",
  ["inputs", "configurations"], "all timestamps and durations, all reference timestamps not after the event, local time zones",
  "The captured logs span minutes on three days in one time zone.",
  [LOG], [("Event.date", LOG), ("_strftime_date/_strftime_relative_time/_strftime_duration", LOG), ("get_compatible_csv_info", LOG)], (), ["event.date()", "event.get_compatible_csv_info(first)"])

p("C20", "The CSV record equals Procmon's export rules",
  "The export record of any event has exactly the 27 documented columns, and each holds the event's value under Procmon's export rules: texts and identifiers verbatim, result names or upper-case hexadecimal, flags, authentication id, architecture and class spelled as Procmon does. "
  "The Detail column lists the details in order, with thousands separators, hexadecimal, bytes, joined lists and suppressed fields applied to precisely the operations and keys for which Procmon does so.",
  ["inputs"], "all events over all classes, operations, results and detail shapes",
  "Tests compare columns on captured logs only; most result codes and many detail shapes never occur there.",
  [LOG, CO], [("get_compatible_csv_info", LOG), ("_get_compatible_csv_detail_column", LOG), ("_ErrorCodeMessages / ColumnToOriginalName", CO)], (), ["event.get_compatible_csv_info()"])

p("C21", "Parsing options only remove what they name",
  "Opening a log without stack traces changes nothing but the stack traces, which become empty. "
  "Opening it without details changes no other common field of any event (process, thread, class, operation, times, result, stack trace) nor the path of any event other than a directory query, and every detail that is still delivered equals the one delivered with details.",
  ["inputs", "configurations"], "all four option combinations x all events, 32-bit and 64-bit",
  "Only a benchmark script uses the options.",
  [SLF, SLD, INI], [("should_get_stacktrace skips by seeking", SLF), ("should_get_details gates", SLD)], (), ["ProcmonLogsReader(f, should_get_stacktrace, should_get_details)"])

p("C22", "Events, processes and modules are values; rendering them is pure",
  "Reading the same position twice gives equal events with equal hashes, objects differing in any recorded field are unequal, and equality with foreign types is False. "
  "Exporting, printing, hashing or dating an event never changes it, in any order and number of calls, and always gives the same answer.",
  ["inputs", "histories"], "all events, processes and modules, all sequences of rendering calls",
  "Tests render each event once and never compare before and after.",
  [LOG], [("details.copy() before formatting", LOG), ("__eq__/__hash__", LOG)], (), ["==, !=, hash", "str, repr", "get_compatible_csv_info, date"])

p("C23", "Texts are decoded whole and never bleed",
  "Every text a log carries - fixed header fields, string table entries, host and port names, event paths and names in their one-byte or two-byte form, directory entries, registry texts, environment and key/value lists - is delivered complete up to its terminator or declared length and never includes bytes of a neighbouring field. "
  "UTF-16 is decoded including supplementary characters, ill-formed units become the replacement character, and empty texts stay empty.",
  ["inputs"], "all lengths including zero, maximum and odd positions, terminated and unterminated, any code units, in every place a text occurs",
  "Captured logs hold only well-terminated, mostly ASCII texts.",
  [SH, SLD, SLF], [("read_utf16", SH), ("read_utf16_multisz", SH), ("read_detail_string/_info", SLD)], (), ["system_details, processes, event.path, event.details"])

p("C24", "The category of an event is decided by what it did",
  "Each event's category is empty or one of Read, Write, Read Metadata, Write Metadata, determined by its operation and, where needed, its outcome: registry opens and creates are writes only if a key was created, file creates are writes exactly when the open result (or, without a known result, the disposition) says something was written, control requests follow their control code, a delete disposition is a write only when set.",
  ["inputs"], "all operations x dispositions x open results (present, absent, unknown) x control codes",
  "Tests compare the category on the combinations present in the captured logs only.",
  [SLD], [("event.category assignments", SLD)], (), ["event.category"])

p("C25", "Flag words are named completely, once, in order",
  "The text for an access mask, option, attribute, share, I/O or notification flag word names, in the documented order, each composite right that is fully present (which accounts for all of its bits) and every remaining recognised bit exactly once, with generic rights expanded to what they grant. "
  "A word without any recognised bit renders as the documented placeholder, and unrecognised bits never change the names of recognised ones.",
  ["inputs"], "all 2^32 (2^24, 2^16) flag words for each vocabulary",
  "The captured logs contain a few dozen distinct masks.",
  [CO], [("_get_mask_string / _get_access_mask_string", CO), ("mask tables", CO)], (), ["event.details['Desired Access'], ['Options'], ['Attributes'], ['ShareMode'], ['I/O Flags'], ['Filter']"])

p("C26", "Printed events, processes and modules name their fields",
  "Printing an event gives the documented line - process name, process id, operation, quoted path and UTC time to 100 ns in 12-hour form - printing its process gives the quoted image path and the process id, and printing a module gives the quoted path, address and size in hexadecimal, each field verbatim, whatever characters or values it holds. "
  "Printing does not depend on the local time zone, on how the event was reached, or on which parts of the record were requested.",
  ["inputs", "configuration"], "all texts (braces, percent signs, quotes, supplementary characters, empty), all numbers, all timestamps from 1970 to 9999, all time zones",
  "No test prints an event, a process or a module.",
  [LOG, "README.md"], [("Event.__str__ / Process.__str__ / Module.__str__", LOG), ("_strftime_date", LOG)], (), ["str(event), str(event.process), str(module)"])

p("C27", "Logs read in one process never mix",
  "What a log delivers - events, processes, system details - is a function of that log's own bytes and the reader's options, whatever other logs are open, were read or were dropped earlier in the process, in whatever order their calls interleave. "
  "In particular the names of addresses and ports, the string table, the process table and all caches belong to one log.",
  ["histories", "inputs"], "all pairs and triples of logs (also ones with the same numbers and other texts), all interleavings of the calls on their readers",
  "The tests read logs that have nothing in common, and compare each only with its own export.",
  [INI, SLF], [("ProcmonLogsReader", INI), ("PMLStreamReader tables", SLF)], (), ["next(r)", "r[i]", "r.processes()", "r.system_details()"])

p("C28", "A configuration is the caller's own to edit",
  "A loaded configuration is an ordered dictionary that belongs to the caller alone: setting, replacing, deleting or reordering options, editing the lists of rules, columns and widths in place, and changing fields of a rule or font make it dump accordingly, the order of the options included, and change no other configuration, not even one loaded from the same bytes before or after. "
  "Dumping never changes its argument, and dumping again gives the same bytes.",
  ["histories", "inputs"], "all sequences of loads, edits, dumps and reloads of several configurations",
  "The tests load, compare and dump; none edits a configuration that was loaded, and none looks at one again after dumping it.",
  [CF, CH, CFG], [("load_configuration / dump_configuration", CF), ("list and adapter structs", CH)], (), ["load_configuration", "dump_configuration"])

p("C29", "Events are values made of their parts",
  "An event built through the constructors from the parts of delivered events (class as name, member or number; operation as name or member; process the same or rebuilt, with any truth value for 64-bit), an event's copy, deep copy or unpickled pickle, and an event one field of which was assigned, say in every field, rendering and CSV record exactly what their parts say, and equal another event exactly if all parts are equal. "
  "Nothing done to one shows in another that does not share that part, nor in what readers deliver; a constructor argument not given has its documented default, every object its own.",
  ["inputs", "histories"], "all combinations of parts of delivered events, all spellings of the constructor arguments, all sequences of building, copying and assigning, interleaved with reading",
  "No test builds, copies or assigns to an event; the parser's own use of the constructors exercises one spelling.",
  [LOG], [("Event.__init__ / Process.__init__ / Module.__init__", LOG), ("__eq__/__hash__ over __dict__", LOG)], (), ["Event(...), Process(...), Module(...)", "copy.copy, copy.deepcopy, pickle", "event.field = value"])

p("C30", "Readers and configurations used from different threads do not meet",
  "Readers over streams of their own and the events they deliver, and configurations loaded or dumped, may be used from different threads: whatever the interleaving of the steps the calls make, every call answers what it would answer alone, in the order of its own thread. "
  "Nothing one call is in the middle of - a position, a buffer, a table being built, a partial record or configuration - is seen or moved by another.",
  ["schedules", "histories", "inputs"], "all interleavings of the steps of calls on different readers, of loads and of dumps, for two to four threads",
  "The tests run in one thread.",
  [INI, SLF, SLD, CF, CFG], [("ProcmonLogsReader", INI), ("PMLStreamReader tables and read_event", SLF), ("get_event_details scratch streams", SLD), ("load_configuration / dump_configuration", CF)], (), ["next(r)", "r[i]", "ProcmonLogsReader(f)", "load_configuration", "dump_configuration"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 2 and len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
