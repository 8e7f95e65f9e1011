"""Writes /verif/properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "In-place standardizing is all-or-nothing at every instant",
 "While `clevercsv standardize --in-place` runs, the named file holds, at every instant, either exactly its original bytes or exactly the complete standardized bytes, with the permission bits it had before, whatever file-system error, interrupt, process kill or power loss happens and wherever it happens. "
 "A reader that opens the file at any moment therefore sees one whole version, and running the command again after a crash completes the conversion.",
 ["inputs", "crash_points", "fault_sequences"],
 "every input file, layout (same or different file system for temporary files, symbolic links), and every crash or error at any system call, including loss of writes that were not flushed to disk",
 "The tests run the command once, without any fault, and look at the end state only.",
 ["clevercsv/console/commands/standardize.py", "clevercsv/utils.py"],
 [("temporary file plus rename", "clevercsv/console/commands/standardize.py: StandardizeCommand._in_place")],
 [("target path", "the user's only copy of the data", "file system"), ("temporary file", "standardized copy being built", "file system")],
 ["bytes of the target after every system call", "bytes reachable after a simulated power loss"])

prop("C02", "Standardizing conserves every record and reports honestly",
 "Whenever `clevercsv standardize` reports success (to a file, to standard output or in place, with or without transposing), its output is valid RFC-4180 CSV that holds exactly the cells of every record of the input, in order, as read with the detected dialect. "
 "With --in-place it returns 2 exactly when the bytes of the file changed and 0 exactly when they did not; when any read or write fails it does not report success. When nothing fails, and the input reads under the detected dialect and the result can be written in the target encoding (that of standard output, when it goes there), it does report success, whatever the locale. This holds for every combination of input, output, encoding and file-system fault, including an output path that is the input file.",
 ["inputs", "configurations", "fault_sequences"],
 "every table (ragged and empty rows, quotes, newlines, wide characters), mode, encoding, aliasing of input and output, and fault at any system call",
 "The tests compare a handful of small fixed files in a fault-free run.",
 ["clevercsv/console/commands/standardize.py", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/utils.py", "src/cparser.c"],
 [("record copy loop", "StandardizeCommand._write_direct/_write_transposed"), ("change test", "utils.sha1sum")],
 observe=["exit status", "bytes of output, stdout and input"])

prop("C03", "Failed, interrupted or abandoned operations leave nothing behind",
 "When reading, detecting, writing or standardizing fails, is interrupted while it reads or writes data, or (for the streaming readers) is abandoned part way, no file handle opened by the operation stays open and no temporary file stays anywhere. "
 "An in-place conversion that succeeds also leaves no temporary file and keeps the permission bits of the file.",
 ["inputs", "fault_sequences", "crash_points"],
 "every operation, every failing system call (except one that prevents the clean-up itself), an interrupt at any data transfer, and abandonment after any number of records",
 "The tests do not inject failures and do not count handles or left-over files.",
 ["clevercsv/console/commands/standardize.py", "clevercsv/wrappers.py", "clevercsv/encoding.py", "clevercsv/utils.py"],
 [("context managers", "wrappers.py, encoding.py, utils.py"), ("clean-up of the temporary file", "StandardizeCommand._in_place")],
 observe=["open descriptors before/after", "directory listings before/after", "st_mode"])

prop("C04", "Reads are complete or fail, however the bytes arrive",
 "Reading or analysing a file (as a table, as dictionaries, streamed or not, as a data frame, its dialect, its encoding) returns the same result no matter how the operating system splits, delays or interrupts the transfers, and the result covers the whole file. "
 "If any transfer fails the call raises an exception instead of returning a shortened result; records a streaming reader handed out before the failure are a prefix of the true records. Limiting the number of characters used for detection never changes which records are returned, only the dialect they are read with.",
 ["inputs", "fault_sequences", "configurations"],
 "every file content, dialect, encoding, size around buffer boundaries, detection sample size, and every sequence of short reads, interrupted calls and read errors",
 "The tests read small files that arrive in one transfer and never fail.",
 ["clevercsv/wrappers.py", "clevercsv/encoding.py", "clevercsv/read.py", "clevercsv/dict_read_write.py", "src/cparser.c"],
 [("read whole file / sample, rewind, parse", "wrappers.stream_table, stream_dicts, detect_dialect"), ("block loop", "encoding.get_encoding")],
 observe=["returned rows, dicts, dialect, encoding", "exceptions"])

prop("C05", "Writes are complete or fail, and read back unchanged",
 "When writing a table, dictionaries or individual rows returns normally, the file holds every row, and reading it back with the same dialect gives exactly the cells that were written (in text form); if the source of the rows or any write, flush or close fails, the call raises and what is in the file is a prefix of the full output. "
 "A table that is rejected because its rows differ in length, or that has no rows, leaves an existing file untouched.",
 ["inputs", "configurations", "fault_sequences"],
 "every table, dialect the writer accepts, encoding, and every sequence of short writes, full disk, I/O errors at write or close",
 "The tests write small tables to a healthy disk.",
 ["clevercsv/wrappers.py", "clevercsv/write.py", "clevercsv/dict_read_write.py", "clevercsv/dialect.py"],
 [("validate, open, write all rows, close", "wrappers.write_table, write_dicts"), ("dialect conversion", "dialect.SimpleDialect.to_csv_dialect")],
 observe=["bytes in the file", "exceptions"])

prop("C06", "Readers deliver every record exactly once, in order and lazily",
 "A reader over any source of lines yields each record of the source exactly once and in order, under any mix of next(), for loops and list(), and counts the records it has delivered; the dictionary reader does the same with the header it was given or found. "
 "Delivering a record consumes only the lines that make up that record, so endless or slow sources can be streamed, and an exception raised by the source reaches the caller unchanged; if no line of the next record had been consumed when it was raised and the source can go on, reading goes on with that record. A field longer than the field size limit, a NUL or a non-text line is reported as an error and never returned as data.",
 ["inputs", "histories", "fault_sequences"],
 "every line source, dialect, interleaving of consumption styles, and source failure at any line",
 "The tests consume short lists of lines in one go.",
 ["clevercsv/read.py", "clevercsv/dict_read_write.py", "clevercsv/cparser_util.py", "src/cparser.c"],
 [("pull one line at a time", "src/cparser.c: Parser_iternext"), ("iterator protocol", "read.reader, dict_read_write.DictReader")],
 [("parser state", "state machine position and field buffer between lines", "src/cparser.c ParserObj")],
 ["records per call", "lines pulled per record", "exceptions"])

prop("C07", "Independent callers in different threads do not influence each other",
 "Detecting dialects and encodings, reading, writing and standardizing from several threads at once, on independent data, gives each thread exactly the result it gets when running alone, under every interleaving. "
 "Threads may share read-only inputs such as a dialect object or the detector object.",
 ["schedules", "inputs"],
 "every interleaving of two or more threads running any mix of operations on independent data",
 "The tests are single-threaded.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/cparser_util.py", "clevercsv/wrappers.py", "clevercsv/detect_type.py", "src/cparser.c"],
 [("no shared mutable state during detection", "consistency.ConsistencyDetector, cparser_util.parse_string")],
 [("field size limit", "process-wide limit consulted by every parser", "cparser_util._FIELD_SIZE_LIMIT")],
 ["per-thread results and exceptions", "process-wide settings afterwards"])

prop("C08", "Calls leave process-wide and caller-owned state as they found it",
 "No detection, read, write or command changes the field size limit, the dialect registry of the standard csv module, warning filters, the working directory, the environment, the standard streams, or any object the caller passed in (dialects, rows, dictionaries, option lists), whatever the outcome: success, error in the data, I/O failure or interrupt. "
 "A file handle passed by the caller stays open.",
 ["inputs", "fault_sequences", "histories"],
 "every operation, outcome and point of failure or interruption",
 "The tests check results, not side effects, and rarely exercise failures.",
 ["clevercsv/consistency.py", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/wrappers.py", "clevercsv/cparser_util.py", "clevercsv/dict_read_write.py"],
 [("local configuration of each parser", "cparser_util._parse_data"), ("dialect copies", "read.reader._make_simple_dialect, write.writer._make_python_dialect")],
 [("field size limit", "set only by the user", "cparser_util._FIELD_SIZE_LIMIT")],
 ["snapshots of process state and of arguments around every call"])

prop("C09", "Detection is deterministic",
 "The detected dialect (or the failure to find one) depends only on the sample, the offered delimiters and the method: not on the hash seed of the interpreter, earlier detections in the same process or with the same detector, the order in which delimiters are offered (for the consistency measure), the capacity of internal caches, the skipping optimisation or verbosity. "
 "The same holds for encoding detection and for the scores computed on the way.",
 ["inputs", "histories", "configurations"],
 "every sample, interpreter hash seed, history of earlier calls, cache capacity and switch setting",
 "Every test process sees one hash seed, a fresh detector and default settings.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py", "clevercsv/normal_form.py", "clevercsv/detect_pattern.py", "clevercsv/encoding.py"],
 [("ordered evaluation of dialects", "consistency.compute_consistency_scores"), ("tie breaking", "break_ties.tie_breaker"), ("cache reset", "ConsistencyDetector.detect")],
 [("type cache", "memoised cell types", "ConsistencyDetector._cached_is_known_type")],
 ["detected dialect and scores across interpreters and histories"])

prop("C10", "Running out of memory in native code is a clean error",
 "If any memory allocation fails while the compiled parser or the compiled pattern abstraction runs, the caller gets a MemoryError: the process does not crash, no wrong or partial result is returned, nothing is leaked, and a fresh attempt afterwards gives the right result.",
 ["inputs", "fault_sequences"],
 "every input and every single or repeated allocation failure",
 "The tests never make an allocation fail.",
 ["src/cparser.c", "src/abstraction.c"],
 [("allocation checks", "parse_save_field, parse_grow_buff, _strstrip, base_abstraction, c_merge_with_quotechar")],
 observe=["exceptions", "process survival", "allocated block counts", "result of a retry"])

prop("C11", "Native code stays memory-safe with misbehaving sources",
 "Whatever a line source does while the compiled parser pulls from it (fails at any point, returns non-text or string subclasses, re-enters the parser it feeds, is exhausted and revived, drops the parser), and whatever text reaches the native code, the process stays memory-safe, leaks nothing and answers with a result or an ordinary exception.",
 ["inputs", "histories", "fault_sequences"],
 "every source behaviour, call history and text, including very long fields and wide characters",
 "The tests use well-behaved lists and files and do not run under a memory checker.",
 ["src/cparser.c", "src/abstraction.c"],
 [("type and state checks in the pull loop", "Parser_iternext, cparser_parser"), ("buffer growth", "parse_grow_buff, base_abstraction")],
 observe=["address sanitizer", "exceptions", "reference and block counts"])

prop("C12", "Reported runtimes survive clock changes",
 "The runtime that `clevercsv detect --add-runtime` reports is the time that elapsed during detection: never negative and not affected by the system clock being set forwards or backwards while it runs, in every output format.",
 ["schedules", "configurations", "fault_sequences"],
 "every clock jump at any moment, elapsed time and output format",
 "The tests run on a steady clock and cannot check the value.",
 ["clevercsv/console/commands/detect.py"],
 [("runtime measurement", "DetectCommand.handle")],
 observe=["printed runtime against simulated elapsed time"])

prop("C13", "Multi-file standardizing handles each file once, in order",
 "When several files are standardized in one command each is converted exactly as if it were alone, with its own encoding and output, in the order given; every file before one that fails has been converted, and no later file and no output of a later file is touched. "
 "The exit status is 1 or an error if some file failed, otherwise (in place) 2 if any file changed and 0 if none did.",
 ["inputs", "fault_sequences", "crash_points"],
 "every number and mix of files, options, and fault or crash at any system call",
 "The tests use two or three healthy files.",
 ["clevercsv/console/commands/standardize.py"],
 [("file loop and status aggregation", "StandardizeCommand.handle")],
 observe=["all files after the run", "exit status"])

prop("C14", "Missing or broken optional packages degrade gracefully",
 "Optional packages that are absent, fail while importing, or are too old never change results of functionality that does not need them and never cause silent misbehaviour: encoding detection works without the fast detector, and functions that need a missing or outdated package raise ImportError naming it, before producing output. "
 "After the package becomes available again, the functionality works.",
 ["configurations", "histories", "fault_sequences"],
 "every subset of optional packages and kind of import failure, changing between calls",
 "The tests run with every optional package installed.",
 ["clevercsv/_optional.py", "clevercsv/encoding.py", "clevercsv/wrappers.py", "clevercsv/console/commands/view.py", "clevercsv/__main__.py"],
 [("guarded import", "_optional.import_optional_dependency")],
 observe=["results and exceptions with and without each package"])

prop("C15", "Commands print a complete answer or fail",
 "The commands that print (detect, code, standardize to standard output) print either the complete answer and return success, or no part of the answer on standard output and report the failure with a non-zero status or an exception, whatever read, decode or memory failure happens while the answer is computed. "
 "A failure to write the answer itself is never reported as success.",
 ["inputs", "fault_sequences", "configurations"],
 "every input file, option combination and failing or interrupted system call",
 "The tests run the commands on healthy files.",
 ["clevercsv/console/commands/detect.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/standardize.py", "clevercsv/console/application.py", "clevercsv/__main__.py"],
 [("compute before printing", "DetectCommand.handle, CodeCommand.handle, StandardizeCommand._to_stdout")],
 observe=["standard output", "exit status"])

prop("C16", "Concurrent rewriting of different files in one directory is safe",
 "Several in-place or to-file standardizations and readers running at the same time on different files of the same directories, under every interleaving of their system calls and with crashes of any of them, never touch each other's files or temporary files, and each surviving one produces the same result as alone.",
 ["schedules", "crash_points", "inputs"],
 "every interleaving of the system calls of several processes or threads, and a crash of any of them",
 "The tests run one command at a time.",
 ["clevercsv/console/commands/standardize.py"],
 [("unique temporary names", "StandardizeCommand._in_place")],
 observe=["all files after the run", "exit statuses"])

# pure functions of their input: not simulation targets
pure = "a pure function of its input; the test corpus samples it"
prop("C30", "Detected dialects are accurate on messy files",
 "For CSV files as found in the wild, the detected dialect is the one a human would choose.",
 ["inputs"], "every CSV file", "Accuracy is statistical and needs labelled corpora.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py"], [("consistency measure", "consistency.py")])
prop("C31", "Cell types are recognised by their documented formats",
 "A cell is assigned a known type exactly when its text is of one of the documented formats (numbers, dates, times, URLs, e-mail addresses and so on).",
 ["inputs"], "every cell", pure, ["clevercsv/detect_type.py", "clevercsv/_regexes.py"], [("regular expressions", "_regexes.py")])
prop("C32", "Dialects survive conversion and serialization",
 "Converting a dialect to JSON, to a dictionary or to a standard csv dialect and back gives an equal dialect, and dialect comparison is a total order.",
 ["inputs"], "every dialect", pure, ["clevercsv/dialect.py"], [("conversions", "dialect.SimpleDialect")])
prop("C33", "Generated code reads the file the same way",
 "The Python code that `clevercsv code` prints is valid for every file name, encoding and dialect; running it (as `clevercsv explore` does) yields exactly the records that reading the file with the detected dialect and encoding yields, however the bytes arrive, and raises if a read fails or the file cannot be read that way. With --pandas the code reads the same file.",
 ["inputs", "fault_sequences"], "every file name, dialect and encoding, and every split or failing transfer while the generated program runs",
 "The tests compare the text printed for three dialects and never run it.",
 ["clevercsv/console/commands/_utils.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/explore.py"],
 [("code template", "_utils.generate_code")], observe=["records the generated program computes", "exceptions it raises"])
prop("C35", "Viewing shows every record or nothing",
 "`clevercsv view` hands the viewer exactly the records of the file as read with the detected dialect, in order and once (with --transpose the columns, short records filled up), however the bytes arrive. If opening or reading the file fails, it cannot be decoded or read to its end, no dialect is found, or the viewer itself fails, nothing partial is shown and the command does not report success.",
 ["inputs", "fault_sequences"], "every file content, encoding and option, and every split, failing or interrupted transfer",
 "The tests replace the viewer and show one well-formed file.",
 ["clevercsv/console/commands/view.py", "clevercsv/wrappers.py"],
 [("view", "view.ViewCommand.handle"), ("reading", "wrappers.read_table")], observe=["rows handed to the viewer", "exit status or exception"])
prop("C34", "Header detection follows the standard library's heuristic",
 "Whether a sample is reported to have a header equals what the standard library's voting rule gives for the detected dialect.",
 ["inputs"], "every sample", pure, ["clevercsv/detect.py"], [("vote", "Detector.has_header")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
