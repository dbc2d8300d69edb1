"""The table of the properties: what check.py runs and what gen.py writes into properties.jsonl and MANIFEST.json."""
MACH = "Verus (deductive, function contracts on the extracted real code)"

def P(title, statement, over, qtext, why, files, mech, units=(), fns=None, harness=None, bounded="", assumes=(), note="", observe=(), state=()):
    return dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, units=list(units), fns=fns,
                harness=harness, bounded=bounded, assumes=list(assumes), note=note, observe=list(observe), state=list(state))

DRV = ["filter_data_range", "window_is_range", "lemma_window_in", "lemma_keep_none"]
PROPS = {}
PROPS["C01"] = P(
    "Rows of all inputs come out complete, once, and merged in time order",
    "When inputs whose rows are each in non-decreasing time order are run together, every row of every input is delivered exactly once to the processing chain of its own input, rows of one input keep their order, and across all inputs rows are delivered in non-decreasing time order. "
    "Each input's chain is told once that its input has ended, after the last of its rows.",
    ["inputs", "configurations"], "any number of inputs, any number of rows in each (none included), any timestamps up to the largest, ties included, with and without extra chains",
    "the tests run a few fixed files; order and completeness depend on how the timestamps of all the inputs interleave, on ties, empty inputs and inputs that end early",
    ["src/driver/driver.rs", "src/driver/source_row_buffer.rs"],
    [("k-way merge loop", "Driver::drive"), ("earliest row choice", "Driver::get_next_buffer_index"), ("first row of each source", "Driver::get_row_buffers"), ("next row of a source", "SourceRowBuffer::fill_next_row")],
    units=["driver"], fns=lambda f: f not in DRV, harness="merge-order", bounded="random and all small sets of sources through the real Driver, one chain each or all merged into one",
    assumes=["Source::next_row of a caller's source is described by an assumed contract (it yields its remaining rows, then the end, or fails)", "iterator adapters (iter, enumerate, min_by) are described by assumed contracts of the std functions"],
    note="driver.vrs proves drive() for every set of sources: events = a complete, in-order, non-decreasing interleaving, one flush per source", observe=["rows and flushes arriving at each chain's first sink"])
PROPS["C02"] = P(
    "A time range keeps exactly the rows with begin <= time < end",
    "When a begin and/or an end time is given and every input is in non-decreasing time order, the rows delivered are exactly the rows whose timestamp is at or after begin and before end; a missing bound does not restrict. "
    "No row inside the range is lost and no row outside it is delivered, and inputs without any row in the range end normally. An input that is not in time order is read up to its first row at or after the end, and of the rows before that one exactly those in the range are delivered.",
    ["inputs", "configurations"], "all inputs, in time order or not, all begin/end values including equal bounds, bounds equal to row times, 0 and the largest value, inverted ranges",
    "the tests use no range at all; boundary equality and empty windows at the start, middle and end of some inputs need chosen values",
    ["src/driver/source_row_buffer.rs", "src/driver/driver.rs"],
    [("skip rows before begin, stop at end", "filter_data_range / match_next_row"), ("range from arguments", "TimestampRange::new")],
    units=["driver"], harness="time-range", bounded="random sources and ranges made from the row times and their neighbours; every small range against three rows",
    assumes=["as C01"], note="driver.vrs proves the window of each source is exactly the rows in [begin, end) of a time ordered source (window_is_range)", observe=["rows arriving at the chains"])
PROPS["C03"] = P(
    "A row passes every stage of its chain and reaches every branch",
    "Each row given to a chain is passed through the chain's stages in order; when a stage turns a row into several rows each of them goes on in order, and when it drops the row nothing goes on. "
    "A split hands the row to each of its target chains and to the rest of its own chain, a merge passes rows on to the chain it joins, and the end of an input is passed to every stage and branch that it feeds.",
    ["inputs", "programs"], "all chain graphs without cycles made of stages, splits and merges, and all rows; stages that drop, keep or multiply rows depending on the row and on what they saw before",
    "the tests use seven fixed graphs with stages that give the same number of rows each time; how multiplied rows interact with a following split, merge or multiplying stage depends on the graph and the row",
    ["src/chopper/data_graph.rs", "src/driver/driver.rs", "src/driver/merge_join.rs", "src/driver/split.rs"],
    [("row processing", "Driver::process_row"), ("end of input", "Driver::flush"), ("nodes", "DataGraph, DataChain")],
    units=["driver"], fns=lambda f: f not in DRV and f not in ("every_source_complete", "merged_in_order"), harness="graph-flow", bounded="random acyclic graphs of up to 10 chains with dropping, duplicating and stateful stages, compared with an interpreter of the statement",
    assumes=["DataSink::write_row and flush of a caller's stage are described by an assumed contract"],
    note="driver.vrs proves process_row and flush against a recursive definition of what every stage of every chain gets", observe=["rows each stage is given"])
PROPS["C04"] = P(
    "Every stage gets the header of the rows it will be given",
    "Before any row is delivered every stage is given exactly once the header describing the rows that will reach it: the header of its chain's input as changed by the stages before it, through splits and merges. "
    "A merge whose inputs have different headers is refused before any row is delivered.",
    ["inputs", "programs"], "all chain graphs in which a chain has one input or starts with a merge of as many inputs as it has, and all headers; stages that change the header",
    "the tests have inputs with the same header and a few fixed graphs",
    ["src/chopper/header_graph.rs", "src/driver/merge_join.rs", "src/driver/split.rs", "src/driver/driver.rs"],
    [("header propagation", "HeaderGraph::process_header / match_remove_chain / check_merge_header"), ("equal headers at a merge", "MergeJoin / Split header count trackers")],
    units=["header_graph"], assumes=["HeaderSink::process_header of a caller's stage is described by an assumed contract (any function of the stage and the header)", "termination of the header recursion and panics on graphs with wrong indices are not part of the contract", "a split's count tracker is the one Split makes; a chain that is not a merge has one input"],
    note="header_graph.vrs proves that all chains reached get one header, that every stage of them is made with the fold of that header over the stages before it, that all inputs of a merge gave the same header, and that the data graph has the header graph's nodes",
    harness="header-flow", bounded="random acyclic graphs whose stages add columns; headers given to every stage compared with an interpreter; merges of different headers",
    observe=["headers each stage is given", "the error of building the driver"])
PROPS["C05"] = P(
    "A failing input or stage stops the run with an error",
    "When an input fails while it is being read, or a stage or output fails while it takes a row or the end of its input, the run ends with an error and no further row is delivered after the failure. "
    "A run reports success only after every input was read to its end and everything was passed on.",
    ["inputs", "fault_sequences"], "a failure at any point of any input, and at any row or flush of any stage, in any graph",
    "the tests have no failing input or stage at all",
    ["src/driver/driver.rs", "src/driver/source_row_buffer.rs", "src/chopper/data_graph.rs"],
    [("error propagation", "Driver::drive / process_row / flush / get_row_buffers, SourceRowBuffer::fill_next_row")],
    units=["driver"], fns=lambda f: f not in DRV and f not in ("every_source_complete", "merged_in_order"), harness="error-stop", bounded="sources failing at every position and stages failing at every row",
    assumes=["as C01 and C03"], note="in driver.vrs an Ok result of drive() implies the complete delivery; a source's or sink's Err implies Err", observe=["the result of the run", "rows delivered"])
PROPS["C06"] = P(
    "What is written as a dc file is read back identical",
    "For every header of supported column types and every sequence of rows, writing a dc file and reading it back yields the same column names and types and the same rows: same timestamps, same nulls in the same places, bit-identical values and identical strings of any length. "
    "Unsupported column types and values are refused with an error when written.",
    ["inputs"], "any number of columns (none, and across every multiple of eight), any combination of nulls, all values of each type, strings of any length and content; unnamed columns read back as col_<i>",
    "one test reads one small dc file; null bitmaps, wide tables, long strings and boundary values are never written",
    ["src/write/dc_sink.rs", "src/source/dc_source.rs", "src/util/dc_util.rs"],
    [("writer", "DCSink"), ("reader", "DCSource"), ("string and null encoding", "write_string_value, write_sized_string, read_string, get_bitset_bytes")],
    units=["dc_write", "dc_read", "dc_roundtrip"], harness="dc-roundtrip", bounded="random and boundary tables through the real writer and reader, bytes compared with an independent encoder",
    assumes=["byteorder, BufReader/BufWriter, HashMap and utf8 conversion functions are described by assumed contracts"],
    note="dc_write.vrs: the bytes written = enc(header), enc(row); dc_read.vrs: the reader returns parse(bytes); dc_roundtrip.vrs: parse(enc(x)) = x for all x", observe=["bytes of the file", "rows read"])
PROPS["C07"] = P(
    "Damaged or cut dc input is an error, never a panic or a quiet end",
    "Reading a dc file or stream that is cut off anywhere other than between two rows, that fails while being read, or whose header or strings are malformed, ends with an error after at most the rows that were complete before that point. "
    "The rows delivered before it are exactly those the bytes encode; no input makes the reader panic.",
    ["inputs", "fault_sequences"], "all byte sequences, every cut position, a read failure at any position, and any way the bytes arrive in pieces",
    "no test reads damaged dc input",
    ["src/source/dc_source.rs", "src/util/dc_util.rs"],
    [("row end detection", "DCSource::next_row"), ("field descriptors", "FieldDescriptor::new"), ("strings", "DCSource::read_string")],
    units=["dc_read"], harness="dc-read", bounded="every cut of many files, changed bytes and wild counts, random rows, read failures, against an independent parser",
    assumes=["as C06; a string length field below -1, which does not exist, is left open only if over 4 GB follow"], note="dc_read.vrs: the reader is total and returns parse(bytes) for every byte sequence, failing where parse fails", observe=["rows and error of the reader"])

PROPS["C08"] = P(
    "Row filters and column deletion keep exactly what they are asked to keep",
    "A filter works on the first column whose name equals the given name without regard to ASCII letter case, and is refused when there is none. "
    "The equal filter keeps a row exactly if the value in that column is of the same type as and equal to the given value, the greater filter exactly if it is greater than a given value of the column's type (numbers by value, NaN greater than nothing, strings by bytes); kept rows and the header stay unchanged and in order. "
    "Deleting a column removes that name, that type and that value from header and every row, and nothing else.",
    ["inputs", "configurations"], "all headers (duplicate names, names differing in case), all rows and values including NaN, -0.0, nulls and extremes of each type other than booleans and byte buffers, all three filters alone and in sequence; the order of nulls is left open",
    "the tests run each filter on one small file",
    ["src/filter/row_filter_equal_value.rs", "src/filter/row_filter_greater_value.rs", "src/filter/column_filter_delete_col.rs", "src/chopper/types.rs"],
    [("equal", "RowFilterEqualValue"), ("greater", "RowFilterGreaterValue"), ("delete", "ColumnFilterDelete"), ("comparison of values", "impl PartialEq / PartialOrd for FieldValue")],
    units=["filters", "remove_multiple"], assumes=["std iterators, float comparison and Vec methods are described by assumed contracts", "comparisons that end the process (Boolean, ByteBuf, mixed types) are left open"], note="filters.vrs proves headers and rows of the three filters; remove_multiple.vrs the removal of columns",
    harness="filters", bounded="random headers, rows and values of all types through the real filters, alone and in sequence", observe=["rows and header after the filter"])
PROPS["C09"] = P(
    "CSV output holds every row, in order, with exact values",
    "CSV output is one header line and one line per row in order: the time column first if it is asked for, then all the columns, joined by the configured delimiter everywhere. "
    "Integers and strings appear exactly, floating point numbers as text that reads back as the same number, nulls as nothing; the time as whole units since the epoch (rounded down) or as the ISO time in the configured zone with its offset and as many digits as the unit has. "
    "Booleans and byte buffers, and human readable time without a zone, are refused with an error.",
    ["inputs", "configurations"], "all headers (no column at all included), rows and values, all delimiters, units, zones, timestamps and time column names; text is written without quotes",
    "the tests compare a few files with the default delimiter; the other delimiters, units, zones, value types and edge values are not covered",
    ["src/write/csv_sink.rs", "src/source/csv_configs.rs", "src/util/tz.rs"],
    [("rows", "CSVSink::write_row"), ("header", "CSVSink::write_csv_header"), ("configuration", "CSVOutputConfig::new"), ("time to zone", "ChopperTz::timestamp")],
    units=["csv_sink"],
    note="csv_sink.vrs proves for every configuration, header and row which bytes are written: the header line, the time column, every cell by its type, delimiters and line ends, and the two refusals",
    assumes=["the text of integers (Display), floating point numbers (dtoa) and of dates (chrono's format and offsets) are functions described by contract; the bounded check compares them with an independent renderer", "opening the output file or stdout is outside the contracts"],
    harness="csv-sink", bounded="random headers, rows and configurations written to a file by the real sink, the text compared with an independent renderer and calendar", observe=["bytes of the output"])
PROPS["C10"] = P(
    "CSV input gives every record exactly, and bad records are errors",
    "Reading CSV gives one row per record, in order, with each cell's text as a string, unquoted as CSV defines and without surrounding blanks; the first row is a header exactly when there is one, and columns without a name are called col_<i>. "
    "Cells missing at the end of a record are null. A record that has more cells than there are columns or is not UTF-8, or whose timestamp cell is missing or cannot be parsed, and a read that fails, end the input with an error; input without records has no rows.",
    ["inputs", "configurations"], "all texts: quotes, delimiters, line ends and other characters inside cells, long cells, short and long records at any position, CRLF, no line end at the end, no record at all; data arriving in pieces; all delimiters",
    "the tests read a few clean files",
    ["src/source/csv_source.rs", "src/source/csv_timestamp.rs", "src/util/reader.rs"],
    [("first record and names", "CSVSource::new"), ("records to rows", "CSVSource::update_row"), ("one row ahead", "CSVSource::next_row")],
    harness="csv-source", bounded="random tables rendered as CSV and read by the real source, with damaged records at random places",
    units=["csv_source"],
    note="csv_source.vrs proves for every text and configuration: the delimiter and header decision and the csv crate's settings, the column names, the row of every record (cells, nulls, time), one row ahead, and exactly which failures are errors; detection (detect.vrs), times (times.vrs), guesses (csv_util.vrs) and the previewer (reader.vrs) enter by their contracts, proved in those units",
    assumes=["splitting text into records (quoting, trimming) is done by the csv crate: its builder and reader are described as a function of bytes, delimiter and settings, and its result is compared with the statement by the bounded check", "std's text functions by assumed contracts"], observe=["rows and errors of the source"])
PROPS["C11"] = P(
    "The buffering readers pass on every byte, once and in order",
    "Whatever sequence of reads of whatever sizes is made and however the data arrives, the buffering reader gives exactly the bytes of its input, in order, and says the input ended or failed only when it did. "
    "The previewer shows the first 8192 bytes (all, if there are fewer) and the text lines that are complete in them, if they are text; the reader got from it gives the whole input from its first byte.",
    ["inputs", "schedules"], "all contents and lengths around the buffer size, any buffer capacity, any sizes of the pieces in which data arrives, any mix of reads, line reads, fill and consume, and a failure of the input at any point",
    "the tests read one small input with fixed sizes; the buffer boundary, empty and short reads and failures are not covered",
    ["src/util/reader.rs"],
    [("buffering", "ChopperBufReader::read / fill_buf / consume"), ("preview", "ChopperBufPreviewer::new, get_lines, get_buf, get_reader")],
    units=["reader"], assumes=["Read::read of the inner reader and of &[u8], slice ranges and utf8 conversion are described by assumed contracts (any number of bytes per call, failures at any point)"],
    note="reader.vrs proves every operation of the buffering reader against the ghost bytes still to come, and the preview's bytes and lines, for all contents, capacities and ways of arriving",
    harness="reader", bounded="random contents, piece sizes, capacities and operation sequences on the real readers", observe=["bytes, ends and errors"])
PROPS["C12"] = P(
    "Files of a directory are read as one input with the first file's columns",
    "A directory is read as the concatenation of its files in the order of their names, its subdirectories left out; one that cannot be listed to its end is refused. All rows have the columns of the first file: later files may have them in any order and may have more columns, "
    "each value arrives under the name and type it has in its own file, and the extra ones are dropped. A later file that lacks a column of the first file, or has it with another type, ends the input with an error after the rows of the files before it.",
    ["inputs", "configurations"], "any number of files, any order and set of extra columns per file, empty files, files that do not fit at any position, csv and dc files",
    "one test reads three files with the same columns in the same order",
    ["src/source/multi_file_source.rs", "src/input/files_in_dir_provider.rs", "src/input/input_factory.rs", "src/util/remove_multiple.rs"],
    [("next file and its mapping", "MultiFileSource"), ("order of the files", "FilesInDirProvider"), ("extra columns", "RemoveMultiple")],
    units=["multi_file"], assumes=["opening one file is described by an assumed contract (its header, rows and whether it ends)", "the listing of a directory and the order of paths are uninterpreted", "later files have no two columns of one name (what happens then is not stated)"], note="multi_file.vrs proves which columns are taken from each file, the swaps that bring them in place, the rows of all files in order of their paths up to the first file that does not fit or fails",
    harness="multi-file", bounded="random directories of csv and dc files with permuted and extra columns", observe=["header and rows of the directory's source"])
PROPS["C13"] = P(
    "Compressed input gives exactly the original bytes, or an error",
    "Data compressed with gzip, lz4 (frame or java block format), lzf or zstd, all its members or frames (java blocks: up to the empty block that ends them), decompresses to exactly the original bytes, however the compressed data arrives and in whatever pieces it is read. "
    "Data cut off inside (for lzf and java blocks: inside a block), a read failure, or damage that a checksum of the format covers ends with an error after at most a prefix of the original bytes. "
    "The format is recognised by the file name's suffix or by the first bytes.",
    ["inputs", "fault_sequences"], "all contents, sizes across block boundaries, levels and frame options; several members and frames, zstd's skippable frames anywhere; every cut position; changed bytes under checksums (gzip, lz4 and zstd with checksums)",
    "the tests decompress one small complete file per format",
    ["src/decompress/decompress.rs", "src/decompress/lz4.rs", "src/decompress/zst.rs", "src/util/reader.rs"],
    [("recognition", "is_compressed_using_format / is_compressed_using_previewer"), ("dispatch", "decompress"), ("frames", "Lz4FramesReader, ZstReader")],
    units=["decompress", "reader"],
    note="decompress.vrs proves for all bytes and all sizes of reads: the format recognised by suffix and by first bytes; which decoder reads it, from the first byte on; that the lz4 and zstd readers give the contents of all frames in order (skippable zstd frames left out), report the end only at the end of a complete last frame with a right checksum, and an error otherwise",
    harness="decompress", bounded="what the decoders of other crates make of the bytes: generated compressed data of all formats, complete, cut at every or many positions, damaged, and arriving in pieces",
    assumes=["the decoders of the flate2, lz-fear, paku and ruzstd crates are functions of the bytes they read (contracts on their calls; their decoding is compared with the statement by the bounded check only)", "the frame reader of lz4 shares its input through Rc<RefCell<_>>; the extraction passes it instead", "lz4 frames contain no empty blocks"], observe=["bytes and errors of the decompressed reader"])
PROPS["C14"] = P(
    "A single-file zip archive gives exactly its file's bytes, or an error",
    "A zip archive with one file, stored, deflated or bzip2, with or without comments, extra fields, data descriptor and zip64 records, is read as exactly that file's bytes and name. "
    "Content that does not match the archive's checksum, an archive with more than one file, one split over disks, encrypted or using another method, and one whose records are missing or damaged, is refused with an error; no archive makes the reader panic.",
    ["inputs", "fault_sequences"], "all contents and names, comments and extra fields of all lengths, zip64 values in any combination, any read piece sizes; bytes cut off or changed",
    "the tests read a few archives made by one tool",
    ["src/decompress/zip.rs", "src/decompress/crc32.rs"],
    [("end record search", "find_eocdr_and_prepare_to_read"), ("directory", "EndOfCentralDirRecord, CentralDirHeader, Zip64 fields"), ("checksum at the end", "Crc32Reader::read")],
    units=["zip"],
    note="zip.vrs proves for every archive, on ghost bytes and positions: which end record is taken, the directory and zip64 values found, every refusal, the range of packed bytes and the name, and that the end is only reported when the checksum matches",
    harness="zip", bounded="archives built by an independent encoder and by the zip tool where it is installed, complete, damaged and unsupported",
    assumes=["the inflate and bzip2 decoders and the crc function are dependencies, described as functions of the bytes", "Read, Seek, byteorder reads and Take are described by assumed contracts; archives of up to 2^62 bytes"], observe=["bytes, name and errors of the archive's reader"])
PROPS["C15"] = P(
    "Times are converted to nanoseconds exactly, or refused",
    "A timestamp cell or a begin/end value denotes one instant and is converted to exactly that many nanoseconds since the epoch: numbers by their units (for begin/end: the unit in whose range 630000000..2000000000 seconds they fall), dates and times by their own offset if they have one and otherwise in the configured zone, with YYYY, YYYYMM and YYYYMMDD meaning their first moment. "
    "Text that is no such time, a local time that the zone skips or has twice, a time needing a zone when none is configured, and a time before 1970 or beyond the largest nanosecond count are refused with an error.",
    ["inputs", "configurations"], "all instants, formats, fractions and zones including offset changes, all numbers up to and beyond the largest value in each unit",
    "the tests convert about twenty chosen values",
    ["src/util/timestamp_util.rs", "src/source/csv_timestamp.rs", "src/util/tz.rs"],
    [("cells", "csv_timestamp::get_timestamp"), ("begin and end", "parse_datetime_range_element"), ("range check", "to_nanos"), ("zone", "ChopperTz::from_local_datetime / resolve_timezone")],
    units=["times"],
    note="times.vrs proves get_timestamp, parse_datetime_range_element (with its 36 formats), to_nanos, from_local_datetime and the choice of the zone (argument or environment, the caller's names before the zone database): which nanosecond count, or an error, for every text, format, zone and number",
    harness="time-parse", bounded="random instants rendered in the accepted formats in several zones, compared with an independent calendar",
    assumes=["chrono's parser (text and format to instant, local time or date) and chrono-tz's tables (local time to the instants that show it) are functions described by contract; the bounded check compares them with an independent calendar", "std's text functions and u64 parsing are described by assumed contracts"], observe=["timestamps and errors"])
PROPS["C16"] = P(
    "The time column and its format are detected by the documented preference",
    "When not configured, the time is taken from (in this order of preference) a column named time<units>, date (joined with a column time if there is one), time, <prefix>time<units>, <prefix>date (joined with <prefix>time if that has the same prefix), <prefix>time, and otherwise the first column; names compare without regard to case and the leftmost column of a kind counts. "
    "Its format is then decided from the first row: units by the name or by the range of the number, otherwise the first known date and time format that parses it. Nothing that fits is an error. A configured column (by name or index), unit or format is used as given, and a column that does not exist is an error.",
    ["inputs", "configurations"], "all sets and orders of column names, all cell texts of the first row, all configurations of column and format",
    "the tests have a few headers each with one candidate",
    ["src/source/csv_timestamp.rs"],
    [("column", "get_timestamp_col"), ("format", "get_timestamp_fmt_auto / get_timestamp_fmt_from_user_spec")],
    units=["detect"],
    note="detect.vrs proves the column, the units hint and the format chosen for every header, first row and configuration",
    assumes=["chrono's parser and zone tables as functions described by contract; std's text functions (to_lowercase, starts_with, ends_with, contains, rsplitn, slices) by assumed contracts"],
    harness="time-detect", bounded="random headers made of the names that matter, first rows in the known formats and configurations, compared with a model of the preference", observe=["column, format or error, seen through the timestamps of the rows"])
PROPS["C17"] = P(
    "Guesses about CSV input follow the counts and types of its first lines",
    "The guessed delimiter is the candidate that occurs most often in the first line, the earlier candidate on a tie. A header is assumed exactly when there are two lines and their cells, blanks around them ignored, differ in number or in type, where a cell is a 64-bit integer, else a floating point number, else a string. "
    "The common type of several types is String if one is not a number or there is none, else Double if one is floating point, else Long. A delimiter argument is one ASCII character or \\t.",
    ["inputs"], "all lines (non-ASCII text included), candidate lists and cells; all lists of types",
    "the tests have seven pairs of lines and three cells, and no test of the delimiter guess",
    ["src/util/csv_util.rs", "src/source/csv_source.rs"],
    [("delimiter", "guess_delimiter"), ("header", "guess_has_header"), ("types", "guess_type, guess_common_type, type_upconvert"), ("argument", "parse_into_delimiter")],
    units=["csv_util"], assumes=["str methods (split, trim, parse, lowercase) are described by assumed contracts"], note="csv_util.vrs proves the delimiter, type and header guesses against their definitions for every line",
    harness="csv-guess", bounded="all short lines over the delimiters, random lines, all lists of up to three types, and through the real source", observe=["results of the guesses"])
PROPS["C18"] = P(
    "Removing several positions leaves all the other elements in order",
    "For every vector and every ascending list of distinct positions in it, remove_multiple removes exactly the elements at these positions and leaves the others, unchanged, in their order.",
    ["inputs"], "all lengths and all sets of positions (none, all, first, last, adjacent)",
    "the tests have seven vectors of five elements",
    ["src/util/remove_multiple.rs"], [("removal", "RemoveMultiple::remove_multiple for Vec<T>")],
    units=["remove_multiple"], assumes=["slice rotate_left, as_mut and ranges are described by assumed contracts"], note="remove_multiple.vrs proves for every vector and every set of positions that exactly the other elements remain, in order",
    harness="remove-multiple", bounded="every set of positions of every vector of up to 12 elements and random longer ones", observe=["the vector"])
PROPS["C19"] = P(
    "An input is read by the format asked for or found, or refused",
    "With a given format the input is decompressed and read as that format says (suffixes from right to left), whatever its name; without one the suffix of its name decides, and if that decides nothing the content does: compression, zip, dc by its magic number and version, a format of a user's factory, and csv last, for text. "
    "The same data gives the same header and rows however it was compressed and whether it comes from a file, a stream or over http. Unknown formats, missing files, http errors and http responses that end early are errors.",
    ["inputs", "configurations"], "all combinations of content, compression, file name, given format and way of access",
    "the tests read each format once with its own name",
    ["src/input/input_factory.rs", "src/input/single_file.rs", "src/source/csv_factory.rs", "src/source/dc_factory.rs", "src/transport/streaming/http.rs", "src/decompress/decompress.rs"],
    [("choice", "SingleFileInput / SourceFactories"), ("by name", "can_create_from_format, is_compressed_using_format"), ("by content", "can_create_from_previewer, is_compressed_using_previewer, is_zip"), ("http", "HttpTransport::open")],
    units=["input", "decompress"],
    note="input.vrs proves for all names, contents, given formats, factories and transports: which suffixes and first bytes decide on decompression and on the source, in which order, over which bytes (of a file, of the file in an archive, of an http response or of stdin), that everything else is refused, and that an http response ending before its length is an error; the user's factories come first and csv last",
    assumes=["files and http servers give the same answer when asked twice during a run; ureq's response is its status, its length header and its body (contracts on its calls)", "DCSource::new, CSVSource::new, the zip reader and SerialMultiFileSource::new by contracts in terms of their inputs; they are proved in units dc_read, csv_source, zip and multi_file", "the answers of a user's factory are functions of the name and the bytes", "std string, path and file functions by contracts"],
    harness="input-format", bounded="end to end: combinations of content, compression (up to two layers), name and format, also over loopback http", observe=["header and rows, or the error"])
PROPS["C20"] = P(
    "Two files compare as same exactly when their bytes are the same",
    "are_contents_same says yes exactly if both files have the same length and the same bytes at every position, and reports an error if one of them cannot be opened or read.",
    ["inputs"], "all lengths, in particular around multiples of the buffer size, one file a prefix of the other, and a difference at any one position",
    "the tests use it to compare their outputs but never test it on files that differ in one place",
    ["src/util/file.rs"], [("comparison", "are_contents_same")],
    units=["same_contents"], assumes=["Read::read and File::open are described by assumed contracts (any number of bytes per call, failures at any point)"], note="same_contents.vrs proves the comparison for files of any size and any splitting into reads",
    harness="same-contents", bounded="random pairs of files with chosen differences around the buffer size", observe=["the answer"])
PROPS["C21"] = P(
    "The command line tool does what its arguments say, or exits non-zero",
    "chopper writes to the output (stdout or the given file, as csv or as dc by its name) the merged rows of all given inputs, restricted by begin and end, in the style, units, zone and delimiter that the arguments give; stdin is read when no input is given and each format given applies to its input, the last one to the rest. "
    "It exits with status 0 only when the complete output was written; unusable arguments and every failure of an input or of the output exit with another status.",
    ["inputs", "configurations", "fault_sequences"], "all combinations of arguments and inputs, inputs that are missing, cut or malformed, an output that cannot be written",
    "the tests call the library for a few combinations and never run the tool or look at its exit status",
    ["src/chopper_cli.rs", "src/cli_app.rs", "src/error.rs", "src/write/factory.rs", "src/driver/driver.rs"],
    [("arguments", "chopper_cli, cli_app"), ("errors to status", "error::Error, chopper_cli::chopper_cli"), ("output", "write::factory")],
    units=["cli", "status"],
    note="cli.vrs proves for all arguments: which arguments exist and what they require, the zone, begin and end, how csv is read and written, the inputs with their formats, the sink chosen by the output's name, the sources, chains and driver set up for exactly these, and that chopper_cli gives Ok only if that driver did; status.vrs proves that the status is 0 exactly if it did and every kind of error leads to another one",
    assumes=["clap gives values as its argument descriptions say (defaults, possible values, requires) or ends the process; what it does with conflicts, help and version is left open", "names of time zones, the environment and the file system by contracts; parse().unwrap() ends the process if there is no such zone", "InputFactory, Driver, MergeJoin, parse_datetime_range_element and parse_into_delimiter by contracts in terms of their inputs; they are proved in units input, driver, header_graph, times and csv_util", "a panic ends the process with another status than 0; stdout and stderr as std::io describes"],
    harness="cli", bounded="random argument combinations and inputs to the built tool as a process, its output compared with an independent rendering; a list of failing runs", observe=["output bytes and exit status"])
