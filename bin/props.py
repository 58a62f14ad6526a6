"""The properties, and for each the harnesses that decide it. gen.py renders properties.jsonl and MANIFEST.json from this."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = V + "/known-findings.txt"
def H(h, bounds, covers=("end",), **k): return dict(h=h, bounds=bounds, covers=list(covers), **k)
TS = "timestamps are 17 digits sharing date and time, the last %s millisecond digits symbolic"
PROPS = {}
def prop(id, title, statement, over, qtext, why, files, mech, quick=(), thorough=(), assumptions=(), level_note=None, na=None, state=(), observe=()):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, quick=list(quick), thorough=list(thorough),
                     assumptions=list(assumptions), na=na, state=list(state), observe=list(observe), level_note=level_note)
T = "crates/core/src/table/"; TL = "crates/core/src/timeline/"; FG = "crates/core/src/file_group/"; LF = FG + "log_file/"

prop("C01", "The timeline is exactly the completed write actions, in time order",
     "Opening a table yields a timeline holding exactly the completed commit, deltacommit and replacecommit instants found in the metadata directory, once each and ordered by instant time, whatever order the storage lists files in. Requested and inflight instants, other actions, auxiliary files and stray or malformed names never appear and never make opening the table fail or panic. Per-action listings are the matching sub-sequences, a descending listing is the exact reverse, and the latest commit is the maximum.",
     ["inputs", "histories"], "Every content of the metadata directory up to N files: any action and state per file, any instant times (14 or 17 digits), any listing order, any stray name.",
     "Tests open a handful of recorded tables; they cannot range over combinations of actions, states, time ties between second and millisecond formats, listing orders and stray names.",
     [TL + "mod.rs", TL + "selector.rs", TL + "instant.rs"], [("instant loading and sorting", TL + "mod.rs: load_instants"), ("file name to instant", TL + "selector.rs: try_create_instant")],
     quick=[H("hv_tl_kinds", "2 files: 15 suffixes x 4 suffixes, 2 symbolic millisecond digits each, 2 listing orders", ("end", "empty")),
            H("hv_tl_mixed", "3 files, 14- and 17-digit timestamps mixed, 1 symbolic digit each, 2 listing orders", ("end",)),
            H("hv_tl_cluster", "3 instants of 3 actions with 6, 3 and 2 operation types, 1 symbolic digit each, pending or completed, 2 listing orders", ("none", "some")),
            H("hv_tl_stray", "one stray file of 27 malformed or boundary names next to one valid commit")],
     thorough=[H("hv_tl_deep", "4 files (6x4x4x2 suffixes), 2 symbolic digits each, 2 listing orders", ("end", "empty"))],
     assumptions=["instant times in the directory are pairwise distinct", "timeline timezone UTC"])
prop("C02", "Instant file names decode and encode faithfully; malformed names are errors",
     "Every well-formed timeline file name decodes to its exact timestamp, action and state, to the epoch time its calendar timestamp denotes in the timeline's time zone (UTC or local), and encodes back to the same file name. Every other string is rejected with an error: no input panics, and no timestamp that is not a 14- or 17-digit calendar time is accepted.",
     ["inputs"], "Every file name of the shape <timestamp>.<action>[.<state>] and arbitrary other text.",
     "Tests check a dozen literals; date arithmetic, digit validation and slicing depend on every digit and byte.",
     [TL + "instant.rs"], [("parsing and validation", TL + "instant.rs: try_from_file_name_and_timezone, parse_naive_datetime"), ("rendering", TL + "instant.rs: file_name, relative_path")],
     quick=[H("hv_inst_date", "month and day digits symbolic (all 10^4), leap year 2024", ("valid", "invalid")),
            H("hv_inst_time", "hour tens, minute tens, both second digits, one millisecond digit symbolic; 9 action/state suffixes", ("valid", "invalid")),
            H("hv_inst_millis", "hour and minute ones and all three millisecond digits symbolic", ("valid", "invalid")),
            H("hv_inst_year", "tens and ones of year and ones of day symbolic (2000-2099, Feb 20-29)", ("valid", "invalid")),
            H("hv_local", "local timelines in 4 time zones on the day clocks are set back: hour 0-4 and every minute", ("unique", "ambiguous")),
            H("hv_inst_parts", "9 actions x 7 states x 7 timestamps incl. multi-byte text", ("ok", "err")),
            H("hv_inst_garbage", "up to 5 arbitrary ASCII bytes in front of 5 tails", ("accepted", "rejected"))],
     thorough=[H("hv_inst_secs", "14-digit form: year, month, day, hour and second digit symbolic; 9 suffixes", ("valid", "invalid")),
               H("hv_inst_year4", "all four digits of the year and the ones of the day (0001-9999, Feb 20-29)", ("valid", "invalid"), time=700)],
     assumptions=["leap second :60 and year 0000 excluded"])
prop("C03", "Snapshot and time-travel reads see the latest committed slice of each file group",
     "For a table history of completed commits, the file slices and rows returned for a snapshot, or as of a timestamp T, are for every file group exactly the base file written by the latest commit at or before T, each once, and none for a file group first written after T.",
     ["histories", "inputs"], "Every history up to N commits over the file groups, every T, every storage listing order.",
     "Tests read fixed recorded tables at a few timestamps.",
     [T + "mod.rs", T + "fs_view.rs", FG + "mod.rs"], [("as-of selection", FG + "mod.rs: get_file_slice_as_of"), ("slices of the view", T + "fs_view.rs: collect_file_slices_as_of")],
     quick=[H("hv_big", "1, 1024, 1025 or 2050 rows in a base file, parquet or avro log block, any value of the last row", ("base", "parquet block", "avro block")), H("hv_vary", "one symbolic character in file id, partition name or write token; write statistics with and without writes; update, then replacement; 5 reads", ("snapshot", "as of", "incremental")), H("hv_snap3", "3 commits, each writing either or both of 2 file groups; " + TS % "2" + "; symbolic as-of; 2 listing orders", ("end",))],
     assumptions=["commit times strictly increase with commit order (WLOG: file layout order varies separately)", "non-partitioned copy-on-write table"])

DG = "timestamps share date and time down to the last digit, which is symbolic (all orderings and ties with reads)"
prop("C04", "A time-travel read never changes because of what happens at later instants",
     "A read as of a timestamp T returns the same file slices and the same rows before and after any write action with an instant time later than T, whatever that action is (commit or replacecommit), whichever file groups it writes or replaces, and at whatever step its writer is or has crashed.",
     ["histories", "crash_points"], "Every T, every later action (commit, insert-overwrite, delete-partition) at every step of its writer, every listing order.",
     "Tests read recorded tables once; none compares a read before and after a further action, complete or not.",
     [T + "mod.rs", T + "fs_view.rs", TL + "mod.rs"], [("as-of slices", T + "mod.rs: get_file_slices_as_of, read_snapshot_as_of"), ("replaced file groups as of", TL + "mod.rs: get_replaced_file_groups_as_of")],
     quick=[H("hv_repeat", "2 commits then one later action of 3 kinds, crashing after any of its up to 5 steps; 2 listing orders; " + DG, ("completed", "pending"))],
     thorough=[H("hv_repeat2", "as quick with two symbolic timestamp digits", ("completed", "pending"))],
     assumptions=["instants are totally ordered by time", "non-partitioned copy-on-write table"])
prop("C05", "Uncommitted writes are never visible, at any crash point",
     "While a write action is requested or inflight - including when its writer crashed after any prefix of its steps - snapshot, time-travel and incremental reads return exactly what they would without it. Once it completed, all its file slices and rows are visible together.",
     ["histories", "crash_points"], "Every crash point of a commit or replacecommit writer, any instant order relative to a concurrent completed writer, any as-of time.",
     "Tests only read tables whose actions all completed; a crash between any two files of a write is not sampled.",
     [T + "listing.rs", T + "fs_view.rs", TL + "mod.rs"], [("pending instants", TL + "mod.rs: find_pending_timestamps"), ("file groups from listing", T + "listing.rs: list_file_groups_for_partition")],
     quick=[H("hv_crash_commit", "commit writer over 2 file groups crashing after any of 6 prefixes, concurrent completed commit; " + DG, ("committed", "uncommitted")),
            H("hv_crash_two", "two writers (one commit or replacecommit, one commit) over two partitions with 4 and 3 crash points, a third completes; " + DG, ("two pending", "one pending", "none pending")),
            H("hv_crash_replace", "the same for a replacecommit that replaces one file group", ("committed", "uncommitted")),
            H("hv_crash_rows", "rows through read_snapshot for each crash point", ("committed", "uncommitted")),
            H("hv_inc_pending", "incremental windows around a requested or inflight commit/replacecommit", ("some", "none")),
            H("hv_replaced_pending", "a pending and a completed replacecommit", ("completed", "pending"))],
     thorough=[H("hv_crash_wide", "both kinds with two symbolic timestamp digits", ("committed", "uncommitted"))],
     assumptions=["the writer creates requested, inflight, data files, completed in this order", "base files; log blocks of pending deltacommits are covered by C15"])
prop("C06", "Replaced file groups disappear from the replacing instant on, and only those",
     "A file group named in a completed replacecommit R is not part of any snapshot or time-travel read at or after R, is part of reads before R, and a file group with the same id in another partition is unaffected. The table stays readable when the latest action only removes file groups.",
     ["histories", "inputs"], "Every subset of file groups replaced, chains of replacements, every as-of time, partitioned tables sharing file ids.",
     "Tests read two recorded insert-overwrite tables at their latest state.",
     [TL + "mod.rs", T + "fs_view.rs", FG + "builder.rs"], [("replaced file groups", TL + "mod.rs: get_replaced_file_groups_as_of"), ("exclusion", T + "fs_view.rs: collect_file_slices_as_of"), ("latest schema", TL + "mod.rs: get_latest_schema")],
     quick=[H("hv_vary", "one symbolic character in file id, partition name or write token; write statistics with and without writes; update, then replacement; 5 reads", ("snapshot", "as of", "incremental")), H("hv_replaced", "3 file groups in 2 partitions sharing an id; every non-empty subset replaced with or without a new file group; symbolic as-of; 2 listing orders; " + DG, ("fewer", "end")),
            H("hv_replaced_pending", "two replacements, one completed and one at any step", ("completed", "pending"))],
     thorough=[H("hv_replaced2", "a second replacement of what the first wrote", ("fewer", "end"))],
     assumptions=["instants are totally ordered by time"])
prop("C07", "Incremental reads return exactly the window (start, end]",
     "For every start and end, the incremental file slices are, per file group written by a completed action in (start, end] and not replaced in it, the one written last in the window; and the records read are exactly those of these slices whose commit time lies in (start, end]. A missing end means the latest commit, a missing start the beginning.",
     ["histories", "inputs"], "Every start and end relative to every commit (equal, between, outside, inverted), every write pattern up to the bound.",
     "Tests read a few fixed windows; boundary equality, updates inside and outside the window and replacements are combinations.",
     [T + "mod.rs", TL + "mod.rs", TL + "selector.rs", FG + "reader.rs"], [("window selection", TL + "mod.rs: get_file_groups_between; " + TL + "selector.rs: select"), ("record filter", FG + "reader.rs: create_filtering_mask_for_base_file_records")],
     quick=[H("hv_vary", "one symbolic character in file id, partition name or write token; write statistics with and without writes; update, then replacement; 5 reads", ("snapshot", "as of", "incremental")), H("hv_inc", "3 commits over 3 file groups, every write pattern; rows carried over and updated; symbolic start and end, optional; 2 listing orders; " + DG, ("some", "none")),
            H("hv_inc_replace", "3 actions, the last replacing any subset of 3 file groups in 2 partitions", ("some", "none")),
            H("hv_inc_pending", "one of the actions pending", ("some", "none"))],
     assumptions=["commit times strictly increase with commit order", "copy-on-write; merge-on-read windows are covered by C17"])
prop("C08", "Partition filters keep exactly the matching partitions",
     "A read with partition filters returns the file slices and rows of exactly the partitions whose values satisfy every filter, comparing by the column's type (a literal that is no value of the type is an error), for plain, hive-style and url-encoded paths and for any column order of the table schema.",
     ["inputs"], "Every filter literal and operator, partition values, layouts and field orders up to the bound.",
     "Tests check a handful of literal filters; wrong pruning silently loses rows and depends on operator, value, type, encoding and field order together.",
     [T + "partition.rs", T + "mod.rs", T + "listing.rs", "crates/core/src/expr/filter.rs"], [("pruning", T + "partition.rs: should_include, parse_segments"), ("partition schema", T + "mod.rs: get_partition_schema")],
     quick=[H("hv_prune_str", "4 string partitions, literal of 0-2 printable ASCII bytes, 6 operators, hive-style or not, url-encode flag on/off", ("none", "some", "all")),
            H("hv_prune_int", "4 integer partitions incl. negative, literal -99..99", ("none", "some", "all")),
            H("hv_prune_two", "2 partition fields, both schema orders, 1 or 2 filters (operator of the second from 2), one-letter literals", ("none", "some", "all")),
            H("hv_prune_enc", "encoded / = % and blank in partition values", ("none", "some", "all")),
            H("hv_prune_dirs", "symbolic partition directory names, string and integer typed", ("none", "some", "all")),
            H("hv_prune_types", "partition columns of 7 more types (8, 16 and 64-bit integers, decimal, date, boolean, double), literals with two symbolic digits, 3 operators; malformed literals", ("none", "some", "all")),
            H("hv_prune_many", "3 fields of different types, 3-5 filters at once with 3 symbolic literals, both schema orders", ("none", "some"))],
     thorough=[H("hv_prune_types_all", "as quick with all operators", ("none", "some", "all")), H("hv_prune_str3", "literal of up to 3 bytes", ("none", "some", "all")), H("hv_prune_two_all", "2 fields, all operator pairs", ("none", "some", "all"))],
     assumptions=["partition values parse as the column's type"])
prop("C09", "Filter operators compare correctly and negate to their complement",
     "A filter's comparison gives for every value the mathematical (integers) or bytewise (strings) answer, null for null; its negation gives exactly the complement on non-null values and negates back to itself. A literal that is no value of the column's type, or an unknown column, is an error. Exactly the six operator tokens are accepted, in any filter position, and filters convert to tuples and back unchanged.",
     ["inputs"], "All 32- and 64-bit integers, strings up to the bound, all operator strings up to 3 ASCII bytes.",
     "Tests compare single values per operator.",
     ["crates/core/src/expr/filter.rs", "crates/core/src/expr/mod.rs"], [("comparison", "crates/core/src/expr/filter.rs: apply_comparsion"), ("operators", "crates/core/src/expr/mod.rs: negate, from_str")],
     quick=[H("hv_filter_int", "any i32 column value, 6 literals incl. extremes, 6 operators"), H("hv_filter_long", "any i64 column value, literals 00..99"), H("hv_filter_literal", "literals of 0-5 printable ASCII bytes, any i32 value, 32- and 64-bit columns", ("error", "value")), H("hv_filter_range", "20 literals at and beyond the range of 9 column types, known and unknown column", ("ok", "error")),
            H("hv_filter_str", "column strings of 0-2 printable bytes, literals of 1-2"), H("hv_filter_tuple", "names and values of 0-2 ASCII bytes, 6 operators, parsed or built", ("built", "parsed")), H("hv_filter_ops", "operator strings of 0-3 ASCII bytes", ("accepted", "rejected"))],
     assumptions=[])
prop("C10", "Splits partition the file slices evenly",
     "For every requested number n, the splits together contain every file slice of the read exactly once, none is empty, there are at most max(n,1) of them and none holds more than ceil(slices/n).",
     ["inputs"], "Every n (small or near the maximum) and slice count up to the bound, snapshot and as-of.",
     "Tests use two values of n on one table.",
     [T + "mod.rs"], [("splitting", T + "mod.rs: get_file_slices_splits_internal")],
     quick=[H("hv_splits", "1-4 file slices, n in 0..255 and the 256 largest values, 3 calls", ("more", "fewer"))],
     thorough=[H("hv_splits9", "1-9 file slices", ("more", "fewer"))], assumptions=[])
prop("C11", "Base and log file names decode faithfully; malformed names are errors",
     "Every well-formed base file name and log file name decodes into exactly its parts and encodes back to the same name. Every other name is an error: no part is silently dropped, nothing panics.",
     ["inputs"], "Arbitrary bytes in every position of a name, and short names over the separator alphabet.",
     "Tests check a dozen literal names.",
     [FG + "base_file.rs", LF + "mod.rs"], [("base file names", FG + "base_file.rs: parse_file_name"), ("log file names", LF + "mod.rs: parse_file_name")],
     quick=[H("hv_basename", "stem of 0-5 characters of a - _ . with 6 tails", ("valid", "invalid")), H("hv_basename_bytes", "two arbitrary ASCII bytes at every position of a valid name", ("valid", "invalid")),
            H("hv_logname", "two parts of 0-4 characters around 4 middles incl. multi-byte", ("valid", "invalid")), H("hv_logname_bytes", "two arbitrary ASCII bytes at every position of a valid name", ("valid", "invalid"))],
     assumptions=["ASCII 1..126 for the symbolic bytes"])
prop("C20", "File groups built from commit metadata are complete",
     "The file groups built from a commit's metadata are exactly those of its write stats, each with its base file and every log file of every stat that names it; replaced file groups are exactly those listed. Malformed metadata is an error, never a panic or a partial result.",
     ["inputs"], "Every assignment of write stats to partitions and file groups up to the bound; a list of malformed shapes.",
     "Tests build from single-stat metadata.",
     [FG + "builder.rs", FG + "mod.rs"], [("building", FG + "builder.rs: build_file_groups, build_replaced_file_groups")],
     quick=[H("hv_vary", "one symbolic character in file id, partition name or write token; write statistics with and without writes; update, then replacement; 5 reads", ("snapshot", "as of", "incremental")), H("hv_md_groups", "3 write stats over 2 partitions x 2 file groups, symbolic log versions"), H("hv_md_bad", "18 write-stat and 5 replacement shapes")],
     assumptions=["one base file per file group and instant"])
MD = "timestamps share date and time up to the last digit, which is symbolic (all orderings and ties)"
prop("C12", "File slices hold exactly their own files, log files in version order",
     "Every log file belongs to the slice of its base instant, ordered by numeric version whatever order files are listed or added in; files that are neither base nor log files (markers, checksums, partition metadata, change logs) belong to none; the slice as of a time is the one of the latest base instant at or before it. Merging file groups gives the union of their slices and log files. A second base file of an instant, a log file without its base file and merging different file groups are errors.",
     ["inputs"], "Every base instant, log version and insertion order up to the bound.",
     "Tests add a few files in ascending order.",
     [FG + "mod.rs", FG + "file_slice.rs", LF + "mod.rs"], [("order of log files", LF + "mod.rs: Ord for LogFile"), ("slices", FG + "mod.rs: add_log_file, get_file_slice_as_of, merge")],
     quick=[H("hv_mor_vary", "merge-on-read: one symbolic character in file id, partition name or log token; ids shared by two partitions; 4 reads", ("snapshot", "as of", "incremental")), H("hv_logorder", "any two log files: one symbolic digit of base instant, versions 1-99, two write tokens"), H("hv_logorder3", "three log files of versions 1-99, any insertion order"),
            H("hv_assembly", "two base instants, three log files of either with versions 1-4; " + MD, ("slice", "none")), H("hv_ls_stray", "2 of 14 names of other files next to the data files of 2 commits, partitioned or not, 2 listing orders"), H("hv_fg_merge", "three file groups with 0-1 log files each, base instants with symbolic last digit, both merge orders", ("distinct", "shared"))],
     assumptions=["log files without a base file are not supported by this release"])
prop("C13", "Log files decode to exactly the records written, block by block",
     "Reading a file slice with log files yields every record of every data block exactly once, in the order of file version and block position, for every log format version, block type (parquet and avro data, rollback commands), header order and footer, wherever the blocks are placed.",
     ["inputs"], "Every sequence of blocks over types, format versions and files up to the bound, in any listing order.",
     "Tests decode recorded log files with one or two blocks of one type.",
     [LF + "reader.rs", LF + "content.rs", LF + "log_block.rs", LF + "scanner.rs"], [("block framing", LF + "reader.rs: read_all_blocks"), ("content", LF + "content.rs: decode_content")],
     quick=[H("hv_big", "1, 1024, 1025 or 2050 rows in a base file, parquet or avro log block, any value of the last row", ("base", "parquet block", "avro block")), H("hv_log_frame", "2 blocks x 5 kinds x 3 format versions in 2 log files of versions 1-9 and 10, 2 listing orders, 2 insertion orders", ("rows", "empty")), H("hv_log_many", "a base file, parquet block or avro block of 1, 1023, 1024, 1025 or 2049 records, one of 4 places changed with a symbolic precombine value", ("several batches", "one batch"))],
     thorough=[H("hv_log_frame3", "3 blocks of 3 kinds", ("rows", "empty"))],
     assumptions=["schemas fixed"])
prop("C14", "Damaged log files give an error, never a crash or wrong framing",
     "A log file cut short or with corrupted bytes makes the read fail with an error or yields records, but never a panic, abort, hang or unbounded allocation; a file cut inside a block or with a damaged block magic is an error, and one cut at a block boundary gives exactly the records of the complete blocks.",
     ["inputs", "crash_points"], "Every truncation point and every byte value at every position.",
     "Tests feed a few broken magics and headers.",
     [LF + "reader.rs", LF + "content.rs", LF + "avro.rs", LF + "log_block.rs"], [("block framing", LF + "reader.rs: create_block"), ("record framing", LF + "avro.rs: next")],
     quick=[H("hv_log_trunc", "an avro data block and a command block cut at every byte, 3 format versions", ("boundary", "error")), H("hv_log_corrupt1", "one arbitrary byte at every position of the two blocks", ("read", "error"))],
     thorough=[H("hv_log_corrupt2", "two arbitrary bytes at every even position", ("read", "error"), time=3000)],
     assumptions=["fewer than 6 trailing bytes (an incomplete magic) count as the end of the file"])
prop("C15", "Log records of uncommitted or rolled back writes are never visible",
     "Log blocks written by a deltacommit that has not completed, or that a later rollback block names, contribute to no snapshot, time-travel or incremental read, at any step of the writer or of the rollback and wherever the blocks lie.",
     ["histories", "crash_points"], "Every crash point of the deltacommit, every order of instants and reads, three placements of the blocks.",
     "Tests read one recorded table with a rollback.",
     [LF + "scanner.rs", LF + "reader.rs", TL + "mod.rs", FG + "reader.rs"], [("rolled back blocks", LF + "scanner.rs: scan"), ("pending instants", TL + "mod.rs: find_pending_timestamps")],
     quick=[H("hv_mor_pending", "a deltacommit at any of 5 steps next to a completed one, blocks in one file or two; " + MD, ("committed", "uncommitted")),
            H("hv_mor_rollback", "a rolled back deltacommit, a completed one and the rollback, 3 placements, timeline before and after clean-up; " + MD, ("before the rollback", "after the rollback")),
            H("hv_mor_rollback2", "two rollbacks over three deltacommits (parquet and avro blocks), targets, order and layout of the blocks chosen, a symbolic digit, 5 read times", ("one rolled back", "two rolled back"))],
     assumptions=["non-partitioned merge-on-read table"])
prop("C16", "Record merging keeps exactly the latest version of each key",
     "Merging base and log records with the overwrite-with-latest strategy gives one whole row per record key, its columns matched by name: the one with the greatest precombine value, ties broken by commit sequence number, nulls lowest. Append-only keeps every row in order.",
     ["inputs"], "Any precombine values including extremes and nulls, any assignment of keys, any batch boundaries up to the bound.",
     "Tests merge a few literal rows.",
     ["crates/core/src/merge/record_merger.rs", "crates/core/src/util/arrow.rs"], [("merging", "crates/core/src/merge/record_merger.rs: merge_record_batches"), ("row order", "crates/core/src/util/arrow.rs: lexsort_to_indices")],
     quick=[H("hv_merge", "3 rows in 1 or 2 batches, any 64-bit precombine values or null, one symbolic digit of sequence number, keys in every pattern", ("distinct", "duplicates")),
            H("hv_merge4", "4 rows in 3 batches, any 32-bit precombine values, at most 3 keys", ("duplicates",)),
            H("hv_merge_types", "3 rows in 1-3 batches (some empty), precombine columns of 7 more types with any value of 8-64 bits, one of them null or not", ("duplicates",)),
            H("hv_merge_columns", "a base and a log batch whose columns are permuted (any two), fewer, more, renamed or wider (any one), any 32-bit precombine values, both strategies", ("merged", "error"))],
     assumptions=["record keys are not null"])
prop("C17", "Merge-on-read reads equal base plus the log records in range",
     "For a merge-on-read table, a snapshot equals the merge of the latest slice's base and log records; a read as of T that of the base and log records written at or before T, whatever was appended later, decodable or not; an incremental read the merged records of the window; across compactions, complete or pending. Read-optimized reads give the base records only.",
     ["histories", "inputs"], "Every order of delta commits, compaction and read times, precombine values, log layouts and listing orders up to the bound.",
     "Tests read recorded merge-on-read tables at one or two times.",
     [FG + "reader.rs", LF + "scanner.rs", TL + "selector.rs", T + "listing.rs"], [("slice reading", FG + "reader.rs: read_file_slice"), ("instant range", TL + "selector.rs: InstantRange"), ("log files of pending compactions", T + "listing.rs: list_file_groups_for_partition")],
     quick=[H("hv_mor_vary", "merge-on-read: one symbolic character in file id, partition name or log token; ids shared by two partitions; 4 reads", ("snapshot", "as of", "incremental")), H("hv_big", "1, 1024, 1025 or 2050 rows in a base file, parquet or avro log block, any value of the last row", ("base", "parquet block", "avro block")), H("hv_mor_asof", "2 delta commits with 3 upsert shapes each, symbolic precombine values, 3 layouts; " + MD, ("before", "between", "after")),
            H("hv_mor_compact", "base, delta, compaction at any of 4 steps, delta; 2 listing orders", ("compacted", "compaction pending")),
            H("hv_mor_inc", "any window over base, delta, optional compaction, delta", ("some", "none")), H("hv_mor_later_block", "an undecodable block of 6 types in 3 versions after or before the read time", ("before", "after"))],
     assumptions=["overwrite-with-latest strategy; log blocks hold parquet data (avro in C13)"])
prop("C18", "Settings resolve by precedence, parse exactly, are validated and have defaults",
     "Every setting comes from hoodie.properties, else explicit options, else generic options, else the global defaults file (cloud storage options, in either case: else the environment); properties files parse line by line whatever text they hold; Hudi and storage options are kept apart. A typed setting with an invalid value, or a missing required one, makes opening the table an error and never a panic; absent optional settings behave as documented; no accepted setting makes a read hang.",
     ["inputs"], "Every subset of sources, arbitrary text in a properties line, every one-byte mutation of setting values, every subset of present settings.",
     "Tests check single sources and literal values.",
     ["crates/core/src/table/builder.rs", "crates/core/src/config/mod.rs", "crates/core/src/config/table.rs", "crates/core/src/config/read.rs", "crates/core/src/config/util.rs"],
     [("precedence", "crates/core/src/table/builder.rs: resolve_options"), ("parsing", "crates/core/src/config/util.rs: parse_data_for_options"), ("validation", "crates/core/src/table/builder.rs: validate_configs")],
     quick=[H("hv_conf_prec", "every subset of 4 sources and of 2 storage option sources, symbolic values, both call orders, 4 delimiters", ("set", "unset")), H("hv_conf_parse", "up to 3 arbitrary ASCII bytes in a line after 3 prefixes", ("settings",)),
            H("hv_conf_values", "14 typed settings, valid values with one arbitrary byte at every position", ("accepted", "rejected")), H("hv_conf_missing", "every subset of 10 settings, reading a merge-on-read table", ("accepted", "rejected")),
            H("hv_conf_env", "3 cloud storage options from every subset of explicit, generic and environment, two spellings; 3 configuration directories; 4 other environment variables", ("set", "unset")),
            H("hv_conf_parallelism", "listing parallelism 0-20, 1-3 partitions")],
     thorough=[H("hv_conf_parse4", "up to 4 arbitrary ASCII bytes", ("settings",))],
     assumptions=["an option is not given in two spellings at once"])
prop("C19", "Avro log records become exactly the Arrow values they hold",
     "Reading an Avro data block gives one row per record, whose columns have the schema's names, nullability and types and hold exactly the record's values: scalars bit for bit, nulls as nulls, lists and records item by item at any nesting. A schema that is not supported is an error, never a panic or changed values.",
     ["inputs", "programs"], "Every value of every scalar type, every shape of lists, records and nulls and every combination of types up to the bound.",
     "Tests decode two records with a long and a string.",
     ["crates/core/src/avro_to_arrow/arrow_array_reader.rs", "crates/core/src/avro_to_arrow/schema.rs", LF + "content.rs"], [("value conversion", "crates/core/src/avro_to_arrow/arrow_array_reader.rs: build_struct_array, build_nested_list_array"), ("type mapping", "crates/core/src/avro_to_arrow/schema.rs: schema_to_field_with_props")],
     quick=[H("hv_avro_scalar", "19 scalar types, plain or in a union with null first or last, any value in the first of 2 records, strings up to 2 bytes", ("values", "null")),
            H("hv_avro_list", "lists of 7 item types, nullable or not at both levels, 2 records of up to 2 items", ("values", "null")),
            H("hv_avro_nested", "6 nestings of lists and records up to depth 4, each level nullable or not, 2 records, lists of up to 2 items", ("values", "null")),
            H("hv_avro_unsupported", "10 unsupported types, at top level, in a union and in a record", ("error",))],
     thorough=[H("hv_avro_list3", "3 records", ("values", "null"))],
     assumptions=["well-formed record bytes (damaged ones in C14)"])
prop("C24", "A storage failure makes the read fail; it never yields partial data",
     "If any storage operation (listing, metadata or data read) of opening or reading a table, also through DataFusion, fails, with an I/O error or as not found, the read returns an error: never a result with missing or extra rows, never a panic.",
     ["fault_sequences"], "A failure at any storage operation of any read API on copy-on-write, partitioned and merge-on-read tables.",
     "Tests have no fault injection.",
     ["crates/core/src/storage/mod.rs", T + "mod.rs", T + "listing.rs", TL + "mod.rs", FG + "reader.rs", "crates/datafusion/src/lib.rs"], [("storage access", "crates/core/src/storage/mod.rs"), ("listing", T + "listing.rs")],
     quick=[H("hv_fault", "3 tables x 3 read APIs, the index of the failing operation symbolic (0-255), 3 kinds of failure (I/O error, not found, I/O error after half of the content)", ("error", "not reached")),
            H("hv_df_fault", "a DataFusion query (open, plan, execute) with a partition predicate, the index of the failing operation symbolic (0-127), 3 kinds of failure", ("error", "not reached"), crate="df")],
     assumptions=["one failing operation per run; a failure of the optional global configuration file is not covered"])
prop("C25", "DataFusion scans read every partition that may hold matching rows",
     "A DataFusion scan of a table succeeds with any predicates, and reads each base file of the latest snapshot at most once, leaving out only files of partitions in which no row can satisfy the predicates; rows are always filtered again, as no filter is reported as exactly applied. The files are given by their actual paths, in at most the configured number of groups, with the projected columns. The rows delivered are the table's, none twice and with a limit no fewer than asked for.",
     ["inputs", "programs"], "Every predicate shape, operator, literal and side, every partition value and number of input partitions up to the bound.",
     "Tests run a handful of queries on prepared tables.",
     ["crates/datafusion/src/lib.rs", "crates/datafusion/src/util/expr.rs"], [("scan", "crates/datafusion/src/lib.rs: scan, supports_filters_pushdown"), ("predicate conversion", "crates/datafusion/src/util/expr.rs: exprs_to_filters")],
     quick=[H("hv_df_filters", "2 partitions of a string or int field, hive-style or not; one predicate of 10 shapes, 8 operators, NULL or a literal of up to 2 printable characters or -3..20; 1-3 input partitions", ("pruned", "all", "not pushed"), crate="df"),
            H("hv_df_pair", "two predicates of 2 shapes and 3 operators with such literals", ("pruned", "all"), crate="df"),
            H("hv_df_paths", "partition values of any 2 printable characters without / \" \\\\, 3 projections", ("end",), crate="df"),
            H("hv_df_rows", "the plan of a scan of 5 files of 2 row groups in 3 partitions, one older than a column, executed: 6 limits, 3 projections, 3 numbers of groups", ("limit", "all"), crate="df"),
            H("hv_df_rows_pred", "the same with one predicate on one of 3 columns: 6 operators, either side, literals -5..55", ("some", "all"), crate="df"),
            H("hv_df_create", "CREATE EXTERNAL TABLE options: number of input partitions given, set in the session, left out or text that is no number", ("given", "session", "default", "rejected"), crate="df"),
            H("hv_df_many", "9-12 partitions, 7 numbers of input partitions, any lower bound", ("end",), crate="df")],
     thorough=[H("hv_df_pair_all", "two predicates of 3 shapes and 6 operators", ("pruned", "all"), crate="df", time=400)],
     assumptions=["latest snapshot of copy-on-write tables; DataFusion itself is trusted to evaluate what the scan returns"])
prop("C26", "Reads on one table handle are isolated from writers and from each other",
     "A table handle reads the timeline it was opened with. A read concurrent with a writer sees all of an action or nothing of it, wherever the writer's steps fall between the reader's storage operations; actions that complete or crash after opening never change what the handle returns for any time; and reads with different filters or times on one handle, one after another or at the same time, each return (in bounded time) what they return alone.",
     ["schedules", "histories"], "Every interleaving of a writer's steps with the storage operations of opening and reading; every step between two reads; every sequence of three filtered reads; every interleaving of two reads made by one or two slow storage operations.",
     "Tests never write while reading and seldom read twice from one handle.",
     [T + "mod.rs", T + "fs_view.rs", T + "listing.rs", TL + "mod.rs"], [("file listing per read", T + "fs_view.rs: load_file_groups"), ("pending instants", TL + "mod.rs: find_pending_timestamps"), ("read time", T + "mod.rs: cap_timestamp")],
     quick=[H("hv_live", "the 5 steps of a commit, replacecommit or deltacommit writer, each before any of the first 60 storage operations of opening and 3 reads", ("before", "after")),
            H("hv_handle", "3 tables, first read of 4 kinds, then a writer of 2-3 kinds does up to 5 steps, then all 4 reads; " + MD, ("completed", "pending", "unchanged")),
            H("hv_handle_filters", "two reads of 5 filter shapes (none, =, !=, <, >=) with symbolic literals, then an unfiltered one, each at either time", ("none", "some")),
            H("hv_join", "two reads joined on one handle (snapshot, as of, incremental, filtered), 3 tables, any one of their first 50 storage operations pending for 1, 4 or 30 polls", ("plain", "partitioned", "merge-on-read"))],
     thorough=[H("hv_join2", "the same with any two operations pending", ("plain", "partitioned", "merge-on-read"), time=2400)],
     assumptions=["one writer at a time; data files are immutable; concurrent reads share one thread"])
prop("C21", "Every file is found under its actual path, with its actual size and row count",
     "Whatever the names and depth of partition directories and of the table's base path (blanks, percent signs, non-ASCII, dots, equal signs), every read finds each base file exactly once, returns its rows, and reports for each file slice the partition path, a relative path that leads to the file, and, in a snapshot, the file's true size, row count and byte size.",
     ["inputs"], "Every directory name up to the bound at every depth up to the bound, as partition or in the base path.",
     "Tests use tables with a handful of tame directory names.",
     ["crates/core/src/storage/mod.rs", "crates/core/src/storage/util.rs", "crates/core/src/storage/file_metadata.rs", T + "listing.rs", FG + "base_file.rs", FG + "file_slice.rs"], [("path joining", "crates/core/src/storage/util.rs: join_url_segments, parse_uri"), ("directory walk", "crates/core/src/storage/mod.rs: get_leaf_dirs, list_dirs, list_files"), ("file metadata", "crates/core/src/storage/mod.rs: get_file_metadata, get_parquet_file_metadata")],
     quick=[H("hv_vary", "one symbolic character in file id, partition name or write token; write statistics with and without writes; update, then replacement; 5 reads", ("snapshot", "as of", "incremental")), H("hv_loc_parts", "directory names of any 2 printable characters (without / \" \\\\) or any 2-byte UTF-8 letter of U+00C0-U+07FF, at 5 places at depth 1-3 among 2 partitions, 2 commits", ("read",)), H("hv_loc_base", "such names at 3 places in the base path, given as path or URL of 2 schemes, with or without a slash at the end, partitioned or not", ("read",)),
            H("hv_row_groups", "base files of 0-5 rows in row groups of 1-3 rows, plain, snappy (with dictionaries and statistics) or gzip", ("several", "one"))],
     assumptions=["object store keys as object_store's Path defines them; names starting with a dot or holding a slash are no partition directories"])
prop("C22", "Times in seconds or milliseconds select by time; malformed times are errors",
     "A time given to a time-travel or incremental read selects the same commits whether it is written with seconds (14 digits) or milliseconds (17 digits, zeros added), relative to instants of either form, in the timeline's time zone (UTC or local): the read returns exactly the rows of the commits up to, or after, that time. Any other text is an error, wherever it would sort among the commits.",
     ["inputs", "histories"], "Every pair of forms of the time and of instants around it, on both table types, each read API; a list of malformed times.",
     "Tests pass 17-digit times to tables with 17-digit instants.",
     [T + "mod.rs", TL + "instant.rs", FG + "reader.rs"], [("normalising", TL + "instant.rs: to_millis_format"), ("row filter", FG + "reader.rs: create_filtering_mask_for_base_file_records")],
     quick=[H("hv_arg14", "copy-on-write: time, window start and the instants of an update and of a replacement each in 14 or 17 digits, seconds 1-3, milliseconds 0-2; splits, table and slice readers", ("rows", "empty")), H("hv_arg14_mor", "merge-on-read: the same with the update in a log file", ("rows", "empty")), H("hv_range", "instant ranges of 5 kinds, each end included or not, ends and time in 14 or 17 digits with 2 symbolic digits each; 6 malformed times", ("in", "out")), H("hv_local_table", "tables with a local timeline in 3 time zones on two days clocks are set back, symbolic hours of two instants and of the time"), H("hv_arg_bad", "6 texts, each as is or with any one byte changed to any ASCII character", ("valid", "invalid"))],
     assumptions=["time zones as POSIX rules; time zone files are not read"])
prop("C23", "The table schema is that of the latest commit that wrote data",
     "The Avro and Arrow schemas a table reports are those recorded by the latest completed commit that carries one, whatever later actions without schema (delete-partition, empty commits) or pending actions follow; the Arrow schema's fields keep names, order, types and nullability, and the partition schema holds exactly the partition fields, in the table schema's types. A table without any schema is an error or an empty schema, never a panic.",
     ["histories"], "Every sequence of up to the bounded number of actions, each with or without schema or files, completed or pending.",
     "Tests read the schema of recorded tables whose latest commit has one.",
     [TL + "mod.rs", "crates/core/src/schema/resolver.rs", "crates/core/src/schema/mod.rs", T + "mod.rs"], [("schema resolution", "crates/core/src/schema/resolver.rs"), ("latest schema", TL + "mod.rs: get_latest_avro_schema, get_latest_schema")],
     quick=[H("hv_schema", "3 actions whose order in time is symbolic: commit, replacecommit, delete-partition or deltacommit, each with, without or with empty schema; 4 partition field settings", ("first", "later"))])
prop("C27", "Reading slice by slice equals reading the table at once",
     "Distributing a read over file slices - through splits, through the table's file group readers or through a standalone reader made from the base URI, with the same times - yields together exactly the rows of reading the table at once, latest, as of a time or incrementally; every slice is read independently of the others.",
     ["histories", "inputs"], "Every write pattern, time, way of reading and number of splits up to the bound.",
     "Tests read single slices of recorded tables.",
     [T + "mod.rs", FG + "reader.rs", FG + "file_slice.rs"], [("slice reader", FG + "reader.rs: read_file_slice, read_file_slice_by_base_file_path"), ("reader creation", T + "mod.rs: create_file_group_reader_with_options")],
     quick=[H("hv_readers", "both table types; update and rewrite or replacement at symbolic times; symbolic precombine value, as-of time, number of splits (0-3), 2 listing orders", ("window", "empty window")), H("hv_reader_base", "a base file of 3 rows with symbolic commit times, read by path with or without start and end (2 digits each)", ("some", "all"))],
     assumptions=["no write pending when a standalone reader reads merge-on-read slices: it has no timeline to tell pending log blocks"])

prop("C28", "The Python API returns what the Rust API returns",
     "For every table, filter and timestamp, the Python binding's methods return the same slices, instants, settings and rows as the Rust methods they wrap, and raise HudiCoreError exactly where those return an error.",
     ["inputs", "programs"], "Every method and argument of the binding.", "Tests of the binding call each method once on one table.",
     ["python/src/internal.rs", "python/src/lib.rs"], [("wrapping", "python/src/internal.rs")],
     na="The binding's code runs only inside a CPython process: its entry points are pyo3 trampolines that take the interpreter lock and convert through libpython and pyarrow, of which there is no LLVM IR to execute symbolically. The Rust methods it forwards to are decided by the other properties.")
prop("C29", "Every storage backend gives the reads the same content",
     "Local disk, memory, S3, GCS and Azure locations are opened with the credentials and endpoints given as options or environment variables, and the same table gives the same results on all of them.",
     ["inputs"], "Every backend, option and table.", "Tests use local tables; the cloud ones need a running MinIO.",
     ["crates/core/src/storage/mod.rs"], [("object stores", "crates/core/src/storage/mod.rs: Storage::new")],
     na="What differs between backends is in the object_store crate's clients (HTTP, TLS, system calls on files), not in this repository, which only hands them the location and options; sockets and the kernel are outside what can be executed symbolically. The repository's own use of a store is decided over an injected one.")
