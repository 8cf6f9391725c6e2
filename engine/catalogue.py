"""The properties: what is claimed, where it is anchored and which rule modules
decide it.  bin/gen writes properties.jsonl and MANIFEST.json from here."""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, observe, modules=None, technique="", note="", na=None,
      state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=[{"name": a, "where": b} for a, b in mechanism], observe=observe, modules=modules or [],
                      technique=technique, note=note, na=na, state=state))


SOUND = ("Every instance found in the resolved program is analysed on all abstract paths (branches, loops to a fixpoint, "
         "exceptions, helpers entered). Trusted: the clang front end, the summary of library calls stated in DESIGN.md, "
         "and that what is not compiled here (bufr, vm2) is not judged. ")

P("P04", "A short read or write is never taken for a complete one",
  "Whenever the system transfers fewer bytes than asked while data, metadata, indices or summaries are read or written, "
  "the operation either goes on until all the bytes are transferred or fails with an error. It never reports success "
  "with a part of the bytes missing.",
  ["fault_sequences", "inputs"],
  "every transfer call in the system, with every possible short count at every call",
  "The tests run on local files where reads and writes are complete; short transfers come with full disks, signals, pipes "
  "and truncated files.",
  ["arki/utils/sys.cc", "arki/metadata.cc", "arki/stream", "arki/segment/data", "arki/types/bundle.cc"],
  [("complete transfer helpers", "arki/utils/sys.cc write_all_or_retry, read_all_or_throw"),
   ("segment appends and reads", "arki/segment/data/*.cc")],
  ["result or exception of the operation", "bytes in the file"],
  ["shortio"], "path-sensitive typestate analysis of transfer calls",
  SOUND + "Each transfer call is split into complete, none and partial; tolerated cases are listed with a reason.")

P("P05", "A failed system or library call is never taken for success",
  "When a call to the operating system or to the compression, archive, HTTP or decoding libraries fails, the operation "
  "that needed it ends with an error visible to its caller. It never goes on and reports success.",
  ["fault_sequences"],
  "every call site of a fallible C function, with failure injected at every one of them",
  "Tests do not make close, fsync, rename, zip or curl calls fail; each call site has its own error handling.",
  ["arki/utils/sys.cc", "arki/utils", "arki/segment/data", "arki/core/curl.cc", "arki/stream"],
  [("wrappers that throw", "arki/utils/sys.cc"), ("library wrappers", "arki/utils/zip.cc, gzip.cc, subprocess.cc, arki/core/curl.cc")],
  ["exception or error result reaching the caller"],
  ["failures", "swallow"], "fault-forking dataflow analysis over every fallible call",
  SOUND + "Each fallible call forks into success and failure; tolerated failures are listed one by one with a reason.")

P("P06", "A failed database call is never taken for success",
  "When the database engine reports an error while an index is opened, read, written or committed, the operation ends "
  "with an error visible to its caller. A query that cannot be completed never looks like one with fewer results.",
  ["fault_sequences"],
  "every call to the database engine, with every error it can report",
  "Tests never see the database fail (disk full, busy, corruption), except where a constraint is violated on purpose.",
  ["arki/utils/sqlite.cc", "arki/segment/iseg/index.cc"],
  [("statement stepping and transactions", "arki/utils/sqlite.cc Query::step, execute, SqliteTransaction"),
   ("index queries", "arki/segment/iseg/index.cc")],
  ["exception reaching the caller"],
  ["sqlitefail", "swallow"], "fault-forking dataflow analysis over every database call",
  SOUND)

P("P07", "Data and its index are used only under the lock the operation needs",
  "While a dataset's list of segments, index or data is read, the reading process holds at least a read lock on it; while "
  "it is added to or changed, an append or check lock; while data is rewritten in place, the write upgrade of a check "
  "lock. The lock covers the whole access and is the one of the segment accessed.",
  ["schedules", "histories"],
  "every access to a manifest, segment or data file by dataset code, in every interleaving with other processes",
  "Tests run one process at a time, so a lock taken late, dropped early or on the wrong file changes nothing they see.",
  ["arki/dataset/simple", "arki/dataset/iseg", "arki/dataset/segmented.cc", "arki/segment", "arki/core/lock.cc"],
  [("locks taken by datasets", "arki/dataset/{simple,iseg}/*.cc"), ("fixers", "arki/segment.cc Checker::fixer"),
   ("manifest", "arki/dataset/simple/manifest.cc")],
  ["locks held at each access"],
  ["lockuse"], "lock-held dataflow analysis, ownership of locks, who-may-call analysis of data mutators",
  SOUND + "The access is judged in the function where the lock lives; helpers are judged through their callers.")

P("P08", "Conflicting operations exclude each other",
  "A repair or repack that changes data excludes readers, writers and other checks; a writer excludes other writers and "
  "checks but not readers; a check that only looks does not exclude readers. A lock that is requested is waited for or "
  "reported as not available, never assumed; upgrading a check to a rewrite keeps the dataset protected throughout.",
  ["schedules", "configurations"],
  "every pair of lock kinds, every lock file and every result of the locking call",
  "Conflicts need two processes at the right time; the tests use a few of the pairs and the default policy.",
  ["arki/core/lock.cc", "arki/core/lock.h", "arki/utils/lock.cc", "arki/dataset/local.cc", "arki/dataset/segmented.cc"],
  [("lock classes", "arki/core/lock.cc"), ("lock files", "arki/dataset/segmented.cc, arki/dataset/iseg/dataset.cc")],
  ["fcntl requests made for each lock kind", "path of the lock file"],
  ["lockprim"], "abstract interpretation of the lock primitives down to fcntl requests, conflict matrix",
  SOUND + "fcntl record locks are trusted to behave as documented.")

P("P14", "A consumer that asks to stop is obeyed and never called again",
  "When a receiver of query results answers that it wants no more, it is not called again by that query, whatever the "
  "dataset kind, sorting or merging. The query then reports to its caller that it was stopped, and a query that was not "
  "stopped never reports so.",
  ["inputs", "histories", "configurations"],
  "every data source, every sequence of results and every position at which the receiver declines",
  "Tests stop at one position on few dataset kinds; the protocol goes through about seventy functions that forward it.",
  ["arki/dataset.h", "arki/dataset", "arki/metadata/sort.cc", "arki/metadata/collection.cc", "arki/metadata/stream.cc", "arki/segment"],
  [("delivery through metadata_dest_func", "arki/dataset/*.cc, arki/segment/*.cc"), ("sorted delivery", "arki/metadata/sort.cc")],
  ["calls of the receiver", "return value of the query"],
  ["consumer"], "typestate analysis of the consumer callback protocol",
  SOUND + "The one place where the request crosses the Python interpreter is listed as not judged.")

P("P10", "Maintenance does to each segment exactly what its state calls for",
  "Check and repack visit every segment they apply to, online or archived as asked, find its state and do what that "
  "state calls for and nothing else: repack packs what is dirty, archives or deletes what is old enough and drops what "
  "is deleted or missing; a fixing check rescans what is unaligned and drops what is missing from the index; a corrupted "
  "segment is reported and left alone. Without permission to fix, everything is only announced. Bulk operations act "
  "only on the segments they apply to, and on all of these. When maintenance fails half way the dataset is marked and "
  "not repacked until a fixing check succeeds.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all 128 combinations of segment states, every list of segments, every option and a failure at every step",
  "Tests try one problem at a time on small datasets; combinations of states and failures in the middle are not tried.",
  ["arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/simple/checker.cc", "arki/dataset/iseg/checker.cc",
   "arki/dataset/archive.cc", "arki/dataset/local.cc"],
  [("agents that act or announce", "arki/dataset/maintenance.cc"), ("drivers", "arki/dataset/segmented.cc Checker::check, repack"),
   ("visits of segments", "arki/dataset/{simple,iseg}/checker.cc"), ("archives", "arki/dataset/archive.cc, local.cc")],
  ["operations requested on each segment", "reports", "the needs-check mark"],
  ["maint"], "abstract interpretation of the agents for every state combination, typestate analysis of drivers and visits",
  SOUND + "That the state found for a segment is the right one is P11.")

P("P16", "Cached summaries never outlive the data they describe",
  "A summary query gives the same answer whether or not a cached summary is there. When data is imported, removed, moved "
  "to or from the archives, or a segment is rescanned or dropped, the cached summaries that cover it are dropped by the "
  "same operation. A cache is written only from a complete, unrestricted computation of what it stands for, is used only "
  "by queries it can answer, and what it gives still goes through the filter of the query.",
  ["histories", "inputs"],
  "every operation that changes data, every path of it, and every query that reads or writes a cache",
  "Tests look at caches after one import; the other operations that must drop them, and the paths on which they do not, are many.",
  ["arki/dataset/index/summarycache.cc", "arki/dataset/simple", "arki/dataset/iseg", "arki/dataset/archive.cc", "arki/dataset/segmented.cc"],
  [("cache files", "arki/dataset/index/summarycache.cc"), ("invalidation", "arki/dataset/{simple,iseg}/{writer,checker}.cc"),
   ("use", "arki/dataset/{simple,iseg}/reader.cc")],
  ["cache files present after an operation", "result of a summary query"],
  ["sumcache"], "must-happen dataflow analysis of invalidation, origin analysis of what is cached",
  SOUND + "A reader that rebuilds a cache while a writer is between its commit and the invalidation is not judged, nor is a crash there.")

P("P01", "Import reports data as stored only when data and index are committed",
  "When an import reports data as stored, the data and then its metadata or index entry have been written and committed, "
  "in that order, and point to the same place. When any step fails, everything in the batch is reported as failed, "
  "nothing of it counts as imported and the index is not committed. Data that is rejected is not written. The list of "
  "segments of a simple dataset, re-read under the lock, lists every segment that received data, and is written.",
  ["fault_sequences", "inputs", "histories"],
  "every implementation of the import, every replacement policy, every batch and a failure at every step",
  "Tests import good data; a failure between the write of the data, its commit and that of the index is not tried.",
  ["arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/segment/scan.cc", "arki/dataset/simple/writer.cc",
   "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/writer.cc"],
  [("import of a batch", "arki/segment/metadata.cc Writer::acquire, arki/segment/iseg.cc Writer::acquire_batch_*"),
   ("list of segments", "arki/dataset/simple/manifest.cc, writer.cc")],
  ["result of each element of the batch", "data, index and metadata files after the import"],
  ["commit"], "typestate analysis of the import protocol with a failure at every call",
  SOUND + "That a commit is durable and a rollback complete is P02.")

P("P02", "What is not committed leaves no trace, what is committed stays",
  "Until a transaction on data, on files or on the index is committed, it can be undone: rolling back, destroying it or "
  "failing removes everything it wrote, appended or created and nothing else, never throws from a destructor and leaves the "
  "writer ready for more. Once it is committed, data is flushed to disk and no later rollback removes it. Code that opens a "
  "transaction commits it, undoes it or hands it over on every path that ends normally, and several changes of an index are one transaction.",
  ["fault_sequences", "histories"],
  "every kind of transaction, every sequence of append, commit and rollback, a failure at every step",
  "Tests commit; the undoing half runs only when something fails in the middle, and mixing commits and rollbacks on one writer is rare.",
  ["arki/core/transaction.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/utils/files.cc", "arki/utils/sqlite.cc",
   "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/data/gz.cc"],
  [("ownership of a transaction", "arki/core/transaction.cc Pending"), ("data writers", "arki/segment/data/fd.cc Writer, dir.cc BaseWriter"),
   ("replacement of files", "arki/utils/files.cc RenameTransaction, FinalizeTempfilesTransaction"), ("index", "arki/utils/sqlite.cc SqliteTransaction")],
  ["files and index after a rollback, a failure and a commit"],
  ["rollback"], "abstract interpretation of every transaction class: effects of commit against effects of undo; typestate of transaction holders",
  SOUND + "The time of last change that is restored on rollback is not judged.")

P("P03", "Files are replaced whole, and an interruption leaves old or new",
  "Whatever takes the place of existing data (repacked and converted segments, metadata, summaries, the list of segments) is "
  "written completely under another name, closed, and only then renamed; segments and the list of segments are flushed "
  "to disk before. A conversion removes the old form only after the new one is complete, and a repack replaces every file the segment "
  "consists of. When data is replaced, the metadata of the old data is removed before, or its index is in an open "
  "transaction, and metadata or index for the new data is written afterwards. What an interruption leaves behind does "
  "not stop the next attempt.",
  ["crash_points", "fault_sequences"],
  "every kind of segment, every file that is replaced, a crash or an error at every step",
  "Tests do not crash in the middle of a write; a missing flush or a rename that is too early cannot be seen when nothing fails.",
  ["arki/segment/data", "arki/segment/data.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/metadata/collection.cc",
   "arki/utils/sys.cc", "arki/summary.cc", "arki/dataset/simple/manifest.cc"],
  [("new copies of segments", "arki/segment/data/{fd,dir,gz,tar,zip}.cc Creator, Data::create, Checker::repack"),
   ("conversions", "arki/segment/data.cc Checker::tar, zip, compress"), ("metadata", "arki/segment/metadata.cc, arki/metadata/collection.cc"),
   ("repack and conversions with their metadata", "arki/segment/{metadata,iseg}.cc Fixer")],
  ["files on disk after an interruption"],
  ["atomic"], "typestate analysis of files (written, flushed, closed, renamed) and of the order of replacement",
  SOUND + "Metadata and summaries are not flushed before the rename: they can be rebuilt from the data.")

P("P09", "Looking changes nothing: queries, and checks that are not asked to fix",
  "Querying data, summaries or intervals, and every maintenance operation (check, repack, removing, conversions, "
  "check of issue 51) that isn't explicitly asked to make changes, leave stored data, their metadata and their indexes "
  "as they were, and create no index that wasn't there. Only lock files, directories, caches of summaries, temporary copies "
  "of compressed data under names of their own and the flag that asks for a check may be written.",
  ["inputs", "histories"],
  "every dataset, segment and data reader, every query, every maintenance operation without a request to fix",
  "A test that looks at results doesn't notice a file that was created, rewritten or touched by looking; there are many readers and formats.",
  ["arki/dataset", "arki/segment", "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc", "arki/dataset/pool.cc", "arki/utils/compress.cc",
   "arki/dataset/simple/manifest.cc"],
  [("queries", "subclasses of dataset::Reader, segment::Reader, segment::data::Reader"), ("maintenance", "methods of dataset::Checker that get a CheckerConfig"),
   ("index", "arki/segment/iseg/index.cc RIndex"), ("checks of segments", "fsck, check, timestamp, scan of segment and data checkers")],
  ["files before and after"],
  ["readonly"], "effect analysis over the call graph from every reader; path-sensitive guards (readonly, dirty, exists) on every changing call of maintenance",
  SOUND + "What makes a cached summary valid is P16. Conversion of a legacy MANIFEST in SQLite format when a checker is opened is not judged.")

P("P11", "A check reports what it finds, and maintenance does only what the state asks",
  "The state that a check gives a segment contains every anomaly it or a part of it finds: missing data, data "
  "that is not described or newer than its description, an empty or undescribed segment, and what the check of the data found (overlaps, gaps, "
  "truncation, trailing data, order, wrong content). Nothing wrong is reported only on paths that looked. Deleted, missing, "
  "to delete and to archive are only reported for their own cause. Repacking and fixing "
  "do to a segment only what its state asks for, and removing, converting, or an operation passed on to archives is done "
  "only as that operation, by who asked for it.",
  ["inputs", "histories"],
  "every kind of segment, every combination of anomalies, every maintenance operation",
  "Tests build one anomaly at a time; a state lost in a combination, or an agent acting on a state it shouldn't act on, shows when the data is gone.",
  ["arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/segment/scan.cc", "arki/segment/data", "arki/dataset/simple/checker.cc",
   "arki/dataset/iseg/checker.cc", "arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/archive.cc", "arki/dataset/local.cc"],
  [("states", "fsck, scan and check of segment, data and dataset checkers"), ("agents", "arki/dataset/maintenance.cc"),
   ("operations", "arki/dataset/segmented.cc, local.cc, archive.cc")],
  ["state reported for a segment", "what maintenance does to it"],
  ["states"], "abstract interpretation of state results with path knowledge; typestate of maintenance agents",
  SOUND + "Which data a scan considers wrong is up to the libraries that decode it.")

P("P24", "A query delivers everything that matches, nothing else, in the order asked for",
  "A query of data delivers each stored element that its matcher accepts and no other; a query of summaries adds up what the "
  "matcher accepts. No segment, archive, row, remote dataset or part of a merged dataset that can have matching data is left out: entries of "
  "directories are skipped only for their name, their format or a period that the matcher refuses, and the constraints made for an "
  "index include all those of the matcher. The query is passed on unchanged to whatever answers for a part of it, and "
  "what arrives from different segments, archives and datasets is delivered sorted as requested, nothing being left behind in sorters.",
  ["inputs", "histories"],
  "every reader of datasets and segments, every query, every order, every arrangement of data in segments and archives",
  "Tests query a few elements in one or two segments: what is left out of an answer, or added to it, depends on where the data is and what else is there.",
  ["arki/dataset.cc", "arki/dataset/local.cc", "arki/dataset/archive.cc", "arki/dataset/simple/reader.cc", "arki/dataset/iseg/reader.cc",
   "arki/dataset/merged.cc", "arki/dataset/http.cc", "arki/dataset/step.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/segment/scan.cc",
   "arki/segment/iseg/index.cc", "arki/segment/iseg/index/aggregate.cc", "arki/segment/iseg/index/attr.cc", "arki/metadata/sort.cc", "arki/matcher/utils.cc"],
  [("readers", "query_data and query_summary of subclasses of dataset::Reader and segment::Reader"),
   ("choice of segments", "arki/dataset/step.cc list, iseg/reader.cc list_segments, simple/manifest.cc file_list"),
   ("constraints of the index", "arki/segment/iseg/index.cc add_joins_and_constraints, Aggregate::make_subquery, AttrSubIndex::query"),
   ("order", "dataset::Reader::query_data, metadata::sort::Stream")],
  ["elements delivered and their order", "content of the summary"],
  ["query", "prune"], "path-sensitive dataflow of matcher, query and sorter through every reader; must-visit analysis of loops over segments, entries and rows",
  SOUND + "Arithmetic is not judged: which interval an expression on time denotes, which day a file name stands for (P26 compares the names only), comparison of values.")

P("P18", "What is stored can be read back: encodings and their decoders agree",
  "Every item of metadata (each style of each type), source, note, time, summary row and summary statistic that is encoded in binary is decoded by the code "
  "that reads it with the same fields, in the same order and width and with the same sign, and into the object of the style it was written with; a value that was given and is not "
  "the default is written. Minimum sizes required when decoding are not larger than what can be encoded. The structured (JSON, Python) form "
  "and the text form name each field as they are read back, style names can be parsed back, and headers of metadata, summaries and "
  "groups declare the signature, version and length that readers expect. What was encoded by this version remains readable: "
  "type codes, style numbers and sequences of fields do not change.",
  ["inputs", "histories"],
  "every type, style and optional field; every pair of encoder and decoder",
  "Tests round trip a few values per style: fields of a rare style, an optional field or a value that needs one more byte are lost unseen, in what has been stored for years.",
  ["arki/types", "arki/summary/codec.cc", "arki/summary/stats.cc", "arki/summary.cc", "arki/metadata.cc", "arki/metadata/collection.cc", "arki/metadata/stream.cc",
   "arki/core/time.cc", "arki/core/binary.cc", "arki/types/bundle.cc", "arki/defs.h"],
  [("encoders", "create*, decode_structure, decodeString of subclasses of types::Encoded; encodeWithoutEnvelope"),
   ("decoders", "Family::decode, get_*, serialise_local, writeToOstream"),
   ("bundles", "Bundle::read_header, BinaryDecoder::pop_metadata_bundle, Metadata::encodeBinary, Summary::encode, Collection compressed groups")],
  ["bytes stored and what is read back from them"],
  ["codec"], "extraction of the layouts written and read on every path, by abstract interpretation of encoders and decoders; comparison field by field, and with the recorded layouts",
  SOUND + "How one integer is laid out in bytes (BinaryEncoder, varints) and the packing of key-value bags (values.cc) is not judged: this is arithmetic on bits.")

P("P17", "Malformed binary data is refused: nothing is read outside of what was given",
  "Whatever bytes are found in metadata, summaries, notes, groups and items of metadata, decoding them either succeeds or throws an "
  "error: no decoder reads, skips or passes on more bytes than its buffer has been checked to have, and accessors of an item read "
  "only bytes that decoding it made sure of. Codes, positions and counts found in the data are compared with their limit before they are used as an "
  "index, and are not negative. Numbers are not read in more bytes than their type has. Versions and styles that are not known are refused.",
  ["inputs"],
  "every function that reads bytes through a decoder, an encoded item or a (pointer, size) pair, on every path",
  "Tests decode valid data and a few truncated samples: what a corrupt length, code or count does depends on which byte of which style is wrong.",
  ["arki/core/binary.h", "arki/core/binary.cc", "arki/types", "arki/types.cc", "arki/summary/codec.cc", "arki/summary/table.cc", "arki/summary/stats.cc",
   "arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc", "arki/utils/compress.cc", "arki/data/jpeg.cc"],
  [("decoder", "core::BinaryDecoder pop_*, skip, ensure_size, decode_*"), ("items", "Family::decode and get_* of subclasses of types::Encoded"),
   ("tables", "MetadataType::get, Visitor::posForCode, Format1Decoder, Format3Decoder"), ("versions", "Metadata::read_binary_inner, summary::decode, read_group")],
  ["error or result of decoding arbitrary bytes"],
  ["bounds"], "abstract interpretation of lower bounds of buffer sizes along every path; dataflow of decoded values to indices across calls",
  SOUND + "Key-value bags in memory (values.cc), which are read after having been decoded once, and buffers handled by libraries are not judged.")

P("P26", "Data is in the segment of its time; names of segments tell the times they cover",
  "The name made for a time by each step (daily, weekly, biweekly, monthly, yearly) is made of the year and, where it has them, the month, the "
  "day or the part of the month of that time, in the format that it is read back with; reading it back gives the interval of exactly the times that are "
  "written with that name, and no name that is written is refused. What is looked for on disk (names of directories and files, and the "
  "interval that each is taken to cover) agrees with the names that are written. Data is put in, removed from and archived to the segment "
  "named after its own reference time.",
  ["inputs"],
  "every step, every time, every element of a batch",
  "Tests name a few dates: an interval that is wrong for the last part of a month, or a file name that is not looked for, hides data only on some days.",
  ["arki/dataset/step.cc", "arki/dataset/segmented.cc", "arki/dataset/outbound.cc"],
  [("names", "operator() of the steps that Step::create makes"), ("intervals", "path_timespan, step::Files::to_period, step::Dirs::to_period"),
   ("names on disk", "make_regexp, to_format, to_relpath, parse, Step::explore"), ("placement", "segmented::Writer::batch_by_segment, segmented::Checker::remove, archive")],
  ["name of the segment of an element", "segments found for a query"],
  ["steps"], "value-flow analysis: names and intervals are evaluated to canonical terms over the time and compared; data flow from reference time to segment name",
  SOUND + "The arithmetic of core::Time (normalise, start_of_next_month) is taken for granted. Intervals computed in ways that are not linear in the components of the name are counted as not understood.")

P("P20", "Items that compare equal are the same: comparisons look at every field",
  "Two items of metadata of the same type and style, or two sources, are found equal, by their comparison or by their equality, only if each value decoded from one has been compared "
  "with the same value of the other (units and values that stand for the same time range count as the same; the time of an assignment to a dataset does not count), and only if their styles are the same. The sign of a comparison follows from the "
  "comparison that was made, and no difference of values is narrowed to fewer bits than it has.",
  ["inputs"],
  "compare, compare_local and equals of every subclass of types::Type, on every path that gives equal",
  "Tests compare a few pairs that differ in one value: data with a rare value that was not compared is taken for a duplicate, or added to the summary of something else.",
  ["arki/types"],
  [("comparisons", "compare, compare_local, equals of types::Type and its subclasses")],
  ["result of comparing two items"],
  ["compare"], "value-flow analysis of comparisons: fields known to be equal on every path that returns equality",
  SOUND + "Overflow of 32 bit differences, which changes the order of values more than 2^31 apart but not their equality, is not judged.")

P("P32", "What a matcher selects does not depend on the form it is asked or sent in",
  "A condition of a query takes the same decision on a decoded item and on its encoded buffer: each value that its pattern gives is tested for equality against the value of "
  "the item at the same position, nothing is rejected that the pattern does not mention, and an item of another type or style does not match. "
  "The text that a condition is sent to servers with writes each value at the position where it is read back, and copies of a condition keep all its values. Reference time conditions use the same comparisons in memory, "
  "in SQL and in text, and an interval that contains a matching time is never ruled out. An expression matches when all its groups match, a group matches when any of "
  "its alternatives does, an absent item does not match, an empty expression matches everything; reading, merging and updating expressions loses no "
  "group and no alternative.",
  ["inputs"],
  "every class of condition, every pattern, every item and interval",
  "Tests sample some patterns on some items, mostly through one of the forms: a query then gives different data from an index, from a summary, from a remote server or in memory.",
  ["arki/matcher.cc", "arki/matcher/utils.cc", "arki/matcher/reftime.cc", "arki/matcher/reftime/parser.cc", "arki/matcher/level.cc", "arki/matcher/timerange.cc",
   "arki/matcher/product.cc", "arki/matcher/origin.cc", "arki/matcher/area.cc", "arki/matcher/proddef.cc", "arki/matcher/task.cc", "arki/matcher/quantity.cc"],
  [("decisions", "matchItem and match_buffer of the subclasses of matcher::Implementation"), ("texts and copies", "toString, clone"),
   ("reference times", "matcher::reftime::DTMatch: match, sql, toString"), ("composition", "matcher::AND, matcher::OR, MatchReftime, Matcher")],
  ["data selected by a query", "toStringExpanded()", "copies of matchers"],
  ["matching"], "value-flow analysis: decisions, texts and copies are evaluated to canonical terms per path and compared; typestate of the loops that try the parts",
  SOUND + "Interval tests are compared over the order types of their bounds. The meaning of decoded values (units, normalisation of time ranges) is judged by P18 and P20. Conditions on areas (geometry) and conditions with loops over value bags are checked for composition and copies only.")

P("P13", "Dispatched data goes to one place and is reported as it ended up",
  "When arki-scan dispatches a source, each of its elements is given to exactly one destination: to a dataset only when the element has a reference time, passes all "
  "validators, and that dataset is the only one that matches; otherwise to the error dataset. Elements that the dataset did not import go to the duplicates dataset (to the "
  "error dataset when there is none) if they were duplicates, and to the error dataset otherwise. Nothing is added to a batch after it was dispatched, nothing read is left undispatched, and data left from a source that "
  "failed is not dispatched with the next one. Each element is counted once, and as successful only if it was really imported, in a dataset that is neither error nor duplicates; it is copied to copyok or copyko "
  "accordingly, before its data is dropped. Failures while reading or dispatching are never hidden: a source is a success only if all its elements were imported (or were duplicates, when those are allowed), "
  "and the exit status and the directory where the source is moved say so.",
  ["inputs", "schedules"],
  "every batch, dataset configuration, validator, import result and failure of a source",
  "Tests dispatch some data into some datasets: the combinations of validation, matches, import results, failures and options are many, and a wrong one loses data or reports lost data as imported.",
  ["arki/dispatcher.cc", "arki/dispatcher.h", "arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc", "arki/python/arki-scan.cc", "arki/python/cmdline.cc"],
  [("destinations", "Dispatcher::dispatch, raw_dispatch_dataset of its subclasses"), ("reporting", "arki_scan::MetadataDispatch::process, process_partial_batch"),
   ("outcome", "DispatchResults::success, compute_result, dispatch_sections, dispatch_file, FileSource::close, foreach_file, foreach_sections")],
  ["content of the datasets", "summary printed by --status", "exit status", "copyok, copyko, moveok, moveko"],
  ["dispatch", "exits"], "typestate of each element over all paths of the dispatcher; exhaustive abstract evaluation of the verdict and exit status functions",
  SOUND + "What a dataset does with the batch is judged by P01, P05 and P14; the exit status is evaluated on all sources with counts up to two and sequences of two kinds of sources.")

P("P19", "Removing selected data removes exactly that data",
  "When data is removed from datasets (arki-check --remove, CheckPool::remove, Checker::remove), each selected element is taken to the dataset that contains its file, and there to the "
  "segment that its source names and to its own offset; elements with no source on disk, of unknown datasets, of another dataset or archived are refused, before anything is removed from that dataset. "
  "A segment then keeps all of its elements except the selected ones: what is stored, or left in the index in one transaction, is exactly what was there without them, and the dataset is told the new "
  "time span and modification time of the segment. Nothing is removed when fixing was not asked for, and no selected element of a segment that exists is silently left there.",
  ["inputs", "histories"],
  "every selection of elements, from online, archived, compressed and directory segments of all kinds of datasets",
  "Tests remove a few elements of plain online segments. Removing by the wrong segment or offset destroys data that was never selected.",
  ["arki/dataset/segmented.cc", "arki/dataset/pool.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/scan.cc", "arki/metadata/collection.cc", "arki/dataset/simple/checker.cc"],
  [("selection", "CheckPool::remove, Pool::locate_metadata, segmented::Checker::remove"), ("removal", "CheckerSegment::remove_data, Fixer::mark_removed of each segment type, Collection::without_data, iseg index remove")],
  ["results of queries after a removal", "content of indices and of .metadata files", "errors of arki-check --remove"],
  ["removal"], "typestate of each selected element over all paths from the selection to the segment",
  SOUND + "An element is identified by the offset it had when it was read: a list of elements made before a repack is not told from a current one.")

P("P15", "Merged queries deliver everything, once and in order, and always end",
  "A query on several datasets asks each of them the query that was asked, each in a thread of its own, and delivers every element that any of them gives, exactly once; each time the one that comes first, "
  "in the order asked for, among those that the datasets have next, waiting for those that are still reading. The queues that the threads fill give elements in the order they were read, lose none, wait only when full or empty, and "
  "never miss a wake up: what they share is used only with its mutex held. The query ends only when all threads have; an error of any of the datasets is reported, and a summary of "
  "several datasets is complete or an error. A consumer that asks to stop stops them all, and threads always end before what they use is destroyed, also when something fails.",
  ["schedules", "inputs", "histories"],
  "every interleaving of the threads, every number and content of datasets, every failure of a dataset or of the consumer",
  "Tests run a few merged queries on small datasets under the schedules that happen: lost wake ups, races, full queues and failures in the middle are not sampled.",
  ["arki/dataset/merged.cc", "arki/dataset/merged.h"],
  [("queue", "the class with a mutex and a condition in merged.cc (SyncBuffer)"), ("threads", "MetadataReader, SummaryReader"), ("merging", "MetadataReaderPool, merged::Reader::impl_query_data, impl_query_summary, impl_stream_query_bytes")],
  ["data and order of a merged query", "errors of a merged query", "termination of a merged query"],
  ["threads"], "lock-set and wait/notify analysis of the shared fields; typestate of threads and of the merge over all paths; exhaustive abstract execution of the ring queue",
  SOUND + "Each dataset is assumed to give its data sorted as asked (P32 and P16 judge parts of that). Statics that the readers share across threads (lazy set up of scanners, counters) are not judged.")

P("P12", "Data that is too old is never stored by an import",
  "An import into a dataset discards every element that is older than the delete age, reporting it as imported in that dataset, refuses with an error every other element older than the archive age, "
  "and sends all others to their segments; ages that are not set exclude nothing. An age is the configured number of days, counted back from the midnight (UTC) that begins today; data exactly at that time is not too old. "
  "One old element does not change what happens to the others of its batch, and a simulated import (test_acquire) takes the same decisions as a real one.",
  ["inputs"],
  "every batch of elements with a reference time, every pair of ages, set or not, every time of day",
  "Tests use one age and one element that is years too old: limits, both ages together and batches with mixed data are not sampled.",
  ["arki/dataset/local.cc", "arki/dataset/time.cc", "arki/dataset/segmented.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/simple/writer.cc", "arki/dataset/outbound.cc"],
  [("decision", "local::Dataset::check_acquire_age, SessionTime::age_threshold"), ("imports", "acquire_batch and test_acquire of the dataset writers, batch_by_segment")],
  ["results and destinations of an import", "content of the segments"],
  ["ages"], "exhaustive abstract evaluation of the decision over all orders of time and limits; typestate of each element of an import",
  SOUND + "What maintenance does with segments that are too old is judged by P24 and P10. Elements without a reference time are out of scope (P13: they are not dispatched to such datasets without one).")

P("P25", "Duplicate data is kept, replaced or refused only as the replace strategy says",
  "Each element imported in an indexed dataset (type=iseg) is looked up in the index of its segment before it is added. If it is not there, its data is stored and it is reported as imported. If it is there, "
  "it is never stored a second time beside the first: with no replacing it is left alone and reported as a duplicate; with replacing always, the index refers to the new data instead; with the update "
  "sequence number, it is replaced only if both the old and the new data have one and the new one is not lower, and otherwise it is left alone and not reported as imported. "
  "The elements that follow in the same batch are handled in the same way. The strategy is the one that the import asks for, or else the one that the configuration of the dataset sets: no, never (default), yes, true, always, USN or usn; other values are refused.",
  ["inputs", "histories"],
  "every batch, content of the index, strategy and pair of sequence numbers",
  "Tests import the same element a few times alone: duplicates inside batches, missing numbers and each pair of strategy and setting are not sampled.",
  ["arki/segment/iseg.cc", "arki/segment/iseg/index.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/segmented.cc"],
  [("policy", "segment::iseg::Writer::acquire"), ("lookup", "WIndex::index"), ("strategy", "dataset::iseg::Writer::acquire_batch, segmented::Dataset::Dataset")],
  ["results of an import", "data returned by queries", "size of the segments"],
  ["duplicates"], "typestate of each element over all paths, for every strategy; exhaustive abstract evaluation of the configuration",
  SOUND + "Which elements are duplicates (equal reference time and unique attributes) is decided by the index tables, see P20 and P23.")

P("P23", "An index gives back of each element what was stored of it",
  "Each value that is stored in the index of a segment (type=iseg) for an element - offset, size, notes, reference time, the identifiers of its "
  "unique and of its other attributes and, with smallfiles, its data - is written in its own column, and read back from that column and no other, by queries of "
  "data, of summaries and of time spans; the optional columns are written and read exactly when the index has them. Statements are given as many values as "
  "they ask for. The key of an element is its reference time with its unique attributes; one that is found is not added again; replacing replaces the "
  "whole row; removing removes the row at that offset. The identifier of the value of an attribute is that of the row with its encoding, and back. "
  "Rows are added up in summaries by all the attributes there are, and elements are asked for in order of time.",
  ["inputs", "histories"],
  "every configuration of unique and other attributes and of smallfiles, every element, every row",
  "SQL is text that the compiler does not check, and it is assembled from parts that depend on three independent options: a statement, its bindings and its readers "
  "must agree in all eight combinations, of which tests use a few, and with attributes that most test data do not have",
  ["arki/segment/iseg/index.cc", "arki/segment/iseg/index/aggregate.cc", "arki/segment/iseg/index/attr.cc"],
  [("texts of statements assembled by option", "Index::scan, query_data, query_summary_from_db, add_joins_and_constraints; WIndex::init_db, compile_insert"),
   ("values bound in order", "Inserter::bind_get_current, bind_insert; WIndex::remove, replace"),
   ("rows made into elements and statistics", "Index::build_md, query_summary_from_db, query_data_timespan"),
   ("values of attributes and their identifiers", "AttrSubIndex::insert, id, read, query")],
  ["data and summaries returned by queries of type=iseg datasets", "results of imports with a replace strategy"],
  ["sqlrows"],
  "path-sensitive evaluation of the texts of SQL statements on the syntax trees (string-valued abstract interpretation over all option combinations), and typestate of bound and fetched columns",
  SOUND + "Loops that add one part of a text for each attribute of an aggregate are evaluated for the first few attributes only; texts of statements on the tables of aggregates are not compared.")

P("P30", "Python is only used with its lock held, and nobody waits with it",
  "Every use of the Python interpreter (its API, its objects, reference counts included) by arkimet's Python module happens in a thread that holds the interpreter's lock (GIL): what runs where the lock was given up (ReleaseGIL), "
  "and the callbacks that arkimet calls from threads of its own (readers and checkers written in Python, progress, formatters, loggers, functions given to queries), take it (AcquireGIL) before they use Python, and "
  "objects that do not take it are never handed over to code that may run without it. Threads that may need Python are never waited for, and data is never delivered to arkimet, with the lock held; and what was taken or given up is given back exactly once, also on errors.",
  ["schedules", "inputs"],
  "every call of the Python module, every interleaving of its threads, every failure",
  "The Python interpreter is not run by the tests of the library, and a missing lock shows only when two threads meet in the interpreter.",
  ["arki/python/utils/core.h", "arki/python/arki-query.cc", "arki/python/arki-scan.cc", "arki/python/dataset/reader.cc", "arki/python/cmdline/processor.cc", "arki/python/dataset/progress.cc", "arki/python/formatter.cc"],
  [("guards", "ReleaseGIL, AcquireGIL"), ("callbacks", "overrides of arkimet's virtual methods and lambdas in arki/python"), ("calls", "PyMethodDef functions that give the lock up")],
  ["crashes of the interpreter", "deadlocks of merged queries"],
  ["gil"], "interprocedural lock-state (effect) analysis over the call graph, virtual calls and lambdas included; flow analysis of the guards",
  SOUND + "Destructors of polymorphic objects owned through smart pointers, and functions kept in members, are not followed.")

P("P27", "Errors of arkimet and Python always become Python exceptions",
  "Whatever function, method, property or constructor of arkimet's Python module is called, it takes its arguments as its format says (keywords, formats and variables agree in number, order and type; optional arguments have a default; what was given is used, sizes included), and "
  "it never lets a C++ exception out into the interpreter: errors of arkimet become Python exceptions. It reports failure if and only if a Python exception is set: success is never returned over a pending exception, and failure never without one. "
  "Calls of the Python API that can fail are checked before Python is used again, null results are never passed on, and Python code that arkimet calls back (readers, formatters, functions given to queries, file objects) either returns with no exception pending, or raises PythonException with one.",
  ["inputs", "fault_sequences"],
  "every call, every argument, every failure of arkimet or of the interpreter at any point",
  "The Python module is not run by the tests of the library; most failures (lack of memory, exceptions raised by user code at a given point) are never provoked, and a pending exception shows up only in later, unrelated calls.",
  ["arki/python/utils/core.h", "arki/python/utils/methods.h", "arki/python/utils/type.h", "arki/python/utils/values.cc", "arki/python/common.h", "arki/python/files.cc", "arki/python/metadata.cc", "arki/python/dataset.cc", "arki/python/formatter.cc"],
  [("conversion", "ARKI_CATCH_RETURN_PYO, set_std_exception, throw_ifnull, PythonException"), ("entry points", "static members run/get/_init/... of the classes that define methods and types"), ("callbacks", "overrides of arkimet's virtual methods and lambdas in arki/python")],
  ["SystemError", "crashes of the interpreter", "exceptions lost"],
  ["pyerrors"], "interprocedural typestate analysis (is an exception pending?) with a summary per function, over all paths of all entry points and callbacks; format strings checked against keyword lists and variable types",
  SOUND + "Functions of arkimet's core are taken to throw if a throw is reachable in the call graph; reference counts are not tracked; formats that differ only in which arguments must be keywords are not told apart.")

P("P21", "What is sent arrives whole, once and in order, also through a filter",
  "Everything sent to an output stream (buffers, lines, spans of files), and everything that a postprocess filter writes, reaches the destination whole, once and in order, however few bytes each read, write, writev, sendfile or splice takes, in whatever order the ends become ready or are closed, and with whatever kind of destination (pipe, socket, file opened for appending, memory). "
  "Positions move by exactly what the system took; a transfer ends only when all was transferred, or when an end was closed, which the result says; the output of a filter is closed only after it was all read; a fallback to another way to transfer data sends only what was not sent yet; and a data file that ends before the data is an error, never a shorter output.",
  ["schedules", "fault_sequences", "inputs"],
  "every size, every split of the transfers by the system, every order of readiness and hangups",
  "Tests transfer small data with ends that are always ready; what is lost or doubled depends on how the system splits transfers, on who is slower and on the kind of destination.",
  ["arki/stream/loops.tcc", "arki/stream/loops-send.tcc", "arki/stream/concrete-parts.tcc", "arki/stream/concrete.cc", "arki/stream/abstract.tcc", "arki/metadata.cc"],
  [("transfers", "functions of arki/stream that return TransferResult"), ("event loops", "setup_poll, on_poll and their loops"), ("fallbacks", "SpliceNotAvailable, SendfileNotAvailable")],
  ["output lost or repeated", "output cut at a pipe's capacity", "short data without an error"],
  ["streamio"], "typestate analysis of positions, buffers and poll results over all paths of transfers, event loop steps and their fallbacks; result-use analysis over the call graph",
  SOUND + "What a filter that closes its input early leaves unread is judged only by its exit status. Contents of the iovec given to writev are followed by size only.")

P("P28", "Filters run only when allowed, are always stopped, and their failures seen",
  "A postprocess filter is started only with a command that was checked: a dataset that lists the postprocessors it allows never runs another one. Once started, a filter is stopped on every way out, errors of the query and of the filter's output included: its standard input is closed before it is waited for, so that it's never waited for in vain, and it is not left running. "
  "A query through a filter succeeds only if all went well: an error during the query goes on to the caller, and a filter that exits with an error makes the query fail.",
  ["fault_sequences", "inputs"],
  "every command and configuration, every point at which the query, the output or the filter fails",
  "Tests run well-behaved filters to their end; a filter left waiting, left running or whose failure is lost shows only when something fails at a given point.",
  ["arki/dataset.cc", "arki/stream/base.cc", "arki/stream/filter.cc", "arki/metadata/postprocess.cc"],
  [("stop", "StreamOutput::stop_filter, abort_filter"), ("start", "callers of StreamOutput::start_filter"), ("allow list", "Postprocess::validate_command")],
  ["hangs", "processes left running", "truncated output taken for success", "commands run that are not allowed"],
  ["filters"], "typestate analysis of filters (started, input closed, waited for, errors looked at) over all paths, exceptional ones included",
  SOUND + "Only the name of a command is compared with the list, as the code does: where the file is found is not judged.")

P("P22", "Summaries count exactly the data: numbers, sizes and time spans add up",
  "For every dataset, matcher and history, the count, size and time span given by a summary are exactly those of the data a query with the same matcher delivers, also when it is put together from cached summaries, from the index and from archives, "
  "and merging summaries in any order or grouping gives the same summary.",
  ["inputs", "histories"],
  "every set of metadata, every way to split and merge it, every matcher",
  "Tests compare a few summaries; sums depend on all the data and on how it was grouped.",
  ["arki/summary.cc", "arki/summary/table.cc", "arki/summary/stats.cc"],
  [("merge of rows and statistics", "summary::Table::merge, Stats::merge")],
  ["result of summary queries"],
  na="the equality is between sums over all the data of a dataset: runtime quantities that no static argument in reach can bound. The parts that are decidable are decided elsewhere: that cached summaries are dropped when data changes and used only where they apply (P16), that each matching element is added once (P24), that rows are stored and read back (P18, P23)")

P("P29", "Times and intervals are computed as the calendar has it",
  "For all dates, the arithmetic of times and intervals (lengths of months, leap years, weeks, normalisation of overflowing fields, ends of months, intersections and unions of half-open intervals) agrees with the proleptic Gregorian calendar, "
  "and text that is printed for a time is read back as the same time.",
  ["inputs"],
  "every date and every interval, open ends included",
  "Tests sample a handful of dates.",
  ["arki/core/time.cc", "arki/core/fuzzytime.cc"],
  [("normalisation and differences", "core::TimeBase, core::Interval")],
  ["bounds of segments and results of queries by time"],
  na="this is numeric agreement of loops over years and months with an external definition (the calendar): a matter for proofs or solvers, not for dataflow or types. How the intervals are used is decided (P24, P26, P32)")

P("P31", "Concurrent histories look as if operations ran one at a time",
  "With any number of processes that import, query, check, fix and repack the same dataset, each query returns what the dataset had at one moment between its start and its end, and each import takes effect once.",
  ["schedules", "histories"],
  "every interleaving of any number of processes",
  "Needs processes that meet at given points.",
  ["arki/dataset", "arki/segment", "arki/core/lock.cc"],
  [("locks", "arki/core/lock.cc")],
  ["results of concurrent operations"],
  na="linearizability quantifies over interleavings of several processes and the contents of files: no single syntactic construct breaks it. Its static ingredients are decided: locks held at each access (P07), conflicts of the locks (P08), replacement of whole files (P03), order of commits (P01, P02)")

P("P33", "What scanning finds is what the message says",
  "For every well-formed GRIB, BUFR, VM2, NetCDF, ODIM and JPEG file, scanning finds each message once, at its offset and size, with the reference time, origin, product, level, area and other metadata that its contents define, and data between messages is never lost silently.",
  ["inputs"],
  "every well-formed file of every supported format",
  "Tests have a few samples of each format.",
  ["arki/data", "conf"],
  [("scanners", "arki/data/*.cc and the Python scripts in conf/scan")],
  ["metadata produced by arki-scan"],
  na="the meaning of the messages is computed by external libraries (eccodes, wreport, HDF5) and by Python scripts that are loaded at run time and use tables of centres and products: there is nothing in the source it could be compared with. Failures of these calls are decided (P05), so are short reads (P04)")

P("P34", "Areas and bounding boxes contain the data",
  "For every area definition that is supported, the bounding box computed from it contains every point of the grid, and a bounding box or polygon match selects exactly the areas that intersect, contain, or are covered, as the expression says.",
  ["inputs"],
  "every grid definition and every polygon",
  "Tests have one example per projection.",
  ["arki/bbox.cc", "arki/matcher/area.cc"],
  [("geometry", "arki/bbox.cc, arki/matcher/area.cc MatchAreaBBox")],
  ["results of area:bbox queries"],
  na="floating point geometry, computed by libgeos and by Python scripts at run time: it cannot be bounded by an analysis of the source")

P("P35", "Putting summaries together loses nothing and counts nothing twice",
  "When metadata or summaries are added to a summary, whichever way they come (elements, rows read from a file, other summaries, rows selected by a matcher, rows of an index), the sum has the numbers and sizes of all that was added, once each, "
  "and times from the earliest to the latest, both included; each row is kept with its own items in their places and its own statistics. Rows are handed on once each, up to where the visitor asks to stop, and a matcher selects exactly the rows whose items, "
  "wherever it has a condition on them, and times match.",
  ["inputs", "histories"],
  "every summary, empty ones included, every order of times, every matcher and every way to merge",
  "Tests merge a few summaries with a few elements; sums and times depend on what is empty and on the order in which things come.",
  ["arki/summary.cc", "arki/summary/stats.cc", "arki/summary/table.cc", "arki/summary/codec.cc", "arki/summary/short.cc"],
  [("statistics", "summary::Stats::merge, Stats(Metadata)"), ("rows", "summary::Table::merge, visit, visitFiltered, Row::matches"),
   ("visitors", "overrides of summary::Visitor::operator()"), ("summaries", "Summary::add, filter")],
  ["count, size and times of summaries", "rows of summaries"],
  ["summaries"], "exhaustive abstract evaluation of merges over all orders of times and empty operands; typestate of rows over all paths of merges and visits; value-flow analysis of the places of items",
  SOUND + "That the compaction sorts the rows first, and sums made by SQL, are not judged.")

RULES = {p["id"]: p for p in PROPS}
