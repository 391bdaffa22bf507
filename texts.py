"""The properties in words: title, statement, quantifier, why tests cannot settle it, anchors."""
def p(title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    return dict(title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)], "state": [{"name": a, "meaning": b} for a, b in state], "observe_at": list(observe), "hook_needed": "access to private items behind cfg(monolith_verif)" if hook else None})
T = {
"C01": p("Compressed series decompress to exactly what was compressed",
    "Compressing a time series with the Gorilla compactor and decompressing the result gives back the same points: the same number, the same timestamps and bit-for-bit the same values, in the same order. This holds for every series of ascending timestamps, for every gap between them and every 64-bit value pattern, NaNs, infinities and signed zeros included.",
    ["inputs"], "every ascending sequence of 64-bit timestamps and every sequence of 64-bit value patterns",
    "The tests compress a few fixed or random series with gentle gaps; the encodings chosen depend on bit-level relations between neighbouring points (delta-of-delta class, leading and trailing zero counts) that they do not sample at their borders.",
    ["src/compaction/gorilla.rs"], ["delta-of-delta encoding of timestamps", "xor encoding of values with reused bit windows", "bit-level reader and writer"], [("bit stream", "points of the compressed series after the first")], ["Compactor::compact", "Compactor::decompact"]),
"C02": p("Uncompressed series round-trip; blocks of the other kind are refused",
    "Storing a time series in the uncompressed format and reading it back gives the same points in the same order, bit for bit. A block marked as one format is refused, not misread, by the reader of the other.",
    ["inputs"], "every sequence of points and every format mark",
    "The tests read back one fixed series; they never hand a block to the wrong reader.",
    ["src/compaction/simple.rs", "src/compaction/mod.rs", "src/compaction/gorilla.rs"], ["tag byte and fixed 16-byte points"], (), ["Compactor::compact", "Compactor::decompact"]),
"C03": p("Reading a damaged compressed block never panics",
    "Decompressing any byte string at all, truncated and corrupted blocks included, ends with points or with an error. It never panics, overflows or fails to end.",
    ["inputs"], "every byte string given as a block, in both formats",
    "The tests decompress only what the compressor made.",
    ["src/compaction/gorilla.rs", "src/compaction/simple.rs"], ["bit reader with bounds", "bit-width arithmetic"], (), ["Compactor::decompact"]),
"C04": p("A range read returns exactly the stored points in the range",
    "Reading a series between two times returns every acknowledged point of that series whose timestamp lies in the closed range and no other, in ascending time order, with exact timestamps and values. A range that holds none gives an empty or a not-found/out-of-range answer, never points and never another error. The same holds for both storage backends, and for a storage that was closed and opened again.",
    ["inputs", "histories", "configurations"], "every history of writes to a series and every pair of range bounds, in both backends",
    "The tests read a handful of fixed ranges from fixed series; borders equal to a point, ranges between points, inverted ranges and late points are not sampled systematically.",
    ["src/storage/common.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"], ["binary search over the series of points", "16-byte encoding of a point"], [("series value", "all points of a series, in order")], ["Storage::write_time_point", "Storage::read_time_series"], True),
"C05": p("Series are kept apart and in time order",
    "Writing to one series never changes, hides or shows in another, nor in another storage that shares the backend. The stored points of a series stay in ascending time order: a late point is either put in its place or refused with an error, and a refused point leaves the series as it was.",
    ["inputs", "histories", "configurations"], "every pair of series identifiers, every order of arrival of points, in both backends",
    "The tests write a few series with small ids and points that arrive in order.",
    ["src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"], ["keys made of storage and series identifiers", "insertion position of late points"], [("series key", "names one series of one storage")], ["Storage::write_time_point", "Storage::read_time_series"], True),
"C06": p("Looking up a label set finds exactly the series with that set",
    "Once a series is indexed, looking up its complete label set, in any order of the labels, finds that series; looking up any other label set, one that is a subset, a superset or merely looks alike when written down included, does not. Before it is indexed nothing is found.",
    ["inputs", "histories", "configurations"], "every pair of label sets, with any characters in names and values, in both backends",
    "The tests use a few alphanumeric label sets; sets that collide only through delimiters inside names or values, or through concatenation, are never tried.",
    ["src/indexer/common.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], ["encoding of a label set as a key", "sorting of labels"], [("label-set key", "maps a complete label set to a series")], ["Indexer::create_index", "Indexer::get_series_id_by_labels"], True),
"C07": p("A label query finds exactly the series carrying all its labels",
    "A query by one or more labels returns exactly the indexed series whose label set contains every one of them: none is missing, none is extra, none appears twice. It does so for series that share labels, in whatever order they were indexed.",
    ["inputs", "histories", "configurations"], "every set of indexed series and every query of at least one label, in both backends",
    "The tests query a few fixed label sets; overlap patterns and labels that resemble each other are not covered.",
    ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/common/utils.rs"], ["inverted index from label to series", "intersection of series lists"], [("label entry", "series that carry a label")], ["Indexer::get_series_id_contains_labels", "Indexer::get_series_metadata_contains_labels"], True),
"C08": p("The labels of a series read back as they were written",
    "The label set returned with a series is the set it was indexed with: the same names with the same values, whatever characters they hold (delimiters, quotes, spaces, empty values, any Unicode), none lost, added, merged or split. This holds too after the index was closed and opened again.",
    ["inputs", "configurations"], "every label set with distinct names, in both backends",
    "The tests use alphanumeric labels only.",
    ["src/indexer/common.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], ["encoding and decoding of label sets"], [("metadata entry", "labels of a series")], ["Indexer::get_series_metadata_contains_labels"], True),
"C09": p("Intersecting lists of series gives exactly the common ones",
    "The intersection of any number of ascending lists of series identifiers is the ascending list of exactly those in every list. It ends and gives this result for any number of lists, whichever way its work is split among threads.",
    ["inputs", "schedules"], "every number of ascending lists with any contents",
    "The tests intersect prefixes of one sequence, where every wrong pairing of lists gives the same answer.",
    ["src/common/utils.rs", "src/common/mod.rs"], ["pairwise merge of ascending lists", "recursive halves in threads"], (), ["intersect_time_series_id_vec"]),
"C10": p("What a chunk acknowledges it can read back; nothing out of its range",
    "A point whose write to a chunk succeeded is returned, with its exact value and under its labels, by every later query of that chunk that matches its labels and covers its time. A point outside the chunk's time range is refused, one inside is not (unless the backend takes no late points or fails), and a refused point never shows.",
    ["inputs", "histories", "configurations", "fault_sequences"], "every chunk range, every sequence of points and every query range, in both backends",
    "The tests write a few points well inside a chunk and query all of it.",
    ["src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], ["range check", "index before storage", "labels to series id"], [("chunk", "series of one time range")], ["Chunk::insert", "Chunk::query"], True),
"C11": p("A chunk query returns each matching series whole and by itself",
    "A query of a chunk returns one entry for each series that matches and has points in the range, holding exactly that series' points in the range in order, and nothing of any other series or chunk. A matching series without points in the range is left out and does not make the query fail.",
    ["inputs", "histories", "configurations"], "every mix of series with overlapping labels, points and query ranges, all pairs of storage and index backend",
    "The tests query single series or series that all lie in the range.",
    ["src/chunk/chunk.rs", "src/storage/common.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], ["query by index, then by storage", "allocation of series ids"], [("series id", "names a series within a chunk")], ["Chunk::query", "Chunk::insert"], True),
"C12": p("A database query merges all chunks into one ordered series per label set",
    "A query of the database returns, for each matching label set, every acknowledged point in the queried range from every chunk that overlaps it, current and closed ones alike, in ascending time order and each exactly once. A series appears once, however many chunks hold parts of it.",
    ["inputs", "histories"], "every distribution of points over chunks and every query range",
    "The tests write into one chunk, or two through timing; ranges that touch chunk borders and series that live in only some chunks are not covered.",
    ["src/db.rs", "src/chunk/chunk.rs"], ["walk over chunks from new to old", "merge by label set"], [("closed chunks", "earlier time ranges, oldest first")], ["MonolithDb::query"], True),
"C13": p("A batch write stores exactly its points in the current range",
    "When a batch write is acknowledged, exactly its points in the current chunk's range have been stored, once each and with their own values; those outside are left out and nothing else changes. A batch of which a point in range could not be stored is not acknowledged.",
    ["inputs", "histories"], "every batch: any times, any order, any mix of in-range and out-of-range points",
    "The tests write batches that lie wholly in the chunk and in order.",
    ["src/db.rs", "src/chunk/chunk.rs"], ["filter by the chunk's range", "insertion point by point"], (), ["MonolithDb::write_time_points", "MonolithDb::query"], True),
"C14": p("Swapping chunks loses nothing and hides nothing",
    "While the current chunk is replaced by a new one, every query still sees all points acknowledged before it, each once, and every write is either acknowledged and readable from then on or refused and never readable. The swap happens when the chunk's time is over, and the new chunk begins after the old one ends. A swap that fails leaves the old chunk in use and can be repeated. No schedule deadlocks.",
    ["schedules", "histories"], "every interleaving of a swap with writes and queries",
    "Tests run such interleavings only by chance; the window between retiring the old chunk and installing the new one is microseconds wide.",
    ["src/db.rs", "src/chunk/chunk.rs"], ["current chunk and list of closed chunks, each behind a lock", "timer and swap threads"], [("current chunk", "takes writes"), ("closed chunks", "answer queries only")], ["MonolithDb::query", "MonolithDb::write_time_point", "MonolithDb::write_time_points"], True),
"C15": p("Equality, order and overlap of labels, points and ranges obey their laws",
    "Two labels are equal exactly when names and values are, and are ordered by name; label sets are equal exactly when their labels are, and equal sets hash alike; sorting a set keeps every label. Two points are equal only if their times are equal and their values are (nearly) equal, symmetrically, and are ordered by time; two time ranges overlap exactly when some instant lies in both.",
    ["inputs"], "every pair of labels, label sets, points with finite values and time ranges",
    "The tests compare a few pairs; asymmetries (one value smaller than the other by a wide margin) and ordering borders are not sampled.",
    ["src/common/label.rs", "src/common/time_point.rs", "src/common/utils.rs"], ["hand-written equality and order"], (), ["Label", "Labels", "TimePoint", "is_duration_overlap"]),
"C16": p("A chunk's directory name and its time range determine each other",
    "The directory name made from a chunk's start and end time, read back, gives the same start and end, and different ranges have different names. A name that is not such a name is refused, not misread.",
    ["inputs"], "every pair of 64-bit times and every string",
    "The tests encode and decode one pair.",
    ["src/common/utils.rs"], ["hexadecimal encoding of two 64-bit numbers"], (), ["encode_chunk_dir", "decode_chunk_dir"]),
"C17": p("A log entry's bytes are its number, kind, length, data and checksum",
    "The bytes of a write-ahead log entry are its sequence number, kind, the length of its data, all data pushed in order, and the CRC-32 of exactly that data, and its reported length is the number of these bytes. This holds however the data was pushed piece by piece and for copies of an entry, and an entry too long for its length field is refused.",
    ["inputs", "histories"], "every number, every contents and every split of the contents into pushes",
    "The tests check two fixed entries of four bytes, and pushes to a copied entry not at all.",
    ["src/wal/mod.rs", "src/wal/segment.rs"], ["running checksum", "big-endian layout"], [("running checksum", "CRC-32 of the data so far")], ["Entry::get_bytes", "Entry::len"], True),
"C18": p("A log segment holds every acknowledged entry, whole and in order",
    "After an entry is acknowledged, a log segment's file plus what its flush policy allows it to hold back is exactly the magic number and all acknowledged entries in order, and it never holds back more than the policy says. Flushing writes the rest, closing appends the checksum of all entries, and if the underlying writer takes only part of a write or fails, nothing is lost silently.",
    ["inputs", "histories", "configurations", "fault_sequences"], "every flush policy, sequence of entries, and failing or short write of the underlying file",
    "The tests write one entry under one policy to a file that always works.",
    ["src/wal/segment.rs"], ["cache of entries per flush policy", "running CRC-64"], [("cache", "acknowledged entries not yet in the file")], ["Segment::write_entry", "Segment::close", "the underlying writer"], True),
"C19": p("The registry of a shared backend maps a chunk to the parts it was given",
    "Registering the index or the storage of a chunk with the shared backend hands out a new identifier and stores it in that chunk's entry (index first, storage second), leaving the other part and every other chunk's entry as they were. A registration that fails is reported and leaves the entry as it was.",
    ["inputs", "histories", "fault_sequences"], "every chunk identifier, every earlier entry, every order of registrations, a failure at any operation",
    "No test looks at the registry's entries.",
    ["src/backend/tikv.rs"], ["read-modify-write of a 32-byte entry"], [("registry entry", "index identifier, storage identifier")], ["TiKvRawBackend::init_component"], True),
"C20": p("What a remote write carries, a remote read gets back",
    "Every sample of an acknowledged remote-write request that lies in the current range is returned, with its exact time and value and under exactly its labels, by a remote read whose query matches it, one result per query in the order of the queries. Success is answered only if everything was done, unknown paths are answered as such, and each request is answered once.",
    ["inputs", "histories", "fault_sequences"], "every set of series and samples, every list of queries",
    "The tests convert a few messages and start the server; they do not compare what is read with what was written.",
    ["src/server.rs", "src/common/time_series.rs", "src/common/label.rs", "src/common/time_point.rs"], ["conversion between messages and series", "compression of bodies", "routing"], (), ["POST write path", "POST read path"], True),
"C21": p("A malformed request is answered with an error and harms nothing",
    "Whatever bytes a client sends as the body of a request, the server answers it and goes on serving others correctly. A body that cannot be decompressed or decoded is answered with an error status, is never acknowledged and stores nothing.",
    ["inputs"], "every request body on every path",
    "The tests send valid requests only.",
    ["src/server.rs"], ["decompression and decoding of bodies", "error to status mapping"], (), ["POST write path", "POST read path"], True),
"C22": p("After a restart every stored point is found again",
    "When a database is opened on a directory that earlier runs used, every point they stored is returned by queries as before, in order and once, together with the points written since, however many chunks there are and in whatever order the directory lists them. Files and directories that are no chunks change nothing. A chunk whose metadata is damaged is reported, not left out.",
    ["histories", "inputs", "configurations"], "every history of earlier runs and every content of the directory",
    "The tests open empty directories only, or check one metadata file.",
    ["src/db.rs", "src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/indexer/sled_indexer.rs", "src/common/utils.rs"], ["scan of chunk directories", "chunk metadata", "read-only reopening"], [("chunk directory", "one chunk's storage, index and metadata")], ["MonolithDb::new", "MonolithDb::query"], True),
"C23": p("A directory is only opened with the backends it was made with",
    "Opening a database directory with another storage or index backend than it was first used with is refused and changes nothing; opening it with the same is not refused. A metadata file that is damaged is refused and kept, never overwritten.",
    ["configurations", "inputs", "histories"], "every sequence of backend pairs and every damage of one byte or cut of the metadata",
    "The tests try one matching and one differing pair on one metadata file.",
    ["src/db.rs", "src/common/metadata.rs"], ["metadata file with the names of the backends"], [("metadata file", "backends the directory belongs to")], ["MonolithDb::new"], True),
"C24": p("A failing backend never turns into a false acknowledgement or answer",
    "When operations of the key-value backend fail, a write is acknowledged only if the point is stored and findable, a refused write leaves what was there readable and can be repeated with success once the backend works again, and a query returns the whole answer or an error, never a part of it. The server answers such requests with an error status.",
    ["fault_sequences", "histories"], "failure of any one, two or all backend operations from any point on, in any request",
    "The tests' backend never fails.",
    ["src/chunk/chunk.rs", "src/indexer/tikv_indexer.rs", "src/storage/tikv_storage.rs", "src/db.rs", "src/server.rs"], ["order of index and storage writes", "propagation of errors"], [("label entries", "written one by one before the series is complete")], ["Chunk::insert", "Chunk::query", "POST write path", "POST read path"], True),
"C25": p("Concurrent writers and readers of a series do not disturb each other",
    "Points written by concurrent writers, to the same or to overlapping label sets, are each stored once or refused with an error, a label set that both begin becomes one series, and different label sets stay different series. A query that runs meanwhile returns without error a prefix of what was written in order. No schedule deadlocks.",
    ["schedules", "inputs"], "every interleaving of two clients at the granularity of lock and backend operations",
    "The tests are single-threaded.",
    ["src/chunk/chunk.rs", "src/db.rs", "src/common/mod.rs"], ["lock around insertion", "allocation of series ids"], [("series id counter", "next id of the chunk")], ["MonolithDb::write_time_point", "MonolithDb::query"], True),
"C26": p("A matcher in a read request means what its kind says",
    "In a remote-read query an equality matcher selects the series whose label has that value, an inequality matcher those whose label has not, and the two regular-expression kinds those whose label does or does not match the expression. A kind that is not supported is answered with an error, not as if it were another.",
    ["inputs"], "every kind of matcher",
    "The tests use equality matchers only.",
    ["src/server.rs", "src/common/label.rs"], ["conversion of matchers to labels"], (), ["POST read path"], True),
"C27": p("Options are taken as given or refused",
    "Numbers, paths and names given as options, in either spelling, or in the TiKV configuration file are used exactly as given, and those left out have their documented defaults (the directory: the one the program is started in; TiKV: a dry run). A program that starts listens at its port, on this machine alone, and answers at its paths. A port outside 1024 to 65535, a number that is none, a chunk size beyond what times can hold, an unknown backend, an unknown option or a directory that is not there ends the program with a failure status before it makes or serves anything.",
    ["inputs", "configurations"], "every value of the numeric options, every option left out or given in either spelling",
    "No test parses options beyond the defaults, and none runs the program.",
    ["src/common/option.rs", "src/bin/monolith-server.rs", "src/server.rs", "src/backend/tikv.rs"], ["parsing of option values", "the program's table of options"], (), ["ServerOpts::get_config", "DbOpts::get_config", "main"]),
"C29": p("A full disk or a sudden end while chunks are made leaves the database usable",
    "When the process dies at any moment while it opens a database or swaps chunks, or the disk refuses any change the database makes to its own files and directories, the directory can be opened again afterwards with the same backends, and every point that was stored in it is found. A refusal by the disk is answered with an error; a database opened or a chunk swapped without error is complete, its directory is still refused to other backends, and a failed swap leaves the old chunk in use and can be repeated.",
    ["crash_points", "fault_sequences", "histories"], "a crash or a refusal at every change to the file system, writes cut short included, while a database is opened for the first or second time or a chunk is swapped",
    "The tests neither end a process half-way nor fill a disk.",
    ["src/db.rs", "src/chunk/chunk.rs", "src/common/utils.rs"], ["metadata file of the database", "options file of a chunk", "order of directory, options and stores"], [("metadata files", "tell the database's backends and each chunk's range")], ["MonolithDb::new", "MonolithDb::query"], True),
"C28": p("Acknowledged points survive a crash of the process",
    "A point whose write was acknowledged is found again after the process is killed at any moment and the database is opened on the same directory.",
    ["crash_points", "histories"], "every history of writes and every moment of a crash",
    "No test crashes a process.",
    ["src/storage/sled_storage.rs", "src/db.rs", "src/wal/mod.rs"], ["the embedded store's own log, flushed every half second", "a write-ahead log that is not connected yet"], (), ["MonolithDb::new"]),
}
NOT_APPLICABLE = {
    "C28": "Durability at a crash is decided inside the sled dependency (lock-free page cache, its own background flusher, io) and not in this repository's code, whose own log is not connected to the write path; sled 0.22 is far out of reach of symbolic execution (and it acknowledges writes up to half a second before flushing, so the property does not hold as stated without a flush per write).",
}
