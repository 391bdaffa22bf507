"""What each check runs.  An entry is (harness, seconds, engine options, marks that must be reached)."""
ASSUME = [
    "the engine's reading of LLVM IR and its models of libc, pthreads, clocks and files are right (symir selftest; witnesses replayed natively with the real dependencies)",
    "rustc's IR for the harness build (opt-level 1, overflow checks on, panics caught) means what the source means",
]
SLED = "sled is modelled by a map from keys to values that keeps what it is given; crashes inside sled are not explored"
HTTP = "tiny_http is modelled by requests put before the server in memory; the replays run it over the loopback network"
KV = "the key-value server behind the TiKV backend is the repository's in-memory stand-in"
COMMON_OUT = "larger sizes than the bounds; memory exhaustion; "


def e(name, secs, reach=(), opts=()):
    return (name, secs, list(opts), list(reach))


PROPS = {
    "C01": dict(
        entries=[e("h_gor_time", 60, ["round-trip"]), e("h_gor_val2", 30, ["round-trip"]), e("h_gor_val3", 60, ["round-trip"]),
                 e("h_gor_win3", 100, ["round-trip"]), e("h_gor_seq", 40, ["round-trip"]), e("h_gor_long", 60, ["round-trip"])],
        bounds="up to 4 points with symbolic 64-bit times, 3 with symbolic 64-bit values, longer runs with symbolic parts; every bit pattern of a value; streams of 20, 70 and 300 points with one symbolic value",
        outside=COMMON_OUT + "series of more points than the harnesses write"),
    "C02": dict(
        entries=[e("h_none_round", 20, ["round-trip"]), e("h_tags", 30, ["refused"]), e("h_none_long", 30, ["round-trip"])],
        bounds="up to 4 points, all 64-bit times and values, 16 and 257 points of which one is symbolic; every tag byte against both decoders", outside=COMMON_OUT),
    "C03": dict(
        entries=[e("h_gor_junk_short", 30, ["junk-read", "junk-refused"]), e("h_gor_junk2", 80, ["junk-read"]), e("h_gor_junk_tail", 40, ["junk-read"]),
                 e("h_none_junk", 20, ["junk-read", "junk-refused"])],
        bounds="every input up to the sizes of the harnesses: all short inputs, two symbolic bytes anywhere in the point stream, symbolic tails of valid data", outside=COMMON_OUT),
    "C04": dict(
        entries=[e("h_st_sled_range", 60, ["read-some", "read-none"]), e("h_st_tikv_range", 60, ["read-some", "read-none"]),
                 e("h_st_sled_any", 40, ["late-points"]), e("h_st_tikv_any", 40, ["stale-refused"]), e("h_st_sled_reopen", 40), e("h_st_sled_many", 60, ["read-some", "read-none"]), e("h_st_tikv_many", 60, ["read-some", "read-none"])],
        bounds="1-4 points, symbolic 64-bit times, values and range bounds; 4 series ids; up to 40 points with symbolic range bounds", outside=COMMON_OUT, assume=[SLED, KV]),
    "C05": dict(
        entries=[e("h_st_sled_iso", 40), e("h_st_tikv_iso", 40), e("h_st_tikv_shared", 40), e("h_st_sled_any", 40, ["late-points"]), e("h_st_tikv_any", 40, ["stale-refused"])],
        bounds="two series; ids symbolic 64 bit (TiKV) or from a list (sled); two storages on one backend; 2-3 points in any order", outside=COMMON_OUT, assume=[SLED, KV]),
    "C06": dict(
        entries=[e("h_ix_sled_exact", 60, ["two-sets"]), e("h_ix_tikv_exact", 60, ["two-sets"]), e("h_ix_tikv_shared", 30, ["shared"]), e("h_ix_sled_reopen", 30, ["reopened"]),
                 e("h_ix_sled_exact_wide", 60, ["two-sets"]), e("h_ix_tikv_exact_wide", 60, ["two-sets"])],
        bounds="two label sets of 1-2 labels, names and values of 0-2 symbolic ASCII characters, both orders; sets of 3-12 labels", outside=COMMON_OUT + "repeated label names in a set", assume=[SLED, KV]),
    "C07": dict(
        entries=[e("h_ix_sled_contains", 60, ["contains-none", "contains-some"]), e("h_ix_tikv_contains", 60, ["contains-none", "contains-some"]),
                 e("h_ix_sled_many", 60, ["many-both", "many-one"]), e("h_ix_tikv_many", 60, ["many-both", "many-one"]),
                 e("h_ix_sled_crowd", 60, ["crowd"]), e("h_ix_tikv_crowd", 60, ["crowd"])],
        bounds="2-3 series, label names and values symbolic characters, queries of 1-4 labels", outside=COMMON_OUT + "queries without a label", assume=[SLED, KV]),
    "C08": dict(
        entries=[e("h_ix_sled_readback", 60, ["readback"]), e("h_ix_tikv_readback", 60, ["readback"]), e("h_ix_sled_unicode", 60), e("h_ix_sled_reopen", 30, ["reopened"]),
                 e("h_ix_sled_readback_wide", 60, ["readback"]), e("h_ix_tikv_readback_wide", 60, ["readback"])],
        bounds="1-2 labels, names and values of 0-3 symbolic ASCII characters, or one symbolic Unicode character; 3 series ids", outside=COMMON_OUT, assume=[SLED, KV]),
    "C09": dict(
        entries=[e("h_ids2", 40, ["common-ids"]), e("h_ids3", 60, ["common-ids"]), e("h_ids4", 60, ["common-ids"]), e("h_ids_many", 60, ["common-ids"]),
                 e("h_ids_long", 60, ["common-ids"]), e("h_ids_six", 60, ["common-ids"]), e("h_ids_wide", 60, ["common-ids"])],
        bounds="2-4 ascending lists of up to 3 symbolic 64-bit ids, and up to 9 lists of fewer", outside=COMMON_OUT + "lists that are not ascending"),
    "C10": dict(
        entries=[e("h_ch_sled_acked", 60, ["chunk-read", "refused"]), e("h_ch_tikv_acked", 60, ["chunk-read", "refused"]), e("h_fl_insert", 40, ["acknowledged", "failed"]), e("h_ch_sled_crowd", 60, ["two-series"]), e("h_ch_tikv_crowd", 60, ["two-series"])],
        bounds="chunk range, 3 points and query range symbolic 64 bit; one series written with its labels in both orders", outside=COMMON_OUT + "chunks that start after 2^62", assume=[SLED, KV]),
    "C11": dict(
        entries=[e("h_ch_sled_several", 60, ["two-series"]), e("h_ch_tikv_several", 60, ["two-series"]), e("h_ch_mixed", 30, ["two-series"]), e("h_ch_two", 30, ["two-chunks"]), e("h_ch_sled_crowd", 60, ["two-series"]), e("h_ch_tikv_crowd", 60, ["two-series"])],
        bounds="3 series with overlapping labels, 2-4 points, symbolic times, values and query range, 5 queries; all four backend pairs; a crowd of 9 series", outside=COMMON_OUT, assume=[SLED, KV]),
    "C12": dict(
        entries=[e("h_db_merge", 60), e("h_db_merge_pairs", 60, ["several-points"]), e("h_db_merge_series", 30, ["merged-series"]), e("h_db_merge_chunks", 60, ["chunks"]), e("h_rs_nested", 40, ["nested"])],
        bounds="2-3 chunks, 0-2 points per chunk of 1-3 series, symbolic times, values and query range", outside=COMMON_OUT, assume=[KV]),
    "C13": dict(
        entries=[e("h_db_batch_kv", 40, ["batch", "left-out"]), e("h_db_batch_sled", 40, ["batch", "left-out"]), e("h_db_batch_two", 40, ["batch"]), e("h_db_batch_long_kv", 40, ["batch"]), e("h_db_batch_long_sled", 40, ["batch"])],
        bounds="batches of 2-3 points with symbolic 64-bit times and values, two batches of two series", outside=COMMON_OUT, assume=[SLED, KV]),
    "C14": dict(
        entries=[e("h_cc_swap_query", 60, ["swapped"]), e("h_cc_swap_write", 60, ["acked", "refused"]), e("h_cc_swap_write_query", 60, ["acked", "refused"]), e("h_db_timer", 30, ["timer"]), e("h_db_timer_again", 30, ["timer-again"]), e("h_db_merge_series", 30, ["merged-series"]), e("h_fl_swap", 30, ["swapped", "not-swapped"])],
        thorough=[e("h_cc_swap_write_query_deep", 150, ["acked", "refused"])],
        bounds="all schedules of two threads; with three threads those with up to 2 preemptions (thorough: 3); threads preempted at every lock, atomic and backend operation; 1-2 points; failure of any step of making the new chunk, of a timed swap as well, and the swap after it", outside=COMMON_OUT + "preemption inside the standard library or inside a lock-free step", assume=[KV]),
    "C15": dict(
        entries=[e("h_law_label", 40, ["equal", "different"]), e("h_law_labels", 40, ["equal", "different"]), e("h_law_sort", 40, ["sorted"]), e("h_law_point", 40, ["equal", "different"]),
                 e("h_law_apart", 40, ["apart"]), e("h_law_overlap", 20, ["overlap"])],
        bounds="label names and values of 0-2 symbolic ASCII characters, sets of 0-3 labels, points with symbolic times and finite values, symbolic ranges", outside=COMMON_OUT + "values that are not finite"),
    "C16": dict(
        entries=[e("h_dir_digits", 40, ["directory"]), e("h_dir_distinct", 40, ["same", "other"]), e("h_dir_junk", 40, ["hex", "junk"])],
        bounds="any hexadecimal digit of start and end around 4 patterns; pairs of ranges differing in any byte; every ASCII name up to 3 characters", outside=COMMON_OUT),
    "C17": dict(
        entries=[e("h_wal_entry", 40, ["entry"]), e("h_wal_any", 40, ["entry"]), e("h_wal_clone", 20, ["clone"]), e("h_wal_long", 40, ["long"]), e("h_wal_run", 60, ["run"])],
        bounds="symbolic number, 0-4 bytes of data of which one is symbolic, every split into two pushes; lengths from 255 to 131072; runs of 8 entries", outside=COMMON_OUT),
    "C18": dict(
        entries=[e("h_wal_segment", 60, ["closed"]), e("h_wal_fault", 60, ["fault-reported", "no-fault"]), e("h_wal_long", 40, ["long"]), e("h_wal_run", 60, ["run"])],
        bounds="8 flush policies, 0-3 entries with symbolic contents, whole or short writes, failure of any one of the first writes on; runs of 8 entries under 30 limits", outside=COMMON_OUT + "time-based flushing (it does not exist yet)"),
    "C19": dict(
        entries=[e("h_reg", 40, ["registered"]), e("h_reg_fault", 20, ["failed", "registered"])],
        bounds="symbolic chunk identifiers of 1-3 bytes, any earlier entry, up to 3 registrations of either kind, failure of any operation", outside=COMMON_OUT + "two processes registering at once", assume=[KV]),
    "C20": dict(
        entries=[e("h_sv_write_read", 40, ["write-read"]), e("h_sv_http", 40, ["http", "empty"]), e("h_fl_server", 40, ["written", "not-written"]), e("h_sv_write_many", 60, ["many"]), e("h_sv_write_labels", 60, ["labels"])],
        bounds="two series, 1-3 points with symbolic times and values, three queries with symbolic range; over HTTP with fixed contents; a write of 7 series with up to 4 samples; 30 labels, empty, long, reserved or odd", outside=COMMON_OUT + "times beyond 2^63; sockets (requests are handed to the request handler)", assume=[KV]),
    "C21": dict(
        entries=[e("h_sv_junk_message", 60, ["junk-taken", "junk-refused"]), e("h_sv_junk_body", 110, ["junk-taken", "junk-refused"]), e("h_sv_cut", 20, ["cut"]), e("h_sv_cut_message", 30, ["cut"])],
        thorough=[e("h_sv_flip", 60, ["junk-taken", "junk-refused"]), e("h_sv_flip_read", 60, ["junk-taken", "junk-refused"]), e("h_sv_junk_message3", 120)],
        bounds="every message up to 2 bytes, every compressed body up to 4 bytes (claimed size under 6), a valid request cut anywhere, before and after compression; thorough: any byte of a valid request replaced, messages of 3 bytes", outside=COMMON_OUT + "malformed HTTP itself (tiny_http)", assume=[KV]),
    "C22": dict(
        entries=[e("h_rs_reopen", 60, ["reopened", "several-points"]), e("h_rs_two_lives", 40, ["second-run"]), e("h_rs_clutter", 30, ["clutter"]), e("h_rs_damaged", 40, ["opened", "refused"]), e("h_rs_nested", 40, ["nested"]), e("h_rs_dozen", 60, ["dozen"]), e("h_rs_future", 40, ["future"]), e("h_rs_somewhere", 30, ["somewhere"])],
        bounds="2-3 chunks of earlier runs made in any of 4 orders, symbolic values and one symbolic time each, any query range; an earlier run with up to 1 swap; 7 kinds of clutter; 5 names of the directory; chunks within each other, touching and overlapping; a dozen chunks; two points of an earlier run anywhere in its chunk, before or after the restart; any byte at 4 places of a chunk's metadata", outside=COMMON_OUT + "the TiKV builders (they need a git dependency that cannot be had offline)", assume=[SLED]),
    "C23": dict(
        entries=[e("h_md_kinds", 40, ["same", "other"]), e("h_md_damaged", 80, ["opened", "refused"])],
        thorough=[e("h_md_opts", 80, ["options"])],
        bounds="three runs with any of the four backend pairs; any one byte of the metadata file replaced by any other, or the file cut anywhere", outside=COMMON_OUT + "two damaged bytes", assume=[SLED, KV]),
    "C24": dict(
        entries=[e("h_fl_insert", 40, ["acknowledged", "failed"]), e("h_fl_query", 30, ["answered", "query-failed"]), e("h_fl_db_query", 30, ["answered", "query-failed"]), e("h_fl_index", 30, ["made", "not-made"]), e("h_fl_storage", 30, ["read", "read-failed"]),
                 e("h_fl_server", 40, ["written", "not-written", "answered", "not-answered"])],
        bounds="failure of any one backend operation, of it and the next, or of all from it on; then a backend that works", outside=COMMON_OUT + "a failing sled; operations that take effect although they report failure", assume=[KV]),
    "C25": dict(
        entries=[e("h_cc_write_write", 60, ["two-writers"]), e("h_cc_write_query", 60, ["read-all", "read-part"]), e("h_cc_three", 60, ["three"])],
        thorough=[e("h_cc_write_write_deep", 100, ["two-writers"]), e("h_cc_write_query_deep", 100, ["read-all", "read-part"]), e("h_cc_three_deep", 60, ["three"])],
        bounds="schedules of two threads with up to 4 preemptions (thorough: all), of three threads with 1 (thorough: 2), at every lock, atomic and backend operation", outside=COMMON_OUT + "more threads", assume=[KV]),
    "C26": dict(
        entries=[e("h_sv_matchers", 40, ["eq"]), e("h_sv_matcher_text", 40, ["none", "some"])],
        bounds="the four kinds of matcher, alone, first or last, on three series, beside another query; 15 values with characters that might be taken for patterns", outside=COMMON_OUT + "regular expressions beyond an alternative of two letters", assume=[KV]),
    "C27": dict(
        entries=[e("h_op_port", 40, ["taken", "refused"]), e("h_op_others", 40, ["options"]), e("h_op_junk", 40, ["number", "junk"]), e("h_bin_defaults", 40, ["served"]), e("h_bin_given", 90, ["served"]), e("h_bin_refused", 40, ["refused"]), e("h_bin_sizes", 40, ["taken", "refused"]), e("h_op_tikv", 40, ["tikv-config", "config-refused"])],
        bounds="ports of up to 6 symbolic digits with either sign, chunk sizes of up to 4 and worker numbers of 2 symbolic digits, 1-2 symbolic ASCII characters instead; the server's program whole, from its command line to its answers: no options, all options in either spelling with one of 4 ports and 1-2 symbolic digits of chunk size, 26 command lines that cannot be, and chunk sizes about every limit; TiKV configuration files of up to 3 endpoints", outside=COMMON_OUT + "option values that are not text", assume=[HTTP]),
    "C29": dict(
        entries=[e("h_cr_open", 60, ["opened", "refused", "died"]), e("h_cr_swap", 60, ["swapped", "repeated", "died"])],
        bounds="one refusal, or refusals from one change on, or the end of the process at any one change to a file or directory outside the stores' own directories (writes done in full, in part or not at all), while a database is opened on an empty or a used directory or swaps chunks; three symbolic values", outside=COMMON_OUT + "what happens within sled's own directories; power failures (what the kernel was given is kept)", assume=[SLED]),
}

# size: hundreds of what the others have a few of
SCALE = {
    "C04": [e("h_sc_sled_long", 60, ["long-read"]), e("h_sc_tikv_long", 60, ["long-read"])],
    "C05": [e("h_sc_sled_long", 60, ["long-read"])],
    "C06": [e("h_sc_sled_many", 60, ["hundreds"]), e("h_sc_tikv_many", 60, ["hundreds"])],
    "C07": [e("h_sc_sled_many", 60, ["hundreds"]), e("h_sc_tikv_many", 60, ["hundreds"])],
    "C08": [e("h_sc_sled_many", 60, ["hundreds"]), e("h_sc_tikv_many", 60, ["hundreds"])],
    "C09": [e("h_sc_ids", 30, ["common-ids"])],
    "C10": [e("h_sc_sled_full", 40, ["hundreds"]), e("h_sc_sled_long", 60, ["long-read"])],
    "C11": [e("h_sc_sled_full", 40, ["hundreds"]), e("h_sc_tikv_full", 40, ["hundreds"])],
    "C12": [e("h_sc_chunks", 30, ["dozens"]), e("h_sc_same_time", 30, ["same-time"])],
    "C13": [e("h_sc_batch_kv", 30, ["long-batch"]), e("h_sc_batch_sled", 30, ["long-batch"]), e("h_sc_same_time", 30, ["same-time"])],
    "C17": [e("h_sc_wal", 40, ["long-run"])],
    "C18": [e("h_sc_wal", 40, ["long-run"])],
    "C20": [e("h_sc_served", 40, ["large"])],
    "C22": [e("h_sc_restart", 40, ["dozens"])],
}
SCALE_TEXT = {
    "C04": "a series of 301 points, the last anywhere in it", "C05": "a series of 301 points, the last anywhere in it",
    "C06": "an index of 300 series", "C07": "an index of 300 series", "C08": "an index of 300 series",
    "C09": "lists of up to 900 ids, 33 lists", "C10": "a chunk of 300 series, a series of 301 points", "C11": "a chunk of 300 series",
    "C12": "40 chunks; three points of any times, the same among them, in one chunk", "C13": "batches of 300 and 1100 points",
    "C17": "runs of 300 entries", "C18": "runs of 300 entries, 13 limits up to 100,000",
    "C20": "a write of 120 series, one of 1100 samples, and 40 queries at once", "C22": "40 chunks of earlier runs",
}
TIKV = "tikv-client is modelled by a cluster that keeps what it is given, by key, and may be away (models/tikv_client)"
# through the project's own TiKV client, builders and configuration
CLUSTER = {
    "C05": ([e("h_tk_apart", 30, ["two-databases"])], "two databases on one cluster or two, before and after a restart"),
    "C19": ([e("h_tk_apart", 30, ["two-databases"]), e("h_tk_reopen", 40, ["second-run"])], "databases of 1-2 chunks opened again on their cluster"),
    "C22": ([e("h_tk_reopen", 40, ["second-run"])], "1-2 chunks on a TiKV cluster, with TiKV for storage, index or both"),
    "C24": ([e("h_tk_opening", 40, ["opened", "refused"]), e("h_tk_away", 40, ["after-failure"])], "a cluster away at any operation of an opening, a write, a query or a swap"),
    "C27": ([e("h_tk_config", 30, ["cluster", "dry-run", "no-cluster"]), e("h_tk_program", 60, ["cluster", "dry-run", "served"])], "6 TiKV configuration files; the program on TiKV with a cluster, a dry run and no configuration"),
}
for k, (v, t) in CLUSTER.items():
    PROPS[k]["entries"] += v
    PROPS[k]["bounds"] += "; " + t
    PROPS[k]["assume"] = PROPS[k].get("assume", []) + [TIKV]
PROPS["C22"]["outside"] = COMMON_OUT
for k, v in SCALE.items():
    PROPS[k]["entries"] += v
    PROPS[k]["bounds"] += "; with fixed contents but for one value: " + SCALE_TEXT[k]
