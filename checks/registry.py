MD = "$REPO/src/majordomo/include"
CORE = "$REPO/src/core/include"
HERE = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
ALLI = [HERE + "/stubs", CORE, MD, "$REPO/src/serialiser/include", "$REPO/src/disruptor/include", "$REPO/src/services/include", "$REPO/src/zmq/include", "$REPO/src/client/include"]
def H(src, entry, reach, **kw):
    rl = kw.pop("reachl", None)  # labels with blanks
    return dict(src=src, entry=entry, incl=kw.pop("incl", [CORE]), reach=rl.split(";") if rl else reach.split(), **kw)
def T(src, entry, reach, **kw):  # harness with threads
    opts = kw.pop("opts", ["--deadlock"])
    return dict(src=src, entry=entry, incl=kw.pop("incl", [CORE]), reach=[x for x in reach.split(";") if x], threads=True, opts=opts, **kw)
PROPS = {
    "P01": dict(
        bounds="byte sequences of 0..30 (quick) / 0..66 (thorough) bytes, every value of every byte symbolic",
        outside="longer inputs (the codec is a loop over independent 3-byte groups plus a tail of 0..2 bytes; both are covered)",
        harnesses=[H("base64.cpp", "h_roundtrip", "roundtrip max", incl=[MD])]),
    "P02": dict(
        bounds="texts of 0..36 (quick) / 0..80 (thorough) characters, all 256 values of each symbolic",
        outside="longer texts",
        harnesses=[H("base64.cpp", "h_decode_any", "badlen rejected accepted", incl=[MD])]),
    "P03": dict(
        bounds="URI texts of 0..7 (quick) / 0..9 (thorough) arbitrary bytes, plus texts built from components (scheme, authority, path, query, fragment individually present) up to about 40 characters, crossing the small-string limit",
        outside="longer texts; texts with neither scheme nor leading '/', '?' or '#' (finding F01) and texts starting with '//'",
        harnesses=[H("uri.cpp", "h_split_relaxed", "parsed", quick_defs=["-DN=7"], thorough_defs=["-DN=9"]), H("uri.cpp", "h_split_long", "long heap", quick_defs=["-DN=7"], thorough_defs=["-DN=9", "-DBIG=12"])]),
    "P04": dict(
        bounds="URI texts of 0..6 (quick) / 0..8 (thorough) arbitrary bytes; authorities of 1..7 / 1..9 arbitrary bytes; ports of 0..6 characters",
        outside="longer texts; texts with neither scheme nor leading '/', '?' or '#' (finding F01)",
        harnesses=[H("uri.cpp", e, r, quick_defs=["-DN=6"], thorough_defs=["-DN=8"]) for e, r in (("h_split_strict", "parsed rejected"), ("h_authority", "auth"), ("h_port", "port valid"), ("h_total_relaxed", "total"))]
        + [H("uri.cpp", "h_one_char", "", quick_defs=["-DN=6"], thorough_defs=["-DN=8"], finding="F01", finding_match="out_of_range")]),
    "P05": dict(
        bounds="encode: 0..4 (quick) / 0..6 (thorough) arbitrary bytes; decode: 0..6 / 0..8 arbitrary characters",
        outside="longer texts (encoding and decoding are per character with a window of three)",
        harnesses=[H("uri_query.cpp", e, r, thorough_defs=["-DN=6"]) for e, r in (("h_encode", "encoded"), ("h_decode_strict", "decoded rejected"), ("h_decode_relaxed", "decoded"))]),
    "P06": dict(
        bounds="queries of 0..5 (quick) / 0..7 (thorough) arbitrary characters, and structured queries of 1..2 / 1..3 parameters with keys of 1..2 and values of 0..2 arbitrary characters",
        outside="longer queries, more parameters",
        harnesses=[H("uri_query.cpp", e, r, quick_defs=["-DN=5"], thorough_defs=["-DN=7", "-DNPARAM=3"]) for e, r in (("h_query_strict", "query rejected"), ("h_query_relaxed", "query"), ("h_query_long", "long"))]),
    "P07": dict(
        bounds="two URIs of eight shapes (components present or absent, letters and digits symbolic) below and above the small-string limit, every lazy state, every single copy/move/assignment; histories of 2 (quick) / 3 (thorough) assignments over three URIs; copies of every text of 0..4 bytes; comparison of texts of 2..4 bytes",
        outside="longer histories, other shapes",
        harnesses=[H("uri_life.cpp", e, r) for e, r in (("h_ops", "copy-assign move-assign copy move self"), ("h_history", "history"), ("h_copy_text", "text"), ("h_compare", "compare"))]),
    "P08": dict(
        bounds="components of up to 2 symbolic characters each, individually empty or present; every 16-bit port; one or two parameters with keys and values of 1 (quick) / 1..2 (thorough) arbitrary bytes; factory of every URI text of 0..5 bytes",
        outside="longer components, more parameters; texts with empty delimiters ('s://', trailing '?' or '#'), fragments that need percent-encoding",
        harnesses=[H("uri_life.cpp", e, r) for e, r in (("h_factory", "factory"), ("h_factory_port", "port"), ("h_factory_query", "query"), ("h_factory_identity", "identity"))]),
    "P09": dict(
        bounds="every interleaving of up to three threads (readers, writers, blocking and try locks, guards; up to two holders already inside), each lock retrying at most 3 (three threads: 2, thorough 3) times before the retry is cut; every sequence of 5 (quick) / 7 (thorough) operations of one thread",
        outside="more threads, more retries; weak-memory reorderings of the lock word itself (its operations are explored as one total order; ordering of the protected data is decided by happens-before from the declared memory orders)",
        harnesses=[T("rwlock.cpp", e, r) for e, r in (("h_rw_excl", "reader first;writer first"), ("h_rw_scoped", "reader first;writer first"), ("h_rw_try", "after writer;writer refused;reader refused"), ("h_rw_try_block", "refused;granted"), ("h_rw_try_block2", "refused;granted"), ("h_rw_writers", ""), ("h_rw_last_reader", "done"), ("h_rw_last_writer", "granted;refused"))]
        + [T("rwlock.cpp", "h_rw_three", "readers share", opts=["--deadlock", "--spin", "2"]), T("rwlock.cpp", "h_rw_three", "readers share", thorough_only=True, opts=["--deadlock", "--spin", "3"])]
        + [H("rwlock.cpp", "h_rw_seq", ""), H("rwlock.cpp", "h_rw_guard_throw", "done")]),
    "P10": dict(
        bounds="every interleaving of two or three threads taking the mutex once or twice, directly and through std::lock_guard / std::scoped_lock, each acquisition retrying at most 3 (thorough: 5) times",
        outside="more threads, more retries; weak-memory reorderings of the flag itself",
        harnesses=[T("rwlock.cpp", e, "done", thorough_opts=["--deadlock", "--spin", "5"]) for e in ("h_am_two", "h_am_two_spin", "h_am_guard", "h_am_twice")] + [T("rwlock.cpp", "h_am_three", "done")]),
    "P11": dict(
        bounds="spinOnce from every counter value (all 2^31); spinUntil with every 64-bit timeout, conditions becoming true at evaluation 0..15 (thorough: 0..40), the clock advancing by any 0..40 ms at each evaluation; a waiting thread against a signalling one in every interleaving with at most 3 polls",
        outside="conditions that take more evaluations, larger clock steps; the number of processor pauses in one spin; non-default YIELD_THRESHOLD",
        harnesses=[H("spinwait.cpp", "h_spin_early", "done"), H("spinwait.cpp", "h_spin_late", "sleep1 sleep0 yield"), H("spinwait.cpp", "h_spin_other", "sleep1 sleep0 yield")]
        + [H("spinwait.cpp", "h_spin_until", "refused zero forever late", thorough_defs=["-DMAXEV=40"]), H("spinwait.cpp", "h_spin_default", "done", thorough_defs=["-DMAXEV=40"]), T("spinwait.cpp", "h_spin_thread", "done")]),
    "P12": dict(
        bounds="8, 9, 64, 65 and 130 CPUs (thorough: also 1, 2, 7); masks with up to eight arbitrary flags in an all-set or all-clear background; every policy number, every priority, every priority range within 0..99; operating system error codes 1..40; names of 0..15 arbitrary characters",
        outside="other CPU counts and mask patterns; the operating system itself (a recording stand-in answers with symbolic results); process names (files under /proc)",
        harnesses=[H("affinity.cpp", e, r) for e, r in (("h_aff_get", "done"), ("h_aff_set", "done"), ("h_aff_set_vec", "done"), ("h_aff_errors", "done"), ("h_aff_invalid", "done"), ("h_sched_get", "done"), ("h_sched_set", "set refused"), ("h_name", "done"))]
        + [H("affinity.cpp", "h_name_error", "", finding="F02", finding_match="a name refused by the operating system is reported")]),
    "P13": dict(
        bounds="selectors: any 0..5 (quick) / 0..7 (thorough) bytes after the prefix, any text of 0..4 bytes, every one-character change of a two-field selector, numbers of 8, 10 and 11 digits around the 32 bit limit; all combinations of present, absent and wildcard fields with one-digit values; histories of three selector changes over nine valid and invalid texts; every 64 bit time stamp",
        outside="longer selectors; texts with NUL characters; field values of several digits together with matching",
        harnesses=[H("timingctx.cpp", e, r, incl=ALLI, thorough_defs=["-DN=7", "-DVMAX=9999"]) for e, r in (("h_ctx_parse", "accepted refused"), ("h_ctx_plain", "accepted refused"), ("h_ctx_prefix", "accepted refused"), ("h_ctx_number", "accepted refused"), ("h_ctx_match", "eq hash"), ("h_ctx_four", "done"), ("h_ctx_ints", "done"), ("h_ctx_change", "done"), ("h_ctx_bad_text", "done"), ("h_ctx_collision", ""))]),
    "P14": dict(
        bounds="service texts of 0..5 arbitrary bytes; 0..2 parameters with names and values of 1 (quick) / 1..2 (thorough) arbitrary bytes; queries of 0..4 arbitrary bytes",
        outside="longer names and values, more parameters, parameters with an empty value",
        harnesses=[H("topic.cpp", e, r, incl=ALLI, thorough_defs=["-DNK=2"] if e == "h_topic_mdp" else ["-DNP=3"]) for e, r in (("h_topic_service", "valid refused"), ("h_topic_zmq", "done"), ("h_topic_mdp", "done"), ("h_topic_order", "done"), ("h_topic_query", "done"), ("h_topic_distinct", "done"))]),
    "P15": dict(
        bounds="matcher: two registered keys with arbitrary (symbolic) filters and one unregistered key, each absent, without value or with a value on either side; number filters and parseNumber on texts of 0..3 / 0..4 arbitrary bytes and around the 32 bit limit; timing filters on all two-field selectors with one-digit values",
        outside="more keys, longer texts, floating point numbers (parsed by the standard library)",
        harnesses=[H("matcher.cpp", e, r, incl=ALLI) for e, r in (("h_filter_int", "numbers invalid"), ("h_filter_int8", "numbers invalid"), ("h_filter_range", "done"), ("h_parse_number", "number invalid"), ("h_filter_ctx", "done"), ("h_match", "done"), ("h_match_content", "done"))]),
    "P16": dict(
        bounds="tokens of 0..7 arbitrary bytes, with and without the prefix 'RBAC=' in front",
        outside="longer tokens",
        harnesses=[H("rbac.cpp", "h_rbac", "token none", incl=ALLI)]),
    "P17": dict(
        bounds="every listed type name in every mix of upper and lower case, alone or within a list; seven (quick) / all (thorough) type names with any one character replaced; file names of 0..6 arbitrary bytes; every listed extension in every case",
        outside="arbitrary longer texts",
        harnesses=[H("mime.cpp", e, r, incl=ALLI, thorough_defs=["-DNT=9"]) for e, r in (("h_mime_case", "done"), ("h_mime_one_off", "done"), ("h_mime_file", "done"), ("h_mime_ext", "done"))]),
    "P18": dict(
        bounds="one value of every supported kind (numbers of every width with every bit pattern; strings of 0..5, number arrays of 0..4, boolean arrays of 0..3, string arrays of 0..3 elements) behind 0..2 earlier bytes in buffers of six initial capacities; histories of 3 (quick) / 4 (thorough) writes, reservations, resizes, shrinks and clears; every copy, move, assignment and swap between five kinds of buffers (malloc, new, wrapped, wrapped and owned, empty); checked accessors at every position and length; contents of 0..10 arbitrary bytes read as every kind from every position",
        outside="longer contents and histories; sizes that need a 32 bit length overflow; positions set beyond the content",
        harnesses=[H("iobuffer.cpp", e, r, incl=ALLI, thorough_defs=["-DSTEPS=4", "-DNTRUNC=18"]) for e, r in (("h_numbers", "number"), ("h_arrays", "array"), ("h_bools", "bools"), ("h_strings", "string"), ("h_string_arrays", "strings"), ("h_grow", "grow reserve resize shrink clear"), ("h_checked", "skip at1 at4 string array"), ("h_life", "copy move copy-assign move-assign self self-move swap vector life"), ("h_any_content", "any string strings"))]),
    "P19": dict(
        bounds="objects with every supported member kind: numbers of every bit pattern, texts of 0..4 and lists of 0..2 texts of 0..2 bytes, arrays and sets of 0..2 elements, matrices of 0..2 by 0..2, maps of 0..2 entries (four key/value kinds), pointers and nested objects individually absent or present on either side, annotated members, with and without meta information, all three check levels; a writer and a reader type that differ in unknown, missing, reordered, retyped, nested and differently scaled members; every single-byte change of the protocol header",
        outside="larger objects, other types (the code is generic per member kind); units other than those tried",
        harnesses=[H("yas.cpp", e, r, incl=ALLI) for e, r in (("h_yas_nums", "done"), ("h_yas_text", "done"), ("h_yas_arrays", "done"), ("h_yas_maps", "done"), ("h_yas_ptrs", "done"), ("h_yas_ann", "done"), ("h_yas_foreign", "lenient ignore"), ("h_yas_strict", "done"), ("h_yas_nested_mismatch", "done"), ("h_yas_header", "always lenient"), ("h_yas_readonly", "always lenient"))]),
    "P20": dict(
        bounds="seven small objects covering every member kind (messages of 60..130 bytes), any 4 (quick) / 6 (thorough) consecutive bytes behind the protocol header replaced by arbitrary ones, at every place, read with ProtocolCheck::LENIENT (quick) or all three levels (thorough); the same messages cut at every place, all three levels",
        outside="damage in several distant places at once; larger messages; recursive types",
        harnesses=[H("yas_bad.cpp", "h_yas_bad%d" % i, "read refused", incl=ALLI, opts=["--conc-heap"], thorough_defs=["-DMODES=7", "-DWIDTH=6"]) for i in range(1, 8)]),
    "P21": dict(
        bounds="objects with every supported member kind: numbers of every bit pattern, texts of 0..4 and lists of 0..2 texts of 0..2 bytes, arrays and sets of 0..2 elements, matrices of 0..2 by 0..2, maps of 0..2 entries (numbers, text lists, variants), variants of four alternatives, pointers and nested objects individually absent or present on either side, annotated members, all three check levels; a writer and a reader type that differ in eight unknown members of different kinds, missing, reordered, retyped and read-only members",
        outside="larger objects, more than 32767 entries, other types (the code is generic per member kind); unknown nested objects, which the format's reader refuses with ProtocolException",
        harnesses=[H("cmw.cpp", e, r, incl=ALLI) for e, r in (("h_cmw_nums", "done"), ("h_cmw_text", "done"), ("h_cmw_arrays", "done"), ("h_cmw_maps", "done"), ("h_cmw_variant", "done"), ("h_cmw_ptrs", "done"), ("h_cmw_ann", "done"), ("h_cmw_foreign", "lenient ignore"), ("h_cmw_strict", "done"), ("h_cmw_nested_mismatch", "done"), ("h_cmw_readonly", "always lenient"))]),
    "P22": dict(
        bounds="seven small objects covering every member kind (messages of 20..60 bytes), any 4 (quick) / 6 (thorough) consecutive bytes replaced by arbitrary ones, at every place, read with ProtocolCheck::LENIENT (quick) or all three levels (thorough); the same messages cut at every place, all three levels",
        outside="damage in several distant places at once; larger messages; recursive types",
        harnesses=[H("cmw_bad.cpp", "h_cmw_bad%d" % i, "read refused", incl=ALLI, opts=["--conc-heap"], thorough_defs=["-DMODES=7", "-DWIDTH=6"]) for i in range(1, 8)]),
    "P23": dict(
        bounds="texts of 0..2 arbitrary bytes written; texts of 0..3 (quick) / 0..5 (thorough) arbitrary bytes, every four-digit unicode escape and every pair of them read; integers: all 8 and 16 bit values, 32 and 64 bit values within 256 of the ends of the range, of zero and of four powers of ten; digit strings of 1..6 digits read into 16 bits; arrays, sets and maps of 0..2 entries, matrices of 0..2 by 0..2, arrays of objects, pointers and nested objects individually absent or present on either side; white space of every kind at one or two places of a document of 33 tokens; unknown fields of eleven kinds, objects in place of other values, read-only members; keys of map entries of one arbitrary byte (quotes and backslashes: finding F03)",
        outside="floating point numbers (std::to_chars(double) is library code without source here); unsigned 16..64 bit numbers, which the format does not support; longer texts and larger containers",
        harnesses=[H("json.cpp", e, r, incl=ALLI, thorough_defs=["-DNTEXT=5"]) for e, r in (("h_json_text", "done"), ("h_json_string", "valid invalid"), ("h_json_unicode", "decoded refused"), ("h_json_small", "done"), ("h_json_big", "done"), ("h_json_int_text", "read refused"), ("h_json_arrays", "done"), ("h_json_maps", "done"), ("h_json_ptrs", "done"), ("h_json_layout", "done"), ("h_json_foreign", "lenient done"), ("h_json_mismatch", "done"), ("h_json_readonly", "always lenient"), ("h_json_key", "done"))]
        + [H("json.cpp", "h_json_key_escape", "", incl=ALLI, finding="F03", finding_match="the key of a map entry comes back")]),
    "P24": dict(
        bounds="seven small objects covering every member kind (texts of 25..110 bytes), any 2 (quick) / 3 (thorough) consecutive bytes replaced by arbitrary ones, at every place, read with ProtocolCheck::LENIENT (quick) or all three levels (thorough); the same texts cut at every place, all three levels",
        outside="damage in several distant places at once; larger texts; nesting deep enough to exhaust the stack",
        harnesses=[H("json_bad.cpp", "h_json_bad%d" % i, "read refused", incl=ALLI, opts=["--conc-heap"], thorough_defs=["-DMODES=7", "-DWIDTH=3"]) for i in range(1, 8)]),
    "P25": dict(
        bounds="rings of 2 and 4 slots, one and several producers, 1..2 consumers (side by side or chained): histories of 4..5 (quick) / 5..6 (thorough) steps (publish an event, claim one or two slots, publish a claim in any order, poll taking all, one, or failing at the second event), event data arbitrary, sequence numbers up to 2^31 laps for the several-producers ring; claims of any size against consumers advancing by any amount, 2..3 / 3..4 rounds",
        outside="longer histories, larger rings; next() while the ring is full (waits; P26); batches larger than the ring",
        harnesses=[H("ring.cpp", e, "", incl=ALLI, quick_defs=["-DOPS=5"], thorough_defs=["-DOPS=6"], reachl=r) for e, r in (("h_ring_single2", "full;slot reused;handler failed"), ("h_ring_single4", "handler failed"), ("h_ring_single_chain", "full;gating;handler failed"), ("h_ring_multi2", "full;gating;slot reused;out of order;handler failed"), ("h_ring_multi4", "full;gating;out of order;handler failed"), ("h_ring_multi_chain", "full;gating;out of order;handler failed"), ("h_ring_multi_any", "full;gating;out of order;handler failed"), ("h_ring_claims_single", "refused;slot reused;claims outstanding, consumers apart"), ("h_ring_claims_multi", "refused;slot reused;claims outstanding, consumers apart"))]),
    "P26": dict(
        bounds="rings of 2 slots; every sequentially consistent interleaving of 2..3 threads: one producer and one or two consumers around slot reuse, a producer waiting for room, a consumer polling during publication, two producers with and without a consumer, two producers competing for the last slot; at most 2..3 (quick) / 4 (thorough) repetitions of every memory access site per thread; data races by happens-before over the acquire/release annotations",
        outside="more threads or events; consumers added or removed while producers run; interleavings that only weaker-than-sequentially-consistent hardware shows for atomics (races on plain data are found)",
        harnesses=[T("ring_mt.cpp", e, r, incl=ALLI, opts=["--deadlock", "--spin", q], thorough_opts=["--deadlock", "--spin", t]) for e, r, q, t in (("h_mt_reuse_single", "reused;refused", "3", "4"), ("h_mt_reuse_multi", "reused;refused", "3", "4"), ("h_mt_blocking_single", "", "3", "4"), ("h_mt_blocking_multi", "", "3", "3"), ("h_mt_visible_single", "none;one;two", "3", "4"), ("h_mt_visible_multi", "none;one;two", "3", "3"), ("h_mt_two_producers_only", "second producer first", "3", "4"), ("h_mt_two_producers", "none early;one early;two early;second producer first", "2", "2"), ("h_mt_last_slot", "first;second", "3", "4"))]),
    "P27": dict(
        bounds="every sequentially consistent interleaving of 2..3 threads, at most 3..4 repetitions of every access site: a consumer waiting with each of the six wait strategies for an event being published, or for one that never comes while the barrier is alerted; two consumers blocked on the same event; a dependent consumer; a timed wait (running out at any moment); a BlockingQueue with two pushes and one or two consumers, and with a timed consumer; deadlocks (lost wake-ups) included",
        outside="more threads; spurious wake-ups of condition variables (none are modelled); real time",
        harnesses=[T("wait.cpp", e, r, incl=ALLI, opts=["--deadlock", "--spin", "4"]) for e, r in [("h_wait_" + x, "got") for x in ("busy", "blocking", "blocking_multi", "spin", "yield", "sleep", "dependent")] + [("h_alert_" + x, "alerted") for x in ("busy", "blocking", "spin", "yield", "sleep")] + [("h_wait_timeout", "got;timeout")]]
        + [T("wait.cpp", "h_wait_blocking_two", "got", incl=ALLI, opts=["--deadlock", "--spin", "3", "--no-race"]), T("bq.cpp", "h_bq_pop", "done", incl=ALLI, opts=["--deadlock", "--spin", "3"]), T("bq.cpp", "h_bq_timed", "got;timed out", incl=ALLI, opts=["--deadlock", "--spin", "3"]), T("bq.cpp", "h_bq_two_consumers", "second first", incl=ALLI, opts=["--deadlock", "--spin", "2", "--no-race"]), T("bq.cpp", "h_bq_two_consumers", "second first", incl=ALLI, thorough_only=True, opts=["--deadlock", "--spin", "2"])]),
    "P28": dict(
        bounds="a batch processor over 3 (quick) / 4 (thorough) events made available in every partition, up to three timeouts, stray alerts and empty wake-ups at any place, any subset of events failing, failing start, shutdown and timeout callbacks, with and without exception handler, run twice; a work processor from every position, failing or not; every interleaving of run() and halt(); two work processors sharing two events (every interleaving, at most 3 repetitions per access site)",
        outside="more events, more workers; exceptions not derived from std::exception; halting before run() was entered",
        harnesses=[H("proc.cpp", e, "", incl=ALLI, thorough_defs=["-DEVENTS=4"], reachl=r) for e, r in (("h_batch", "failing handler;stray alert;timeout"), ("h_batch_default", "failing handler;stray alert;timeout"), ("h_batch_twice", "done"), ("h_work_one", "done"))]
        + [T("proc.cpp", e, r, incl=ALLI, opts=["--deadlock", "--spin", "3"]) for e, r in (("h_halt_batch", "halted"), ("h_halt_work", "halted"), ("h_work_two", "shared;one did all"))]),
    "P29": dict(
        bounds="a context with a text of 0..4 arbitrary bytes, flags, 8 bit numbers, all 16 bit values and 32 bit values within 256 of the ends of the range and of 10^9, every content type, timing selectors with any two fields absent or 0..9; each field in turn absent, without value, or with 0..4 (quick) / 0..5 (thorough) arbitrary bytes, beside unknown parameters; a flag that is set by default (finding F04)",
        outside="floating point numbers (std::to_string writes six decimals; std::from_chars(double) is library code without source here); beam-process time stamps, which a selector does not hold; longer texts",
        harnesses=[H("query.cpp", e, r, incl=ALLI, thorough_defs=["-DNQ=5"]) for e, r in (("h_query_text", "done"), ("h_query_num", "done"), ("h_query_mime", "done"), ("h_query_ctx", "done"), ("h_query_one_field", "read default"), ("h_query_false", "done"), ("h_query_meta", "done"))]
        + [H("query.cpp", "h_query_default_true", "", incl=ALLI, finding="F04", finding_match="a flag that is set by default comes back")]),
    "P30": dict(
        bounds="filters giving any two of the seven texts (absent or one arbitrary byte on either side), any port and any rate; lists of 0..3 entries with arbitrary one-byte texts and numbers, any column one too long or short; histories of 4 steps, the first two (quick) / the first (thorough) registrations: registration, deletion by filter and by entry, expiry, restart, with arbitrary (possibly equal) names and known or unknown rates; restart with arbitrary entry contents. Files are replaced by a stand-in that keeps the content in memory",
        outside="longer histories; failing or interrupted file operations; the moment at which the time to live equals the present; the DNS worker and clients (network)",
        harnesses=[H("dns.cpp", e, "", incl=ALLI, thorough_defs=["-DPRE=1"], reachl=r) for e, r in (("h_dns_filter", "text"), ("h_dns_filter_num", "number"), ("h_dns_flat", "refused;flat"), ("h_dns_restart", "restarted"), ("h_dns_history", "renewed;kept;restarted;slot reused"))]),
    "P31": dict(
        bounds="one, two and three dimensions of 1..10 (quick) / 1..12 (thorough) each, any two indices within them; windows of any such size at offsets 0..2 (quick) / 0..8 (thorough) with any sufficient stride; all constructors and accessors on matrices of 1..3 by 1..3 with arbitrary elements, any position beyond them; sums and comparisons of 2 by 3 matrices and of windows with arbitrary elements",
        outside="larger arrays, dimensions whose product exceeds 32 bits, operands of different dimensions, non-integer elements",
        harnesses=[H("marray.cpp", e, r, incl=ALLI, thorough_defs=["-DDIM=12", "-DOFF=8"]) for e, r in (("h_ma_layout1", "done"), ("h_ma_layout2", "done"), ("h_ma_layout3", "done"), ("h_ma_inverse", "inverse"), ("h_ma_window", "inverse"), ("h_ma_access", "done"), ("h_ma_arith", "done"))]),
    "P32": dict(
        bounds="every sequentially consistent interleaving of the real-time thread with one or two other threads: one or two accesses each, with guards and with replace(), of a value of two words; at most 2..3 repetitions of every access site; data races by happens-before",
        outside="more threads or accesses; destruction while in use",
        harnesses=[T("setting.cpp", e, r, incl=ALLI, opts=["--deadlock", "--spin", q]) for e, r, q in (("h_set_rt_two_writes", "old;in between;new", "3"), ("h_set_rt_two_reads", "old and new", "3"), ("h_set_rt_replace", "old;new", "3"), ("h_set_rt_two_readers", "one new", "3"), ("h_set_nrt", "old;new", "3"), ("h_set_nrt_replace", "old;new", "2"), ("h_set_nrt_no_loss", "done", "2"), ("h_set_rt_no_wait", "done", "3"), ("h_set_nrt_no_wait", "done", "3"))]
        + [T("setting.cpp", "h_set_nrt_two_writers", "done", incl=ALLI, thorough_only=True, opts=["--deadlock", "--spin", "2"])]),
    "P33": dict(
        bounds="histories of 4 (quick) / 5 (thorough) steps beginning with a commit or a staged transaction: commits valid from any time within 1000 ns of the start, staging under two tokens, committing or withdrawing one or all, expiry at any time up to 1000 ns after the start with time-outs of 500 ns, with arbitrary values, and a look at the history at any time; 0..25 commits through a ring of 16; 0..2 (quick) / 0..3 (thorough) commits for contexts of any level; expiry of two contexts' settings committed and used at any times; two threads withdrawing a transaction in every interleaving",
        outside="threads that commit at the same time (their histories interleave in ways the class does not define; DESIGN.md), beam-process time stamps, requests for a context that is itself partly unspecified, longer histories",
        harnesses=[H("trans.cpp", e, r, incl=ALLI, quick_defs=["-DOPS=4"], thorough_defs=["-DOPS=5"]) for e, r in (("h_tx_history", "restaged committed expired"), ("h_tx_commit_expired", "done"), ("h_tx_touch", "kept expired"), ("h_tx_wrap", "done"))]
        + [H("transctx.cpp", e, r, incl=ALLI, thorough_defs=["-DNCTX=3"]) for e, r in (("h_tx_ctx", "retired done"), ("h_tx_ctx_tx", "done"), ("h_tx_ctx_expire", "both first second none"))]
        + [T("transmt.cpp", "h_tx_two_withdraw", "first;second", incl=ALLI, opts=["--deadlock", "--spin", "3"])]),
    "P34": dict(
        bounds="messages of both formats with every field any bytes of 0 or 2 characters (protocol 6, body 2 or 33; thorough: 4), any command, four topics, 0..2 EAGAIN answers; 0 to 2 frames more than needed, command frames of 0..2 and topics of 0..2 (thorough 0..4) arbitrary bytes; single frames made in every way, then swapped, moved, sent, reused",
        outside="libzmq itself (its documented behaviour is modelled in stubs/zmq.h), sockets that fail for other reasons than EAGAIN, longer fields",
        harnesses=[H("framing.cpp", e, r, incl=ALLI, thorough_defs=["-DFN=4"]) for e, r in (("h_frame_source", "done"), ("h_frame_plain", "done"), ("h_frame_bad_source", "taken topic refused"), ("h_frame_bad_plain", "taken topic refused"), ("h_frame_life", "done"), ("h_frame_endpoint", "done"))]),
    "P35": dict(
        bounds="one broker step per message: request and reply with arbitrary bytes in every free field; every history of 3 (thorough 5) further events of two workers and two clients; 3 queued requests of any of 4 roles; 3 (thorough 4) subscriptions or cancellations of two clients and two topics, then one of three notifications; XPUB frames of 0..3 arbitrary bytes; any client command; 2 (thorough 3) arbitrary worker messages of two workers, each followed by silence or not; silence of any length up to 8 s after a reply; all pairs of 5 service names; the internal services; HTTP requests through a stand-in",
        outside="libzmq (modelled in stubs/zmq.h), the REST server (a stand-in records what it is handed), several messages arriving between two steps in other orders, more peers, longer histories",
        harnesses=[H("broker.cpp", e, r, incl=ALLI, thorough_defs=["-DHK=5", "-DSK=4", "-DWK=3"]) for e, r in (("h_broker_request", "done"), ("h_broker_history", "queued done"), ("h_broker_roles", "done"), ("h_broker_subscribe", "delivered nobody"), ("h_broker_xpub", "done"), ("h_broker_commands", "forwarded dropped"), ("h_broker_unknown", "done"), ("h_broker_worker", "done"), ("h_broker_once", "done"), ("h_broker_expire", "alive silent"), ("h_broker_stranger", "done"), ("h_broker_match", "done"), ("h_broker_mmi", "done"), ("h_broker_rest", "unknown known"))]),
    "P36": dict(
        bounds="two equal requests with arbitrary bytes in every free field and four kinds of handler; 8 tokens, both commands, against four roles; 2 (thorough 3) subscription messages of 5 topics, then one of three notifications; stray messages of up to 9 frames, subscription frames of 0..3 arbitrary bytes, commands of two arbitrary bytes; a broker silent, alive or disconnecting over 5 polls; typed requests in YaS and CmwLight with arbitrary integers and strings of 0..2 characters, in JSON with 6 values, and bodies that cannot be decoded",
        outside="libzmq (modelled in stubs/zmq.h), HTML output, notifications from several threads at once, commands the broker never sends (assertions in the code)",
        harnesses=[H("worker.cpp", e, r, incl=ALLI, thorough_defs=["-DNK=3"]) for e, r in (("h_worker_request", "done"), ("h_worker_rights", "allowed denied"), ("h_worker_open", "done"), ("h_worker_notify", "sent dropped"), ("h_worker_bad", "done"), ("h_worker_alive", "silent alive bye again"), ("h_worker_typed_yas", "fine error"), ("h_worker_typed_cmw", "fine error"), ("h_worker_typed_json", "fine error"))]),
    "P37": dict(
        bounds="questions of 0..2 (thorough 0..3) arbitrary bytes, alone or after a valid one; a registered address of either scheme with any of 3 paths, 6 questions, 5 times after the registration up to 45 s, refreshed or not; 5 kinds of address to bind",
        outside="libzmq (modelled in stubs/zmq.h), several brokers, the heartbeat challenge of a remote broker",
        harnesses=[H("broker.cpp", e, r, incl=ALLI, thorough_defs=["-DDN=3"]) for e, r in (("h_broker_dns_any", "done"), ("h_broker_dns", "found null refreshed"), ("h_broker_bind", "done"))]),
}
