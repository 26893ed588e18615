"""What each check is made of."""
CHECKS = {}
def c(id, kind, src, rule, **kw):
    CHECKS[id] = dict(kind=kind, src=src + ["globals.cpp"], rule=rule, **kw)
def more(id, kind, src, rule, **kw):
    """a further program for the same property"""
    CHECKS[id].setdefault("more", []).append(dict(kind=kind, src=src + ["globals.cpp"], rule=rule, **kw))

c("C01", "seq", ["c01_vectors.cpp"],
  "random and coverage-guided histories of up to 63 operations on five slots of vectors of one type (sizes 0..200) run beside a value model with block ownership; non-trivial = an alias was created or written through, or ownership moved", scale=15)
c("C02", "seq", ["c02_fields.cpp"],
  "random and coverage-guided sequences of field writes and reads (widths 0..64, values of up to 64 bits) on vectors of 0..300 bits, half of them aliases inside a guarded vector, beside an array-of-bits model; non-trivial = at least one field wider than one bit", scale=8)
c("C03", "seq", ["c03_forms.cpp"],
  "random and coverage-guided bit vectors of 0..400 bits packed, unpacked, printed, hex-dumped and re-read against reference encoders, with exact-size buffers; non-trivial = more than one bit (hex: two digits)", scale=8)
c("C04", "seq", ["c04_transforms.cpp"],
  "random and coverage-guided bit vectors, index tables and puncture patterns against reference transforms, with guard bits around every vector; non-trivial = at least two bits (octet operations: eight)", scale=8)
c("C05", "seq", ["c05_parity.cpp"],
  "random and coverage-guided generators of degree 1..63, data of 0..300 bits and error patterns against long polynomial division; non-trivial = more than one data bit", scale=5)
c("C06", "seq", ["c06_soft.cpp"],
  "random and coverage-guided soft vectors of 0..300 symbols in 0..1 (boundary values included) against reference slicing, energy, SNR and depuncturing; non-trivial = more than one symbol", scale=8)
SQLW = ["sqlite3_open", "sqlite3_open_v2", "sqlite3_close", "sqlite3_close_v2"]
SQLP = ["sqlite3_" + f for f in ("prepare_v2", "step", "reset", "changes", "finalize", "exec", "mutex_enter", "mutex_leave", "mutex_try")]
CFG = ["cfg.cpp"]
c("C07", "seq", ["c07_store.cpp"] + CFG,
  "random and coverage-guided histories of up to 41 sets, removes, reads, defined-queries, searches, listings, purges, reopens and waits on a table over a shared in-memory sqlite database, beside a map; non-trivial = at least two changes, or a reopen after a change", wraps=SQLW, scale=2)
c("C08", "seq", ["c08_fresh.cpp"] + CFG,
  "random and coverage-guided histories of up to 41 reads, local changes, outside changes, purges, waits and exclusive database locks over one to three tables on one database, under a virtual clock, against the set of values the key had within the cache lifetime; non-trivial = a read after an outside change", wraps=SQLW, scale=2)
c("C10", "seq", ["c10_typed.cpp"] + CFG,
  "random and coverage-guided stored texts (numbers in every base with blanks and trailing text, arbitrary text, lists) read through every typed reader; non-trivial = a number or a list of two or more", wraps=SQLW, scale=2)
c("C11", "seq", ["c11_valid.cpp"] + CFG,
  "random and coverage-guided schema entries of every type with valid-values texts, and candidate values built to be allowed or clearly not, judged by construction; non-trivial = at least two candidates", wraps=SQLW)
c("C12", "seq", ["c12_exports.cpp"] + CFG,
  "random and coverage-guided schemas of up to 12 keys with arbitrary text, exported, loaded or parsed back and compared entry by entry; non-trivial = application keys beside the library's own (screen: every case)", wraps=SQLW)
c("C13", "seq", ["c13_keyvalue.cpp"],
  "random and coverage-guided item lists against a map, and pairs of hashed strings through every constructor and assignment; non-trivial = two or more keys (hashes: two different short texts)")
c("C35", "seq", ["c35_regexp.cpp"],
  "random and coverage-guided expressions generated as syntax trees, with flags, matched against generated texts and compared with a set-of-positions matcher; non-trivial = one expression both matched and refused a text")
c("C22", "seq", ["c22_time.cpp"],
  "random and coverage-guided instants (microsecond and carry boundaries), differences of up to 2^31 s, offsets of up to 2^32 ms and clock positions around the due time, under a virtual clock, against 64-bit arithmetic on microseconds and an own calendar; non-trivial = a non-zero difference or offset", scale=4)
c("C23", "seq", ["c23_f16.cpp"],
  "random and coverage-guided pairs of raw values, integers and floats (boundaries included) against 128-bit arithmetic, wherever the result is representable; non-trivial = two non-zero operands and a representable result", scale=4)
c("C24", "seq", ["c24_url.cpp"],
  "random and coverage-guided byte strings of up to 3000 bytes, decoded by a reference decoder; non-trivial = at least one escape", scale=4)
c("C25", "seq", ["c25_codec.cpp"],
  "random and coverage-guided data and texts, well-formed, spaced, damaged or arbitrary, in exact-size buffers, against reference codecs; non-trivial = more than one byte", scale=3)
c("C26", "seq", ["c26_split.cpp"],
  "random and coverage-guided texts, separators, limits and search/replacement pairs in exact-size buffers against reference functions; non-trivial = two or more arguments, lines or replacements", scale=3)
c("C27", "seq", ["c27_format.cpp"],
  "random and coverage-guided arguments with result lengths around 200, 300 and 5000 characters against the C library, tables against a reference layout, numbers and time stamps against printf; non-trivial = more than 20 characters (tables: 3 cells)", scale=2)
c("C36", "seq", ["c36_scalars.cpp"],
  "random and coverage-guided operation sequences on every scalar type (made in memory full of junk), bit set, statistic, memory counter and divisor against the plain types; non-trivial = three or more operations", scale=3)
more("C36", "sched", ["c36_shared.cpp"],
  "random programs of two to five threads counting up and down on one set of memory counters under random schedules, every memory access of the code a scheduling point; every case counts as non-trivial")
c("C14", "seq", ["c14_queues.cpp"],
  "random and coverage-guided histories of up to 60 operations on pointer lists, fifos, linked lists and both inter-thread queues (pairs, half of them connected) beside a deque, with every element tracked and a virtual clock; non-trivial = five or more operations")
c("C16", "seq", ["c16_map.cpp"],
  "random and coverage-guided histories of up to 50 operations on inter-thread maps beside a std::map, with every element tracked and a virtual clock; non-trivial = five or more operations")
c("C17", "seq", ["c17_priority.cpp"],
  "random and coverage-guided histories of up to 80 operations on priority queues with many and with few urgencies, each element tracked; non-trivial = seven or more operations")
c("C31", "seq", ["c31_sql.cpp"] + CFG,
  "random and coverage-guided tables, keys, values (quotes, nulls, thousands of characters) and sequences of up to 24 helper calls on an in-memory sqlite database, a quarter of them while another connection holds an exclusive lock that is released after so many sleeps or not at all, against a row model; non-trivial = two or more rows found", wraps=SQLW)
LOGW = SQLW + ["printf"]
LOGK = ["logkit.cpp", "logkit_group.cpp"] + CFG
c("C28", "seq", ["c28_levels.cpp"] + LOGK,
  "random and coverage-guided histories of up to 60 log statements, level queries, configuration changes (own and outside, known and unknown level names), group updates, level-check bursts and waits, over four source files, one grouped file and six groups, against the set of levels configured within the cache's bounds; non-trivial = a statement or query after a level change", wraps=LOGW)
c("C29", "seq", ["c29_delivery.cpp"] + LOGK,
  "random and coverage-guided histories of up to 60 messages (any text without nulls, up to 40000 characters) at every level through both forms, with and without log file and console, alarm-limit changes and start-up variants, against the exact text due at each sink and a list of the latest alarms; non-trivial = an alarm after the first step", wraps=LOGW)
c("C30", "seq", ["c30_reports.cpp"] + CFG,
  "random and coverage-guided histories of up to 50 creates, increments, maxima, clears, commits, lock faults and reopens over counters of arbitrary names and indices on an in-memory sqlite database, against a map; and the committer loop under a virtual clock; non-trivial = two or more reports to existing counters", wraps=SQLW+["pthread_create"], scale=2)
c("C33", "seq", ["c33_signals.cpp"],
  "random and coverage-guided histories of up to 40 registrations (in and out of range), deliveries, core and tar settings with recording stand-ins for signal, kill and system, against lists of handlers; and real deliveries in child processes; non-trivial = two or more handlers ran for one signal", wraps=["signal","sigaction","kill","raise","system"])
c("C34", "seq", ["c34_selfdetect.cpp"] + CFG,
  "random program names, prior pid-file states, registered and bystander files, moments at which another instance starts, and ways of ending, each run in a child process whose file calls see a scratch directory as /var/run; non-trivial = the program registered or was refused", wraps=SQLW+["fopen","fopen64","open","open64","unlink","remove","stat","lstat","access","rename","link","system","kill"])
c("C32", "seq", ["c32_sockets.cpp"],
  "random and coverage-guided histories of up to 43 opens, closes, destination and mode changes, writes, answers, plain and timed reads on three loopback and two local datagram sockets, beside a queue of messages per socket, and address texts against a reference resolver; non-trivial = two messages delivered (resolver: an address found)", wraps=["bind","socket","unlink","remove","gethostbyname","gethostbyname2","gethostbyname_r","gethostbyname2_r"])
more("C32", "seq", ["c32_sockets.cpp"],
  "address texts against a reference resolver, with the other resolver function a build may choose; non-trivial = an address found", wraps=["bind","socket","unlink","remove","gethostbyname","gethostbyname2","gethostbyname_r","gethostbyname2_r"], cflags=["-DHAVE_GETHOSTBYNAME2_R","-DRESOLVE_ONLY"])
more("C32", "sched", ["c32_shared.cpp"],
  "random programs of two to four threads resolving up to four names each under random schedules with a race detector; non-trivial = three or more names", wraps=["gethostbyname","gethostbyname2","gethostbyname_r","gethostbyname2_r"])
c("C18", "sched", ["c18_locks.cpp"],
  "random programs of up to 5 threads over mutexes, read/write locks, signals and semaphores under random schedules with timeouts and spurious wake-ups, against a model of who may hold or pass; non-trivial = a lock was contended (wakes: two waiters; semaphores: a wait got through)", scale=5)
c("C19", "sched", ["c19_multilock.cpp"],
  "random programs of two to four threads taking two or three of up to five locks at once in any order, same lock named twice and owned locks included, beside single locks and try-locks, under random schedules; non-trivial = a multiple lock met a held lock", scale=3)
c("C20", "sched", ["c20_threads.cpp"],
  "random programs in which up to three threads start, join and restart Thread objects with and without stack sizes, fleets of up to ten joined in any order, and tasks that start tasks, under random schedules with a happens-before race detector; non-trivial = two or more starts", scale=3)
c("C21", "seq", ["c21_refcount.cpp"],
  "random and coverage-guided histories of up to 61 copies, assignments, frees, self-references through members, and container moves of pointers to up to 60 objects, against a count of references; non-trivial = an object with more than two references")
more("C21", "sched", ["c21_shared.cpp"],
  "random programs of two to four threads copying and dropping pointers to shared objects under random schedules with a race and freed-memory detector; every case counts as non-trivial", scale=2)
c("C15", "sched", ["c15_queues.cpp", "qkit.cpp"],
  "random programs of two to four threads writing, reading (blocking, timed and not), clearing and waiting on inter-thread queues of three kinds, single and connected, under random schedules with timeouts and spurious wake-ups; every history is checked for an order a plain queue could have produced, and no thread may wait for what is there; non-trivial = a read that had to wait got an element, or one timed out")
more("C16", "sched", ["c16_shared.cpp", "qkit.cpp"],
  "random programs of two to four threads over one to three keys, with blocking, timed and removing reads, under random schedules, checked for linearizability and waiting readers; non-trivial = a read that had to wait got a value, or one timed out")
more("C17", "sched", ["c17_shared.cpp", "qkit.cpp"],
  "random programs of two to four threads over one priority queue under random schedules, checked for linearizability and waiting readers; non-trivial = a read that had to wait got an element, or one timed out")
c("C09", "sched", ["c09_shared.cpp", "sqlpoints.cpp"] + CFG,
  "random programs of two to four threads reading, setting, removing, listing, searching and purging one table over an in-memory database (whose calls are scheduling points too), under random schedules, checked for linearizability against a map, for agreement with the database at the end, for deadlock and for unsynchronised accesses; non-trivial = two or more operations overlapped",
  wraps=SQLW+SQLP, cflags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
more("C28", "sched", ["c28_shared.cpp"] + LOGK,
  "random programs of two to four threads logging, checking and changing levels under random schedules with a race detector; every decision must be one that a level the file has had explains; non-trivial = both changes and checks", wraps=LOGW, cflags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
more("C29", "sched", ["c29_shared.cpp"] + LOGK,
  "random programs of two to four threads logging messages and reading the alarm list under random schedules (every write to a sink is a scheduling point); the sinks must hold whole messages, the alarm lists must be explained by one order; non-trivial = two or more operations overlapped", wraps=LOGW+["fputs","fputc","putc","fwrite","fflush"], cflags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
more("C30", "sched", ["c30_shared.cpp", "sqlpoints.cpp"] + CFG,
  "random programs of one to three threads and the committer reporting, clearing and committing under random schedules with outside locks on the database; each counter's history is checked for linearizability; non-trivial = increments overlapped with other operations", wraps=SQLW+SQLP, cflags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
c("C37", "seq", ["c37_bounds.cpp"],
  "random and coverage-guided element accesses, segments, fills, copies, bit fields and punctured copies, inside, exactly at and beyond the end of vectors of 0..100 (now and then 800) elements set in a larger block, with assertions, aborts and exceptions caught; in-range uses must go ahead, all others must stop with nothing changed; non-trivial = an out-of-range use", wraps=["__assert_fail", "abort"], scale=4)
c("C38", "sched", ["c38_console.cpp"],
  "random programs of two to five threads writing lines through the four console macros, with the number base changed in some, under random schedules with a scheduling point before and after every piece that reaches a stream; non-trivial = two lines overlapped", cflags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
