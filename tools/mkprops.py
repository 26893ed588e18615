#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- bit and symbol vectors
p("C01", "Vectors own or alias exactly the storage their operations say they do",
  "Under any sequence of construction, copy, clone, assignment, segment/head/tail aliasing, shift-out, resize, concatenation, copy-into, append and destruction, a vector's size and contents are those of a value model in which owning vectors never share storage and aliases see, and write through to, exactly the elements they cover. "
  "No element is read or written out of bounds, used after release, released twice or leaked.",
  ["histories", "inputs"], "every history of vector, bit-vector and soft-vector operations over vectors of any size, including empty ones, that keeps aliases within the life of their owner",
  "VectorTest and BitVectorTest run one fixed sequence on small vectors and print the result; they never mix ownership changes with live aliases and run without memory checking.",
  ["Vector.h", "BitVector.h", "BitVector.cpp"],
  [("owned storage versus begin/end pointers", "Vector.h class VectorBase"), ("segment/head/tail aliasing", "Vector.h, BitVector.h"), ("clone and shiftMem", "Vector.h")],
  [("owned block", "non-null only in an owning vector", "Vector.h VectorBase::mData"), ("start/end", "the elements a vector covers", "Vector.h VectorBase::mStart,mEnd")])
p("C02", "Bit fields of a bit vector read back exactly what was written",
  "Writing a value as a field of any width up to 64 bits at any position of a bit vector stores exactly its low bits, most significant first (or least significant first in the reversed forms), leaves every other bit alone, and advances the running index by the width. "
  "Reading or peeking a field of any position and width returns exactly the bits there in the stated order, and the fixed-value, append and running-index forms agree with them.",
  ["inputs", "histories"], "every vector length, offset, width from 0 to 64 bits, value (including values wider than the field) and sequence of field writes and reads",
  "BitVectorTest fills two fields and prints them; widths beyond 32 bits, oversized values, reversed order and interleaved index-advancing calls are never compared with anything.",
  ["BitVector.h", "BitVector.cpp"],
  [("fillField/fillFieldReversed/writeField", "BitVector.cpp, BitVector.h"), ("peekField/peekFieldReversed/readField", "BitVector.cpp, BitVector.h")])
p("C03", "Packed, hexadecimal and text forms of a bit vector are faithful",
  "Packing a bit vector into bytes puts bits most significant first with a zero-padded last byte, and unpacking the bytes, or re-reading the hexadecimal or 0/1 text form, restores the original bits (a last hexadecimal digit for fewer than four bits gives its low bits); text that is not hexadecimal is refused. "
  "Packing and unpacking touch exactly the bytes that carry the bits and nothing beyond.",
  ["inputs"], "every bit vector of any length, and every byte or character string offered to the decoders",
  "The tests pack and unhex one vector whose length is a multiple of eight and do not compare most of the output.",
  ["BitVector.cpp", "BitVector.h"],
  [("pack/pack2/unpack/packToString", "BitVector.cpp"), ("hex/unhex/textBitVector/operator<<", "BitVector.cpp")])
p("C04", "Whole-vector bit transforms agree with their definitions",
  "Inverting, reversing each octet, swapping bit order within octets, mapping and unmapping through an index table, copying punctured vectors, counting ones and comparing bit vectors give exactly the bits (or number) their definitions give, and change no bit elsewhere. "
  "Involutions undo themselves, and an unmap undoes a map.",
  ["inputs"], "every bit vector, index table (permutations and partial selections) and puncture pattern of any size",
  "The tests do not call map, unmap, puncture, sum or equality on anything but a fixed literal.",
  ["BitVector.cpp", "BitVector.h", "Vector.h"],
  [("invert/reverse8/LSB8MSB/map/unmap/copyPunctured/sum/operator==", "BitVector.cpp, BitVector.h")])
p("C05", "Parity words are the polynomial remainder and every error they cover is seen",
  "The parity computed for a bit vector is the remainder of polynomial division by the generator, so that appending it (inverted or not as asked) gives a codeword with zero syndrome, and the generator is linear in the data. "
  "For every single-bit error, and every burst no longer than the parity word, the syndrome of the corrupted codeword differs from that of the clean one.",
  ["inputs"], "every data vector, generator polynomial of degree 1 to 63 with non-zero constant term, inversion option and error pattern in the covered classes",
  "No existing test computes a parity word or a syndrome.",
  ["BitVector.h", "BitVector.cpp"],
  [("shift-register generator", "BitVector.h class Generator"), ("parity and syndrome", "BitVector.cpp class Parity, BitVector::parity")])
p("C06", "Soft-decision vectors slice, measure and depuncture consistently",
  "A soft vector made from bits slices back to the same bits, any soft vector slices each symbol to one above the half-way value and to zero otherwise, and its energy, lowest energy and signal-to-noise ratio are the ones defined by its symbols. "
  "Setting a soft vector to unknown makes every symbol the half-way value, and depuncturing or copying an unpunctured vector places each received symbol at its position and an unknown at every punctured one.",
  ["inputs"], "every soft vector, bit vector and puncture pattern of any length",
  "BitVectorTest builds one soft vector from noise and prints it; nothing about it is asserted.",
  ["BitVector.h", "BitVector.cpp"],
  [("SoftVector construction, sliced, getEnergy, getSNR, setUnknown", "BitVector.cpp"), ("copyUnPunctured", "BitVector.h")])

# ---------------------------------------------------------------- configuration
p("C07", "The configuration table behaves as a persistent key-value store",
  "After any sequence of sets, removes, defined/undefined queries, pattern searches, cache purges and close/reopen of the database, every read returns the latest value set for that key, else the schema default, else reports the key as missing; keys and values of any NUL-free text, quotes included, are data and never change another key. "
  "Removing a key restores its default and reports whether anything was removed, only keys in the schema or the table are reported as defined, searches and full listings report exactly the matching keys, and an update hook hears of every change and of nothing else.",
  ["histories", "inputs"], "every history of operations over arbitrary key and value text and any schema, with the table closed and reopened at any point between operations",
  "ConfigurationTest sets a handful of plain keys once; it never reopens the file, never uses quotes or odd text, and never compares searches or listings with a model.",
  ["Configuration.cpp", "Configuration.h", "sqlite3util.cpp"],
  [("lookup through cache, database, default", "Configuration.cpp ConfigurationTable::lookup"), ("set/remove/find/getAllPairs", "Configuration.cpp")],
  [("mCache", "values already looked up", "Configuration.h ConfigurationTable"), ("mSchema", "defaults and types", "Configuration.h ConfigurationTable"), ("CONFIG table", "the stored values", "sqlite file")])
p("C08", "A configuration read is never stale for longer than the cache lifetime",
  "A value changed by this table object is seen by its next read, and a value changed in the database by anyone else is seen by every read made more than the cache lifetime (three seconds) after the change, for every table object in the process. "
  "A database that is temporarily locked or fails never makes a table report a value that was never stored or defaulted, and reads recover once the fault is over.",
  ["histories", "fault_sequences"], "every interleaving of reads, local writes, writes through another connection, passage of time and database lock faults, over one or several table objects",
  "No test lets time pass against a changed database or opens two tables; the real cache age takes seconds to elapse.",
  ["Configuration.cpp", "Configuration.h"],
  [("cache age check", "Configuration.cpp ConfigurationTable::checkCacheAge"), ("cache invalidation on set/remove/purge", "Configuration.cpp")])
p("C09", "The configuration table is safe and linearizable under concurrent use",
  "When several threads read, set, remove and purge the same table at once, every read returns a value that some real-time-consistent ordering of the operations allows, no operation deadlocks or crashes, and no memory is accessed without synchronisation. "
  "After all threads finish, the table and the database agree with the last writes.",
  ["schedules", "histories"], "every thread schedule of any small set of concurrent operation sequences on one table",
  "The tests use the table from a single thread.",
  ["Configuration.cpp", "Configuration.h"],
  [("table lock around cache and schema", "Configuration.cpp, Configuration.h ConfigurationTable::mLock")])
p("C10", "Typed configuration reads convert the stored text exactly",
  "Reading a key as text, integer, float, boolean or list of integers returns the conversion of the stored (or default) text by the documented rule (integers in any C base, floats as C reads them, a boolean false for empty text and zero and true for other numbers), a missing or undefined key raises the not-found error carrying that key, and a vector of integers lists the stored numbers in order. "
  "Setting a number or vector and reading it back gives the same value.",
  ["inputs"], "every stored text (empty, signed, hexadecimal, octal, padded, non-numeric, long) and every typed read for which the rule defines a result",
  "ConfigurationTest reads a few well-formed values only.",
  ["Configuration.cpp", "Configuration.h"],
  [("getStr/getNum/getFloat/getBool/getVector/getVectorOfStrings/set", "Configuration.cpp")])
p("C11", "Value validation accepts exactly the values each declared type allows",
  "For every schema entry, a candidate value is accepted if it satisfies the entry's type and valid-values rule (address forms, ranges with steps, choices, patterns, hostnames, ports, yes/no, counts, file paths and so on) and refused when it clearly violates it. "
  "Asking about an unknown key is refused and never changes the schema, and validating never changes any value.",
  ["inputs"], "every declared type, valid-values specification and candidate text",
  "The tests validate a fixed list of values for a few types, all of ordinary shape.",
  ["Configuration.cpp", "Configuration.h"],
  [("isValidValue and the validity helpers", "Configuration.cpp ConfigurationTable::isValidValue")])
p("C12", "Schema exports and descriptions reproduce the schema",
  "The exports of a configuration schema cover every entry in order and with its own data: the SQL defines exactly the schema keys, each with its default, static flag and description, when loaded into an empty database, whatever text they contain; the TeX lists every key with its description in the section of its visibility; and the on-screen description shows a key's description, units, type, default, visibility, static flag, valid values and scope. "
  "Similar-key queries return exactly the schema keys containing the text asked about, and cross-checks return the registered check's answer.",
  ["inputs", "configurations"], "every schema of any entries and text",
  "No existing test reads back an export.",
  ["Configuration.cpp", "Configuration.h"],
  [("getDefaultSQL/getTeX/printKey/printDescription/getSimilarKeys", "Configuration.cpp")])
p("C13", "Key=value parsing and hashed strings are faithful",
  "Parsing any list of key=value items keeps, for each key, the first-character-to-equals text as key and the remainder as value with the last assignment winning, ignores items without an equals sign, and reports missing keys as such. "
  "A hashed string compares with another by the hash of its text: equal text always gives equal hashes, the ordering operators form one consistent total order, and reassigning the text changes the hash.",
  ["inputs", "histories"], "every item list and every sequence of string assignments and comparisons",
  "Neither class has a test.",
  ["Configuration.cpp", "Configuration.h"],
  [("SimpleKeyValue", "Configuration.cpp"), ("HashString", "Configuration.h")])

# ---------------------------------------------------------------- inter-thread containers
p("C14", "Queues and lists keep their elements, order and ownership",
  "Used from one thread, every queue, pointer list and linked fifo returns its elements in exactly the order its operations define, reports its size truthfully, returns nothing when empty, and iterates, erases and clears as a plain sequence would. "
  "An element handed out is the caller's, an element still held is released exactly once when the container is cleared or destroyed, none is lost or duplicated, and a fifo's own memory is bounded by the most it ever held.",
  ["histories"], "every history of operations on each container with one caller",
  "InterthreadTest pushes increasing numbers through one queue; lists, front insertion, removal, iteration and clearing are not compared with a model.",
  ["Interthread.h", "LinkedLists.h", "LinkedLists.cpp", "MemoryLeak.h"],
  [("InterthreadQueue/InterthreadQueueWithWait/PtrList/PointerFIFO/SingleLinkList", "Interthread.h, LinkedLists.h")])
p("C15", "Inter-thread queues deliver every item once, in order, without lost wake-ups",
  "However readers and writers are scheduled, every item written to an inter-thread queue is delivered to exactly one reader, items of one writer to one reader keep their order, a blocked reader wakes when an item is available, and a timed read returns nothing only after its timeout has passed (to within two milliseconds) with nothing available for it, and then does not wait on. "
  "Waiting for a queue to drain returns when, and only when, it holds no more than the mark, connected queues wake a single waiting thread for either, and no access is unsynchronised.",
  ["schedules"], "every thread schedule (including spurious wake-ups and timeouts) of small sets of readers, writers, waiters and clearers on one queue or two connected queues",
  "InterthreadTest runs one writer and one reader under whatever schedule the kernel picks.",
  ["Interthread.h", "Threads.h", "Threads.cpp"],
  [("lock plus condition signal", "Interthread.h class InterthreadQueue"), ("drain wait", "Interthread.h class InterthreadQueueWithWait"), ("connected queues", "Interthread.h iqConnect")])
p("C16", "The inter-thread map is a map, alone or shared, and owns its values",
  "Used from one thread the map agrees with an ordinary map: write replaces and releases the old value, remove releases it and reports whether it existed, iteration and size show exactly the current entries, and clearing or destroying the map releases everything once. "
  "Shared between threads, a blocking read of a key returns once the key is written and not before, a timed read gives up when its timeout has passed (to within two milliseconds) and not before, and a removed entry is handed out at most once.",
  ["histories", "schedules"], "every operation history, and every thread schedule of small sets of concurrent readers, writers and removers",
  "InterthreadTest writes and reads increasing keys once and never removes, replaces or iterates.",
  ["Interthread.h"],
  [("InterthreadMap1/InterthreadMapBase/InterthreadMap", "Interthread.h")])
p("C17", "The priority queue always yields a most-urgent element",
  "Whatever the sequence or schedule of writes and reads, a read from the inter-thread priority queue returns an element that no element then in the queue precedes (the least by the element's own ordering), every element is returned exactly once, the reported size is the number held, a blocked reader wakes for a write, and a timed read gives up when its timeout has passed (to within two milliseconds) and not before. "
  "Clearing or destroying the queue releases exactly the elements still held.",
  ["histories", "schedules"], "every operation history and every schedule of small sets of readers and writers, with equal priorities allowed",
  "InterthreadTest reads the priority queue from one thread under one schedule and only prints what it sees.",
  ["Interthread.h"],
  [("InterthreadPriorityQueue", "Interthread.h"), ("PointerCompare", "Interthread.h")])

# ---------------------------------------------------------------- threads and locks
p("C18", "Locks exclude, signals wake and semaphores count under every schedule",
  "A mutex admits one holder and re-entry by that holder only, a read/write lock admits many readers or one writer, try-lock never blocks, a timed lock fails only after its timeout and leaves no lock behind, and the holder count of a mutex is truthful. "
  "A signal wakes at least one waiter and a broadcast all of them, a timed wait ends at its timeout and not before, and a binary semaphore's post lets exactly one wait through, further posts before that wait merging with it.",
  ["schedules"], "every schedule, including spurious wake-ups and timeouts, of small sets of threads using each primitive",
  "LockTest runs one fixed schedule with sleeps and prints what happened.",
  ["Threads.h", "Threads.cpp"],
  [("Mutex/RWLock/Signal/Semaphore/ScopedLock", "Threads.h, Threads.cpp")])
p("C19", "Taking several locks at once never deadlocks and always excludes",
  "Whatever orders threads name their two or three locks in, and even if the same lock is named twice, a multiple scoped lock is always acquired eventually, holds all of its locks while alive, and releases all of them when it ends.",
  ["schedules", "inputs"], "every schedule of small sets of threads taking any combination of two or three locks in any order, with ordinary holders of the same locks present",
  "LockTest checks one pair of threads with a fixed acquisition order.",
  ["Threads.cpp", "Threads.h"],
  [("try-lock and back off", "Threads.cpp, Threads.h class ScopedLockMultiple")])
p("C20", "A started thread runs its task once and join waits for it",
  "Starting a thread runs the given task exactly once with the given argument, joining it returns only after the task has ended, and everything done before the start is visible to the task and everything the task did is visible after the join; the same object can then be started again. "
  "A stack size asked for at the start is the one the thread gets.",
  ["schedules", "histories"], "every schedule of small sets of threads being started, joined and restarted",
  "ThreadTest and others start a thread once and sleep.",
  ["Threads.h", "Threads.cpp"],
  [("Thread::start/join", "Threads.h, Threads.cpp")])
p("C21", "Reference-counted objects live exactly as long as they are referenced",
  "Through any sequence or schedule of copying, assigning, clearing, moving between containers and destroying reference-counting pointers, an object is destroyed exactly once and exactly when its last reference goes, its reference count always equals the number of pointers to it, and pointers read as the object assigned last.",
  ["histories", "schedules"], "every single-threaded history, and every schedule of threads copying and dropping pointers to shared objects",
  "No test in the suite exercises the reference-counting pointers under aliasing, self-assignment or more than one thread.",
  ["Utils.h", "Utils.cpp"],
  [("RefCntBase/RefCntPointer", "Utils.h, Utils.cpp")])

# ---------------------------------------------------------------- time, numbers
p("C22", "Time values add, subtract and compare exactly",
  "A time value built from or advanced by any whole number of milliseconds or seconds represents exactly that instant in normalised form, differences in milliseconds (to within one millisecond) and the before/after comparisons agree with exact arithmetic on the represented instants, and a value set to the present plus an offset reads as that far in the future. "
  "Remaining, elapsed and passed follow the clock as it moves, and conversion to a timespec is exact and always valid.",
  ["inputs", "histories"], "every instant, offset (negative, fractional-second carrying and multi-week ones included) and position of the clock within the range of the result type",
  "TimevalTest watches a few seconds of real time go by and prints the numbers.",
  ["Timeval.h", "Timeval.cpp"],
  [("future/now/addMinutes arithmetic", "Timeval.cpp, Timeval.h"), ("delta/passed/remaining/elapsed", "Timeval.cpp")])
p("C23", "Fixed-point numbers follow Q16.16 arithmetic",
  "Every constructor, conversion, assignment, sum, difference, product, quotient, negation and comparison of fixed-point numbers gives the value defined by 16.16 fixed-point arithmetic on the operands (exact for sums, integers and comparisons, within one least step for products and quotients, and within one least step plus the floating-point precision for conversions) as long as the result is representable. "
  "In-place and chained forms give the same value as the plain forms.",
  ["inputs"], "every pair of representable values, and integer and floating operands, whose result is representable",
  "F16Test evaluates a few constants and prints them.",
  ["F16.h"],
  [("F16 arithmetic", "F16.h")])

# ---------------------------------------------------------------- text
p("C24", "URL encoding is reversible and leaves only safe characters",
  "URL-encoding any byte string gives text made only of unreserved characters and well-formed %XX escapes that a standard decoder turns back into exactly the original bytes, and unreserved text is left alone.",
  ["inputs"], "every byte string, NUL and high bytes included",
  "URLEncodeTest encodes one string and prints it.",
  ["URLEncode.cpp", "URLEncode.h"],
  [("escape generation", "URLEncode.cpp URLEncode")])
p("C25", "Base64 and hex codecs round-trip and decode within their buffers",
  "Encoding any bytes as base64 or hex gives the standard text for those bytes, decoding that text gives exactly the bytes back with the right length, and decoding arbitrary text never writes beyond the buffer size given and reports malformed input as the interface documents.",
  ["inputs"], "every byte string, buffer size and candidate text",
  "UtilsTest does not touch the codecs with more than trivial input.",
  ["Utils.cpp", "Utils.h"],
  [("base64/hex encode and decode", "Utils.cpp, Utils.h")])
p("C26", "String splitting, joining and replacing are exact",
  "Splitting text into arguments keeps each argument whole and in order (the last permitted one receiving the rest), command-line style argument extraction, first-line extraction, bounded concatenation and replace-all give exactly the text their definitions give for any input, and none of them writes outside its buffers.",
  ["inputs"], "every text, delimiter set, argument limit, search and replacement",
  "UtilsTest checks a handful of fixed strings.",
  ["Utils.cpp", "Utils.h"],
  [("stringSplit/cstrSplit/replaceAll/firstlines/cstrSlice", "Utils.cpp")])
p("C27", "Formatting and number-text conversion lose nothing",
  "Printf-style formatting into a string (up to 5000 characters) or stream (up to 295) gives exactly what the C library would print for any arguments, integer-to-text conversions round-trip, time stamps print the instant they are given, the macros that print a variable give its name and value, and tables of up to 30 columns align their columns and keep every cell (up to 248 characters).",
  ["inputs"], "every format, argument, output length, instant and table within those limits",
  "UtilsTest formats short strings only, below every internal buffer boundary.",
  ["Utils.cpp", "Utils.h", "ScalarTypes.h"],
  [("format/format1/osprintf/printPrettyTable/timestr", "Utils.cpp, Utils.h"), ("LOGVAR, LOGHEX, LOGBV, RN_PRETTY_TEXT, RN_BOUND", "Logger.h, Defines.h")])

# ---------------------------------------------------------------- logging and reporting
p("C28", "A message is logged exactly when its level is enabled",
  "A log statement of a given level in a given source file and group emits its message exactly when that level is at or above the level of its group, or the level configured for its file (else the default level); a changed file or default level takes effect within the bounds of the cache (a thousand checks or three seconds), and group levels when they are taken from the configuration. "
  "Unknown level names are replaced by the default level and never crash.",
  ["histories", "configurations"], "every history of level and group configuration changes, files, groups and log statements",
  "LogTest sets one level and prints a message at each level; no absence of output is checked.",
  ["Logger.cpp", "Logger.h", "Configuration.cpp"],
  [("getLoggingLevel with its cache", "Logger.cpp"), ("LogGroup levels", "Logger.cpp, Logger.h")])
p("C29", "Every enabled message is delivered whole, and alarms keep the latest N",
  "Each enabled log message reaches its configured sinks once with its complete text, file, line and level, whatever characters (NUL apart) or length the message has, and a message from one thread is never mixed with another's. "
  "The retained list of critical alarms holds exactly the most recent ones, oldest first, up to the maximum configured while the latest of them was being logged.",
  ["histories", "schedules"], "every sequence of messages of any text and level, alarm limit changes, and concurrent loggers",
  "LogTest prints a few messages and alarms and checks no output.",
  ["Logger.cpp", "Logger.h"],
  [("Log destructor delivery", "Logger.cpp"), ("alarm list", "Logger.cpp addAlarm/getLoggerAlarms/setLoggerAlarms")])
p("C30", "Report counters account for every increment and maximum",
  "After any sequence of creates, increments, maximum reports, clears and commits, by any number of threads and with the database failing or locked at any point, every counter equals what was reported to it (increments added, or maxima kept) since it was created or cleared once a commit succeeds, a failed commit says so and loses nothing, and no other counter changes. A call that the database refuses raises an alarm naming the counter, and a successful one raises none. "
  "Names of any length and text, and indexed counter sets of any range, work alike.",
  ["histories", "schedules", "fault_sequences"], "every history and schedule of operations over arbitrary counter names, with database lock faults at any commit",
  "ReportingTest is not even among the tests that pass; it creates a few counters and checks nothing.",
  ["Reporting.cpp", "Reporting.h"],
  [("batched increments and commit", "Reporting.cpp ReportingTable")])
p("C31", "The SQL helper calls return what the database holds",
  "Every single-value lookup, existence test, row query, table query, attribute access and command helper returns exactly what the database holds for the given table, columns and condition (or a clean failure when there is nothing, the statement is bad or the database stays locked; a null reads as empty or zero), whatever text the keys and values contain and however long they are. "
  "No helper leaves a statement open, leaks memory, or lets data be read as SQL.",
  ["inputs", "histories", "fault_sequences"], "every table content, key and value text of any length, query shape and lock fault",
  "No existing test calls these helpers directly.",
  ["sqlite3util.cpp", "sqlite3util.h"],
  [("prepare/step with retry", "sqlite3util.cpp sqlite3_prepare_statement, sqlite3_run_query"), ("condition building", "sqlite3util.cpp sqlQuery")])

# ---------------------------------------------------------------- sockets, processes, misc
p("C32", "Datagram sockets deliver messages unchanged to the right peer",
  "A datagram written to a socket's destination arrives whole and unchanged at the peer bound there, is answerable through the source address the receiver recorded, a timed read returns nothing only after its timeout, and host, port and host:port texts resolve to the address they name, however many threads resolve at once. "
  "Closing, non-blocking and blocking modes behave as set, messages up to the maximum size are carried and longer ones never overrun a buffer, paths too long for an address are refused, and a socket closes only descriptors of its own.",
  ["histories", "inputs"], "every sequence of opens, writes, reads, mode and destination changes over internet and local sockets, for messages of any size and content",
  "SocketsTest is not built here and sends a fixed message between two threads with sleeps.",
  ["Sockets.cpp", "Sockets.h"],
  [("DatagramSocket/UDPSocket/UDDSocket", "Sockets.cpp"), ("resolveAddress", "Sockets.cpp")])
p("C33", "Every registered signal handler runs once, in order, before the default action",
  "For any registration history, delivering a registered signal runs every handler registered for it exactly once, in registration order and with the signal's number, and then the signal's default action; handlers of other signals do not run, signals nobody registered for keep their disposition, and out-of-range signal numbers are refused without effect. "
  "For signals that dump core, and only those, a core is written to the configured name (with the process id if asked) before the handlers run, and files are saved only if asked for.",
  ["histories", "inputs"], "every sequence of handler registrations and delivered signals",
  "UnixSignalTest is not built here and ends at the first signal.",
  ["UnixSignal.cpp", "UnixSignal.h"],
  [("handler lists", "UnixSignal.cpp UnixSignal::Register, Handler")])
p("C34", "Only one live instance of a program holds its pid file",
  "Registering a program ends it exactly when its pid file is already there (also when another instance creates it at that moment) or cannot be created, leaving that file as it was, and otherwise creates the file holding this process's id. "
  "Ending, normally or by a signal that ends the program, removes the pid file and the files registered for removal and no others; signals that do not end the program remove nothing. A core, and the files saved with it, go where the configuration says.",
  ["histories", "fault_sequences"], "every program name, prior state of the pid file, moment at which another instance starts, set of registered files and way of ending",
  "SelfDetectTest is not built into the suite and runs one fixed program.",
  ["SelfDetect.cpp", "SelfDetect.h"],
  [("pid file check and creation", "SelfDetect.cpp SelfDetect::RegisterProgram"), ("removal", "SelfDetect.cpp SelfDetect::Exit")])
p("C35", "Regular-expression matching agrees with POSIX extended matching",
  "A compiled expression matches a text exactly when POSIX extended regular-expression search finds a match in it, with or without the flags given, repeatedly and for any text, and releases its resources once.",
  ["inputs"], "every valid expression, flag set and NUL-free text",
  "RegexpTest tries two expressions on four names.",
  ["Regexp.h"],
  [("Regexp::match", "Regexp.h")])
p("C36", "Self-initialising scalars, bit sets and statistics hold what was stored",
  "Self-initialising scalar types start at zero (or their stated default) and then behave as the plain type in every arithmetic, comparison and assignment; bit sets, running statistics (count, extremes, average) and memory counters report exactly what was set and counted, by however many threads, and their summaries print it. "
  "The greatest common divisor of two positive numbers divides both and is the greatest that does.",
  ["inputs", "histories"], "every type, operand and operation sequence",
  "These types have no test.",
  ["ScalarTypes.h", "Utils.h", "MemoryLeak.h"],
  [("scalar wrappers", "ScalarTypes.h"), ("BitSet and Statistic", "Utils.h"), ("MemStats", "MemoryLeak.h")])
p("C37", "Out-of-range uses of vectors are stopped before they touch memory",
  "Asking a vector, bit vector or soft vector for an element, segment, head, tail, bit or field outside it, filling or copying more than the source or destination holds, depuncturing between vectors of the wrong sizes, or giving a generator a degree it cannot hold ends in a failed assertion before anything outside the vectors (or inside them) is read or written, however large the numbers. "
  "The same uses within range always go ahead.",
  ["inputs"], "every vector size, position, length and width, in and out of range",
  "VectorTest and BitVectorTest make no out-of-range use.",
  ["Vector.h", "BitVector.h", "BitVector.cpp"],
  [("element access, segment, head, tail, fill, copyTo assertions", "Vector.h"), ("bit and field assertions", "BitVector.h BitVector.cpp")])
p("C38", "Console lines written by several threads come out whole",
  "However threads interleave, each line written through the console macros appears once, whole, on its stream, with the time and thread that wrote it (and the place, where the macro adds it), in its thread's order, and nothing else is written to standard output or error in its midst. "
  "It is flushed before its writer goes on, and a number base changed in one line does not outlast it.",
  ["schedules"], "every program of threads writing lines to both streams and every interleaving of their writes",
  "The tests print through these macros but never look at what came out.",
  ["Threads.h", "Threads.cpp"],
  [("lockCout/unlockCout/lockCerr/unlockCerr, gStreamLock", "Threads.cpp"), ("COUT, CERR, DCOUT, OBJDCOUT", "Threads.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
