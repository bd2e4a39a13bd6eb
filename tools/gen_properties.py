#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the list below."""
import json, os
P = []
I = "include/nudb/"
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [(I + f) if not f.startswith(("tools/", "doc/", "README")) else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Concurrent insert and fetch are linearizable",
  "When any number of threads insert and fetch on one open store while commits run in the background, every key behaves like an atomic insert-once register: at most one insert of a key succeeds, all others report that the key exists, and no fetch that begins after an insert (or a fetch) has observed the key may miss it. A successful fetch always delivers exactly the bytes of the one successful insert, and never before that insert has started. A key that was never inserted is never found and its insert never refused.",
  ["schedules", "histories"],
  "every interleaving of client threads with each other and with every stage of every background commit (pool swap, bucket view swap, log write, key-file write, view release), for any key distribution",
  "The unit tests are single threaded apart from a smoke loop; they never check a concurrent history against a specification, and the interesting windows (pool swap, view swap, key-file rewrite) are microseconds long.",
  ["impl/basic_store.ipp", "detail/gentex.hpp", "detail/pool.hpp", "detail/cache.hpp"],
  [("reader/writer lock around the two pools and the bucket cache", "basic_store::fetch/insert/commit"),
   ("generation lock that makes the key-file writer wait for earlier readers", "detail/gentex.hpp, commit()"),
   ("insert serialisation", "basic_store::insert (u_)")],
  [("p0/p1", "records being committed / not yet committed", "basic_store::state"),
   ("c1", "view of the buckets being written", "basic_store::state")],
  ["return code and callback bytes of every fetch/insert with invocation/response times"])

p("C02", "Valid use is free of data races, memory errors and undefined behaviour",
  "No permitted use of the library - any documented combination of concurrent inserts, fetches and background commits, and any sequence of create, open, close, recover, rekey, verify and visit on intact or crash-interrupted files - executes a data race, an out-of-bounds or use-after-free access, a leak, undefined arithmetic, misaligned access, a deadlock or a failed internal assertion.",
  ["schedules", "inputs", "configurations"],
  "all permitted API call sequences, thread interleavings, key/value/block sizes, hash functions, and buffer alignments",
  "The tests run without sanitizers, on a handful of sizes, on one thread; a race or overread there produces correct results.",
  ["impl/basic_store.ipp", "impl/context.ipp", "detail/pool.hpp", "detail/arena.hpp", "detail/bucket.hpp", "detail/bulkio.hpp", "detail/cache.hpp", "detail/xxhash.hpp", "detail/stream.hpp"],
  [("locks and generation lock", "impl/basic_store.ipp"), ("bounded streams and buffers", "detail/stream.hpp, detail/buffer.hpp"),
   ("arena allocation of records and buckets", "detail/arena.hpp")],
  None, ["ThreadSanitizer, AddressSanitizer, UBSan, LeakSanitizer, BOOST_ASSERT on the real code"])

p("C03", "A database is an insert-once persistent map",
  "For any sequence of inserts, fetches, commits and close/open cycles with no faults, the store behaves exactly like a map that only grows: a fetch returns the exact value bytes inserted for that exact key, an absent key is reported as not found, and inserting a present key is refused as existing and leaves its value unchanged. This holds for every accepted key size, block size, load factor, value size and hash function, including hash functions under which many or all keys collide.",
  ["inputs", "histories", "configurations"],
  "all operation histories and sessions, key sizes 1..65535, block sizes that hold at least one entry up to 65535, load factors in (0,1), value sizes from 1 byte, and every hash function including constant and clustered ones",
  "The tests use a few fixed key sizes and block sizes, sequential keys and a good hash, so collisions, deep spill chains, repeated splits and multi-session growth are hardly sampled.",
  ["impl/basic_store.ipp", "detail/bucket.hpp", "detail/cache.hpp", "detail/pool.hpp", "detail/bulkio.hpp", "detail/format.hpp"],
  [("linear hashing split and insertion", "basic_store::commit/split/load"), ("spill records", "detail/bucket.hpp maybe_spill"),
   ("full key comparison after hash match", "basic_store::fetch/exists")],
  None, ["results of every API call against a model map"])

p("C04", "Committed data survives any crash",
  "Once a commit has finished without error (a background commit has run over the data, or close has returned success), every key inserted before it is found with its exact value after a process kill or power loss at any later instant followed by recovery, even if later commits were in progress and even if recovery itself is interrupted repeatedly.",
  ["crash_points", "histories"],
  "all operation histories, every instant between and inside file operations after a completed commit, every subset of unsynchronised key-file writes and every prefix of unsynchronised appended data that can be lost",
  "The recover tests stop the store at each failed file operation, but the bytes already written always survive: writes are never torn, lost or reordered before a sync, and what should have been durable is not tracked.",
  ["impl/basic_store.ipp", "impl/recover.ipp", "impl/posix_file.ipp", "impl/context.ipp"],
  [("sync of data, key and log files in commit", "basic_store::commit"), ("log replay", "impl/recover.ipp")],
  None, ["recovered contents of every crash image versus the commits acknowledged before it"])

p("C05", "Recovery restores exactly a commit boundary",
  "After a process kill or power loss at any instant, recovery succeeds and yields the database exactly as it was before or after the commit in progress - never a mixture, never a partial record, wrong value or phantom key - with structurally valid data and key files, and no log file left. The recovered database is fully usable, recovering it again changes nothing, and interrupting recovery at any point and repeating it gives the same result.",
  ["crash_points", "histories"],
  "all histories (including commits whose contents came from concurrent inserts), every crash instant inside commit, close and recovery, torn final writes, and loss of any admissible subset of unsynchronised writes",
  "The tests only sample crash points by failing a file call, with all earlier writes intact, and only check that verify passes afterwards.",
  ["impl/basic_store.ipp", "impl/recover.ipp", "detail/bucket.hpp", "detail/format.hpp"],
  [("rollback log: old bucket images and old file sizes", "basic_store::commit"), ("replay and truncation", "impl/recover.ipp")],
  None, ["byte images of the three files after recovery, decoded by an independent parser"])

p("C06", "Write-ahead ordering of rollback information",
  "At every moment of every commit, the rollback information needed to undo what has already been done is on stable storage first: a synchronised log recording both file sizes precedes any append to the data file, a synchronised copy of the old contents precedes any overwrite of an existing key-file block, and the log is emptied only after both other files are synchronised. Recovery likewise discards the log only after the restored data and key files are synchronised.",
  ["histories", "crash_points", "fault_sequences"],
  "every commit and every recovery in every history, at the granularity of single file operations, including commits with bucket splits, spills and key-file growth",
  "Ordering between writes and syncs has no visible effect unless power is lost, so no functional test can observe it.",
  ["impl/basic_store.ipp", "impl/recover.ipp", "detail/bulkio.hpp"],
  [("checkpoint, log, key-file write and finalise stages", "basic_store::commit"), ("sync before log truncation", "impl/recover.ipp")],
  None, ["the stream of file operations with their bytes"])

p("C07", "The data file only ever grows and committed bytes never change",
  "Inserting, fetching, committing, closing and rekeying never change or remove a byte of the data file below the length it had when the operation began; new records and spill records are only appended, and fetching never writes to any file. Only recovery shortens the data file, and only by removing bytes appended by an interrupted, unfinished commit or rekey.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of sessions, commits, rekeys, crashes and recoveries",
  "Tests check values, not file bytes; a rewrite of committed bytes with equal or unrelated content passes every test.",
  ["impl/basic_store.ipp", "impl/rekey.ipp", "impl/recover.ipp", "detail/bulkio.hpp"],
  [("append mode and bulk writer starting at the file size", "basic_store::commit, rekey"), ("truncation to the logged size", "impl/recover.ipp")],
  None, ["every write and truncate on the data file"])

p("C08", "I/O failures are reported, contained and never corrupt committed data",
  "If any file operation fails at any point, the affected call reports that error and never success: a failure while committing is reported by every later insert and fetch and by close, no file is modified again until the store is reopened, and reopening restores a state that contains everything committed before. A failed read during a fetch or insert is reported by that call only, delivers no value, inserts nothing, and leaves the store usable.",
  ["fault_sequences", "histories"],
  "a failure (including a partial write, or a failure reported after the effect happened) of any single file operation at any position, transient or persistent, followed by any further calls",
  "The tests use a fail counter but only look at whether recovery finally verifies; they do not check which call reports the error, stickiness, absence of later writes, or partial writes.",
  ["impl/basic_store.ipp", "impl/recover.ipp", "impl/create.ipp", "impl/rekey.ipp", "detail/bulkio.hpp"],
  [("sticky error flag", "basic_store (ec_, ecb_)"), ("error checks after every file call", "all implementation files")],
  None, ["error code of each call and the file operations issued after the injected failure"])

p("C09", "The files conform to the documented format",
  "At every commit boundary the data, key and log files parse, under the published big-endian file format, as a structurally valid database written by an independent reader: headers carry the creation parameters, every bucket sits at its position, is sorted, zero padded and within capacity, every entry refers to the record with the same key hash and size, every spill pointer refers to a spill record, every key is in exactly the bucket that linear hashing assigns it, and nothing else is in the files; the log of a commit in progress holds, in that format, the file sizes and the buckets as they were. Conversely any database written to that format by an independent writer is served correctly, and one left in the middle of a commit is rolled back by its log.",
  ["histories", "configurations", "inputs"],
  "all histories, parameters and hash functions; both directions (library writes / independent reader, independent writer / library reads)",
  "Tests read the files back with the same code that wrote them, so a symmetric format change or a wrong bucket placement that the reader compensates passes.",
  ["detail/format.hpp", "detail/bucket.hpp", "detail/field.hpp", "detail/stream.hpp", "impl/basic_store.ipp", "impl/create.ipp", "README.md"],
  [("serialisation", "detail/format.hpp, detail/bucket.hpp, detail/field.hpp"), ("linear hashing bucket assignment", "detail/format.hpp bucket_index")],
  None, ["bytes of the three files at commit boundaries and at close", "bytes of the log when a commit discards it"])

p("C10", "Verify accepts every valid database and reports true statistics",
  "On every valid database verify succeeds whatever buffer size is given, and all reported figures (header fields, file sizes, key, value and byte counts, live and total spill counts and bytes, spill histogram, load, waste and overhead) equal the ones an independent count of the files gives, so the results agree between the two algorithms. Verify never modifies a file.",
  ["inputs", "configurations", "histories"],
  "all valid databases (any history, any parameters, after recovery, after rekey) and all buffer sizes from zero to larger than the key file",
  "The tests run verify on a few regularly grown databases and compare only that no error occurs.",
  ["impl/verify.ipp", "verify.hpp"],
  [("slow and buffered verification", "verify_normal, verify_fast")],
  None, ["verify_info fields versus an independent file parser"])

p("C11", "Verify reports damage that would make the database give wrong answers",
  "If a database has been damaged so that some stored record is no longer reachable through the index, or an index entry no longer refers to a record with its size and key hash, or a record is cut off, or header fields are invalid or inconsistent between the files, then verify reports an error with every buffer size.",
  ["inputs", "fault_sequences"],
  "all valid databases combined with truncation, lost index entries, altered entries, spill pointers, record headers, keys and file headers, for both algorithms",
  "The tests damage a database in a small number of hand-picked places.",
  ["impl/verify.ipp", "detail/format.hpp", "detail/bucket.hpp"],
  [("cross check of values against buckets and of buckets against values", "verify_normal, verify_fast"), ("header checks", "detail/format.hpp verify")],
  None, ["verify result on damaged files versus an independent validity judgement"])

p("C12", "Rekey builds an equivalent index",
  "Rebuilding the key file from a data file succeeds for every accepted block size, load factor, item count estimate and buffer size, and produces a valid database in which exactly the same keys map to exactly the same values, no data record is altered or moved, the identity fields are preserved, the bucket count keeps the average occupancy for the given item count within the load factor, and further inserts work.",
  ["inputs", "configurations", "histories"],
  "all data files (including ones with spill records, large values, long keys and colliding hashes), all buffer sizes from one block up, item counts below, at or above the true count",
  "The test rekeys one regular data set with one set of parameters.",
  ["impl/rekey.ipp", "detail/bulkio.hpp", "detail/bucket.hpp"],
  [("multi-pass bucket construction", "impl/rekey.ipp"), ("spilling to the data file", "detail/bucket.hpp maybe_spill")],
  None, ["contents of the rekeyed database via independent parser and store"])

p("C13", "Interrupted rekey never loses data",
  "If rekey is interrupted by a crash, power loss or I/O error at any instant, then recovery brings the data file back to exactly its original bytes and leaves no usable-looking partial key file, so that rekey can be run again and yields the full database; once rekey has reported success the new key file is durable. A rekey refused because its target exists changes nothing.",
  ["crash_points", "fault_sequences"],
  "every crash instant and failing file operation inside rekey and inside the recovery after it, with loss of unsynchronised writes",
  "The test only fails file calls in sequence with all earlier writes intact, and does not compare the data file bytes nor crash the recovery.",
  ["impl/rekey.ipp", "impl/recover.ipp"],
  [("log header with zero key file size", "impl/rekey.ipp"), ("key file erased on recovery", "impl/recover.ipp")],
  None, ["file images after recovery of each crash point"])

p("C14", "Visit reports every stored value exactly once",
  "Visiting a data file invokes the callback exactly once for every stored key/value pair, in insertion-file order, with the exact key and value bytes, skipping spill records, needing only the data file, and modifies nothing. An error set by the callback stops the visit immediately and is returned; a data file that ends inside a record is reported as an error after the complete records before it.",
  ["inputs", "configurations"],
  "all data files regardless of record sizes, positions relative to internal buffer boundaries, spill records, and every truncation point",
  "The test visits one small regular data set.",
  ["impl/visit.ipp", "detail/bulkio.hpp"],
  [("sequential scan with buffered reader", "impl/visit.ipp, detail/bulkio.hpp")],
  None, ["callback sequence versus independent parse of the data file"])

p("C15", "Create is all-or-nothing and never harms existing files",
  "Creating a database either succeeds, leaving an empty database with exactly the requested parameters, durable at return, that can be opened and used, or reports an error and leaves no new file behind; files that already existed are never modified or removed. Parameters that cannot give a usable database are refused.",
  ["inputs", "fault_sequences", "configurations"],
  "all parameter values (key sizes, block sizes, load factors including extremes), all combinations of pre-existing files, and a failure of any file operation during creation",
  "The tests try two invalid parameters and one pre-existing file.",
  ["impl/create.ipp", "create.hpp", "detail/format.hpp"],
  [("exclusive creation and clean-up on failure", "impl/create.ipp"), ("parameter checks", "impl/create.ipp")],
  None, ["file set and bytes before and after create; open and use afterwards"])

p("C16", "Open accepts only matching intact databases and preserves identity",
  "Opening succeeds only if the data and key files (and log, if any) are of the right type and version, belong to the same database and were made with the same hash function; otherwise it reports an error, the store stays closed and the data file is unchanged. After a successful open the reported application number, key size, block size and paths are exactly those given at creation, over any number of sessions, and a failed open neither prevents nor damages a later correct one.",
  ["configurations", "inputs"],
  "all pairings of files from different databases, versions, salts, hash functions, truncated or swapped files, and any number of sessions",
  "The tests open one well-formed database; mismatched pairs are not tried.",
  ["impl/basic_store.ipp", "detail/format.hpp", "impl/recover.ipp"],
  [("header verification and fingerprint of salt", "detail/format.hpp"), ("parameter accessors", "impl/basic_store.ipp")],
  None, ["result of open, accessors, and file bytes before and after"])

p("C17", "The native file transfers exact bytes under any system-call behaviour",
  "Reads and writes through the native file transfer exactly the requested bytes at the requested position even when the operating system splits transfers arbitrarily or interrupts calls; a failing system call is reported with its error, reading past the end is reported as a short read, sync reports success only after the data was flushed, creating refuses an existing file, and the descriptor is released exactly once through moves, closes and destruction.",
  ["fault_sequences", "inputs"],
  "all sizes and offsets, all patterns of partial transfer lengths, interruptions and errors of each system call, and all sequences of open, move, close",
  "The kernel never splits small regular-file transfers or interrupts them in tests, so the loops run once.",
  ["impl/posix_file.ipp", "posix_file.hpp", "file.hpp"],
  [("transfer loops with retry", "posix_file::read/write/sync/trunc")],
  None, ["system calls as seen by an interposer, and resulting file bytes"])

p("C18", "The context flushes every open store and never touches a closed one",
  "While a context is running on one or more threads, every open store with uncommitted data is committed within a bounded time without further calls, no matter how many stores and threads share the context or how stores are opened and closed meanwhile. Closing a store waits for a commit in progress on it and afterwards the context never touches it again; stopping the context returns after all its threads have finished, and nothing is committed by it until it is started again; an explicit flush commits everything inserted before it, unless the context is running, when it does nothing.",
  ["schedules", "histories"],
  "all interleavings of start, run, flush, stop, open and close over many stores and threads, with commits of any duration",
  "The context test is not part of the suite, and the store tests use one store with its own thread.",
  ["impl/context.ipp", "context.hpp", "detail/store_base.hpp"],
  [("waiting/flushing lists and store states", "impl/context.ipp"), ("stop and thread counting", "context::run/stop_all")],
  None, ["file operations of each store with thread and time, versus open/close/start/stop events"])

p("C19", "A commit never blocks or misleads readers",
  "While a commit is in progress and stalled at any file operation, fetches complete and return the correct value for every key inserted before the fetch - committed, being committed or still only in memory - and report not-found for every other key, and inserts complete too; a reader stalled in the middle of a fetch still gets the correct answer however many commits happen or wait meanwhile, and while it stands still reading the key file it holds up no other fetch or insert, not even when a commit waits for it.",
  ["schedules", "histories"],
  "every file operation of every commit as the stall point, every key class, with splits, spills and growth in progress, and readers stalled at each of their own file reads",
  "Stages of a commit last microseconds in tests; nothing holds a commit at a given operation and probes all keys there.",
  ["impl/basic_store.ipp", "detail/gentex.hpp"],
  [("view swap before key-file writes", "basic_store::commit"), ("generation lock", "detail/gentex.hpp")],
  None, ["results of fetch/insert while the committer is held at operation k"])

p("C20", "Damaged or hostile files never cause memory errors, hangs or crashes",
  "Opening, recovering, verifying, visiting or rekeying from data, key and log files with arbitrary contents ends with success or an error code: it never reads or writes outside its buffers, aborts, recurses or loops without end, or allocates memory out of proportion to the files.",
  ["inputs"],
  "all byte contents of the three files, in particular structured mutations of valid databases and crash-interrupted databases",
  "The tests never feed damaged bytes to recover, visit or rekey and only a few to verify.",
  ["impl/recover.ipp", "impl/verify.ipp", "impl/visit.ipp", "impl/rekey.ipp", "detail/bucket.hpp", "detail/format.hpp", "detail/bulkio.hpp"],
  [("header verification", "detail/format.hpp"), ("bounded readers, bucket size checks", "detail/bulkio.hpp, detail/bucket.hpp")],
  None, ["sanitizer reports, aborts, time and allocation while processing mutated files"])

p("C21", "The provided hasher is exactly 64-bit xxHash",
  "For every input length, buffer alignment and seed, the provided hash function returns the standard 64-bit xxHash value of the bytes, so that databases are portable between builds and machines; it never reads outside the given buffer or performs a misaligned access.",
  ["inputs"],
  "all lengths including 0 and those around the 4, 8 and 32 byte block boundaries, all 16 alignments, all seeds",
  "The unit test only checks that the type can be constructed; an equal change on the writing and reading side goes unnoticed.",
  ["xxhasher.hpp", "detail/xxhash.hpp"],
  [("XXH64 rounds", "detail/xxhash.hpp")],
  None, ["hash values versus an independent implementation and published vectors"])

p("C22", "Memory use is bounded by uncommitted data",
  "Memory held by an open store is bounded by a small multiple of the uncommitted data and of the commit in progress: it does not grow with the number of keys stored, commits done, fetches made or sessions opened, is given back after a burst has been committed, and is completely released at close.",
  ["histories"],
  "all histories of inserts, commits, fetches, bursts and idle periods of any length",
  "Tests do not measure memory, and slow growth over many commits is invisible in a short run.",
  ["detail/arena.hpp", "detail/pool.hpp", "detail/cache.hpp", "impl/basic_store.ipp"],
  [("arena with periodic size adjustment", "detail/arena.hpp"), ("cache cleared after commit", "basic_store::commit")],
  None, ["live bytes through the allocator at each commit boundary"])

p("C23", "The command line tool tells the truth about files",
  "The command line tool's info, verify, visit, recover and rekey commands have exactly the effect of the corresponding library functions with the given options, print figures that match the files, and signal failure with a nonzero exit status whenever the operation failed.",
  ["inputs", "configurations"],
  "all commands and options on valid, interrupted, damaged and missing database files",
  "The tool has no tests.",
  ["tools/nudb.cpp"],
  [("command implementations", "tools/nudb.cpp")],
  None, ["exit status, output and resulting files of each invocation"])

p("C24", "Lookups cost a bounded number of reads and load stays at target",
  "A fetch of a committed key reads the key file once, then one data-file read per spill record in that bucket's chain and per candidate with the same hash, and a fetch of a key not yet committed reads no file; during a session the key file grows by one bucket for every (load factor times bucket capacity) keys committed, to within one bucket, so occupancy stays at the configured load. Fetching never writes, and each commit writes an amount proportional to its own data and buckets, not to the database size.",
  ["histories", "configurations"],
  "all histories, sizes and load factors; cost counted in file operations, not time",
  "Tests never count I/O; a redundant read or a missing split only makes the store slower.",
  ["impl/basic_store.ipp", "detail/bucket.hpp", "detail/format.hpp"],
  [("split accounting by load", "basic_store::commit (frac_, thresh_)"), ("single bucket read", "basic_store::fetch")],
  None, ["file operations issued by each fetch and commit"])

p("C25", "Files beyond 4 GiB work like small ones",
  "All guarantees hold when the data file or key file has grown past 2 and 4 GiB: records, spill records and buckets at such positions are written, fetched, verified, visited, rolled back and rekeyed correctly, and values up to many megabytes round-trip. Key files may have up to 2^32 buckets; larger ones are refused.",
  ["inputs", "configurations"],
  "all file offsets up to the 48-bit format limit and value sizes up to the 32-bit limit",
  "Tests use databases of at most a few megabytes, so 32-bit truncation of an offset or size is never exercised.",
  ["impl/basic_store.ipp", "impl/recover.ipp", "impl/rekey.ipp", "detail/bucket.hpp", "detail/bulkio.hpp", "detail/field.hpp"],
  [("64-bit offsets throughout", "detail/types, detail/bucket.hpp, detail/bulkio.hpp"), ("48-bit fields", "detail/field.hpp")],
  None, ["operations on sparse files whose interesting parts lie beyond the boundary"])

p("C26", "Only the given paths, only through the given file type",
  "Every operation that is given a file type performs all of its file access through that type, constructed with the caller's arguments, only as its documented requirements permit, and only on the paths it was given; no other file is created, changed or removed, including on error paths and during recovery. Exactly the documented files exist afterwards: data and key files always, the log file only while open, after creation, or after a failure that needs recovery.",
  ["configurations", "fault_sequences", "histories"],
  "all operations and error paths with user-defined file types, constructor arguments and path combinations",
  "Tests use one file type whose paths are real files as well, so access around the file type goes unnoticed.",
  ["impl/create.ipp", "impl/recover.ipp", "impl/rekey.ipp", "impl/basic_store.ipp", "create.hpp"],
  [("File template parameter and forwarded arguments", "create, recover, rekey, basic_store::open")],
  None, ["operations recorded by a virtual file type versus the real file system"])

p("C27", "Writers are slowed when, and only when, they outrun the commits",
  "Once a commit of more than the burst size has shown how fast commits are (the last such commit counts), inserts are delayed while more than the burst size is waiting to be committed and the data waiting was inserted faster than that rate since the last commit began, so that under sustained overload the uncommitted data stays bounded by the burst size and what commits can write. Inserts that stay within the burst size, that are slower than the commits, or that come before any rate is known are not delayed, and set_burst takes effect at once.",
  ["histories", "schedules", "configurations"],
  "all rates of insertion, commit speeds, burst sizes, value sizes and numbers of writing threads; the length of a delay is not specified",
  "No test looks at throttling: it depends on how fast commits are and shows only in how long inserts take and how much data piles up.",
  ["impl/basic_store.ipp", "detail/pool.hpp"],
  [("rate and burst comparison", "basic_store::insert"), ("rate measured by each commit", "basic_store::flush"), ("accounting of pending bytes", "detail::pool_t::data_size")],
  None, ["duration of inserts and amount of uncommitted data while commits run on a slow file"])

p("C28", "Progress reports are true fractions of the work",
  "While verify, rekey or visit runs, every call of the progress function, made in the calling thread, gives the same total and an amount that starts at zero, never decreases and never exceeds the total, whatever the database, buffer size and parameters, and up to the point where an error ends the operation; a completed visit has reported its whole total, and no call is made after the operation has returned.",
  ["inputs", "configurations"],
  "all databases including key files holding far fewer or more keys than their load factor foresees, all buffer sizes and both verify algorithms, damaged files up to the error",
  "Tests pass progress functions that ignore the numbers.",
  ["impl/verify.ipp", "impl/rekey.ipp", "impl/visit.ipp"],
  [("work accounting", "verify_normal, verify_fast, rekey, visit")],
  None, ["sequence of progress reports of each operation"])

p("C29", "Exceptions pass through without harm",
  "An exception thrown by a fetch or visit callback or by a progress function, or for want of memory inside insert, fetch, open, recover, rekey, verify or visit, reaches the caller with every lock and file released. An insert that threw has inserted nothing and a repetition of it succeeds; an open that threw leaves the store closed and the data and key file as they were, or as a recovery leaves them, and can be repeated; a recovery or rekey that threw has harmed no committed byte and can be recovered and repeated with the usual result. The store remains fully usable, also when the exception came in the middle of a commit. Creation, close and the commit itself running out of memory are outside this property.",
  ["histories", "fault_sequences", "schedules"],
  "all points of allocation and all calls of callbacks and progress functions, in any state of the store including during commits",
  "No test throws from a callback or runs out of memory; a lock or file released only on the normal path goes unnoticed until the next commit hangs.",
  ["impl/basic_store.ipp", "detail/gentex.hpp", "detail/pool.hpp", "detail/arena.hpp", "impl/recover.ipp", "impl/rekey.ipp", "impl/verify.ipp", "impl/visit.ipp"],
  [("scoped locks and genlock", "basic_store::fetch, basic_store::insert, detail::genlock"), ("state built before it is published", "basic_store::open"), ("files closed by their destructors", "recover, rekey, verify, visit")],
  None, ["exceptions reaching the caller", "later operations and files after each exception"])

p("C30", "Identifiers and salts are fresh",
  "make_uid and make_salt return uniformly distributed 64-bit values from the system's random source: however many are drawn, by any number of threads, of processes started at the same time and of children forked after values were drawn, no value is seen twice and every bit is as often set as not. Every database created without a given identifier gets a new one, recorded alike in all its files, so that files of two databases are never accepted together even if all parameters are equal; the salt in the key file is the one given at creation, and every rekey makes a new one.",
  ["inputs", "configurations", "schedules"],
  "all numbers of values, threads, processes and databases, up to the collision probability of 64-bit random values",
  "Tests give fixed identifiers and salts.",
  ["create.hpp", "impl/create.ipp", "impl/rekey.ipp"],
  [("random 64-bit values", "make_uid, make_salt"), ("identifier of a new database", "create"), ("new salt", "rekey")],
  None, ["values returned", "identifiers and salts in the headers of the files"])

p("C31", "Operations on different databases are independent",
  "Whatever is done with one database at the same time, create, open, insert, fetch, commits, close, recover, rekey, verify and visit on other databases, in other threads or within callbacks and progress functions of the first (a fetch inside a fetch callback, an insert and a commit inside a visit, a verify inside a verify, a rekey inside the progress function of a rekey), return the same results, deliver the same values and leave the same bytes in the files as when they are done alone, and a value or key that a callback was given does not change while other databases are used in it.",
  ["histories", "schedules", "configurations"],
  "all combinations of operations on any number of databases with any parameters, in any number of threads and any nesting",
  "Tests use one database at a time; state shared by all databases of a process (a buffer kept for the next call, a memoised result) goes unnoticed.",
  ["impl/basic_store.ipp", "impl/verify.ipp", "impl/visit.ipp", "impl/rekey.ipp", "impl/recover.ipp", "detail/bulkio.hpp", "detail/format.hpp"],
  [("all state in objects of the caller or local to the call", "basic_store, verify, visit, rekey, recover, detail::bulk_reader, detail::bulk_writer")],
  None, ["results, values and files of each operation, alone and at once"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
