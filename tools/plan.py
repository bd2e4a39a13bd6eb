"""What each check runs.  job: bin (harness), variant, mode, args, quick/thorough
{cases, secs}; secs is a cap that a healthy machine does not reach."""
def job(bin, mode="", variant="plain", q=None, t=None, **kw):
    d = {"bin": bin, "mode": mode, "variant": variant, "quick": q and {"cases": q[0], "secs": q[1], "args": (q[2] if len(q) > 2 else {})},
         "thorough": t and {"cases": t[0], "secs": t[1], "args": (t[2] if len(t) > 2 else {})}}
    if d["thorough"] is None: d["thorough"] = d["quick"]
    d.update(kw)
    return d

CRASH_ASSUME = ["power loss: each file loses a suffix of its unsynchronised operations (the key file an arbitrary subset, torn at 512 bytes); creation and removal of names are durable at once and in order"]
PLAN = {
 "C01": {"technique": 'linearizability checker over recorded concurrent histories', "note": "Random concurrent histories on one store with commits forced continuously and delays at every file operation, and under a controlled scheduler that chooses the running thread at every lock, wait and file operation; every history judged exactly as insert-once registers, the files compared afterwards.",
   "level": "exploration", "rule": "one evaluation = one concurrent history (2 to 7 threads, commits running all the time, delays at file operations or a schedule chosen by random walk, random priorities or freezing a thread) judged by an exact checker for insert-once registers and compared with the files; non-trivial: more than 20 thread switches (3 under the scheduler); distinct by the order of operations and outcomes",
   "jobs": [job("h_conc", "lin", q=(1200, 60), t=(40000, 1500)), job("h_conc", "race", q=(400, 60), t=(10000, 1500)),
            job("h_sched", "lin", q=(40000, 60), t=(4000000, 1500))]},
 "C02": {"technique": 'ThreadSanitizer, AddressSanitizer, UBSan, LeakSanitizer and assertions over all workloads', "note": "The workloads of the other checks run under sanitizers: concurrent histories and contexts on real files under ThreadSanitizer and AddressSanitizer, and sequential histories, crashes, recoveries, faults, rekeys, verify, visit and the API under AddressSanitizer, UBSan and LeakSanitizer.",
   "level": "exploration", "rule": "one evaluation = one history of another check run under a sanitizer; distinct as in that check",
   "jobs": [job("h_conc", "race", "tsan", q=(300, 60), t=(10000, 1500)), job("h_conc", "race", "asan", q=(200, 60), t=(6000, 1500)), job("h_conc", "lin", "asan", q=(200, 60), t=(6000, 1500)),
            job("h_sched", "lin", "tsan", q=(3000, 60), t=(300000, 1500)), job("h_sched", "lin", "asan", q=(3000, 60), t=(300000, 1500)), job("h_sched", "ctx", "tsan", q=(400, 60), t=(40000, 1500)), job("h_sched", "ctx", "asan", q=(300, 60), t=(30000, 1500)),
            job("h_ctxfast", "native", "tsan", q=(24, 60), t=(800, 1500)), job("h_ctxfast", "native", "asan", q=(16, 60), t=(500, 1500)),
            job("h_seq", "map", "asan", q=(160, 60), t=(3000, 1500)), job("h_crash", "durable", "asan", q=(64, 60), t=(1500, 1500)), job("h_fault", "", "asan", q=(64, 60), t=(1000, 1500)),
            job("h_rekey", "equiv", "asan", q=(80, 60), t=(1500, 1500)), job("h_rekey", "crash", "asan", q=(48, 60), t=(1000, 1500)), job("h_maint", "verify", "asan", q=(160, 60), t=(3000, 1500)), job("h_maint", "visit", "asan", q=(160, 60), t=(3000, 1500)),
            job("h_api", "create", "asan", q=(400, 60), t=(6000, 1500)), job("h_api", "open", "asan", q=(600, 60), t=(6000, 1500)), job("h_phase", "mixed", "asan", q=(100, 60), t=(3000, 1500)), job("h_hash", "", "asan", q=(40, 60), t=(500, 1500))]},
 "C03": {"technique": 'online model-based monitor (reference map) over random histories', "note": "Every return value and every value delivered is checked against a reference map, on random configurations including seven degenerate hash functions. Trusts the generator's reach; no bound is proved.",
   "level": "exploration", "rule": "one case = one random configuration and history of inserts, fetches, commits and sessions checked against a map; non-trivial: at least 10 keys and a bucket split, a spill or a reopened session; distinct by configuration, key, split and spill counts",
   "jobs": [job("h_seq", "map", q=(1200, 60), t=(20000, 1500)), job("h_bulk", "store", q=(8, 60), t=(200, 1500), weight=6)]},
 "C09": {"technique": 'offline decoding of the files by an independent reader/writer', "note": 'Files at commit boundaries of random histories decoded by a reader written from the README format; also databases made by an independent writer served.',
   "level": "exploration", "rule": "one case = one history whose files are decoded and validated by an independent reader at commit boundaries, or one database made by an independent writer and served; non-trivial: at least 10 keys and a split, spill or reopen (or a foreign database of more than 3 records); distinct by configuration and sizes",
   "jobs": [job("h_seq", "format", q=(1200, 60), t=(20000, 1500)), job("h_bulk", "store", q=(8, 60), t=(200, 1500), weight=6)]},
 "C24": {"technique": 'operation-counting monitor', "note": 'Operations of each fetch and commit counted at the File interface and compared with a bound computed from an independent decoding.',
   "level": "exploration", "rule": "one case = one history in which the file operations of each fetch and commit are counted and compared with the bound computed from an independent decoding of the files; non-trivial as for C03",
   "jobs": [job("h_seq", "cost", q=(1000, 60), t=(15000, 1500))]},
 "C04": {"technique": 'crash injection with durability oracle over recorded file-operation log', "note": 'All crash points sampled densely over operation logs of random histories under a kill and a power-loss model; recovery executed for real on each image.',
   "level": "fault_enumeration", "assumptions": CRASH_ASSUME, "rule": "one evaluation = one crash image (process kill, torn write or power loss) recovered and judged; crash points run over the file operations of random histories; non-trivial: recovery had to roll back",
   "jobs": [job("h_crash", "durable", q=(700, 60), t=(20000, 1500)), job("h_bulk", "crash", q=(8, 60), t=(150, 1500), weight=6)]},
 "C05": {"technique": 'crash injection with before/after-state oracle', "note": 'As C04, with exact comparison to the two permitted states, idempotence and interrupted recovery, and consistent cuts of concurrent histories.',
   "level": "fault_enumeration", "assumptions": CRASH_ASSUME, "rule": "as C04, with the recovered files compared to the state before and after the commit, recovery repeated and interrupted, the database used afterwards; every sixth case crashes a concurrent history and checks for a consistent cut; non-trivial: recovery had to roll back, or a concurrent history was cut at a distinct size",
   "jobs": [job("h_crash", "atomic", q=(700, 60), t=(20000, 1500)), job("h_bulk", "crash", q=(8, 60), t=(150, 1500), weight=6)]},
 "C06": {"technique": 'online write-ahead-order monitor over file operations', "note": 'Monitor tracks stable storage and checks every append, overwrite and log discard during histories and recoveries.',
   "level": "fault_enumeration", "rule": "one evaluation = one crash image whose recovery runs under the write-ahead monitor, after a history whose every file operation ran under it; non-trivial: recovery had to roll back",
   "jobs": [job("h_crash", "wal", q=(500, 60), t=(15000, 1500)), job("h_bulk", "wal", q=(8, 60), t=(300, 1500), weight=6)]},
 "C07": {"technique": 'online append-only monitor over file operations', "note": 'Monitor checks every write and truncation of the data file during histories, recoveries and rekeys.',
   "level": "fault_enumeration", "rule": "as C06 with the append-only monitor on the data file",
   "jobs": [job("h_crash", "append", q=(500, 60), t=(15000, 1500)), job("h_bulk", "wal", q=(8, 60), t=(300, 1500), weight=6)]},
 "C08": {"technique": 'fault injection at every file operation with behavioural oracle', "note": 'Faults of several kinds at each operation index of random histories, judged against the model and by reopening; under the controlled scheduler, reads of clients and operations of the committer fail in concurrent histories; recovery of interrupted commits and rekeys with failing operations; verify and visit with failing system calls.',
   "level": "fault_enumeration", "rule": "one evaluation = one run with a fault at one file operation (before, partial, after effect or persistent), judged while it lasts and after reopening, or one scheduled concurrent history with failing reads or a failing commit; non-trivial: distinct operation, kind and phase",
   "jobs": [job("h_fault", "", q=(400, 60), t=(8000, 1500)), job("h_sched", "fault", q=(20000, 60), t=(2000000, 1500)), job("h_sched", "fail", q=(20000, 60), t=(2000000, 1500)), job("h_posix", "tools", q=(1500, 40), t=(60000, 900))]},
 "C10": {"technique": 'independent recount of the files as oracle for verify', "note": 'Databases of many shapes (grown, rekeyed, foreign, overfull, empty, cut) verified with seven buffer sizes; every figure compared with an independent count; run under ASan and UBSan too.',
   "level": "exploration", "rule": "one evaluation = one valid database verified with several buffer sizes by both algorithms and every reported figure compared with an independent count; non-trivial: at least 3 records; distinct by configuration, shape and sizes",
   "jobs": [job("h_maint", "verify", q=(1500, 60), t=(20000, 1500)), job("h_maint", "verify", "asan", q=(400, 60), t=(4000, 1500)), job("h_bulk", "verify", q=(6, 90), t=(150, 1500), weight=6)]},
 "C11": {"technique": 'damage injection with an independent reachability oracle', "note": 'Random and targeted damage to valid databases; an independent walk decides whether a record became unreachable or an entry wrong; verify must then report an error with every buffer size.',
   "level": "exploration", "rule": "one evaluation = one damaged database judged by an independent reachability walk and verified with every buffer size; non-trivial: the oracle finds damage that verify has to report; distinct by kind of damage and place",
   "jobs": [job("h_maint", "damage", q=(12000, 60), t=(200000, 1500)), job("h_maint", "damage", "asan", q=(1500, 60), t=(20000, 1500))]},
 "C12": {"technique": 'differential monitor: independent decoding before and after rekey', "note": 'Random databases rekeyed with random and boundary parameters; results decoded independently, opened, read completely and extended.',
   "level": "exploration", "rule": "one evaluation = one data file rekeyed with random parameters, the files decoded by an independent reader and the database used; non-trivial: at least 3 keys; distinct by configuration, rekey parameters and size",
   "jobs": [job("h_rekey", "equiv", q=(1000, 60), t=(15000, 1500)), job("h_rekey", "equiv", "asan", q=(200, 60), t=(2000, 1500)), job("h_bulk", "rekey", q=(12, 60), t=(300, 1500), weight=6)]},
 "C13": {"technique": 'crash and fault injection with before-state oracle', "note": 'Every (or densely sampled) operation of a rekey taken as crash point under the kill and power-loss models and as fault; recovery executed, interrupted and repeated; rekey run again.',
   "level": "fault_enumeration", "assumptions": CRASH_ASSUME, "rule": "one evaluation = one crash image or fault of a rekey, recovered (possibly with interrupted recoveries) and judged, rekeyed again; distinct by history and point",
   "jobs": [job("h_rekey", "crash", q=(500, 60), t=(15000, 1500))]},
 "C14": {"technique": 'online monitor of callbacks against an independent decoding', "note": 'Every callback compared with the records of an independent decoding, also with cut files and callbacks that stop the visit.',
   "level": "exploration", "rule": "one evaluation = one data file visited completely, stopped by the callback or cut, each callback compared with an independent decoding; non-trivial: at least 3 records; distinct by configuration and sizes",
   "jobs": [job("h_maint", "visit", q=(2500, 60), t=(30000, 1500)), job("h_maint", "visit", "asan", q=(500, 60), t=(5000, 1500)), job("h_bulk", "visit", q=(16, 60), t=(600, 1500), weight=6)]},
 "C15": {"technique": 'fault injection and before/after comparison of all files', "note": 'Parameters including every boundary, existing files in any combination, a fault at each operation, native and given file type; files compared before and after, durability at return checked.',
   "level": "fault_enumeration", "rule": "one evaluation = one create with random or boundary parameters, existing files and possibly a fault at one file operation, judged by comparing all files before and after and by using the result; distinct by parameters, existing files and fault",
   "jobs": [job("h_api", "create", q=(6000, 60), t=(100000, 1500)), job("h_api", "create", "asan", q=(1200, 60), t=(10000, 1500))]},
 "C16": {"technique": 'mismatch injection with before/after comparison', "note": 'Every identifying header field of the three files altered, files of other databases substituted, other hash functions; then the right files opened again.',
   "level": "exploration", "rule": "one evaluation = one database with one file replaced, altered, cut or missing or opened with another hash, followed by opens of the right files; distinct by mismatch and configuration",
   "jobs": [job("h_api", "open", q=(20000, 60), t=(300000, 1500)), job("h_api", "open", "asan", q=(2000, 60), t=(20000, 1500))]},
 "C17": {"technique": 'system-call interposition with injected splits, interruptions and errors, and a file model', "note": "The system calls of the native file are interposed: transfers split at random, calls interrupted or failed with an errno, every descriptor accounted for; each operation compared with a model of the file, whole databases run the same way.",
   "level": "fault_enumeration", "rule": "one evaluation = one file operation (create, open, read, write, sync, trunc, size, close, move, erase) under hostile system calls compared with a model of the files and descriptors, or one database history with split and interrupted calls and a failing commit; distinct by history and step",
   "jobs": [job("h_posix", "file", q=(16000, 60), t=(400000, 1500)), job("h_posix", "db", q=(1200, 60), t=(30000, 1500)), job("h_posix", "file", "asan", q=(1600, 60), t=(30000, 1500)), job("h_posix", "db", "asan", q=(160, 60), t=(3000, 1500))]},
 "C18": {"technique": 'online monitor of thread, time and store state at every file operation', "note": "Random scripts over contexts with one to four threads and up to six stores, in real time and with the tick scaled to 10 ms, and under a controlled scheduler with virtual time that sees deadlocks; a monitor knows which stores are open and which contexts are stopped and judges each file operation; progress is bounded by 30 s.",
   "level": "exploration", "rule": "one evaluation = one step of a script over a context (start, stop, run threads, flush, open, close, slow stores, waiting for commits), or one whole scheduled script, under the monitor; distinct by script and step",
   "jobs": [job("h_ctx", "real", q=(8, 60, {"scenes": 12, "steps": 5}), t=(400, 1500, {"scenes": 16, "steps": 8}), weight=9),
            job("h_ctxfast", "real", q=(96, 60), t=(8000, 1500)), job("h_sched", "ctx", q=(16000, 60), t=(1500000, 1500)), job("h_ctxfast", "stress", q=(24, 60), t=(2000, 1500)),
            job("h_ctxfast", "native", "tsan", q=(16, 60), t=(600, 1500)), job("h_ctxfast", "real", "asan", q=(16, 60), t=(600, 1500))]},
 "C19": {"technique": 'monitor of answers while threads are held at chosen file operations', "note": "A commit is held before and after its file operations while all classes of keys are fetched and inserted; readers are held at their reads while commits run; every answer compared with a model; a watchdog detects blocking; under the controlled scheduler a thread that waits for the held commit is a deadlock.",
   "level": "exploration", "rule": "one evaluation = all classes of keys probed while a commit is held at one file operation, or one fetch or insert held at one of its reads while commits run or wait, or one scheduled history with the committer held until all others are done; distinct by history and place",
   "jobs": [job("h_phase", "commit", q=(1000, 60), t=(30000, 1500)), job("h_phase", "reader", q=(2000, 60), t=(60000, 1500)), job("h_phase", "mixed", q=(600, 60), t=(20000, 1500)), job("h_sched", "stall", q=(30000, 60), t=(3000000, 1500))]},
 "C20": {"technique": 'AddressSanitizer, UBSan, allocation and hang monitors over hostile files', "note": 'Structured and random damage to all three files; open, recover, verify, visit, rekey, fetch and insert run under sanitizers with an operation and allocation budget.',
   "level": "exploration", "rule": "one evaluation = one operation on one set of damaged files under sanitizers with bounds on allocation, file operations and time; distinct by operation, kind of damage and outcome",
   "jobs": [job("h_hostile", "hostile", "asan", q=(9000, 90), t=(400000, 1500), kill_is_violation=True)]},
 "C21": {"technique": 'differential monitor against an independent implementation, UBSan and ASan', "note": 'All lengths up to 300 at all alignments and many seeds, longer random buffers, in exactly sized allocations.',
   "level": "exploration", "rule": "one evaluation = one (length, alignment, seed) hashed by the library and by an implementation written from the specification; distinct by these",
   "jobs": [job("h_hash", "", q=(400, 60), t=(4000, 1500)), job("h_hash", "", "asan", q=(150, 60), t=(1500, 1500))]},
 "C22": {"technique": 'allocation monitor (operator new and delete) under a controlled clock', "note": "Live and peak bytes measured at every commit boundary, around fetches and refused inserts, after bursts, idle minutes and closes, over sessions with up to 60000 keys; compared with a bound that depends only on uncommitted data and the commit in progress.",
   "level": "exploration", "rule": "one evaluation = one commit whose memory before, during and after is compared with the bound; distinct by history",
   "jobs": [job("h_mem", "", q=(480, 60), t=(12000, 1500))]},
 "C23": {"technique": 'process-level differential monitor: the tool against the library and an independent reader', "note": "The tool is built and run as a process with every command, spelling of options, kinds of files and damage, killed or out of space during rekey; exit status, every printed figure and the resulting files are judged.",
   "level": "exploration", "rule": "one evaluation = one invocation of the tool whose exit status, output and files are compared with the library and an independent reader; distinct by database",
   "jobs": [job("h_cli", "", q=(2400, 60), t=(60000, 1500), needs=[("nudb_cli", "plain")]), job("h_cli", "", "asan", q=(160, 60), t=(3000, 1500), needs=[("nudb_cli", "asan")])]},
 "C25": {"technique": 'monitors of C03, C05, C10, C12 and C14 on sparse files beyond 2 GiB to 2^48', "note": "Independent writer makes sparse databases whose data or key file lies around 2, 4, 8 GiB up to 2^48 bytes; insert, fetch, commits with crashes, rekey, verify and visit judged by an independent reader; values up to 40 MB (2 GiB in the thorough tier); key files around the limit of 2^32 buckets.",
   "level": "exploration", "rule": "one evaluation = one session, crash image, rekey, verify or visit on files beyond the boundary, or a fetch of a large value; distinct by database",
   "jobs": [job("h_big", "maint", q=(16, 120), t=(400, 1500), weight=9), job("h_big", "rekey", q=(32, 120), t=(800, 1500), weight=8), job("h_big", "values", q=(64, 60), t=(1500, 1500), weight=7, workers=4), job("h_big", "store", q=(800, 60), t=(30000, 1500)), job("h_big", "wide", q=(3000, 30), t=(200000, 300))]},
 "C26": {"technique": 'file-access monitor with decoys and bystanders', "note": 'Every operation through a given file type recorded; the same paths exist natively as decoys, neighbours as bystanders; files present compared after every step including failures.',
   "level": "exploration", "rule": "one evaluation = one history of create, open, close, recover, rekey and failures with all files compared after every step; distinct by configuration and kind of file",
   "jobs": [job("h_api", "files", q=(4000, 60), t=(60000, 1500))]},
 "C27": {"technique": 'rate and delay monitor on a slow file', "note": 'Commits slowed at the File interface in proportion to their bytes; the delay of every insert and the amount of data waiting compared with what the measured commit rate and the burst size allow.',
   "level": "exploration", "rule": "one evaluation = one phase (overload by several threads, within the burst, beyond it, burst raised, slower than the commits, before any rate is known) in which the delays of the inserts and the data waiting are judged; distinct by configuration",
   "jobs": [job("h_flow", "", q=(360, 45), t=(6000, 900))]},
 "C28": {"technique": 'online monitor of the progress reports', "note": 'Every report of verify (both algorithms), rekey and visit checked as it is made, on databases below and far above their target load, with one and many passes, and on damaged ones.',
   "level": "exploration", "rule": "one evaluation = one verify, rekey or visit whose progress reports are checked one by one; distinct by configuration and size",
   "jobs": [job("h_maint", "progress", q=(2400, 40), t=(60000, 1500))]},
 "C29": {"technique": 'exception and allocation-failure injection with a model, file and lock monitor', "note": 'Each allocation of insert, fetch, open, recover, rekey, verify and visit made to fail in turn, callbacks and progress functions throw, also in the middle of commits; afterwards answers, files, descriptors and the absence of hangs are judged.',
   "level": "fault_enumeration", "rule": "one evaluation = one session, recovery, rekey, verify or visit in which allocations fail one after the other or callbacks and progress functions throw, judged after each exception by the model, the files and the open descriptors; distinct by configuration and number of exceptions",
   "jobs": [job("h_exc", "", "asan", q=(1600, 60), t=(60000, 1500))]},
 "C30": {"technique": 'statistical monitor over recorded values of threads, processes and databases', "note": 'Hundreds of thousands of values drawn in one or several threads, in forked children and in programs started at once; identifiers and salts of databases created and rekeyed with equal parameters; any repetition or any bit, pair of bits or step with a frequency off by more than seven standard deviations is a violation.',
   "level": "exploration", "rule": "one evaluation = one set of values (threads, processes, or databases and rekeys) searched for repetitions and bias; distinct by source and number of threads or processes",
   "jobs": [job("h_ids", "", q=(64, 60), t=(3000, 900))]},
 "C31": {"technique": 'differential monitor: the same work alone and at once, with ThreadSanitizer and AddressSanitizer', "note": 'Scripts over all operations, with other databases used inside every kind of callback, run alone and then in up to six threads; every result, value and resulting file compared, on real files; also under ThreadSanitizer and AddressSanitizer.',
   "level": "exploration", "rule": "one evaluation = one thread that runs a script of operations on its own databases while up to five others do, every observation compared with that of the run alone; distinct by scripts",
   "jobs": [job("h_indep", "", q=(1000, 60), t=(60000, 1500)), job("h_indep", "", "tsan", q=(160, 60), t=(6000, 1500)), job("h_indep", "", "asan", q=(160, 60), t=(6000, 1500))]},
}

NA = {}
