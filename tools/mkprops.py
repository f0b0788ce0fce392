#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

TESTS = ("The 12 stable tests cover block iteration and two single curves; store/, threaded/, worker_pool/, "
         "config/ and executables/ are compiled but never executed. ")
CONF = ("odd prime powers q = p^e, genus >= 1, with or without a marked point at infinity, any count exponent >= 1, any package size >= 1 "
        "(sampled where an independent brute-force census exists, e.g. q up to 101 in genus 1, 17 in genus 2, 5 in genus 3, 3 in genus 4)")

prop("C01", "A finished threaded run holds the exact census, whatever the schedule",
 "When a threaded run that started on an empty output root exits successfully, merging the result directory of a modulus gives exactly the true census: "
 "for every pair of ramification type and Hasse-Weil offsets, the number of squarefree right-hand sides of the admitted degrees (2g+1 and, unless a marked point is requested, 2g+2) with that data. "
 "The result does not depend on the number of threads, the package size, how threads interleave or stall, or when intermediate saves happen.",
 ["schedules", "configurations"], "All interleavings, stalls and save times of a threaded run, for " + CONF + ".",
 TESTS + "No test runs the pool, and no finite set of executions on real threads covers the interleavings of assign, finish, save and shutdown.",
 ["src/executables/threaded.cc", "src/worker_pool/standalone.cc", "src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/store/store.cc", "src/store/store_data.hh", "src/store/curve_data.cc", "src/curve_iterator.cc", "src/block_iterator.cc", "src/curve.cc", "src/reduction_table.cc", "src/fq_element_table.cc"],
 [("per-package store merged into the process-wide store under a lock before the package is reported finished", "src/threaded/thread.cc main_thread, src/store/store.cc flush_to_static_store"),
  ("normal-form enumeration weighted by orbit size", "src/curve_iterator.cc")],
 [("static_store/static_record", "results and packages not yet saved", "src/store/store.hh")],
 ["result files after exit", "hycu-merger output"])

prop("C02", "Threaded runs always finish: no deadlock, lost wake-up or endless polling",
 "With at least one working thread, a threaded run on a valid configuration terminates successfully within bounded time once its threads get to run: every package handed to a thread is processed and acknowledged, and shutdown joins every thread. "
 "No interleaving, spurious wake-up, clock jump or finite stall makes it hang or poll forever.",
 ["schedules"], "All fair schedules with spurious wake-ups, finite stalls and wall-clock jumps, for 1..6 threads and 0..many packages.",
 TESTS + "A lost notification needs a pre-emption of a few instructions between a check and a wait, which no test provokes.",
 ["src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc"],
 [("worker waits on a condition variable for new packages or shutdown", "src/threaded/thread.cc main_thread/assign/shutdown"),
  ("master polls for ready threads and finished packages", "src/worker_pool/standalone.cc fill_idle_queues/wait_for_assigned_blocks")],
 [("blocks", "packages queued for a thread", "src/threaded/thread.hh"), ("busy_threads/ready_threads/idle_threads", "which thread works on what", "src/threaded/thread_pool.hh")],
 ["process exit", "simulated time"])

prop("C03", "A finished MPI run holds the exact census, whatever ranks and network do",
 "When an MPI run that started on an empty output root exits successfully on all ranks, merging the result directory of a modulus gives exactly the true census (as for threaded runs). "
 "This holds for any number of ranks and threads per rank, any legal message delay, buffering or relative speed of ranks, and any timing of intermediate saves.",
 ["schedules", "configurations"], "All interleavings of 1..4 ranks x 1..3 threads, all message latencies allowed by MPI's per-pair ordering, eager or synchronous sends; configurations as in C01.",
 TESTS + "hycu-mpi is built but never run by any test.",
 ["src/executables/mpi.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/utils/serialization_tuple.hh", "src/config/config_node.hh", "src/threaded/thread_pool.cc", "src/store/store.cc"],
 [("request/response protocol between rank 0 and workers", "src/worker_pool/mpi.cc, src/worker_pool/mpi_worker.cc"),
  ("configuration, packages and results serialised over MPI", "src/config/config_node.hh, src/utils/serialization_tuple.hh")],
 [("assigned_blocks", "packages outstanding per rank", "src/worker_pool/mpi.hh")],
 ["result files after exit of all ranks"])

prop("C04", "MPI runs always finish and respect the MPI contract",
 "An MPI job terminates on every rank within bounded time for any legal message timing and for any way of buffering sends, also when the invocation or configuration is rejected. "
 "It only calls MPI from each rank's initial thread, leaves no message unreceived and reaches finalisation on all ranks together, or aborts the whole job.",
 ["schedules", "configurations"], "All fair schedules and message timings; valid, rejected and help-only invocations; 1..4 ranks.",
 TESTS + "Deadlocks depend on message timing and on the MPI library's buffering, which one run on one machine does not vary.",
 ["src/executables/mpi.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc"],
 [("worker loop dispatches on message tags until shutdown", "src/worker_pool/mpi_worker.cc"), ("shutdown messages from the master's destructor", "src/worker_pool/mpi.cc")],
 [("cpu_idle_queue", "idle threads known to the master", "src/worker_pool/mpi.hh")],
 ["exit of every rank", "MPI call trace"])

prop("C05", "Kill and restart at any point: no package lost, none counted twice",
 "If threaded or MPI runs on the same configuration and output root are killed at arbitrary points (any number of times, also while saving or shutting down) and rerun until one exits successfully, merging the result directory gives exactly the true census. "
 "A package is skipped by a rerun only if its counts are already in the results.",
 ["crash_points", "schedules", "histories"], "Kill of the process (for MPI: of all ranks) at any instruction, lock, message or file operation of any run in a chain of runs; threaded and MPI runs mixed freely.",
 TESTS + "No test saves to files, kills a run or resumes one.",
 ["src/store/file_store.cc", "src/store/file_store.hh", "src/store/store.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/executables/merger.cc"],
 [("record file written second as witness of the store file", "src/store/file_store.cc save"), ("packages found in records are skipped on assignment", "src/worker_pool/standalone.cc assign")],
 [("initial_record", "packages already done", "src/store/file_store.hh")],
 ["result directory after each kill", "merged results at the end"])

prop("C06", "Power loss: recorded packages keep their counts on durable storage",
 "If the machine loses power at any point of a run, so that file data and directory changes not yet synced may be lost or cut short, then rerunning on what survived until success and merging gives exactly the true census. "
 "In particular no surviving record may refer to counts that did not reach durable storage.",
 ["crash_points", "histories"], "Power loss at any file-system operation or scheduling point; any subset allowed by POSIX of unsynced data and of a suffix of unsynced directory operations is lost.",
 TESTS + "No test can drop the page cache; the order in which unsynced files reach the disk is never under a test's control.",
 ["src/store/file_store.cc"],
 [("counts are written before the record that witnesses them", "src/store/file_store.cc save")],
 [], ["surviving result directory"])

prop("C07", "Failing or partial writes never turn into wrong results",
 "When creating, writing, flushing, renaming or closing a result file fails or is cut short during a run (disk full, I/O error, interrupted or short write, too many open files, missing directory), the run does not exit successfully unless all its results are completely saved. "
 "Whatever happened, rerunning after the fault has cleared until success and merging gives exactly the true census.",
 ["fault_sequences", "schedules"], "Any sequence of write-side file errors at any save of a threaded or MPI run.",
 TESTS + "Tests run on a healthy disk and never write result files.",
 ["src/store/file_store.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc"],
 [("save of store and record files", "src/store/file_store.cc save")], [], ["exit status", "result directory", "merged results after a rerun"])

prop("C08", "Failing or partial reads on resume never hang or double count",
 "When a run resumes and opening, listing or reading the existing records fails or returns data in small pieces, the run does not hang and does not recompute packages that are already recorded: it either resumes from the complete record or ends with a failure status. "
 "Rerunning after the fault has cleared until success and merging gives exactly the true census.",
 ["fault_sequences", "histories"], "Any sequence of open/list/read errors, short reads and interruptions while a run starts on a partly filled result directory.",
 TESTS + "No test reads record files at all.",
 ["src/store/file_store.cc", "src/config/config_node.hh"],
 [("records of earlier runs are read when a modulus starts", "src/store/file_store.cc FileStore constructor, extract")], [], ["exit status", "result directory"])

prop("C09", "At every instant, recorded packages and saved counts agree exactly",
 "At every instant of a threaded or MPI run, merging the files that are visible then yields counts that are exactly the contributions of the packages listed in the merged record, each listed once over all record files. "
 "A merger started at any time beside a running computation therefore sees an exact partial census or reports failure.",
 ["schedules", "crash_points"], "Every moment between two file operations of any schedule; merger runs interleaved with the computation at every operation.",
 TESTS + "A test looks at the end state only, not at each intermediate state of files and threads.",
 ["src/store/store.cc", "src/store/file_store.cc", "src/threaded/thread.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/executables/merger.cc"],
 [("package and its counts enter and leave the process-wide store under one lock", "src/store/store.cc flush_to_static_store/flush_static_store"), ("record written after the counts", "src/store/file_store.cc save")],
 [("static_record/static_store", "must always describe the same packages", "src/store/store.hh")],
 ["result directory after every file operation"])

prop("C10", "Existing results are immutable; a completed modulus is a no-op to rerun",
 "A run never changes, truncates, renames or removes a result file that existed when it started or that it has completed, even if the random file names collide. "
 "Rerunning a configuration on a complete result directory computes no package again and leaves the merged counts unchanged.",
 ["histories", "schedules"], "Chains of complete and interrupted runs; every sequence of values of the random source used for file names, including repeats.",
 TESTS + "File naming depends on a random source that tests cannot force to collide.",
 ["src/store/file_store.cc"],
 [("random names are checked against existing files", "src/store/file_store.cc new_filenames"), ("recorded packages are skipped", "src/store/file_store.hh contains")], [],
 ["file operations on existing files", "result directory before and after"])

prop("C11", "Finished work is saved at least every five minutes of hand-outs",
 "While a run keeps handing out packages, results of finished packages are saved whenever five minutes have passed since the last save: a package that was finished at some time is on disk before the second hand-out made five minutes or more after that time. "
 "Steps of the system's wall clock do not delay this.",
 ["schedules", "fault_sequences"], "All schedules, thread speeds and wall-clock jumps (forward and backward) of threaded and MPI runs lasting up to hours of simulated time.",
 TESTS + "No test runs for five minutes, and none can step the clock.",
 ["src/worker_pool/standalone.hh", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.hh", "src/worker_pool/mpi.cc"],
 [("delayed save on assignment", "src/worker_pool/standalone.hh and mpi.hh delayed_save_global_stores_to_file")],
 [("next_save_time", "when the next save is due", "src/worker_pool/standalone.hh")],
 ["file operations against simulated time"])

prop("C12", "Several moduli in one configuration stay separate",
 "With several moduli in one configuration, a successful threaded or MPI run leaves in each modulus's own result directory exactly that modulus's census, and no result of one modulus appears under another. "
 "This holds for every order of moduli, repeated or already completed moduli, and whatever work of the previous modulus was still in flight when the next one begins.",
 ["schedules", "configurations"], "All schedules around the switch from one modulus to the next; lists of 2..4 moduli with different fields, genera, count exponents and package sizes.",
 TESTS + "No test processes two moduli in one pool.",
 ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/threaded/thread.cc", "src/executables/threaded.cc", "src/executables/mpi.cc"],
 [("outstanding packages are awaited and saved before the next modulus is configured", "src/worker_pool/standalone.cc update_config"), ("a package carries the tables it must be processed with", "src/threaded/thread.cc assign")],
 [], ["result directories per modulus"])

prop("C13", "Merging conserves packages and counts exactly",
 "A successful merge outputs exactly the union of the recorded packages and, for every key, the sum of its counts over all recorded input files; files without a record are left out. "
 "This holds for every listing order, every split of the data over files, counts of any size, merges of merged files, and data delivered in arbitrarily small reads or writes.",
 ["inputs", "schedules", "histories"], "Any set of well-formed result files, any directory order, any chunking or interruption of reads and writes.",
 TESTS + "The merger is never run by a test; directory order and read chunking are outside a test's control.",
 ["src/executables/merger.cc", "src/store/store.cc", "src/store/store_data.hh", "src/store/curve_data.cc", "src/store/file_store.cc"],
 [("sums and unions while reading", "src/executables/merger.cc merge, src/store/store.cc extract")], [], ["merger output files", "exit status"])

prop("C14", "A failing or interrupted merge never passes for a complete one",
 "If reading an input or writing an output fails, is cut short or the merger is killed or loses power at any point, then either it has exited successfully with complete output, or no output record exists that goes with missing or incomplete counts. "
 "Inputs are never modified, and rerunning the merge afterwards gives the complete output.",
 ["fault_sequences", "crash_points"], "Any file error, short transfer, kill or power loss at any file operation of the merger, also when an older output is being replaced.",
 TESTS + "The merger is never run by a test, and no test injects I/O faults or kills.",
 ["src/executables/merger.cc", "src/store/file_store.cc", "src/store/store.cc"],
 [("record output is written second as witness of the store output", "src/executables/merger.cc merge")], [], ["exit status", "output files after fault, kill or power loss"])

prop("C15", "No data races between threads, and only live memory is used",
 "In threaded and MPI runs no two threads of a process access the same memory without a happens-before order between them when one access is a write; this includes accesses made by library functions (FLINT, C++ and C libraries) that are called on shared objects and to libraries' static memory. "
 "No run, merges included, accesses memory that was freed or lies outside any object, or crashes from memory corruption. This includes start-up, change of modulus, intermediate saves and shutdown.",
 ["schedules"], "All interleavings at the granularity of single memory accesses of runs with 1..17 threads.",
 TESTS + "No stable test starts a thread.",
 ["src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/store/store.cc", "src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc"],
 [("locks of the pool, of each thread and of the process-wide store", "src/threaded/thread.cc, src/threaded/thread_pool.cc, src/store/store.cc")],
 [("data_mutex, static_mutex", "locks protecting the shared state", "src/threaded/thread.hh, src/threaded/thread_pool.hh, src/store/store.hh")],
 ["every memory access of the real code (compiler instrumentation)"])

prop("C16", "Exhausted memory or threads fail loudly, never with wrong results",
 "If a memory allocation or the creation of a thread fails at any point of a computing run or of a merge, the program either still delivers exact results or ends with a failure status. "
 "After any such failure, rerunning with resources available until success and merging gives exactly the true census.",
 ["fault_sequences", "schedules"], "Failure of any single allocation or thread creation (or of every one from some point on) in threaded, MPI and merger runs.",
 TESTS + "Tests never run out of memory or threads.",
 ["src/store/store.cc", "src/store/file_store.cc", "src/threaded/thread_pool.cc", "src/executables/merger.cc"],
 [("exceptions end the process before anything wrong is recorded", "src/store/store.cc flush_static_store, src/store/file_store.cc save")], [], ["exit status", "result directory", "merged results after a rerun"])

prop("C22", "All working threads share the work: n of them take about 1/n of the time",
 "A run with n working threads (threads of one process, one or more on each of several ranks; as many as requested, by default as the machine has processors) keeps all of them at work as long as packages are left: with many more packages than threads, equal speeds and fair scheduling, it takes about one n-th of the time that one thread takes. "
 "This includes all of the run: after intermediate saves, after a change of modulus, and when it resumes earlier results.",
 ["schedules", "histories", "configurations"], "Fair schedules in which every working thread has its own processor, numbers of threads and ranks, message delays, saves, earlier results.",
 TESTS + "How long all threads stay at work shows only over whole runs under a controlled clock; no test starts the pool.",
 ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/threaded/thread_pool.cc", "src/threaded/thread.cc"],
 [("threads that finished a package become ready, are counted and given another one", "src/threaded/thread_pool.cc finished_block, flush_ready_threads; src/worker_pool/standalone.cc and mpi.cc fill_idle_queues"),
  ("number of threads from the processors", "src/threaded/thread_pool.cc spark_threads")],
 [("ready_threads, idle_threads, busy_threads", "which threads can be given a package", "src/threaded/thread_pool.hh"), ("nmb_cpu_idle, cpu_idle_queue", "idle threads as the master counts them", "src/worker_pool/standalone.hh, mpi.hh")], ["time to exit"])

# ---- not claimed: pure functions or code that cannot be built here --------------------------------
prop("C17", "All counting implementations agree with the true point counts of a curve",
 "For every squarefree right-hand side over a supported field, each counting implementation reports the true numbers of unramified and ramified points over every requested extension, and the derived Hasse-Weil offsets and ramification type are correct.",
 ["inputs"], "All curves and all extensions.", "Tests check two curves.",
 ["src/curve.cc", "src/reduction_table.cc", "src/fq_element_table.cc", "src/single_curve_fp.cc"],
 [("Zech-logarithm evaluation", "src/curve.cc count_cpu")], [], ["hycu-single output"])
prop("C18", "Package iteration partitions the enumerated family",
 "For every admissible description of blocks, sets and dependent sets and every package size, the packages produced are disjoint and their union is the described set of positions.",
 ["inputs"], "All descriptions and package sizes.", "Tests check six small descriptions.",
 ["src/block_iterator.cc", "src/curve_iterator.cc"], [("mixed-radix stepping", "src/block_iterator.cc step_")], [], ["packages produced"])
prop("C19", "Printed result lines parse back to the same key and count",
 "For every key and count, the text written to a result file is read back as the same key and count, and every package written to a record is read back as the same package.",
 ["inputs"], "All keys, counts and packages.", "No test covers the text formats.",
 ["src/store/curve_data.cc", "src/store/store_data.cc", "src/store/file_store.cc"], [("stream operators", "src/store/curve_data.cc")], [], ["text"])
prop("C20", "Documented configurations are accepted and mean what they say",
 "Every configuration following the documentation is accepted with the documented defaults, invalid ones are rejected with a message and a failure status, and a configuration survives YAML and message serialisation unchanged.",
 ["inputs"], "All configuration files.", "No test covers configuration.",
 ["src/config/config_node.cc", "src/config/config_node.hh", "src/executables/threaded.cc", "src/executables/mpi.cc"], [("YAML conversion", "src/config/config_node.cc")], [], ["exit status", "echoed configuration"])
prop("C21", "GPU and CPU threads produce the same counts and share work correctly",
 "With OpenCL enabled, packages processed by GPU-backed threads contribute the same counts as on CPU threads, and mixed scheduling hands GPU packages only to GPU-backed threads.",
 ["schedules", "inputs"], "All work-item and queue schedules.", "The OpenCL code is not compiled by any test.",
 ["src/opencl/kernel_evaluation.cc", "src/opencl/kernel_reduction.cc", "src/opencl/evaluation.cl", "src/opencl/reduction.cl", "src/threaded/thread_pool.cc"],
 [("kernels and reduction", "src/opencl")], [], ["counts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
