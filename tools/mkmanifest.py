"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over schedules and faults; "
N = ("Seeded sampling, not enumeration: a quiet run is evidence over the executions it simulated. Real code: the whole program from /repo with its libraries; simulated: scheduler, clocks, sleeps, MPI transport, disk faults and durability, "
     "random_device, allocation failures. Preemption at every synchronisation and file operation and at sampled memory accesses of /repo's code (not inside FLINT, Boost, yaml-cpp binaries); sequentially consistent memory. ")
C = {
 "C01": ("census of simulated threaded runs against an independent reference table", "Trusts ref/tables (made by ref/refgen.cc, which shares no code with /repo); configurations up to some 10^5 curves."),
 "C02": ("deadlock and bounded-progress detection over hostile schedules of threaded runs", "Liveness as: ends within a bound of simulated time and steps once stalls are over."),
 "C03": ("census of simulated MPI jobs against an independent reference table", "Point-to-point messages stay ordered per sender and tag, as MPI guarantees."),
 "C04": ("deadlock, progress and MPI-protocol checks over schedules, delays and rendezvous of MPI jobs, and rejected invocations", "MPI is modelled at the C API: eager or rendezvous per message, arbitrary delays, funneled thread level."),
 "C05": ("kill at arbitrary points and inside file operations, then restart, against the reference census", "Kill of the process or of one rank; files as the kernel has them."),
 "C06": ("power loss with a model of what was synced, then restart, against the reference census", "Durability model: data and directory entries survive for certain only when synced; ordered or unordered loss otherwise."),
 "C07": ("write-side disk errors, short writes, full disks; success must mean complete results", "Errors are injected at the system-call seam."),
 "C08": ("read-side disk errors while resuming; never a wrong census", "Errors are injected at the system-call seam; a failing stat may not claim that an existing file does not exist."),
 "C09": ("the result directory is checked at every instant between two file operations of simulated runs", "Instants are the boundaries of file operations."),
 "C10": ("long histories of runs, kills and faults: nothing published is changed, lost or computed again", "Runs on one directory do not overlap."),
 "C11": ("saves against simulated time under wall-clock jumps", "Compute speed uniform per thread and a fair scheduler."),
 "C12": ("several moduli per configuration, with work in flight between them, against reference tables", ""),
 "C13": ("merger runs against a small reference model of merging, under directory orders and short reads", "Inputs are disjoint results in hycu's own formats."),
 "C14": ("merger under I/O faults, kills and power loss", "As C06 and C07."),
 "C15": ("happens-before race detection over simulated schedules", "Accesses made by /repo's code (compiler instrumentation); locks and thread operations give the order."),
 "C16": ("allocation failures and thread-creation failures at drawn points", "Allocations through malloc; a process that aborts has failed visibly."),
 "C22": ("time of simulated runs with several working threads against one, every working thread on its own processor", "Uniform speed, fair schedule; one idle thread of up to four shows, shorter idle times do not."),
}
NA = {
 "C17": "A pure function of the curve: no schedule, clock, I/O, randomness or second party takes part in it, so simulation has nothing to decide. (C01 and C03 compare whole censuses with reference tables.)",
 "C18": "A pure function of the block description and package size, without schedule, time or I/O.",
 "C19": "A pure round trip of text formats, without schedule, time or faults. (Faults while reading and writing these files are C07, C08, C13, C14.)",
 "C20": "A pure function of the configuration text; no schedule, time or fault enters. (C04 runs rejected configurations as MPI jobs.)",
 "C21": "The OpenCL code cannot be built or run here (no OpenCL headers, library or device), so no simulated run can execute it.",
}
checks = [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
           "evidence_file": "evidence/%s.json" % p, "technique": T + t, "level": "exploration", "level_note": N + n} for p, (t, n) in sorted(C.items())]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "One simulator (sim/), one driver (tools/check.py), one workload and oracle per property (tools/props.py). See DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
