# One entry per claimed property.
REAL_COMMON = ["rofl common library sources from /repo's working tree", "libstdc++", "boost headers"]
FAULT_STUB = ["operator new/delete and malloc (failure injection in front of the real allocator)"]
A_FAULT = ["AddressSanitizer, the step counter and the reference model in the scenario are trusted",
           "allocation failure is delivered as std::bad_alloc from operator new (or a null malloc)"]
HIST = ("A case is one simulated run: a seeded random history of library calls with the faults armed on each call; "
        "it is non-trivial when at least one injected fault actually fired (or, where the property is about histories, when it made more than one library call); "
        "distinct by the hash of the recorded observable history and schedule.")

CHECKS = {
    "C01": dict(mode="fault", scen=["c01_stream.cpp"], runs=dict(quick=48000, thorough=960000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=["the input stream's buffer (delivers seeded chunks, fails at a seeded byte)"], assume=A_FAULT),
    "C02": dict(mode="fault", scen=["c02_file.cpp"], runs=dict(quick=48000, thorough=960000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["libstdc++ file streams", "the kernel's file system under a private scratch directory"],
        stub=["open/read/write/writev/close entry points (pass-through plus injected errors, short transfers, ENOSPC, process death after N bytes)"], assume=A_FAULT),
    "C03": dict(mode="fault", scen=["c03_store.cpp"], runs=dict(quick=32000, thorough=640000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C04": dict(mode="fault", scen=["c04_tilde.cpp"], runs=dict(quick=48000, thorough=960000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB + ["HOME in the process environment (set, emptied, removed by the plan)"], assume=A_FAULT),
    "C08": dict(mode="fault", scen=["c08_listing.cpp"], runs=dict(quick=24000, thorough=480000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["libstdc++ filesystem library", "the kernel's file system under a private scratch directory"],
        stub=FAULT_STUB + ["directory open/read/stat entry points (order permuted, entry types hidden, errors injected, files created and deleted between entries)"], assume=A_FAULT),
    "C09": dict(mode="fault", scen=["c09_heap.cpp"], runs=dict(quick=48000, thorough=960000), nontrivial="ops",
        rule=HIST, real=["rofl::MinMaxHeap template from /repo", "libstdc++"], stub=FAULT_STUB + ["element type and comparator supplied by the harness (copy may throw on command)"],
        assume=A_FAULT),
    "C10": dict(mode="fault", scen=["c10_dsu.cpp"], runs=dict(quick=32000, thorough=640000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C11": dict(mode="fault", scen=["c11_label.cpp"], runs=dict(quick=40000, thorough=800000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C12": dict(mode="fault", scen=["c12_grid.cpp"], runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C13": dict(mode="fault", scen=["c13_morton.cpp"], runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C14": dict(mode="fault", scen=["c14_hough.cpp"], geometry=True, runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers"], stub=FAULT_STUB + ["point converter supplied by the harness (throws on command)"], assume=A_FAULT),
    "C15": dict(mode="fault", scen=["c15_assoc.cpp"], geometry=True, runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers"], stub=FAULT_STUB + ["distance functor supplied by the harness (throws on command)"], assume=A_FAULT),
    "C19": dict(mode="fault", scen=["c19_peaks.cpp"], runs=dict(quick=24000, thorough=480000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB + ["value function supplied by the harness (throws on command)"], assume=A_FAULT),
    "C20": dict(mode="fault", scen=["c20_planes.cpp"], geometry=True, runs=dict(quick=24000, thorough=480000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers"], stub=FAULT_STUB + ["point converter supplied by the harness (throws on command)"], assume=A_FAULT),
    "C21": dict(mode="fault", scen=["c21_lines.cpp"], geometry=True, runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers"], stub=FAULT_STUB, assume=A_FAULT),
    "C22": dict(mode="fault", scen=["c22_aligner.cpp"], pcl=True, runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=["rofl::PointCloudPlaneAligner template from /repo", "PCL headers (point clouds and their transformation)", "Eigen headers"], stub=FAULT_STUB, assume=A_FAULT),
    "C23": dict(mode="fault", scen=["c23_box.cpp"], geometry=True, runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=["rofl::BoxRegistration template from /repo", "Eigen headers"], stub=FAULT_STUB + ["association overridden by the harness (throws on command, otherwise the library's own)"], assume=A_FAULT),
    "C24": dict(mode="fault", scen=["c24_mortonf.cpp"], runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C25": dict(mode="fault", scen=["c25_interval.cpp"], runs=dict(quick=48000, thorough=960000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
    "C26": dict(mode="fault", scen=["c26_consensus.cpp"], runs=dict(quick=36000, thorough=720000), nontrivial="ops",
        rule=HIST, real=["rofl::estimateTranslationTls template from /repo", "libstdc++"], stub=FAULT_STUB, assume=A_FAULT),
    "C27": dict(mode="fault", scen=["c27_misuse.cpp", "c27_table.cpp"], geometry=True, runs=dict(quick=16000, thorough=320000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers"], stub=FAULT_STUB + ["process end: each judged call is made in a process of its own and the way it ends is recorded"], assume=A_FAULT),
    "C16": dict(mode="fault", scen=["c16_lut.cpp"], runs=dict(quick=12000, thorough=240000), nontrivial="ops",
        rule=HIST, real=REAL_COMMON, stub=FAULT_STUB, assume=A_FAULT),
}

SCHED_STUB = ["thread scheduler (real threads, one at a time, preempted where the plan says)", "pthread mutexes, rwlocks, conditions, once and static-initialisation guards (simulated)",
              "wall and monotonic clocks (virtual)", "operator new/delete and malloc (failure injection in front of the real allocator)"]
A_SCHED = ["interleavings are sequentially consistent; weak-memory reorderings are covered only by the happens-before race detector",
           "events are instrumented accesses, function entries, allocations, lock operations and clock readings of the library and the header templates it instantiates; code inside libc/libstdc++ shared objects runs between events"]
SCH = ("A case is one simulated run: seeded calls of several threads with seeded preemption points, clock changes and allocation failures; "
       "it is non-trivial when at least one preemption or fault actually took effect; distinct by the hash of the recorded history and of the sequence of thread switches.")
CHECKS.update({
    "C05": dict(mode="sched", scen=["c05_profiler.cpp"], runs=dict(quick=72000, thorough=1440000),
        rule=SCH, real=REAL_COMMON, stub=SCHED_STUB, assume=A_SCHED),
    "C07": dict(mode="sched", scen=["c07_stamp.cpp"], runs=dict(quick=96000, thorough=1920000),
        rule=SCH, real=REAL_COMMON + ["glibc time-zone conversion"], stub=SCHED_STUB + ["localtime/gmtime (same conversion, static result visible to the race detector)", "TZ in the process environment"], assume=A_SCHED),
    "C06": dict(mode="sched", scen=["c06_timer.cpp"], runs=dict(quick=120000, thorough=2400000),
        rule=SCH, real=REAL_COMMON, stub=SCHED_STUB, assume=A_SCHED),
    "C18": dict(mode="sched", scen=["c18_readers.cpp", "c18_geom.cpp", "c18_common.cpp"], geometry=True, runs=dict(quick=48000, thorough=960000),
        rule=SCH, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers", "boost headers"], stub=SCHED_STUB, assume=A_SCHED),
    "C17": dict(mode="sched", scen=["c17_isolation.cpp", "c17_box2.cpp", "c17_box3.cpp", "c17_geom.cpp", "c17_common.cpp"], geometry=True, runs=dict(quick=48000, thorough=960000),
        rule=SCH, real=REAL_COMMON + ["rofl geometry library sources", "Eigen headers", "boost headers"], stub=SCHED_STUB, assume=A_SCHED),
})

SAMPLED = ("Seeded sampling, not exhaustive: %s. A clean result means no violation in the runs counted in the evidence; every reported one replays exactly from its file. "
           "Trusts the reference model in scen/%s, the fault seams in sim/, and AddressSanitizer for memory safety.")
for _id, _w in dict(
    C01="random texts, deliveries and stream failures through a real std::istream over a simulated buffer",
    C02="random stores and save/load sequences through real file streams, with failing, short and interrupted system calls and process death after any byte",
    C03="random histories on several stores against a reference map, with any allocation failing",
    C04="random stores and environments, with any allocation failing",
    C08="random directories on the real file system with permuted enumeration, hidden types, injected errors and concurrent creation and deletion",
    C09="random push/pop histories of several element types and orders against a sorted multiset, with failing allocations and copies",
    C10="random histories against a reference partition, with invalid identifiers and failing allocations",
    C11="random histories over a family of sets against std::set, with failing allocations",
    C12="random initialisation and access histories in 1 to 3 dimensions against a reference map, with failing allocations and copies",
    C13="random insertion, sort, copy and query histories of integer trees against an exact Morton comparison, with failing allocations and conversions",
    C14="random histories of detectors against the sum of single-point contributions, with failing allocations and conversions",
    C15="random item sets and histories against exhaustive search of the maximum cliques, with failing allocations and distance functions",
    C20="random ranges, windows, point sets and searches against the definition of the strongest directions and planes and a new detector in a fresh process, with failing allocations and conversions",
    C21="random ranges, windows, point sets and searches against the sum of single-point contributions and the definition of the strongest directions and lines, with failing allocations",
    C22="random planes, clouds, tolerances and histories against the definition of the aligned frame and a new aligner, some in a fresh process, with failing allocations",
    C23="random boxes, clouds and histories of starts, steps and queries against the definition of the nearest point, the exact least-squares motion and descent from step to step, with failing allocations and associations",
    C24="random insertion, sort, copy and query histories of floating-point trees with coordinates from 1e-30 to 1e30 in magnitude against an exact Morton comparison and the total order, with failing allocations and conversions",
    C27="random histories of six kinds of object with failing allocations, and requests within and beyond what they hold, each made in a process of its own whose end is recorded",
    C25="random histories of intervals in 1 to 4 dimensions and of iterators stepped back and forth, against the set of cells they denote, with failing allocations",
    C26="random sample sets, reused and stale outputs against the consensus sets enumerated from the definition and a new process, with failing allocations",
    C19="random settings and searches in 1 to 3 dimensions against the definition of a peak and a newly configured finder, some in a fresh process, with failing allocations and value functions",
    C16="random histories of tables against freshly built ones in a fresh process, with failing allocations",
).items():
    CHECKS[_id]["note"] = SAMPLED % (_w, CHECKS[_id]["scen"][0])
SAMPLED_S = ("Seeded sampling of interleavings, not exhaustive: %s. A clean result means no violation in the runs counted in the evidence; every reported one replays exactly from its file. "
             "Trusts the oracle in scen/%s and the scheduler and race detector in sim/sched.cpp; interleavings are sequentially consistent, data races are found by happens-before.")
for _id, _w in dict(
    C05="up to 4 threads recording and printing, preempted at any instrumented access, with failing allocations, against exact statistics",
    C07="up to 4 threads asking for names over clocks that stall and jump inside the call, in 10 time zones, with failing allocations",
    C18="13 kinds of objects queried through their const operations by up to 4 threads, each answer compared with a single reader's in a fresh process",
    C17="a catalogue of 33 kinds of library computations covering every public header, in up to 4 threads, each compared with the same call in a fresh process",
    C06="timers in up to 3 threads, nested, left normally or by exception, over virtual clocks that stall and jump, with failing allocations",
).items():
    CHECKS[_id]["note"] = SAMPLED_S % (_w, CHECKS[_id]["scen"][0])
