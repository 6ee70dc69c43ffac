"""Which campaigns decide which property, and what the evidence says about them."""
TRV = "Triumvirate C++ library (all of src/triumvirate/src, compiled from the current tree with memory-access call-outs)"
FFTWGSL = "FFTW and GSL (system libraries; calls on GSL splines and accelerators are announced to the scheduler as memory accesses)"
OMPSTUB = "OpenMP runtime (libgomp) replaced by the simulator's cooperative scheduler"
HEAP = "heap (operator new/delete, fftw_malloc) replaced by the simulated heap"
PLAN = "FFTW planner search replaced by a seeded choice among real plans"
SC = "sequentially consistent memory: weak-memory reorderings are not simulated; torn or lost updates are"


def nat(name, weight=1, **kw):
    return dict(kind="native", name=name, weight=weight, **kw)


def py(name, weight=1, **kw):
    return dict(kind="python", name=name, weight=weight, **kw)


SCHED_RULE = ("one evaluation is one simulated execution of a seeded workload under a seeded schedule, compared with the "
              "one-thread execution of the same workload; non-trivial means at least one scheduling decision differed from "
              "run-to-completion order; distinct means different hashes of (workload seed, decision sequence)")
FAULT_RULE = ("one evaluation is one simulated run (or sequence of runs) of the program under one seeded fault sequence; non-trivial means at least one "
              "fault took effect; distinct means different values of the stated measure")
PROG = "the Triumvirate command-line program (main and library, compiled from the current tree)"
FS = "file system replaced by an in-memory one with a durable and a volatile image"
CLOCK = "clocks replaced by simulated monotonic and wall clocks"
LEVEL = "exploration"
NOTE = ("Seeded search: every violation is a concrete repeatable execution of the code built from the current tree; absence of "
        "violations covers only the executions explored (counted in the evidence). Trusts the simulator's seams and the stated oracle.")
PURE = ("a pure function of its arguments: no schedule, clock, I/O, crash or multi-party behaviour takes part in it, so simulation "
        "with fault injection has nothing to vary; ")
PYPKG = "Triumvirate Python package (built from the current tree, with its C++ backend) and NumPy/SciPy"
PYNOTE = "seeded search over simulated executions of the Python package in one process; not exhaustive"
NOT_APPLICABLE = {
    "C50": PURE + "it needs algebraic comparison with published formulae, not seeded schedules or faults.",
    "C51": PURE + "it is a numerical-accuracy statement (C16 covers the history, planner, heap and schedule behaviour of the transforms).",
    "C52": PURE + "bin construction is deterministic arithmetic on a few parameters.",
    "C53": PURE + "identities of special functions evaluated by GSL.",
    "C54": PURE + "domain of a validation function (C10 covers loading under read faults).",
    "C55": PURE + "a statistical statement about estimators over ensembles of catalogues, with no fault or schedule in it.",
    "C56": PURE + "array helper definitions (their memory safety within transforms is part of C16).",
}
CAMPAIGNS = {
    "C01": dict(technique="deterministic simulation of OpenMP threads: seeded schedules over instrumented memory accesses, differential oracle", note=NOTE, campaigns=[nat("omp2", 6), nat("progsched2", 2)], secs=(55, 780), rule=SCHED_RULE,
                measure="distinct decision sequences (step, thread)", real=[TRV, FFTWGSL], stub=[OMPSTUB, HEAP, PLAN],
                assumptions=[SC, "at most 72 threads, meshes up to 24^3, up to about 1000 particles"]),
    "C02": dict(technique="deterministic simulation of OpenMP threads: seeded schedules over instrumented memory accesses, differential oracle", note=NOTE, campaigns=[nat("omp3", 6), nat("progsched3", 2)], secs=(55, 780), rule=SCHED_RULE,
                measure="distinct decision sequences (step, thread)", real=[TRV, FFTWGSL], stub=[OMPSTUB, HEAP, PLAN],
                assumptions=[SC, "at most 72 threads, meshes up to 10^3, up to about 150 particles"]),
    "C03": dict(technique="deterministic simulation of OpenMP threads: seeded schedules over instrumented memory accesses; brute-force deposit reference model", note=NOTE, campaigns=[nat("mesh")], secs=(50, 780), rule=SCHED_RULE,
                measure="distinct decision sequences (step, thread)", real=[TRV, FFTWGSL], stub=[OMPSTUB, HEAP, PLAN],
                assumptions=[SC, "at most 72 threads, meshes up to 16^3, up to 800 particles", "ties of the nearest-grid-point rule are not generated; the Nyquist convention of odd meshes is not judged"]),
    "C04": dict(technique="deterministic simulation of OpenMP threads: seeded schedules over instrumented memory accesses; enumeration reference model and simulated file system", note=NOTE, campaigns=[nat("binvec")], secs=(50, 780), rule=SCHED_RULE,
                measure="distinct decision sequences (step, thread)", real=[TRV, FFTWGSL], stub=[OMPSTUB, HEAP, PLAN, "file system replaced by an in-memory one"],
                assumptions=[SC, "at most 72 threads", "vectors within 1e-10 of a bin edge may fall on either side"]),
    "C05": dict(technique="deterministic simulation of OpenMP threads: seeded schedules over instrumented memory accesses; sequential per-particle reference model", note=NOTE, campaigns=[nat("catops")], secs=(50, 780), rule=SCHED_RULE,
                measure="distinct decision sequences (step, thread)", real=[TRV], stub=[OMPSTUB, HEAP],
                assumptions=[SC, "at most 72 threads, up to 1200 particles, sequences of up to 9 operations", "a wrapped coordinate may equal the box size (rounding)"]),
    "C06": dict(technique="deterministic simulation with fault injection: wisdom-file states, I/O faults and crashes on wisdom files, seeded planner choices and array scribbling; differential oracle", note=NOTE, campaigns=[nat("wisdom", 5), nat("planner", 3)], secs=(55, 780), rule=FAULT_RULE,
                measure="distinct (workload, wisdom state, fault sequence, planner seed)", real=[PROG, FFTWGSL], stub=[OMPSTUB, HEAP, FS, CLOCK, PLAN],
                assumptions=["failures to create the wisdom directory itself are not injected here (C07 does)", "plan choice is simulated by a seeded choice among real FFTW plans"]),
    "C07": dict(technique="deterministic simulation with fault injection of the whole program: seeded I/O and allocation faults on an in-memory file system and heap; differential oracle against the fault-free run", note=NOTE, campaigns=[nat("progfault")], secs=(55, 780), rule=FAULT_RULE,
                measure="distinct (workload, fault sequence, exit status)", real=[PROG, FFTWGSL], stub=[OMPSTUB, HEAP, FS, CLOCK],
                assumptions=["injected read faults are ones the system reports (failed, short or interrupted calls); silently altered data is not injected here", "an allocation that fails inside a parallel region may abort the program", "HDF5 support is not built"]),
    "C08": dict(technique="deterministic simulation with fault injection: seeded file contents, file changes and read and allocation faults on an in-memory file system; independent parser as reference model", note=NOTE, campaigns=[nat("catload")], secs=(50, 780), rule=FAULT_RULE,
                measure="distinct (file set, file changes, fault sequence)", real=[TRV], stub=[OMPSTUB, HEAP, FS, CLOCK],
                assumptions=["hexadecimal and underflowing numbers are not judged", "silently altered reads are not injected (the file itself is altered instead)", "HDF5 support is not built"]),
    "C09": dict(technique="deterministic simulation with fault injection of the whole program: seeded crash points and loss of unsynced file data, restart, differential oracle", note=NOTE, campaigns=[nat("progcrash")], secs=(50, 780), rule=FAULT_RULE,
                measure="distinct file-system contents after the crashes", real=[PROG, FFTWGSL], stub=[OMPSTUB, HEAP, FS, CLOCK],
                assumptions=["one thread", "crash states: nothing lost, unsynced data lost, torn or zero-filled, or unsynced creations lost", "content of wisdom files is judged by the later run's results only"]),
    "C10": dict(technique="deterministic simulation with fault injection: seeded parameter files, file damage and I/O and allocation faults on an in-memory file system; independent parser as reference model and print-reload round trip", note=NOTE, campaigns=[nat("params")], secs=(50, 780), rule=FAULT_RULE,
                measure="distinct (parameter file, damage, fault sequence)", real=[TRV], stub=[OMPSTUB, HEAP, FS, CLOCK],
                assumptions=["derivations made by validation are the library's own (loading, printing and copying are what is judged)", "a directory name containing the file-name delimiter '::' and an empty file name in a list are not generated", "parameter sets containing null characters are not printed and reloaded", "duplicate slashes in paths are not significant"]),
    "C11": dict(technique="deterministic simulation with fault injection: seeded histories of measurements, field objects and program runs with allocation and I/O failures on a simulated heap and file system; heap, plan and file ledgers and fresh-run reference", note=NOTE, campaigns=[nat("resources", 4), nat("progres", 2), nat("fieldmem", 2)], secs=(55, 780), rule="one evaluation is one simulated history of calls (or one program run) whose resource ledgers and results are judged after every step; non-trivial means it had several steps, a fault or several threads; distinct means different values of the stated measure",
                measure="distinct (workloads, history, failures)", real=[TRV, PROG, FFTWGSL], stub=[OMPSTUB, HEAP, FS, CLOCK, PLAN],
                assumptions=["what a call that fails leaves allocated is not judged, only that nothing is released twice and later calls are unaffected", "memory inside FFTW and GSL is not tracked (plans are)", "an allocation that fails inside a parallel region may abort the program"]),
    "C12": dict(technique="deterministic simulation with fault injection: ranks of a simulated MPI communicator under seeded rank schedules, message timings and rank failures; differential oracle against the serial computation", note=PYNOTE, campaigns=[py("mpi")], secs=(50, 780), rule="one evaluation is one simulated run of all ranks under one seeded schedule; non-trivial means more than one rank or an injected failure; distinct means different hashes of the sequence of rank switches and collective entries",
                measure="distinct sequences of rank switches and collective entries", real=[PYPKG], stub=["MPI communicator replaced by a simulated one", "in three quarters of the cases the convolution itself is replaced by a quick function giving every basis vector and output element a value of its own"],
                assumptions=["at most 45 ranks and 108 tasks", "when a rank fails, ranks waiting for it are taken to be aborted, as MPI does by default", "the parts received need not arrive in rank order"]),
    "C13": dict(technique="deterministic simulation with fault injection: seeded open, write, close, rename and read faults, full disks and crashes under Python's file objects during saves and loads; files compared with in-memory results and reference text", note=PYNOTE, campaigns=[py("save")], secs=(50, 780), rule="one evaluation is one simulated history of saves and loads under one seeded fault sequence; non-trivial means at least one fault took effect; distinct means different values of the stated measure",
                measure="distinct (workload, fault sequence)", real=[PYPKG], stub=["files below the scratch directory: opens, reads, writes, closes, renames and syncs made in Python pass through the simulated layer before reaching a real directory"],
                assumptions=["I/O made inside C extensions on paths of their own is not intercepted (the package makes none when saving)", "after a crash nothing of the unwritten buffers survives; the files left behind are not judged", "a failed save may leave a partial file"]),
    "C14": dict(technique="deterministic simulation with fault injection: seeded histories of Python API calls over shared objects with failures injected at API boundaries; differential oracle against a fresh process state, snapshots of every argument", note=PYNOTE, campaigns=[py("history")], secs=(50, 780), rule="one evaluation is one simulated history of API calls over shared objects, each result compared with that of fresh objects; non-trivial means several calls or a failed call in the history; distinct means different values of the stated measure",
                measure="distinct (objects, history, failures)", real=[PYPKG], stub=["failures injected by unusable arguments, an address-space limit (allocations fail) and an exception raised at a seeded line of the package (interrupt)"],
                assumptions=["catalogues up to a few hundred particles, meshes up to 16^3", "one OpenMP thread (C01 and C02 cover threads)"]),
    "C15": dict(technique="deterministic simulation of Python threads: seeded scheduler choosing the running thread at every bytecode, with simulated locks; differential oracle against sequential execution", note=PYNOTE, campaigns=[py("threads")], secs=(50, 780), rule="one evaluation is one simulated run of 2 to 4 client threads under one seeded schedule, compared with the same calls made one after another; non-trivial means more than one switch between threads inside library code; distinct means different hashes of the switch sequence",
                measure="distinct sequences of thread switches", real=[PYPKG], stub=["Python thread scheduling replaced by a cooperative scheduler switching between bytecodes of the package; threading locks replaced by simulated ones"],
                assumptions=["native calls are atomic (they hold the interpreter lock; none releases it in this package)", "switches inside NumPy, SciPy and the standard library are not simulated"]),
    "C16": dict(technique="deterministic simulation with fault injection: seeded histories of operations on reused objects under heap garbage, allocation faults, planner variation and thread schedules; differential oracle against fresh objects", note=NOTE, campaigns=[nat("fftlog", 3), nat("fieldhist", 3), py("pytrans", 2)], secs=(50, 780), rule="one evaluation is one simulated history of operations on reused objects, each result compared with that of a fresh object on a fresh heap; non-trivial means a fault, a re-initialisation, heap garbage or a schedule deviation took effect; distinct means different values of the stated measure",
                measure="distinct (workload, history, schedule)", real=[TRV, FFTWGSL, PYPKG + " (campaign pytrans)"], stub=[OMPSTUB, HEAP, PLAN, "in the campaign pytrans: real OpenMP, heap and planner; array scribbling between calls"],
                assumptions=[SC, "transforms up to 1024 points, meshes up to 10^3", "transform outputs agree to 1e-9 of the largest sample"]),
    "C17": dict(technique="deterministic simulation with fault injection of the whole program: seeded clock jumps and stalls at arbitrary clock reads; differential oracle", note=NOTE, campaigns=[nat("progclock", 4), py("pyclock", 4)], secs=(50, 780), rule=FAULT_RULE,
                measure="distinct (workload, jump sequence)", real=[PROG, FFTWGSL, PYPKG + " (campaign pyclock)"], stub=[OMPSTUB, HEAP, FS, CLOCK, "in the campaign pyclock: clock_gettime, time and gettimeofday of the process replaced by a simulated clock"],
                assumptions=["one thread", "the monotonic clock never goes backward"]),
}
