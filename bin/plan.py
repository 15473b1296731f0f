"""Search budgets and what the evidence says about each check."""
QUICK_CAP = 75
THOROUGH_CAP = 600
THOROUGH_FACTOR = 40

REAL = ["signal_tl core: signal.cc, ast.cc and all public headers, compiled from /repo's working tree",
        "signal_tl parser: parser.cc, grammar.hpp, actions.hpp with the real PEGTL headers",
        "signal_tl robust_semantics: classic_robustness.cc, minmax.cc, mono_wedge.h",
        "libstdc++ containers, strings, shared_ptr, iostreams (templates instantiated and instrumented; the rest from libstdc++.so)",
        "fmt (shared library)", "the kernel's file system for file contents (a private scratch directory)"]
STUBS = ["thread scheduler (one runnable thread at a time, chosen by the simulator at memory accesses)",
         "pthread mutexes, condition variables, rwlocks, once, static-initialisation guards",
         "heap (operator new/malloc inside library calls): placement, reuse, fill patterns, exhaustion",
         "results of open/fstat/mmap/read/close on simulated files (fault layer in front of the kernel)",
         "clocks, sleep, locale, errno noise", "sensor network, journal and monitor process of C11"]
ASSUMPTIONS = ["sequentially consistent interleavings of instrumented memory accesses; weaker orders appear only as races",
               "memory accesses inside uninstrumented shared libraries are seen only through intercepted functions (mem*, str*, red-black-tree and list helpers)",
               "x86-64, gcc 13, NDEBUG",
               "a clean batch is sampled evidence, not proof"]

def _r(what):
    return ("one case = one simulated execution (a forked process run from one seed; `evaluations` also counts the fresh-process "
            "re-executions used as oracle and the determinism re-runs); cases are drawn by a seeded generator: " + what +
            "; distinct = distinct hash of workload and schedule (or event log)")

PLAN = {
 "C01": dict(runs=30000, rule=_r("2-4 threads evaluating 1-4 formulas over shared traces under one of several scheduling strategies")),
 "C02": dict(runs=45000, rule=_r("2-4 threads building, combining, negating, copying, printing and dropping formulas of a shared pool, with allocation failures")),
 "C03": dict(runs=30000, rule=_r("2-4 threads parsing generated and damaged specifications from memory and from files")),
 "C04": dict(runs=250000, rule=_r("histories of appends, copies and reads over a set of signals, with stale, equal, infinite and NaN times and allocation failures")),
 "C05": dict(runs=45000, rule=_r("loads of a specification file under I/O faults, allocation failure and atomic replacement or unlinking at any I/O event")),
 "C06": dict(runs=45000, rule=_r("a writer creating, rewriting or replacing specification files, crashing at any byte, with lost or zero-filled tails")),
 "C07": dict(runs=80000, rule=_r("one generated library call with every (or a sample of every) allocation failing once or from there on")),
 "C08": dict(runs=45000, rule=_r("histories of 2-12 library calls under varying heap, locale, clock and errno state, each call repeated first in a fresh process")),
 "C09": dict(runs=180000, rule=_r("histories mixing results, appends, copies and drops in any order of object death")),
 "C10": dict(runs=60000, rule=_r("the same calls repeated under I/O and allocation faults, resources compared before and after")),
 "C11": dict(runs=80000, rule=_r("sensors with skewed clocks over a lossy, reordering, partitioned network feeding a crashing and restarting monitor")),
 "C12": dict(runs=80000, rule=_r("an appending thread and 1-3 reading or evaluating threads under a simulated reader-writer lock")),
 "C13": dict(runs=100000, rule=_r("sensors feeding signals over a faulty network with memory exhaustion, crashes and restarts; lookups and range searches in between, also in derived signals")),
 "C14": dict(runs=100000, rule=_r("as C13, with shifts, simplifications and resizings, also of earlier results")),
 "C16": dict(runs=25000, rule=_r("2-4 threads evaluating, parsing, building or reading shared objects, some of which are suspended in the middle of a call until all others are done")),
 "C17": dict(runs=60000, rule=_r("calls of growing size, calls repeated dozens of times with faults in between, and streams of appends and lookups; the work is counted")),
 "C18": dict(runs=25000, rule=_r("objects made in some threads and read, used, copied and dropped in others, over several generations of threads")),
 "C19": dict(runs=60000, rule=_r("calls under I/O and allocation faults, alone and with other threads of the program that hold and open files, change settings, and look at the process and the disk all the while")),
 "C15": dict(runs=100000, rule=_r("as C13, with synchronizations of pairs, also of earlier results")),
}
