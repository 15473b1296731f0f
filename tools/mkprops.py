#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line). Source of truth for the texts.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SIG, SIGH = "src/core/signal.cc", "src/include/signal_tl/signal.hpp"
AST, ASTH = "src/core/ast.cc", "src/include/signal_tl/ast.hpp"
ROB, MM, MW = "src/robust_semantics/classic_robustness.cc", "src/robust_semantics/minmax.cc", "src/robust_semantics/mono_wedge.h"
PAR, ACT, GRA, PARH = "src/parser/parser.cc", "src/parser/actions.hpp", "src/parser/grammar.hpp", "src/include/signal_tl/parser.hpp"
FMT = "src/include/signal_tl/fmt.hpp"

p("C01", "Concurrent evaluations do not disturb each other",
  "Any number of threads may compute robustness at the same time over the same formula and signal objects without locking. For every interleaving each call returns (or throws) exactly what it would have if it had run alone, there is no data race, and the shared formulas, signals and traces are left bit-for-bit unchanged.",
  ["schedules", "inputs"], "every interleaving, at the granularity of single memory accesses, of 2-4 threads evaluating generated formulas (with shared sub-formulas) over shared traces",
  "The tests are single threaded; a racy or shared scratch buffer, cache or in-place update only shows under particular interleavings.",
  [ROB, MM, MW, SIG, SIGH],
  [("evaluation keeps all intermediate state local and only reads its inputs", ROB), ("pairwise and sequence min/max build fresh signals", MM), ("signal resampling builds fresh vectors", SIG)],
  ["compute_robustness result / exception", "shared Signal samples", "shared formula structure"],
  [("trace", "signals shared between caller threads", SIGH), ("expression nodes", "reference-counted and shared between formulas and threads", ASTH)])

p("C02", "Formulas are immutable values, even when their parts are shared",
  "Building, combining, negating, copying, printing or dropping formulas, from one thread or from many at once, never changes any formula that already exists, even one that shares sub-formulas with an operand, and involves no data race. Each construction yields the same formula, and each printing the same text, as when done alone; a construction that fails part-way leaves its operands untouched.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of formula-building, copying, printing and dropping threads over a shared pool of sub-formulas, with allocation failures at any point",
  "No test combines a formula that is shared, builds concurrently, or looks at an operand after it was combined.",
  [AST, ASTH, FMT], [("n-ary combination copies the operand list before extending it", AST), ("nodes are held by reference-counted pointers and never written after construction", ASTH)],
  ["formula structure of every live formula", "formatted text"], [("args", "operand list of an n-ary node", ASTH)])

p("C03", "Concurrent specification parsing is isolated",
  "Any number of threads may parse specifications at the same time, from memory or from files (also the same file). For every interleaving each parse returns the specification, or fails with the error, that it gives when run alone, with no data race, no definition leaking from one parse into another, and the process's settings (its locale, for one) left alone.",
  ["schedules", "inputs"], "every interleaving of 2-4 threads parsing generated valid and damaged specifications from memory and from files",
  "Tests parse one specification at a time in one thread; shared parser state would go unnoticed.",
  [PAR, ACT, GRA], [("all parser state is created per call", PAR), ("a fresh local state per nested term", ACT)],
  ["formulas and assertions of the returned specification", "exception type and message"], [("global/local parser state", "definitions and partial terms of one parse", ACT)])

p("C04", "A signal is exactly the history of its accepted samples",
  "After any history of appends, copies and reads a signal holds exactly the accepted samples in order, with strictly increasing times, and every sample's slope leads to the next one (0 for the last). An append that fails - a timestamp at or before the end, a timestamp that is not a number, or memory running out at any point - throws, leaves the signal exactly as it was, and does not affect later appends.",
  ["histories", "fault_sequences"], "every history of accepted and rejected appends, copies and reads with allocation failure injected at any allocation",
  "The only signal test is not even built here and never looks at a signal after a failed append; no test makes an allocation fail.",
  [SIG, SIGH], [("monotonicity check before the sample is stored", SIG), ("slope of the previous sample set when the next is appended", SIG)],
  ["size, begin/end time, samples with slopes, exceptions"], [("samples", "time-ordered samples with slope to the next", SIGH)])

p("C05", "Loading a specification file is all-or-nothing under I/O faults",
  "Loading a specification file either returns exactly the specification its bytes denote - the same as parsing those bytes from memory - or throws. Whatever the storage does meanwhile (open, size query, mapping or reading fails, is interrupted or comes up short, descriptors or memory run out, the file is atomically replaced or unlinked during the load), the caller never gets a partial, empty or mixed specification, and once faults stop a retry succeeds.",
  ["fault_sequences", "schedules", "inputs"], "every I/O and allocation fault sequence during a load and every point at which another process atomically replaces or unlinks the file",
  "Tests only load healthy files from a quiet disk.",
  [PAR, PARH, ACT], [("the file is opened once and mapped through that descriptor", PAR), ("any failure surfaces as an exception before a specification is returned", PAR)],
  ["returned specification", "exceptions"])

p("C06", "A torn specification file is never misread",
  "If a crash or lost write leaves only a prefix of a specification file on disk (cut at any byte, possibly followed by zero-filled blocks), loading it yields either exactly the definitions and assertions whose text is complete, each denoting what was written, or an error. A cut inside a definition is always an error; no definition is ever invented, altered, dropped or attached to another name.",
  ["crash_points", "inputs"], "every crash point of a writer that creates, rewrites or replaces specification files, for all generated specifications in the documented language",
  "Tests parse seven fixed intact files and look only at whether an exception is thrown, never at the parsed content.",
  [GRA, ACT, PAR], [("every command must be closed by its parenthesis before it is recorded as complete", GRA), ("definitions are recorded under the identifier read last", ACT)],
  ["formulas and assertions of the returned specification", "exceptions"])

p("C07", "Running out of memory is clean at every point",
  "If memory allocation fails at any point inside any library call - parsing, building or printing formulas, building or transforming signals, computing robustness - the call throws instead of crashing or returning a wrong result. All inputs are left unchanged, nothing is leaked, and repeating the call when memory is available gives the normal result.",
  ["fault_sequences", "inputs"], "every allocation index (single failure, or failure from there on) of every generated library call",
  "No test injects allocation failure.",
  [SIG, SIGH, AST, ASTH, ROB, MM, PAR, ACT], [("resources held by smart pointers and containers", ROB), ("no state is modified before the last throwing step", SIG)],
  ["exceptions, inputs, live allocations, result of the retry"])

p("C08", "A call's outcome depends on its arguments alone",
  "The result (or exception) of every library call is a function of its arguments only. It does not depend on which calls were made before or failed before, on the contents, layout or reuse of heap memory, on the process's numeric locale, errno, environment or clock, or on whether argument objects happen to live at an address used earlier; and no call changes these process-wide settings, or reads or writes memory outside live objects.",
  ["histories", "configurations", "fault_sequences"], "every history of library calls (including failing ones) under every allocator behaviour (garbage fill, reuse policy) and environment change, compared with the same call made first in a fresh process",
  "Tests make each call once, in a fresh process, under one allocator and the C locale.",
  [ROB, MM, SIG, SIGH, AST, PAR, ACT, FMT], [("no static or cached state", ROB), ("bounds respected when searching and resampling signals", SIG), ("numbers are read independently of locale", ACT)],
  ["results and exceptions of all public calls", "memory accesses outside live objects"])

p("C09", "Results are snapshots, independent of later changes",
  "A signal, robustness result, formula or specification returned by any call, or obtained by copying, shares no mutable state with the objects it came from. Later appends to an input or to a result, replacing or dropping inputs, or overwriting the parsed text never change any other object already obtained.",
  ["histories"], "every history mixing evaluation, copying, resampling, parsing, appends to inputs and results, and destruction of inputs",
  "Tests never look at a result again after changing its inputs.",
  [SIG, SIGH, ROB, MM, PAR, ACT], [("results are newly allocated signals", MM), ("copying a signal copies its samples", SIGH), ("parsed names and numbers are copied out of the text", ACT)],
  ["samples of every live signal", "structure of every live formula and specification"])

p("C10", "Repeated failures never leak resources",
  "In a process that loads specifications and evaluates them again and again, through any mix of successes, malformed input, I/O faults and memory exhaustion, every call gives back all file descriptors, memory mappings and heap memory it took, except what the returned object holds; dropping that object releases the rest.",
  ["fault_sequences", "histories"], "every sequence of repeated loads, parses, evaluations and signal operations with I/O and allocation faults injected at any point",
  "Tests end right after a single call; leaks on error paths are invisible.",
  [PAR, ACT, ROB, MM, SIG], [("file handle, mapping and heap objects owned by scoped objects", PAR)],
  ["open descriptors, mappings, live heap blocks before and after each call"])

p("C11", "A live monitor reaches the right verdict despite faults",
  "A monitor that loads its specification from disk, appends the samples it receives, skips the ones that are rejected, and is crashed and restarted from its journal computes, at every moment, robustness equal to that of the specification over exactly the samples it accepted, defined wherever all the signals involved are. Loss, duplication, reordering, delay, clock skew, corrupt timestamps, memory exhaustion and restarts never change the verdict for a given set of accepted samples, and once faults stop every evaluation succeeds.",
  ["schedules", "fault_sequences", "crash_points", "histories"], "every delivery schedule, fault sequence and crash point of a monitor with several sensors, for specifications in the file language; the expected verdict comes from an independent reference model of quantitative semantics over piecewise-linear signals",
  "The tests evaluate three fixed, perfectly aligned traces and check only that no exception is thrown.",
  [ROB, MM, SIG, SIGH, PAR, ACT], [("appending and rejecting samples", SIG), ("signals brought to common times over their common domain", SIG), ("min/max with crossing points, suffix extrema, until recursion", ROB)],
  ["robustness value at sample times", "verdict sign", "exceptions"])

p("C12", "A signal can be read by many threads between appends",
  "All read-only operations on a signal (lookup, iteration, range search, resampling, shifting, resizing, simplifying, synchronizing, copying) may run in any number of threads at once as long as no append runs at the same time. Under a readers/writer lock every read returns what it returns on a private copy of the samples appended so far, for every interleaving, with no data race.",
  ["schedules", "histories"], "every interleaving of 2-4 reader threads and an appending thread that exclude each other by a readers/writer lock",
  "No test reads a signal from more than one thread or between appends.",
  [SIG, SIGH], [("read operations are logically and physically const", SIG), ("lookup keeps no cursor or cache in the signal", SIGH)],
  ["result of every read operation", "signal samples"])

p("C13", "A live signal answers lookups from exactly the samples accepted so far",
  "At every point in the life of a signal - while it grows, after rejected or failed appends, after a restart from its journal, and for signals obtained by resampling or synchronizing - looking up a time inside its range gives the stored sample, or the linear interpolation (value and slope) from the closest earlier one. A time outside its range, a time that is not a number, and any time on an empty signal is an error. Range searches find exactly the samples at or after, and at or before, the given times.",
  ["histories", "fault_sequences", "inputs"], "every history of arrivals (in order, late, duplicated, corrupt), memory exhaustion, crashes and restarts, and every time looked up in between",
  "Lookup is never tested, least of all on a signal that is growing, was rebuilt, or came out of another operation.",
  [SIG, SIGH], [("binary search and interpolation", SIG), ("range searches", SIGH), ("slopes kept by appends", SIG)], ["Signal::at, interpolate, at_idx, begin_at, end_at"],
  [("samples", "time, value and slope of every accepted sample", SIGH)])

p("C14", "Resampling a live signal preserves its shape",
  "At every point in the life of a signal, shifting moves every sample by exactly the given amount; simplifying keeps the first and the last sample and drops only samples without which the signal is the same function; resizing to [a,b] (a < b) gives a signal inside [a,b] that begins with the fill value at a if the original begins later, and equals the original wherever both are defined; resizing and shifting at once is the one followed by the other. Results have strictly increasing times and the slopes of their own samples, the original is unchanged, and none of these fails unless memory runs out.",
  ["histories", "fault_sequences", "inputs"], "every history of arrivals, memory exhaustion, crashes and restarts, and every resampling of the signals - and of earlier results - in between",
  "Resampling is never tested.",
  [SIG, SIGH], [("resampling loops", SIG), ("a copy of the samples is changed, never the original", SIG)], ["Signal::shift, simplify, resize, resize_shift"],
  [("samples", "time, value and slope of every accepted sample", SIGH)])

p("C15", "Synchronizing live signals aligns them on their common time range",
  "At every moment, for any two live signals - in whatever order, with whatever skew and gaps their samples arrived - synchronizing gives two signals with the same times: exactly the sample times of either input inside the range common to both, none if there is no common time. Each has the value of its own input at all these times. The inputs are unchanged and synchronizing never fails unless memory runs out.",
  ["histories", "fault_sequences", "inputs"], "every pair of arrival histories (same, skewed, disjoint, touching, nearly equal times, empty), memory exhaustion, crashes and restarts",
  "Synchronizing is only ever run on two signals with the same times.",
  [SIG, SIGH], [("merge of sample times with interpolation from the previous sample", SIG)], ["synchronize"],
  [("samples", "time, value and slope of every accepted sample", SIGH)])

p("C16", "A stalled caller never holds up the others",
  "A thread may be suspended for any length of time, at any point inside any library call: evaluating, parsing, loading, building, joining, copying or printing formulas, reading or resampling signals. Calls of all other threads, also on the same formulas, signals, traces and files, still complete, with the results they give alone: no call waits for another thread (one-time initialisation aside). When the suspended thread goes on, its call completes normally as well.",
  ["schedules"], "every point at which one or several of the calling threads can be suspended, for every mix of calls in the others",
  "No test runs two threads, and a test cannot stop a thread at a chosen memory access inside of a call.",
  [ROB, SIG, AST, PAR, ACT], [("evaluation keeps all of its state on its own stack and heap", ROB), ("parser state lives in the call", ACT), ("immutable expression nodes, no table of them", AST), ("read operations take no lock", SIG)],
  ["completion of calls of other threads"])

p("C17", "A long-running monitor keeps up",
  "The work of a call is in proportion to its input, whatever happened before. Appending a sample takes the same work on average however long the signal is and however many samples were rejected; looking up a time takes at most logarithmic work; constructing, copying, resampling, synchronizing and printing signals, parsing and loading text, joining and printing formulas, and evaluating a formula (for a given shape) take work in proportion to the number of samples, operands or characters, and work that grows at most quadratically with the nesting of a formula. A call repeated any number of times, with failures, I/O faults and memory exhaustion in between, does not get slower, and a call that meets a fault takes no more than a small multiple of its normal work.",
  ["histories", "fault_sequences", "inputs"], "every input size, every number of earlier calls, and every sequence of faults in between",
  "Tests use inputs of a few samples and lines, once; how the work grows over a life time, and after failures, shows in none of them.",
  [SIG, SIGH, ROB, MM, MW, PAR, GRA, ACT, FMT], [("appends at the end of a vector, binary search", SIG), ("streaming min/max over a monotonic wedge", MW), ("one pass over the samples per operator", ROB), ("grammar without ambiguous alternatives", GRA)],
  ["number of memory accesses of a call"])

p("C18", "What one thread makes, another may keep",
  "Signals, traces, formulas, specifications, results and exceptions belong to whoever holds them, not to the thread that made them. Handed to another thread (with ordinary synchronization of the hand-over itself) they may be read, printed, copied, evaluated, resampled, combined with others and dropped there, in any order, while their maker goes on or long after it has ended, and so may parts of them and objects made from them. Their contents stay what they were, calls on them give what they give in the thread that made them, no memory of a thread that has ended is used, and there is no data race.",
  ["schedules", "histories", "inputs"], "every sequence of making, handing over, using and dropping objects in any number of threads, every interleaving, and every point at which threads end",
  "Tests make, use and drop everything in one thread, so memory tied to the making thread (a thread-local buffer, pool or table) goes unnoticed.",
  [SIG, SIGH, AST, ASTH, ROB, PAR, ACT, MM], [("results under shared_ptr", ROB), ("formula nodes under shared_ptr", AST), ("error messages", PAR), ("samples owned by the signal", SIGH)],
  ["use, destruction and thread exit in threads other than the maker"])

p("C19", "A call leaves the rest of the process and the disk alone",
  "Apart from the objects it is given to change and the one it returns, a library call leaves no trace, whatever faults it meets and whatever the other threads of the program do meanwhile. It creates, writes, locks, renames and removes no file; closes, moves or unmaps no descriptor or mapping it did not open, and keeps none it did; prints nothing; and does not change signal handlers and masks, umask, limits, working directory, locale, environment, rounding mode, the state of the standard streams, or the terminate and new handlers - neither after it returned or threw, nor for a moment in which other threads could see it.",
  ["fault_sequences", "schedules", "histories"], "every sequence of calls and faults inside them, and every interleaving with threads of the program that open and close files and change settings",
  "Tests look at results; a handler not restored on the error path, a stray file, or a descriptor closed twice shows elsewhere in the program, later.",
  [PAR, ACT, PARH, ROB, SIG, FMT], [("read-only mapping of the file", PAR), ("numbers are read in the classic locale without touching that of the process", ACT)],
  ["descriptors, mappings, files and process settings before, during and after calls"])

# ---- pure functions of their input: not simulation targets ---------------------------------
p("C20", "Robustness of bounded temporal operators honours the interval",
  "Always, Eventually and Until restricted to an interval quantify exactly over that interval, for every formula, signal and interval.",
  ["inputs"], "every formula with bounded operators, every trace", "Tests evaluate one unbounded formula.", [ROB, MM, MW, ASTH],
  [("windowed min/max", MM)], ["compute_robustness"])
p("C21", "Robustness is sound for satisfaction",
  "A positive robustness value at a time means the formula holds there, a negative one that it does not; negation flips the sign and the usual dualities hold for every formula and trace.",
  ["inputs"], "every formula and trace", "Tests check only that nothing is thrown.", [ROB, MM], [("classic quantitative semantics", ROB)], ["compute_robustness"])
p("C22", "The specification grammar accepts exactly the documented language",
  "Every text in the documented language is accepted and every other text is rejected with an error that points at the offending place.",
  ["inputs"], "every text", "Seven files and two strings are tried.", [GRA, ACT, "src/parser/error_messages.hpp"], [("PEG grammar", GRA)], ["from_string"])
p("C26", "Formula simplification preserves meaning",
  "Combining with constants, double negation and flattening of nested conjunctions and disjunctions give a formula equivalent to the unsimplified one for every operand.",
  ["inputs"], "every operand combination", "Never tested.", [AST], [("constant folding, flattening", AST)], ["&, |, ~, Not, Implies, Xor, Iff"])
p("C27", "Printing a formula is faithful",
  "The printed form of a formula determines it: operators, operand order, bounds and intervals are all shown as they are.",
  ["inputs"], "every formula", "Never tested.", [FMT], [("formatters", FMT)], ["fmt::format, operator<<"])
p("C28", "Interval construction enforces well-formedness",
  "An interval with a negative, inverted or empty range is rejected whatever numeric type its ends have, and conversion keeps its ends.",
  ["inputs"], "every pair of ends", "Never tested.", [ASTH], [("constructor checks", ASTH)], ["Interval constructors"])
p("C29", "The Python package behaves like the C++ library",
  "Every operation exposed to Python gives the result of the C++ operation it wraps, and keeps the objects it references alive.",
  ["programs", "inputs"], "every Python program using the bindings", "The bindings have no tests.",
  ["python_bindings/pyast.cc", "python_bindings/pysignal.cc", "python_bindings/pyrobustness.cc"], [("pybind11 wrappers", "python_bindings/")], ["Python API"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
