#!/usr/bin/env python3
"""Writes MANIFEST.json from one table (run by hand when checks are added)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("exhaustive enumeration of query spaces on the real code against an independent set model", "All single code points x versions x categories, all small windows, boundary windows, all small category sets, custom-character spaces. Trusts ref/gc.txt."),
    "C02": ("exhaustive enumeration of query spaces on the real code, canonical form checked on every result", "Same spaces as C01 plus long character strings."),
    "C03": ("exhaustive enumeration of windows on the real code against the clipped unbounded answer", "Relational: expectation from the implementation's own unbounded answer, so table errors are left to C07."),
    "C04": ("exhaustive enumeration of filter pairs on the real code against bitwise set algebra", "All pairs of a filter alphabet in several windows; relational over the implementation's tables."),
    "C05": ("exhaustive enumeration of include/exclude strings on the real code against a base+override model", "All strings to a length over a boundary alphabet, every code point, all assignments around fast-path edges."),
    "C06": ("exhaustive enumeration of bound pairs against a three-line decision model", "Dense grid around every threshold and powers of two; every value of one bound in thorough."),
    "C07": ("complete enumeration of code points x versions x categories", "Complete, no bound; trusts ref/gc.txt."),
    "C08": ("complete enumeration of versions, code points and version pairs", "Complete, no bound."),
    "C09": ("exhaustive enumeration of interval sets and arguments against a sorted vector", "All subsets of small windows, all real sets, boundary u32 arguments."),
    "C10": ("explicit-state exploration of the iterator's state space, every interleaving of steps, against a deque model", "All small sets to exhaustion; memoised state search on real sets."),
    "C11": ("explicit-state exploration of the set's operations against a boolean-array model", "Small/large sets and 2^18..2^30 sets by in-order walks, all operations at each state."),
    "C12": ("exhaustive exploration of set iterators, exact length at every state", "Same sets as C11."),
    "C13": ("exhaustive enumeration of short strings and name edits against the 30 names", "All strings to length 3 (ASCII), all edits of the names; groups and constants complete."),
    "C14": ("exhaustive enumeration of version strings against the list of 11", "All strings to length 7/8 over digits and dot, all 1- and 2-edits."),
    "C15": ("complete enumeration of versions against a sort model", "Complete."),
    "C16": ("exhaustive enumeration of category lists against a set+order model", "All lists to a length, all versions."),
    "C17": ("explicit-state exploration of builder call sequences against a record model", "All call sequences to a depth over a value alphabet, clone and evaluation included."),
    "C18": ("stateless model checking: call histories against fresh processes, and all thread schedules to a preemption bound at accesses to shared memory", "Histories: all ordered pairs and triples of an alphabet of nearly equal calls. Threads: page-protected statics and surviving heap blocks as scheduling points; sequentially consistent."),
    "C23": ("exhaustive enumeration of small interval lists against bitsets", "All lists to a length over small domains at three offsets."),
    "C19": ("exhaustive enumeration of argument forms of the Python function against the core's answers", "Products of forms per parameter; expected answers from the core of the same tree."),
    "C20": ("complete enumeration of versions and exhaustive exploration of call orders in cold processes", "All lists to length 2-3, all call histories to depth 3-4 by forking cold processes."),
    "C21": ("stateless model checking: every re-entry point and every thread schedule to a preemption bound, on the real extension", "Points are all the extension's calls into CPython that may run Python code (GOT interposition) and user code; deadlock by lack of progress, with controls in every run. CPython 3.12 host stands for 3.10+ (collection at allocation is simulated)."),
    "C22": ("exhaustive enumeration of invalid argument combinations, valid calls probed after each", "Products of invalid values; exception kinds as stated."),
    "C25": ("exhaustive fault injection: every step of the generator made to fail in every listed way, files compared before and after", "The script run end to end in a scratch directory; download and ucd-generate are stand-ins."),
    "C26": ("exhaustive exploration of call histories with a fault at every step of the caller's iterables; arguments, references and live memory compared between rounds", "All call forms x exceptions x steps; repetition of an alphabet of valid and invalid calls. CPython 3.12."),
    "C27": ("exhaustive exploration of repeated call sequences on the real code under a counting allocator", "All single calls, pairs and runs of an alphabet, net allocation per round."),
    "C28": ("exhaustive enumeration of call shapes of the Python functions against a model parsed from the type stub", "Every subset and order of parameters, positional split, unknown name and way of calling; answers from the core."),
    "C29": ("exhaustive enumeration of rejected inputs, the error's text and equality compared with the input, in Rust and Python", "All rejected pairs of a bound alphabet, all texts of an alphabet at every place; wording is free."),
    "C30": ("stateless exploration of fault points and re-entrant calls: every place where the caller's code runs or an allocation is made x what it does there x the calls that follow", "The places are those where control can leave the library; pairs of calls and up to two interruptions; allocation failures through CPython's allocator hooks and an own global allocator's count."),
    "C31": ("stateless exploration of schedules and kill points of generator runs, in scratch directories", "Two runs at once, switches at the steps that reach outside (at most two, in quick mode a subset of the second ones), one kill."),
    "C32": ("exhaustive enumeration of histories (moment of the process's life x first call x call), each in a process of its own", "Moments are a written list; calls a table of about 20 per side."),
    "C33": ("the enumerations of other properties once more, each call monitored for system calls (seccomp) and changed interpreter state; exhaustive enumeration of surroundings", "Reading memory-mapped or already open data and effects undone within one chunk of calls are not seen; vDSO clock reads are no system calls."),
    "C34": ("exhaustive enumeration of the surroundings of a run of the generator (names, places, options, streams, variables) x outcomes, each run in a process of its own", "Surroundings are written lists of single values and their pairs; the download and ucd-generate are stand-ins."),
    "C35": ("exhaustive enumeration of families of growing inputs, the basic blocks, bytes moved, memory and stack of every call counted and compared between sizes", "Sizes to 2^15 (2^18), factors of slack as in DESIGN.md; Python's part measures CPU time and sees only growth beyond n**1.75."),
    "C24": ("exhaustive enumeration of generator inputs (layouts x hash seeds), the script run end to end", "Entry-atomic layouts; download and ucd-generate replaced by stand-ins in a scratch directory."),
}
NA = {}
checks = []
for p in sorted(T):
    technique, note = T[p]
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": "model checking: " + technique, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "cargo feature __benchmark_internals (part of the original repository; no hook was added)",
               "enable": "cargo build --features internals in mc/ turns the feature on for C23", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
