#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("bounded exhaustive enumeration of append histories and construction paths on the real class", "Every history of the alphabet is executed on the real Signal and every step compared with a list model."),
 "C02": ("bounded exhaustive enumeration of signals and queries on the real class", "Every signal of the space, every query instant and index; compared with an independent interpolation."),
 "C03": ("bounded exhaustive enumeration of signals and windows on the real class (also under ASan/UBSan)", "Every window of the grid on every signal."),
 "C04": ("bounded exhaustive enumeration of signals on the real class", "Every signal; equality at all breakpoints and between, sample subset, minimality where slopes are exact."),
 "C05": ("bounded exhaustive enumeration of signals, ranges and shifts on the real class", "Every range on every signal, compared with a reference built independently."),
 "C06": ("bounded exhaustive enumeration of signal pairs on the real class (also under ASan/UBSan)", "Every pair; outputs compared with the inputs' functions on the common domain."),
 "C07": ("bounded exhaustive enumeration of formulas x traces against a reference semantics", "Pointwise comparison at all breakpoints of both sides and inside every segment."),
 "C08": ("bounded exhaustive enumeration of formulas x traces against a reference semantics", "Running extrema defined by brute force in the reference."),
 "C09": ("bounded exhaustive enumeration of intervals x traces against a reference semantics", "Sliding windows defined by brute force in the reference."),
 "C10": ("bounded exhaustive enumeration of formulas x traces against a reference semantics", "Until defined by brute force in the reference."),
 "C11": ("bounded exhaustive enumeration of formulas, and reachability search over signals under the operators", "Compositionality by substitution of subresults on the real evaluator, plus the reference for nested formulas."),
 "C12": ("bounded exhaustive enumeration against a Boolean reference semantics", "Independent dense-time Boolean evaluator on the piecewise-linear traces."),
 "C13": ("bounded exhaustive enumeration of all pairs of traces", "Every pair of traces of the space; distance of robustness against distance of traces."),
 "C14": ("bounded exhaustive enumeration of laws x traces, implementation against implementation", "No reference model needed: both sides are evaluated by the library."),
 "C15": ("bounded exhaustive enumeration of representations of the same trace, implementation against implementation", "No reference model needed."),
 "C16": ("bounded exhaustive enumeration of awkward traces (also under ASan/UBSan), well-formedness invariant", "Invariant on every result; common domain from the reference."),
 "C17": ("exhaustive search over operation sequences on one pool of shared objects (also under ASan/UBSan)", "After every operation all objects are compared with a model in which nothing is shared."),
 "C18": ("stateless model checking under a controlled scheduler, all interleavings up to a preemption bound", "The library is compiled with memory-access instrumentation; scheduling points are accesses to memory that both threads touch. Sequentially consistent interleavings; two threads; internals of libc and fmt are not preempted."),
 "C19": ("bounded exhaustive enumeration of ill-posed requests at every formula position", "Every chain of one-hole contexts up to the bound; intervals over all pairs of bounds."),
 "C20": ("exhaustive enumeration of formula-building sequences with truth-table oracle", "Every built formula is evaluated under every truth assignment; all operands and intermediates are compared before and after."),
 "C21": ("exhaustive enumeration of specifications against a reference parser", "Structure compared with the public constructors, meaning with an independent truth-table canonical form."),
 "C22": ("exhaustive enumeration of token and character sequences and of edits against a reference recogniser (also under ASan)", "Texts the documentation does not settle (keyword as identifier, numeral glued to a name) are left open."),
 "C23": ("exhaustive enumeration of layouts, and of files against strings", "Every pair of gaps, every pair of separators."),
 "C24": ("exhaustive enumeration of command histories against a name-table model", "Every command sequence up to the bound, and every ordered pair of specifications."),
 "C25": ("exhaustive enumeration of numeral texts against strtod and a reference lexer", "Underflowing numerals may be rejected; any accepted one must have its exact value."),
 "C26": ("exhaustive enumeration of formulas and signals; injectivity over all pairs", "Signal names are identifiers; NaN and negative zero are not in the alphabet."),
 "C27": ("exhaustive enumeration of calls, ways to write them, attribute paths and lifetimes of the Python module in a real interpreter (also under ASan), implementation against implementation", "pybind11 is not installed: the module's own sources are compiled against a stand-in (harness/pystub) that follows pybind11's documentation, so what pybind11 itself does is assumed."),
 "C28": ("exhaustive enumeration of locales, ways to set them and uses of the library, against the C locale and the reference parser", "Locales are compiled from the installed sources into build/locale."),
 "C29": ("exhaustive fault injection: every allocation of every operation fails in turn, then every operation follows (also under ASan)", "operator new is replaced; memory that libraries obtain otherwise (mmap, malloc) does not fail."),
 "C30": ("exhaustive enumeration of lifetimes: every maker, use and phase (static initialisation, main, threads, exit) as a program of its own (also under ASan)", "Programs are linked with their own objects before the library's, as with a static library; other link orders are not explored."),
 "C31": ("exhaustive enumeration of cyclic nestings of contexts to a depth", "The bound has plenty of room; geometric growth passes it within the explored depth."),
}
checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py " + p + " --thorough", technique="model checking: " + t, level="model_checking",
               level_note=n + " Complete within the stated bounds on the real code compiled by the installed gcc; nothing is claimed beyond the bounds. Trusts the harness and reference in harness/.") for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="python3 check.py --build-all", checks=checks,
         not_applicable=[],
         notes="No hooks in /repo: the scheduler of C18 works on compiler instrumentation (-fsanitize=thread with its own runtime, harness/sched.cc). Defects repaired in /repo are the 'fix:' commits listed in known_findings.txt.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
