#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
SIG_H, SIG_C = "src/include/signal_tl/signal.hpp", "src/core/signal.cc"
AST_H, AST_C = "src/include/signal_tl/ast.hpp", "src/core/ast.cc"
ROB, MM, MW = "src/robust_semantics/classic_robustness.cc", "src/robust_semantics/minmax.cc", "src/robust_semantics/mono_wedge.h"
GR, AC, PA, EM = "src/parser/grammar.hpp", "src/parser/actions.hpp", "src/parser/parser.cc", "src/parser/error_messages.hpp"
FMT = "src/include/signal_tl/fmt.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Signal histories keep time strictly increasing; rejected appends are atomic",
 "Whatever way a signal is built (sample by sample, from a list of samples, from value and time lists, by copying), its samples are exactly the accepted ones in order, with strictly increasing times. An append whose time is not strictly later than the end (NaN included) is rejected with an exception and leaves the signal exactly as it was and still usable. All ways of building from the same data give equal signals, and value/time lists of different length are rejected.",
 ["histories", "inputs"], "every sequence of appends up to the bound, every construction path",
 "The only test of this (test_signals.cc) is not even compiled in this environment and samples random times; it never looks at the signal after a rejected append.",
 [SIG_H, SIG_C], [("Signal::push_back", SIG_C), ("Signal constructors", SIG_H)], ["iteration over the signal, size(), begin_time(), end_time(), thrown exception"],
 [("samples", "the time-ordered samples", SIG_H)])
prop("C02", "Point evaluation is linear interpolation on the domain and an error off it",
 "Evaluating a signal at any instant between its first and last sample (inclusive) gives the value of the straight line joining the neighbouring samples, and exactly the sample at a sample time. Evaluating it outside its domain, or evaluating an empty signal, is rejected with an exception. The slope a sample reports is that of the line to the next sample (0 for the last), and the per-sample helpers (interpolate, area under the line, intersection time of two lines, comparison by value, negation) agree with that line.",
 ["inputs"], "all signals of the bounded space and all query instants on a grid finer than their samples, inside and outside the domain",
 "No test evaluates a signal between or outside its samples.",
 [SIG_H, SIG_C], [("Signal::at", SIG_C), ("Sample::interpolate / time_intersect / area", SIG_H), ("derivative upkeep in Signal::push_back", SIG_C)], ["Signal::at, Signal::interpolate, Signal::area, Signal::time_intersect, Sample operators"])
prop("C03", "Windowed iteration yields exactly the samples inside the window",
 "Iterating a signal from 'the first sample at or after s' to 'past the last sample at or before t' visits exactly the samples with s <= time <= t, in order, for every s <= t, including windows that miss, straddle or exceed the signal. Forward, reverse and indexed access present the same samples, and reading outside the valid index range is rejected.",
 ["inputs"], "all signals of the bounded space and all windows on a grid finer than their samples",
 "No test uses windowed iteration.",
 [SIG_H], [("Signal::begin_at", SIG_H), ("Signal::end_at", SIG_H), ("Signal::at_idx, rbegin, rend", SIG_H)], ["iterators, at_idx"])
prop("C04", "Simplification never changes the signal and leaves no redundant sample",
 "Simplifying a signal yields a signal with the same domain and the same value at every instant, whose samples are a subset of the original ones. No remaining interior sample lies on the straight line between its neighbours (when the slopes are exactly representable), so simplifying twice changes nothing. The original signal is not modified.",
 ["inputs"], "all signals of the bounded space, including runs of constant and of collinear samples in every position",
 "No test calls simplify.",
 [SIG_C], [("Signal::simplify", SIG_C)], ["samples of the simplified signal"])
prop("C05", "Resize restricts or extends, shift translates, and they compose",
 "Resizing to [s,t] (s < t) gives a signal on exactly [s,t] that equals the original at every instant of [s,t] inside the original domain, with the fill value at an endpoint the original does not reach (and linear interpolation from there to the nearest original sample, or constant fill if the domains do not meet). Shifting by dt moves every sample time by dt and changes no value or slope; the combined operation equals resize followed by shift. None of them modifies the original.",
 ["inputs"], "all signals of the bounded space and all [s,t], fill and dt of a grid finer than the samples",
 "No test calls resize, shift or resize_shift.",
 [SIG_C, SIG_H], [("Signal::resize", SIG_C), ("Signal::shift", SIG_C), ("Signal::resize_shift", SIG_C)], ["samples of the returned signal"])
prop("C06", "Synchronizing two signals preserves both on their common domain",
 "Synchronizing two signals returns two signals with identical sample times, which are all the sample times of either input inside the common domain and span exactly that common domain. Each output equals its input at every instant of that domain, and the inputs are not modified. When the domains do not meet, both outputs are empty.",
 ["inputs"], "all pairs of signals of the bounded space, with every relative placement of domains",
 "No test checks synchronize; the robustness test only uses signals that already share their time stamps.",
 [SIG_C, SIG_H], [("synchronize", SIG_C)], ["samples of both returned signals"])
prop("C07", "Robustness of predicates and Boolean connectives is exact at every instant",
 "For any trace, sampled synchronously or not, the robustness signal of a comparison of a signal with a constant is value minus constant (for > and >=) or constant minus value (for < and <=), of a constant is plus or minus infinity, of negation the negated robustness, and of an n-ary conjunction or disjunction the minimum or maximum of its operands. This holds at every instant of the operands' common domain, not only at sample times, so signals that cross between samples give the exact kink. Implication, exclusive-or and equivalence have the robustness of their definitions by not, and, or.",
 ["inputs", "programs"], "all Boolean formulas of bounded size over all traces of the bounded space",
 "The tests only check that evaluation of one formula on three fixed traces does not throw; no robustness value is ever compared.",
 [ROB, MM, SIG_C], [("RobustnessOp for Const/Predicate/Not/And/Or", ROB), ("compute_minmax_pair with crossing points", MM), ("synchronize", SIG_C)], ["signal returned by compute_robustness"])
prop("C08", "Unbounded always/eventually is the exact running inf/sup at every instant",
 "The robustness of 'eventually p' at any instant t of p's domain is the supremum of p's robustness over [t, end], and that of 'always p' the infimum. This holds between samples as well as at them, in nestings of the two, and for an explicit [0, infinity) interval.",
 ["inputs", "programs"], "all signals of the bounded space, all nestings of the unbounded operators up to the bound",
 "The tests evaluate G and F but never look at the resulting values.",
 [ROB, MM], [("compute_minmax_seq (unbounded)", MM), ("RobustnessOp for Eventually/Always", ROB)], ["signal returned by compute_robustness"])
prop("C09", "Bounded always/eventually is the exact sliding-window inf/sup at every instant",
 "The robustness of 'eventually[a,b] p' at any instant t of p's domain is the supremum of p's robustness over [t+a, t+b], that of 'always[a,b] p' the infimum, where p keeps its last value after the end of its domain. This holds for every 0 <= a <= b (b infinite included), for windows shorter or longer than the sample spacing or the whole signal and not aligned with the samples, and the result has p's domain.",
 ["inputs", "programs"], "all signals of the bounded space, all intervals on a grid finer than the samples",
 "No test evaluates an operator with an interval.",
 [ROB, MM, MW, AST_H], [("RobustnessOp for Eventually/Always interval dispatch", ROB), ("compute_minmax_seq (windowed)", MM), ("mono_wedge_update", MW), ("Interval", AST_H)], ["signal returned by compute_robustness"])
prop("C10", "Unbounded until is exact at every instant",
 "The robustness of 'p until q' at any instant t of the common domain is the supremum over t' in [t, end] of the minimum of q at t' and the infimum of p over [t, t'] (Donze and Maler's semantics), at and between samples, for synchronously and asynchronously sampled operands. It is never above the supremum of q over [t, end] nor above p at t.",
 ["inputs", "programs"], "all pairs of operand signals of the bounded space",
 "No test evaluates until.",
 [ROB], [("compute_until", ROB)], ["signal returned by compute_robustness"])
prop("C11", "Robustness of nested formulas is compositional",
 "The robustness of any nested formula equals the STL semantics applied recursively: replacing a subformula by a fresh comparison 's >= 0' on a signal s equal to the subformula's robustness leaves the result unchanged at every instant. This holds for any depth and mix of Boolean, bounded and unbounded temporal operators and until, with shared subformulas, and for repeated use of the same signal.",
 ["programs", "inputs"], "all formulas up to the depth bound over all traces of the bounded space",
 "The tests evaluate a single nested formula and compare nothing.",
 [ROB, MM], [("RobustnessOp visitor", ROB)], ["signal returned by compute_robustness"])
prop("C12", "The sign of robustness decides satisfaction",
 "At every instant where the robustness is positive the formula is satisfied by the trace in the Boolean semantics of STL, and at every instant where it is negative the formula is violated. The Boolean semantics meant is the dense-time one on the piecewise-linear signals.",
 ["programs", "inputs"], "all formulas up to the depth bound over all traces of the bounded space, all instants",
 "No test relates robustness to satisfaction.",
 [ROB, MM], [("compute_robustness", ROB)], ["sign of the signal returned by compute_robustness against an independent Boolean monitor"])
prop("C13", "Robustness is a margin: it moves no more than the trace does",
 "If two traces with the same sample times differ by at most e at every instant, their robustness differs by at most e at every instant, for every formula. Consequently no perturbation smaller than the robustness' magnitude changes the verdict.",
 ["programs", "inputs"], "all pairs of traces of the bounded space with equal time stamps, all formulas up to the bound",
 "No test compares two evaluations.",
 [ROB, MM], [("compute_robustness", ROB)], ["signals returned by compute_robustness on both traces"])
prop("C14", "Logical laws hold between the robustness of equivalent formulas",
 "On traces whose signals share one time domain, formulas that are equivalent in STL have equal robustness at every instant: double negation, De Morgan, commutativity, associativity, idempotence, absorption and distributivity, not-eventually versus always-not (bounded and unbounded), 'true until p' versus 'eventually p', expansion of implication, exclusive-or and equivalence, and neutral and absorbing constants. Wider windows never raise 'always' nor lower 'eventually'.",
 ["programs", "inputs"], "all instances of the laws with operand formulas up to the bound over all traces of the bounded space",
 "No test compares the robustness of two formulas.",
 [ROB, MM, AST_C], [("compute_robustness", ROB), ("formula operators", AST_C)], ["signals returned by compute_robustness for both sides"])
prop("C15", "Robustness depends only on the signals' functions, not their representation",
 "Inserting redundant samples on a signal's segments, renaming signals consistently, adding signals the formula does not mention, or setting the 'already synchronized' flag on a synchronized trace does not change the robustness at any instant. Shifting the whole trace in time shifts the robustness by the same amount, and scaling all values and thresholds by a positive factor scales it.",
 ["inputs", "programs"], "all traces of the bounded space, all such changes of representation, all formulas up to the bound",
 "No test evaluates two representations of one trace.",
 [ROB, MM, SIG_C], [("compute_robustness", ROB), ("synchronize", SIG_C)], ["signals returned by compute_robustness on both representations"])
prop("C16", "Evaluation of a well-posed formula always yields a well-formed signal",
 "For every formula whose signals are in the trace and every non-empty trace of signals with at least one sample (finite values and slopes), evaluation returns a signal with strictly increasing finite times, no NaN value, and a domain equal to the common domain of the operands (empty if they share none); it never fails, crashes or hangs. This includes single-sample signals, disjoint domains, nearly equal signals, crossings at or next to samples, and times and values that are not exactly representable.",
 ["inputs", "programs"], "all traces over deliberately awkward time and value grids, all formulas up to the bound",
 "The one robustness test checks three fixed traces with integer times for the absence of an exception.",
 [ROB, MM, SIG_C], [("compute_minmax_pair crossing guard", MM), ("Signal::push_back monotonicity check", SIG_C), ("synchronize", SIG_C)], ["returned signal, thrown exceptions, memory errors under AddressSanitizer"])
prop("C17", "Evaluation and derivation are pure and independent of history",
 "No library call modifies a signal, trace or formula passed to it, except appending to the signal it is called on. The result of a call depends only on the current contents of its arguments: not on which calls came before, nor on results handed out earlier; results are independent objects, so later appends to an argument or a result change nothing else, and evaluating again after appending reflects the new sample.",
 ["histories"], "all sequences of library calls up to the depth bound over a shared pool of signals and formulas",
 "Tests make each call once on fresh objects.",
 [SIG_C, AST_C, ROB, MM], [("const member functions returning new signals", SIG_C), ("formula operators copying operand lists", AST_C), ("RobustnessOp returning new signals", ROB)], ["contents of all pool objects and results after every call"])
prop("C18", "Concurrent use of shared formulas and traces gives the sequential results",
 "Two threads that concurrently evaluate, combine, print, derive from or parse the same formulas, signals and specification texts, without appending to any signal, each get exactly the result they get when run alone, under every interleaving. The shared objects are unchanged afterwards.",
 ["schedules"], "all interleavings of two threads at memory-access granularity up to the preemption bound, for every pair of operations of the alphabet",
 "No test uses threads; an ordinary run would hit a harmful interleaving only by luck.",
 [SIG_C, AST_C, ROB, MM, PA, AC], [("absence of shared mutable state", "all of src"), ("per-call parser state", PA)], ["results of both threads, contents of shared objects"],
 None, "none in /repo: the sources are compiled with -fsanitize=thread against the framework's own scheduler runtime")
prop("C19", "Unsupported and ill-posed requests fail loudly, never with a wrong value",
 "Evaluating until with an interval other than [0, infinity) reports 'not implemented', naming a signal missing from the trace reports an error, and an interval whose end lies before its start is rejected at construction or at evaluation, wherever in a formula these occur. Real-valued intervals are rejected at construction if a bound is negative or the end is not after the start, conjunctions and disjunctions with fewer than two operands are rejected at construction; valid intervals report back exactly the bounds given and whether they are [0, infinity).",
 ["inputs", "programs"], "all intervals over the bound alphabet, all operand counts, all positions of the ill-posed subformula in formulas up to the bound",
 "No test constructs an interval, misses a signal, or evaluates until.",
 [AST_H, ROB, AST_C], [("Interval constructors", AST_H), ("And/Or constructors", AST_H), ("compute_until (bounded)", ROB), ("trace lookup", ROB)], ["exception types, Interval accessors"])
prop("C20", "Formula operators denote their connectives and never alter operands",
 "The operators ~, &, |, >> and the functions Not, And, Or, Implies, Xor, Iff build formulas that mean negation, conjunction, disjunction, implication, exclusive-or and equivalence of their operands, whatever the operands are, including constants that get folded and conjunctions or disjunctions that get flattened. That is so for margins as well as for truth: no formula is replaced by one that only agrees with it in two-valued logic, as true for 'p or not p'. Building never fails on valid operands and never alters an operand, which may be shared by other formulas. Comparison operators on a predicate give a predicate with the same name, that comparison and that bound, compared structurally by ==.",
 ["programs", "histories"], "all sequences of formula-building operations up to the bound, every assignment of values to the predicates",
 "No test inspects the formula an operator builds.",
 [AST_C, AST_H], [("operator&, operator|, operator~, AndHelper, OrHelper", AST_C), ("Implies, Xor, Iff", AST_C), ("Predicate comparison operators", AST_C)], ["structure of the built Expr, evaluated under every assignment of margins"])
prop("C21", "Every specification of the language parses to exactly the formulas it denotes",
 "Every specification text of the documented language (commands '(define-formula id term)' and '(assert id term)' over true, false, identifiers, '(~ id num)', '(~ num id)', not, n-ary and/or, implies, iff, xor, always, eventually, until, and parenthesised terms, nested up to 1000 deep) is accepted, and yields exactly the named formulas and assertions written: same structure, operand order, comparison direction ('5 < x' meaning x > 5) and constants.",
 ["programs", "inputs"], "all specifications up to the token and nesting bounds",
 "The tests parse eight fixed texts and never look at the parsed formulas.",
 [GR, AC, PA], [("grammar rules", GR), ("semantic actions building ast::Expr", AC)], ["Specification returned by parser::from_string"])
prop("C22", "Text outside the language is rejected, never accepted or crashed on",
 "Every text that is not a specification of the language (missing, extra or misplaced tokens, wrong operand counts, unbalanced parentheses, unknown commands, stray characters, truncated or damaged specifications, terms nested without limit) is rejected with a catchable exception, without crash, hang or memory error. No such text is silently accepted with some of its content dropped or regrouped.",
 ["inputs"], "all token sequences and character sequences up to the length bounds, and all single-token edits and truncations of valid specifications",
 "The tests try three malformed files.",
 [GR, AC, PA, EM], [("peg must rules", GR), ("error control", EM), ("action-level checks", AC)], ["exception or Specification returned by parser::from_string"])
prop("C23", "Layout never matters and files parse like strings",
 "Whitespace, newlines and ';' line comments may be inserted or removed between any two tokens (where the tokens stay separate) without changing the parse result, comments may contain any text and may end the input without newline. Parsing a file gives the same result as parsing its contents as a string, acceptance and rejection included; a missing file is an error. It does not matter what kind of file it is (regular, link, pipe or FIFO, standard input), how it is named, or in which pieces its contents arrive.",
 ["inputs"], "all layouts from the separator alphabet at every gap (all pairs of gaps) of every specification of a bounded set",
 "The tests use one conventional layout per specification.",
 [GR, PA], [("Skip, Sep, LineComment", GR), ("from_file, from_string", PA)], ["Specification returned for both texts"])
prop("C24", "Names resolve to earlier definitions, once each, under every command history",
 "A formula name in a term denotes the formula defined under that name by an earlier command of the same specification; a use before or without definition is rejected with a parse error, and so is a second definition of a formula name or of an assertion name. Formula and assertion names do not interfere, and parsing one specification never affects another.",
 ["histories", "programs"], "all command sequences up to the bound over a small set of names and terms, and all pairs of specifications parsed in sequence",
 "The tests contain only valid, in-order definitions.",
 [AC, PA], [("DefineFormula and Assertion actions", AC), ("Term identifier lookup", AC)], ["Specification or exception from parser::from_string"],
 [("formulas, assertions", "names defined so far", AC)])
prop("C25", "Numerals in specifications denote their exact decimal value",
 "An integer or decimal numeral, with or without fraction and exponent, denotes the double nearest to its decimal value in either operand position of a comparison. A text that is not a numeral of the grammar is not accepted as one, and a numeral outside the representable range is an error rather than some other value.",
 ["inputs"], "all strings over the numeral alphabet up to the length bound, plus range-boundary numerals",
 "The tests contain four short numerals and check none of the values.",
 [GR, AC], [("DoubleLiteral, IntegerLiteral, exponent", GR), ("numeric literal actions", AC)], ["rhs of the parsed predicate"])
prop("C26", "Printed formulas and signals are faithful",
 "Two formulas that differ in structure, operand order, operator, interval, signal name, comparison or constant never print the same text, and equal formulas always print the same text. A printed signal shows every sample's time and value in order, so different signals print differently. All printing routes (formatting, string conversion, stream output) agree.",
 ["programs", "inputs"], "all pairs of formulas up to the size bound, all signals of the bounded space",
 "No test looks at printed text.",
 [FMT], [("fmt::formatter specialisations", FMT), ("operator<< for Expr", FMT)], ["fmt::format, fmt::to_string, ostream output"])
prop("C27", "The Python module exposes the C++ behaviour unchanged",
 "Every class, function, operator and attribute of the Python module gives the same results as its C++ counterpart, however the call is written (positional, keyword, default, alias): sample fields and order, signals and their operations, formulas with their attributes, intervals and text, evaluation. C++ errors arrive as the corresponding Python exceptions, arguments of a wrong type or number are refused with TypeError, and what was obtained from an object (an iterator, a sample, a subformula) stays valid after that object is gone.",
 ["inputs", "programs"], "all calls of the Python API over bounded signals and formulas, all ways to write them, all paths of attributes into a formula and all orders of dropping the objects on the way",
 "The bindings have no tests and are not built here.",
 ["python_bindings/pyast.cc", "python_bindings/pysignal.cc", "python_bindings/pyrobustness.cc", "python_bindings/pysignal_tl.cc"],
 [("pybind11 class definitions", "python_bindings")], ["Python objects"])
prop("C28", "The application's locale changes nothing",
 "Whatever locale the application has set - for the process, for a category, for a thread, or as the global C++ locale - or its environment names, with another decimal point, digit grouping or character classification - the same specification text or file is accepted or rejected alike and parsed to the same formulas with the same constants, formulas and signals print the same text, and evaluation gives the same result.",
 ["inputs", "configurations"], "all combinations of installed-locale definitions, ways of setting a locale, and specification texts, printed objects and evaluations of the bounded sets",
 "The tests run in the C locale only.",
 [AC, FMT, PA], [("numeric literal actions", AC), ("fmt::formatter specialisations", FMT)], ["Specification, printed text and robustness under the locale and without it"])
prop("C29", "Running out of memory is an error and nothing more",
 "If an allocation fails during any operation - building, appending to or transforming signals, building, evaluating or printing formulas, parsing - the operation ends with std::bad_alloc (or with its normal result), without crash or leak, and every existing signal, trace, formula and specification is as it was before; in particular a failed append leaves the signal unchanged. Afterwards the same operation with enough memory, and every other operation, works as if the failed one had not been tried.",
 ["fault_sequences", "histories"], "every allocation of every operation of the set failing, alone or with all later ones, and pairs of failed attempts, each followed by a retry and by every other operation",
 "No test makes an allocation fail.",
 [SIG_C, AST_C, ROB, MM, AC, PA], [("Signal::push_back", SIG_C), ("formula constructors", AST_C), ("compute_robustness", ROB), ("parser actions", AC)], ["exception, count of live allocations, all objects afterwards"])
prop("C30", "Objects live as long as they are held, whenever and wherever they are made",
 "Formulas, signals, traces, results, specifications and exceptions can be made during static initialisation (as global variables), in main or in any thread, used later in any phase and thread of the program - also after the thread that made them has ended - and dropped in any of them or by static destruction at exit. What they are and what the library computes from them never depends on when or where they were made, and the program ends normally.",
 ["histories", "schedules"], "all combinations of operation that makes objects, use of them, phase and thread of making, of use and of destruction, each as a program of its own",
 "The tests make, use and drop everything in main.",
 [AST_C, SIG_C, ROB, AC, PA], [("formula constructors", AST_C), ("compute_robustness", ROB), ("from_string, from_file", PA)], ["results and exit status of a program per combination"])
prop("C31", "Nesting operators does not multiply samples",
 "The number of samples of a robustness signal is bounded by a fixed multiple of the number of samples in the trace times the number of operators on the way: however operators are nested (each using its subformula once), evaluation does not add samples in numbers that grow geometrically with the nesting depth.",
 ["programs"], "all cyclic patterns of contexts up to the length bound, nested to the depth bound, on a set of traces",
 "The tests never evaluate a nested formula.",
 [ROB, MM, SIG_C], [("compute_until", ROB), ("compute_minmax_pair, compute_minmax_seq", MM), ("Signal::simplify", SIG_C)], ["size() of the signal returned by compute_robustness"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
