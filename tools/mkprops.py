#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
C = "codon/cir/"
prop("C01", "A compiled program behaves as the same Python program does",
  "A well-typed program in the subset of the language that Codon shares with Python prints the same output and ends the same way when compiled and run as it does under CPython. This covers expressions and their evaluation order, assignment and unpacking, comprehensions, loops, closures, default arguments, classes with inheritance and operator methods, and integers that stay within 64 bits.",
  ["programs", "inputs"], "every program of the shared subset and every input to it",
  "The unit tests build single IR nodes by hand and never compile a program; the language tests that exist outside the stable set are fixed programs.",
  ["codon/parser", "codon/cir", "codon/compiler", "stdlib/internal"],
  [("source to typed tree", "codon/parser/visitors/typecheck"), ("typed tree to IR", "codon/parser/visitors/translate/translate.cpp"), ("IR to LLVM", C + "llvm/llvisitor.cpp"), ("built-in types", "stdlib/internal")])
prop("C02", "Optimisation and execution mode never change what a program does",
  "For every program, the output, the trace of external calls and the way it ends are the same with optimisation on, with optimisation off, with any optimisation pass disabled or run by itself, and when it is run in-process or built as an executable. Only speed and the effects the language leaves undefined may differ.",
  ["programs", "configurations"], "every program and every combination of optimisation level, disabled passes and execution mode; every single pass over every intermediate program",
  "The stable tests run no optimisation pass except through a stub manager; nothing compares two configurations.",
  [C + "transform", C + "llvm/optimize.cpp", C + "util/matching.cpp", C + "analyze"],
  [("constant folding and propagation", C + "transform/folding"), ("canonicalisation, dead code, global demotion", C + "transform/cleanup"), ("idiom rewriting of dict, list, string, print and generator code", C + "transform/pythonic"), ("loop lowering", C + "transform/lowering"), ("allocation removal and LLVM pipeline", C + "llvm/optimize.cpp")])
prop("C03", "Exceptions, cleanup clauses and early exits follow the language order",
  "Whatever mixture of nested try/except/else/finally, with-blocks, loops, raise, re-raise, return, break and continue a program uses, each handler that matches the raised type runs once, every finally clause passed on the way out runs exactly once and innermost first, and control then continues at the place the language says. An exception nobody handles ends the program with a non-zero status and names the exception.",
  ["programs", "fault_sequences"], "every nesting of protected regions and every point at which an exception or exit happens",
  "No stable test lowers a protected region; the number of nestings and exit points is unbounded.",
  [C + "llvm/llvisitor.cpp", "codon/runtime/exc.cpp", "codon/parser/visitors/translate/translate.cpp", C + "flow.h"],
  [("try/catch/finally state machine", C + "llvm/llvisitor.cpp visit(TryCatchFlow)"), ("personality routine and unwinding", "codon/runtime/exc.cpp")])
prop("C04", "Arithmetic is right, and the same at compile time and run time",
  "Arithmetic, bitwise operations, comparisons and conversions on 64-bit integers, fixed-width signed and unsigned integers, booleans and floats of 16, 32, 64 and 128 bits give the mathematically defined (wrapping, truncating, correctly rounded) result for every operand pair for which the operation is defined. Replacing operands by constants, or evaluating in a compile-time context, gives the same result as evaluating the same expression on run-time values.",
  ["inputs", "programs"], "all operand values and all expressions over them, with any mixture of constants and variables",
  "No stable test folds a constant or executes an arithmetic operation; boundary pairs are too many to list.",
  [C + "transform/folding/const_fold.cpp", C + "transform/folding/rule.h", "stdlib/internal/types", "codon/parser/visitors/typecheck/op.cpp", C + "llvm/llvisitor.cpp"],
  [("constant folding rules", C + "transform/folding/const_fold.cpp"), ("static expression evaluation", "codon/parser/visitors/typecheck/op.cpp"), ("run-time operators", "stdlib/internal/types/int.codon, intn.codon, float.codon")])
prop("C05", "Values survive the way to text and back",
  "Printing an integer (of any width), float or boolean and reading the text back gives the same value (for a float, the text with 17 significant digits), and str, repr, f-strings and format specifications produce the text Python produces for the same value, except that str of a float is its %g text. Text that is not a number is rejected.",
  ["inputs"], "all values, all format specifications, all texts",
  "No stable test prints or parses a value.",
  ["codon/runtime/lib.cpp", "stdlib/internal/format.codon", "stdlib/internal/str.codon", "stdlib/internal/types"],
  [("formatting and parsing primitives", "codon/runtime/lib.cpp"), ("format protocol", "stdlib/internal/format.codon")])
prop("C06", "Strings and regular expressions behave as Python's",
  "Every string method, slice, search, split, join, case and predicate operation on ASCII text returns what Python returns. Compiling a regular expression of the common syntax and matching, searching, splitting or substituting with it gives Python's spans, groups and texts, whatever was compiled or purged before.",
  ["inputs", "histories"], "all strings, arguments, patterns and subjects, and all orders of compiling and matching",
  "No stable test touches strings or regular expressions.",
  ["stdlib/internal/str.codon", "stdlib/internal/types/str.codon", "stdlib/re.codon", "codon/runtime/re.cpp"],
  [("string algorithms", "stdlib/internal/str.codon"), ("pattern cache and span conversion", "codon/runtime/re.cpp")])
prop("C07", "Containers stay equal to their models over any history of operations",
  "After any sequence of operations, a list, dict, set, deque, heap, counter, default or ordered dict holds exactly the elements the corresponding Python object would hold, each operation returned or raised what Python's would, and every way of reading it (length, iteration, membership, equality, indexing) agrees. Copies are independent of the original.",
  ["histories", "inputs"], "all operation histories with all keys and values",
  "No stable test runs library code; container state depends on the whole history (growth, deletion, collisions).",
  ["stdlib/internal/types/collections", "stdlib/internal/khash.codon", "stdlib/collections.codon", "stdlib/heapq.codon", "stdlib/bisect.codon"],
  [("hash table", "stdlib/internal/khash.codon"), ("list growth and slices", "stdlib/internal/types/collections/list.codon")])
prop("C08", "Sorting yields an ordered, stable permutation",
  "Sorting any sequence with any of the provided algorithms, key or direction yields a permutation of the input in non-decreasing key order; the default sort keeps equal elements in their input order. The same holds for arrays sorted by the vectorised run-time routine.",
  ["inputs"], "all sequences (sorted, reversed, constant, adversarial, large), keys, directions and algorithms",
  "No stable test sorts anything.",
  ["stdlib/algorithms", "stdlib/internal/sort.codon", "codon/runtime/numpy/sort.cpp"],
  [("algorithms", "stdlib/algorithms"), ("vectorised sort entry points", "codon/runtime/numpy/sort.cpp")])
prop("C09", "Pure library modules agree with CPython's",
  "A call of a function of the library modules that Codon reimplements (math, cmath, itertools, functools, operator, statistics, datetime, time conversions, string, textwrap-like helpers, copy, bisect, heapq, random with a fixed seed) returns what CPython's module returns, or raises where it raises.",
  ["inputs", "programs"], "all arguments in the domain the two implementations share",
  "No stable test runs library code.",
  ["stdlib/math.codon", "stdlib/itertools.codon", "stdlib/functools.codon", "stdlib/statistics.codon", "stdlib/datetime.codon", "stdlib/random.codon", "stdlib/bisect.codon"],
  [("module implementations", "stdlib")])
prop("C10", "Array expressions agree with NumPy, fused or not",
  "Creating, indexing, slicing, broadcasting, reducing and combining arrays gives the shape, element type and elements that NumPy gives. Fusing an array expression into one loop, forwarding temporaries and eliding index checks never changes the result.",
  ["programs", "inputs", "configurations"], "all shapes, strides, element types and expression trees",
  "No stable test uses arrays; fusion depends on the whole expression and its context.",
  [C + "transform/numpy", "stdlib/numpy", "codon/runtime/numpy"],
  [("expression fusion", C + "transform/numpy/numpy.cpp, expr.cpp"), ("forwarding", C + "transform/numpy/forward.cpp"), ("array library", "stdlib/numpy")])
prop("C11", "A parallel loop computes what the sequential loop computes",
  "A loop whose iterations are independent, or combine through a supported reduction, leaves the same variables, containers and reduction results when it is run in parallel as when it is run sequentially. This holds for any number of threads, schedule, chunk size, step, collapse depth and iteration count, including none.",
  ["schedules", "programs", "configurations"], "all loop bodies of the supported form, thread counts, schedules and interleavings",
  "No stable test runs a loop, in parallel or not.",
  [C + "transform/parallel", "stdlib/openmp.codon", C + "util/outlining.cpp"],
  [("outlining and reductions", C + "transform/parallel/openmp.cpp"), ("schedule clauses", C + "transform/parallel/schedule.cpp"), ("run-time templates", "stdlib/openmp.codon")])
prop("C12", "Reachable objects survive collection and are never corrupted",
  "However often garbage collection runs and wherever the only reference lives (local, global, closure, generator frame, container, thread, pinned by run-time loaded code), an object that the program can still reach keeps its contents, and objects that are not reachable do not make memory grow without bound.",
  ["programs", "histories", "schedules"], "all shapes of object graph and all points at which a collection happens",
  "No stable test allocates from the collected heap.",
  ["codon/runtime/lib.cpp", "codon/compiler/memory_manager.cpp", C + "llvm/llvisitor.cpp", C + "llvm/optimize.cpp"],
  [("atomic or scanned allocation choice", C + "llvm/llvisitor.cpp, stdlib/internal/gc.codon"), ("root registration of loaded sections", "codon/compiler/memory_manager.cpp")])
prop("C13", "Generators and coroutines keep their state across suspension",
  "A generator resumes exactly where it stopped with all its variables intact, produces its values lazily and in order, receives what is sent to it, stops for good when it is exhausted, and may be interleaved, nested or abandoned at will. Generator expressions, delegation and the pipelines built from them give the elements that the equivalent Python generators give.",
  ["programs", "histories"], "all generator bodies and all interleavings of resuming them",
  "No stable test executes a generator.",
  [C + "llvm/llvisitor.cpp", C + "transform/pythonic/generator.cpp", "stdlib/internal/types/generator.codon", C + "transform/lowering"],
  [("coroutine lowering", C + "llvm/llvisitor.cpp"), ("generator idiom rewriting", C + "transform/pythonic/generator.cpp")])
prop("C14", "An interactive session equals one program, whatever fails in between",
  "Feeding code cell by cell to one just-in-time session has the same effect as running the concatenation of the cells that succeed: definitions and values persist, redefinitions shadow, imports stay. A cell that fails to parse, fails to type-check or raises leaves the session usable and all earlier definitions as they were.",
  ["histories", "fault_sequences"], "all cell sequences, including failing ones at any place",
  "No stable test opens a session; recovery depends on the whole history.",
  ["codon/compiler/jit.cpp", "codon/compiler/engine.cpp", "codon/compiler/memory_manager.cpp", C + "module.h"],
  [("session state and undo", "codon/compiler/jit.cpp JITState"), ("incremental code generation", C + "llvm/llvisitor.cpp")])
prop("C15", "Any source text yields a program or a located diagnostic, never a crash",
  "For every input text the compiler either accepts it or reports an error with a message and a position inside the text; it does not crash, abort or hang. Changing only layout (comments, blank lines, redundant parentheses, indentation width, line joining) does not change the meaning, and a definite error is reported on the line it is on.",
  ["inputs", "programs"], "all texts, in particular all small mutations of valid programs",
  "No stable test parses text.",
  ["codon/parser/peg", "codon/parser/ast", "codon/parser/visitors", "codon/compiler/error.cpp"],
  [("grammar and actions", "codon/parser/peg/grammar.peg, rules.h"), ("indentation and located errors", "codon/parser/peg/peg.cpp, codon/compiler/error.h"), ("simplification and type checking", "codon/parser/visitors")])
prop("C16", "Calls, generics and compile-time evaluation resolve as declared",
  "A call binds positional, keyword, default, starred and partial arguments to the parameters Python would bind them to, picks the last-declared overload whose types fit, instantiates generic code separately for every type it is used with, and evaluates compile-time conditions as the same condition at run time. A call that fits no parameter list and a use at a wrong type are rejected at compile time.",
  ["programs"], "all signatures, calls, type arguments and compile-time conditions",
  "No stable test type-checks a program.",
  ["codon/parser/visitors/typecheck", "codon/parser/ast/types"],
  [("argument reordering and partials", "codon/parser/visitors/typecheck/call.cpp"), ("inference and realisation", "codon/parser/visitors/typecheck/infer.cpp"), ("static conditions", "codon/parser/visitors/typecheck/cond.cpp, op.cpp")])
prop("C17", "Type unification is a sound, undoable most-general match",
  "Unifying two types succeeds exactly when some assignment of their unknowns makes them equal, in either order of the arguments, and then makes them equal without binding more than needed; it never makes a type contain itself. A trial unification, and an undone one, leave every type as it was; copying a generic type gives fresh unknowns that share nothing with the original.",
  ["inputs", "histories"], "all pairs of types, with shared unknowns, literals, nested generics and any earlier unifications",
  "The stable tests construct no types of the checker.",
  ["codon/parser/ast/types"],
  [("links and unknowns", "codon/parser/ast/types/link.cpp"), ("classes and generics", "codon/parser/ast/types/class.cpp"), ("literals", "codon/parser/ast/types/static.cpp"), ("undo log", "codon/parser/ast/types/type.cpp")])
prop("C18", "Syntax trees survive copying, visiting and printing",
  "A copy of a syntax tree prints the same as the original, keeps every location, attribute and field, shares no node with it, and neither changes when the other is edited; a clean copy carries no inferred types or completion marks. A visitor sees every child exactly once, and a replacing visitor puts exactly the node it returned in the child's place. Printed trees tell different names, literals, operators and shapes apart, text escaping is undone by unescaping, and a literal node has the value its text denotes.",
  ["inputs", "programs"], "all trees, all values stored in them, and all single edits of a tree",
  "No stable test builds, copies or prints a syntax tree.",
  ["codon/parser/ast/expr.cpp", "codon/parser/ast/stmt.cpp", "codon/parser/ast/node.h", "codon/parser/visitors/visitor.h", "codon/parser/common.cpp"],
  [("clone and toString of each node", "codon/parser/ast/expr.cpp, stmt.cpp"), ("child visiting and replacing", "codon/parser/visitors/visitor.h, visitor.cpp"), ("text escaping", "codon/parser/common.cpp")])
prop("C19", "Editing the IR keeps every use, owner and lookup consistent",
  "After any sequence of creating, inserting, replacing and removing IR nodes, every node lists exactly the values, types and variables it refers to, each reference resolves to the final replacement, and the module finds exactly the nodes that were created and not removed. Replacing a used value, type or variable changes every occurrence and nothing else, and discarding a scratch arena removes exactly what was created in it.",
  ["histories"], "all sequences of IR edits on all node kinds",
  "The stable tests apply one edit to one node of each kind.",
  [C + "base.h", C + "base.cpp", C + "value.cpp", C + "flow.cpp", C + "instr.cpp", C + "func.cpp", C + "var.cpp", C + "module.cpp", C + "transform/cleanup/replacer.cpp"],
  [("used/replace interface", C + "base.h, flow.cpp, instr.cpp, func.cpp"), ("arenas and maps", C + "module.h, module.cpp")])
prop("C20", "IR copies are equal, independent, and equality tells programs apart",
  "A clone of any IR node matches the original, refers to the same outside entities and to its own copies of the inside ones, keeps attributes, locations and all scalar fields, and is unaffected by later edits of the original. Structural matching is reflexive, symmetric and false for any two nodes that differ in an operator, operand, constant, variable, type, field or flag, with the variables of a function compared by position. The printed text tells apart any two trees that differ in a node, operand, integer constant, variable, type or field it shows.",
  ["inputs", "programs"], "all IR trees and all single-point differences between two trees",
  "The stable tests compare a handful of fixed pairs and clone fixed nodes.",
  [C + "util/cloning.cpp", C + "util/matching.cpp", C + "util/format.cpp", C + "attribute.cpp"],
  [("clone visitor and remapping", C + "util/cloning.cpp"), ("structural matching", C + "util/matching.cpp"), ("printer", C + "util/format.cpp")])
prop("C21", "Program analyses never contradict an execution",
  "On every execution of every program: the assignment that last wrote a variable is among the definitions reported as reaching each read of it, a value reported as dominating a point was evaluated before it, control only moves along reported edges, and a call reported as free of side effects or as not capturing an argument does not write, raise, call out or keep that argument.",
  ["programs", "schedules", "inputs"], "all control-flow graphs and all paths through them",
  "The stable tests check two small fixed functions.",
  [C + "analyze/dataflow", C + "analyze/module"],
  [("control-flow graph", C + "analyze/dataflow/cfg.cpp"), ("reaching definitions", C + "analyze/dataflow/reaching.cpp"), ("dominators", C + "analyze/dataflow/dominator.cpp"), ("captures", C + "analyze/dataflow/capture.cpp"), ("side effects", C + "analyze/module/side_effect.cpp")])
prop("C22", "Passes run in order and never see a stale analysis",
  "For any set of registered passes and analyses with any requirements, invalidations, insertion positions and disabled names, the manager runs each enabled pass in the registered order as often as asked. Whenever a pass or analysis reads a required result, that result was computed after the last pass that invalidates it or anything it was computed from, and it is recomputed no more than that.",
  ["histories", "configurations"], "all registration orders, dependency graphs, invalidation sets and disabled sets",
  "The stable tests register three fixed stubs.",
  [C + "transform/manager.cpp", C + "transform/manager.h", C + "transform/pass.cpp"],
  [("dependency-ordered analysis runs and invalidation", C + "transform/manager.cpp")])
prop("C23", "Machine code does what the IR says",
  "Executing the machine code generated for any well-formed IR function gives the result, the order of external calls and the exceptions that the meaning of its instructions prescribes. This holds for every nesting of flows, calls, aggregates, pointers, generators and protected regions, with and without debug information.",
  ["programs", "inputs"], "all well-formed IR functions and arguments",
  "No stable test generates code.",
  [C + "llvm/llvisitor.cpp", C + "llvm/optimize.cpp"],
  [("code generator", C + "llvm/llvisitor.cpp")])
prop("C24", "Inlining and outlining preserve behaviour",
  "Replacing a call by the body of the called function, and moving a region of a function into a new function, leave results, the order of external calls, exceptions and the values of all variables afterwards unchanged, or report that the transformation is impossible and change nothing.",
  ["programs", "inputs"], "all functions, call sites and regions",
  "No stable test inlines or outlines.",
  [C + "util/inlining.cpp", C + "util/outlining.cpp", C + "util/irtools.cpp"],
  [("inlining", C + "util/inlining.cpp"), ("outlining", C + "util/outlining.cpp")])
prop("C25", "Floating-point width conversions are correctly rounded",
  "Widening a float is exact, and narrowing rounds to the nearest representable value with ties to even, for every bit pattern of the source, including subnormals, overflow to infinity, signed zero, infinities and NaN (which stays NaN).",
  ["inputs"], "all bit patterns of all source formats",
  "No stable test calls a conversion.",
  ["codon/runtime/floatlib"],
  [("truncation", "codon/runtime/floatlib/fp_trunc.h, truncdfhf2.c, truncsfbf2.c"), ("extension", "codon/runtime/floatlib/fp_extend.h")])
prop("C26", "Run-time loaded code keeps its content, protection and roots",
  "For every object loaded into the process, each section is placed at the assigned address with its exact bytes, zero-filled tail, alignment and requested access rights, writable sections are known to the collector, finalisation actions run once before use and release actions run once in reverse order when the code is dropped.",
  ["histories", "fault_sequences", "inputs"], "all section layouts, action lists, failing actions, and orders of loading and dropping",
  "No stable test loads code.",
  ["codon/compiler/memory_manager.cpp", "codon/compiler/memory_manager.h", "codon/compiler/engine.cpp"],
  [("allocation, protection and release", "codon/compiler/memory_manager.cpp")])
prop("C27", "Compiling the same program twice gives the same code",
  "Compiling one program repeatedly, in the same or a new process, gives identical intermediate code and the same behaviour, whatever addresses objects happen to get and whatever else was compiled before.",
  ["programs", "configurations"], "all programs, address layouts and compilation histories",
  "No stable test compiles anything twice.",
  ["codon/parser", "codon/cir", "codon/compiler"],
  [("iteration over unordered containers in passes", C + "transform/parallel/openmp.cpp, " + C + "util/outlining.cpp, codon/parser/visitors")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
