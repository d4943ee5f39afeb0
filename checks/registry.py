"""Which machinery decides which property, and the listed known findings."""
import os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Spec:
    def __init__(self, irh=(), py=(), technique="", note=""):
        # irh: (harness property, quick seconds, thorough seconds); py: (module, quick seconds, thorough seconds)
        self.irh, self.py, self.technique, self.note = list(irh), list(py), technique, note

    def targets(self):
        t = []
        if self.irh: t.append("irh")
        if self.py: t += ["all"]
        return t


SPECS = {
    "C17": Spec(irh=[("C17", 30, 600)],
                technique="model-based property testing: random systems of type equations against an independent first-order unifier, with undo histories",
                note="Random types (unknowns of any level and literal kind, links, classes with visible and hidden parameters, tuples, literals, integers of a width, functions, generics) are unified in sequence, tried, undone, generalised and instantiated; outcome, solution, levels, snapshots of every link and realised names are compared with an independent unifier. Every class and function type of the standard library is put through the same trials. Sampling, bounded size."),
    "C18": Spec(irh=[("C18", 30, 600)],
                technique="metamorphic property testing: random syntax trees copied, visited, edited and printed against a generic field-by-field description",
                note="Random expressions and statements of every node kind are copied (plainly and cleanly), edited on one side, visited and rewritten; printed text, locations, attributes, identity of nodes and visit counts are compared with an independent description. Escape/unescape and literal values are checked on random text. Sampling, bounded tree size."),
    "C19": Spec(irh=[("C19", 45, 600)],
                technique="model-based property testing: random IR graphs and edit sequences against independent use lists, a substitution model and a membership model",
                note="Random IR trees of every node kind are edited (replace used value/variable/type, replaceAll, remove, arenas, cleanup pass); reported uses, substitution counts, identities, module membership, walks and interpreted behaviour are compared with an independent model. Sampling, bounded tree size."),
    "C20": Spec(irh=[("C20", 45, 600)],
                technique="metamorphic property testing: random IR trees, clone/mutate/match/print against an independent field-by-field comparison",
                note="Random IR trees of every node kind are cloned, printed and matched, then one field of one node is mutated; an independent structural comparison decides what clone, match and text must say. Sampling, bounded tree size."),
    "C21": Spec(irh=[("C21", 45, 600)],
                technique="property testing of program analyses: random IR programs, analysis results against monitored executions of a reference interpreter",
                note="Generated IR programs are analysed, then run by a reference interpreter that reports every evaluation, read and write; each reported edge set, dominator and reaching definition must be consistent with every execution. Sampling, bounded program size."),
    "C22": Spec(irh=[("C22", 25, 300)],
                technique="model-based property testing: random pass and analysis registrations against a timestamp model of validity",
                note="Random dependency graphs of passes and analyses (requirements, invalidations, insertion points, disabled names, repeats, nested runs) are registered and run; order, repetition and freshness of every result read are compared with a model. Sampling, bounded size."),
    "C23": Spec(irh=[("C23", 45, 700)],
                technique="differential property-based testing: random IR programs, machine code against a reference interpreter",
                note="Generated IR programs (arithmetic, tuples, references, globals, pointers, calls, function values, loops, try/finally, generators, pipelines) are lowered to machine code with and without LLVM optimisation and run in-process; every external call must match a reference interpreter of the IR. Sampling, bounded program size."),
    "C24": Spec(irh=[("C24", 45, 600)],
                technique="metamorphic property testing: random IR programs interpreted before and after inlining a random call or outlining a random region",
                note="Calls of random generated functions (returns anywhere, loops, try/finally, recursion) are expanded and random regions (with break, continue, return, raise, pointers, globals) are moved out; a reference interpreter must see the same external calls and results, variables must stay owned, refusals must change nothing. Sampling, bounded program size."),
    "C25": Spec(irh=[("C25", 20, 300)],
                technique="property-based testing of float conversions against an integer-arithmetic rounding oracle over structured and exhaustive bit patterns",
                note="All 65536 half patterns and structured random 32/64/128-bit patterns (around every rounding and range boundary) go through each conversion routine; the result is compared with a rounding computed from integer arithmetic. Half sources are exhaustive, the rest is sampling."),
    "C26": Spec(irh=[("C26", 20, 300)],
                technique="model-based property testing: random link graphs and allocate/finalise/abandon/release histories against a model of memory, protection, roots and actions",
                note="Random sections (sizes, alignments, rights, zero-fill, lifetimes) with allocation actions, some failing, are loaded and released in random interleavings; addresses, bytes, /proc/self/maps rights, collector roots and action order are compared with a model. Sampling."),
    "C04": Spec(py=[("p04", 45, 600)],
                technique="differential property-based testing of the compiled language: random scalar expressions, folded and unfolded, against an exact integer/IEEE oracle",
                note="Random expressions over int, Int[N]/UInt[N], float, float32, bool, byte and conversions are evaluated through variables, through literals (folded at compile time) and as static expressions, in release and debug mode and under both numeric semantics; bits are compared with an exact oracle. Sampling, bounded expression size."),
    "C01": Spec(py=[("p01", 60, 700)],
                technique="differential property-based testing: random programs of the common subset compiled (-release and debug, -numerics=py), CPython as the oracle",
                note="Random programs (classes and inheritance, closures, lambdas, generators, comprehensions, exceptions, with, for/while-else, slicing, formatting, containers, evaluation-order logs) are compiled and run; output and uncaught exceptions must match CPython 3.12. Constructs in which Codon departs from CPython by design, and the listed findings, are not generated. Sampling, bounded program size."),
    "C03": Spec(py=[("p03", 40, 600)],
                technique="differential property-based testing: random nestings of try/except/else/finally, with, loops and exits, CPython as the oracle",
                note="Random functions and generators that nest protected regions, loops with else, context managers and every kind of exit log each step; the log, the value and the way an uncaught exception ends the process must match CPython, with and without optimisation. Sampling, bounded nesting."),
    "C05": Spec(py=[("p05", 35, 500)],
                technique="differential and round-trip property-based testing: random values, format specifications and texts, CPython as the oracle",
                note="str, repr, f-strings, format specifications, int() and float() of generated values and texts must equal CPython's (str of a float is %g text by design; 17 digits must round-trip bit for bit); integers of every width are printed and compared with exact text. Sampling."),
    "C06": Spec(py=[("p06", 40, 600)],
                technique="differential property-based testing: random strings, arguments and regular expressions, CPython as the oracle",
                note="Every string method on short texts of a small alphabet with generated arguments, and match/search/fullmatch/findall/finditer/split/sub with generated patterns, flags and subjects must give CPython's value or exception. Patterns on which RE2's and Python's definitions differ are not generated. Sampling."),
    "C02": Spec(py=[("p02", 60, 700)],
                technique="differential property-based testing: random programs and idioms compiled without optimisation, with it and with single passes disabled; CPython as the reference",
                note="Programs rich in what the passes look for (constant operands, dictionary updates, concatenations, generator arguments, counting loops, globals, dead code), with traced operands, are run unoptimised, optimised, and optimised with a varying set of passes off; output, order of effects and exceptions must agree with each other and with CPython. Sampling, bounded program size; executables are not built."),
    "C07": Spec(py=[("p07", 50, 600)],
                technique="model-based property testing: random operation histories on containers, CPython's containers as the model",
                note="Generated histories (lists, dicts, sets, deques with and without maxlen, heaps, bisect, counters, defaultdicts) over several key types, long and short, with aliases and copies; every result, exception and state must equal CPython's. Iteration order of dicts and sets is not part of it. Sampling, bounded length."),
    "C08": Spec(py=[("p08", 35, 400)],
                technique="differential property-based testing: generated arrays of many shapes, keys, directions and algorithms against CPython's sorted",
                note="Arrays of 0 to 5000 elements in twelve shapes are sorted by each algorithm, key and direction; the default sort must equal CPython's result element by element (stability), the others its key sequence and its elements. The vectorised run-time routine is not covered: the library it wraps is not available here. Sampling."),
    "C09": Spec(py=[("p09", 40, 400)],
                technique="differential property-based testing: library functions on generated arguments against CPython's modules",
                note="math, itertools, statistics, operator, datetime and the built-in iteration functions get generated arguments, including edge cases and invalid ones; value (bit for bit) or exception must equal CPython's. cmath, random, string, time and functools.partial are not exercised. Sampling."),
}


class Known:
    def __init__(self, text, kind, path, expect):
        self.text, self.kind, self.path, self.expect = text, kind, path, expect

    def still_fails(self, work):
        import known
        return known.replay(self, work)


def known(pid):
    """entries of known-findings.txt: 'finding: property=<id> <what fails> | <kind> <path> <expectation>' and 'fixed: ...'"""
    res = []
    f = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(f): return res
    for line in open(f):
        m = re.match(r"finding: property=(\S+) (.*?) \| (\S+) (\S+) ?(.*)$", line.strip())
        if m and m.group(1) == pid: res.append(Known(m.group(2), m.group(3), m.group(4), m.group(5)))
    return res
