"""C01: random programs of the shared subset, CPython as the oracle."""
import e2e, progen


def run(pid, seed, budget, work, tier):
    rule = "more than 12 lines with at least one of: comprehension, closure, lambda, generator, class hierarchy, exception, with, loop-else, match"
    subs = [e2e.Sub("programs", rule, progen.gen(frozenset(), False), "cpython", [e2e.RELPY, e2e.DBGPY], progen.CODON_PRE, progen.PY_PRE, batch=12)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
