"""C02: optimised, unoptimised and partly optimised builds of a program do the same; CPython's behaviour is the reference."""
import e2e, progen
from e2e import Case, RELPY, DBGPY, disabled

PRE = '''
LOG = []
def t(k, v):
    LOG.append(k)
    return v
def fl():
    print('log', LOG)
    LOG.clear()
def bad(k: int) -> int:
    LOG.append(k)
    if k % 3 == 0: raise ValueError('bad')
    return k
'''
CODON_PRE = PRE.replace("LOG = []", "LOG = List[int]()")


class G:
    """expressions over int, str, List[int], Dict[int,int] variables; any operand may be traced"""
    def __init__(self, s):
        self.s, self.k, self.gl = s, 0, []

    def tr(self, e):
        if self.s.below(4) == 0:
            self.k += 1
            return "t(%d, %s)" % (self.k, e)
        return e

    def int(self, d=2):
        s = self.s
        if d <= 0 or s.below(4) == 0: return self.tr(s.pick(["x", "y", "i", "g0", "g1", "C0", str(s.range(-3, 9)), "0", "1"]))
        k = s.below(15)
        a, b = self.int(d - 1), self.int(d - 1)
        if k < 4: return self.tr("(%s %s %s)" % (a, s.pick(["+", "-", "*", "&", "|", "^"]), b))
        if k == 4: return "(%s %s %s)" % (a, s.pick(["//", "%"]), s.pick(["3", "7", "-2", "(1 + abs(%s))" % b]))
        if k == 5: return "(%s %s %d)" % (a, s.pick(["<<", ">>"]), s.range(0, 5))
        if k == 6: return "(%s if %s else %s)" % (a, self.bool(d - 1), b)
        if k == 7: return "len(%s)" % s.pick([self.lst(d - 1), self.str(d - 1)])
        if k == 8: return "(%s).get(%s, %s)" % (s.pick(["d", "e"]), a, b)
        if k == 9: return "sum(%s)" % self.genexpr(d - 1)
        if k == 10: return "-%s" % a if not a.startswith("-") else a
        if k == 11: return "(%s %s %s)" % (a, s.pick(["*", "+", "-"]), s.pick(["0", "1", "-1", "2"]))
        if k == 12: return "(%s %s %s)" % (s.pick(["0", "1", "-1", "2"]), s.pick(["*", "+", "-"]), a)
        if k == 13: return "int(%s)" % self.bool(d - 1)
        return "(lambda p: p %s %s)(%s)" % (s.pick(["+", "*"]), s.pick(["x", "2"]), a)

    def genexpr(self, d):
        s = self.s
        return "%s for z in %s%s" % (s.pick(["z", "z * 2", "z + x", "t(%d, z)" % (self.k + 1), "z * y"]), s.pick(["range(%s)" % s.pick(["3", "x & 3", "-1", "2, 9, 3", "9, 0, -2"]), self.lst(d)]), s.pick(["", "", " if z % 2 == 0", " if z > 1"]))

    def bool(self, d=2):
        s = self.s
        k = s.below(7)
        if d <= 0 or k == 0: return "(%s %s %s)" % (self.int(0), s.pick(["<", "<=", "==", "!=", ">", ">="]), self.int(0))
        if k == 1: return "(%s %s %s)" % (self.bool(d - 1), s.pick(["and", "or"]), self.bool(d - 1))
        if k == 2: return "(not %s)" % self.bool(d - 1)
        if k == 3: return "%s(%s for z in %s)" % (s.pick(["any", "all"]), s.pick(["z > x", "z == 1", "t(%d, z) < 3" % (self.k + 1), "z != y"]), s.pick(["range(4)", "l", self.lst(d - 1)]))
        if k == 4: return "(%s in %s)" % (self.int(d - 1), s.pick(["l", "d", "(1, 2, 5)", "[3, x]"]))
        if k == 5: return self.tr(s.pick(["True", "False", "(x < y)"]))
        return "(%s %s %s)" % (self.int(d - 1), s.pick(["<", "<=", "==", "!=", ">", ">="]), self.int(d - 1))

    def str(self, d=2):
        s = self.s
        if d <= 0 or s.below(3) == 0: return self.tr(s.pick(["u", "'ab'", "''", "str(x)", "w", "S0"]))
        k = s.below(6)
        if k < 3: return self.tr("(" + " + ".join(self.str(d - 1) for _ in range(s.range(2, 5))) + ")")
        if k == 3: return "f'{%s}-{%s}'" % (s.pick(["x", "y", "u", "x + 1"]), s.pick(["w", "x", "i"]))
        if k == 4: return "(%s * %s)" % (self.str(d - 1), s.pick(["2", "0", "(x & 3)"]))
        return "%s.join([%s])" % (s.pick(["','", "u"]), ", ".join(self.str(d - 1) for _ in range(s.range(1, 3))))

    def lst(self, d=2):
        s = self.s
        if d <= 0 or s.below(3) == 0: return s.pick(["l", "m", "[x]", "[x, 2]", "[1, 2, 3]"])
        k = s.below(6)
        if k < 3: return "(" + " + ".join(s.pick(["l", "m", "[%s]" % self.int(d - 1), "l[%s]" % self.sl(), "m[%s]" % self.sl(), "[%s, %s]" % (self.int(0), self.int(0)), self.lst(d - 1)]) for _ in range(s.range(2, 5))) + ")"
        if k == 3: return "[%s]" % self.genexpr(d - 1)
        if k == 4: return "list(range(%s))" % s.pick(["3", "x & 3", "5, 1, -1"])
        return "sorted(%s)" % self.lst(d - 1)

    def sl(self):
        s = self.s
        o = lambda: s.pick(["", "1", "-1", "x", "2", "-9", "99", "0"])
        return o() + ":" + o() + (s.pick(["", "", ":2", ":-1", ":1"]))

    def stmt(self, d, ind, loop):
        s, p = self.s, "    " * ind
        k = s.weighted([(4, "set"), (3, "dict"), (2, "print"), (2 if d > 0 else 0, "if"), (3 if d > 0 else 0, "for"), (1 if d > 0 else 0, "while"), (1 if d > 0 else 0, "try"), (2, "aug"), (1, "list"), (1, "fl"), (1 if loop else 0, "exit"), (1, "glob"), (1, "dead"), (1, "expr")])
        mask = lambda e: "(%s) & 1023" % e
        if k == "set":
            v = s.pick(["x", "y"])
            return [p + "%s = %s" % (v, mask(self.int(3)))]
        if k == "dict":
            dd, key = s.pick(["d", "e"]), s.pick(["x", "y", "x & 3", "i", "1"])
            dflt, op, ex = s.pick(["0", "1", "y", "5"]), s.pick(["+", "-", "*", "|", "^", "&"]), s.pick(["1", "x", "2", "y & 7", "t(%d, y)" % (self.k + 2)])
            forms = ["%(d)s[%(k)s] = %(d)s.get(%(k)s, %(f)s) %(o)s %(e)s", "%(d)s[%(k)s] %(o)s= %(e)s", "%(d)s[%(k)s] = %(e)s", "%(d)s[%(k)s] = %(d)s.get(%(k)s, %(f)s) %(o)s %(d)s.get(%(k)s, %(e)s)", "%(d)s[%(k)s] = %(d2)s.get(%(k)s, %(f)s) %(o)s %(e)s", "%(d)s[%(k)s] = %(e)s %(o)s %(d)s.get(%(k)s, %(f)s)", "%(d)s[%(k)s] = max(%(d)s.get(%(k)s, %(f)s), %(e)s)", "%(d)s[%(k)s] = %(d)s[%(k)s] %(o)s %(e)s"]
            f = s.pick(forms) % dict(d=dd, d2="e" if dd == "d" else "d", k=key if "t(" not in key or True else key, f=dflt, o=op, e=ex)
            if "t(" in key and "[t(" in f: f = f.replace(key, "x & 7")
            if f.count("] %s=" % op) or "] = %s[" % dd in f: return [p + "try:", p + "    " + f, p + "except KeyError:", p + "    print('!KeyError')", p + "for q_ in %s: %s[q_] &= 1023" % (dd, dd)]
            return [p + f, p + "for q_ in %s: %s[q_] &= 1023" % (dd, dd)]
        if k == "print": return [p + s.pick(["print(%s)" % self.str(2), "print(%s, %s)" % (self.int(1), self.str(1)), "print(%s + %s)" % (self.str(1), self.str(1)), "print(%s, sep='')" % self.int(2), "print(f'{%s}')" % "x", "print(%s)" % self.lst(2), "print(%s)" % self.bool(2), "print(%s, end=';')" % self.str(2), "print(str(%s) + %s)" % (self.int(1), self.str(1))])]
        if k == "if":
            r = [p + "if %s:" % self.bool(2)] + self.block(d - 1, ind + 1, loop)
            if s.flip(): r += [p + "else:"] + self.block(d - 1, ind + 1, loop)
            return r
        if k == "for":
            it = s.pick(["range(3)", "range(x & 3)", "range(5, 0, -2)", "range(y & 3, x & 7)", "range(0)", "list(range(2))", "l[:3]", "range(4, -1, %s)" % s.pick(["-1", "1", "-3"]), "reversed(range(3))", "range(1, 8, 1 + (x & 3))"])
            r = [p + "for i in %s:" % it] + self.block(d - 1, ind + 1, True)
            if s.below(4) == 0: r += [p + "else:", p + "    print('else')"]
            return r
        if k == "while":
            self.k += 1
            c = "c%d_%d" % (ind, self.k)
            return [p + "%s = %d" % (c, s.range(0, 3)), p + "while %s > 0%s:" % (c, s.pick(["", " and %s" % self.bool(1)])), p + "    %s -= 1" % c] + self.block(d - 1, ind + 1, True)
        if k == "try":
            return [p + "try:"] + self.block(d - 1, ind + 1, loop) + [p + "    %s = bad(%s)" % (s.pick(["x", "y"]), self.int(0)), p + "except ValueError:", p + "    print('caught', x, y)"] + ([p + "finally:", p + "    y = %s" % mask(self.int(1))] if s.flip() else [])
        if k == "aug": return [p + "%s %s= %s" % (s.pick(["x", "y"]), s.pick(["+", "-", "*", "^", "|", "&"]), self.int(1)), p + "x &= 1023", p + "y &= 1023"]
        if k == "list": return [p + s.pick(["l.append(%s)" % self.int(1), "l = %s" % self.lst(2), "m = l[:4]", "l += [%s]" % self.int(1), "m = l", "l = l[:6]"]), p + "if len(l) > 12: l = l[:3]"]
        if k == "fl": return [p + "fl()"]
        if k == "exit": return [p + "if %s: %s" % (self.bool(1), s.pick(["break", "continue"]))]
        if k == "glob": return [p + "g0 = %s" % mask(self.int(2))] if s.flip() else [p + "print(g0, g1, C0)"]
        if k == "dead": return [p + s.pick(["if False: print('dead')", "if C0 > 100: print('dead')", "z_ = %s" % self.int(2), "if 1 < 2: print(x)", "_ = %s" % self.bool(2), "if not True: x = 5", "while False: x = 7"])]
        return [p + s.pick(["t(%d, %s)" % (self.k, self.int(1)), "bad(1 + 3 * (%s & 1))" % self.int(1), "%s" % self.int(2)])]

    def block(self, d, ind, loop):
        r = []
        for _ in range(self.s.range(1, 3)): r += self.stmt(d, ind, loop)
        return r


def idioms(src):
    g = G(src)
    top = ["g0 = %d" % src.range(0, 9), "g1 = %d" % src.range(0, 9), "C0 = %d" % src.range(0, 9), "S0 = 'cs'"]
    top = [t.replace("g0", "g0_{N}").replace("g1", "g1_{N}").replace("C0", "C0_{N}").replace("S0", "S0_{N}") for t in top]
    f = ["def f_{N}(x: int, y: int, u: str, w: str, l: List[int], d: Dict[int, int]):", "    global g0", "    i = 0", "    m = [4, 5]", "    e = {1: 1}"]
    for _ in range(src.range(2, 7)): f += g.stmt(2, 1, False)
    f += ["    print(x, y, u, w, l, m, sorted(d.items()), sorted(e.items()), g0, g1)", "    fl()", "    return x + y"]
    import re
    top += [re.sub(r"\b(g0|g1|C0|S0)\b", r"\1_{N}", t) for t in f]
    body = ["print(f_{N}(%d, %d, '%s', '%s', [%s], {%s}))" % (src.range(0, 9), src.range(0, 20), src.pick(["", "u", "xyz"]), src.pick(["", "w"]), ", ".join(str(src.range(0, 9)) for _ in range(src.range(1, 4))), "%d: %d" % (src.range(0, 3), src.range(0, 9))) for _ in range(3)]
    body = [x for b in body for x in ("try:", "    " + b, "except ZeroDivisionError:", "    print('!Z')", "except ValueError:", "    print('!V')")]
    return Case(body, top, tag="", nontrivial=len(f) > 14)


PASSES = [["core-folding-pass-group"], ["core-cleanup-dce"], ["core-cleanup-canon"], ["core-cleanup-global-demote"], ["core-cleanup-physical-replace"],
          ["core-pythonic-str-addition-opt", "core-pythonic-io-cat-opt"], ["core-pythonic-list-addition-opt", "core-pythonic-dict-arithmetic-opt"], ["core-imperative-for-lowering"], ["core-pythonic-generator-argument-opt"],
          ["core-folding-pass-group", "core-cleanup-dce", "core-cleanup-canon", "core-imperative-for-lowering"]]


def run(pid, seed, budget, work, tier):
    subs = []
    n = len(PASSES)
    for j in range(3 if tier == "quick" else n):
        ps = PASSES[(seed + j) % n] if tier != "quick" else PASSES[(seed * 3 + j) % n]
        subs.append(e2e.Sub("idioms-%d" % j, "more than 14 lines", idioms, "cpython", [DBGPY, RELPY, disabled(ps, True)], CODON_PRE, "from typing import *\n" + PRE, batch=12, weight=3, limit=60))
        subs.append(e2e.Sub("programs-%d" % j, "more than 12 lines with a comprehension, closure, generator, class, exception, with or loop-else", progen.gen(frozenset(), False), "cpython", [RELPY, DBGPY, disabled(ps, True)], progen.CODON_PRE, progen.PY_PRE, batch=8, weight=1, limit=60))
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
