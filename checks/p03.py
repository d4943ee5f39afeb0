"""C03: nested try/except/else/finally, with, loops and every way of leaving them, traced; CPython as the oracle."""
import os, random, re, subprocess, time
import e2e
from e2e import Case

PRE = """
class E0(Exception):
    n: int
    def __init__(self, n: int):
        super().__init__("E0:" + str(n))
        self.n = n
class E1(E0):
    def __init__(self, n: int):
        super().__init__(n)
class E2(E1):
    def __init__(self, n: int):
        super().__init__(n)
class E3(Exception):
    n: int
    def __init__(self, n: int):
        super().__init__("E3:" + str(n))
        self.n = n
st = [0]
def seed(k: int):
    st[0] = k
def c(k: int) -> bool:
    st[0] = (st[0] * 1103515245 + 12345 + k) % 2147483648
    return (st[0] // 65536) % 3 != 0
def t(k):
    print(k, end=' ')
def boom(k: int) -> int:
    if k == 0: raise E0(k)
    if k == 1: raise E1(k)
    if k == 2: raise E2(k)
    if k == 3: raise E3(k)
    if k == 4: raise ValueError("v")
    if k == 5: raise KeyError("k")
    if k == 6: raise IndexError("i")
    if k == 7: raise OverflowError("o")
    if k == 8:
        a = [1]
        return a[k]
    if k == 9:
        d = {1: 2}
        return d[k]
    if k == 10: return int("x")
    if k == 11:
        assert k == 0, "as"
    return k
"""
CODON = PRE + """
class CM:
    k: int
    def __init__(self, k: int):
        self.k = k
    def __enter__(self):
        print('enter', self.k, end=' ')
        if self.k % 7 == 3: raise E0(self.k)
        return self.k
    def __exit__(self):
        print('exit', self.k, end=' ')
        if self.k % 7 == 5: raise E3(self.k)
"""
PY = "from __future__ import annotations\n" + PRE + """
class CM:
    def __init__(self, k):
        self.k = k
    def __enter__(self):
        print('enter', self.k, end=' ')
        if self.k % 7 == 3: raise E0(self.k)
        return self.k
    def __exit__(self, *a):
        print('exit', self.k, end=' ')
        if self.k % 7 == 5: raise E3(self.k)
"""
NAMES = ["E0", "E1", "E2", "E3", "ValueError", "KeyError", "IndexError", "OverflowError", "AssertionError", "ZeroDivisionError", "StopIteration"]
SUPER = {"E2": ["E2", "E1", "E0"], "E1": ["E1", "E0"], "E0": ["E0"], "E3": ["E3"], "KeyError": ["KeyError"], "IndexError": ["IndexError"]}


class G:
    def __init__(self, s, gens=False):
        self.s, self.k, self.feats, self.gens, self.limit = s, 0, set(), gens, s.range(15, 60)

    def mark(self):
        self.k += 1
        return self.k

    def simple(self, x):
        s = self.s
        ch = [(4, "t"), (3, "raise"), (2, "call"), (2, "acc")]
        if x["loop"]: ch += [(2, "break"), (2, "continue")]
        if x["func"] and not x["gen"]: ch += [(2, "return"), (1, "retcall")]
        if x["gen"]: ch += [(4 if not x.get("held") else 0, "yield"), (1, "retgen")]
        if x["handler"]: ch += [(3, "reraise")]
        k = s.weighted(ch)
        if k in ("break", "continue", "return", "retgen", "reraise", "raise"): self.feats.add(k)
        g = "if c(%d): " % self.mark() if s.chance(3, 4) else ""
        if k == "t": return ["t(%d)" % self.mark()]
        if k == "acc": return ["r += %d" % s.range(1, 9)]
        if k == "raise": return [g + ("raise %s" % s.pick(["E0(1)", "E1(2)", "E2(3)", "E3(4)", "ValueError('w')", "KeyError('q')"]) if s.flip() else "r += boom(%d)" % s.range(0, 11))]
        if k == "call": return ["%s(%d)" % (s.pick(x["calls"]), s.range(0, 5))] if x["calls"] else ["r += boom(20)"]
        if k in ("break", "continue"): return [g + k]
        if k == "return": return [g + "return r + %d" % self.mark()]
        if k == "retcall": return [g + "return r + boom(%d)" % s.range(0, 16)]
        if k == "yield": return ["yield r + %d" % self.mark()]
        if k == "retgen": return [g + "return"]
        if k == "reraise": return [g + "raise"]

    def block(self, d, x):
        res = []
        for _ in range(self.s.range(1, 3)): res += self.stmt(d, x)
        return res

    def stmt(self, d, x):
        s = self.s
        if d <= 0 or self.k > self.limit: return self.simple(x)
        k = s.weighted([(3, "simple"), (6, "try"), (2, "with"), (2, "for"), (1, "while"), (2, "if")])
        ind = lambda ls: ["    " + l for l in ls]
        if k == "simple": return self.simple(x)
        self.feats.add(k)
        if k in ("try", "with"): x = dict(x, held=True)  # CPython closes an abandoned generator at once, which nothing promises
        if k == "try":
            kind = s.weighted([(3, "e"), (3, "f"), (4, "ef"), (2, "ee"), (2, "eef")])
            res = ["try:"] + ind(self.block(d - 1, x))
            n = kind.count("e")
            for i in range(n):
                y = dict(x, handler=True)
                h = s.weighted([(4, "named"), (4, "as"), (2, "bare")])
                if h == "bare" and i + 1 < n: h = "named"
                if h == "named": head = "except %s:" % s.pick(NAMES)
                elif h == "bare": head = "except:"
                body = self.block(d - 1, y)
                if h == "as":
                    v = "e%d" % self.mark()
                    cl = s.pick(["E0", "E1", "E3", "Exception", "E0"])
                    head = "except %s as %s:" % (cl, v)
                    body = ["t(%s)" % (v + ".n" if cl != "Exception" else "len(str(%s)) > 0" % v if s.flip() else "700")] + body
                    if s.chance(1, 4): body += ["raise %s" % v]
                res += [head] + ind(["t(%d)" % self.mark()] + body)
            if n and s.chance(1, 3): res += ["else:"] + ind(["t(%d)" % self.mark()] + self.block(d - 1, x))
            if kind.endswith("f"):
                y = dict(x, handler=False)
                if s.chance(3, 4): y = dict(y, func=False, loop=False)  # else: leaving from a finally clause
                if x["gen"]: y = dict(y, gen=False, func=False)
                res += ["finally:"] + ind(["t(%d)" % self.mark()] + self.block(d - 1 if s.flip() else 0, y))
            return res
        if k == "with":
            n = s.range(1, 2)
            ks = ["CM(%d)" % s.range(0, 20) + (" as w%d" % self.mark() if s.flip() else "") for _ in range(n)]
            return ["with %s:" % ", ".join(ks)] + ind(self.block(d - 1, x))
        if k == "for":
            it = s.pick(["range(%d)" % s.range(0, 4), "[%s]" % ", ".join(str(i) for i in range(s.range(1, 3)))] + (["%s(%d)" % (s.pick(x["gencalls"]), s.range(0, 4))] if x["gencalls"] else []))
            i = "i%d" % self.mark()
            res = ["for %s in %s:" % (i, it)] + ind(["t(%s)" % i] + self.block(d - 1, dict(x, loop=True)))
            if s.chance(1, 3): res += ["else:"] + ind(self.block(d - 1, x))
            return res
        if k == "while":
            i = "j%d" % self.mark()
            res = ["%s = 0" % i, "while %s < %d:" % (i, s.range(1, 4))] + ind(["%s += 1" % i] + self.block(d - 1, dict(x, loop=True)))
            if s.chance(1, 3): res += ["else:"] + ind(self.block(d - 1, x))
            return res
        if k == "if":
            res = ["if c(%d):" % self.mark()] + ind(self.block(d - 1, x))
            if s.flip(): res += ["else:"] + ind(self.block(d - 1, x))
            return res


def gen(src):
    g = G(src)
    top = ["fuel_{N} = [40]"]
    calls, gencalls = [], []
    nf = src.range(1, 3)
    for i in range(nf):
        isgen = src.chance(1, 4)
        name = "%s%d_{N}" % ("g" if isgen else "f", i)
        x = dict(loop=False, func=True, gen=isgen, handler=False, calls=calls[:] + ([name] if not isgen and src.chance(1, 4) else []), gencalls=gencalls[:])
        body = g.block(src.range(2, 4), x)
        top += ["def %s(n: int)%s:" % (name, "" if isgen else " -> int")] + ["    fuel_{N}[0] -= 1", "    if fuel_{N}[0] < 0: return" + ("" if isgen else " 0"), "    r = n"]
        top += ["    " + l for l in body] + (["    yield r"] if isgen else ["    return r"])
        (gencalls if isgen else calls).append(name)
    last = calls[-1] if calls else None
    if last is None:
        top += ["def f9_{N}(n: int) -> int:", "    r = n", "    for q in %s(n):" % gencalls[-1], "        t(q)", "    return r"]
        last = "f9_{N}"
    body = ["for q in range(%d):" % src.range(4, 8), "    seed(q * 7919 + 13)", "    fuel_{N}[0] = 40", "    try:", "        print('=', %s(q))" % last]
    for e in NAMES:
        if e in ("E1", "E0"): continue
        body += ["    except %s:" % e, "        print('!%s')" % e]
    body += ["    except E0 as e:", "        print('!E0', e.n)"]
    return Case(body, top, nontrivial=len(g.feats & {"break", "continue", "return", "raise", "reraise", "with"}) >= 1 and "try" in g.feats)


EXCS = [("E0(5)", "E0"), ("E1(5)", "E1"), ("E3(6)", "E3"), ("ValueError('xyzzy')", "ValueError"), ("KeyError('q')", "KeyError"), ("IndexError('i')", "IndexError"), ("OSError('o')", "OSError")]


def uncaught(src):
    """one program that ends by an exception nobody handles -> (program, name, trace)"""
    ex, name = src.pick(EXCS)
    k = src.range(0, 4)
    lines, trace = ["def f0(n: int):", "    print('in', n)", "    if n >= 0: raise %s" % ex], []
    for i in range(1, k + 1):
        how = src.pick(["plain", "finally", "other", "reraise", "with", "loop"])
        call = "f%d(n + 1)" % (i - 1)
        lines += ["def f%d(n: int):" % i, "    print('f', %d)" % i]
        if how == "plain": lines += ["    " + call]
        elif how == "loop": lines += ["    for q in range(3):", "        print('q', q)", "        " + call]
        elif how == "with": lines += ["    with CM(%d):" % (7 * i), "        " + call]
        elif how == "finally": lines += ["    try:", "        " + call, "    finally:", "        print('fin', %d)" % i]
        elif how == "other": lines += ["    try:", "        " + call, "    except ZeroDivisionError:", "        print('no')"]
        else: lines += ["    try:", "        " + call, "    except Exception:", "        print('re', %d)" % i, "        raise"]
    lines += ["f%d(0)" % k, "print('unreachable')"]
    return lines, name


def run_uncaught(pid, seed, budget, work, tier):
    st = dict(name="uncaught", rule="the exception passes at least one function call", evaluations=0, nontrivial=0, distinct=0, discards=0, samples=[], compile_discards=0)
    viol, end, n = [], time.time() + budget, 0
    while time.time() < end and not viol:
        n += 1
        src = e2e.Src(random.Random("%d/unc/%d" % (seed, n)))
        lines, name = uncaught(src)
        p = os.path.join(work, "uncaught-%d" % n)
        open(p + ".codon", "w").write(CODON + "\n".join(lines) + "\n")
        open(p + ".py", "w").write(PY + "\n".join(lines) + "\n")
        r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", p + ".py"], capture_output=True, text=True)
        bad = None
        for flags in (["-release"], []):
            s, out, err = e2e.real(p + ".codon", flags, 90)
            if out != r.stdout: bad = "%s: prints %r, expected %r" % (flags, out[-300:], r.stdout[-300:])
            elif s == 0: bad = "%s: ends with status 0" % flags
            elif name not in err: bad = "%s: %s not named in %r" % (flags, name, err[-300:])
            elif s == "timeout": bad = "%s: does not end" % flags
            if bad: break
        st["evaluations"] += 1
        if len(lines) > 5:
            st["nontrivial"] += 1
            st["distinct"] += 1
            if len(st["samples"]) < 3: st["samples"].append("\n".join(lines))
        if bad: viol.append(dict(sub="uncaught", sig="uncaught", message=bad + " for " + "\n".join(lines), replay=p + ".codon"))
        else: os.unlink(p + ".codon")
        os.unlink(p + ".py")
    return st, viol


def run(pid, seed, budget, work, tier):
    rule = "a try statement left by at least one of: raise, re-raise, return, break, continue, with"
    subs = [e2e.Sub("unwinding", rule, gen, "cpython", [e2e.RELEASE, e2e.DEBUG], CODON, PY, batch=20)]
    st, v = e2e.run_subs(subs, pid, seed, budget * 0.85, work, tier)
    st2, v2 = run_uncaught(pid, seed, budget * 0.15, work, tier)
    return st + [st2], v + v2
