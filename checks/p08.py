"""C08: sorting with every algorithm, key and direction; CPython's sorted() is the oracle."""
import e2e, calls
from e2e import Case
from p07 import DRIVERS

GEN = DRIVERS[:DRIVERS.index("def drv_list")] + '''
def data(r: R, n: int, u: int, shape: int) -> List[int]:
    if shape == 0: return [r.below(u) for i in range(n)]
    if shape == 1: return [i * u // (n + 1) for i in range(n)]
    if shape == 2: return [(n - i) * u // (n + 1) for i in range(n)]
    if shape == 3: return [5 for i in range(n)]
    if shape == 4: return [min(i, n - i) for i in range(n)]
    if shape == 5: return [max(i, n - i) for i in range(n)]
    if shape == 6: return [i % u for i in range(n)]
    if shape == 7:
        v = [i for i in range(n)]
        for q in range((n + 29) // 30):
            t = r.below(n)
            v[t] = r.below(n)
        return v
    if shape == 8: return [i * (1 - 2 * (i % 2)) for i in range(n)]
    if shape == 9:
        v = [0]
        v.clear()
        while len(v) < n:
            s, l, d = r.below(u), 1 + r.below(50), r.below(5) - 2
            for q in range(l): v.append(s + q * d)
        return v[:n]
    if shape == 10:
        v = [r.below(u) for i in range(n)]
        v.sort()
        for q in range(min(3, n)): v[n - 1 - q] = r.below(u)
        return v
    v = [(i * 7919) % (n + 1) for i in range(n)]
    return v
def kx(x): return x
def kneg(x): return -x
def kmod(x): return abs(x) % 7
def kdiv(x): return abs(x) // 100
def kstr(x): return str(x)
def kconst(x): return 0
def ktup(x): return (abs(x) % 3, -x)
def kflt(x): return (abs(x) % 10) * 0.5
def hsh(v):
    h = 17
    for x in v: h = (h * 31 + int(x)) & 0xffffffffffff
    return h
def out(v):
    if len(v) < 60: print(v)
    else: print(len(v), v[0], v[len(v) // 2], v[-1], hsh(v))
def stable(seed: int, n: int, u: int, shape: int, key, rev: bool):
    r = R(seed)
    v = data(r, n, u, shape)
    w = v.copy()
    out(sorted(v, key=key, reverse=rev))
    if v != w: print('input changed')
    v.sort(key=key, reverse=rev)
    out(v)
    p = [(key(w[i]), i) for i in range(len(w))]
    out([q[1] for q in sorted(p, key=lambda t: t[0], reverse=rev)])
    if rev: w.sort(reverse=True)
    else: w.sort()
    out(w)
'''
CODON = '''
def perm(seed: int, n: int, u: int, shape: int, key, rev: bool, alg: Literal[str]):
    r = R(seed)
    v = data(r, n, u, shape)
    a = sorted(v, key=key, reverse=rev, algorithm=alg)
    out([key(x) for x in a])
    out(sorted(a))
    v.sort(reverse=rev, algorithm=alg)
    out(v)
'''
CODON2 = '''
def objs(seed: int, n: int, u: int, shape: int, rev: bool, alg: Literal[str], K: Literal[int]):
    r = R(seed)
    if K == 0:
        v = [(str(x), x) for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm=alg)
        out([x[1] for x in v])
    elif K == 1:
        v = [(abs(x) % 5) * 1.5 - 2.0 for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm=alg)
        out([int(x * 2.0) for x in v])
    elif K == 2:
        v = [str(x) for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm=alg)
        out([int(x) for x in v])
    elif K == 3:
        v = [[abs(x) % 3, x] for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm=alg)
        out([x[1] for x in v])
    elif K == 4:
        v = [P(abs(x) % 4, x) for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm="tim")
        out([x.b for x in v])
    elif K == 5:
        v = [x % 2 == 0 for x in data(r, n, u, shape)]
        v.sort(reverse=rev, algorithm=alg)
        out([int(x) for x in v])
class P:
    a: int
    b: int
    def __init__(self, a: int, b: int):
        self.a = a
        self.b = b
    def __lt__(self, o): return self.a < o.a
    def __gt__(self, o): return self.a > o.a
    def __le__(self, o): return self.a <= o.a
    def __ge__(self, o): return self.a >= o.a
    def __eq__(self, o): return self.a == o.a
'''
PY = CODON.replace(", alg: Literal[str]", ", alg").replace(", algorithm=alg", "") + CODON2.replace(", alg: Literal[str], K: Literal[int]", ", alg, K").replace(", algorithm=alg", "").replace(', algorithm="tim"', "").replace("def __eq__", "__hash__ = None\n    def __eq__")
KEYS = ["kx", "kneg", "kmod", "kdiv", "kstr", "kconst", "ktup", "kflt"]
ALGS = ["auto", "tim", "pdq", "heap", "quick", "insertion"]


def args(s, alg):
    n = s.pick([0, 1, 2, 3, 5, 8, 12, 16, 17, 24, 25, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 200]) if s.chance(2, 3) or alg == "insertion" else s.pick([500, 1000, 1023, 2000, 5000])
    return "%d, %d, %d, %d" % (s.below(2**40), n, s.pick([2, 5, 20, 1000, 100000]), s.below(12))


def stablecase(s):
    k = s.pick(KEYS)
    return Case(["stable(%s, %s, %s)" % (args(s, ""), k, s.flip()) for _ in range(8)], tag="stable")


def permcase(s):
    k, a = s.pick(KEYS[:-1]), s.pick(ALGS)
    return Case(["perm(%s, %s, %s, '%s')" % (args(s, a), k, s.flip(), a) for _ in range(8)], tag="perm-" + a)


def objcase(s):
    k, a = s.below(6), s.pick(ALGS)
    return Case(["objs(%s, %s, '%s', %d)" % (args(s, a), s.flip(), a, k) for _ in range(8)], tag="objs-%d-%s" % (k, a))


def run(pid, seed, budget, work, tier):
    S = lambda name, f: e2e.Sub(name, "every case sorts eight generated arrays", f, "cpython", [e2e.RELEASE], GEN + CODON + CODON2, "from typing import *\n" + GEN + PY, batch=16, limit=60)
    return e2e.run_subs([S("stable", stablecase), S("algorithms", permcase), S("elements", objcase)], pid, seed, budget, work, tier)
