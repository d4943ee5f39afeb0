"""C07: random histories of operations on containers; CPython's containers are the model."""
import e2e, calls
from calls import lit
from e2e import Case

IMPORTS = "import heapq, bisect\nfrom collections import deque, Counter, defaultdict\n"
EXC = ["IndexError", "KeyError", "ValueError"]
TYPES = {"int": None, "str": None, "Tuple[int, str]": None, "float": None}


def value(s, ty, small=True):
    if ty == "int":
        k = s.below(8)
        return s.range(0, 5) if k < 4 else s.range(-3, 20) if k < 6 else s.pick([2**20, 2**40, 16, 32, 48, 64, -1, 2**58, -2**58, 1024])
    if ty == "str": return s.pick(["", "a", "b", "ab", "abc", "x" * 9, "zz", "c", "0"])
    if ty == "float": return s.pick([0.0, 1.0, -1.5, 2.25, 1e300, 0.1, 3.0])
    return (s.range(0, 2), s.pick(["a", "b", ""]))


def attempt(stmts, out):
    """statements that may raise; the exception is shown"""
    out.append("try:")
    out += ["    " + t for t in stmts]
    for x in EXC: out += ["except %s:" % x, "    print('!%s')" % x]


def idx(s): return s.range(-9, 9) if s.chance(7, 8) else s.pick([100, -100, 2**62])
def slc(s):
    o = lambda: str(idx(s)) if s.flip() else ""
    k = s.below(3)
    return o() + ":" + o() if k else o() + ":" + o() + ":" + str(s.pick([1, 2, 3, -1, -2, -7]))


def ctor(src, kind, ty):
    vs = [value(src, ty) for _ in range(src.range(0, 9))]
    return vs


def listcase(src):
    ty = src.pick(list(TYPES))
    T = {"a": "List[%s]" % ty}
    V = lambda: lit(value(src, ty))
    L = lambda lo=0, hi=5: "[" + ", ".join(V() for _ in range(src.range(lo, hi))) + "]"
    def LL():
        t = L(0, 5)
        return t if t != "[]" else "mk()"
    out = ["a: List[%s] = [%s]" % (ty, ", ".join(V() for _ in range(src.range(0, 8)))), "b = mk()", "a0 = a", "c = a.copy()"]
    out[1] = "b: List[%s] = []" % ty
    mk = "def mk_{N}() -> List[%s]:\n    r: List[%s] = []\n    return r" % (ty, ty)
    for _ in range(src.range(6, 22)):
        v = src.pick(["a", "a", "a", "b", "c"])
        w = src.pick(["a", "b", "c"])
        k = src.below(34)
        e = LL().replace("mk()", "mk_{N}()")
        ops = ["%s.append(%s)" % (v, V()), "%s.insert(%d, %s)" % (v, idx(src), V()), "show(%s.pop())" % v, "show(%s.pop(%d))" % (v, idx(src)),
               "%s.extend(%s)" % (v, e), "%s.extend(%s)" % (v, w), "%s += %s" % (v, e), "%s *= %d" % (v, src.range(-1, 3)), "%s.reverse()" % v, "%s.sort()" % v,
               "%s.sort(reverse=True)" % v, "show(%s.index(%s))" % (v, V()), "show(%s.count(%s))" % (v, V()), "show(%s[%d])" % (v, idx(src)), "%s[%d] = %s" % (v, idx(src), V()),
               "del %s[%d]" % (v, idx(src)), "show(%s[%s])" % (v, slc(src)), "%s[%s] = %s" % (v, slc(src), e), "%s[%s] = %s" % (v, slc(src), w), "del %s[%s]" % (v, slc(src)),
               "show(%s in %s)" % (V(), v), "show(%s == %s)" % (v, w), "show(%s < %s)" % (v, w), "show(%s >= %s)" % (v, w), "show(%s + %s)" % (v, w), "show(%s + %s + %s)" % (v, e, w),
               "show(%s * %d)" % (v, src.range(-1, 3)), "%s = %s.copy()" % (v, w), "%s = %s" % (v, w), "%s.clear()" % v if src.below(3) == 0 else "show(bool(%s))" % v, "show(sorted(%s))" % v, "show(list(reversed(%s)))" % v,
               "show(max(%s) if %s else %s)" % (v, v, V()), "show([x for x in %s if x != %s])" % (v, V()),
               ]
        if len(ops) != 34: raise AssertionError(len(ops))
        attempt([ops[k]], out)
        if "=" in ops[k] or not ops[k].startswith("show") or "pop" in ops[k]: out.append("show(%s)" % v)
    out += ["show(a)", "show(b)", "show(c)", "show(a0)", "show(a == c)", "show(len(a) + len(b))"]
    return Case(out, [mk], tag="list", nontrivial=len(out) > 60)


def setcase(src):
    ty = src.pick(["int", "int", "str", "Tuple[int, str]"])
    V = lambda: lit(value(src, ty))
    mk = ["def s_{N}(x: Set[%s]):" % ty, "    show(len(x))", "    show(sorted(x))", "    show([y in x for y in sorted(x)])"]
    out = ["a: Set[%s] = {%s}" % (ty, ", ".join(V() for _ in range(src.range(1, 8)))), "b: Set[%s] = set()" % ty, "a0 = a", "c = a.copy()"]
    for _ in range(src.range(6, 22)):
        v, w = src.pick(["a", "a", "b", "c"]), src.pick(["a", "b", "c"])
        op = src.pick(["|", "&", "-", "^"])
        ops = ["%s.add(%s)" % (v, V()), "%s.add(%s)" % (v, V()), "%s.remove(%s)" % (v, V()), "%s.discard(%s)" % (v, V()), "%s.update([%s, %s])" % (v, V(), V()), "%s = %s %s %s" % (v, v, op, w), "%s %s= %s" % (v, op, w),
               "s_{N}(%s %s %s)" % (v, op, w), "s_{N}(%s.%s(%s))" % (v, src.pick(["union", "intersection", "difference", "symmetric_difference"]), w),
               "%s.%s(%s)" % (v, src.pick(["difference_update", "intersection_update", "symmetric_difference_update", "update"]), w), "show(%s.%s(%s))" % (v, src.pick(["isdisjoint", "issubset", "issuperset"]), w),
               "show(%s %s %s)" % (v, src.pick(["<", "<=", ">", ">=", "==", "!="]), w), "show(%s in %s)" % (V(), v), "%s = %s.copy()" % (v, w), "%s = %s" % (v, w), "%s.clear()" % v if src.below(4) == 0 else "show(bool(%s))" % v,
               "while %s:\n        x = %s.pop()\n        show(x in %s)" % (v, v, v) if src.below(3) == 0 else "show(min(%s) if %s else %s)" % (v, v, V()), "%s = {x for x in %s if x != %s}" % (v, w, V())]
        o = src.pick(ops)
        attempt(o.split("\n") if "\n" not in o else [t[4:] if i else t for i, t in enumerate(o.split("\n"))], out)
        if not o.startswith("show") and not o.startswith("s_"): out.append("s_{N}(%s)" % v)
    out += ["s_{N}(a)", "s_{N}(b)", "s_{N}(c)", "s_{N}(a0)", "show(a == c)"]
    return Case(out, mk, tag="set", nontrivial=len(out) > 60)


def dictcase(src):
    kt, vt = src.pick(["int", "int", "str", "Tuple[int, str]"]), src.pick(["int", "str"])
    K, V = (lambda: lit(value(src, kt))), (lambda: lit(value(src, vt)))
    D = "Dict[%s, %s]" % (kt, vt)
    mk = ["def s_{N}(x: %s):" % D, "    show(len(x))", "    show(sorted(x.items()))", "    show(sorted(x.keys()))", "    show(sorted(x.values()))", "    show([x[y] for y in sorted(x)])"]
    lits = lambda n: "{" + ", ".join("%s: %s" % (K(), V()) for _ in range(n)) + "}"
    out = ["a: %s = %s" % (D, lits(src.range(1, 7))), "b: %s = {}" % D, "a0 = a", "c = a.copy()"]
    for _ in range(src.range(6, 22)):
        v, w = src.pick(["a", "a", "b", "c"]), src.pick(["a", "b", "c"])
        inc = "%s[%s] = %s.get(%s, %s) + %s" % ((v, *[K()] * 1, w, K(), V(), V())) if True else ""
        k1 = K()
        ops = ["%s[%s] = %s" % (v, K(), V()), "%s[%s] = %s" % (v, K(), V()), "del %s[%s]" % (v, K()), "show(%s[%s])" % (v, K()), "show(%s.get(%s, %s))" % (v, K(), V()), "show(%s.setdefault(%s, %s))" % (v, K(), V()), "show(%s.pop(%s))" % (v, K()),
               "%s.update(%s)" % (v, w), "%s.update(%s)" % (v, lits(2)), "%s |= %s" % (v, w), "%s = %s | %s" % (v, v, w), "show(%s in %s)" % (K(), v), "show(%s not in %s)" % (K(), v), "show(%s == %s)" % (v, w), "show(%s != %s)" % (v, w),
               "%s = %s.copy()" % (v, w), "%s = %s" % (v, w), "%s.clear()" % v if src.below(4) == 0 else "show(bool(%s))" % v, inc, "%s[%s] = %s.get(%s, %s) + %s" % (v, k1, v, k1, V(), V()), "%s[%s] += %s" % (v, k1, V()),
               "%s = {x: y for x, y in %s.items() if x != %s}" % (v, w, K()), "show(sorted([x for x in %s]))" % v, "%s = dict([(%s, %s), (%s, %s)])" % (v, K(), V(), K(), V()), "show(sum([len(str(x)) for x in %s.keys()]))" % v,
               "while %s:\n        p = %s.popitem()\n        show(p[0] in %s)" % (v, v, v) if src.below(3) == 0 else "show(len(%s))" % v]
        o = src.pick(ops)
        attempt(o.split("\n") if "\n" not in o else [t[4:] if i else t for i, t in enumerate(o.split("\n"))], out)
        if not o.startswith("show") or "setdefault" in o or "pop(" in o: out.append("s_{N}(%s)" % v)
    out += ["s_{N}(a)", "s_{N}(b)", "s_{N}(c)", "s_{N}(a0)", "show(a == c)"]
    return Case(out, mk, tag="dict", nontrivial=len(out) > 60)


def dequecase(src):
    ty = src.pick(["int", "str", "Tuple[int, str]"])
    V = lambda: lit(value(src, ty))
    m = src.pick([None, None, 0, 1, 3, 8])
    mk = ["def s_{N}(x):", "    show(len(x))", "    show([y for y in x])"]
    out = ["a = deque[%s](%s)" % (ty, "" if m is None else m), "b = deque([%s])" % ", ".join(V() for _ in range(src.range(1, 9)))]
    pout = ["a = deque(%s)" % ("" if m is None else "maxlen=%d" % m), out[1]]
    ops_out = []
    for _ in range(src.range(6, 30)):
        v, w = src.pick(["a", "a", "b"]), src.pick(["a", "b"])
        o = src.pick(["%s.append(%s)" % (v, V())] * 4 + ["%s.appendleft(%s)" % (v, V())] * 3 + ["show(%s.pop())" % v, "show(%s.popleft())" % v, "show(%s.popleft())" % v, "%s.clear()" % v if src.below(4) == 0 else "show(bool(%s))" % v, "show(%s in %s)" % (V(), v),
             "show(%s[%d])" % (v, src.range(-4, 4)), "show(len(%s))" % v, "%s = %s.copy()" % (v, w), "show([y for y in %s.copy()])" % v, "for i_ in range(%d):\n        %s.append(%s)" % (src.range(1, 40), v, V())])
        attempt([t[4:] if i else t for i, t in enumerate(o.split("\n"))], ops_out)
        if not o.startswith("show"): ops_out.append("s_{N}(%s)" % v)
    ops_out += ["s_{N}(a)", "s_{N}(b)"]
    return Case(out + ops_out, mk, pybody=pout + ops_out, pytop=mk, tag="deque", nontrivial=len(ops_out) > 60)


def heapcase(src):
    ty = src.pick(["int", "int", "str", "Tuple[int, str]", "float"])
    V = lambda: lit(value(src, ty))
    out = ["a: List[%s] = [%s]" % (ty, ", ".join(V() for _ in range(src.range(0, 12))))]
    if src.flip(): out += ["heapq.heapify(a)", "show(a)"]
    else: out[0] = "a: List[%s] = []" % ty
    for _ in range(src.range(6, 25)):
        o = src.pick(["heapq.heappush(a, %s)" % V()] * 4 + ["show(heapq.heappop(a))", "show(heapq.heapreplace(a, %s))" % V(), "show(heapq.heappushpop(a, %s))" % V(), "show(heapq.nsmallest(%d, a))" % src.range(-1, 8), "show(heapq.nlargest(%d, a))" % src.range(-1, 8),
             "show(list(heapq.merge(sorted(a), [%s, %s])))" % tuple(lit(x) for x in sorted([value(src, ty), value(src, ty)])),
             "show(heapq.nsmallest(%d, a, key=lambda x: str(x)[::-1]))" % src.range(1, 5) if ty in ("int", "str") else "show(len(a))", "show(heapq.nlargest(%d, a, key=lambda x: len(str(x))))" % src.range(1, 5) if ty in ("int", "str") else "show(len(a))"])
        attempt([o], out)
        if "heapp" in o or "heapr" in o: out.append("show(a)")
    return Case(out, [], tag="heap", nontrivial=len(out) > 60)


def bisectcase(src):
    ty = src.pick(["int", "str", "Tuple[int, str]", "float"])
    V = lambda: lit(value(src, ty))
    out = ["a: List[%s] = sorted([%s])" % (ty, ", ".join(V() for _ in range(src.range(1, 12))))]
    for _ in range(src.range(6, 16)):
        x = V()
        o = src.pick(["show(bisect.bisect_left(a, %s))" % x, "show(bisect.bisect_right(a, %s))" % x, "bisect.insort_left(a, %s)" % x, "bisect.insort_right(a, %s)" % x, "show(bisect.bisect_left(a, %s, %d, %d))" % (x, src.range(0, 2), src.range(0, 1)), "show(bisect.bisect(a, %s))" % x, "show(bisect.bisect_right(a, %s, %d))" % (x, src.range(0, 1))])
        attempt([o], out)
        out.append("show(a)")
    return Case(out, [], tag="bisect", nontrivial=len(out) > 40)


def countercase(src):
    ty = src.pick(["int", "str"])
    V = lambda: lit(value(src, ty))
    L = lambda n: "[" + ", ".join(V() for _ in range(n)) + "]"
    mk = ["def s_{N}(x):", "    show(len(x))", "    show(sorted(x.items()))"]
    out = ["a = Counter(%s)" % L(src.range(1, 8)), "b = Counter(%s)" % L(src.range(1, 5))]
    for _ in range(src.range(6, 18)):
        v, w = src.pick(["a", "a", "b"]), src.pick(["a", "b"])
        op = src.pick(["+", "-", "&", "|"])
        o = src.pick(["%s.update(%s)" % (v, L(3)), "%s.subtract(%s)" % (v, L(3)), "%s.update(%s)" % (v, w), "%s.subtract(%s)" % (v, w), "%s = %s %s %s" % (v, v, op, w), "%s %s= %s" % (v, op, w), "s_{N}(%s %s %s)" % (v, op, w), "show(%s[%s])" % (v, V()), "%s[%s] += %d" % (v, V(), src.range(-2, 2)), "%s[%s] = %d" % (v, V(), src.range(-2, 2)), "del %s[%s]" % (v, V()),
             "show(%s.total())" % v, "show(sorted(%s.elements()))" % v, "show(sorted([y for x, y in %s.most_common()], reverse=True))" % v, "show([y for x, y in %s.most_common(%d)])" % (v, src.range(0, 4)), "s_{N}(+%s)" % v, "s_{N}(-%s)" % v, "show(%s == %s)" % (v, w), "show(%s != %s)" % (v, w), "show(%s in %s)" % (V(), v), "show(%s.get(%s, 7))" % (v, V())])
        attempt([o], out)
        if not o.startswith("show"): out.append("s_{N}(%s)" % v)
    return Case(out, mk, tag="counter", nontrivial=len(out) > 60)


def defaultcase(src):
    kt, vt = src.pick(["int", "str", "Tuple[int, str]"]), src.pick(["int", "list", "str"])
    K = lambda: lit(value(src, kt))
    E = {"int": lambda: str(src.range(-2, 4)), "list": lambda: "[%d]" % src.range(0, 3), "str": lambda: lit(value(src, "str"))}[vt]
    mk = ["def s_{N}(x):", "    show(len(x))", "    show(sorted(x.items()))"]
    T = {"int": "int", "list": "List[int]", "str": "str"}[vt]
    fac = src.pick([{"int": "int", "list": "list", "str": "str"}[vt]] + (["lambda: 7"] if vt == "int" else ["lambda: 'd'"] if vt == "str" else []))
    out = ["a = defaultdict(%s)" % (fac if vt != "list" else "list")]
    if vt == "list": out = ["a = defaultdict(list)", "a[%s].append(1)" % K()]
    else: out.append("a[%s] += %s" % (K(), E()))
    for _ in range(src.range(6, 18)):
        o = src.pick(["a[%s] += %s" % (K(), E()), "a[%s] += %s" % (K(), E()), "a[%s] = %s" % (K(), E()), "show(a[%s])" % K(), "show(%s in a)" % K(), "del a[%s]" % K(), "show(a.pop(%s))" % K(), "show(a.get(%s, %s))" % (K(), E()), "show(a.setdefault(%s, %s))" % (K(), E()), "show(len(a))", "show(sorted(a.keys()))"])
        attempt([o], out)
        out.append("s_{N}(a)")
    return Case(out, mk, tag="defaultdict", nontrivial=len(out) > 60)


BULK = """
def b_{N}(n: int, mod: int, mul: int, x: int) -> int:
    %s
    h = 0
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        k = ((x >> 8) %% mod) * mul
        o = (x >> 4) & 15
        %s
        h = (h * 31 + len(d)) & 0xffffffff
        if i %% 97 == 0:
            %s
    %s
    return h
"""


def bulkcase(src):
    """thousands of steps driven by a linear congruence; a running hash of what was seen is compared"""
    kind = src.pick(["dict", "set", "dictstr", "list", "deque", "heap", "setstr", "dictfloat", "dicttuple"])
    th = [src.range(3, 12), 0]
    th[1] = src.range(th[0], 14)
    key = {"dictstr": "str(k)", "setstr": "str(k)", "dictfloat": "float(k) / 4.0", "dicttuple": "(k, i & 1)"}.get(kind, "k")
    fin = "for y in sorted(d): h = (h * 33 + %s) & 0xffffffff"
    if kind.startswith("dict"):
        ty = {"dictstr": "str", "dictfloat": "float", "dicttuple": "Tuple[int, int]"}.get(kind, "int")
        init = "d: Dict[%s, int] = {}" % ty
        step = ["q = " + key, "if o < %d:" % th[0], "    d[q] = i", "elif o < %d:" % th[1], "    if q in d:", "        h += d[q]", "        del d[q]", "elif o == 15:", "    h += d.get(q, 3)", "else:", "    d[q] = d.get(q, 0) + 1"]
        mid = ["t = 0", "for y in d: t += d[y]", "h = (h + t) & 0xffffffff"] + src.pick([["d = d.copy()"], [], ["if o == 1: d.clear()"], ["e = d.copy()", "e[q] = 5", "d = {y: e[y] for y in e}"]])
        end = ["for y in sorted(d): h = (h * 33 + d[y]) & 0xffffffff"]
    elif kind.startswith("set"):
        init = "d: Set[%s] = set()" % ("str" if kind == "setstr" else "int")
        step = ["q = " + key, "if o < %d:" % th[0], "    d.add(q)", "elif o < %d:" % th[1], "    d.discard(q)", "else:", "    h += 1 if q in d else 0"]
        mid = ["t = 0", "for y in d: t += len(str(y))", "h = (h + t) & 0xffffffff"] + src.pick([["d = d.copy()"], [], ["e = {y for y in d if len(str(y)) % 2 == 0}", "h += len(d & e) + 3 * len(d - e) + 5 * len(d | e) + 7 * len(d ^ e)"]])
        end = ["for y in sorted(d): h = (h * 33 + len(str(y))) & 0xffffffff"]
    elif kind == "heap":
        init = "d: List[int] = []"
        step = ["if o < %d:" % th[0], "    heapq.heappush(d, k)", "elif len(d) > 0:", "    h += heapq.heappop(d)"]
        mid, end = ["h += len(d)"], ["while d: h = (h * 33 + heapq.heappop(d)) & 0xffffffff"]
    elif kind == "list":
        init = "d: List[int] = []"
        step = ["if o < %d:" % th[0], "    d.append(k)", "elif o < %d:" % th[1], "    d.insert(k % (len(d) + 1), i)", "elif o == 15 and len(d) > 4:", "    d[k % len(d):k % len(d) + 3] = [i, i + 1]", "elif o == 14 and len(d) > 4:", "    del d[::3]", "elif len(d) > 0:", "    h += d.pop(k % len(d))"]
        mid, end = ["h = (h + sum(d)) & 0xffffffff"], ["for y in d: h = (h * 33 + y) & 0xffffffff"]
    else:
        init = "d = deque[int]()"
        step = ["if o < %d:" % th[0], "    d.append(k)", "elif o < %d:" % th[1], "    d.appendleft(i)", "elif o & 1 and len(d) > 0:", "    h += d.pop()", "elif len(d) > 0:", "    h += d.popleft()", "if len(d) > 3: h += d[k % len(d)] + d[-1 - k % len(d)]"]
        mid, end = ["t = 0", "for y in d: t += y", "h = (h + t) & 0xffffffff"], ["for y in d: h = (h * 33 + y) & 0xffffffff"]
    text = BULK % (init, "\n        ".join(step), "\n            ".join(mid), "\n    ".join(end))
    top = [] + text.strip("\n").split("\n")
    pt = [t.replace("deque[int]()", "deque()") for t in top]
    body = ["show(b_{N}(%d, %d, %d, %d))" % (src.pick([50, 300, 1000, 5000, 20000]) if kind not in ("list",) else src.pick([50, 300, 1500]), src.pick([4, 16, 37, 200, 1000, 100000]), src.pick([1, 1, 2, 16, 1024, 65536, 2**32, 7]), src.below(2**31)) for _ in range(3)]
    return Case(body, top, pybody=body, pytop=pt, tag="bulk-" + kind, nontrivial=True)


DRIVERS = '''
class R:
    x: int
    def __init__(self, x: int):
        self.x = x
    def below(self, n: int) -> int:
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) & 0x3fffffffffff
        return (self.x >> 17) % n
def ki(x: int) -> int: return x - 2
def kb(x: int) -> int: return x << 33
def kc(x: int) -> int: return x * 1024
def ks(x: int) -> str: return str(x)
def kl(x: int) -> str: return 'k' * (x % 40) + str(x)
def kf(x: int) -> float: return x * 0.25 - 1.0
def kt(x: int) -> Tuple[int, str]: return (x % 5, str(x // 5))
def ku(x: int) -> Tuple[str, int, float]: return (str(x % 3), x // 3, x * 0.5)
def drv_list(seed: int, n: int, u: int, key):
    r = R(seed)
    a = [key(0)]
    b = [key(1), key(2)]
    a.clear()
    c = a.copy()
    for step in range(n):
        o = r.below(46)
        i, j, k = r.below(2 * len(a) + 5) - len(a) - 2, r.below(2 * len(a) + 5) - len(a) - 2, r.below(7) - 3
        v = key(r.below(u))
        print(o, i, j, k, end=': ')
        try:
            if o < 8: a.append(v)
            elif o < 11: a.insert(i, v)
            elif o == 11: show(a.pop())
            elif o == 12: show(a.pop(i))
            elif o == 13: a.extend(b)
            elif o == 14: a += [v, v]
            elif o == 15:
                if len(a) < 40: a *= k
            elif o == 16: a.reverse()
            elif o == 17: a.sort()
            elif o == 18: a.sort(reverse=True)
            elif o == 19: show(a.index(v))
            elif o == 20: show(a.count(v))
            elif o == 21: show(a[i])
            elif o == 22: a[i] = v
            elif o == 23: del a[i]
            elif o == 24: show(a[i:j])
            elif o == 25: show(a[::k])
            elif o == 26: show(a[i:j:k])
            elif o == 27: a[i:j] = b
            elif o == 28: a[i:] = [v]
            elif o == 29: a[i:j:k] = b
            elif o == 30: del a[i:j]
            elif o == 31: del a[i:j:k]
            elif o == 32: a[i:j] = a
            elif o == 33: show(v in a)
            elif o == 34: print(a == b, a < b, a <= b, a > b, a >= b, a != b)
            elif o == 35: show(a + b)
            elif o == 36: show(b + a[i:j] + [v])
            elif o == 37: show(b * k)
            elif o == 38: b = a.copy()[:6]
            elif o == 39: a, b = b, a
            elif o == 40: c = a.copy()
            elif o == 41: show(sorted(a))
            elif o == 42: show(list(reversed(a)))
            elif o == 43: show([x for x in a if x != v])
            elif o == 44: a = c
            elif o == 45:
                if r.below(4) == 0: a.clear()
                else: show(min(a))
        except IndexError: print('!IndexError')
        except ValueError: print('!ValueError')
        if len(a) > 60: del a[20:]
        if len(b) > 60: del b[5:]
        show(a)
    show(b)
    show(c)
def drv_dict(seed: int, n: int, u: int, key):
    r = R(seed)
    a = {key(0): 0}
    a.clear()
    b = {key(1): 1, key(2): 2}
    c = a.copy()
    e = a
    h = 0
    for step in range(n):
        o = r.below(36)
        v, w, x = key(r.below(u)), key(r.below(u)), r.below(9)
        try:
            if o < 8: a[v] = x
            elif o < 12: del a[v]
            elif o == 12: print(a[v])
            elif o == 13: print(a.get(v, 99))
            elif o == 14: print(a.setdefault(v, x))
            elif o == 15: print(a.pop(v))
            elif o == 16: a.update(b)
            elif o == 17: a.update({v: x, w: x + 1})
            elif o == 18: a |= b
            elif o == 19: b = a | b
            elif o == 20: print(v in a, w not in b, a == b, a != b)
            elif o == 21: b = a.copy()
            elif o == 22: a[v] = a.get(v, 0) + x
            elif o == 23: a[v] += x
            elif o == 24: a[v] = (a.get(w, 5) * 2) & 1023
            elif o == 25: a = {y: z for y, z in a.items() if y != v}
            elif o == 26: a, b = b, a
            elif o == 27: c = a.copy()
            elif o == 28: b = dict([(v, x), (w, 7)])
            elif o == 29:
                y, z = a.popitem()
                print(y in a)
                a[y] = z
            elif o == 30: a[v] -= 1
            elif o == 31: b = {y: a[y] for y in a}
            elif o == 32:
                if r.below(6) == 0: a.clear()
            elif o == 34:
                for y in a: a[y] = (a[y] + 1) & 1023
            elif o == 35:
                for y, z in a.items():
                    if z > 3: a[y] -= 2
            elif o == 33:
                t = sorted([y for y in a])
                while len(t) > 2: del a[t.pop()]
        except KeyError: print('!KeyError')
        h = 0
        for y in a:
            if y not in a: print('lost')
            h += a[y]
        if step % 16 == 0 or n < 60: show(sorted(a.items()))
        print(o, x, len(a), len(b), h)
    show(sorted(a.items()))
    show(sorted(b.keys()))
    show(sorted(c.values()))
    print(len(e))
def drv_set(seed: int, n: int, u: int, key):
    r = R(seed)
    a = {key(0)}
    a.clear()
    b = {key(1), key(2)}
    c = a.copy()
    for step in range(n):
        o = r.below(36)
        v, w = key(r.below(u)), key(r.below(u))
        try:
            if o < 8: a.add(v)
            elif o < 11: a.discard(v)
            elif o == 11: a.remove(v)
            elif o == 12: a |= b
            elif o == 13: a &= b
            elif o == 14: a -= b
            elif o == 15: a ^= b
            elif o == 16: c = a | b
            elif o == 17: c = a & b
            elif o == 18: c = a - b
            elif o == 19: c = a ^ b
            elif o == 20: c = a.union(b)
            elif o == 21: c = a.intersection(b)
            elif o == 22: c = b.difference(a)
            elif o == 23: c = a.symmetric_difference(b)
            elif o == 24: a.update([v, w])
            elif o == 25: a.difference_update(b)
            elif o == 26: a.symmetric_difference_update(b)
            elif o == 27: a.intersection_update(c)
            elif o == 28: print(a.isdisjoint(b), a.issubset(b), a.issuperset(b), a < b, a <= b, a > b, a >= b, a == b, a != b)
            elif o == 29: print(v in a, w in b)
            elif o == 30: b = a.copy()
            elif o == 31: a, b = b, a
            elif o == 32: a = {y for y in a if y != v}
            elif o == 33:
                if len(a) > 0:
                    y = a.pop()
                    print(y in a)
                    a.add(y)
            elif o == 34: b.add(v)
            elif o == 35:
                if r.below(4) == 0: a.clear()
                else: print(bool(a))
        except KeyError: print('!KeyError')
        for y in a:
            if y not in a: print('lost')
        if step % 16 == 0 or n < 60:
            show(sorted(a))
            show(sorted(c))
        print(o, len(a), len(b), len(c))
    show(sorted(a))
    show(sorted(b))
def drv_deque(a, seed: int, n: int, u: int, key):
    r = R(seed)
    b = deque([key(x) for x in range(1 + r.below(20))])
    for step in range(n):
        o = r.below(24)
        v = key(r.below(u))
        print(o, end=': ')
        try:
            if o < 7: a.append(v)
            elif o < 12: a.appendleft(v)
            elif o == 12: show(a.pop())
            elif o == 13: show(a.popleft())
            elif o == 14:
                if r.below(5) == 0: a.clear()
            elif o == 15: show(v in a)
            elif o == 16: show(a[r.below(7) - 3])
            elif o == 17:
                if a: show(a[-1 - r.below(len(a))])
            elif o == 18: b = a.copy()
            elif o == 19: a, b = b, a
            elif o == 20:
                for q in range(r.below(40)): a.append(key(q))
            elif o == 21:
                for q in range(r.below(len(a) + 1)): a.popleft()
            elif o == 22: print(bool(a), len(a), len(b))
            elif o == 23: b.append(v)
        except IndexError: print('!IndexError')
        show([y for y in a])
        show(len(a))
    show([y for y in b])
def drv_heap(seed: int, n: int, u: int, key):
    r = R(seed)
    a = [key(0)]
    a.clear()
    for step in range(n):
        o = r.below(14)
        v = key(r.below(u))
        try:
            if o < 5: heapq.heappush(a, v)
            elif o < 7: show(heapq.heappop(a))
            elif o == 7: show(heapq.heapreplace(a, v))
            elif o == 8: show(heapq.heappushpop(a, v))
            elif o == 9: show(heapq.nsmallest(r.below(9) - 1, a))
            elif o == 10: show(heapq.nlargest(r.below(9) - 1, a))
            elif o == 11:
                for q in range(r.below(9)): a.append(key(r.below(u)))
                heapq.heapify(a)
            elif o == 12: show(list(heapq.merge(sorted(a), sorted([key(r.below(u)) for q in range(5)]))))
            elif o == 13: show(heapq.nsmallest(3, a, key=lambda y: (y == v, y)))
        except IndexError: print('!IndexError')
        print(o, end=' ')
        show(a)
def drv_bisect(seed: int, n: int, u: int, key):
    r = R(seed)
    a = [key(0)]
    for step in range(n):
        v = key(r.below(u))
        o = r.below(8)
        if o == 0: bisect.insort_left(a, v)
        elif o < 4: bisect.insort_right(a, v)
        elif o == 4: print(bisect.bisect_left(a, v), bisect.bisect_right(a, v), bisect.bisect(a, v))
        elif o == 5: print(bisect.bisect_left(a, v, r.below(len(a) + 1)))
        elif o == 6:
            q = r.below(len(a) + 1)
            print(bisect.bisect_right(a, v, q, q + r.below(len(a) - q + 1)))
        elif len(a) > 1: a.pop(r.below(len(a)))
    show(a)
def drv_counter(seed: int, n: int, u: int, key):
    r = R(seed)
    a = Counter([key(x) for x in range(3)])
    b = Counter([key(x // 2) for x in range(5)])
    for step in range(n):
        o = r.below(22)
        v, w, x = key(r.below(u)), key(r.below(u)), r.below(5) - 2
        if o == 0: a.update([v, w, v])
        elif o == 1: a.subtract([v, w])
        elif o == 2: a.update(b)
        elif o == 3: a.subtract(b)
        elif o == 4: a = a + b
        elif o == 5: a = a - b
        elif o == 6: a = a & b
        elif o == 7: a = a | b
        elif o == 8: a += b
        elif o == 9: a -= b
        elif o == 10: a &= b
        elif o == 11: a |= b
        elif o == 12: a[v] += x
        elif o == 13: a[v] = x
        elif o == 14: del a[v]
        elif o == 15: show(sorted(a.elements()))
        elif o == 16: print([y for x, y in a.most_common()], [y for x, y in a.most_common(r.below(5))])
        elif o == 17: a, b = b, a
        elif o == 18: print(a == b, a != b, v in a, a[v], a.total())
        elif o == 19: a = +a
        elif o == 20: b = -a
        elif o == 21: b = Counter([v, v, w])
        for y in a:
            if abs(a[y]) > 1000: a[y] = 3
        for y in b:
            if abs(b[y]) > 1000: b[y] = 3
        print(o, end=' ')
        show(sorted(a.items()))
    show(sorted(b.items()))
'''


def drv(*kinds): return lambda src: drvcase(src, kinds)


def drvcase(src, kinds):
    """many steps of one generic driver; the history is a function of a number, so thousands of histories share one compilation"""
    kind = src.pick(kinds)
    key = src.pick(["ki", "ki", "ks", "kt"] + (["kb", "kc", "kl", "kf", "ku"] if kind in ("dict", "set") else ["kf"] if kind in ("list", "heap") else []))
    big = kind in ("dict", "set") and src.chance(1, 3)
    body, pb = [], []
    for _ in range(6):
        n = src.pick([300, 1000]) if big else src.range(1, 50)
        u = src.pick([3, 8, 30, 100, 1000] if big else [2, 4, 9, 30])
        s = src.below(2**40)
        if kind == "deque":
            m = src.pick([-1, -1, 0, 1, 2, 3, 4, 7, 8, 16, 17])
            t = {"ki": "int", "ks": "str", "kt": "Tuple[int, str]"}[key]
            body.append("drv_deque(deque[%s](%s), %d, %d, %d, %s)" % (t, "" if m < 0 else m, s, n, u, key))
            pb.append("drv_deque(deque(%s), %d, %d, %d, %s)" % ("" if m < 0 else "maxlen=%d" % m, s, n, u, key))
        else:
            body.append("drv_%s(%d, %d, %d, %s)" % (kind, s, n, u, key))
            pb.append(body[-1])
    return Case(body, pybody=pb, tag="driver-" + kind)


def case(src):
    return src.weighted([(5, listcase), (3, setcase), (4, dictcase), (3, dequecase), (3, heapcase), (1, bisectcase), (3, countercase), (2, defaultcase), (6, bulkcase)])(src)


def run(pid, seed, budget, work, tier):
    D = lambda name, w, *kinds: e2e.Sub(name, "every case runs six generated histories", drv(*kinds), "cpython", [e2e.RELEASE], IMPORTS + calls.CODON + DRIVERS, IMPORTS + calls.PY + "\nfrom typing import *\n" + DRIVERS, batch=16, weight=w, limit=60)
    subs = [D("lists", 2, "list"), D("dicts", 2, "dict"), D("sets", 2, "set"), D("deques", 1, "deque"), D("heaps", 1, "heap", "bisect"), D("counters", 1, "counter"),
            e2e.Sub("histories", "more than a dozen operations", case, "cpython", [e2e.RELEASE], IMPORTS + calls.CODON, IMPORTS + calls.PY + "\nfrom typing import *\n", batch=6, limit=60, weight=2)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
