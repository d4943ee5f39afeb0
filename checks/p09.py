"""C09: functions of the library modules against CPython's."""
import e2e, calls

IMPORTS = "import math, itertools, statistics, operator, datetime, copy\nimport cmath\n"
I = lambda lo, hi: (lambda s: s.range(lo, hi))
F = lambda s: s.f64()
def sm(s): return s.pick([0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 1e-9, 3.75, 10.0, -7.25, 100.5, 0.1, 0.9, 1.0000001]) if s.below(3) else s.range(-3000, 3000) / 7.0
FI = lambda s: s.f64(True)
IL = lambda s: [s.range(-5, 9) for _ in range(s.range(0, 7))]
IL1 = lambda s: [s.range(-5, 9) for _ in range(s.range(1, 7))]
FL = lambda s: [sm(s) for _ in range(s.range(1, 8))]
SL = lambda s: [s.pick(["a", "b", "ab", "", "c"]) for _ in range(s.range(1, 5))]
X, Y = ("x", "float", F), ("y", "float", F)
S, T = ("x", "float", sm), ("y", "float", sm)
A, B, N, M = ("a", "List[int]", IL1), ("b", "List[int]", IL1), ("n", "int", I(-2, 6)), ("m", "int", I(0, 6))
L = ("l", "List[float]", FL)
# exact results (correctly rounded or integer); the C library of both is the same one, so the rest agrees bit for bit as well
MATH = [([X], "math.%s(x)" % f) for f in "fabs isnan isinf isfinite".split()] + [([("x", "float", sm)], "math.%s(x)" % f) for f in "ceil floor trunc".split()]
MATH += [([S], "math.%s(x)" % f) for f in "exp expm1 degrees radians atan sin cos tan sinh cosh tanh asinh erf erfc".split()]
MATH += [([("x", "float", lambda s: abs(sm(s)) + 0.001)], "math.%s(x)" % f) for f in "sqrt log log2 log10 log1p".split()]
MATH += [([("x", "float", lambda s: s.range(-100, 100) / 100.0)], "math.%s(x)" % f) for f in ("acos", "asin")] + [([("x", "float", lambda s: s.range(-99, 99) / 100.0)], "math.atanh(x)"), ([("x", "float", lambda s: 1.0 + abs(sm(s)))], "math.acosh(x)")]
MATH += [([S, T], "math.%s(x, y)" % f) for f in "atan2 hypot copysign".split()] + [([S, ("y", "float", lambda s: sm(s) or 1.0)], "math.fmod(x, y)"), ([S, ("y", "float", lambda s: sm(s) or 1.0)], "math.remainder(x, y)"), ([("x", "float", lambda s: abs(sm(s))), ("y", "float", lambda s: s.range(-6, 6) / 2.0)], "math.pow(x + 0.5, y)"),
         ([FI and ("x", "float", FI)], "math.frexp(x)"), ([("x", "float", FI)], "math.modf(x)"), ([S, ("n", "int", I(-60, 60))], "math.ldexp(x, n)"), ([S, T], "math.isclose(x, y)"), ([S, ("y", "float", lambda s: s.pick([1e-9, 1e-3, 0.1]))], "math.isclose(x, x * (1.0 + y), rel_tol=0.01)"),
         ([("a", "int", lambda s: s.i64()), ("b", "int", lambda s: s.i64())], "math.gcd(a, b) if a > -2**62 and b > -2**62 else 0"), ([("a", "int", I(-500, 500)), ("b", "int", I(-500, 500))], "math.gcd(a, b)"), ([("a", "int", I(-500, 500)), ("b", "int", I(-500, 500))], "math.lcm(a, b)"), ([("a", "int", I(-50, 50)), ("b", "int", I(-50, 50)), ("c", "int", I(-50, 50))], "(math.gcd(a, b, c), math.lcm(a, b, c))"),
         ([("n", "int", I(0, 20))], "math.factorial(n)"), ([L], "math.fsum(l)"), ([A], "math.prod(a)"), ([L], "math.prod(l)")]
IT = [([A, B], "list(itertools.chain(a, b))"), ([A, B], "list(itertools.product(a[:4], b[:4]))"), ([A, ("n", "int", I(0, 4))], "[list(c) for c in itertools.combinations(a[:5], n)]"), ([A, ("n", "int", I(0, 3))], "[list(c) for c in itertools.combinations_with_replacement(a[:4], n)]"), ([A, ("n", "int", I(0, 4))], "[list(c) for c in itertools.permutations(a[:4], n)]"), ([A], "[list(c) for c in itertools.permutations(a[:4])]"),
      ([A], "list(itertools.accumulate(a))"), ([A], "list(itertools.accumulate(a, max))" if False else "list(itertools.accumulate(a, lambda p, q: p * 2 - q))"), ([A, N], "list(itertools.accumulate(a, lambda p, q: p - q, initial=n))"), ([A, B], "list(itertools.compress(a, b))"), ([A, N], "list(itertools.dropwhile(lambda q: q < n, a))"), ([A, N], "list(itertools.takewhile(lambda q: q < n, a))"), ([A, N], "list(itertools.filterfalse(lambda q: q < n, a))"),
      ([A], "[(k, list(g)) for k, g in itertools.groupby(a)]"), ([A], "[(k, list(g)) for k, g in itertools.groupby(a, lambda q: q > 0)]"), ([A, M], "list(itertools.islice(a, m))"), ([A, M, ("k", "int", I(1, 3)), ("j", "int", I(0, 4))], "list(itertools.islice(a, j, j + m, k))"), ([A, M], "list(itertools.islice(a, m, None))"), ([A, B], "list(itertools.zip_longest(a, b, fillvalue=-1))"), ([A, B], "list(itertools.starmap(lambda p, q: p * q, zip(a, b)))"), ([A], "[list(q) for q in itertools.tee(a, 2)]"),
      ([N, M], "list(itertools.repeat(n, m))"), ([N, ("k", "int", I(-3, 3)), M], "list(itertools.islice(itertools.count(n, k), m))"), ([A, ("m", "int", I(0, 12))], "list(itertools.islice(itertools.cycle(a), m))"), ([A, B], "list(itertools.chain.from_iterable([a, b, a]))"), ([SLP for SLP in [("l", "List[str]", SL)]], "[''.join(c) for c in itertools.product(l[:3], l[:3])]"), ([A, M], "list(zip(a, itertools.count(m)))"), ([A], "[p + q for p, q in zip(a, a[1:])]"), ([A, M], "list(enumerate(a, m))"), ([A, B], "list(map(lambda p, q: p - q, a, b))"), ([A, N], "list(filter(lambda q: q != n, a))"), ([A], "(min(a), max(a), sum(a), any(a), all(a))"), ([A, N], "(min(a, key=lambda q: (q - n) * (q - n)), max(a, key=lambda q: -q))"), ([A, N], "sum(a, n)"), ([A, N, M], "(divmod(a[0], m + 1), pow(m, m), abs(n))" if False else "(abs(n), pow(m, m))"), ([A], "list(reversed(a))"), ([M], "list(range(m, -m, -2))"), ([A, M], "[x_ for x_ in range(10)][m:]")]
ST = [([L], "statistics.%s(l)" % f) for f in "median median_low median_high".split()] + [([("l", "List[float]", lambda s: [float(s.range(-64, 64)) for _ in range(2 ** s.range(0, 3))])], "statistics.mean(l)")] + [([("a", "List[int]", IL1)], "float(statistics.%s(a))" % f) for f in ("mode", "median_low", "median_high", "median")] + [([("a", "List[int]", IL1)], "sorted(statistics.multimode(a))"), ([("l", "List[float]", lambda s: [float(s.range(0, 64)) for _ in range(4)])], "(statistics.pvariance(l), statistics.variance(l))"), ([("l", "List[float]", lambda s: [float(s.range(0, 64)) for _ in range(s.range(2, 6))]), ("n", "int", I(2, 5))], "statistics.quantiles(l, n=n)"), ([("l", "List[float]", lambda s: [float(s.range(0, 64)) for _ in range(s.range(2, 6))])], "statistics.median_grouped(l)")]
OP = [([("a", "int", I(-99, 99)), ("b", "int", I(1, 20))], "operator.%s(a, b)" % f) for f in "add sub mul and_ or_ xor lt le eq ne ge gt".split()] + [([("a", "int", I(-99, 99))], "operator.%s(a)" % f) for f in "neg pos abs not_ truth inv index".split()] + [([A, N], "operator.%s(a, n)" % f) for f in "contains countOf getitem indexOf".split()] + [([A, B], "operator.concat(a, b)"), ([("a", "int", I(0, 99)), ("b", "int", I(0, 8))], "(operator.lshift(a, b), operator.rshift(a, b), operator.truediv(a, b + 1), operator.floordiv(a, b + 1), operator.mod(a, b + 1), operator.pow(a, b))"), ([A], "operator.itemgetter(0)(a)")]
D = ("d", "int", lambda s: s.pick([1, 2, 59, 60, 61, 365, 366, 146097, 146098, 719163, 730119, 730120, 3652059, 3652058, 36524, 36525, 1461, 1460]) if s.flip() else s.range(1, 3652059))
YY, MM, DD = ("y", "int", lambda s: s.pick([1, 4, 100, 400, 1900, 1999, 2000, 2024, 2023, 9999, 1970])), ("m", "int", I(0, 13)), ("d", "int", I(0, 32))
U = ("u", "int", lambda s: s.pick([0, 1, -1, 999999, 1000000, -1000001, 86400000000, -86400000000]) if s.flip() else s.range(-10**14, 10**14))
DT = [([D], "str(datetime.date.fromordinal(d))"), ([D], "(datetime.date.fromordinal(d).weekday(), datetime.date.fromordinal(d).isoweekday(), datetime.date.fromordinal(d).toordinal())"), ([D], "datetime.date.fromordinal(d).ctime()"), ([D], "(datetime.date.fromordinal(d).year, datetime.date.fromordinal(d).month, datetime.date.fromordinal(d).day)"), ([YY, MM, DD], "datetime.date(y, m, d).toordinal()"), ([YY, MM, DD], "datetime.date(y, m, d).isoformat()"),
      ([D, D[:0] + ("e",) + D[1:]], "str(datetime.date.fromordinal(d) - datetime.date.fromordinal(e))"), ([D, ("e", "int", I(-800, 800))], "str(datetime.date.fromordinal(d) + datetime.timedelta(days=e))"), ([D, ("e",) + D[1:]], "datetime.date.fromordinal(d) < datetime.date.fromordinal(e)"), ([U], "str(datetime.timedelta(microseconds=u))"), ([U], "(datetime.timedelta(microseconds=u).days, datetime.timedelta(microseconds=u).seconds, datetime.timedelta(microseconds=u).microseconds)"), ([U], "datetime.timedelta(microseconds=u).total_seconds()"),
      ([U, ("v",) + U[1:]], "str(datetime.timedelta(microseconds=u) + datetime.timedelta(microseconds=v))"), ([U, ("v",) + U[1:]], "str(datetime.timedelta(microseconds=u) - datetime.timedelta(microseconds=v))"), ([U, ("k", "int", I(-9, 9))], "str(datetime.timedelta(microseconds=u) * k)"), ([U, ("k", "int", lambda s: s.pick([1, 2, 3, 7, 10]))], "str(datetime.timedelta(microseconds=abs(u)) // k)"), ([U, ("k", "int", lambda s: s.pick([1, 2, 3, 7, -2, -3, 10]))], "str(datetime.timedelta(microseconds=u) / k)"), ([U, ("v", "int", lambda s: s.range(1, 10**10))], "datetime.timedelta(microseconds=u) // datetime.timedelta(microseconds=v)"), ([U, ("v", "int", lambda s: s.range(1, 10**10))], "str(datetime.timedelta(microseconds=u) % datetime.timedelta(microseconds=v))"), ([U], "str(abs(datetime.timedelta(microseconds=u)))"), ([U], "str(-datetime.timedelta(microseconds=u))"),
      ([YY, ("m", "int", I(1, 12)), ("d", "int", I(1, 28)), ("h", "int", I(0, 24)), ("n", "int", I(0, 60)), ("u", "int", lambda s: s.pick([0, 1, 999999, 120, 500000]))], "str(datetime.datetime(y, m, d, h, n, n, u))"), ([YY, ("m", "int", I(1, 12)), ("d", "int", I(1, 28)), U], "str(datetime.datetime(y, m, d, 5, 6, 7, 8) + datetime.timedelta(microseconds=u))"), ([("h", "int", I(0, 24)), ("n", "int", I(0, 60)), ("u", "int", lambda s: s.pick([0, 1, 999999, 120]))], "str(datetime.time(h, n, n, u))"), ([D], "(datetime.date.fromordinal(d).isocalendar().year, datetime.date.fromordinal(d).isocalendar().week, datetime.date.fromordinal(d).isocalendar().weekday)"),
      ([YY, ("m", "int", I(1, 12)), ("d", "int", I(1, 28)), ("k", "int", I(1, 12))], "str(datetime.date(y, m, d).replace(month=k))"), ([D], "str(datetime.date.fromisoformat(str(datetime.date.fromordinal(d))))"), ([YY, ("m", "int", I(1, 12)), ("d", "int", I(1, 28)), ("h", "int", I(0, 23))], "str(datetime.datetime(y, m, d, h) - datetime.datetime(1970, 1, 1))"), ([YY, ("w", "int", I(1, 52)), ("k", "int", I(1, 7))], "str(datetime.date.fromisocalendar(y, w, k))")]
CP = [([A], "copy.copy(a)"), ([A], "copy.deepcopy([a, a])"), ([A, N], "cp_{N}(a, n)")]


def modules(src):
    grp, tag = src.pick([(MATH, "math"), (MATH, "math"), (IT, "itertools"), (IT, "itertools"), (ST, "statistics"), (OP, "operator"), (DT, "datetime"), (DT, "datetime")])
    params, expr = src.pick(grp)
    exc = ["ValueError", "IndexError", "OverflowError", "ZeroDivisionError"]
    return calls.case(src, params, expr, n=8, tag=expr, exc=exc)


def run(pid, seed, budget, work, tier):
    subs = [e2e.Sub("modules", "most of the argument tuples differ", modules, "cpython", [e2e.RELEASE], IMPORTS + calls.CODON, IMPORTS + calls.PY + "\nfrom typing import *\n", batch=16)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
