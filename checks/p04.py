"""C04: random expression trees over every numeric type, evaluated by the compiler (literals, constants in variables, values
unknown at compile time, static parameters) and by an exact model."""
import math, struct
from fractions import Fraction
import e2e
from e2e import Case, Sub

I = ("i", 64)


def wrap(v, n): return ((v + (1 << (n - 1))) % (1 << n)) - (1 << (n - 1))
def uwrap(v, n): return v % (1 << n)
def fit(t, v): return wrap(v, t[1]) if t[0] == "i" else uwrap(v, t[1])


FMT = {"f64": (53, -1022, 1023), "f32": (24, -126, 127), "f16": (11, -14, 15), "bf16": (8, -126, 127), "f128": (113, -16382, 16383)}


def rnd(q, fmt, neg=False):
    """Fraction -> nearest representable value of the format as Fraction, or +-inf as float; a zero keeps its sign as float"""
    p, emin, emax = FMT[fmt]
    if q == 0: return -0.0 if neg else 0.0
    s = -1 if q < 0 else 1
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    while Fraction(2) ** e > q: e -= 1
    while Fraction(2) ** (e + 1) <= q: e += 1
    e = max(e, emin)
    unit = Fraction(2) ** (e - p + 1)
    k = q / unit
    n = k.numerator // k.denominator
    rem = k - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n % 2): n += 1
    r = n * unit
    if r == 0: return -0.0 if s < 0 else 0.0
    if r >= Fraction(2) ** (emax + 1): return s * math.inf
    return s * r


# float values of every format are modelled as Fraction (non-zero finite) or float (0.0, -0.0, inf, nan)
def fval(x):
    if isinstance(x, Fraction): return x
    if x == 0 or math.isinf(x) or math.isnan(x): return x
    return Fraction(x)


def fl(x):
    """model value -> python float (only when exact for doubles)"""
    return float(x) if isinstance(x, Fraction) else x


def special(x): return not isinstance(x, Fraction) and (math.isinf(x) or math.isnan(x))


def farith(op, a, b, fmt):
    if special(a) or special(b) or a == 0 or b == 0:
        # no rounding is needed for these, except x +- 0 and 0 * x which are exact
        A, B = sgnf(a), sgnf(b)
        if op in "+-":
            if not special(a) and not special(b):
                if a == 0 and b == 0:
                    return (A + B) if op == "+" else (A - B)
                if a == 0: return b if op == "+" else neg(b)
                return a
            return (A + B) if op == "+" else (A - B)
        if op == "*": return A * B
        if op == "/":
            if B == 0:
                if A == 0 or A != A: return math.nan
                return math.copysign(math.inf, math.copysign(1, A) * math.copysign(1, B))
            return A / B
    q = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
    return fnorm(rnd(q, fmt))


def sgnf(x):
    if isinstance(x, Fraction): return 2.0 if x > 0 else -2.0
    return x


def neg(x): return -x


def fnorm(x): return x


def fcmp(op, a, b):
    if (not isinstance(a, Fraction) and a != a) or (not isinstance(b, Fraction) and b != b): return op == "!="
    A = a if isinstance(a, Fraction) else (Fraction(0) if a == 0 else a)
    B = b if isinstance(b, Fraction) else (Fraction(0) if b == 0 else b)
    return {"==": A == B, "!=": A != B, "<": A < B, "<=": A <= B, ">": A > B, ">=": A >= B}[op]


def lit(v):
    if v == -(1 << 63): return "(-9223372036854775807 - 1)"
    return str(v) if v >= 0 else "(%d)" % v


def flit(v):
    if v != v: return "float('nan')"
    if math.isinf(v): return "float('inf')" if v > 0 else "(-float('inf'))"
    s = repr(v)
    return s if not s.startswith("-") else "(%s)" % s


FNAME = {"f64": "float", "f32": "float32", "f16": "float16", "bf16": "bfloat16", "f128": "float128"}


class Gen:
    """builds typed expressions with their values.  style: lit | var | opaque | mix | static"""
    def __init__(self, s, style, py):
        self.s, self.style, self.py = s, style, py
        self.locals, self.calls, self.tr = [], 0, []  # tr: side effects in the order they happen

    def lazy(self, taken, f, *a):
        m = len(self.tr)
        r = f(*a)
        if not taken: del self.tr[m:]
        return r

    # leaves ----------------------------------------------------------------------------------
    def place(self, code, kind):
        st = self.style if self.style != "mix" else self.s.pick(["lit", "var", "opaque", "glob"])
        if st in ("lit", "static"): return code
        n = "v%d" % len(self.locals)
        if st == "var":
            self.locals.append("%s = %s" % (n, code))
            return n
        if st == "glob":
            self.locals.append((n, code))
            return "g{N}_" + n
        self.locals.append("%s = %s(%s)" % (n, "oi" if kind == "i" else "of" if kind == "f" else "ob", code))
        return n

    def small(self, lo, hi):
        v = self.s.range(lo, hi)
        return self.place(lit(v), "i"), v

    def int(self, d):
        s = self.s
        if d <= 0 or s.chance(1, 6):
            v = s.i64()
            if self.style == "static" and v == -(1 << 63): v += 1
            return self.place(lit(v), "i"), v
        k = s.weighted([(6, "bin"), (2, "shift"), (3, "div"), (2, "un"), (1, "pow"), (1, "conv"), (1, "tern"), (2, "call"), (1, "idn"), (1, "b2i")])
        if self.style == "static" and k in ("pow", "conv", "call", "b2i"): k = "bin"
        if k == "bin":
            op = s.pick("+-*&|^")
            (a, x), (b, y) = self.int(d - 1), self.int(d - 1)
            v = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op]
            return "(%s %s %s)" % (a, op, b), wrap(v, 64)
        if k == "shift":
            a, x = self.int(d - 1)
            b, y = self.small(0, 63)
            if s.flip(): return "(%s << %s)" % (a, b), wrap(x << y, 64)
            return "(%s >> %s)" % (a, b), x >> y
        if k == "div":
            (a, x), (b, y) = self.int(d - 1), self.int(d - 1)
            if y == 0 or (y == -1 and x == -(1 << 63)): return "(%s + %s)" % (a, b), wrap(x + y, 64)
            q = x // y if self.py else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if s.flip(): return "(%s // %s)" % (a, b), wrap(q, 64)
            return "(%s %% %s)" % (a, b), x - q * y
        if k == "un":
            a, x = self.int(d - 1)
            op = s.pick("-~+")
            return "(%s%s)" % (op, a), wrap({"-": -x, "~": ~x, "+": x}[op], 64)
        if k == "pow":
            a, x = self.int(d - 1)
            b, y = self.small(0, 9)
            return "(%s ** %s)" % (a, b), wrap(x ** y, 64)
        if k == "conv":
            m = len(self.tr)
            a, x = self.float(d - 1)
            if special(x) or abs(fl(x)) >= 2.0 ** 62:
                del self.tr[m:]
                return self.int(d - 1)
            return "int(%s)" % a, int(x) if isinstance(x, Fraction) else 0
        if k == "tern":
            c, t = self.bool(d - 1)
            (a, x), (b, y) = self.lazy(t, self.int, d - 1), self.lazy(not t, self.int, d - 1)
            return "(%s if %s else %s)" % (a, c, b), x if t else y
        if k == "call":
            self.calls += 1
            k = self.calls
            a, x = self.int(d - 1)
            self.tr.append(k)
            return "se(%d, %s)" % (k, a), x
        if k == "b2i":
            a, x = self.bool(d - 1)
            return "int(%s)" % a, int(x)
        a, x = self.int(d - 1)
        # identities the folding rules know
        w = s.pick(["%s + 0", "0 + %s", "%s - 0", "%s * 1", "1 * %s", "%s * 0", "0 * %s", "%s // 1", "-(-%s)", "~(~%s)", "+%s", "int(%s)"])
        if self.style == "static" and w == "int(%s)": w = "+%s"
        z = {"%s * 0": 0, "0 * %s": 0}.get(w, x)
        return "(" + w % a + ")", z

    def bool(self, d):
        s = self.s
        if d <= 0 or s.chance(1, 8):
            v = s.flip()
            return self.place(str(v), "b"), v
        k = s.weighted([(5, "ci"), (3, "cf"), (2, "and"), (1, "not"), (2, "bit"), (1, "cif"), (1, "conv")])
        if self.style == "static" and k in ("cf", "cif", "bit", "conv"): k = "ci"
        op = s.pick(["==", "!=", "<", "<=", ">", ">="])
        if k == "ci":
            a, x = self.int(d - 1)
            b, y = (a, x) if s.chance(1, 6) and "se(" not in a else self.int(d - 1)
            return "(%s %s %s)" % (a, op, b), fcmp(op, Fraction(x), Fraction(y))
        if k == "cf":
            (a, x), (b, y) = self.float(d - 1), self.float(d - 1)
            return "(%s %s %s)" % (a, op, b), fcmp(op, x, y)
        if k == "cif":
            m = len(self.tr)
            a, x = self.int(d - 1)
            m2 = len(self.tr)
            b, y = self.float(d - 1)
            x = rnd(Fraction(x), "f64")
            if s.flip(): return "(%s %s %s)" % (a, op, b), fcmp(op, x, y)
            self.tr[m:] = self.tr[m2:] + self.tr[m:m2]
            return "(%s %s %s)" % (b, op, a), fcmp(op, y, x)
        if k == "conv":
            a, x = self.int(d - 1)
            return "bool(%s)" % a, x != 0
        (a, x) = self.bool(d - 1)
        if k == "not": return "(not %s)" % a, not x
        if k == "and":
            isand = s.flip()
            b, y = self.lazy(x == isand, self.bool, d - 1)
            return ("(%s and %s)" % (a, b), x and y) if isand else ("(%s or %s)" % (a, b), x or y)
        b, y = self.bool(d - 1)
        o = s.pick("&|^")
        return "(%s %s %s)" % (a, o, b), {"&": x & y, "|": x | y, "^": x ^ y}[o]

    def float(self, d):
        s = self.s
        if d <= 0 or s.chance(1, 6):
            v = s.f64()
            return self.place(flit(v), "f"), fval(v)
        k = s.weighted([(6, "bin"), (2, "neg"), (2, "mixed"), (1, "conv"), (1, "tern"), (1, "tdiv"), (1, "abs")])
        if k in ("bin", "mixed"):
            op = s.pick("+-*/")
            m = len(self.tr)
            (a, x) = self.float(d - 1)
            m2 = len(self.tr)
            if k == "bin": b, y = self.float(d - 1)
            else:
                b, y = self.int(d - 1)
                y = rnd(Fraction(y), "f64")
                if s.flip():
                    a, x, b, y = b, y, a, x
                    self.tr[m:] = self.tr[m2:] + self.tr[m:m2]
            if op == "/" and self.py and y == 0: op = "*"
            return "(%s %s %s)" % (a, op, b), farith(op, x, y, "f64")
        if k == "tdiv":
            a, x = self.int(d - 1)
            m = len(self.tr)
            b, y = self.int(d - 1)
            if y == 0:
                del self.tr[m:]
                return "float(%s)" % a, rnd(Fraction(x), "f64")
            if True:  # both operands become floats first
                return "(%s / %s)" % (a, b), farith("/", rnd(Fraction(x), "f64"), rnd(Fraction(y), "f64"), "f64")
        if k == "neg":
            a, x = self.float(d - 1)
            return "(-%s)" % a, neg(x)
        if k == "abs":
            a, x = self.float(d - 1)
            return "abs(%s)" % a, abs(x)
        if k == "conv":
            a, x = self.int(d - 1)
            return "float(%s)" % a, rnd(Fraction(x), "f64")
        c, t = self.bool(d - 1)
        (a, x), (b, y) = self.lazy(t, self.float, d - 1), self.lazy(not t, self.float, d - 1)
        return "(%s if %s else %s)" % (a, c, b), x if t else y

    # integers of a width -------------------------------------------------------------------------
    def intn(self, t, d):
        s = self.s
        T = "%s[%d]" % ("Int" if t[0] == "i" else "UInt", t[1])
        n = t[1]
        if d <= 0 or s.chance(1, 6):
            v = s.i64()
            if n > 64 and s.flip():
                hi = s.i64()
                (a, b) = (self.place(lit(hi), "i"), self.place(lit(v), "i"))
                return "((%s(%s) << %s(60)) ^ %s(%s))" % (T, a, T, T, b), fit(t, (hi << 60) ^ v)
            return "%s(%s)" % (T, self.place(lit(v), "i")), fit(t, v)
        k = s.weighted([(6, "bin"), (2, "shift"), (3, "div"), (2, "un"), (2, "conv"), (1, "pow"), (1, "abs"), (1, "tern")])
        if k == "bin":
            op = s.pick("+-*&|^")
            (a, x), (b, y) = self.intn(t, d - 1), self.intn(t, d - 1)
            return "(%s %s %s)" % (a, op, b), fit(t, {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op])
        if k == "shift":
            a, x = self.intn(t, d - 1)
            y = s.range(0, min(n - 1, (1 << (n - 1)) - 1 if t[0] == "i" else n - 1))
            b = "%s(%s)" % (T, self.place(lit(y), "i"))
            if s.flip(): return "(%s << %s)" % (a, b), fit(t, x << y)
            return "(%s >> %s)" % (a, b), x >> y
        if k == "div" and n <= 128:
            (a, x), (b, y) = self.intn(t, d - 1), self.intn(t, d - 1)
            if y == 0 or (y == -1 and x == -(1 << (n - 1))): return "(%s ^ %s)" % (a, b), fit(t, x ^ y)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if s.flip(): return "(%s // %s)" % (a, b), q
            return "(%s %% %s)" % (a, b), x - q * y
        if k == "pow" and n <= 64 and n > 3:
            a, x = self.intn(t, d - 1)
            y = s.range(0, 5 if n > 4 else 3)
            return "(%s ** %s(%s))" % (a, T, self.place(lit(y), "i")), fit(t, x ** y)
        if k == "conv":
            u = self.s.pick(WIDTHS)
            a, x = self.intn(u, d - 1)
            return "%s(%s)" % (T, a), fit(t, x)
        if k == "tern":
            c, v = self.bool(1)
            (a, x), (b, y) = self.lazy(v, self.intn, t, d - 1), self.lazy(not v, self.intn, t, d - 1)
            return "(%s if %s else %s)" % (a, c, b), x if v else y
        a, x = self.intn(t, d - 1)
        if k == "abs": return "abs(%s)" % a, fit(t, abs(x))
        op = s.pick("-~+")
        return "(%s%s)" % (op, a), fit(t, {"-": -x, "~": ~x, "+": x}[op])

    def cmpn(self, t, d):
        (a, x) = self.intn(t, d)
        b, y = (a, x) if self.s.chance(1, 6) else self.intn(t, d)
        op = self.s.pick(["==", "!=", "<", "<=", ">", ">="])
        return "(%s %s %s)" % (a, op, b), fcmp(op, Fraction(x), Fraction(y))

    # floats of other widths ------------------------------------------------------------------------
    def floatn(self, f, d):
        s = self.s
        if d <= 0 or s.chance(1, 6):
            v = s.f64()
            if f != "f128" and s.flip(): v = s.range(-4000, 4000) / s.pick([1, 2, 3, 8, 16])
            x = fval(v)
            r = rnd(x, f) if isinstance(x, Fraction) else x
            return "%s(%s)" % (FNAME[f], self.place(flit(v), "f")), r
        k = s.weighted([(6, "bin"), (2, "neg"), (2, "conv"), (1, "tern"), (1, "int")])
        if k == "bin":
            op = s.pick("+-*/")
            (a, x), (b, y) = self.floatn(f, d - 1), self.floatn(f, d - 1)
            return "(%s %s %s)" % (a, op, b), farith(op, x, y, f)
        if k == "neg":
            a, x = self.floatn(f, d - 1)
            return "(-%s)" % a, neg(x)
        if k == "conv":
            g = s.pick(["f64", "f32"] if f == "bf16" else ["f64", "f32", "f16", "f128"])
            if g == f: return self.floatn(f, d - 1)
            a, x = self.float(d - 1) if g == "f64" else self.floatn(g, d - 1)
            if f == "f64" : return a, x
            if g == "f64" or f in ("f16", "f32", "f128", "bf16"):
                # conversions between the narrow types go through float
                y = x
                if isinstance(y, Fraction) and g != "f64": y = rnd(y, "f64")
                src = a if g == "f64" else "float(%s)" % a
                r = rnd(y, f) if isinstance(y, Fraction) else y
                return "%s(%s)" % (FNAME[f], src), r
        if k == "int":
            a, x = self.small(-3000, 3000)
            return "%s(float(%s))" % (FNAME[f], a), rnd(Fraction(x), f)
        c, v = self.bool(1)
        (a, x), (b, y) = self.lazy(v, self.floatn, f, d - 1), self.lazy(not v, self.floatn, f, d - 1)
        return "(%s if %s else %s)" % (a, c, b), x if v else y


WIDTHS = [("i", 8), ("u", 8), ("i", 16), ("u", 16), ("i", 32), ("u", 32), ("u", 64), ("i", 1), ("u", 1), ("i", 7), ("u", 13), ("i", 33), ("u", 63), ("i", 100), ("u", 128), ("i", 128), ("i", 64)]
PRELUDE = """
from internal.types.intn import *
_one = [1]
def oi(x: int) -> int:
    return x if _one[0] == 1 else 0
def of(x: float) -> float:
    return x if _one[0] == 1 else 0.0
def ob(x: bool) -> bool:
    return x if _one[0] == 1 else False
def sf(x: float) -> str:
    if x != x:
        return 'nan'
    p = __ptr__(x)
    return str(Ptr[int](p.as_byte())[0])
log = [0]
def se(k: int, v: int) -> int:
    log.append(k)
    return v
def st(N: Literal[int]) -> int:
    return N
def stb(N: Literal[bool]) -> bool:
    return N
"""


def ftext(x):
    """the text sf() prints: the bits of the double"""
    v = float(x)
    if v != v: return "nan"
    return str(struct.unpack("<q", struct.pack("<d", v))[0])


def build(s, py, kinds):
    body, out, top = [], [], []
    style = s.pick(["lit", "var", "opaque", "mix", "mix"])
    g = Gen(s, style, py)
    n = s.range(1, 5)
    exprs = []
    kind = s.pick(kinds)
    for _ in range(n):
        d = s.range(1, 3)
        if kind == "int": c, v = g.int(d); exprs.append(("print(%s)" % c, str(v)))
        elif kind == "float": c, v = g.float(d); exprs.append(("print(sf(%s))" % c, ftext(v)))
        elif kind == "bool": c, v = g.bool(d); exprs.append(("print(%s)" % c, str(v)))
        elif kind == "static":
            h = Gen(s, "static", py)
            if s.chance(1, 4):
                c, v = h.bool(d)
                exprs.append(("print(stb(%s))" % c, str(v)))
            else:
                c, v = h.int(d)
                exprs.append(("print(st(%s))" % c, str(v)))
        elif kind == "intn":
            t = s.pick(WIDTHS)
            if s.chance(1, 4): c, v = g.cmpn(t, d - 1); exprs.append(("print(%s)" % c, str(v)))
            else:
                c, v = g.intn(t, d)
                w = s.weighted([(4, "p"), (1, "int"), (1, "float"), (1, "bool")])
                if w == "int": exprs.append(("print(int(%s))" % c, str(wrap(v, 64))))
                elif w == "float": exprs.append(("print(sf(float(%s)))" % c, ftext(rnd(Fraction(v), "f64"))))
                elif w == "bool": exprs.append(("print(bool(%s))" % c, str(v != 0)))
                else: exprs.append(("print(%s)" % c, str(v)))
        elif kind == "floatn":
            f = s.pick(["f32", "f16", "f128", "bf16", "f32"])
            if s.chance(1, 4):
                (a, x), (b, y) = g.floatn(f, d - 1), g.floatn(f, d - 1)
                op = s.pick(["==", "!=", "<", "<=", ">", ">="])
                exprs.append(("print(%s %s %s)" % (a, op, b), str(fcmp(op, x, y))))
            else:
                c, v = g.floatn(f, d)
                if isinstance(v, Fraction): v = rnd(v, "f64")
                exprs.append(("print(sf(float(%s)))" % c, ftext(v)))
    for l in g.locals:
        if isinstance(l, tuple):
            top.append("g{N}_%s = %s" % l)
            top.append("def use{N}_%s(): return g{N}_%s" % (l[0], l[0]))
        else: body.append(l)
    if "se(" in "".join(e for e, _ in exprs):
        body.append("log.clear()")
        body += [e for e, _ in exprs]
        body.append("print(log)")
        exp = [v for _, v in exprs]
        exp.append(str(g.tr))
    else:
        body += [e for e, _ in exprs]
        exp = [v for _, v in exprs]
    return Case(body, top, "".join(e + "\n" for e in exp), nontrivial=any(c.count("(") >= 3 for c, _ in exprs), tag=kind)


def gen_of(py, kinds):
    return lambda s: build(s, py, kinds)


def run(pid, seed, budget, work, tier):
    kinds = ["int", "int", "float", "bool", "static", "intn", "intn", "floatn"]
    rule = "an expression with at least three operators; one case is 1-5 expressions evaluated with literals, constant variables, globals or run-time values"
    subs = [Sub("c-numerics", rule, gen_of(False, kinds), "given", [e2e.RELEASE, e2e.DEBUG], PRELUDE, batch=60, weight=2),
            Sub("py-numerics", rule, gen_of(True, kinds), "given", [e2e.RELPY, e2e.DBGPY], PRELUDE, batch=60)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
