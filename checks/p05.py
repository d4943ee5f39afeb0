"""C05: text of numbers and back; str, repr, f-strings and format specifications against CPython."""
import e2e, calls
from e2e import Case

INTS, FLOATS = ("x", "int", lambda s: s.i64()), ("x", "float", lambda s: s.f64())


def fspec(s):
    """a format specification with the same meaning in both"""
    t = s.pick(["d", "x", "X", "o", "b", "", "f", "e", "g", ".0f", ".1f", ".2f", ".3f", ".10f", ".0e", ".3e", ".1g", ".6g", ".12g", ".17g", "E", "G", "F", ".2E", ".4G", "%"])
    return t


def spec(s, kind):
    fill = s.pick(["", "", "", "<", ">", "^", "*<", "*>", "_^", "0>"])
    sign = s.pick(["", "", "", "+", "-", " "])
    width = s.pick(["", "", "5", "10", "23"])
    if kind == "int":
        t = s.pick(["d", "x", "X", "o", "b", ""])
        if sign == " " and not t: t = "d"  # a trailing blank is cut off
        return fill + sign + ("#" if t != "o" and s.below(3) == 0 else "") + width + t  # the prefix of octal numbers is 0, not 0o
    if kind == "str": return fill + width + s.pick(["", "", ".3", ".0", ".20"]) + s.pick(["", "s"])
    alt = ""
    p = s.pick(["", ".0", ".1", ".2", ".3", ".6", ".10", ".15", ".17"])
    t = s.pick(["f", "e", "g", "F", "E", "G", "f"])
    return fill + sign + alt + width + p + t


def numtext(s):
    """text that may or may not be a number"""
    k = s.below(6)
    if k == 0: return str(s.i64())
    if k == 1: return repr(s.f64(True))
    if k == 2:
        return s.pick(["", " ", "+", "-"]) + s.pick(["", "0", "00", "1", "12", "007", "9223372036854775807"]) + s.pick(["", "", ".", ".5", "e5", "e", "e-3", " ", "x", ".5.", "e+2", "."])
    if k == 3: return s.pick(["nan", "inf", "-inf", "infinity", "NaN", "INF", "1e400", "-1e400", "1e-400", "0x10", "0b1", "0o7", "--1", "1 2", "1,0", "1e5e", "\n1\n", "\t2", "- 1", "", " "])
    if k == 4: return "".join(s.pick("0123456789.e+-") for _ in range(s.range(0, 10)))
    return s.pick(["", " "]) + repr(s.range(-1000, 1000) / s.pick([1, 2, 3, 7, 10, 1000])) + s.pick(["", " ", "\n"])


def toint(s):
    return numtext(s).replace("_", "")


def bignum(src):
    """integers of any width through text"""
    n = src.pick([1, 2, 3, 7, 8, 13, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256])
    sg = src.flip()
    ty = "%s[%d]" % ("Int" if sg else "UInt", n)
    vals = []
    for _ in range(6):
        k = src.below(4)
        v = src.pick([0, 1, 2**(n - 1) - 1, 2**(n - 1), 2**n - 1, 10, 9, 99, 100]) if k < 2 else src.below(2**n)
        v %= 2**n
        vals.append(v)
    body, exp = [], []
    for v in vals:
        s = v - 2**n if sg and v >= 2**(n - 1) else v
        # built from 30-bit pieces
        e = "%s(0)" % ty
        body.append("v = %s" % e)
        pieces = []
        k = n
        rest = v
        while rest:
            pieces.append(rest & 0x3fff)
            rest >>= 14
        for p in reversed(pieces):
            if n > 14: body.append("v = (v << %s(14)) | %s(%d)" % (ty, ty, p))
            else: body.append("v = %s(%d)" % (ty, p))
        body.append("print(str(v), f'{v}')")
        t = str(s)
        exp.append("%s %s" % (t, t))
        if n == 1 and sg: pass
    return Case(body, expect="\n".join(exp) + "\n", nontrivial=n not in (32, 64))


def finite(s):
    v = s.f64()
    return v if v == v and v not in (float("inf"), float("-inf")) else 1.5  # {fmt} aligns these to the left by default


def case(src):
    k = src.weighted([(3, "int"), (4, "float"), (2, "bool"), (3, "fmtint"), (4, "fmtfloat"), (2, "fmtstr"), (4, "parse"), (3, "parsef"), (2, "base"), (3, "round"), (2, "mixed"), (2, "container"), (1, "percent"), (2, "repr"), (1, "byte")])
    if k == "int": return calls.case(src, [INTS], src.pick(["str(x)", "repr(x)", "f'{x}'", "f'{x=}'", "hex(x) if x > -9223372036854775808 else ''", "bin(x) if x > -9223372036854775808 else ''", "oct(x) if x > -9223372036854775808 else ''", "int(str(x)) == x", "str(x)[::-1]"]), tag="int")
    if k == "float": return calls.case(src, [FLOATS], *src.pick([("float(f'{x:.17g}')",), ("float(f'{x:.16e}')",)]), tag="float", n=12) if src.flip() else calls.case(src, [FLOATS], src.pick(["str(x)", "repr(x)", "f'{x}'"]), pyexpr="'%g' % x", tag="float", n=12)  # str of a float is the %g text by design
    if k == "bool": return calls.case(src, [("x", "bool", lambda s: s.flip())], src.pick(["str(x)", "repr(x)", "f'{x}'", "int(x)", "str(int(x))"]), n=2, tag="bool")
    if k in ("fmtint", "fmtfloat", "fmtstr"):
        kind = k[3:]
        g = {"int": lambda s: s.range(-10**6, 10**6) if s.flip() else s.i64(), "float": finite, "str": lambda s: "".join(s.pick("ab cXYZ19") for _ in range(s.range(0, 12)))}[kind]
        sp = spec(src, kind)
        e = src.pick(["f'{x:%s}'" % sp, "x.__format__('%s')" % sp, "format(x, '%s')" % sp if False else "f'<{x:%s}>'" % sp, "'{:%s}|'.format(x)" % sp if False else "f'{x:%s}|{x}'" % sp if kind != "float" else "f'{x:%s}'" % sp])
        return calls.case(src, [("x", kind, g)], e, tag="format-%s" % kind)
    if k == "parse": return calls.case(src, [("t", "str", toint)], "int(t)", n=12, tag="parse")
    if k == "parsef": return calls.case(src, [("t", "str", numtext)], "float(t)", n=12, tag="parsef")
    if k == "base":
        def g(s):
            b = s.pick([8, 10, 16, 36])
            v = s.range(-10**5, 10**5)
            dig, t, u = "0123456789abcdefghijklmnopqrstuvwxyz", "", abs(v)
            while u: t, u = dig[u % b] + t, u // b
            return ("-" if v < 0 else "") + (t or "0") + s.pick(["", "", "", "z", " ", "9"])
        return calls.case(src, [("t", "str", g), ("b", "int", lambda s: s.pick([2, 8, 10, 16, 36]))], "int(t, b)", n=12, tag="base")
    if k == "round": return calls.case(src, [("x", "float", lambda s: s.range(-10**5, 10**5) / s.pick([2, 4, 8, 3, 10, 100]))], src.pick(["int(x)", "float(int(x))", "int(-x)"]), tag="round")
    if k == "roundn": return calls.case(src, [("x", "float", lambda s: s.range(-10**4, 10**4) / s.pick([2, 4, 8])), ("n", "int", lambda s: s.range(0, 3))], "round(x, n)", tag="roundn")
    if k == "mixed":
        return calls.case(src, [("x", "int", lambda s: s.i64()), ("t", "str", lambda s: "".join(s.pick("ab'\\n{}") for _ in range(s.range(0, 6))))], src.pick(["f'{x}{t}'", "f'{t}-{x}-{t}'", "str(x) + t", "f'{x + 1 if x < 100 else x}'", "f'{t!r}' == repr(t)" if False else "t + f'{len(t)}'", "','.join([str(x), t])"]), tag="mixed")
    if k == "container":
        return calls.case(src, [("x", "int", lambda s: s.range(-99, 99)), ("y", "int", lambda s: s.range(0, 9)), ("b", "bool", lambda s: s.flip())], src.pick(["str([x, y])", "str((x, y))", "str([[x], [y, x]])", "str({x: y})", "repr([x == y, b])", "str((x, (y, b)))", "str([(x, y)])", "f'{[x, y]}'", "str({x})", "str([str(x)])", "str((str(x), y))", "str({str(x): [y]})"]), tag="container")
    if k == "percent": return calls.case(src, [("x", "int", lambda s: s.range(-999, 999))], src.pick(["f'{x:>8}|'", "f'{x:<8}|'", "f'{x:^9}|'"]), tag="align")
    if k == "byte": return calls.case(src, [("x", "int", lambda s: s.range(0, 126))], src.pick(["chr(x)", "ord(chr(x))", "repr(chr(x)) if 32 <= x < 127 else ''"]), tag="chr")
    return calls.case(src, [("t", "str", lambda s: "".join(s.pick("ab'\"\\\n\t\r\x01\x7f z") for _ in range(s.range(0, 8))))], "repr(t)", tag="repr")


def run(pid, seed, budget, work, tier):
    subs = [e2e.Sub("text", "most of the argument tuples differ", case, "cpython", [e2e.RELEASE], calls.CODON, calls.PY, batch=24, weight=3),
            e2e.Sub("widths", "width is neither 32 nor 64", bignum, "given", [e2e.RELEASE], batch=12)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
