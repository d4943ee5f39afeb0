"""Cases that put one expression through many generated argument tuples; each outcome (value or exception) is printed."""
from e2e import Case

PRE = """
def show(x):
    if isinstance(x, str):
        print('<', x, '>', sep='')
    elif isinstance(x, float):
        pf(x)
    elif isinstance(x, bool):
        print(x)
    elif isinstance(x, int):
        print(x)
    else:
        showx(x)
"""
CODON = """
def pf(x: float):
    if x != x:
        print('nan')
    else:
        p = __ptr__(x)
        print('f', Ptr[int](p.as_byte())[0])
def show(x):
    if x is None:
        print('None')
    elif isinstance(x, Optional):
        show(x.__val__())
    elif isinstance(x, str):
        print('<', x, '>', sep='')
    elif isinstance(x, float):
        pf(x)
    elif isinstance(x, bool):
        print(x)
    elif isinstance(x, int):
        print(x)
    elif isinstance(x, List):
        print('[', len(x), sep='')
        for y in x: show(y)
        print(']')
    elif isinstance(x, Tuple):
        print("(", len(x), sep="")
        for y in x: show(y)
        print(')')
    else:
        print(x)
"""
PY = """
import struct
def pf(x):
    print('nan' if x != x else 'f ' + str(struct.unpack('<q', struct.pack('<d', x))[0]))
def show(x):
    if isinstance(x, str): print('<', x, '>', sep='')
    elif isinstance(x, bool): print(x)
    elif isinstance(x, int): print(x)
    elif isinstance(x, float): pf(x)
    elif isinstance(x, list):
        print('[', len(x), sep='')
        for y in x: show(y)
        print(']')
    elif isinstance(x, tuple):
        print('(', len(x), sep='')
        for y in x: show(y)
        print(')')
    else: print(x)
"""
EXC = ["KeyError", "IndexError", "ZeroDivisionError", "OverflowError", "ValueError", "TypeError", "AttributeError", "StopIteration", "AssertionError"]


def lit(v):
    if isinstance(v, str): return slit(v)
    if isinstance(v, bool): return str(v)
    if isinstance(v, float):
        if v != v: return "float('nan')"
        if v in (float("inf"), float("-inf")): return "float('%s')" % v
        return repr(v)
    if isinstance(v, int): return str(v) if v > -2**63 else "(-9223372036854775807 - 1)"
    if isinstance(v, list): return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, tuple): return "(" + ", ".join(lit(x) for x in v) + ("," if len(v) == 1 else "") + ")"
    raise ValueError(v)


def slit(s):
    return "'" + "".join("\\x%02x" % ord(c) if not 32 <= ord(c) < 127 else "\\" + c if c in "\\'" else c for c in s) + "'"


def case(src, params, expr, n=8, tag="", pre=(), exc=EXC, stmts=(), pyexpr=None, inline=False, pytype=None):
    """params: (name, type, generator); expr (and stmts before it) use the names; every argument tuple goes through one function"""
    rows = [[g(src) for _, _, g in params] for _ in range(n)]
    def text(e, py):
        top = list(pre) + ["def f_{N}(%s):" % ", ".join("%s: %s" % (p, t) for p, t, _ in params)] + ["    " + s for s in stmts] + ["    return " + e]
        body = []
        for r in rows:
            args = ", ".join(lit(v) for v in r)
            body += ["try:", "    show(f_{N}(%s))" % args] if not inline else ["try:", "    show(%s)" % e.format(**{p: "(" + lit(v) + ")" for (p, _, _), v in zip(params, r)})]
            for x in exc: body += ["except %s:" % x, "    print('!%s')" % x]
        return top if not inline else list(pre), body
    top, body = text(expr, False)
    pb = pt = None
    if pyexpr is not None: pt, pb = text(pyexpr, True)
    return Case(body, top, tag=tag, pybody=pb, pytop=pt, nontrivial=len(set(map(str, rows))) > n // 2)
