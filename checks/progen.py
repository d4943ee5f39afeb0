"""Random typed programs in the subset that CPython and Codon share. One case = module-level definitions plus a body."""
from e2e import Case

PRE = """
class E0(Exception):
    n: int
    def __init__(self, n: int):
        super().__init__("E0")
        self.n = n
class E1(E0):
    def __init__(self, n: int):
        super().__init__(n)
class E2(Exception):
    n: int
    def __init__(self, n: int):
        super().__init__("E2")
        self.n = n
log = [0]
TT = True
FF = False
def tr(k: int, v):
    log.append(k)
    return v
def flush():
    print('log', log)
    log.clear()
"""
CODON_PRE = PRE + """
_bits_one = [1]
def pf(x: float):
    if x != x:
        print('nan')
    else:
        p = __ptr__(x)
        print('f', Ptr[int](p.as_byte())[0])
def dk(d):
    return sorted(list(d.items()))
class CM:
    k: int
    def __init__(self, k: int):
        self.k = k
    def __enter__(self):
        log.append(900 + self.k)
        return self
    def __exit__(self):
        log.append(950 + self.k)
"""
PY_PRE = "from __future__ import annotations\nfrom typing import *\nimport struct\n" + PRE + """
def pf(x):
    print('nan' if x != x else 'f ' + str(struct.unpack('<q', struct.pack('<d', x))[0]))
def dk(d):
    return sorted(list(d.items()))
class CM:
    def __init__(self, k):
        self.k = k
    def __enter__(self):
        log.append(900 + self.k)
        return self
    def __exit__(self, *a):
        log.append(950 + self.k)
"""
ANN = {"int": "int", "str": "str", "bool": "bool", "float": "float", "Lint": "List[int]", "Lstr": "List[str]", "Dint": "Dict[int, int]", "Dstr": "Dict[str, int]", "Sint": "Set[int]",
       "Tis": "Tuple[int, str]"}
SIMPLE = ["int", "int", "int", "str", "bool", "float", "Lint", "Lint", "Lstr", "Dint", "Dstr", "Sint", "Tis"]
WORDS = ["", "a", "b", "ab", "hello", "x y", "Zed", "0", "42", "q_q", "aaa", "tail "]


class Scope:
    def __init__(self, parent=None, kind="func"):
        self.vars = {} if parent is None else {k: list(v) for k, v in parent.vars.items()}
        self.ro = set() if parent is None else set(parent.ro)
        self.kind = kind if parent is None else parent.kind
        self.ret = None if parent is None else parent.ret
        self.loop = 0 if parent is None else parent.loop
        self.gen = False if parent is None else parent.gen
        self.infinally = False if parent is None else parent.infinally


class G:
    def __init__(self, s, feats=frozenset()):
        self.s, self.feats = s, feats
        self.top, self.nv, self.nk, self.funs, self.classes, self.gens, self.fuel = [], 0, 0, [], [], [], 0
        self.globals, self.feat, self.pure = {}, set(), 0

    # -- helpers
    def name(self, p="v"):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    def k(self):
        self.nk += 1
        return self.nk

    def var(self, t, sc):
        v = sc.vars.get(t, [])
        return self.s.pick(v) if v else None

    def writable(self, t, sc):
        v = [x for x in sc.vars.get(t, []) if x not in sc.ro]
        return self.s.pick(v) if v else None

    def ann(self, t): return ANN[t] if t in ANN else t

    # -- expressions
    def expr(self, t, d, sc):
        s = self.s
        if d <= 0 or s.chance(1, 5):
            v = self.var(t, sc)
            if v and s.chance(4, 5): return v
            return self.atom(t, sc)
        if s.chance(1, 14):
            return "tr(%d, %s)" % (self.k(), self.expr(t, d - 1, sc))
        if s.chance(1, 12):
            return "(%s if %s else %s)" % (self.expr(t, d - 1, sc), self.expr("bool", d - 1, sc), self.expr(t, d - 1, sc))
        fs = [f for f in self.funs if f["ret"] == t and not self.pure]
        if fs and s.chance(1, 5): return self.call(s.pick(fs), d, sc)
        return getattr(self, "e_" + t, self.e_obj)(d, sc) if t in ANN else self.e_obj(t, d, sc)

    def atom(self, t, sc):
        s = self.s
        if t == "int": return str(s.range(0, 9)) if s.chance(3, 4) else "(-%d)" % s.range(1, 60)
        if t == "str": return repr(s.pick(WORDS))
        if t == "bool": return s.pick(["TT", "FF"])
        if t == "float": return s.pick(["0.5", "1.25", "-2.0", "3.75", "10.0", "0.1", "1e10"])
        if t == "Lint": return "[%s]" % ", ".join(str(s.range(-9, 30)) for _ in range(s.range(1, 5)))
        if t == "Lstr": return "[%s]" % ", ".join(repr(s.pick(WORDS)) for _ in range(s.range(1, 4)))
        if t == "Dint": return "{%s}" % ", ".join("%d: %d" % (s.range(0, 9), s.range(0, 20)) for _ in range(s.range(1, 4)))
        if t == "Dstr": return "{%s}" % ", ".join("%r: %d" % (s.pick(WORDS), s.range(0, 20)) for _ in range(s.range(1, 4)))
        if t == "Sint": return "{%s}" % ", ".join(str(s.range(0, 12)) for _ in range(s.range(1, 4)))
        if t == "Tis": return "(%d, %r)" % (s.range(0, 9), s.pick(WORDS))
        return self.e_obj(t, 0, sc)

    def e_obj(self, t, d, sc):
        c = [x for x in self.classes if x["name"] == t][0]
        if d > 0 and c["subs"] and self.s.flip() and False: pass
        return "%s(%s)" % (t, self.expr("int", min(d, 1) - 1, sc))

    def e_int(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(30)
        if k < 6: return "(%s %s %s)" % (E("int"), s.pick("+-"), E("int"))
        if k == 6: return "((%s * %s) %% %d)" % (E("int"), E("int"), s.pick([7, 97, 1000, -13]))
        if k == 7: return "(%s %s %d)" % (E("int"), s.pick(["//", "%"]), s.pick([2, 3, 7, -2, -5]))
        if k == 8: return "len(%s)" % E(s.pick(["Lint", "str", "Dint", "Lstr", "Sint", "Dstr"]))
        if k == 9: return "sum(%s)" % E(s.pick(["Lint", "Sint"]))
        if k == 10:
            n = self.name("q")
            sc2 = Scope(sc); sc2.vars.setdefault("int", []).append(n); sc2.ro.add(n)
            self.feat.add("genexp")
            return "sum(%s for %s in %s[:]%s)" % (self.expr("int", d - 1, sc2), n, E("Lint"), " if TT and " + self.expr("bool", d - 1, sc2) if s.flip() else "")
        if k == 11:
            v = self.var("Lint", sc)
            if v: return "(%s[%s %% len(%s)] if len(%s) > 0 else %s)" % (v, E("int"), v, v, E("int"))
        if k == 12: return "%s.get(%s, %s)" % (E("Dint"), E("int"), E("int"))
        if k == 13: return "%s.get(%s, %s)" % (E("Dstr"), E("str"), E("int"))
        if k == 14: return "%s[0]" % E("Tis")
        if k == 15: return "%s(%s, %s)" % (s.pick(["min", "max"]), E("int"), E("int"))
        if k == 16: return "abs(%s)" % E("int")
        if k == 17: return "int(%s)" % E("bool")
        if k == 18: return "(%s %s (%s & 63))" % (E("int"), s.pick("&|^"), E("int"))
        if k == 19: return "%s.%s(%s)" % (E("str"), s.pick(["count", "find", "rfind"]), repr(s.pick(["a", "b", "l", "x"])))
        if k == 20:
            a, b = self.name("q"), self.name("q")
            sc2 = Scope(sc); sc2.vars.setdefault("int", []).extend([a, b]); sc2.ro |= {a, b}
            self.feat.add("lambda")
            return "(lambda %s, %s=%d: %s)(%s%s)" % (a, b, s.range(0, 5), self.expr("int", d - 1, sc2), E("int"), ", " + E("int") if s.flip() else "")
        if k == 21 and sc.kind == "func" and not sc.gen:
            v = self.writable("int", sc)
            if v and "walrus" in self.feats: return "(%s := %s)" % (v, E("int"))
        if k in (22, 23, 24) and not self.pure:
            cs = [c for c in self.classes if sc.vars.get(c["name"])]
            if cs:
                c = s.pick(cs)
                o = self.var(c["name"], sc)
                w = s.below(6)
                if w == 0: return o + ".f0"
                if w == 1 and c["meth"]: return "%s.%s(%s)" % (o, s.pick(c["meth"]), E("int"))
                if w == 2 and "call" in c["ops"]: return "%s(%s)" % (o, E("int"))
                if w == 3 and "len" in c["ops"]: return "len(%s)" % o
                if w == 4 and "item" in c["ops"]: return "%s[%s]" % (o, E("int"))
                if w == 5 and "prop" in c["ops"]: return o + ".pp"
                return o + ".f0"
        if k == 25 and self.gens and not self.pure:
            f = s.pick(self.gens)
            self.feat.add("gen")
            return "%s(%s)" % (s.pick(["sum", "len(list", "max"]), "") if False else "sum(%s)" % self.call(f, d, sc)
        if k == 26: return "(%s %s %s)" % (E("int"), s.pick(["and", "or"]), E("int"))
        if k == 27: return "ord(%s)" % repr(s.pick(["a", "Z", " ", "~"]))
        if k == 28: return "(-%s)" % E("int")
        if k == 29: return "divmod(%s, %d)[%d]" % (E("int"), s.pick([3, 7, -4]), s.below(2))
        return "(%s + %s)" % (E("int"), E("int"))

    def e_bool(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(16)
        op = s.pick(["==", "!=", "<", "<=", ">", ">="])
        if k < 4: return "(%s %s %s)" % (E("int"), op, E("int"))
        if k == 4: return "(%s %s %s)" % (E("str"), op, E("str"))
        if k == 5: return "(%s %s %s)" % (E("float"), op, E("float"))
        if k == 6: return "(%s %s %s)" % (E("int"), s.pick(["in", "not in"]), E(s.pick(["Lint", "Sint", "Dint"])))
        if k == 7: return "(%s in %s)" % (E("str"), E(s.pick(["str", "Lstr", "Dstr"])))
        if k == 8: return "(not %s)" % E("bool")
        if k in (9, 10): return "(%s %s %s)" % (E("bool"), s.pick(["and", "or"]), E("bool"))
        if k == 11: return "(%s < %s <= %s)" % (E("int"), E("int"), E("int"))
        if k == 12:
            n = self.name("q")
            sc2 = Scope(sc); sc2.vars.setdefault("int", []).append(n); sc2.ro.add(n)
            self.feat.add("genexp")
            return "%s(%s for %s in %s[:])" % (s.pick(["any", "all"]), self.expr("bool", d - 1, sc2), n, E("Lint"))
        if k == 13: return "(%s %s %s)" % (E("Lint"), s.pick(["==", "!=", "<", ">="]), E("Lint"))
        if k == 14:
            cs = [c for c in self.classes if sc.vars.get(c["name"]) and ("eq" in c["ops"] or "lt" in c["ops"])]
            if cs:
                c = s.pick(cs)
                op = s.pick((["==", "!="] if "eq" in c["ops"] else []) + (["<"] if "lt" in c["ops"] else []))
                return "(%s %s %s)" % (self.var(c["name"], sc), op, self.expr(c["name"], d - 1, sc))
        if k == 15: return "(%s %s %s)" % (E("Tis"), op, E("Tis"))
        return "bool(%s)" % E(s.pick(["int", "str", "Lint"]))

    def e_float(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(7)
        if k < 3: return "(%s %s %s)" % (E("float"), s.pick("+-*"), E("float"))
        if k == 3: return "(%s %s %s)" % (E("int"), s.pick("+-*"), E("float"))
        if k == 4: return "float(%s)" % E("int")
        if k == 5: return "(%s / %s)" % (E("int"), s.pick(["3", "8.0", "-7"]))
        return "abs(%s)" % E("float")

    def e_str(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(14)
        if k < 3: return "(%s + %s)" % (E("str"), E("str"))
        if k == 3: return "str(%s)" % E("int")
        if k in (4, 5):
            self.feat.add("fstr")
            a, b = E("int"), E("str")
            if not any(c in a + b for c in "'\"{}\\"): return "f'<{%s}|{%s}>'" % (a, b)
            return "(str(%s) + %s)" % (a, b)
        if k == 6:
            a = lambda: s.pick(["", "", "0", "1", "2", "-1", "-2"])
            return "%s[%s:%s%s]" % (E("str"), a(), a(), s.pick(["", "", ":2", ":-1"]))
        if k == 7: return "%s.%s()" % (E("str"), s.pick(["upper", "lower", "strip", "title", "capitalize", "swapcase"]))
        if k == 8: return "%s.replace(%r, %r)" % (E("str"), s.pick(["a", "l", "x"]), s.pick(["", "ZZ", "a"]))
        if k == 9: return "%r.join(%s)" % (s.pick([",", "", "-"]), E("Lstr"))
        if k == 10: return "(%s * (%s %% 4))[:40]" % (E("str"), E("int"))
        if k == 11: return "%s[1]" % E("Tis")
        if k == 12:
            cs = [c for c in self.classes if sc.vars.get(c["name"]) and "str" in c["ops"]]
            if cs: return "str(%s)" % self.var(s.pick(cs)["name"], sc)
        if k == 13: return "repr(%s)" % E(s.pick(["str", "int"]))
        return "(%s)[:30]" % E("str")

    def comp(self, t, d, sc, br):
        s = self.s
        n = self.name("q")
        it = s.below(4)
        src = self.expr("Lint", d - 1, sc) + "[:]" if it < 2 else "range(%s)" % s.range(0, 6) if it == 2 else "sorted(%s)" % self.expr("Sint", d - 1, sc)
        sc2 = Scope(sc); sc2.vars.setdefault("int", []).append(n); sc2.ro.add(n)
        tail = "for %s in %s" % (n, src)
        if s.chance(1, 4):
            m = self.name("q")
            tail += " for %s in range(%s %% 3)" % (m, n)
            sc2.vars["int"].append(m); sc2.ro.add(m)
        if s.chance(1, 3): tail += " if TT and " + self.expr("bool", d - 1, sc2)
        self.feat.add("comp")
        return sc2, tail

    def e_Lint(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(14)
        if k < 2: return "[%s]" % ", ".join(E("int") for _ in range(s.range(1, 4)))
        if k < 5:
            sc2, tail = self.comp("int", d, sc, "[]")
            return "[%s %s]" % (self.expr("int", d - 1, sc2), tail)
        if k == 5:
            # no operand changes a list that another one names (see known/c02_listadd.codon)
            self.pure += 1
            r = "(%s + %s)" % (E("Lint"), E("Lint"))
            self.pure -= 1
            return r
        if k == 6: return "sorted(%s%s)" % (E(s.pick(["Lint", "Sint"])), s.pick(["", ", reverse=True"]))
        if k == 7:
            a = lambda: s.pick(["", "", "0", "1", "2", "-1", "-2"])
            return "%s[%s:%s%s]" % (E("Lint"), a(), a(), s.pick(["", "", ":2", ":-1"]))
        if k == 8: return "list(range(%s, %s))" % (s.range(-2, 3), s.range(0, 6))
        if k == 9: return "list(reversed(%s))" % E("Lint")
        if k == 10: return "[*%s, %s, *%s]" % (E("Lint"), E("int"), E("Lint"))
        if k == 11 and self.gens and not self.pure:
            self.feat.add("gen")
            return "list(%s)" % self.call(s.pick(self.gens), d, sc)
        if k == 12:
            a = self.name("q")
            sc2 = Scope(sc); sc2.vars.setdefault("int", []).append(a); sc2.ro.add(a)
            self.feat.add("lambda")
            if s.flip(): return "list(map(lambda %s: %s, %s[:]))" % (a, self.expr("int", d - 1, sc2), E("Lint"))
            return "list(filter(lambda %s: %s, %s[:]))" % (a, self.expr("bool", d - 1, sc2), E("Lint"))
        if k == 13: return "[%s[0] + %s[1] for %s in zip(%s, %s)]" % ((lambda n: (n, n, n))(self.name("q")) + (E("Lint"), E("Lint")))
        return "(%s * 2)" % E("Lint")

    def e_Lstr(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(5)
        if k == 0: return "[%s]" % ", ".join(E("str") for _ in range(s.range(1, 3)))
        if k == 1:
            sc2, tail = self.comp("str", d, sc, "[]")
            return "[%s %s]" % (self.expr("str", d - 1, sc2), tail)
        if k == 2: return "%s.split(%s)" % (E("str"), s.pick(["'a'", "' '", "','"]))
        if k == 3: return "sorted(%s)" % E("Lstr")
        return "list(%s)" % E("str") if False else "[%s, %s]" % (E("str"), E("str"))

    def e_Dint(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        if s.flip():
            sc2, tail = self.comp("int", d, sc, "{}")
            return "{%s: %s %s}" % (self.expr("int", d - 1, sc2), self.expr("int", d - 1, sc2), tail)
        return "{%s}" % ", ".join("%s: %s" % (E("int"), E("int")) for _ in range(s.range(1, 3)))

    def e_Dstr(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        if s.flip():
            sc2, tail = self.comp("int", d, sc, "{}")
            return "{%s: %s %s}" % (self.expr("str", d - 1, sc2), self.expr("int", d - 1, sc2), tail)
        return "{%s}" % ", ".join("%s: %s" % (E("str"), E("int")) for _ in range(s.range(1, 3)))

    def e_Sint(self, d, sc):
        s, E = self.s, lambda t: self.expr(t, d - 1, sc)
        k = s.below(4)
        if k == 0:
            sc2, tail = self.comp("int", d, sc, "{}")
            return "{%s %s}" % (self.expr("int", d - 1, sc2), tail)
        if k == 1: return "(%s %s %s)" % (E("Sint"), s.pick("|&-^"), E("Sint"))
        if k == 2: return "set(%s)" % E("Lint")
        return "{%s, %s}" % (E("int"), E("int"))

    def e_Tis(self, d, sc): return "(%s, %s)" % (self.expr("int", d - 1, sc), self.expr("str", d - 1, sc))

    def call(self, f, d, sc):
        s = self.s
        args, kw = [], False
        ps = f["params"]
        n = len(ps)
        nd = s.range(n - f["ndef"], n) if f["ndef"] else n
        order = list(range(nd))
        cut = s.range(0, nd) if s.chance(1, 3) else nd
        tail = order[cut:]
        if len(tail) > 1 and s.flip(): tail = tail[::-1]
        for i in order[:cut]: args.append(self.expr(ps[i][1], d - 2, sc))
        for i in tail: args.append("%s=%s" % (ps[i][0], self.expr(ps[i][1], d - 2, sc)))
        if f.get("star") and cut == n: args += [self.expr("int", d - 2, sc) for _ in range(s.range(0, 3))]
        return "%s(%s)" % (f["name"], ", ".join(args))

    # -- statements
    def show(self, t, e):
        if t == "float": return "pf(%s)" % e
        if t in ("Dint", "Dstr"): return "print(dk(%s))" % e
        if t == "Sint": return "print(sorted(%s))" % e
        return "print(%s)" % e

    def block(self, sc, d, n=None, ind="    "):
        s = self.s
        out = []
        for _ in range(n or s.range(1, 3)):
            out += self.stmt(sc, d)
        return [ind + l for l in out] or [ind + "pass"]

    def stmt(self, sc, d):
        s = self.s
        self.fuel += 1
        if self.fuel > 60: d = 0
        E = lambda t, dd=2: self.expr(t, dd, sc)
        k = s.weighted([(8, "assign"), (3, "new"), (3, "aug"), (3, "print"), (2, "mut"), (2, "unpack"), (1, "obj"), (1, "exprst")] + ([] if d <= 0 else
                       [(4, "if"), (4, "for"), (2, "while"), (3, "try"), (1, "with"), (1, "nest"), (1, "match")] + ([(2, "exit")] if sc.loop or sc.ret else []) + [(1, "raise")] + ([(3, "yield")] if sc.gen else [])))
        if k == "assign":
            t = s.pick(SIMPLE)
            v = self.writable(t, sc)
            if v: return ["%s = %s" % (v, E(t, 3))]
            k = "new"
        if k == "new":
            t = s.pick(SIMPLE)
            v = self.name()
            e = E(t, 3)
            sc.vars.setdefault(t, []).append(v)
            return ["%s%s = %s" % (v, ": " + self.ann(t) if s.chance(1, 4) else "", e)]
        if k == "aug":
            t = s.pick(["int", "int", "str", "Lint", "float"])
            v = self.writable(t, sc)
            if v:
                if t == "int": return ["%s %s %s" % (v, s.pick(["+=", "-=", "^=", "|=", "&="]), E("int"))]
                if t == "float": return ["%s %s %s" % (v, s.pick(["+=", "-=", "*="]), s.pick(["0.5", "2.0", E("float", 1)]))]
                if t == "str": return ["%s += %s" % (v, E("str")), "%s = %s[:40]" % (v, v)]
                return ["%s += %s" % (v, E(t)), "%s = %s[:20]" % (v, v)]
            k = "print"
        if k == "mut":
            w = s.below(8)
            if w < 3:
                v = self.var("Lint", sc)
                if v:
                    return [s.pick(["%s.append(%s)" % (v, E("int")), "if len(%s) > 0: %s[%s %% len(%s)] = %s" % (v, v, E("int", 1), v, E("int")), "if len(%s) > 0: %s.pop()" % (v, v),
                                    "%s.insert(%d, %s)" % (v, s.range(0, 2), E("int")), "%s.reverse()" % v, "%s.sort()" % v, "%s.extend(%s)" % (v, E("Lint")), "del %s[%d:%d]" % (v, s.range(0, 1), s.range(1, 3)),
                                    "if len(%s) > 12: %s.clear()" % (v, v)])]
            if w < 5:
                t = s.pick(["Dint", "Dstr"])
                v = self.var(t, sc)
                kt = "int" if t == "Dint" else "str"
                if v:
                    kk = E(kt, 1)
                    return [s.pick(["%s[%s] = %s" % (v, kk, E("int")), "%s[%s] = %s.get(%s, %s) + %s" % (v, kk, v, kk, E("int", 1), E("int", 1)), "if %s in %s: del %s[%s]" % (kk, v, v, kk), "if %s in %s: %s.pop(%s)" % (kk, v, v, kk),
                                    "%s.update({%s: %s})" % (v, kk, E("int")), "%s.setdefault(%s, %s)" % (v, kk, E("int"))])] if "tr(" not in kk and "(" not in kk else ["%s[%s] = %s" % (v, kk, E("int"))]
            if w == 5:
                v = self.var("Sint", sc)
                if v: return ["%s.%s(%s)" % (v, s.pick(["add", "discard"]), E("int"))]
            cs = [c for c in self.classes if sc.vars.get(c["name"])]
            if cs:
                c = s.pick(cs)
                o = self.var(c["name"], sc)
                return [s.pick(["%s.f0 = %s" % (o, E("int")), "%s.f0 += %s" % (o, E("int"))])]
            k = "print"
        if k == "unpack":
            a, b = self.name(), self.name()
            if s.chance(1, 4):
                v, w = self.writable("int", sc), self.writable("int", sc)
                if v and w: return ["%s, %s = %s, %s" % (v, w, E("int"), E("int"))]
            if s.chance(1, 4):
                e = "[%s, %s] + %s" % (E("int", 1), E("int", 1), E("Lint"))
                sc.vars.setdefault("int", []).append(a); sc.vars.setdefault("Lint", []).append(b)
                return ["%s, *%s = %s" % (a, b, e)] if s.flip() else ["*%s, %s = %s" % (b, a, e)]
            e = E("Tis")
            sc.vars.setdefault("int", []).append(a); sc.vars.setdefault("str", []).append(b)
            return ["%s, %s = %s" % (a, b, e)]
        if k == "obj" and self.classes:
            c = s.pick(self.classes)
            v = self.name("o")
            e = "%s(%s)" % (c["name"], E("int"))
            sc.vars.setdefault(c["name"], []).append(v)
            r = ["%s = %s" % (v, e)]
            if "add" in c["ops"] and s.flip():
                w = self.name("o")
                r.append("%s = %s + %s" % (w, v, self.var(c["name"], sc)))
                sc.vars[c["name"]].append(w)
            if c["subs"] and s.flip():
                self.feat.add("virtual")
                n = self.nv
                r += ["lv%d: List[%s] = [%s]" % (n, c["name"], ", ".join(["%s(%s)" % (x, E("int", 1)) for x in [c["name"]] + c["subs"]]))]
                if c["meth"]: r += ["for lw%d in lv%d:" % (n, n), "    print(lw%d.%s(%s))" % (n, s.pick(c["meth"]), E("int", 1))]
            return r
        if k == "exprst":
            return ["tr(%d, %s)" % (self.k(), E(s.pick(["int", "str"])))]
        if k == "if":
            r = ["if %s:" % E("bool")] + self.block(Scope(sc), d - 1)
            if s.chance(1, 3): r += ["elif %s:" % E("bool")] + self.block(Scope(sc), d - 1)
            if s.flip(): r += ["else:"] + self.block(Scope(sc), d - 1)
            return r
        if k == "for":
            sc2 = Scope(sc); sc2.loop = sc.loop + 1
            n = self.name("i")
            w = s.below(8)
            sc2.vars.setdefault("int", []).append(n)
            sc2.ro.add(n)
            if w < 3: head = "for %s in range(%s):" % (n, s.pick([str(s.range(0, 4)), "%s %% 5" % E("int", 1), "%d, %d" % (s.range(-2, 1), s.range(0, 4)), "%d, %d, -1" % (s.range(0, 4), s.range(-2, 1)), "0, %d, 2" % s.range(0, 6)]))
            elif w == 3: head = "for %s in %s:" % (n, E("Lint") + "[:6]")
            elif w == 4:
                m = self.name("i")
                sc2.vars.setdefault("str", []).append(m); sc2.ro.add(m)
                head = "for %s, %s in enumerate(%s[:]):" % (n, m, E("Lstr"))
            elif w == 5:
                m = self.name("i")
                sc2.vars["int"].append(m); sc2.ro.add(m)
                head = "for %s, %s in dk(%s):" % (n, m, E("Dint"))
            elif w == 6:
                m = self.name("i")
                sc2.vars.setdefault("str", []).append(m); sc2.ro.add(m)
                head = "for %s, %s in zip(%s[:], %s[:]):" % (n, m, E("Lint"), E("Lstr"))
            else:
                if self.gens:
                    self.feat.add("gen")
                    head = "for %s in %s:" % (n, self.call(s.pick(self.gens), 2, sc))
                else: head = "for %s in sorted(%s):" % (n, E("Sint"))
            r = [head] + self.block(sc2, d - 1)
            if s.chance(1, 5):
                self.feat.add("forelse")
                r += ["else:"] + self.block(Scope(sc), d - 1)
            return r
        if k == "while":
            n = self.name("w")
            sc2 = Scope(sc); sc2.loop = sc.loop + 1
            r = ["%s = %s %% 4" % (n, E("int")), "while %s > 0%s:" % (n, s.pick(["", " and " + E("bool"), " or False"])), "    %s -= 1" % n] + self.block(sc2, d - 1)
            if s.chance(1, 5):
                self.feat.add("forelse")
                r += ["else:"] + self.block(Scope(sc), d - 1)
            return r
        if k == "try":
            self.feat.add("try")
            r = ["try:"] + self.block(Scope(sc), d - 1, s.range(1, 3))
            hs = s.below(5)
            fin = s.chance(2, 5)
            if hs == 4 and fin: pass
            else:
                kinds = s.pick([["E0"], ["E1", "E0"], ["E2"], ["E2", "E0"], ["ZeroDivisionError"], ["KeyError"], ["IndexError", "E0"], ["ValueError"], ["Exception"], ["E1", "Exception"]])
                for x in kinds:
                    sc2 = Scope(sc)
                    e = self.name("e")
                    if x in ("E0", "E1", "E2") and s.flip():
                        r += ["except %s as %s:" % (x, e), "    print('caught %s', %s.n)" % (x, e)] + self.block(sc2, d - 1)
                    else: r += ["except %s:" % x, "    print('caught %s')" % x] + self.block(sc2, d - 1, 1)
                    if s.chance(1, 8): r += ["    raise"]
                if s.chance(1, 4): r += ["else:"] + self.block(Scope(sc), d - 1)
            if fin or hs == 4:
                sc2 = Scope(sc)
                sc2.infinally, sc2.loop, sc2.gen = True, 0, False
                keep, sc2.ret = sc2.ret, None
                fb = self.block(sc2, d - 1, 1)
                if not any("raise" in l for l in fb): r += ["finally:", "    log.append(%d)" % self.k()] + fb
                else: r += ["finally:", "    log.append(%d)" % self.k()]
            return r
        if k == "with":
            self.feat.add("with")
            n = self.name("c")
            sc2 = Scope(sc)
            if s.flip():
                sc2.vars.setdefault("int", []).append(n + ".k"); sc2.ro.add(n + ".k")
                return ["with CM(%d) as %s:" % (s.range(0, 9), n)] + self.block(sc2, d - 1)
            return ["with CM(%d):" % s.range(0, 9)] + self.block(sc2, d - 1)
        if k == "nest" and sc.kind == "func" and not sc.gen:
            self.feat.add("closure")
            f = self.name("nf")
            p = self.name("q")
            sc2 = Scope(sc)
            sc2.ro |= {x for v in sc.vars.values() for x in v}
            sc2.vars.setdefault("int", []).append(p)
            sc2.ret, sc2.loop, sc2.kind = "int", 0, "nested"
            body = []
            w = self.writable("int", sc)
            if w and s.chance(1, 2) and "nonlocal" in self.feats:
                body = ["    nonlocal %s" % w, "    %s += %s" % (w, p)]
            body += self.block(sc2, 1, s.range(1, 2)) + ["    return " + self.expr("int", 2, sc2)]
            return ["def %s(%s: int) -> int:" % (f, p)] + body + ["print(%s(%s))" % (f, E("int", 1))] + (["print(%s(%s))" % (f, E("int", 1))] if s.flip() else [])
        if k == "match":
            self.feat.add("match")
            v = self.name("m")
            r = ["%s = %s" % (v, E("int")), "match %s:" % v]
            for _ in range(s.range(1, 3)):
                sc2 = Scope(sc)
                if not self.matchexit: sc2.loop = 0
                pat = s.pick([str(s.range(0, 5)), "%d | %d" % (s.range(0, 5), s.range(5, 9)), "_ if %s" % E("bool", 1)])
                r += ["    case %s:" % pat] + ["    " + l for l in self.block(sc2, d - 1, 1)]
            if s.flip():
                sc2 = Scope(sc)
                if not self.matchexit: sc2.loop = 0
                r += ["    case _:"] + ["    " + l for l in self.block(sc2, d - 1, 1)]
            return r
        if k == "exit":
            if sc.loop and s.chance(2, 3):
                return ["if %s: %s" % (E("bool"), s.pick(["break", "continue"]))]
            if sc.ret and not sc.gen: return ["if %s: return %s" % (E("bool"), E(sc.ret))]
            if sc.gen: return ["if %s: return" % E("bool")]
        if k == "raise":
            self.feat.add("raise")
            x = s.below(5)
            c = E("bool", 1)
            if x < 3: return ["if %s: raise %s(%s)" % (c, s.pick(["E0", "E1", "E2"]), E("int", 1))]
            if x == 3: return ["if %s: raise ValueError('v')" % c]
            v = self.var("Lint", sc)
            if v: return ["print(%s[%s])" % (v, s.range(0, 8))]
        if k == "yield":
            return ["yield %s" % E("int")]
        t = s.pick(SIMPLE)
        return [self.show(t, E(t, 3))]

    matchexit = True

    # -- definitions
    def fundef(self, gen=False):
        s = self.s
        name = "f{N}_%d" % len(self.funs + self.gens)
        n = s.range(0, 3)
        ps = [("a%d" % i, s.pick(["int", "int", "str", "Lint", "bool", "Tis", "float"])) for i in range(n)]
        ndef = s.range(0, n) if s.chance(1, 3) else 0
        ndef = min(ndef, next((i for i, p in enumerate(reversed(ps)) if p[1] in ("Lint",)), n))
        star = not gen and ndef == 0 and s.chance(1, 6)
        sc = Scope()
        ret = "int" if gen else s.pick(SIMPLE)
        sc.ret, sc.gen = (None if gen else ret), gen
        sig = []
        for i, (p, t) in enumerate(ps):
            a = p + (": " + self.ann(t) if s.chance(1, 2) or i >= n - ndef else "")
            if i >= n - ndef: a += " = " + self.atom(t, sc)
            sig.append(a)
            sc.vars.setdefault(t, []).append(p)
        if star: sig.append("*rest")
        for t in ("int", "Lint", "str"):
            v = self.name()
            sc.vars.setdefault(t, [])
            init = ["%s = %s" % (v, self.atom(t, sc))]
            sc.vars[t].append(v)
            self.pre = getattr(self, "pre", []) + init
        body, self.pre = self.pre, []
        for g, t in self.globals.items(): sc.vars.setdefault(t, []).append(g)
        gl = [g for g in self.globals if s.flip() and self.globals[g] in ("int", "str")]
        ro = [g for g in self.globals if g not in gl]
        sc.ro |= set(ro)
        head = ["global " + ", ".join(gl)] if gl else []
        if star: body.append("for rr in rest: %s += rr" % sc.vars["int"][-1 - len([g for g, t in self.globals.items() if t == "int"])])
        body += [l[4:] for l in self.block(sc, 2, s.range(1, 4))]
        if gen: body.append("yield %s" % self.expr("int", 2, sc))
        else: body.append("return %s" % self.expr(ret, 2, sc))
        hint = " -> " + self.ann(ret) if not gen and s.flip() else ""
        self.top += ["def %s(%s)%s:" % (name, ", ".join(sig), hint)] + ["    " + l for l in head + body]
        (self.gens if gen else self.funs).append(dict(name=name, params=ps, ret=ret, ndef=ndef, star=star))

    def classdef(self):
        s = self.s
        name = "K{N}_%d" % len(self.classes)
        ops = set(s.sub(["eq", "lt", "add", "len", "item", "call", "str", "prop", "contains"], 0, 4))
        lines = ["class %s:" % name, "    f0: int", "    f1: List[int]", "    def __init__(self, a: int):", "        self.f0 = a", "        self.f1 = [a]"]
        sc = Scope()
        sc.vars = {"int": ["self.f0", "a"], "Lint": ["self.f1"]}
        sc.ro = {"self.f1"}
        sc.kind = "method"
        one = lambda t, sc: self.expr(t, 2, sc)
        slf = Scope(); slf.vars = {"int": ["self.f0"], "Lint": ["self.f1"]}; slf.ro = {"self.f0", "self.f1"}; slf.kind = "method"
        bin_ = Scope(); bin_.vars = {"int": ["self.f0", "o.f0"], "Lint": ["self.f1"]}; bin_.ro = {"self.f0", "o.f0", "self.f1"}; bin_.kind = "method"
        meth = []
        for m in range(s.range(0, 2)):
            sc2 = Scope(sc)
            sc2.ret = "int"
            lines += ["    def m%d(self, a: int) -> int:" % m] + ["    " + l for l in self.block(sc2, 1, s.range(1, 2))] + ["        return " + one("int", sc2)]
            meth.append("m%d" % m)
        if "eq" in ops: lines += ["    def __eq__(self, o: %s) -> bool:" % name, "        log.append(%d)" % self.k() if s.flip() else "        pass", "        return self.f0 %s o.f0" % s.pick(["==", "!="]), "    def __ne__(self, o: %s) -> bool:" % name, "        return not (self == o)",
                                  "    def __hash__(self) -> int:", "        return self.f0"]
        if "lt" in ops: lines += ["    def __lt__(self, o: %s) -> bool:" % name, "        return " + one("bool", bin_), "    def __gt__(self, o: %s) -> bool:" % name, "        return " + one("bool", bin_)]
        if "add" in ops: lines += ["    def __add__(self, o: %s) -> %s:" % (name, name) if False else "    def __add__(self, o):", "        return %s(self.f0 %s o.f0)" % (name, s.pick("+-"))]
        if "len" in ops: lines += ["    def __len__(self) -> int:", "        return abs(%s) %% 9" % one("int", slf)]
        if "item" in ops: lines += ["    def __getitem__(self, i: int) -> int:", "        return self.f0 + i * 2"]
        if "call" in ops: lines += ["    def __call__(self, a: int) -> int:", "        self.f0 += 1", "        return self.f0 - a"]
        if "str" in ops: lines += ["    def __str__(self) -> str:", "        return 'K<' + str(self.f0) + '>'"]
        if "prop" in ops: lines += ["    @property", "    def pp(self) -> int:", "        return " + one("int", slf)]
        if "contains" in ops: lines += ["    def __contains__(self, i: int) -> bool:", "        return i > self.f0"]
        self.top += lines
        subs = []
        if meth and s.flip():
            self.feat.add("inherit")
            b = name + "s"
            sc2 = Scope(sc)
            self.top += ["class %s(%s):" % (b, name), "    g0: int", "    def __init__(self, a: int):", "        super().__init__(a + 1)", "        self.g0 = a", "    def m0(self, a: int) -> int:", "        return self.g0 + super().m0(a)" if s.flip() else "        return " + one("int", sc2)]
            subs = [b]
        self.classes.append(dict(name=name, ops=ops, meth=meth, subs=subs))

    def program(self):
        s = self.s
        for i in range(s.range(0, 2)):
            g = "g{N}_%d" % i
            t = s.pick(["int", "int", "str", "Lint"])
            self.top.append("%s = %s" % (g, self.atom(t, Scope())))
            self.globals[g] = t
        for _ in range(s.range(0, 1)): self.classdef()
        for _ in range(s.range(0, 2)): self.fundef()
        for _ in range(s.range(0, 1)): self.fundef(gen=True)
        sc = Scope()
        body = []
        for t in ("int", "str", "Lint"):
            v = self.name()
            body.append("%s = %s" % (v, self.atom(t, sc)))
            sc.vars.setdefault(t, []).append(v)
        for g, t in self.globals.items():
            sc.vars.setdefault(t, []).append(g)
            sc.ro.add(g)
        n0 = s.range(2, 7)
        for _ in range(n0): body += self.stmt(sc, 2)
        for t, vs in sc.vars.items():
            if t in ANN:
                for v in vs[:4]: body.append(self.show(t, v))
        body.append("flush()")
        # the log must be shown even if an exception leaves the case
        return Case(["log.clear()"] + body, self.top, nontrivial=len(self.top) + len(body) > 12 and bool(self.feat), tag="")


def gen(feats=frozenset({"walrus", "nonlocal"}), matchexit=True):
    def f(s):
        g = G(s, feats)
        g.matchexit = matchexit
        return g.program()
    return f
