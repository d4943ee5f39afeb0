"""C06: string methods, slices and regular expressions on ASCII text; CPython as the oracle."""
import re
import e2e, calls


def word(s, alpha="aabbcA B1-_.", lo=0, hi=12): return "".join(s.pick(alpha) for _ in range(s.range(lo, hi)))


ANY = "".join(chr(c) for c in range(1, 127) if not 0x1c <= c <= 0x1f)  # byte strings do not count these as white space


def text(s):
    k = s.below(9)
    if k == 8: return word(s, s.pick(["ab", "aab ", "abc,", "a"]), 0, 90)  # long enough for the vectorised searches
    if k == 0: return ""
    if k == 1: return word(s, "ab", 0, 20)
    if k == 2: return word(s, "a", 0, 6)
    if k == 3: return word(s, " \t\n\r\x0b\x0cab,", 0, 14)
    if k == 4: return word(s, ANY, 0, 10)
    if k == 5: return word(s, "aZ 'x-Y9_", 0, 14)
    if k == 6: return word(s, "0123456789+-. e", 0, 8)
    return word(s)


def short(s):
    k = s.below(5)
    return word(s, "aab", 2, 7) if k == 4 else "" if k == 0 else word(s, "ab", 1, 3) if k == 1 else word(s, " ,-aA", 1, 2) if k == 2 else text(s)[:3]


def sep(s): return short(s) or "a"
def num(s): return s.range(-14, 14) if s.chance(7, 8) else s.pick([-2**63, 2**63 - 1, 100, -100])
def cnt(s): return s.range(-1, 4)
def width(s): return s.range(-3, 20)
def step(s): return s.pick([1, 2, 3, -1, -2, -5, 7, 0])
def char(s): return s.pick("* 0a-")
def words(s): return [text(s)[:4] for _ in range(s.range(1, 4))]


T, A, B, N, M = ("s", "str", text), ("a", "str", short), ("b", "str", short), ("n", "int", num), ("m", "int", num)
OPS = [([T], "s.%s()" % m) for m in "isdigit islower isupper isalnum isalpha isspace istitle capitalize isdecimal lower upper isascii casefold swapcase title isnumeric isidentifier isprintable strip lstrip rstrip split rsplit expandtabs".split()]
L = ("s", "str", lambda s: text(s).replace("\x0b", "x").replace("\x0c", "y"))  # byte strings break lines at \r and \n only
OPS += [([L], "s.splitlines()"), ([L], "s.splitlines(True)"), ([T], "len(s)"), ([T], "[c for c in s]"), ([T], "s[::-1]"), ([T], "repr(s)"), ([T], "'x'.join([c for c in s])"), ([T], "[ord(c) for c in s]"), ([T], "sorted([c for c in s])"), ([T], "str(s)")]
OPS += [([T, ("w", "int", width)], "s.%s(w)" % m) for m in "ljust rjust center zfill".split()] + [([T, ("w", "int", width), ("c", "str", char)], "s.%s(w, c)" % m) for m in "ljust rjust center".split()]
OPS += [([T, A], "s.%s(a)" % m) for m in "count find rfind index rindex startswith endswith lstrip rstrip strip".split()]
OPS += [([T, A, N], "s.%s(a, n)" % m) for m in "count find rfind index rindex startswith endswith".split()] + [([T, A, N, M], "s.%s(a, n, m)" % m) for m in "count find rfind index rindex startswith endswith".split()]
OPS += [([T, ("a", "str", short)], "s.%s(a)" % m) for m in "partition rpartition split rsplit".split()]
OPS += [([T, ("a", "str", sep), ("k", "int", cnt)], "s.%s(a, k)" % m) for m in "split rsplit".split()] + [([T, ("k", "int", cnt)], "s.%s(None, k)" % m) for m in "split rsplit".split()]
OPS += [([T, A, B], "s.replace(a, b)"), ([T, A, B, ("k", "int", cnt)], "s.replace(a, b, k)"), ([T, ("k", "int", width)], "s.expandtabs(k)"), ([T, ("k", "int", lambda s: s.range(-2, 5))], "s * k"), ([T, A], "s + a"), ([T, A], "a in s"), ([T, A], "a not in s")]
OPS += [([T, ("a", "str", text)], "s %s a" % o) for o in ("<", "<=", ">", ">=", "==", "!=")]
OPS += [([T, N], "s[n]"), ([T, N], "s[n:]"), ([T, N], "s[:n]"), ([T, N, M], "s[n:m]"), ([T, ("k", "int", step)], "s[::k]"), ([T, N, ("k", "int", step)], "s[n::k]"), ([T, N, ("k", "int", step)], "s[:n:k]"), ([T, N, M, ("k", "int", step)], "s[n:m:k]")]
OPS += [([T, ("l", "List[str]", words)], "s.join(l)"), ([T, ("l", "List[str]", words)], "s in l"), ([("l", "List[str]", words)], "sorted(l)"), ([("l", "List[str]", words)], "max(l)"), ([("l", "List[str]", words)], "min(l)"), ([("l", "List[str]", words)], "len(set(l))"), ([T, ("l", "List[str]", words)], "{w: len(w) for w in l}.get(s, -1)")]


def methods(src):
    params, expr = src.pick(OPS)
    return calls.case(src, params, expr, n=8, tag=expr)


# -- regular expressions ------------------------------------------------------------------------------------------------
class Rx:
    """random pattern in the syntax that RE2 and sre share with the same meaning"""
    def __init__(self, s):
        self.s, self.groups, self.names = s, 0, []

    def atom(self, d):
        s = self.s
        k = s.weighted([(8, "ch"), (2, "dot"), (3, "cls"), (3, "esc"), (3 if d > 0 else 0, "grp"), (2 if d > 0 else 0, "non"), (1 if d > 0 else 0, "named")])
        if k == "ch": return s.pick(["a", "b", "c", "A", "1", " ", "-", "ab", "_", "\\.", ","])
        if k == "dot": return "."
        if k == "cls": return "[" + s.pick(["", "", "^"]) + s.pick(["ab", "a-c", "0-9", "A-Za-z", "abc1", "-a", "\\w", "\\d.", " ,", "a\\]"]) + "]"
        if k == "esc": return s.pick(["\\d", "\\w", "\\s", "\\D", "\\W", "\\S"])
        if k == "grp":
            self.groups += 1
            return "(" + self.alt(d - 1) + ")"
        if k == "named":
            self.groups += 1
            n = "g%d" % self.groups
            self.names.append(n)
            return "(?P<%s>%s)" % (n, self.alt(d - 1))
        return "(?:" + self.alt(d - 1) + ")"

    def piece(self, d):
        s = self.s
        a = self.atom(d)
        q = s.weighted([(9, ""), (2, "*"), (2, "+"), (2, "?"), (1, "*?"), (1, "+?"), (1, "??"), (1, "{2}"), (1, "{1,3}"), (1, "{0,2}?"), (1, "{2,}")])
        if not q: return a
        if a[0] not in "([\\." and len(a) > 1: a = a[0]
        if a[0] == "(":  # repeating something that may be empty is where sre and RE2 legitimately part
            return a if q[0] in "*+{" and True else a + q
        return a + q

    def cat(self, d): return "".join(self.piece(d) for _ in range(self.s.range(1, 4)))

    def alt(self, d):
        n = self.s.weighted([(5, 1), (2, 2), (1, 3)])
        return "|".join(self.cat(d) for _ in range(n))

    def whole(self):
        s = self.s
        p = self.alt(2)
        w = s.weighted([(10, ""), (2, "^"), (2, "$"), (2, "\\b"), (1, "\\A")])
        if w in ("^", "\\A"): return w + p if "|" not in p else p
        if w == "$": return p + "$" if "|" not in p else p
        if w in ("\\b", "\\B"): return w + p if "|" not in p else p
        return p


def minwidth(p):
    try: return re._parser.parse(p).getwidth()[0]
    except re.error: return 0


GREEDY = ["a*", "\\d*", "b?", "[ab]*", "\\w*", "x*", "(a*)", "(?:ab)*"]


def subject(s):
    k = s.below(4)
    x = word(s, "abcab", 0, 12) if k == 0 else word(s, "aAbB1 2,-_.", 0, 16) if k == 1 else text(s) if k == 2 else word(s, "ab1 \nAc", 0, 12)
    return x.replace("\x0b", " ").rstrip("\n")  # RE2: \s without VT; $ at the very end only


RPRE = """
import re
def sm(m, groups: int):
    if m is None:
        print('no match')
    else:
        print('match', m.start(), m.end(), m.span())
        show(m.group())
        for i in range(groups + 1):
            print(i, m.span(i), m.start(i), m.end(i))
        for g in m.groups():
            if g is None: print('-')
            else: print('<', g, '>', sep='')
"""
COD_RPRE = """
import re
def sm(m: Optional[re.Match], groups: int):
    if m is None:
        print('no match')
    else:
        print('match', m.start(), m.end(), m.span())
        show(str(m.group()))
        for i in range(groups + 1):
            print(i, m.span(i), m.start(i), m.end(i))
        for g in m.groups():
            if g is None: print('-')
            else: print('<', g, '>', sep='')
"""


def regex(src):
    body = []
    pats = []
    for _ in range(src.range(1, 3)):
        r = Rx(src)
        p = r.whole()
        pats.append((p, r.groups, r.names))
    n = 0
    for _ in range(src.range(3, 7)):
        p, g, names = src.pick(pats)
        n += 1
        f = src.pick(["search", "match", "fullmatch", "findall", "finditer", "split", "sub", "subn", "subf", "groupdict", "escape"])
        if minwidth(p) == 0 and f not in ("search", "match", "fullmatch", "groupdict", "escape"):
            # where an empty match was found, RE2 cannot be asked for a longer one: greedy patterns only
            p = src.pick(GREEDY)
            g, names = p.count("(") - p.count("(?"), []
        fl = src.weighted([(6, ""), (1, "re.I"), (1, "re.M"), (1, "re.S"), (1, "re.I | re.M")])
        if src.chance(1, 12): body.append("re.purge()")
        comp = src.flip()
        P = calls.lit(p)
        t = calls.lit(subject(src))
        if src.chance(1, 3): t = "''.join([c for c in %s])" % t
        if comp: body.append("r%d = re.compile(%s%s)" % (n, P, ", " + fl if fl else ""))
        pos = ""
        if comp and src.chance(1, 4):
            pos = ", %d" % src.range(0, 6)
            if src.flip(): pos += ", %d" % src.range(0, 12)
        if comp: call = lambda name, args="", after="": "r%d.%s(%s%s%s)" % (n, name, args, t, after)
        else: call = lambda name, args="", after="": "re.%s(%s, %s%s%s%s)" % (name, P, args, t, after, ", flags=" + fl if fl else "")
        if f in ("search", "match", "fullmatch"): body.append("sm(%s, %d)" % (call(f, "", pos), g))
        elif f == "findall":
            body += ["for x in %s:" % call("finditer"), "    show(str(x.group()))"] if g > 0 else ["show(%s)" % call("findall", "", pos)]
        elif f == "finditer": body += ["for x in %s:" % call("finditer", "", pos), "    print(x.span(), %s)" % ", ".join("x.span(%d)" % i for i in range(g + 1))]
        elif f == "split":
            k = src.range(0, 3)
            body += ["for x in %s:" % call("split", "", ", %d" % k if k else ""), "    if x is None: print('-')", "    else: print('<', x, '>', sep='')"]
        elif f in ("sub", "subn"):
            k = src.range(0, 3)
            rep = src.pick(["''", "'X'", "'a b'", "'-'", "'q'"] + ["r'[\\%d]'" % i for i in range(1, g + 1)] + ["r'\\g<%s>!'" % x for x in names] + ["r'\\g<0>\\g<0>'"])
            r = call(f, rep + ", ", ", %d" % k if k else "")
            body.append("show(%s)" % r if f == "sub" else "u%d = %s; show(u%d[0]); print(u%d[1])" % (n, r, n, n))
        elif f == "subf":
            body.append("show(%s)" % call("sub", "lambda m: '<' + str(len(m.group())) + '>', "))
        elif f == "groupdict":
            body += ["m%d = %s" % (n, call("search")), "if m%d:" % n] + ["    print(m%d.lastindex is None, m%d.end() - m%d.start())" % (n, n, n)] + ["    print(m%d.span('%s'))" % (n, x) for x in names]
        else: body.append("print(re.fullmatch(re.escape(%s), %s) is not None)" % (t, t))
    return e2e.Case(body, nontrivial=any(len(p) > 2 for p, _, _ in pats))


def run(pid, seed, budget, work, tier):
    subs = [e2e.Sub("methods", "most of the argument tuples differ", methods, "cpython", [e2e.RELEASE], calls.CODON, calls.PY, batch=24, weight=2),
            e2e.Sub("regex", "a pattern longer than two characters", regex, "cpython", [e2e.RELEASE], calls.CODON + COD_RPRE, calls.PY + RPRE, batch=24)]
    return e2e.run_subs(subs, pid, seed, budget, work, tier)
