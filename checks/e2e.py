"""Program-level engine: batches of generated cases are compiled and run by fork servers (server/server.cpp); each case's
output is compared with an oracle's. A disagreement is confirmed alone with the real `codon` binary, shrunk over the choice
sequence that generated it, and written as a replay file (a .codon program whose header names configuration and expectation)."""
import hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BIN = os.path.join(ROOT, "build/plain/codon")
SRV = os.path.join(ROOT, "build/plain/codonfs")
ENV = dict(os.environ, CODON_PATH=os.environ.get("DEV_STDLIB", "/repo/stdlib"), OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "4"), PYTHONHASHSEED="0")
WORKERS = 8


class Src:
    """choice sequence: a case is a function of the numbers drawn; draws beyond a replayed prefix give 0"""
    def __init__(self, rng=None, given=None):
        self.rng, self.given, self.rec = rng, given or [], []

    def below(self, n):
        if n <= 1: return 0
        k = len(self.rec)
        if k < len(self.given): v = self.given[k] % n
        elif self.rng is not None: v = self.rng.randrange(n)
        else: v = 0
        self.rec.append(v)
        return v

    def range(self, lo, hi): return lo + self.below(hi - lo + 1)
    def chance(self, num, den): return self.below(den) >= den - num
    def flip(self): return self.below(2) == 1
    def pick(self, xs): return xs[self.below(len(xs))]

    def weighted(self, pairs):
        t = self.below(sum(w for w, _ in pairs))
        for w, x in pairs:
            if t < w: return x
            t -= w

    def sub(self, xs, lo=0, hi=None):
        hi = len(xs) if hi is None else hi
        return [self.pick(xs) for _ in range(self.range(lo, hi))]

    EDGE = [0, 1, -1, 2, 3, 7, 8, 10, 255, 256, 127, 128, -128, 32767, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**62, 2**63 - 1, -2**63, -2**63 + 1]

    def i64(self):
        k = self.below(4)
        if k == 0: return self.range(0, 20) - 5
        if k == 1: return self.pick(self.EDGE)
        if k == 2: return self.range(-1000, 1000)
        b = self.range(1, 63)
        return self.below(2**b) * (-1 if self.flip() else 1)

    FEDGE = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e16, 1e15, 123456.0, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e-5, 1e-4, 0.0001234, 3.141592653589793, 2.5, 3.5, 1e100, 4503599627370497.5, 9007199254740993.0]

    def f64(self, finite=False):
        k = self.below(6)
        if k == 0: return float(self.range(-10, 10))
        if k == 1: return self.range(-1000, 1000) / self.pick([2, 3, 4, 7, 10, 100])
        if k == 2: return self.pick(self.FEDGE) * self.pick([1, -1])
        if k == 3 and not finite: return self.pick([float("inf"), float("-inf"), float("nan"), 0.0])
        import struct
        if k == 4:
            while True:
                x = struct.unpack("<d", struct.pack("<Q", self.below(2**64)))[0]
                if x == x and abs(x) != float("inf"): return x
                self.rec.append(0)
                if self.rng is None: return 1.0
        return self.range(-10**6, 10**6) * 10.0 ** self.range(-8, 8)


class Case:
    """body: lines of the case function; top: module-level lines before it ('{N}' is the case number everywhere)"""
    __slots__ = ("body", "top", "expect", "nontrivial", "tag", "key", "choices", "sub", "opts", "cfgs", "pybody", "pytop")

    def __init__(self, body, top=(), expect=None, nontrivial=True, tag="", pybody=None, pytop=None):
        self.body, self.top, self.expect, self.nontrivial, self.tag = list(body), list(top), expect, nontrivial, tag
        self.pybody, self.pytop = pybody, pytop  # text for CPython when it has to differ
        self.choices, self.sub = [], None

    def ident(self):
        return hashlib.sha1("\n".join(self.top + ["@"] + self.body).encode("utf8", "surrogatepass")).hexdigest()[:16]


class Config:
    def __init__(self, name, server=(), opts="", cli=()):
        self.name, self.server, self.opts, self.cli = name, tuple(server), opts, list(cli)


RELEASE = Config("release", [], "", ["-release"])
DEBUG = Config("debug", ["--debug"], "", [])
RELPY = Config("release-py", ["--py"], "", ["-release", "-numerics=py"])
DBGPY = Config("debug-py", ["--debug", "--py"], "", ["-numerics=py"])


def disabled(names, py=False):
    """a configuration with passes switched off"""
    return Config(("py-" if py else "") + "disable-" + "+".join(names), ["--py"] if py else [], "disable=" + ",".join(names),
                  ["-release"] + (["-numerics=py"] if py else []) + ["-disable-opt=" + n for n in names])


class Server:
    """one codonfs process; run() may be called from many threads"""
    def __init__(self, args, preload="", env=None):
        cmd = [SRV] + list(args)
        if preload: cmd += ["--preload", preload]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env or ENV, bufsize=0)
        self.lock, self.wait, self.n = threading.Lock(), {}, 0
        self.ready = self.p.stdout.readline().startswith(b"READY")
        self.dead = False
        if self.ready: threading.Thread(target=self.reader, daemon=True).start()

    def reader(self):
        for line in self.p.stdout:
            f = line.decode().rstrip("\n").split("\t")
            with self.lock: q = self.wait.pop(f[0], None)
            if q: q.put(f[1:])
        self.dead = True
        with self.lock:
            for q in self.wait.values(): q.put(["server-died", "-", "0"])

    def run(self, path, out, opts="", limit=30):
        """-> (status, phase, stdout, stderr)"""
        q = queue.Queue()
        with self.lock:
            self.n += 1
            i = str(self.n)
            self.wait[i] = q
            self.p.stdin.write(("%s\t%d\t%s\t%s\t%s\n" % (i, limit, path, out, opts)).encode())
        try: st, ph, _ = q.get(timeout=limit + 60)
        except queue.Empty: st, ph = "timeout", "-"
        return st, ph, rd(out + ".out"), rd(out + ".err")

    def close(self):
        try: self.p.kill()
        except Exception: pass


def rd(p):
    try:
        with open(p, "rb") as f: return f.read(8 << 20).decode("utf8", "replace")
    except OSError: return ""


def real(path, cli, limit=60, env=None):
    """the real binary; -> (status, stdout, stderr)"""
    p = subprocess.Popen([BIN, "run"] + list(cli) + [path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, start_new_session=True)
    try:
        o, e = p.communicate(timeout=limit)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return "timeout", o.decode("utf8", "replace"), e.decode("utf8", "replace")


EXC = ["KeyError", "IndexError", "ZeroDivisionError", "OverflowError", "ValueError", "TypeError", "AttributeError", "StopIteration", "AssertionError", "NotImplementedError", "OSError"]
TAIL = "".join("        except %s:\n            print('!%s')\n" % (e, e) for e in EXC) + "        except Exception:\n            print('!Exception')\n"


class Sub:
    """One generator with its oracle.
    gen(src) -> Case.  oracle: 'cpython' (same text), 'given' (case.expect), 'none' (first configuration is the reference).
    configs: configurations every case runs in.  norm: output normaliser.  compile_error: 'violation' | 'discard'."""
    def __init__(self, name, rule, gen, oracle="cpython", configs=(RELEASE,), prelude="", pyprelude="", weight=1, batch=25, limit=40, norm=None,
                 compile_error="violation", preload="", wrap=True, alternatives=1, env=None, close=None):
        self.name, self.rule, self.gen, self.oracle, self.configs, self.prelude, self.pyprelude = name, rule, gen, oracle, list(configs), prelude, pyprelude
        self.weight, self.batch, self.limit, self.norm, self.compile_error, self.preload, self.wrap = weight, batch, limit, norm or (lambda s: s), compile_error, preload, wrap
        self.env, self.close = env, close
        self.stats = dict(name=name, rule=rule, evaluations=0, nontrivial=0, distinct=0, discards=0, samples=[], compile_discards=0)
        self.seen = set()


MARK = "@@case "


def text(sub, cases, python=False):
    """-> (program, line number -> case index)"""
    lines, owner = [], {}
    pre = sub.pyprelude if python else sub.prelude
    if pre: lines += pre.rstrip("\n").split("\n")
    for n, c in enumerate(cases):
        a = len(lines)
        top = c.pytop if python and c.pytop is not None else c.top
        body = c.pybody if python and c.pybody is not None else c.body
        lines += [l.replace("{N}", str(n)) for l in top]
        lines.append("def case_%d():" % n)
        lines += ["    " + l.replace("{N}", str(n)) for l in body] or ["    pass"]
        if not body: lines.append("    pass")
        lines.append("def run_%d():" % n)
        lines.append("    try:")
        lines.append("        case_%d()" % n)
        for e in (["NameError"] if python else []) + EXC: lines += ["    except %s:" % e, "        print('!%s')" % e]
        lines += ["    except Exception:", "        print('!Exception')"]
        for k in range(a, len(lines)): owner[k + 1] = n
    for n in range(len(cases)):
        lines.append("print('%s%d', flush=True)" % (MARK, n))
        lines.append("run_%d()" % n)
    lines.append("print('%send', flush=True)" % MARK)
    # several physical lines may hide in one entry
    out, own2, ln = [], {}, 0
    for k, l in enumerate(lines):
        for part in l.split("\n"):
            ln += 1
            out.append(part)
            if k + 1 in owner: own2[ln] = owner[k + 1]
    return "\n".join(out) + "\n", own2


def split(out):
    """program output -> {case: text}, finished"""
    res, cur, done = {}, None, False
    for piece in re.split(r"(?m)^" + re.escape(MARK), out)[1:]:
        head, _, rest = piece.partition("\n")
        if head == "end": done = True
        elif head.isdigit(): res[int(head)] = rest
    return res, done


class Unusable(Exception):
    """the fork server does not start"""


class Engine:
    def __init__(self, pid, seed, budget, work, tier, subs):
        self.pid, self.seed, self.budget, self.tier, self.subs = pid, seed, budget, tier, subs
        self.work = os.path.join(work, "e2e")
        os.makedirs(self.work, exist_ok=True)
        self.servers, self.slock = {}, threading.Lock()
        self.viol, self.vlock, self.counter = [], threading.Lock(), 0
        self.sigs = set()
        self.setup_error = None
        self.stop = time.time() + budget + 60  # no new compilation after this

    # -- running ----------------------------------------------------------------------------------------------------
    def server(self, cfg, sub):
        key = (cfg.server, sub.preload)
        with self.slock:
            ent = self.servers.get(key)
            if ent is None:
                ent = self.servers[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None or ent[1].dead:
                ent[1] = Server(cfg.server, sub.preload, dict(ENV, **(sub.env or {})))
                if not ent[1].ready: raise Unusable(cfg, sub)
            return ent[1]

    def fresh(self):
        with self.vlock:
            self.counter += 1
            return os.path.join(self.work, "p%d" % self.counter)

    def clean(self, base):
        for s in (".codon", ".out", ".err", ".py"):
            try: os.unlink(base + s)
            except OSError: pass

    def cpython(self, sub, cases):
        base = self.fresh()
        try:
            prog, _ = text(sub, cases, python=True)
            with open(base + ".py", "w", encoding="utf8", errors="surrogatepass") as f: f.write(prog)
            try: r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-W", "ignore", base + ".py"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=ENV)
            except subprocess.TimeoutExpired: return None, "python timeout"
            res, done = split(r.stdout.decode("utf8", "replace"))
            if not done: return (None if len(cases) > 1 else {}), r.stderr.decode("utf8", "replace")[-500:]
            return res, ""
        finally: self.clean(base)

    def expected(self, sub, cases):
        """-> list of expected text or None (the case is discarded)"""
        if sub.oracle == "given": return [None if c.expect is None else c.expect for c in cases]
        if sub.oracle == "cpython":
            res, err = self.cpython(sub, cases)
            if res is None:  # one of them breaks the interpreter run: one by one
                return [self.expected(sub, [c])[0] for c in cases]
            # a program that is ill-typed for CPython need not compile
            return [None if re.search(r"(?m)^!(Name|Type|Attribute)Error$", res.get(n, "")) else res.get(n) for n in range(len(cases))]
        return [None] * len(cases)

    def compile_run(self, sub, cfg, cases):
        """-> per case (kind, text): kind ok | compile | crash | timeout | skip"""
        result = [None] * len(cases)
        todo = list(range(len(cases)))
        rounds = 0
        while todo:
            rounds += 1
            if time.time() > self.stop:
                for t in todo: result[t] = ("skip", "")
                break
            base = self.fresh()
            prog, owner = text(sub, [cases[k] for k in todo])
            with open(base + ".codon", "w", encoding="utf8", errors="surrogatepass") as f: f.write(prog)
            st, ph, out, err = self.server(cfg, sub).run(base + ".codon", base, cfg.opts, sub.limit)
            self.clean(base)
            if ph in ("p", "-", "c"):
                bad = {}
                for m in re.finditer(r"COMPILE-ERROR (\S*?):(\d+):(-?\d+) len=\S+ (.*)", out):
                    if m.group(1).endswith(os.path.basename(base) + ".codon") and int(m.group(2)) in owner: bad.setdefault(owner[int(m.group(2))], m.group(4))
                if len(todo) == 1:
                    kind = "compile" if st == "1" and "COMPILE-ERROR" in out else "crash" if st != "timeout" else "timeout"
                    result[todo[0]] = (kind, "in the compiler (status %s, phase %s): %s %s" % (st, ph, out[-1500:], err[-1500:]))
                    break
                if bad and len(bad) < len(todo) and rounds < 30:
                    for k, msg in bad.items(): result[todo[k]] = ("compile", msg)
                    todo = [t for k, t in enumerate(todo) if k not in bad]
                    continue
                # cannot tell which: halve
                h = len(todo) // 2
                for part in (todo[:h], todo[h:]):
                    for k, r in zip(part, self.compile_run(sub, cfg, [cases[k] for k in part])): result[k] = r
                break
            res, done = split(out)
            if done and st == "0":
                for k, t in enumerate(todo): result[t] = ("ok", res.get(k, "<missing>"))
                break
            # died while running: the last case that started is to blame (or something at exit)
            last = max(res) if res else 0
            for k, t in enumerate(todo):
                if k < last or (done and k == last): result[t] = ("ok", res.get(k, "<missing>"))
            if done:  # all cases ran, but the program did not end well
                if len(todo) == 1: result[todo[0]] = ("crash", "status %s at exit: %s" % (st, err[-800:]))
                else:
                    for t in todo: result[t] = None
                    h = len(todo) // 2
                    for part in (todo[:h], todo[h:]):
                        for k, r in zip(part, self.compile_run(sub, cfg, [cases[k] for k in part])): result[k] = r
                break
            result[todo[last]] = ("timeout" if st == "timeout" else "crash", "%s[ends: status %s] %s" % (res.get(last, ""), st, err[-800:]))
            todo = todo[last + 1:]
        return result

    # -- judging ----------------------------------------------------------------------------------------------------
    def judge(self, sub, cases):
        """-> per case None or (config, expected, got)"""
        exp = self.expected(sub, cases)
        verdict = [None] * len(cases)
        live = [k for k in range(len(cases)) if exp[k] is not None or sub.oracle == "none"]
        dead = set(range(len(cases))) - set(live)
        ref = {}
        for cfg in sub.configs:
            live2 = [k for k in live if verdict[k] is None and k not in dead]
            if not live2: break
            for k, r in zip(live2, self.compile_run(sub, cfg, [cases[k] for k in live2])):
                kind, got = r
                if kind == "skip":
                    dead.add(k)
                    continue
                if kind == "compile":
                    if sub.compile_error == "discard":
                        dead.add(k)
                        sub.stats["compile_discards"] += 1
                        continue
                    verdict[k] = (cfg, exp[k] if exp[k] is not None else "accepted by the compiler", "COMPILE ERROR " + got)
                    continue
                if kind in ("crash", "timeout"): got = kind.upper() + " " + got
                g = sub.norm(got)
                if sub.oracle == "none":
                    if cfg is sub.configs[0]:
                        ref[k] = (g, got)
                        if kind in ("crash", "timeout"): verdict[k] = (cfg, "no crash", got)
                        continue
                    if g != ref[k][0]: verdict[k] = (cfg, "as in %s: %s" % (sub.configs[0].name, ref[k][1]), got)
                elif sub.close and kind == "ok":
                    if not sub.close(exp[k], got): verdict[k] = (cfg, exp[k], got)
                elif g != sub.norm(exp[k]): verdict[k] = (cfg, exp[k], got)
        return verdict, dead

    def confirm(self, sub, case, cfg):
        """alone, with the real binary: does it still differ? -> (differs, expected, got)"""
        exp = self.expected(sub, [case])[0]
        base = self.fresh()
        prog, _ = text(sub, [case])
        with open(base + ".codon", "w", encoding="utf8", errors="surrogatepass") as f: f.write(prog)
        def go(c):
            st, out, err = real(base + ".codon", c.cli, sub.limit + 30, dict(ENV, **(sub.env or {})))
            res, done = split(out)
            if not done or st != 0: return "%s status %s: %s%s" % ("TIMEOUT" if st == "timeout" else "ENDED", st, res.get(0, ""), (err + out)[-600:])
            return res.get(0, "")
        try:
            got = go(cfg)
            if sub.oracle == "none":
                if cfg is sub.configs[0]: return got.startswith(("ENDED", "TIMEOUT")), "no crash", got
                exp = go(sub.configs[0])
            if exp is None: return False, "", got
            if sub.close and not got.startswith(("ENDED", "TIMEOUT")): return not sub.close(exp, got), exp, got
            return sub.norm(got) != sub.norm(exp), exp, got
        finally: self.clean(base)

    # -- shrinking --------------------------------------------------------------------------------------------------
    def make(self, sub, choices=None, rng=None):
        s = Src(rng, choices)
        c = sub.gen(s)
        if c is None: return None
        c.choices, c.sub = s.rec[:], sub
        return c

    def shrink(self, sub, case, cfg, deadline):
        best = case
        one = Sub(sub.name, "", sub.gen, sub.oracle, [sub.configs[0], cfg] if sub.oracle == "none" and cfg is not sub.configs[0] else [cfg], sub.prelude, sub.pyprelude, limit=min(sub.limit, 15), norm=sub.norm,
                  compile_error="violation" if sub.compile_error == "violation" else "discard", preload=sub.preload, env=sub.env, close=sub.close)
        size = lambda c: (len(c.choices), sum(c.choices))
        tried = set()
        self.stop = deadline
        lines = sub.oracle != "given" and best.pybody is None and best.pytop is None
        first = time.time() + (deadline - time.time()) / (2 if lines else 1)
        while time.time() < first:
            cand = []
            ch = best.choices
            n = len(ch)
            L = max(1, n // 2)
            while L >= 1:
                for a in range(0, n, L): cand.append(ch[:a] + ch[a + L:])
                L //= 2
            for k in range(n):
                if ch[k]: cand += [ch[:k] + [0] + ch[k + 1:], ch[:k] + [ch[k] // 2] + ch[k + 1:]]
                if ch[k] > 1: cand.append(ch[:k] + [ch[k] - 1] + ch[k + 1:])
            fresh = []
            for c in cand:
                key = tuple(c)
                if key in tried: continue
                tried.add(key)
                try: x = self.make(one, c)
                except Exception: continue
                if x is None or size(x) >= size(best): continue
                fresh.append(x)
                if len(fresh) >= 96: break
            if not fresh: break
            hits = self.still(one, fresh)
            if not hits: break
            best = min(hits, key=size)
        if lines: best = self.shrink_lines(one, best, deadline)
        return best

    @staticmethod
    def klass(got):
        """what kind of failure: shrinking must not slide from one to another"""
        if "COMPILE ERROR" not in got: return "run"
        m = re.search(r"COMPILE-ERROR \S+ len=\S+ (.*)", got)
        if m and "is not defined" in m.group(1): return m.group(1)
        return re.sub(r"'[^']*'|\d+", "", m.group(1))[:60] if m else "crash" if "in the compiler" in got else re.sub(r"'[^']*'|\d+", "", got)[:60]

    def still(self, one, cases):
        """the cases that fail in the same way"""
        hits = []
        def work(part):
            try: v, _ = self.judge(one, part)
            except Exception: return
            for c, x in zip(part, v):
                if x is not None and self.klass(x[2]) == self.want: hits.append(c)
        parts = [cases[k::8] for k in range(8)]
        ts = [threading.Thread(target=work, args=(p,)) for p in parts if p]
        for t in ts: t.start()
        for t in ts: t.join()
        return hits

    def shrink_lines(self, one, case, deadline):
        """drop whole blocks of lines while the case still fails in the same way"""
        lines = [(0, l) for l in case.top] + [(1, l) for l in case.body]
        def mk(ls):
            c = Case([l for k, l in ls if k], [l for k, l in ls if not k], case.expect, tag=case.tag)
            c.choices, c.sub = case.choices, case.sub
            return c
        depth = lambda l: len(l) - len(l.lstrip())
        while time.time() < deadline:
            cand = []
            n = len(lines)
            for i in range(n):
                j = i + 1
                while j < n and lines[j][0] == lines[i][0] and depth(lines[j][1]) > depth(lines[i][1]): j += 1
                if not lines[i][1].lstrip().startswith(("return", "yield")): cand.append((i, j, []))
                if j > i + 1:  # the body without its head; the head with an empty body
                    d = depth(lines[i + 1][1]) - depth(lines[i][1])
                    cand.append((i, j, [(k, l[d:]) for k, l in lines[i + 1:j]]))
            cand.sort(key=lambda c: -(c[1] - c[0]))
            done = False
            while cand and time.time() < deadline:
                part, cand = cand[:64], cand[64:]
                cs = [mk(lines[:i] + r + lines[j:]) for i, j, r in part]
                # a block left without a body gets one
                for c in cs:
                    for sec in (c.top, c.body):
                        k = 0
                        while k < len(sec):
                            if sec[k].rstrip().endswith(":") and (k + 1 == len(sec) or depth(sec[k + 1]) <= depth(sec[k])): sec.insert(k + 1, " " * (depth(sec[k]) + 4) + "pass")
                            k += 1
                size = lambda c: sum(len(l) for l in c.top + c.body if l.strip() != "pass")
                old = size(case)
                cs = [c for c in cs if size(c) < old]
                hits = self.still(one, cs)
                if hits:
                    case = min(hits, key=size)
                    lines = [(0, l) for l in case.top] + [(1, l) for l in case.body]
                    done = True
                    break
            if not done: break
        return case

    # -- search -----------------------------------------------------------------------------------------------------
    def report(self, sub, case, v):
        cfg, exp, got = v
        sig = "%s/%s%s" % (sub.name, cfg.name, "/" + case.tag if case.tag else "")
        with self.vlock:
            if sig in self.sigs or len(self.viol) + len(self.pending) >= 6: return
            self.sigs.add(sig)
            self.pending.append((sub, case, v, sig))

    def settle(self):
        last = time.time() + (100 if self.tier == "quick" else 600)
        for sub, case, (cfg, exp, got), sig in self.pending:
            if self.viol and time.time() > last: break
            ok, e2, g2 = self.confirm(sub, case, cfg)
            if not ok:
                ok, e2, g2 = self.confirm(sub, case, cfg)
                if not ok:
                    print("unconfirmed: %s: expected %r got %r" % (sig, (exp or "")[:200], got[:200]), file=sys.stderr)
                    self.unconfirmed += 1
                    path = os.path.join(os.path.dirname(self.work), "unconfirmed-%d.codon" % self.unconfirmed)
                    open(path, "w", encoding="utf8", errors="surrogatepass").write(text(sub, [case])[0])
                    continue
            self.want = self.klass(got)
            small = self.shrink(sub, case, cfg, time.time() + float(os.environ.get("SHRINK", 25 if self.tier == "quick" else 150)))
            if small is not case:
                ok, e3, g3 = self.confirm(sub, small, cfg)
                if ok: case, e2, g2 = small, e3, g3
            path = os.path.join(os.path.dirname(self.work), "%s.codon" % re.sub(r"[^A-Za-z0-9]+", "-", sig))
            with open(path, "w", encoding="utf8", errors="surrogatepass") as f:
                f.write("# property %s, %s: run with: CODON_PATH=/repo/stdlib codon run %s FILE\n# expected: %s\n# got: %s\n# choices: %s\n" % (
                    self.pid, sig, " ".join(cfg.cli), json.dumps(e2)[:3000], json.dumps(g2)[:3000], json.dumps(case.choices)))
                f.write(text(sub, [case])[0])
            self.viol.append(dict(sub=sub.name, sig=sig, message="%s: expected %r, got %r, for: %s" % (cfg.name, e2[:300], g2[:300], "\n".join(case.top + case.body)[:400]), replay=path))

    def check_usable(self):
        """the server did not start: is even the simplest program beyond the compiler?"""
        cfg, sub = self.unusable
        path = os.path.join(os.path.dirname(self.work), "trivial.codon")
        with open(path, "w") as f: f.write((sub.preload + "\n" if sub.preload else "") + "print(1)\n")
        st, out, err = real(path, cfg.cli, 120)
        if st == 0 and out.strip() == "1": self.setup_error = "the fork server does not start"
        else: self.viol.append(dict(sub=sub.name, sig="trivial", message="%s: the simplest program fails: status %s %s" % (cfg.name, st, (out + err)[-600:]), replay=path))

    def run(self):
        self.pending, self.unconfirmed, self.unusable = [], 0, None
        end = time.time() + self.budget
        order = [s for s in self.subs for _ in range(s.weight)]
        lock, state = threading.Lock(), {"n": 0}

        def worker():
            while time.time() < end and len(self.pending) < 6:
                with lock:
                    n = state["n"]
                    state["n"] += 1
                sub = order[n % len(order)]
                rng = random.Random("%d/%s/%s/%d" % (self.seed, self.pid, sub.name, n))
                cases, tries = [], 0
                while len(cases) < sub.batch and tries < sub.batch * 4:
                    tries += 1
                    c = self.make(sub, None, rng)
                    if c is None:
                        sub.stats["discards"] += 1
                        continue
                    cases.append(c)
                if not cases: continue
                try: v, dead = self.judge(sub, cases)
                except Unusable as e:
                    with self.vlock: self.unusable = e.args
                    return
                except Exception:
                    traceback.print_exc()
                    with self.vlock: self.setup_error = traceback.format_exc()
                    return
                with self.vlock:
                    st = sub.stats
                    for k, c in enumerate(cases):
                        if k in dead:
                            st["discards"] += 1
                            continue
                        st["evaluations"] += 1
                        if c.nontrivial:
                            st["nontrivial"] += 1
                            i = c.ident()
                            if i not in sub.seen:
                                sub.seen.add(i)
                                st["distinct"] += 1
                                if len(st["samples"]) < 3: st["samples"].append("\n".join(c.top + c.body)[:600])
                for k, x in enumerate(v):
                    if x is not None: self.report(sub, cases[k], x)
        ts = [threading.Thread(target=worker) for _ in range(WORKERS)]
        for t in ts: t.start()
        for t in ts: t.join()
        if self.unusable: self.check_usable()
        self.settle()
        for ent in self.servers.values():
            if ent[1]: ent[1].close()
        shutil.rmtree(self.work, ignore_errors=True)
        if self.setup_error and not self.viol: raise RuntimeError(self.setup_error)
        return [s.stats for s in self.subs], self.viol


def run_subs(subs, pid, seed, budget, work, tier):
    only = [a[6:] for a in sys.argv if a.startswith("--sub=")]
    if only: subs = [s for s in subs if s.name in only]
    return Engine(pid, seed, budget, work, tier, subs).run()


def known(k, path, work):
    """a listed finding: the program's header says how to run it and what is expected; it still fails while the output differs"""
    flags, want = [], None
    for line in open(path):
        m = re.match(r"# flags: ?(.*)", line)
        if m: flags = m.group(1).split()
        m = re.match(r"# expected: (.*)", line)
        if m: want = json.loads(m.group(1))
    st, out, err = real(os.path.abspath(path), flags, 90)
    ok = out != want and (k.expect in out + err + "status %s" % st)
    return ok, "status %s out %r" % (st, out[-300:])
