#!/usr/bin/env python3
"""Stand-in for codon/util/peg2cpp.cpp, which needs cpp-peglib: translates a codon .peg grammar
into C++ against shim/peglib.h.  Usage: peg2cpp.py GRAMMAR OUT.cpp codon|omp"""
import sys

src = open(sys.argv[1]).read()
out, which = sys.argv[2], sys.argv[3]
pos = 0


def ws():
    global pos
    while pos < len(src):
        if src[pos].isspace():
            pos += 1
        elif src[pos] == '#':
            while pos < len(src) and src[pos] != '\n':
                pos += 1
        else:
            return


def code_block():
    """At '{': returns the text between the braces (exclusive)."""
    global pos
    assert src[pos] == '{'
    st = pos
    depth = 0
    while True:
        c = src[pos]
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0:
                pos += 1
                return src[st + 1:pos - 1]
        elif c == '"' or c == "'":
            pos += 1
            while src[pos] != c:
                pos += 2 if src[pos] == '\\' else 1
        elif src.startswith('//', pos):
            while src[pos] != '\n':
                pos += 1
            continue
        pos += 1


def ident():
    global pos
    st = pos
    while pos < len(src) and (src[pos].isalnum() or src[pos] == '_'):
        pos += 1
    return src[st:pos]


def unesc(quote):
    """One possibly escaped character of a literal or class; returns code point."""
    global pos
    c = src[pos]
    if c != '\\':
        pos += 1
        return ord(c)
    c = src[pos + 1]
    pos += 2
    m = {'n': 10, 'r': 13, 't': 9, '\\': 92, "'": 39, '"': 34, '[': 91, ']': 93, '-': 45, '^': 94}
    return m[c]


def cstr(s):
    return '"' + ''.join('\\%03o' % b for b in s.encode()) + '"'


defs = {}      # name -> dict(ignore, params, alts)
preds = {}
preamble = ''


def at_definition():
    """Is a definition starting here (so the current expression ends)?"""
    global pos
    save = pos
    try:
        if pos < len(src) and src[pos] == '~':
            pos += 1
        n = ident()
        if not n:
            return False
        if n.endswith('__PREDICATE'):
            return True
        if pos < len(src) and src[pos] == '(':
            while src[pos] != ')':
                pos += 1
                if src[pos] == '\n':
                    return False
            pos += 1
        ws()
        return src.startswith('<-', pos)
    finally:
        pos = save


def expression():
    """-> ('cho', [ (node, code) ... ])"""
    global pos
    ws()
    if src[pos] == '/':
        pos += 1
    alts = []
    while True:
        node = sequence()
        ws()
        code = ''
        if pos < len(src) and src[pos] == '{':
            code = code_block()
            ws()
        alts.append((node, code))
        if pos < len(src) and src[pos] == '/':
            pos += 1
            continue
        return ('cho', alts)


def sequence():
    global pos
    items = []
    while True:
        ws()
        if pos >= len(src) or src[pos] in '/){>,' or at_definition():
            break
        items.append(prefix())
    return ('seq', items)


def prefix():
    global pos
    ws()
    c = src[pos]
    if c in '&!~':
        pos += 1
        return ({'&': 'apd', '!': 'npd', '~': 'ign'}[c], suffix())
    return suffix()


def suffix():
    global pos
    p = primary()
    while pos < len(src) and src[pos] in '?*+':
        p = ({'?': 'opt', '*': 'zom', '+': 'oom'}[src[pos]], p)
        pos += 1
    return p


def primary():
    global pos
    c = src[pos]
    if c == '(':
        pos += 1
        e = expression()
        ws()
        assert src[pos] == ')', src[pos:pos + 40]
        pos += 1
        return ('grp', e)
    if c == '<':
        pos += 1
        e = expression()
        ws()
        assert src[pos] == '>', src[pos:pos + 40]
        pos += 1
        return ('tok', e)
    if c in '\'"':
        pos += 1
        s = ''
        while src[pos] != c:
            s += chr(unesc(c))
        pos += 1
        return ('lit', s)
    if c == '[':
        pos += 1
        neg = src[pos] == '^'
        if neg:
            pos += 1
        rs = []
        while src[pos] != ']':
            a = unesc(']')
            b = a
            if src[pos] == '-' and src[pos + 1] != ']':
                pos += 1
                b = unesc(']')
            rs.append((a, b))
        pos += 1
        return ('ncls' if neg else 'cls', rs)
    if c == '.':
        pos += 1
        return ('dot',)
    if c == '^':
        pos += 1
        return ('cut',)
    n = ident()
    assert n, src[pos:pos + 60]
    if pos < len(src) and src[pos] == '(':
        pos += 1
        args = []
        while True:
            args.append(expression())
            ws()
            if src[pos] == ',':
                pos += 1
                continue
            assert src[pos] == ')'
            pos += 1
            break
        return ('mac', n, args)
    return ('ref', n)


while True:
    ws()
    if pos >= len(src):
        break
    ign = False
    if src[pos] == '~':
        ign = True
        pos += 1
    n = ident()
    assert n, src[pos:pos + 60]
    if n == 'PREAMBLE':
        ws()
        preamble = code_block()
        continue
    if n.endswith('__PREDICATE'):
        ws()
        preds[n[:-len('__PREDICATE')]] = code_block()
        continue
    memo = True
    if n.endswith('__NOPACKRAT'):
        memo = False
        n = n[:-len('__NOPACKRAT')]
    params = []
    if src[pos] == '(':
        pos += 1
        st = pos
        while src[pos] != ')':
            pos += 1
        params = [x.strip() for x in src[st:pos].split(',')]
        pos += 1
    ws()
    assert src.startswith('<-', pos), src[pos:pos + 60]
    pos += 2
    defs[n] = dict(ignore=ign, params=params, memo=memo, e=expression())


def emit(x, env):
    k = x[0]
    if k == 'cho':
        if len(x[1]) == 1:
            return emit(x[1][0][0], env)
        return 'cho(' + ', '.join(emit(a, env) for a, _ in x[1]) + ')'
    if k == 'seq':
        if len(x[1]) == 1:
            return emit(x[1][0], env)
        return 'seq(' + ', '.join(emit(a, env) for a in x[1]) + ')'
    if k == 'grp':
        return emit(x[1], env)
    if k in ('apd', 'npd', 'ign', 'opt', 'zom', 'oom', 'tok'):
        return '%s(%s)' % (k, emit(x[1], env))
    if k == 'lit':
        return 'lit(std::string(%s))' % cstr(x[1])
    if k in ('cls', 'ncls'):
        return '%s(vc{%s})' % (k, ','.join('{0x%x, 0x%x}' % r for r in x[1]))
    if k in ('dot', 'cut'):
        return k + '()'
    if k == 'ref':
        if x[1] in env:
            return env[x[1]]
        return 'ref(P, "%s")' % x[1]
    if k == 'mac':
        d = defs[x[1]]
        return emit(d['e'], dict(zip(d['params'], (emit(a, env) for a in x[2]))))
    raise Exception(k)


rules, fns, acts = [], [], []
loc = '''  const auto &LI = VS.line_info();
  auto LOC = codon::SrcInfo(
    VS.path, LI.first + CTX.line_offset,
    LI.second + CTX.col_offset,
    VS.sv().size());
'''
for n, d in defs.items():
    if d['params']:
        continue
    rules.append('  %sP["%s"] <= %s;\n  P["%s"].name = "%s";\n' %
                 ('~' if d['ignore'] else '', n, emit(d['e'], {}), n, n))
    if not d['memo']:
        rules.append('  P["%s"].enable_memoize = false;\n' % n)
    alts = d['e'][1]
    code = None
    if len(alts) == 1:
        if alts[0][1] or alts[0][1] == '' and False:
            code = alts[0][1]
        # a lone parenthesised / token choice may itself carry per-alternative code
    elif any(c for _, c in alts):
        code = ''
        for i, (_, c) in enumerate(alts):
            code += '  if (VS.choice() == %d) %s\n' % (i, '{' + c + '}' if c else 'return V0;')
    if code:
        if 'LOC' in code:
            code = loc + code
        if 'CTX' in code:
            code = '  auto &CTX = any_cast<ParseContext &>(DT);\n' + code
        fns.append('static auto fn_%s(peg::SemanticValues &VS, any &DT) {\n%s\n};\n' % (n, code))
        acts.append('  P["%s"] = fn_%s;\n' % (n, n))
    if n in preds:
        code = preds[n]
        if 'LOC' in code:
            code = loc + code
        if 'CTX' in code:
            code = '  const auto &CTX = any_cast<const ParseContext &>(DT);\n' + code
        fns.append('static auto pred_%s(const peg::SemanticValues &VS, const any &DT, '
                   'std::string &MSG) {\n%s\n};\n' % (n, code))
        acts.append('  P["%s"].predicate = pred_%s;\n' % (n, n))

with open(out, 'w') as f:
    f.write('#pragma clang diagnostic ignored "-Wreturn-type"\n')
    f.write('using std::any; using std::any_cast;\n' if False else '')
    f.write(preamble + '\n')
    f.write('void init_%s_rules(peg::Grammar &P) {\n  using namespace peg;\n  using peg::seq;\n'
            '  using vc = std::vector<std::pair<char32_t, char32_t>>;\n%s}\n' % (which, ''.join(rules)))
    f.write('\n'.join(fns))
    f.write('void init_%s_actions(peg::Grammar &P) {\n%s}\n' % (which, ''.join(acts)))
