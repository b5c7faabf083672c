"""Checks of the language.  Families of programs are written and analysed by behaviours of the
specification (Programs.tla, Pipeline.tla); every finished behaviour is replayed on the library."""
import itertools
import json
import math
import re
from concurrent.futures import ThreadPoolExecutor

import big
from big import any_of
import gen
import norm
import oracle
import tlc
from frame import REPO, inv

P = 'version 3.0\n'
BINOPS = gen.BINOPS
FUNCS = gen.FUNCS


def fam(*slots):
    """a family: every slot a text or a list of alternative texts"""
    return [[x if isinstance(x, bytes) else x.encode() for x in ([s] if isinstance(s, (str, bytes)) else s)] for s in slots]


def texts(xs):
    return [[x if isinstance(x, bytes) else x.encode() for x in dict.fromkeys(xs)]]


def pick(ctx, xs, n):
    return ctx.rnd.sample(xs, min(n, len(xs)))


def with_build(ctx, work, **kw):
    """runs work while the library is built; (executable, result of work)"""
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(lambda: ctx.full(**kw))
        r = work()
        return f.result(), r


def answers(ctx, exe, sources, judge, command=lambda s: ('analyze', s, '0', ''), timeout=20.0, mem_gb=4):
    """judge(source, answer) -> [(aspect, detail)]; see Driver.settle"""
    def one(d, s):
        def f():
            a = d.ask(*command(s))
            w = judge(s, a)
            return (a, w) if w else None
        r = d.settle(f)
        return r and (r[0], [(k, t + (f' (after {len(d.needed)} other requests)' if d.needed else '')) for k, t in r[1]], d.needed)
    res = ctx.pmap(exe, one, sources, timeout=timeout, mem_gb=mem_gb)
    ctx.traces += len(sources)
    return [(s, r[0], r[1]) for s, r in zip(sources, res) if r]


def together(rnd, reps, pre, count):
    """programs of several of the statements that were explored alone: the same again, nearly the same, and others, in one program"""
    pre = pre.encode()
    pools = [sorted(s[len(pre):] for s, r in reps.items() if s.startswith(pre) and len(pre) < len(s) < len(pre) + 120 and r['outcome'] in kind) for kind in (('accepted',), ('rejected', 'undecided'))]
    pools = [p for p in pools if p]
    out = []
    for _ in range(count if pools else 0):
        body = []
        for _ in range(rnd.randint(2, 6)):
            r = rnd.random()
            if body and r < .3:
                body.append(rnd.choice(body))
            elif body and r < .6:
                pool, k = near
                body.append(pool[max(0, min(len(pool) - 1, k + rnd.randint(-3, 3)))])
            else:
                pool = pools[0] if rnd.random() < .8 else pools[-1]
                near = pool, rnd.randrange(len(pool))
                body.append(pool[near[1]])
        text = pre + body[0]
        for b in body[1:]:
            text += rnd.choice([b'\n', b'\n', b';', b'; ', b'\n\n', b' // c\n', b'\r\n']) + b
        out.append(text)
    return texts(out)


def language(ctx, families, aspects, path=None, judge=None, command=None, parts=(), only=None, alone=None):
    """explores the families; reports differences in the given aspects (path: which paths of trees count)
    alone: what stands before the only statement of most programs; such statements are then put together too"""
    if ctx.prop in big.LARGE:
        families = [[big.big(ctx.prop, ctx.rnd, ctx.quick)]] + families
    def work():
        reps, run = oracle.explore(families, ctx.scratch)
        if alone:
            more, r = oracle.explore([together(ctx.rnd, reps, alone, 300 if ctx.quick else 4000)], ctx.scratch)
            reps.update(more)
            run.add(r)
        return reps, run
    exe, (reps, run) = with_build(ctx, work, parts=parts)
    ctx.count(run)
    exps = {s: oracle.expectation(r) for s, r in reps.items()}
    if only:
        exps = {s: e for s, e in exps.items() if only(e)}

    def mine(s, a):
        d = [x for x in oracle.differences(exps[s], a) if x[0] == 'crash' or x[0] in aspects]
        if path:
            d = [x for x in d if not x[1].startswith('.') or re.search(path, x[1].split(':', 1)[0])]
        return d + (judge(s, exps[s], a) if judge else [])
    report(ctx, exe, exps, mine, command)
    return exe, exps


def report(ctx, exe, exps, mine, command=None):
    kw = {'command': command} if command else {}
    for s, a, d in answers(ctx, exe, list(exps), mine, **kw):
        e = exps[s]
        ctx.violation(f'{s.decode("utf-8", "replace")!r}: {d[0][1]}',
                      {'source': s.decode('latin-1'), 'aspects': sorted({x[0] for x in d}), 'differences': [x[1] for x in d[:10]],
                       'specified': {k: repr(v)[:3000] for k, v in e.items()}, 'got': repr(a)[:6000]})
    kinds = {}
    for s, e in exps.items():
        kinds.setdefault(e['outcome'], []).append(s)
    ctx.notes['programs'] = {k: len(v) for k, v in sorted(kinds.items())}
    for k, v in sorted(kinds.items()):
        for s in (v[0], v[len(v) // 2]):
            ctx.sample({'program': s.decode('utf-8', 'replace'), 'specified': k}, 8)


SEM = ('syntax', 'outcome', 'errors', 'error-names', 'variables', 'statements', 'root', 'kept')


# ------------------------------------------------------------------ C01 layout
TOKEN = re.compile(r"'''.*?'''|[A-Za-z_]\w*|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+|\*\*|<<|>>|<=|>=|==|!=|&&|\^\^|\|\||\S", re.S)
MERGE = ('**', '<<', '>>', '>=', '<=', '==', '!=', '&&', '^^', '||', '//', '/*', "''")


def gaps(a, b):
    word = lambda c: c.isalnum() or c == '_'
    al = ['/**/', ' ', '\t', '  ', '/* c */', ' /* é\n; // */\t', '/* \' " */', ' /***/ ', '/* /* */']
    if a == 'version':
        return [' ', '\t', '  ', ' \t ']
    if a[-1] == '/' or b[0] == '/':
        al = [' ', '\t', ' /* c\nd */ ']
    elif a[-1] + b[0] not in MERGE and not (word(a[-1]) and word(b[0])) and not ('.' in (a[-1], b[0]) and (a[-1].isdigit() or b[0].isdigit())):
        al = ['', *al]
    return [' '] + [x for x in al if x != ' ']


SEPS = ['\n', ';', ' ;', '; ', '\n\n', ';\n', '\r\n', ' // c\n', '//\n', '/* a\nb */;', '\n/* c */\n', ';;', '\n// x ; y\n;\t\n', '\r\n\r\n', '\n//*\n']


def layouts(stmts, rnd, width, n, most=99):
    """families over the layouts of one program: up to `width` gaps vary together, `n` times"""
    pos, line = [], [('', ['', '\n', ';', ' ', '// c\n', '/* c */', '\r\n', '\n \n;', '/* version 9 */\t'])]
    for k, st in enumerate(stmts):
        ts = TOKEN.findall(st)
        for i, t in enumerate(ts):
            line.append((t, gaps(t, ts[i + 1]) if i + 1 < len(ts) else SEPS if k + 1 < len(stmts) else ['', '\n', ';', ' ', '// end', '/* x */', '\n\n', '// end\n', ';;\n', '\r\n', '\t', '/* a\n b\n*/']))
    out = []
    idx = list(range(len(line)))

    def family(var, most=99):
        slots = []
        buf = ''
        for i, (t, al) in enumerate(line):
            buf += t
            if i in var:
                slots += [buf, al[:1] + rnd.sample(al[1:], min(most, len(al) - 1))]
                buf = ''
            else:
                buf += al[0]
        return fam(*slots, buf) if buf else fam(*slots)
    for i in idx:
        out.append(family({i}, most))
    for _ in range(n):
        out.append(family(set(rnd.sample(idx, min(width, len(idx)))), 3 if width > 2 else 6))
    return out


LAYOUT = [
    ['version 3.0', 'qubit[5] q', 'bit[5] b', 'inv.pow(1/2).Rx(pi / 2 + -1) q[0:2, 4]', 'ctrl.X q[0], q[1]', 'b[0] = measure q[0]', 'b = measure q'],
    ['version 3', 'qubit q0', 'wait(2 ** 3 ** 2 << 1) q0', "asm(B) '''a ; // b\n /* c */ '''", 'barrier q0', 'init q0', 'reset q0'],
    ['version 3.0', 'qubit[2] q', 'CRk(true ? 1 : !false && 2 >= 1 ? ~3 : abs(-4)) q[0], q[1]', 'U(1.5, .5e-3, 2.) q', 'b = measure(0,0,1) q[0]'],
    ['version 3.0', 'bit[1] b', 'Rx(1.0 / 2. * 3 - .5 % 2) q', 'b[1 + 0] = measure q[sin(0) == 0]', 'X y, z'],
]


def c01(ctx):
    rnd = ctx.rnd
    g = gen.Gen(rnd)
    families = []
    twice = ['barrier q', 'reset q', 'b = measure q', 'X q', 'init q[0]', "asm(B) '''x'''", 'Rx(1) q', 'wait(1) q']      # the same statement again, in every layout
    rnd.shuffle(twice)
    for p in LAYOUT + [['version 3.0', 'qubit[2] q', 'bit[2] b'] + [x for x in twice[k::2] for _ in '12'] for k in (0, 1)]:
        families += layouts(p, rnd, 3, 3 if ctx.quick else 60, 5 if ctx.quick else 99)
    for _ in range(9 if ctx.quick else 60):
        qs, bs = {}, {}
        families += layouts(['version 3.0'] + [g.statement(qs, bs) for _ in range(rnd.randint(1, 4))], rnd, 2, 2, 4 if ctx.quick else 99)
    families = [f for f in families if sum(map(len, f)) > 0]
    cfg = inv('LSpec', ['SpecInvariant', 'LayoutIsInsignificant'], ['ErrorsOnlyGrow'])

    def work():
        reps, total = {}, tlc.Run()
        for k in range(0, len(families), 400):
            r = ctx.tlc('Layout', cfg, {'FAMILIES': ctx.file([[[list(x) for x in s] for s in f] for f in families[k:k + 400]])})
            for x in r.reports:
                reps[bytes(x.pop('src'))] = x
            total.add(r)
        return reps, *oracle.explore([[big.big('C01', rnd, ctx.quick)]], ctx.scratch)
    exe, (reps, large, run) = with_build(ctx, work)
    ctx.count(run)
    reps.update({s: {'plain': list(s), **r} for s, r in large.items() if s not in reps})
    exps = {s: oracle.expectation(r) for s, r in reps.items()}
    plain = {s: bytes(r['plain']) for s, r in reps.items()}
    for s, e in exps.items():      # the specification itself: layouts of one program have one tree
        p = exps[plain[s]]
        if (p['outcome'] == 'parse-error') != (e['outcome'] == 'parse-error') or norm.diff(norm.strip(p.get('ast')), norm.strip(e.get('ast'))):
            raise AssertionError(f'the specification distinguishes layouts: {s!r} {plain[s]!r}')

    def judge(s, a):
        d = [x for x in oracle.differences(exps[s], a) if x[0] in ('crash', 'syntax', 'ast', 'outcome', 'variables', 'statements')]
        return [(k, f'{t} (plain layout: {plain[s].decode("utf-8", "replace")!r})') for k, t in d]
    report(ctx, exe, exps, judge)


# ------------------------------------------------------------------ C02 precedence
def c02(ctx):
    rnd, q = ctx.rnd, ctx.quick
    pre, post = P + 'Rx(', ') q'
    un = ['', '-', '~', '!', '+']
    some = lambda n: pick(ctx, BINOPS, n)
    F = [fam(pre + 'a', BINOPS, 'b', BINOPS, 'c' + post), fam(pre, un, un, 'a', BINOPS if not q else some(8), un, 'b' + post),
         fam(pre + '(a', some(7), 'b)', BINOPS, 'c' + post), fam(pre + 'a', BINOPS, '(b', some(7), 'c)' + post),
         fam(pre + 'a', ['**'] + some(3), 'b', ['**'] + some(3), 'c', ['**'] + some(3), 'd' + post),
         fam(pre + 'a', ['**', '?', '||', *some(3)], 'b', [':c', ''], post),
         fam(pre + 'a', ['', '+b'], '?', ['b', 'b?c:d', 'b||c'], ':', ['c', 'c?d:e', 'c&&d', '-c'], ['', '?x:y', '**z'], post),
         fam(P + 'X q[', ['a', 'a+b', 'a?b:c'], ['', ':b', ', c', ':b?c:d', ':b|c, d:e'], ']'),
         fam(pre, ['', 'a ', '-'], '' if not q else '', ['f(', 'f(a, ', '(('], 'b', BINOPS, ['c', 'g()', '(c)'], [')', '))'], post),
         fam(P, ['a', 'a[1]', 'a + b', '(a)'], some(4) + [' ='], [' measure', ' measure(1, x ** 2 ** y)'], ' ', ['q', '(q)', 'q + 1'])]
    if not q:
        F += [fam(pre, un, 'a', BINOPS, ['', '-', '~', '!'], 'b', BINOPS, 'c' + post), fam(pre + 'a', BINOPS, 'b', BINOPS, 'c', BINOPS, 'd' + post)]
    g = gen.Gen(rnd)
    F.append(texts(pre + g.expr(rnd.randint(2, 5), ('x', 'y')) + post for _ in range(1600 if q else 8000)))
    language(ctx, F, ('syntax', 'ast'))


# ------------------------------------------------------------------ C03 locations
UNI = ['/* é∑ */', '/* 😀\n日本 */ ', '\t', '   ', '// é\n', '\r\n', '', '']


def decorate(g, s):
    """unusual layout with wide characters in front of tokens"""
    out = ''
    for t in re.split(r"('''.*?'''|//[^\n]*|/\*.*?\*/|\s+)", s, flags=re.S):
        if t and not t.strip() and '\n' not in t and g.p(.25):
            t = ' ' + g.ch(UNI[:4]) + ' '
        elif t == '\n' and g.p(.3):
            t = g.ch(['\n', '; ', '\r\n']) + g.ch(UNI)
        out += t
    return out if 'version' in out else s


def c03(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    srcs = []
    for _ in range(3600 if q else 15000):
        s = g.program()
        srcs.append(s if g.p(.4) else decorate(g, s))
    bad = ['X q', 'X q[9]', 'Rx(true && 1.5) q', 'foo q', 'qubit q', 'q[0] = measure b', 'X q[1 + x]', 'Rx(1 + (2 * nope)) q', 'Rx(sin(q)) q', 'inv.ctrl.pow(q).X q', 'inv.CNOT q, q', 'CNOT q[0], q[1,2]', 'wait(1.5) q', 'b = measure(1) q',
           'CRk(1/0) q[0], q[1]', 'X q[2:1]', "asm(B) '''x\ny'''", 'X pi[0]']
    F = [texts(srcs), fam(P + 'qubit[3] q; bit b', ['\n', '/* a\nb */;', '; /*é*/ ', "\nasm(B) '''é\n'''; "], bad, ['', ';\n\n'], ['X q[7]', ''])]
    # literals that do not fit, in every place
    big = '99999999999999999999'
    F += [fam(['', '\n ', '/*é\n*/;'], 'version', [' ', '\t /**/ '], [f'{big}.0', f'3.{big}', f'0000003.{big}', f'{big}.{big}', f'12.{big}', big], ['', '\nqubit q']),
          fam(P + ' qubit', ['', '[2]', f'[ {big}]'], ' q;\n', [f'X q[{big}]', f'X q[1,\t{big}:0]', f'X q[0:{big} ]', f'Rx(-{big}) q', f'Rx(1 + {big}.5) q', 'Rx(1 + 1.e999) q', f'/*\n*/ wait({big}) q', f'pow( {big}).X q', f'q[{big}] = measure q', f'reset {big}', f'Rx(true ? 1 : {big}) q, {big}'])]
    F.append(texts(any_of(rnd, 40 if q else 300)))
    names = ['a.cq', 'dir/é b.cq', 'x']

    def judge(s, e, a):
        # the same program under a file name: every location carries it, and none does without
        return files(s, a, None)

    def files(s, a, name):
        if 'perr' not in a:
            return []
        d = []
        for tree in ('ast', 'sem'):
            if isinstance(a.get(tree), dict):
                for loc, f in norm.locs_with_files(a[tree], []):
                    if f != name:
                        d.append(('file', f'location {loc} in the {tree} carries the file name {f!r}, given {name!r}'))
        for x in a['perr'] + a['aerr']:
            has = bool(re.match(r'^Error at (.*?):\d+:\d+', x['what'])) if name else False
            if name and not (has and x['what'].startswith(f'Error at {name}:')):
                d.append(('file', f"{x['what']!r} does not name the file {name!r}"))
        return d
    exe, exps = language(ctx, F, ('ast-loc', 'error-loc', 'loc', 'syntax-loc'), judge=judge)
    for k, name in enumerate(names):
        part = list(exps)[k::12]
        raw = name.encode().decode('latin-1')

        def judge2(s, a):
            d = [x for x in oracle.differences(exps[s], a) if x[0] in ('crash', 'ast-loc', 'error-loc', 'loc', 'syntax-loc')]
            return d + files(s, a, raw)
        for s, a, d in answers(ctx, exe, part, judge2, command=lambda s: ('analyze', s, '1', raw)):
            ctx.violation(f'{s.decode("utf-8", "replace")!r} as file {name!r}: {d[0][1]}', {'source': s.decode('latin-1'), 'file': name, 'differences': [x[1] for x in d[:10]], 'got': repr(a)[:4000]})


# ------------------------------------------------------------------ C04 syntax
TOKENS = ['q', '1', '1.5', 'true', 'version', 'measure', 'reset', 'init', 'barrier', 'wait', 'inv', 'pow', 'ctrl', 'qubit', 'bit', 'asm', "'''r'''", '\n', ';', ':', ',', '.', '=', '[', ']', '(', ')', '+', '-', '~', '!', '**', '*', '/', '%',
          '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '^^', '||', '?', '@', "'''", '3.0', "'", '\r', '#', '$a', '"', 'é', '0x1', '1e5', '1.e', '_', '{', '}', '\\']


def c04(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    heads = ['', 'X q', 'X q[0', 'Rx(1', 'b = measure', 'qubit', 'qubit[2]', 'inv.', 'wait(1', "asm(B)", 'pow(2', 'X q, ', 'a ? b', 'barrier']
    tok = [' ' + t for t in TOKENS]
    F = [fam(P, tok, tok) if not q else fam(P, pick(ctx, tok, 16), pick(ctx, tok, 16)), fam(P, heads, tok, '' if not q else [''], ['', '\n', ' q']),
         fam(tok + [''], tok if not q else pick(ctx, tok, 12)), fam(['version', 'version 3', 'version 3.', 'version3', 'version 3.0.0', 'Version 3.0', 'version 3.0 ', '3.0', 'version\n3.0', 'version /**/ 3.0', 'versions 3'], tok)]
    if not q:
        F += [fam(P, [h], tok, tok) for h in heads[1:]] + [fam(P, pick(ctx, tok, 25), pick(ctx, tok, 25), pick(ctx, tok, 25))]
    srcs = [g.mutate(g.program()) for _ in range(3600 if q else 20000)]
    corpus = gen.corpus(REPO)
    srcs2 = []
    for b in corpus if not q else pick(ctx, corpus, 120):
        try:
            srcs2.append(g.mutate(b.decode()).encode() if g.p(.6) else b)
        except UnicodeDecodeError:
            srcs2.append(b)
    F += [texts(srcs), texts(srcs2)]
    # nearly literals, keywords and comments
    F.append(fam(P + 'Rx(', ['1', '1.', '.1', '1.5', '01', '1e5', '1.e5', '1.5E+5', '1.5e-05', '1.5e', '.e1', '1..2', '9223372036854775807', '9223372036854775808', '1.8e308', '1.7e308', '1_0', 'true', 'True', 'q.1', '1.0f'], ['', ' 1', '.5'], ') q'))
    F.append(fam(P, ['/*', '/**', '//', '/* *', '/'], ['*/', ' x */', '\n', '*/*/', '/'], 'X q'))
    F.append(fam(P, ['qubit', 'qubits', 'Qubit', 'bit', 'measure', 'inv', 'INV', '_', 'é', 'pow', 'asm'], [' ', '[1] ', '(1) '], ['q', 'bit', '1q', 'q1', 'true', 'pi', 'ctrl']))
    # every character where it hardly ever stands
    odd = [chr(i) for i in range(128)] + list('\x80\x85\xa0é²·ßŁ\u0300\u2028\u2029\u200b\u3000\ufeff\uff11\uff21\ud7ff\ue000\U0001f600\U0010ffff')
    hold = ['{}', 'X q{}', 'X q{}[0]', 'qubit {}q', '{}X q', 'X{} q', 'Rx(1{}) q', 'X q; {}', '// {}', '/*{}*/', "asm(B{}) '''{}'''", 'X q{}\nX q', 'X {}[1]']
    F += [texts(P + h.format(c, c) for h in (hold if not q else pick(ctx, hold, 5)) for c in (odd if not q else odd[:32] + odd[126:] + pick(ctx, odd, 20))), texts(h.format(c) for h in ('{}version 3.0', 'version{}3.0', 'version 3{}0', 'version 3.0{}', 'version 3.0{}qubit q', 'version 3.0\n{}') for c in odd)]
    language(ctx, F, ('syntax', 'syntax-loc', 'root', 'ast'), path=r'^$|#$|@$')


# ------------------------------------------------------------------ C05 version gate
def c05(ctx):
    q = ctx.quick
    nums = ['0', '1', '2', '3', '4', '03', '30', '003', '00', '10', '9223372036854775807', '9223372036854775808', '4294967299', '18446744073709551619']
    F = [fam(['', '\n', '// c\n'], 'version ', nums, ['', '.'], ['', *nums], ['', '\nqubit q; X q', '\nX nope']),
         fam('version ', ['3.0', '3', '3.1', '2'], ['.0', '.1', 'a', '-1', ' ', ';', '\t', '. 0', '/**/'], ['\n', ''], ['qubit q', 'qubit q; qubit q']),
         fam(['version', 'Version', 'VERSION', ''], [' ', '\t', '', '\n'], ['3.0', '3'], ['\nqubit q', ''])]
    g = gen.Gen(ctx.rnd)
    for _ in range(3 if q else 10):
        F.append(fam('version ', ['3', '3.0', '3.00', '03.0', '3.1', '2.0', '4'], '\n' + '\n'.join(g.program(4).split('\n')[1:])))
    language(ctx, F, ('syntax', 'outcome', 'version', 'errors', 'error-loc', 'error-names', 'syntax-loc'))
    return ['API versions other than 3.0 are covered by C22 (construction of an analyzer)']


# ------------------------------------------------------------------ C07 names
def c07(ctx):
    rnd, q = ctx.rnd, ctx.quick
    names = ['q', 'Q', 'b', 'pi', 'X', 'sin', 'q_', '_', 'qubit1', 'True', 'tau', 'H1', 'Measure']
    ns = pick(ctx, names, 4 if q else 7)
    decl = [f'{k} {n}' for k in ('qubit', 'qubit[2]', 'bit') for n in ns[:3]]
    use = [f'X {n}' for n in ns[:3]] + [f'Rx({n}) q' for n in ('pi', ns[0])] + [f'X {ns[1]}[1]', f'{ns[0]} = measure {ns[1]}']
    F = [fam(P, [f'{k} {n}\n' for k in ('qubit', 'qubit[2]', 'bit') for n in names], ['', 'qubit q\n'], [f'X {n}' for n in ('q', 'Q', 'pi', 'X')] + ['Rx(pi) q', 'Rx(sin(1)) q', 'q = measure b', 'X q[0]', 'X Q[1]']),
         fam(P, [d + '\n' for d in decl + use], [d + '\n' for d in decl + use], use + decl),
         fam(P + 'qubit a\n', ['', 'bit A\n', 'qubit[3] A\n'], ['X', 'Y', 'x', 'H', 'h', 'CNOT', 'cnot', 'sin', 'a', 'A', 'inV', 'Swap'], [' a', ' A', ' a, A', ' A[0], a', ' A[0:1]']),
         fam(P + 'qubit[2] q\n', ['Rx(', 'CRk('], ['pi', 'PI', 'Pi', 'eu', 'tau', 'Tau', 'true', 'sin(1)', 'Sin(1)', 'SIN(1)', 'q', 'operator-(1)', 'im', 'e', 'X'], [') q[0]', ') q[0], q[1]'])]
    g = gen.Gen(rnd)
    F.append(texts(g.program(rnd.randint(3, 8)) for _ in range(1200 if q else 8000)))
    if not q:
        F.append(fam(P, [d + '\n' for d in decl + use], [d + '\n' for d in decl + use], [d + '\n' for d in decl + use], use + decl))
    language(ctx, F, ('outcome', 'errors', 'error-names', 'error-loc', 'variables', 'statements', 'kept'), path=r'variable|name|\.#|@|^$')


# ------------------------------------------------------------------ C08 declarations
def c08(ctx):
    rnd, q = ctx.rnd, ctx.quick
    sizes = ['', '[0]', '[1]', '[2]', '[00]', '[007]', '[17]', '[4294967296]', '[9223372036854775807]', '[9223372036854775808]', '[2147483648]']
    d = [f'{k}{s} ' for k in ('qubit', 'bit') for s in sizes]
    small = [f'{k}{s} ' for k in ('qubit', 'bit') for s in ('', '[1]', '[3]', '[0]')]
    F = [fam(P, d, ['a', 'b', '_1'], ['', '\nX a'], ['', '\nbit b', '\nqubit[5] a']), fam(P, [x + 'a\n' for x in small], [x + 'b\n' for x in small], [x + y for x in small for y in 'abc']),
         fam(P + 'X q;', ['qubit a;', 'bit a;', ''], ['asm(B) \'\'\'x\'\'\';', 'qubit[2] q;', 'H q;'], ['qubit b', 'bit[2] a', '']),
         fam(P + 'qubit', ['[-1]', '[1.0]', '[1+1]', '[n]', '[]', '[true]', ' [2]', '[ 2 ]', '[2][2]', '(2)'], ' a')]
    g = gen.Gen(rnd)
    names = ['a', 'b', 'c', 'd', 'e', 'a', 'pi']
    for _ in range(600 if q else 4000):
        F.append(texts([P + '\n'.join(rnd.choice(d[:6] + d[11:17]) + rnd.choice(names) if g.p(.7) else g.statement({}, {}) for _ in range(rnd.randint(2, 9)))]))
    language(ctx, F, ('syntax', 'outcome', 'variables', 'errors', 'error-names', 'error-loc'))


# ------------------------------------------------------------------ C09 constants
def params(exprs, kind='f'):
    """programs that carry the value of an expression"""
    return [P + ({'f': 'qubit q; Rx({}) q', 'i': 'qubit q; wait({}) q', 'k': 'qubit[2] q; CRk({}) q[0], q[1]', 'x': 'qubit[9] q; X q[{}]', 'p': 'qubit q; pow({}).X q'}[kind]).format(e) for e in exprs]


INTS = ['0', '1', '2', '3', '7', '10', '63', '64', '(-1)', '(-2)', '(-7)', '9223372036854775807', '(-9223372036854775807)', '(-9223372036854775807-1)', '4611686018427387904', '6442450944', 'true', 'false', '255', '(1<<62)', '(1<<63)']
FLOATS = ['0.0', '(-0.0)', '1.0', '0.5', '(-1.5)', '2.5', 'pi', 'eu', 'tau', '1.0e308', '1.0e-308', '4.9e-324', '(1/0.0)', '(-1/0.0)', '(0/0.0)', '0.1', '3', 'true', '9007199254740993', '.3', '123456789.125']
INTOPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^']
CMPS = ['==', '!=', '<', '>', '<=', '>=']


def c09(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    F = []
    ints = INTS if not q else pick(ctx, INTS, 9)
    fl = FLOATS if not q else pick(ctx, FLOATS, 9)
    W, R = P + 'qubit q; wait(', P + 'qubit q; Rx('
    F += [fam(W, ints, INTOPS, ints, ') q'), fam(W, ['-', '~', 'abs', '+', '- -'], '(', INTS, ') ) q'), fam(W, ints[:6], CMPS, ints[:6], ' ? 1 : 2) q'),
          fam(R, fl, ['+', '-', '*', '/', '**'], fl, ') q'), fam(R, FUNCS, '(', FLOATS, ')) q'), fam(W, fl[:6], CMPS, fl[:6], ' ? 1 : 2) q'),
          fam(R + '-', FLOATS, ') q'), fam(W, ['true', 'false', '!true', '!false'], ['&&', '||', '^^', '==', '!=', '<', '>=', '<=', '>'], ['true', 'false'], ' ? 1 : 2) q'),
          fam(W, ['true', 'false', '1 == 1', '!(1 > 2)'], '?', ['1', '2 ** 2 == 4', 'true'], ':', ['3', 'false', '5 % 3'], ') q'),
          fam(R, ['true', 'false'], '?', ['1', 'pi', 'true', '1.5'], ':', ['3', 'eu', 'false', '0.5'], ') q')]
    for kind, t in (('f', 'f'), ('i', 'i'), ('k', 'i'), ('p', 'f'), ('i', 'b'), ('x', 'i')):
        F.append(texts(params([g.typed(rnd.randint(2, 5), t) for _ in range(440 if q else 4000)], kind)))
    F.append(texts(params([f'({rnd.randint(-2**63 + 1, 2**63 - 1)}) {op} ({rnd.randint(-2**rnd.randint(1, 63) + 1, 2**rnd.randint(1, 63) - 1)})' for op in INTOPS[:5] + INTOPS[7:] for _ in range(24 if q else 200)], 'i')))
    F.append(texts(params([f'({rnd.randint(-2**63 + 1, 2**63 - 1)}) {op} {rnd.randint(0, 63)}' for op in ('<<', '>>') for _ in range(80 if q else 600)], 'i')))
    F.append(texts(params([f'{rnd.uniform(-9, 9)!r} {op} ({rnd.uniform(-9, 9)!r})' for op in ('+', '-', '*', '/', '**') for _ in range(30 if q else 300)])))
    F.append(texts(params([f'{f}({rnd.uniform(-3, 3)!r})' for f in FUNCS for _ in range(18 if q else 200)])))
    # neighbours
    for x in [0.3, 1.0, 1e-300, 1e300, 5e-324] + [rnd.uniform(-9, 9) * 10.0 ** rnd.randint(-9, 9) for _ in range(3 if q else 40)]:
        up = [repr(x), repr(math.nextafter(x, math.inf)), repr(x * (1 + 1e-12)), repr(math.nextafter(x, -math.inf))]
        F.append(fam(W, ['(' + u + ')' for u in up], CMPS, ['(' + u + ')' for u in (up[:2] if q else up)], ' ? 1 : 2) q'))
    # an integer of each magnitude as a float
    F.append(texts(params([f'{rnd.randint(2 ** k, 2 ** (k + 1) - 1)}{t}' for k in range(0, 63) for t in ('', rnd.choice([' + 0.0', ' * 1.0', ' - 0.5', ' / 3.0']))])))
    F.append(texts(params([f'{rnd.randint(2 ** k, 2 ** (k + 1) - 1)} {rnd.choice(CMPS)} {float(2 ** k)} ? 1 : 2' for k in range(0, 63)], 'i')))
    big = [2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 62 + 1, 2 ** 63 - 1, 2 ** 31, 2 ** 32]
    F.append(fam(W, [str(b) for b in big], CMPS, [str(b + d) for b in (pick(ctx, big, 3) if q else big) for d in (0, -1)], ' ? 1 : 2) q'))
    F.append(fam(W, ['0.1 + 0.2', '1 - 0.9', '0.1 * 3'], CMPS, ['0.3', '0.1', '0.30000000000000004', '0.09999999999999998'], ' ? 1 : 2) q'))
    language(ctx, F, ('outcome', 'errors', 'error-loc', 'error-names', 'statements', 'kept'), path=r'value|@|\.#', alone=P + 'qubit q; ')
    return ['overflow of 64-bit + - * negation abs, and shifts by less than 0 or more than 63, have no specified value', 'transcendental functions follow the C library of the machine, as in the code']


# ------------------------------------------------------------------ C10 overloads and promotions
def c10(ctx):
    q = ctx.quick
    pre = P + 'qubit s; bit t; qubit[3] v; bit[3] w\n'
    vals = ['true', '2', '1.5', 's', 't', 'v', 'w', 'v[0]', 'w[1]', 'v[0,1]', 'w[0:2]', 'pi', '(1 + 1)', '(1 == 1)']
    vs = vals if not q else vals[:7] + pick(ctx, vals[7:], 1)
    F = [fam(pre + 'Rx(', vs, BINOPS, vs, ') s'), fam(pre + 'wait(', ['true', '2', '1.5', '(1 < 2)', '(2 ** 2)'], BINOPS, ['true', '2', '1.5'], ') s'),
         fam(pre + 'Rx(', ['-', '~', '!', '+', '!!', '-!', '~-'], vals, ') s'), fam(pre + 'Rx(', FUNCS + ['foo', 'Sin', 'operator'], '(', vals[:7] + ['', '1, 2', '1.0, 2'], ')) s'),
         fam(pre, ['Rx(', 'wait('], ['true', '2', 's', '1.5'], '?', ['true', '2', '1.5', 'v'], ':', ['true', '2', '1.5', 't'], ') s'),
         fam(pre, ['Rx(', 'wait(', 'pow('], vals, [') s', ').X s', ') v']), fam(pre + 'CRk(', vals, ') v[0], s'), fam(pre + 'U(', ['1', 'true', '1.5', 's'], ', ', ['2', 'false', 'w'], ', ', ['.5', '1'], ') s')]
    # contexts that tell the type of a result: ! takes bool, ~ and wait int, && bool; a literal of each kind
    probe = [('Rx(!(', ')) s'), ('Rx(~(', ')) s'), ('Rx((', ') && true) s'), ('Rx((', ') % 2) s'), ('wait((', ') + 0) s'), ('Rx((', ')) s')]
    ops = [f'{a} {o} {b}' for o in BINOPS for a in ('true', '3', '1.5') for b in ('false', '2', '2.5')]
    ops += [f'{c} ? {a} : {b}' for c in ('true', 'false', '1') for a in ('true', '3', '1.5') for b in ('false', '2', '2.5')]
    ops += [u + a for u in ('-', '~', '!', '+') for a in ('true', '3', '1.5')] + [f'{f}({a})' for f in FUNCS for a in ('true', '1', '.5')] + ['pi', 'true', '1']
    F += [fam(pre + a, ops if not q else pick(ctx, ops, 120), b) for a, b in probe]
    language(ctx, F, SEM + ('error-loc',), alone=pre)


# ------------------------------------------------------------------ C11 gates
OPER = ['s', 'v', 'v[0]', 'v[0,1]', 'v[0:2]', 't', 'w', 'w[0]', '1', 'pi', 'true', 'u', 'u[1]']
DECL = P + 'qubit s; bit t; qubit[3] v; bit[3] w; qubit[3] u; qubit[1] o; bit[1] n\n'


def c11(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g1, gf, g2 = gen.GATES1, gen.GATESF, gen.GATES2
    bad = ['x', 'h', 'cnot', 'Toffoli', 'foo', 'Sdagger', 'sdag', 'MX90', 'mx90', 'RX', 'rx', 'Cr', 'CRK', 'crk', 'swap', '1', 'SWAPP', 'Measure', 'u', 'rn']
    allg = g1 + gf + g2 + ['U', 'Rn', 'CR', 'CRk']
    par = ['', '(1)', '(1.5)', '(true)', '(1,2)', '(1,2,3)', '(1,2,3,4,5)', '(s)', '(1,2,3.5,4,t)', '(1, 2, 3, 4)', '(1,2,3,4,5,6)']
    F = [fam(DECL, allg + bad, par, ' ', ['s', 'v[0]', 'v', 's, s', 'v, u', 'v[0], v[1]']) if not q else fam(DECL, allg, par[:8], ' ', ['s', 'v, u']),
         fam(DECL, bad, ['', '(1)'], ' ', ['s', 's, s']),
         fam(DECL, ['X', 'Rx(1)', 'U(1,2,3)', rnd.choice(g1)], ' ', OPER + ['o']), fam(DECL, ['CNOT', 'CR(1)', 'CRk(2)', 'SWAP'], ' ', OPER, ', ', OPER) if not q else fam(DECL, ['CNOT', rnd.choice(['CR(1)', 'CRk(2)', 'SWAP', 'CZ'])], ' ', OPER, ', ', OPER),
         fam(DECL, ['X', 'CNOT', 'Rx(1)', 'CR(1)'], ' ', ['s, s, s', 's, v[0], v[1]', 'v, u, v', 's, t, w'])]
    for n, k in (('Rx', 1), ('CR', 1), ('CRk', 1), ('U', 3), ('Rn', 5)):
        op = 's' if n in ('Rx', 'U', 'Rn') else 'v[0], v[1]'
        for pos in range(k):
            F.append(fam(DECL + n + '(' + '1, ' * pos, ['1', '1.5', 'true', 's', 't', 'v', 'v[1]', 'pi', '1 == 1', 'w[0:1]', '-3', 'nope'], ', 1' * (k - pos - 1) + f') {op}'))
    g = gen.Gen(rnd)
    for _ in range(1000 if q else 6000):
        gate, n = g.gate(3)
        F.append(texts([DECL + f'{gate} ' + ', '.join(rnd.choice(OPER[:5] + OPER[11:]) for _ in range(n))]))
    language(ctx, F, SEM + ('error-loc',), alone=DECL)


# ------------------------------------------------------------------ C12 modifiers
def c12(ctx):
    rnd, q = ctx.rnd, ctx.quick
    m = ['', 'inv.', 'ctrl.', 'pow(2).', 'pow(1/2).', 'pow(0.5).']
    bad = ['pow(true).', 'pow(s).', 'pow(t).', 'pow(1 == 2).', 'pow(nope).', 'pow(v[0]).']
    ops = [' s', ' s, v[0]', ' v', ' v, u', ' s, v[0], v[1]', ' v[0:1], u[1,2]', ' t', ' v, s']
    F = [fam(DECL, m, m, m, ['X', 'Rx(pi)'] if q else ['X', 'Rx(pi)', 'CNOT', 'CR(1)', 'U(1,2,3)'], ops[:4] if q else ops), fam(DECL, m, m, ['CNOT', 'CRk(1)', 'foo', 'measure', 'x'], ops[:3]), fam(DECL, m[1:], bad, m[:3], 'H', ops[:2]), fam(DECL, bad, m, 'H', ops),
         fam(DECL, ['Inv.', 'INV.', 'control.', 'inv ', 'inv(2).', 'ctrl(2).', 'pow.', 'pow().', 'pow(1,2).', 'inv .', 'inv. '], 'X', ops[:2]), fam(DECL, m[1:4], ['X(1)', 'Rx', 'Rx(s)', 'Rx(1,2)', 'Rx(nope)', 'U(1,2)'], ops[:2])]
    for gate in gen.GATES1 + gen.GATES2 + ['Rx(1)', 'Ry(.5)', 'Rz(1)', 'CR(1)', 'CRk(1)', 'U(1,2,3)', 'Rn(1,2,3,4,5)']:
        F.append(fam(DECL, m[1:4], [gate], ops[:2]))
    g = gen.Gen(rnd)
    for _ in range(800 if q else 6000):
        gate, n = g.gate(0)
        mods = ''.join(rnd.choice(m) for _ in range(rnd.randint(1, 4)))
        F.append(texts([DECL + f'{mods}{gate} ' + ', '.join(rnd.choice(OPER[:5] + OPER[11:]) for _ in range(n + (1 if 'ctrl' in mods else 0)))]))
    language(ctx, F, SEM + ('error-loc',), alone=DECL)


# ------------------------------------------------------------------ C13 indices
def c13(ctx):
    rnd, q = ctx.rnd, ctx.quick
    pre = P + 'qubit s; bit t; qubit[5] v; bit[5] w; qubit[1] o; bit[1] n\n'
    ix = ['0', '4', '5', '-1', '1+1', 'true', '1.5', 'pi', 's', 'v[0]', 'nope', '0:4', '0:5', '2:2', '3:1', '-1:2', '4:9223372036854775807', '9223372036854775807', '(-9223372036854775807-1)', '4294967296', '4294967297', '0:0', '1:true', 'true:3', '1:1.5', '1/0', 'abs(-3)', '1 < 2', '2 ** 1', '10 % 7', '18446744073709551616']
    ix = [x for x in ix if x != '4:9223372036854775807']       # see C13's known finding
    small = ['0', '4', '5', '0-1', '1:3', '3:1', 'true', '1.5', '4:5', 't']
    F = [fam(pre, ['X ', 'w[0] = measure ', 'barrier '], ['v', 's', 'o', 'w', 'pi', 'nope', 'n', 't', 'X'] if not q else ['v', 's', 'o', 'pi', 'nope', 'w'], '[', ix if not q else pick(ctx, ix, 14), ']'),
         fam(pre, 'X v[', ix, ']'), fam(pre + 'X v[', small, ', ', small, ']'), fam(pre + 'reset v[', small[:6], ',', small[:6], ',', small[:6], ']') if not q else fam(pre + 'reset v[', small[:4], ',', small[:5], ',', small[:4], ']'),
         fam(pre, ['w[', 'n[', 't['], ['0', '1', '0:1', '5', '4,4', '3,2', '0:4'], '] = measure ', ['v[0]', 'v[0,1]', 'v[1:2]', 'v', 'v[3,3]', 'v[4,0]']),
         fam(pre, ['v[0]', 'v', 'X v[0][0]', 'X (v)[0]', 'X v[]', 'X v[0,]', 'X v[:1]', 'X v[1:]', 'X v[:]', 'X v[1:2:3]', 'X v[v]', 'X v[w[0]]', 'Rx(v[0]) s', 'Rx(w[9]) s'], ['', ' = measure s'])]
    for _ in range(1000 if q else 8000):
        n = rnd.randint(1, 9)
        g = gen.Gen(rnd)
        F.append(texts([P + f'qubit[{n}] a; bit[{n}] b\nX a[{g.index(n)}]\nb[{g.index(n)}] = measure a[{g.index(n)}]']))
    language(ctx, F, SEM + ('error-loc',), alone=pre)
    huge(ctx)


def huge(ctx):
    """the listed finding: ranges are expanded before they are checked against the size of the array"""
    from frame import known_findings
    for key, text in known_findings(ctx.prop):
        src = {'range-expansion': P + 'qubit[2] q; X q[0:4000000000]'}[key]
        import driver
        d = driver.Driver(ctx.exes['full'], timeout=20, mem_gb=0.75)
        a = d.ask('analyze', src, '0', '')
        d.stop()
        if 'crash' in a or 'hang' in a or 'exc' in a or 'bad_alloc' in json.dumps(a):
            ctx.known.append(text)
        else:
            exp = {'outcome': 'rejected'}
            if not a.get('aerr') or not norm.mentions(norm.err_parts(a['aerr'][0])[1], ['2', '2']):
                ctx.violation(f'{src!r}: answered {a!r}', {'source': src, 'specified': exp, 'got': repr(a)})


# ------------------------------------------------------------------ C14 sizes
def c14(ctx):
    rnd, q = ctx.rnd, ctx.quick
    pre = P + 'qubit s; bit t; qubit[2] v; bit[2] w; qubit[3] u; bit[3] x; qubit[1] o; bit[1] n\n'
    qs = ['s', 'o', 'v', 'u', 'v[0]', 'v[0,1]', 'u[0:2]', 'u[1,2]', 'v[0,0]', 'o[0]', 'u[0,1,2,0]', 'o[0,0]']
    bs = ['t', 'n', 'w', 'x', 'w[0]', 'w[1,0]', 'x[0:2]', 'x[0,2]', 'n[0]', 'w[0,0,1]']
    F = [fam(pre, ['CNOT', 'CRk(1)', 'ctrl.X', 'ctrl.Rx(1)'] if not q else ['CNOT', 'ctrl.X'], ' ', qs, ', ', qs), fam(pre, bs, ' = measure', ['', '(0,0,1)'], ' ', qs),
         fam(pre, ['SWAP', 'CZ', 'CR(1)', 'inv.ctrl.Z', 'ctrl.inv.pow(2).Z', 'pow(2).ctrl.X'], ' ', qs[:7], ', ', qs[:7]) if not q else fam(pre, ['SWAP', 'CZ', 'CR(.5)'], ' ', pick(ctx, qs, 5), ', ', pick(ctx, qs, 5))]
    for _ in range(1200 if q else 8000):
        a, b, c = (rnd.randint(1, 6) for _ in range(3))
        g = gen.Gen(rnd)
        op = lambda n, s: rnd.choice([n, f'{n}[{g.index(s)}]', f'{n}[{g.index(s)}]'])
        F.append(texts([P + f'qubit[{a}] a; qubit[{b}] b; bit[{c}] c\nCNOT {op("a", a)}, {op("b", b)}\n{op("c", c)} = measure {op("a", a)}\nCZ {op("b", b)}, {op("b", b)}\n{op("c", c)} = measure {op("b", b)}']))
    language(ctx, F, ('outcome', 'errors', 'error-loc', 'statements', 'kept'), alone=pre)


# ------------------------------------------------------------------ C15 non-gates
def c15(ctx):
    rnd, q = ctx.rnd, ctx.quick
    oper = OPER + ['o', 'n', 'v[1:2]']
    F = [fam(DECL, ['reset', 'init', 'barrier', 'wait(1)', 'wait(true)', 'wait(1.5)', 'wait(-1)', 'wait(s)', 'wait(2 * 3)', 'wait'], ' ', oper), fam(DECL, ['reset', 'init', 'barrier', 'wait(1)'], ['', '(1)', '()', ' s,'], [' s', ' v', '']),
         fam(DECL, oper, ' = measure ', oper), fam(DECL, ['t', 'w', 'w[0]', 's'], ' = measure(', ['1', '1,2', '1,2,3', '1.5,true,pi', '1,2,3,4', 's,1,2', '1,t,2', '0,0,v[0]', '1, 2, nope', ''], ') ', ['s', 'v', 'v[0]', 't']),
         fam(DECL, ['measure s', 'measure(1,2,3) s', 't = measure', 't = Measure s', 't == measure s', 'measure t = s', 't = reset s', 't = X s', 'wait(1, 2) s', 'wait(1) s, s', 'barrier s, s', 'reset', 'init s s', 't = measure s, s', 'inv.reset s', 'Reset s', 'RESET s', 'barrier', 'Wait(1) s', 'Barrier s', 'measure_z s', 'Init s']),
         fam(DECL + 'wait(', ['0', '1', '9223372036854775807', '-5', '2 ** 3', '7 / 2', '1.0', 'pi', 'true', '!true', 'v', 'nope', '1 << 40', 'sin(0)', 'abs(-2)', '3 % 0'], ') ', ['s', 'v[0:1]', 't'])]
    g = gen.Gen(rnd)
    F.append(texts(DECL + g.statement({'s': 0, 'v': 3, 'u': 3, 'o': 1}, {'t': 0, 'w': 3, 'n': 1}) for _ in range(1600 if q else 9000)))
    language(ctx, F, SEM + ('error-loc',), alone=DECL)


# ------------------------------------------------------------------ C16 accumulation
def c16(ctx):
    rnd, q = ctx.rnd, ctx.quick
    st = ['qubit a', 'X a', 'bit a', 'X nope', 'a = measure a', 'X a[0]', "asm(B) '''t'''", 'qubit[0] z', 'Rx(1/0) a', 'inv.CNOT a, a', 'H a', 'wait(1.5) a', 'barrier a', 'qubit[2] c', 'CNOT c[0], c[1]', 'CNOT a, c']
    s4 = pick(ctx, st[2:], 5 if q else 7) + st[:2]
    F = [fam(P, [x + '\n' for x in s4], [x + '\n' for x in s4], s4) , fam(['version 3.0;', 'version 3.1;', 'version 2;'], [x + ';' for x in st], st),
         texts(P + '\n'.join(rnd.choice(st) for _ in range(rnd.randint(5, 25))) for _ in range(400 if q else 1500))]
    g = gen.Gen(rnd)
    F.append(texts(g.program(rnd.randint(4, 14)) for _ in range(1400 if q else 8000)))
    if not q:
        F.append(fam(P, *[[x + '\n' for x in s4]] * 4))
    language(ctx, F, ('outcome', 'errors', 'error-loc', 'root', 'statements', 'kept'), path=r'\.#|@|instruction_ref|name|code|^$')


# ------------------------------------------------------------------ C25 asm
def c25(ctx):
    rnd, q = ctx.rnd, ctx.quick
    pieces = ['', 'a', "'", "''", '\n', '\r\n', ' ', '\t', '\\', '"', '//', '/*', '*/', '{', '}', 'é', '😀', ';', '\\n', '\x00', '\x7f', 'qubit q', '\x01']
    ps = pieces if not q else pieces[:3] + pick(ctx, pieces[3:], 8)
    F = [fam(P + "asm(B) '''", pieces, ps, "'''"), fam(P + "asm(B) '''", ps[:6], ps[4:], ps[:5], "'''", ['', '\nqubit q; X q']), fam(P + 'asm', [' ', '', '\n'], ['(B)', '(b1)', '( B )', '(pi)', '(qubit)', '(1)', '(B, C)', '()', 'B', '("B")', '(X)', '(a.b)'], [' ', '\n', ''], ["'''x'''", "''''''", "'''x''", "'x'", '"""x"""', "'''x''' y", "'''a''''b'''"]),
         fam(P, ["asm(B) '''1\n2'''", "asm(C) '''x'''", 'qubit q'], [';', '\n', '; X q;'], ["asm(B) '''1\n2'''", "asm(C) ''' y '''", 'X q'], ['', ';X nope'])]
    # the same piece again, at the start, at the end, and as a whole
    runs = [x * n for x in pieces if x for n in (2, 3, 4)]
    F += [fam(P + "asm(B) '''", runs, ['', 'x', ' x\n'], "'''"), fam(P + "asm(B) '''", ['x', '\nx ', 'x\ny'], runs, "'''")]
    for _ in range(600 if q else 4000):
        body = ''.join(rnd.choice(pieces + ['xyz', '0', "'"]) for _ in range(rnd.randint(0, 12)))
        F.append(texts([P + f"asm({rnd.choice(['B', 'TestBackend', '_x1'])}) '''{body}'''" + rnd.choice(['', '\nX q', ' ', ';'])]))
    language(ctx, F, ('syntax', 'ast', 'outcome', 'statements', 'syntax-loc'))


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C25': c25}
