"""Checks of the parts below the language.  Each one replays the behaviours of a module of the
specification, as TLC enumerates them, on the library's own code."""
import importlib.util
import json
import os
import string

from frame import REPO, Ctx, b2s, inv


def letters(rnd, n, alphabet):
    return [rnd.choice(alphabet) for _ in range(n)]


def mismatch(ctx: Ctx, what, args, want, got):
    ctx.violation(f'{what}: the specification answers {want!r}, the library {got!r}',
                  {'command': [a.decode('latin-1') if isinstance(a, bytes) else a for a in args], 'specified': want, 'got': got})


def replay(ctx: Ctx, exe, cases):
    """cases: [(what, args, check(answer) -> [(want, got)])]; asks again before believing a difference"""
    def one(d, case):
        _, args, check = case
        bad = d.settle(lambda: check_safe(check, d.ask(*args)))
        return bad and (bad[0], d.needed)
    res = ctx.pmap(exe, one, cases)
    for (what, args, _), bad in zip(cases, res):
        if bad:
            mismatch(ctx, what + (f' (after {len(bad[1])} other requests)' if bad[1] else ''), args, *bad[0])
    ctx.traces += len(cases)


def check_safe(check, a):
    if isinstance(a, dict) and ('crash' in a or 'hang' in a):
        return [('an answer', a)]
    try:
        return check(a)
    except (KeyError, TypeError, IndexError, AttributeError) as e:
        return [('an answer', f'{a!r} ({e!r})')]


def same(want):
    return lambda got: [] if want == got else [(want, got)]


# ------------------------------------------------------------------ C19
def IS_LETTER(c):
    return 65 <= c <= 90 or 97 <= c <= 122


def c19(ctx):
    exe = ctx.base('UTIL')
    rnd = ctx.rnd
    extra = [list(range(k, k + 16)) for k in range(0, 256, 16)] + [list(range(256))]
    extra += [[rnd.randrange(256) for _ in range(rnd.randrange(3, 40))] for _ in range(150 if ctx.quick else 2000)]
    pieces = [p.encode() for p in ('\r\n', '\n', '\u2028', '\u2029', '\ufeff', '%41', '%', '%%', '\\u0041', '\\', '\\\\', '"', '\\"', "'", "'''", '"""', "''", ' ', '  ', '\t', '/', '</script>', 'file:///',
                                        'É', '日', '🙂', 'İı', 'ſ', 'K', 'ÀÉÎ', 'àéî', 'Ab', 'zZ', '0', '9', 'a.b-c_d~e', '\x7f', '{}', '{0}', '%s', '%n')]
    pieces += [b'\0', b'\0\0', b'\x00A', b'\x80', b'\xff\xfe', b'\xc3', b'\xc3\x28', b'\x85', b'\xa0', b'\xe2\x80']
    extra += [list(b''.join(rnd.choice(pieces) for _ in range(rnd.randrange(1, 9)))) for _ in range(250 if ctx.quick else 3000)]
    # sizes around powers of two: buffers, short-string storage
    for n in (15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513) + (() if ctx.quick else (1023, 1024, 1025)):
        fill = rnd.choice([65, 97, 34, 92, 255])
        extra += [[fill] * n, [rnd.choice([65, 90, 97, 37, 34, 92, 0, 10, 200]) for _ in range(n)], [97] * (n - 1) + [rnd.choice([34, 92, 0, 31, 255, 32, 65])]]
    extra += [list(s.encode()) for s in ('C:\\Users\\a b\\"x".cq', 'naïve–file.cq', '日本/テスト', '%41%zz', '\\u0041', '+ &?#/', '\x00\x1f\x7f\x80\xff')]
    alphabet = [0, 9, 31, 32, 34, 37, 43, 45, 47, 48, 65, 90, 91, 92, 95, 96, 97, 122, 126, 127, 128, 196, 233, 255]
    cfg = ctx.file({'bytes': alphabet, 'depth': 2 if ctx.quick else 3, 'extra': extra})
    r = ctx.tlc('MC_Text', inv('TSpec', ['LowerIdempotent', 'UrlInvertible', 'UrlSafe', 'JsonInvertible', 'JsonSafe']), {'CFG': cfg})
    cases = []
    for x in r.reports:
        s = bytes(x['s'])
        for f in ('lower', 'url', 'json'):
            cases.append((f'{ {"lower": "to_lowercase", "url": "url_encode", "json": "json_encode"}[f]}({s!r})', ('util', f, s), same(b2s(x[f]))))
    pairs = []
    for _ in range(800 if ctx.quick else 3000):
        a = [rnd.choice([65, 97, 90, 122, 64, 96, 91, 123, 48, 196, 228, 0, 255, 75, 107]) for _ in range(rnd.randrange(1, 9))]
        b = [c ^ 32 if rnd.random() < .3 else c for c in a]
        if rnd.random() < .3:
            b[rnd.randrange(len(b))] = rnd.randrange(256)
        pairs.append([a, b if rnd.random() < .9 else b[:-1]])
    # long ones that differ in one place, in length only, after a NUL, or not at all; quoted texts with layout and quotes inside
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300):
        a = [rnd.choice([65, 90, 97, 122, 48, 95, 196]) for _ in range(n)]
        flip = [c ^ 32 if IS_LETTER(c) and rnd.random() < .5 else c for c in a]
        at = rnd.randrange(n)
        one = lambda k: flip[:k] + [98 if flip[k] not in (98, 66) else 99] + flip[k + 1:]
        pairs += [[a, flip], [a, one(n - 1)], [a, one(0)], [one(at), a], [a, flip + [rnd.choice([0, 32, 65])]], [a + [0], flip], [a, flip[:-1]], [a + [0, 65], flip + [0, 97]], [a + [0, 65], flip + [0, 66]]]
    pairs += [[e, [c ^ 32 if IS_LETTER(c) else c for c in e]] for e in extra if len(e) <= 64]
    pairs += [[list(b''.join(rnd.choice(pieces[:24]) for _ in range(rnd.randrange(1, 7)))), []] for _ in range(100)]
    cfg = ctx.file({'bytes': [64, 65, 90, 91, 96, 97, 122, 123, 39] if not ctx.quick else [65, 97, 64, 96, 39], 'depth': 2, 'pairs': pairs})
    r = ctx.tlc('MC_TextPairs', inv('PSpec', ['SameAsLower', 'Symmetric', 'QuotesGone']), {'CFG': cfg})
    for x in r.reports:
        a, b = bytes(x['a']), bytes(x['b'])
        cases.append((f'equal_case_insensitive({a!r}, {b!r})', ('util', 'equal', a, b), same(x['eq'])))
        cases.append((f'remove_triple_quotes({bytes(x["quoted"])!r})', ('util', 'rtq', bytes(x['quoted'])), same(b2s(x['raw']))))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 5)]:
        ctx.sample(c[0])
    return ['C locale (the library is not asked to follow setlocale)']


# ------------------------------------------------------------------ C20
def sf(x):
    return [str(v) for v in x]


LOCATION_FILES = [b'f', b'a b.cq', b'{}', b'%s%n', b'<unknown file name>', b'dir/x:1:2', b' ', b'\0', 'é'.encode(), b'x' * 300, b'"\\', b'\n']


def location_numbers(rnd):
    some = {0, 1, 2 ** 32 - 1} | {rnd.choice([9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2]) for _ in range(5)}
    while len(some) < 12:
        some.add(rnd.randrange(2 ** rnd.randrange(2, 33)))
    return [str(v) for v in sorted(some)]


def c20(ctx):
    exe = ctx.base('LOC')
    rnd = ctx.rnd
    cases = []

    def loc_case(x):
        has = '1' if x['file'] else '0'
        name = bytes(x['file'][0]) if x['file'] else b''
        args = ['loc', has, name, *x['a'], *x['b']]
        for p in x['adds']:
            args += p
        want = [{'file': b2s(s['file'][0]) if s['file'] else None, 'first': s['first'], 'last': s['last'], 'str': b2s(s['str']), 'fmt': b2s(s['str'])} for s in x['states']]

        def check(got):
            got = [{**g, 'first': sf(g['first']), 'last': sf(g['last'])} for g in got]
            return [(w, g) for w, g in zip(want, got) if w != g] or ([] if len(want) == len(got) else [(want, got)])
        what = 'SourceLocation' + str((x['file'] and b2s(x['file'][0]), x['a'], x['b'])) + ''.join(f' expanded to {p}' for p in x['adds'])
        return what, args, check
    invs = ['Ordered', 'Covers', 'Tight', 'NoEmptyName']
    runs = [([1, 2, 3], 1), (list(range(1, 11)), 0)] if ctx.quick else [([1, 2, 3], 2), ([1, 4, 5, 10], 1), (list(range(1, 11)), 0)]
    runs.append((sorted(rnd.sample(range(2, 11), 2)), 2))
    for ns, depth in runs:
        r = ctx.tlc('MC_Location', inv('MSpec', invs, ['Monotone']), {'NS': ctx.file(ns), 'DEPTH': depth})
        cases += [loc_case(x) for x in r.reports]
    # longer histories over any numbers
    for _ in range(1 if ctx.quick else 6):
        nums, n = location_numbers(rnd), 500 if ctx.quick else 2000
        pos = lambda near=None: [rnd.choice(near) if near and rnd.random() < .6 else rnd.randrange(1, len(nums) + 1) for _ in range(2)]
        scripts = []
        for _ in range(n):
            near = [rnd.randrange(1, len(nums) + 1) for _ in range(3)]
            f = pos(near)
            file = rnd.choice([[], [[]], [list(rnd.choice(LOCATION_FILES))], [[rnd.randrange(1, 256) for _ in range(rnd.randrange(1, 30))]]])
            scripts.append({'file': file, 'f': f, 'l': f if rnd.random() < .3 else pos(near), 'adds': [pos(near) for _ in range(rnd.randrange(0, 7))]})
        r = ctx.tlc('MC_Location', inv('MSpec', invs, ['Monotone']), {'SCRIPTS': ctx.file(scripts), 'NS': ctx.file([]), 'DEPTH': 0, 'NUMS': ctx.file(nums)})
        cases += [loc_case(x) for x in r.reports]
    n_loc = len(cases)

    def side(z):
        return ['1' if z['file'] else '0', bytes(z['file'][0]) if z['file'] else b'', *z['f'], *z['l']]
    cmp_runs = 0
    for ns in ([[1, 2]] if ctx.quick else [[1, 2, 10]]) + [sorted(rnd.sample(range(1, 11), 2)) for _ in range(2)]:
        env = {'NS': ctx.file(ns)}
        if cmp_runs == 2:
            env['NUMS'] = ctx.file(location_numbers(rnd))
        cmp_runs += 1
        r = ctx.tlc('MC_LocationCmp', inv('CSpec', ['Antisymmetric', 'Consistent']), env)
        for x in r.reports:
            c = x['cmp']
            want = {'eq': x['eq'], 'ne': not x['eq'], 'cmp': c, 'rcmp': c, 'icmp': x['icmp'], 'lt': c < 0, 'ge': c >= 0, 'req': x['req']}
            cases.append((f"comparison of {x['x']} and {x['y']}", ['loccmp', *side(x['x']), *side(x['y'])], same(want)))
    unknown = {'file': None, 'first': [0, 0], 'last': [0, 0], 'str': '<unknown file name>', 'fmt': '<unknown file name>'}
    cases.append(('a default source location', ['locdef'], same(unknown)))
    replay(ctx, exe, cases)
    ctx.sample(cases[0][0])
    ctx.sample(cases[n_loc // 2][0])
    ctx.sample(cases[-2][0])


# ------------------------------------------------------------------ C21
def lsp_check(s, text):
    """differences between an LSP diagnostic (text of the library) and what is specified"""
    try:
        j = json.loads(text.encode('latin-1').decode('utf-8'))
    except (UnicodeDecodeError, json.JSONDecodeError) as e:
        return [('a JSON text', f'{text!r} ({e})')]
    msg = bytes(s['message']).decode('utf-8')
    want = {'range': {k: {a: int(b) for a, b in s[k].items()} for k in ('start', 'end')}, 'message': msg, 'severity': 1}
    if s['uri']:
        zero = {'line': 0, 'character': 0}
        want['relatedInformation'] = [{'location': {'uri': b2s(s['uri'][0]), 'range': {'start': zero, 'end': zero}}, 'message': '<unknown error message>'}]
    if j != want:
        return [(want, j)]
    return [] if f'"message":"{b2s(s["encoded"])}"' in text else [(b2s(s['encoded']), text)]


def c21(ctx):
    exe = ctx.base('ERR')
    rnd = ctx.rnd
    msgs = ['', 'x', 'a "quoted" \\ tab\t', 'é’\x01\x1f\x7f']
    files = [b'', b'in put.cq']
    cases = []
    runs = [{'msgs': msgs, 'files': files[1:], 'nums': [1, 3], 'depth': 2}, {'msgs': msgs[1:2], 'files': [b'', 'dir/n"\\ä%.cq'.encode()], 'nums': sorted(rnd.sample(range(2, 11), 2)), 'depth': 1},
            {'msgs': msgs[:2], 'files': [], 'nums': [1, 2, 10], 'depth': 0}]
    odd = ['{}', '{0} {{ }}', '%s %n %d', 'Error at f:1:2: x', '<unknown error message>', 'two\nlines\r\n', '\ufeff\u2028', 'x' * 300, '"' * 130, '\\' * 65, ' ', '😀', "it's", '/* */ // \'\'\'']
    names = [b'{}', b'{0}%s', b'<unknown file name>', b'a' * 260, b'file:///x', b'x:1:2', b' ', 'ü/日'.encode(), b'a.b-c_d~e', b'\n"', b'\\']
    runs.append({'msgs': odd + [''.join(chr(rnd.choice([rnd.randrange(1, 128), rnd.randrange(160, 0xd800)])) for _ in range(rnd.randrange(1, 40))) for _ in range(10)],
                 'files': [rnd.choice(names)], 'nums': [rnd.randrange(1, 11)], 'depth': 1})
    runs.append({'msgs': ['x'], 'files': names, 'nums': [1, rnd.randrange(2, 11)], 'depth': 0})
    if not ctx.quick:
        runs += [{'msgs': odd[:4], 'files': names[:3], 'nums': [1, 6], 'depth': 1}]
        runs += [{'msgs': msgs, 'files': files, 'nums': [1, 4], 'depth': 2}, {'msgs': msgs[:2], 'files': files, 'nums': [1, 2, 5, 10], 'depth': 0}]
        runs.append({'msgs': [''.join(chr(rnd.choice([rnd.randrange(1, 128), rnd.randrange(160, 0xd800)])) for _ in range(rnd.randrange(1, 30))) for _ in range(60)],
                     'files': [bytes(rnd.randrange(1, 256) for _ in range(8)) for _ in range(6)], 'nums': [2, 7], 'depth': 0})

    def place(p):
        return ['1' if p['file'] else '0', bytes(p['file'][0]) if p['file'] else b'', *p['a'], *p['b']]
    for run in runs:
        cfg = {**run, 'msgs': [list(m.encode()) for m in run['msgs']], 'files': [list(f) for f in run['files']]}
        env = {'CFG': ctx.file(cfg)}
        if run['nums'][0] > 1:
            env['NUMS'] = ctx.file(location_numbers(rnd))
        r = ctx.tlc('MC_Error', inv('ESpec', ['NeverEmpty', 'Encodable'], ['FirstPlaceWins', 'MessageStays']), env)
        for x in r.reports:
            st = x['steps']
            args = ['err', st[0]['op'], bytes(x['m']), *place(st[0]['p'])]
            for s in st[1:]:
                args += [s['op'], *place(s['p'])]

            def check(got, st=st):
                if len(got) != len(st):
                    return [(len(st), got)]
                for s, g in zip(st, got):
                    w = b2s(s['what'])
                    for k in ('what', 'what2', 'str', 'fmt'):
                        if g[k] != w:
                            return [(w, g[k])]
                    d = lsp_check(s['lsp'], g['json'])
                    if d:
                        return d
                return []
            cases.append((f"error {[(s['op'], s['p']) for s in st]} with message {bytes(x['m'])!r}", args, check))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c[0])


# ------------------------------------------------------------------ C06
def c06(ctx):
    exe = ctx.base('VER')
    rnd = ctx.rnd
    texts = ['', '0', '3', '3.0', '03.00', '3.0.0', '1.2.3.4.5', '10.9', '2147483647', '2147483648', '3.2147483648', '99999999999999999999.1', '0.0.0.1', '1' * 9, '007']
    for _ in range(500 if ctx.quick else 3000):
        texts.append('.'.join(rnd.choice(['0', '1', '3', '00', '01', '10', '2147483647', str(rnd.randrange(10 ** rnd.randrange(1, 10)))]) for _ in range(rnd.randrange(1, 6))))
    texts += ['.'.join(['0'] * 12), '.'.join(str(k) for k in range(30)), '.'.join(['1'] * 9 + ['0'] * 9), '0' * 40 + '7', '3.' + '0' * 300 + '1', '4294967296', '9223372036854775807', '18446744073709551616.0']
    pairs = []
    for _ in range(400 if ctx.quick else 4000):
        pool = [rnd.choice(['0', '1', '2', '9', '10', '127', '128', '255', '256', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '9223372036854775807', str(rnd.randrange(2 ** 63))])
                for _ in range(3)] + ['0']
        x = [rnd.choice(pool) for _ in range(rnd.randrange(0, 9))]
        y = list(x)
        for _ in range(rnd.randrange(3)):
            k = rnd.random()
            if y and k < .4:
                y[rnd.randrange(len(y))] = rnd.choice(pool)
            elif y and k < .6:
                y.pop()
            else:
                y += ['0'] * rnd.randrange(3) + [rnd.choice(pool)] * (rnd.random() < .4)
        pairs.append([x, y] if rnd.random() < .5 else [y, x])
    cfg = ctx.file({'pairs': pairs, 'numbers': ['0', '1', '10'] if ctx.quick else ['0', '1', '9', '10', '9223372036854775807'], 'depth': 3, 'zdepth': 1,
                    'texts': [list(t.encode()) for t in texts]})
    r = ctx.tlc('MC_Version', inv('VSpec', ['Antisymmetric', 'Transitive', 'ZerosAtTheEndDoNotMatter', 'Reads']), {'CFG': cfg})
    cases = []
    for x in r.reports:
        if x['k'] == 'cmp':
            c = x['c']
            want = {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'cmp': c, 'sx': b2s(x['sx']), 'sy': b2s(x['sy'])}
            cases.append((f"comparison of the versions {x['x']} and {x['y']}", ['vercmp', ' '.join(x['x']), ' '.join(x['y'])], same(want)))
        elif x['ok']:
            s = b2s(x['str'])
            cases.append((f"Version({b2s(x['s'])!r})", ['ver', bytes(x['s'])], same({'items': x['items'], 'str': s, 'fmt': s})))
        else:
            cases.append((f"Version({b2s(x['s'])!r})", ['ver', bytes(x['s'])], lambda g: [] if g.get('exc') == 'out_of_range' else [('std::out_of_range', g)]))
    # a negative component never becomes part of a version
    for t in ('-1', '3.-1', '0.-0.-7'):
        cases.append((f'Version({t!r})', ['ver', t.encode()], lambda g: [] if g.get('exc') == 'invalid_argument' else [('std::invalid_argument', g)]))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 5)]:
        ctx.sample(c[0])
    # the Python class of the same name reads texts the same way
    prim = python_primitives()
    for x in r.reports:
        if x['k'] == 'text' and x['ok'] and x['s']:
            ctx.traces += 1
            got = [str(v) for v in prim.Version(b2s(x['s']))]
            if got != x['items']:
                ctx.violation(f"Python Version({b2s(x['s'])!r}): specified {x['items']}, got {got}", {'python': 'primitives.Version', 'text': b2s(x['s'])})
    # and the package version is the one of the sources
    ctx.traces += 1
    package_version(ctx)


def python_primitives():
    import sys
    import types
    for n in ('cqasm', 'cqasm.v3x', 'cqasm.v3x.types', 'cqasm.v3x.instruction'):
        sys.modules.setdefault(n, types.ModuleType(n))
    sys.modules['cqasm'].v3x = sys.modules['cqasm.v3x']
    t = sys.modules['cqasm.v3x.types']
    if not hasattr(t, 'Node'):
        t.Node = type('Node', (), {})
    sys.modules['cqasm.v3x'].types = t
    sys.dont_write_bytecode = True
    mods = {}
    for m in ('instruction', 'primitives'):
        spec = importlib.util.spec_from_file_location(f'cqasm.v3x.{m}', f'{REPO}/python/module/cqasm/v3x/{m}.py')
        mod = importlib.util.module_from_spec(spec)
        sys.modules[f'cqasm.v3x.{m}'] = mod
        setattr(sys.modules['cqasm.v3x'], m, mod)
        spec.loader.exec_module(mod)
        mods[m] = mod
    return mods['primitives']


def package_version(ctx):
    import subprocess
    import sys
    text = open(f'{REPO}/include/libqasm/versioning.hpp').read()
    want = text.split('version{ "', 1)[1].split('"', 1)[0] if 'version{ "' in text else None
    if want is None:
        return
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', 'import version; print(version.get_version())'], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                       env={**os.environ, 'PYTHONPATH': REPO})
    got = p.stdout.strip()
    if got != want:
        ctx.violation(f'version.py answers {got!r}, versioning.hpp says {want!r}', {'python': 'version.get_version'})


# ------------------------------------------------------------------ C27
def c27(ctx):
    exe = ctx.base('SB')
    rnd = ctx.rnd
    escapes = [r'\t', r'\n', r'\r', r"\'", r'\"', '\\\\', r'\x', r'\0', '\\', '', r'\tt', 't', r'\u0041', '\\\n', r'\T']
    strings = ['', 'a', '\\t', 'ü', '\\']
    cases = []
    long = ['x' * 5000, '\\t' * 70, '\0', 'a\0b', '\n', '"', "'", '%s', '{}', '12', ' ', '\t ']
    runs = [(escapes, strings, 2), (rnd.sample(escapes, 4) + ['\\\0', '\0', '\\t\0', '\\' * 3, '\\n\\n', "'", '"', 'n'], long, 2), ([rnd.choice(escapes[:6]), rnd.choice(escapes[6:]), escapes[5]], [rnd.choice(strings), 'b c'], 4)]
    runs.append(([rnd.choice(escapes[:6])], [rnd.choice(['', 'a', '\\', 'xyz' * 9])], 8 if ctx.quick else 11))
    # fragments are kept as they are, whatever they look like
    runs.append((escapes[:6], escapes + ['\\' * n for n in range(2, 9)] + ['\\a\\', '\\\\t', ' \\n ', '\r\n', '\xff\xfe', '\x1b[0m'] + [''.join(rnd.choice('\\ntr\'" a0\n\0') for _ in range(rnd.randint(2, 7))) for _ in range(60 if ctx.quick else 600)], 1))
    if not ctx.quick:
        runs += [(escapes[:8], strings[:3], 4), (['\\' + chr(c) for c in range(33, 127)], [''], 2)]
    else:
        runs.append((['\\' + chr(c) for c in range(33, 127)], [''], 1))
    for es, ss, depth in runs:
        cfg = ctx.file({'strings': [list(s.encode()) for s in ss], 'escapes': [list(s.encode()) for s in es], 'depth': depth})
        r = ctx.tlc('MC_StringBuilder', inv('SSpec', [], ['AppendOnly']), {'CFG': cfg})
        for x in r.reports:
            args = ['sb']
            for p in x['path']:
                args += [p['op'], bytes(p['x'])]
            cases.append((f"string builder {[(p['op'], b2s(p['x'])) for p in x['path']]}", args, same([b2s(p['out']) for p in x['path']])))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c[0])


# ------------------------------------------------------------------ C28
def c28(ctx):
    exe = ctx.base('OVL')
    rnd = ctx.rnd
    chain = [['a', 'b'], ['b', 'c'], ['a', 'c']]
    types = ['', 'a', 'b', 'c', 'ab', 'bb', 'ac', 'ccc']
    queries = ['', 'a', 'b', 'c', 'd', 'aa', 'ab', 'bb', 'ba', 'abc', 'aaa']
    alltypes = [''.join(t) for n in range(3) for t in __import__('itertools').product('abc', repeat=n)]
    runs = [{'promotions': [chain, [['a', 'b']], []], 'names': ['f', 'g'], 'types': types, 'queries': queries, 'depth': 2},
            {'promotions': [chain, [['a', 'b'], ['b', 'a']]], 'names': ['f', 'F'], 'types': rnd.sample(alltypes, 3), 'queries': rnd.sample(queries, 7), 'depth': 3}]
    wide = [''.join(rnd.choice('abc') for _ in range(rnd.choice([3, 4, 5, 8]))) for _ in range(2)]
    wide += [w[:-1] + rnd.choice('abc') for w in wide]
    down = {'a': 'a', 'b': 'ab', 'c': 'abc'}
    runs.append({'promotions': [chain, [['b', 'c']]], 'names': ['', 'a long name with spaces', 'f'], 'types': wide, 'queries': wide + [''.join(rnd.choice(down[c]) for c in w) for w in wide] + [w + 'a' for w in wide], 'depth': 2})
    runs.append({'promotions': [chain], 'names': ['f'], 'types': rnd.sample(['a', 'b', 'c'], 2), 'queries': ['a', 'b', 'c', 'aa'], 'depth': 7 if ctx.quick else 10})
    if not ctx.quick:
        runs += [{'promotions': [chain], 'names': ['f'], 'types': alltypes, 'queries': queries, 'depth': 3},
                 {'promotions': [chain, [['c', 'a']]], 'names': ['f', 'g'], 'types': rnd.sample(alltypes, 5), 'queries': queries, 'depth': 4}]
    cases = []
    for run in runs:
        cfg = ctx.file({**run, 'types': [list(t) for t in run['types']], 'queries': [list(q) for q in run['queries']]})
        r = ctx.tlc('MC_Overload', inv('OSpec', ['LastExactWins'], ['NeverLost', 'OtherNamesUntouched']), {'CFG': cfg})
        answers = {(x['rel'], json.dumps(x['table'])): x['answers'] for x in r.reports}
        for x in r.reports:
            args = ['ovl', ''.join(a + b for a, b in run['promotions'][x['rel'] - 1])]
            want = []

            def ask(n, k):
                for name, row in zip(run['names'], answers[x['rel'], json.dumps(x['table'][:n])]):
                    for q, a in list(zip(run['queries'], row))[::k]:
                        args.extend(['res', name, q])
                        want.append([a['tag'], ''.join(a['types']), True] if a['r'] == 'ok' else a['r'])
            # questions between the additions too: asking changes nothing
            for n, t in enumerate(x['table']):
                ask(n, 3)
                args += ['add', t['name'], ''.join(t['types']), str(t['tag'])]
            ask(len(x['table']), 1)

            def check(got, want=want):
                return [(w, g) for w, g in zip(want, got) if w != g] or ([] if len(want) == len(got) else [(want, got)])
            cases.append((f"overloads {[(t['name'], ''.join(t['types'])) for t in x['table']]} with promotions {args[1]!r}", args, check))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c[0])


# ------------------------------------------------------------------ C23
NAMES = ['H', 'I', 'mX90', 'mY90', 'mZ90', 'Rn', 'Rx', 'Ry', 'Rz', 'S', 'Sdag', 'T', 'Tdag', 'U', 'X', 'X90', 'Y', 'Y90', 'Z', 'Z90', 'CNOT', 'CR', 'CRk', 'CZ', 'SWAP',
         'measure', 'reset', 'init', 'barrier', 'wait', 'inv', 'pow', 'ctrl']


def c23(ctx):
    exe = ctx.base('ISET', v3x=('instruction_set.cpp',))
    rnd = ctx.rnd
    names = list(NAMES)
    for n in NAMES:
        names += [f'1q_{n}', f'2q_{n}', n.lower(), n.upper(), n[:-1], n + 'x', n.swapcase(), ' ' + n, n + '_']
    names += ['', '1q', '2q', '1', '2', '1q_', '2q_', '3q_X', 'q1_X', '1Q_X', '12q', '21q', '_1q', 'qubit', 'bit', 'asm', 'version', 'true', '1q_2q_X', '2q_1q_X', '_']
    for _ in range(400 if ctx.quick else 3000):
        names.append(''.join(rnd.choice('12q_XRxCNOTHSTdagmZ90kwait') for _ in range(rnd.randrange(1, 8))))
    for n in NAMES:
        names += [f'{p}{n}' for p in ('inv.', '1q', '2q', '1_q_', '1q_1q_', 'q_', '11q_', '_')] + [n[1:], n * 2, n[::-1], n + ' ', n + '\t', n + 'é', n + '1q_']
    for _ in range(800 if ctx.quick else 3000):
        n = rnd.choice(NAMES)
        i = rnd.randrange(len(n))
        names.append(rnd.choice([n[:i] + n[i].swapcase() + n[i + 1:], n[:i] + n[i + 1:], n[:i] + rnd.choice('qxdag90_') + n[i:], n + rnd.choice(NAMES), rnd.choice(['1q_', '2q_']) + n[:i]]))
    names = list(dict.fromkeys(names))
    r = ctx.tlc('MC_InstrSet', inv('ISpec', ['Partition', 'Known', 'FirstIsACount', 'EveryNameResolves', 'Broadcast']), {'CASES': ctx.file(names)})
    cases = []
    for x in r.reports:
        def check(got, x=x):
            bad = []
            for k, w in x.items():
                if k == 'n':
                    continue
                if isinstance(w, bool):
                    if got[k] != w:
                        bad.append((f'{k}: {w}', got[k]))
                    continue
                for i, (o, g) in enumerate(zip(w, got[k]) if k == 'by_count' else [(w, got[k])]):
                    ok = ('err' in g and x['n'].encode().decode('latin-1') in g['err']) if not o['ok'] and isinstance(g, dict) else (o['ok'] and g == (o['t'] if o['has'] else None))
                    if not ok:
                        bad.append((f'{k}[{i}]: {o}', g))
            return bad
        cases.append((f"queries on the instruction set for {x['n']!r}", ['iset', x['n'].encode()], check))

    def maps(got):
        """the tables are what the queries are about: every signature of the specification, and no other"""
        bad = []
        spec = {x['n']: x for x in r.reports}
        gates = sorted(((g[0], g[1] or '', g[2] or '') for g in got['gates']))
        non = sorted(((g[0], g[1] or '', g[2] or '') for g in got['nongates']))
        if gates != sorted(SIG_GATES(spec)):
            bad.append(('the gate table', sorted(set(gates) ^ set(SIG_GATES(spec))) or 'duplicates'))
        if non != sorted(SIG_NON):
            bad.append(('the non-gate table', sorted(set(non) ^ set(SIG_NON)) or 'duplicates'))
        if sorted((m[0], m[1] or '') for m in got['modifiers']) != [('ctrl', ''), ('inv', ''), ('pow', 'f')]:
            bad.append(('the modifier table', got['modifiers']))
        for k, p in (('one', 'is_single_qubit_named_gate'), ('two', 'is_two_qubit_named_gate'), ('non', 'is_non_gate')):
            if sorted(got[k]) != sorted(n for n in NAMES if spec[n][p]):
                bad.append((k, got[k]))
        if not got['same']:
            bad.append(('one instance', 'several'))
        return bad
    cases.append(('the tables of the instruction set', ['isetmaps'], maps))
    replay(ctx, exe, cases)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c[0])


def SIG_GATES(spec):
    out = []
    for n, x in spec.items():
        if n in NAMES and x['is_named_gate']:
            p = x['named_gate_params']['t']
            out += [(n, p, o) for o in (('Q', 'V') if x['is_single_qubit_gate'] else ('QQ', 'QV', 'VQ', 'VV'))]
    return out


SIG_NON = [('measure', p, o) for p in ('', 'fff') for o in ('BQ', 'WV', 'BV', 'WQ')] + [(n, '', o) for n in ('reset', 'init', 'barrier') for o in 'QV'] + [('wait', 'i', o) for o in 'QV']

CHECKS = {'C06': c06, 'C19': c19, 'C20': c20, 'C21': c21, 'C23': c23, 'C27': c27, 'C28': c28}
