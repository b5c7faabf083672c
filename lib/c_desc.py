"""C29: descriptors and primitive values (Signature.tla)."""
import itertools
import struct

from c_lang import answers, pick, with_build
from frame import b2s, inv

CLASS = {'Q': 'Qubit', 'B': 'Bit', 'b': 'Bool', 'i': 'Int', 'f': 'Float', 'V': 'QubitArray', 'W': 'BitArray'}
NAME = {'Q': 'qubit', 'B': 'bit', 'b': 'bool', 'i': 'int', 'f': 'float', 'V': 'qubit array', 'W': 'bit array'}
CFG = inv('Spec', ['Arrives', 'NothingIsEmpty', 'Faithful', 'Injective'])


def bits(x):
    return struct.pack('>d', x).hex()


def value(n):
    return struct.unpack('>d', bytes.fromhex(n))[0]


def args(d):
    if d['k'] == 'none':
        return ['0', '', '', '', '', '']
    ret = d['ret'][0] if d['ret'] else ['-', '-']
    return ['1', bytes(d['name']), ''.join(t[0] for t in d['types']), ' '.join(t[1] for t in d['types']), ret[0], ret[1]]


def pools(ctx):
    rnd, q = ctx.rnd, ctx.quick
    names = ['X', 'x', 'CNOT', '', 'operator+', 'f(int', 'é', 'a' * 300, 'XX'][:6 if q else 9] + (['é'] if q else [])
    lists = [''] + list('QBbifVW') + ['QQ', 'Qf', 'fQ', 'VVf', 'ff', 'bb', 'ib', 'QQQ', 'QBbifVW', 'W' * 30]
    lists += [''.join(rnd.choice('QBbifVW') for _ in range(rnd.randint(2, 6))) for _ in range(6 if q else 60)]
    L = [[[c, '0'] for c in x] for x in dict.fromkeys(lists)] + [[['V', '3']], [['V', '4']], [['V', '3'], ['Q', '1']], [['W', '4294967296']], [['Q', '1']], [['i', '-1']]]
    rets = [[c, '0'] for c in 'QBbifVW'] + [['V', '3'], ['f', '1']]
    ints = [0, 1, -1, 23, 24, -24, -25, 255, 256, -256, -257, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 32, 2 ** 63 - 1, -2 ** 63] + [rnd.getrandbits(64) - 2 ** 63 >> rnd.randint(0, 60) for _ in range(30 if q else 2000)]
    floats = [bits(x) for x in (0.0, -0.0, 1.0, -1.5, 0.1, 1e308, 5e-324, 2 ** 53 + 1.0, float('inf'), float('-inf'))] + ['7ff8000000000000'] + [bits(rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-300, 300)) for _ in range(30 if q else 2000)]
    strs = ['', 'a', 'é "\\\n', 'x' * 23, 'x' * 24, 'x' * 255, 'x' * 256, 'x' * 65536, '\x00', '漢']
    prims = [['bool', [b]] for b in ('true', 'false')] + [['int', [str(i)]] for i in ints] + [['float', [f]] for f in floats]
    prims += [['str', [s.encode().hex()]] for s in strs]
    prims += [['complex', list(x)] for x in pick(ctx, list(itertools.permutations(floats[:10], 2)), 60)]
    prims += [['axis', list(x)] for x in pick(ctx, list(itertools.permutations(floats[:10], 3)), 60)] + [['axis', [rnd.choice(floats[:10] + floats[11:]) for _ in range(3)]] for _ in range(30)]
    prims += [['version', [str(i) for i in v]] for v in ([], [3], [3, 0], [0], [0, 0, 0], [2 ** 31 - 1, 1], list(range(40)), [10, 2, 300, 4])]
    return [list(n.encode()) for n in names], L, rets, [list(x) for x in {repr(x): x for x in prims}.values()]


INIT = {'str': [''], 'bool': ['false'], 'int': ['0'], 'float': [bits(0.0)], 'complex': [bits(0.0)] * 2, 'axis': [bits(1.0), bits(0.0), bits(0.0)], 'version': []}


def c29(ctx):
    names, L, rets, prims = pools(ctx)

    def work():
        r = ctx.tlc('MC_Signature', CFG, {k: ctx.file(v) for k, v in (('NAMES', names), ('LISTS', L), ('RETS', rets), ('PRIMS', prims))})
        return r.reports
    exe, reps = with_build(ctx, work, parts=('SIG',))
    sigs = [x for x in reps if x['family'] in ('ins', 'fn')]
    ps = [x for x in reps if x['family'] not in ('ins', 'fn')]
    wires = {}

    def judge(x, a):
        if 'wire' not in a:
            return [('crash', str(a))]
        none = x['a']['k'] == 'none'
        show = b2s(x['print'])
        want = {'ref': show, 'back': show, 'wire': a['wire'], 'again': a['wire']}
        if not none:
            want.update(str=show, self=True, arrives=True, copy=True)
            if x['b']['k'] != 'none':
                want.update(eq=x['same'], ne=not x['same'], qe=x['same'])
        return [] if a == want else [('descriptor', '; '.join(f'{k}: {a.get(k)!r}, specified {want.get(k)!r}' for k in sorted({*a, *want}) if a.get(k) != want.get(k)))]

    def call(x):
        return ('sig', x['family'], *args(x['a']), *args(x['b']))

    def told(x):
        return f"{b2s(x['print'])} (sizes {[t[1] for t in x['a']['types']]}) and {b2s(x['other'])} (sizes {[t[1] for t in x['b']['types']]})"[:500]
    for x, a, d in answers(ctx, exe, sigs, judge, command=call):
        ctx.violation(f'{told(x)}: {d[0][1]}'[:1200], {'pair': x, 'got': a})

    def raw(x):
        p = x['a']['types']
        return ('prim', x['family'], *(bytes.fromhex(y) for y in p)) if x['family'] == 'str' else ('prim', x['family'], *p)

    def judge2(x, a):
        if 'wire' not in a:
            return [('crash', str(a))]
        p = x['a']['types']
        want = {'back': [bytes.fromhex(p[0]).decode('latin-1')] if x['family'] == 'str' else p, 'again': a['wire'], 'init': INIT[x['family']]}
        out = [f'{k}: {a[k]!r}, specified {w!r}' for k, w in want.items() if a[k] != w]
        if x['family'] == 'axis':
            try:
                s = a['str']
                shown = [bits(float(y)) for y in s[1:-1].split(', ')] if s[0] + s[-1] == '[]' else None
            except ValueError:
                shown = None
            if shown != p or not a['eq'] or not a['ne']:
                out.append(f"shown {a['str']}, equal {a['eq']}, different from another {a['ne']}")
        return [('primitive', '; '.join(out))] if out else []
    for x, a, d in answers(ctx, exe, ps, judge2, command=raw):
        ctx.violation(f"{x['family']} {x['a']['types']}: {d[0][1]}"[:1200], {'value': x, 'got': a})
    # lists and nothing
    shows = [tuple(s) for s in ([''], ['Q'], ['QV', 'i1'], ['fi', 'f0.5', 'b1'], ['WWW', 'i1', 'i1', 'Q'], ['bBQifVW', 'V3', 'X5:1', 'f1e300'])]
    shows += [(''.join(ctx.rnd.choice('QBbifVW') for _ in range(ctx.rnd.randint(0, 5))), *(ctx.rnd.choice(['i7', 'b0', 'f2.5', 'Q', 'W2']) for _ in range(ctx.rnd.randint(0, 4)))) for _ in range(40)]

    def judge3(x, a):
        if 'types' not in a:
            return [('crash', str(a))]
        want = {'types': ', '.join(NAME[c] for c in x[0]), 'each': [NAME[c] for c in x[0]], 'values': f"[{', '.join(a['eachv'])}]", 'eachv': a['eachv'], 'notype': '!EMPTY', 'novalue': 'NULL'}
        return [] if a == want and len(a['eachv']) == len(x) - 1 else [('shown', f'{a}, specified {want}')]
    for x, a, d in answers(ctx, exe, list(dict.fromkeys(shows)), judge3, command=lambda x: ('show', *x)):
        ctx.violation(f'types {x[0]!r} and values {x[1:]}: {d[0][1]}'[:1200], {'shown': x, 'got': a})
    python(ctx, exe, sigs, ps, call, raw)
    ctx.notes['pairs of descriptors'], ctx.notes['primitive values'] = len(sigs), len(ps)
    for x in pick(ctx, sigs, 3):
        ctx.sample(told(x)[:300])
    return ['names are UTF-8 (CBOR texts)', 'the CBOR writer and reader are those of the substitute for tree-gen']


def python(ctx, exe, sigs, ps, call, raw):
    """what C++ wrote, read by the Python modules; and the constructors of the Python classes"""
    jobs = []
    by = {}
    for x in sigs:
        if x['family'] == 'ins':
            by.setdefault(repr(x['a']), x)
    wire = ctx.pmap(exe, lambda d, x: d.ask(*x).get('wire', ''), [call(x) for x in by.values()] + [raw(x) for x in ps])
    ctx.traces += len(wire)

    def seen(name, types, show_types):
        return {'str': f"{name}({', '.join(CLASS[t] for t in show_types)})", 'data': {'str': f"{name}({', '.join(CLASS[t] for t in show_types)})", 'name': name, 'types': types, 'tuple': True}}
    nothing = {'str': 'unresolved', 'data': None}
    for x, w in zip(by.values(), wire):
        d = x['a']
        one = nothing if d['k'] == 'none' else seen(bytes(d['name']).decode(), [[CLASS[t[0]], t[1]] for t in d['types']], [t[0] for t in d['types']])
        jobs.append(({'op': 'sig', 'hex': w}, {'one': one, 'two': one, 'keys': x['keys']}))
    kinds = {'str': 'str', 'bool': 'bool', 'int': 'int', 'float': 'float', 'version': 'Version'}
    for x, w in zip(ps, wire[len(by):]):
        k, p = x['family'], x['a']['types']
        if k not in kinds:
            continue
        one = [kinds[k], *([bytes.fromhex(p[0]).decode()] if k == 'str' else p)]
        jobs.append(({'op': 'prim', 'kind': k, 'hex': w}, {'one': one, 'two': one, 'keys': x['keys'], 'hex': None if k == 'str' else w}))
    zeros = lambda t: [[CLASS[c], '0'] for c in t]
    cls = lambda t: [CLASS[c] for c in t]
    for t in ['', 'Q', 'QBbifVW', 'ff']:
        s = seen('X', zeros(t), t)
        jobs += [({'op': 'make', 'what': 'ins', 'name': 'X', 'types': cls(t)}, s),
                 ({'op': 'make', 'what': 'ref', 'args': ['X', cls(t)]}, s), ({'op': 'make', 'what': 'ref', 'args': [{'ins': ['X', cls(t)]}]}, s),
                 ({'op': 'make', 'what': 'ref', 'args': ['X'], 'kw': {'types': cls(t)}}, s), ({'op': 'make', 'what': 'ref', 'args': [], 'kw': {'name': 'X', 'types': cls(t)}}, s)]
    jobs += [({'op': 'make', 'what': 'ref', 'args': []}, nothing), ({'op': 'make', 'what': 'ref', 'args': [None]}, nothing),
             ({'op': 'make', 'what': 'ins', 'name': 'X', 'types': None}, seen('X', [], '')), ({'op': 'make', 'what': 'ref', 'args': ['X']}, seen('X', [], '')), ({'op': 'make', 'what': 'ins', 'name': 3, 'types': None}, seen('3', [], ''))]
    for bad in (['Qubit', 'nope'], ['nope'], [3], [None]):
        jobs += [({'op': 'make', 'what': 'ins', 'name': 'X', 'types': bad}, 'TypeError'), ({'op': 'make', 'what': 'ref', 'args': ['X', bad]}, 'TypeError')]
    for v, w in (('3.0', ['3', '0']), ('3', ['3']), ('10.2.300', ['10', '2', '300']), ([3, 0], ['3', '0']), ([], []), ('0.0.0.1', ['0', '0', '0', '1']), ('a', 'ValueError'), ('3.', 'ValueError'), ('', 'ValueError')):
        jobs.append(({'op': 'make', 'what': 'version', 'arg': v}, w if isinstance(w, str) else {'items': w, 'tuple': True}))

    def one(d, job):
        a = d.ask(job[0])
        w = job[1]
        if isinstance(w, str):
            return None if a.get('exc', '').startswith(w + ':') else f'{a}, specified {w}'
        if w.get('hex', 0) is None:
            a = {**a, 'hex': None}
        return None if a == w else f'{a}, specified {w}'
    for (r, w), a in zip(jobs, ctx.pmap(ctx.python(), one, jobs)):
        if a:
            ctx.violation(f'Python, {str(r)[:300]}: {a}'[:1200], {'request': r, 'got': a})
    ctx.traces += len(jobs)
    ctx.notes['Python objects'] = len(jobs)


CHECKS = {'C29': c29}
