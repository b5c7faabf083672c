"""Checks of the library's interfaces: sessions, results, serialization, values, robustness."""
import itertools
import json
import os
import re
import struct

import gen
import norm
import oracle
import terms
import tlc
from c_lang import DECL, P, answers, fam, language, pick, texts, with_build
from frame import REPO, inv


# ------------------------------------------------------------------ C22 sessions
def vspec(s):
    """value in the driver's notation -> in the specification's"""
    k, r = s[0], s[1:]
    if k == 'b':
        return {'k': 'b', 'v': r == '1'}
    if k == 'i':
        return {'k': 'i', 'v': r}
    if k == 'f':
        return {'k': 'f', 'v': r}
    if k in 'XY':
        size, ix = r.split(':')
        return {'k': 'ix', 'name': {'X': 'vqi', 'Y': 'vbi'}[k], 'typ': {'X': 'V', 'Y': 'W'}[k], 'size': size, 'ix': ix.split(',')}
    name, typ = {'Q': ('vq', 'Q'), 'B': ('vb', 'B'), 'V': ('vqa', 'V'), 'W': ('vba', 'W'), 'o': ('vbool', 'b'), 'n': ('vint', 'i'), 'l': ('vfloat', 'f')}[k]
    return {'k': 'var', 'name': name, 'typ': typ, 'size': r or '1'}


class Call:
    """one call: as the specification and as the driver read it"""
    texts = []

    def __init__(self, op, id='1', **a):
        self.d = {'op': op, 'id': id}
        if 'ver' in a:
            self.d.update(items=[[ord(c) for c in x] for x in a['ver'].split('.')] if a['ver'] else [], bare=a.get('bare', False), ver=a['ver'])
        for k in ('name', 'types', 'tag', 'to'):
            if k in a:
                self.d[k] = a[k]
        if 'val' in a:
            self.d.update(val=vspec(a['val']), raw=a['val'])
        if 'args' in a:
            self.d.update(args=[vspec(x) for x in a['args'].split()], raw=a['args'])
        if op == 'analyze':
            if a['text'] not in Call.texts:
                Call.texts.append(a['text'])
            self.d['text'] = Call.texts.index(a['text']) + 1
        self.d['has'] = a.get('has', True)


def driver_args(c):
    op, v3x = c['op'], c['id'] == '3'
    if op in ('new', 'default'):
        return [op, c['id'], c['ver']]
    if op == 'newv3x':
        return [op, c['id'], c['ver'], '1' if c['bare'] else '0']
    if op == 'regvar':
        return [op, c['id'], c['name'], c['raw']]
    if op == 'resvar':
        return [op, c['id'], c['name']]
    if op == 'regfn':
        return [op, c['id'], c['name'], c['types'], '-1' if c['tag'] == '#-' else c['tag'][1:]]
    if op == 'regins':
        return ['v3xreg' if v3x else op, c['id'], c['name'], '1' if c['has'] else '0', c['types']]
    if op in ('copy', 'assign', 'move'):
        return [op, c['id'], c['to']]
    if op == 'addasm':
        return [op, c['id'], c['name'], c['tag']]
    if op in ('resfn', 'resins', 'resgate'):
        return [op, c['id'], c['name'], c['raw']]
    if op == 'analyze':
        return ['v3xan' if v3x else op, c['id'], Call.texts[c['text'] - 1]]
    return [op, c['id']]


def show(c):
    return ' '.join(repr(x) if ' ' in x or not x else x for x in driver_args(c))


def step_diff(c, r, got):
    """difference of one answer from the specified one, or None"""
    kind = r['r']
    exc = got.get('exc') if isinstance(got, dict) else None
    if kind == 'any':
        return None
    if kind == 'ok':
        return None if got == 'ok' else f'{got}, specified to succeed'
    if kind == 'invalid':
        return None if exc == 'invalid_argument' else f'{got}, specified to be refused as an invalid argument'
    if kind == 'err':
        if exc != 'Error':
            return f'{got}, specified to fail: {r["kind"]} {r["names"]}'
        return None if norm.mentions(got['msg'], r['names']) else f'{got["msg"]!r} does not name {r["names"]}'
    if c['id'] == '3':
        return json_diff(r, got)
    if kind in ('val', 'ins', 'gate', 'none') and exc:
        return f'{got}, specified to resolve'
    if kind == 'none':
        return None if got is None else f'{got}, specified to be empty'
    if kind == 'val':
        d = norm.diff(norm.spec_value(r['v'], r['vars']), norm.impl_ast(got))
    elif kind == 'ins':
        d = norm.diff({'@': 'NonGateInstruction', 'instruction_ref': norm.ref(r['name'], r['types']), 'name': r['name'],
                       'operands': [norm.spec_value(v, r['vars']) for v in r['operands']], 'parameters': [], 'annotations': []}, norm.impl_ast(got))
    elif kind == 'gate':
        d = norm.diff({'@': 'GateInstruction', 'instruction_ref': norm.ref(r['name'], r['types']), 'gate': {'@': 'Gate', 'name': r['name'], 'gate': None, 'parameters': [], 'annotations': []},
                       'operands': [norm.spec_value(v, r['vars']) for v in r['operands']], 'annotations': []}, norm.impl_ast(got))
    elif kind == 'unparsed':
        return None if got.get('aerr') and not got['hasroot'] else f'{got}, specified not to parse'
    elif kind == 'rejected':
        if not got.get('aerr'):
            return f'{got}, specified to be rejected with {[e["kind"] for e in r["errs"]]}'
        if len(got['aerr']) != len(r['errs']):
            return f'{[e["what"] for e in got["aerr"]]}, specified {[(e["kind"], e["loc"]) for e in r["errs"]]}'
        for x, y in zip(r['errs'], got['aerr']):
            loc, msg = norm.err_parts(y)
            if loc != x['loc'] or not norm.mentions(msg, x['names']):
                return f'{y["what"]!r}, specified at {x["loc"]} naming {x["names"]}'
        if not r['kept']:
            return None
        d = norm.diff([norm.spec_stmt(x, r['arena']) for x in r['kept'][0]['stmts']], norm.impl_ast(got['kept'])['block']['statements'])
    elif kind == 'accepted':
        if got.get('aerr') or exc or not got.get('wf'):
            return f'{got}, specified to be accepted'
        d = norm.diff(norm.spec_sem(r['sem'], {'loc': r['vloc']}, r['arena'], r['api']), norm.impl_ast(got['sem']))
    return f'{d[0][0]}: {d[0][2]!r}, specified {d[0][1]!r}' if d else None


def json_diff(r, got):
    """the same through the JSON interface: outcome, errors, and the sizes of the program"""
    if isinstance(got, dict):
        return f'{got}, specified {r["r"]}'
    j = json.loads(got.encode('latin-1'))
    errs = j.get('errors')
    if r['r'] == 'unparsed':
        return None if errs else f'{got[:200]}, specified not to parse'
    if r['r'] == 'rejected':
        if not errs or len(errs) != len(r['errs']) or not all(norm.mentions(y['message'], x['names']) for x, y in zip(r['errs'], errs)):
            return f'{got[:400]}, specified {r["errs"]}'
        return None
    if errs:
        return f'{errs}, specified to be accepted'
    p = j['Program']
    n = (len(p['variables']), len(p['block']['Block']['statements']))
    w = (len(r['sem']['vars']), len(r['sem']['stmts']))
    return None if n == w else f'{n} variables and statements, specified {w}'


def session_diff(hist, a):
    if 'steps' not in a:
        return f'{a}'
    kept = 0
    for k, (h, got) in enumerate(zip(hist, a['steps'])):
        d = step_diff(h['c'], h['r'], got)
        if d:
            return f'after {"; ".join(show(x["c"]) for x in hist[:k])}: {show(h["c"])} answers {d}'
        # what was handed out stays what it was
        if h['c']['op'] == 'analyze' and h['c']['id'] != '3' and 'exc' not in got:
            end = a['kept'][kept]
            kept += 1
            if end != got:
                return f'the result of {show(h["c"])} changed in the course of {"; ".join(show(z["c"]) for z in hist)}'
    return None


SCFG = inv('SSpec', ['NoDuplicateNames', 'FunctionsAreGlobal'], ['Independent', 'CopiesAreEqual', 'QueriesAreSilent', 'FailuresAreSilent', 'InnerIsInner', 'ScopesGrow'])


def sessions(ctx):
    rnd, q = ctx.rnd, ctx.quick
    C = Call
    new = lambda i='1', v='3.0': C('new', i, ver=v)
    dflt = lambda i='1', v='3.0': C('default', i, ver=v)
    var = lambda n, v, i='1': C('regvar', i, name=n, val=v)
    getv = lambda n, i='1': C('resvar', i, name=n)
    fn = lambda n, t, tag, i='1': C('regfn', i, name=n, types=t, tag=tag)
    callf = lambda n, a, i='1': C('resfn', i, name=n, args=a)
    ins = lambda n, t, i='1', has=True: C('regins', i, name=n, types=t, has=has)
    geti = lambda n, a, i='1': C('resins', i, name=n, args=a)
    an = lambda t, i='1': C('analyze', i, text=t)
    push, pop = C('push'), C('pop')
    one = lambda *cs: [[c] for c in cs]
    d = 3 if q else 5
    F = []
    # names and scopes
    al = [push, pop, var('x', 'b1'), var('x', 'i7'), var('y', 'V3'), var('x', 'f1.5')]
    F.append(one(new()) + [al] * (d + 1) + one(getv('x'), getv('y'), getv('X')))
    # functions live in the global scope, the last one applicable wins
    al = [push, pop, fn('f', 'i', '#1'), fn('f', 'f', '#2'), fn('f', 'b', '#3'), fn('f', '', '#4'), fn('g', 'ii', '#-'), fn('f', 'z', '#5')]
    F.append(one(new()) + [al] * d + one(*[callf('f', a) for a in ('b1', 'i1', 'f1.5', 'Q', '', 'i1 i1', 'o', 'n')], callf('g', 'i1 b1'), callf('F', 'i1')))
    # instructions: innermost scope first, whatever the outer ones offer
    al = [push, pop, ins('h', 'Q'), ins('h', 'f'), ins('h', 'i'), ins('h', 'VV'), ins('h', '', has=False), ins('h', 'Qq')]
    F.append(one(new()) + [al] * d + one(*[geti('h', a) for a in ('Q', 'i1', 'f2.5', 'b0', 'V2 V3', '', 'X3:1', 'X3:1,2 V2')], geti('H', 'Q')))
    # defaults: constants once per scope, functions and instructions in any order
    al = [C('consts'), C('fns'), C('insts'), push, pop, var('pi', 'i3'), fn('sin', 'f', '#9'), ins('X', 'B')]
    F.append(one(new()) + [al] * d + one(getv('pi'), getv('true'), getv('tau'), callf('sin', 'i0'), callf('operator+', 'i1 f2.5'), callf('operator&&', 'b1 b0'), geti('X', 'Q'), geti('X', 'B'), geti('measure', 'B Q'), geti('1q_X', 'V2'), geti('2q_X', 'Q V2')))
    # programs in a session: declarations, statements and errors of one after the other
    ps = ['version 3.0; qubit q; X q', 'version 3; X q', 'version 3.0; bit q; q = measure q', 'version 3.1; qubit[2] v; CNOT v[0], v[1]', 'version 3.0; qubit', 'version 3.0; Rx(x + f(1)) q; H v']
    al = [an(p) for p in ps] + [push, pop, var('x', 'f0.5'), fn('f', 'i', '#2'), var('q', 'Q'), var('v', 'V2')]
    for first in [dflt(), *([dflt(v='3'), dflt(v='3.0.0')] if not q else [])]:
        F.append(one(first) + [al] * (2 if q else 3) + one(an(ps[1]), getv('q'), getv('v')))
    F.append(one(dflt(v=rnd.choice(['3', '3.0.0', '03'])), an(ps[0]), an(ps[3]), an(ps[5])))
    # bare analyzers know only what was registered
    al = [C('consts'), C('fns'), ins('X', 'Q'), ins('1q_X', 'Q'), ins('measure', 'BQ'), ins('X', 'V')]
    F.append(one(new()) + [al] * (2 if q else 4) + one(*[an(f'version 3.0; {s}') for s in ('qubit a; X a', 'bit b; b = measure a', 'inv.X a', 'qubit[2] v; X v', 'Rx(pi) a', 'pow(1 + 1).X a')]))
    # two analyzers side by side
    al = [dflt('1'), dflt('2'), new('2'), var('x', 'i1', '1'), var('x', 'i2', '2'), an('version 3.0; qubit z; X z', '1'), an('version 3.0; qubit z; Y z', '2'), ins('foo', 'Q', '2')]
    F.append(one(new('1'), dflt('2')) + [al] * (2 if q else 3) + one(getv('x'), getv('x', '2'), an('version 3.0; Z z', '1'), an('version 3.0; Z z', '2'), geti('foo', 'Q', '1'), geti('foo', 'Q', '2'), geti('X', 'Q', '1')))
    # copies and moves share nothing
    copy = lambda i, to, how='copy': C(how, i, to=to)
    gate = lambda n, a, i='1': C('resgate', i, name=n, args=a)
    asm = lambda n, t, i='1': C('addasm', i, name=n, tag=t)
    pq, pr = 'version 3.0; qubit z; X z', 'version 3.0; qubit y; H y'
    al = [copy('1', '2'), copy('2', '1'), copy('1', '2', 'assign'), copy('1', '2', 'move'), copy('1', '1'), an(pq, '1'), an(pr, '2'), var('x', 'i1', '1'), var('x', 'f2.5', '2'), C('push'), C('pop')]
    al2 = [fn('f', 'i', '#1', '1'), fn('f', 'f', '#2', '2'), ins('h', 'Q', '1'), ins('h', 'V', '2'), asm('a', 'b', '1'), asm('c', '', '2'), *al[:3]]
    end = one(getv('x'), getv('x', '2'), an('version 3.0; X z; X y', '1'), an('version 3.0; Z z; X y', '2'), callf('f', 'i1'), callf('f', 'i1', '2'), geti('h', 'Q'), gate('h', 'Q', '2'), gate('X', 'Q'), gate('CNOT', 'V2 V3', '2'), an('version 3.0;', '1'), an('version 3.0;', '2'))
    F += [one(dflt('1'), dflt('2')) + [al] * (2 if q else 4) + end, one(dflt('1'), new('2')) + ([pick(ctx, al + al2, 8), pick(ctx, al2, 5)] if q else [al + al2, al2, al2]) + [al[:4]] + end,
          one(dflt('1')) + [[copy('1', '2')]] + [[an(pq), an(pr, '2'), var('x', 'i5', '2'), push]] * 2 + end, one(dflt('1'), an(pq)) + [[copy('1', '2'), copy('1', '2', 'move')]] + [[an(pr, '1'), an(pr, '2')]] * 2 + end]
    # the binding's analyzer
    v3 = [C('newv3x', '3', ver='3.0', bare=b) for b in (True, False)]
    al = [ins('X', 'Q', '3'), ins('measure', 'BQ', '3'), ins('X', 'z', '3'), ins('Y', '', '3', has=False), an('version 3.0; qubit q; bit b', '3'), an('version 3.0; X q', '3'), an('version 3.0; b = measure q', '3')]
    F.append([v3] + [al] * (2 if q else 3) + one(an('version 3.0; X q; Y q', '3'), an('version 3.0; H q', '3'), an('version 3.0; Rx(pi * sin(1)) q', '3')))
    # versions that an analyzer accepts
    vs = ['3.0', '3', '3.0.0', '3.0.0.0', '3.1', '2', '4.0', '3.0.1', '0', '', '30', '3.00', '03.0', '2.9', '0.3']
    F.append([[C(op, i, ver=v, bare=b) for v in vs for op, i, b in (('new', '1', False), ('default', '1', False), ('newv3x', '3', True), ('newv3x', '3', False))]] + one(an('version 3.0; qubit q; X q'), an('version 3.0; qubit q; X q', '3')))
    # long random histories
    pool = al + v3 + [dflt('1'), new('1'), dflt('2')] + [push, pop] * 4
    for n, v in itertools.product(('x', 'y', 'q', 'pi'), ('b0', 'i-3', 'f0.25', 'Q', 'V4', 'W2', 'B', 'X5:1', 'Y5:0,4', 'o', 'n', 'l')):
        pool.append(var(n, v, rnd.choice('12')))
    for n in ('x', 'y', 'q', 'pi', 'eu', 'nope'):
        pool += [getv(n, '1'), getv(n, '2')] * 2
    for n, t, k in itertools.product(('f', 'sin', 'operator+'), ('i', 'f', 'ff', 'bi', 'Q', ''), ('#1', '#22', '#-')):
        pool.append(fn(n, t, k, rnd.choice('12')))
    for n, a in itertools.product(('f', 'sin', 'operator+', 'abs'), ('i1', 'b1', 'f0.5', 'i1 i2', 'b1 f2.5', 'Q', '', 'n', 'o l')):
        pool.append(callf(n, a, rnd.choice('12')))
    for n, t in itertools.product(('X', 'foo', '2q_X', 'measure', 'CNOT'), ('Q', 'V', 'QQ', 'fi', 'BQ', 'bQ')):
        pool.append(ins(n, t, rnd.choice('12')))
    for n, a in itertools.product(('X', 'foo', '2q_X', 'measure', 'CNOT'), ('Q', 'V2', 'Q Q', 'i1 b1', 'B Q', 'b1 Q', 'X3:2', 'Y3:0 Q')):
        pool.append(geti(n, a, rnd.choice('12')))
    progs = ps + ['version 3.0; CNOT v, v[0]; X q; b = measure v; X v[9]', 'version 3.0; X q; X y', 'version 3.0; qubit x', 'version 3.0; wait(f(1) + 1) q', 'version 3.0; Rx(sin(pi)) q', 'version 3.0; bit[2] y; y[0] = measure q', 'version 2; X x', "version 3.0; asm(a) '''b'''"]
    pool += [an(p, i) for p in progs for i in '12'] * 3
    pool += [copy(i, j, k) for i, j in ('12', '21', '11') for k in ('copy', 'assign', 'move') if i != j or k != 'move']
    pool += [gate(n, a, rnd.choice('12')) for n in ('X', 'foo', '2q_X', 'CNOT') for a in ('Q', 'V2', 'Q Q', '')] + [asm('n', 'code', '1'), asm('m', '', '2')]
    for _ in range(300 if q else 3000):
        F.append(one(rnd.choice([new('1'), dflt('1')]), rnd.choice([new('2'), dflt('2')])) + [[rnd.choice(pool)] for _ in range(rnd.randint(5, 30))])
    return F


def c22(ctx):
    Call.texts = []
    F = sessions(ctx)
    T = ctx.file([[ord(c) for c in t] for t in Call.texts])

    def work():
        out = []
        for k in range(0, len(F), 600):
            r = ctx.tlc('Session', SCFG, {'FAMILIES': ctx.file([[[c.d for c in s] for s in f] for f in F[k:k + 600]]), 'TEXTS': T})
            out += [x['hist'] for x in r.reports]
        return out
    exe, hists = with_build(ctx, work, parts=('SESSION',))
    hists = list({json.dumps([h['c'] for h in x]): x for x in hists}.values())

    def judge(h, a):
        d = session_diff(h, a)
        return [('session', d)] if d else []
    for h, a, d in answers(ctx, exe, hists, judge, command=lambda h: ('session', *[x for s in h for x in driver_args(s['c'])])):
        ctx.violation(d[0][1], {'calls': [show(s['c']) for s in h], 'specified': [s['r'] for s in h], 'got': repr(a)[:6000]})
    ctx.notes['histories'] = len(hists)
    ctx.notes['calls'] = sum(map(len, hists))
    for h in pick(ctx, hists, 4):
        ctx.sample('; '.join(show(s['c']) + ' -> ' + s['r']['r'] for s in h)[:600])
    return ['results that refer to variables of an outer scope are not specified', 'leaving the last scope is not specified']


# ------------------------------------------------------------------ C24 values and types
def c24(ctx):
    rnd, q = ctx.rnd, ctx.quick
    ints = ['0', '1', '-1', '2', '9007199254740992', '9007199254740993', '-9007199254740993', '9223372036854775807', '-9223372036854775807', '4611686018427387905', '1000000', '-2147483649', '4294967296', '1152921504606846977']
    ints += [str(rnd.randint(-2 ** 63 + 1, 2 ** 63 - 1) >> rnd.randint(0, 60)) for _ in range(10 if q else 400)]
    ints += [str(rnd.choice((1, -1)) * rnd.randint(2 ** k, 2 ** (k + 1) - 1)) for k in range(0, 63) for _ in range(1 if q else 8)]        # one of each magnitude
    floats = ['0.0', '-0.0', '1.5', '-2.25', '1e308', '4.9e-324', '0.1', '123456.789']
    pool = ['b0', 'b1'] + ['i' + x for x in ints] + ['f' + x for x in floats] + ['Q', 'B', 'o', 'n', 'l'] + [k + n for k in 'VW' for n in ('1', '2', '7', '4294967297')]
    pool += [k + '5:' + x for k in 'XY' for x in ('0', '4', '0,1', '1,1', '0,1,2,3,4', '3,2,1')] + [k + '1:0' for k in 'XY'] + [k + '1:0,0' for k in 'XY']
    specs = [vspec(x) for x in pool]
    letters = 'QBbifVW' + ('cqx' if q else 'cqvwx0I F')

    def work():
        r = ctx.tlc('MC_Values', inv('Spec', ['KeepsPlace', 'Agrees', 'ThroughInt'], ['OnlyUp']), {'VALUES': ctx.file(specs)})
        t = ctx.tlc('MC_TypeSpec', inv('Spec', ['Meaning'], ['OnceBadAlwaysBad']), {'LETTERS': ctx.file([ord(c) for c in letters]), 'DEPTH': 3 if q else 4})
        return {(x['value'], x['to']): x for x in r.reports}.values(), {bytes(x['spec']).decode(): x for x in t.reports}
    exe, (reps, tspec) = with_build(ctx, work, parts=('VAL',))
    reps = list(reps)

    def judge(x, a):
        if 'promote' not in a:
            return [('crash', str(a))]
        names = [None] * (x['value'] - 1) + [{'name': specs[x['value'] - 1].get('name')}]
        want = norm.spec_value(x['promoted'][0], names) if x['promoted'] else None
        d = []
        if not x['open']:
            d += [('promote', f'promotion{p}: {b!r}, specified {e!r}') for p, e, b in norm.diff(want, norm.impl_ast(a['promote']))]
        for k, e in (('check', x['can']), ('type', norm.SPECNAME[x['type']]), ('to', norm.SPECNAME[x['to']]), ('size', int(x['size'])), ('typecheck', x['type'] == x['to']), ('intact', True)):
            if a[k] != e:
                d.append((k, f'{k}: {a[k]!r}, specified {e!r}'))
        if (a['const'] is True) != x['const'] or (not x['const'] and a['const'].get('exc') != 'Error'):
            d.append(('const', f"constant: {a['const']!r}, specified {x['const']}"))
        if a['elem'] != x['elem'] and (x['elem'] or a['elem'].get('exc') != 'runtime_error'):
            d.append(('elem', f"element type: {a['elem']!r}, specified {x['elem'] or 'a failure'!r}"))
        return d
    for x, a, d in answers(ctx, exe, reps, judge, command=lambda x: ('val', pool[x['value'] - 1], x['to'])):
        ctx.violation(f"value {pool[x['value'] - 1]} (as the driver writes it) to {x['to']}: {d[0][1]}", {'value': pool[x['value'] - 1], 'to': x['to'], 'specified': x, 'got': a})

    def judge2(s, a):
        x = tspec[s]
        ok = a == ', '.join(x['names']) if x['good'] else isinstance(a, dict) and a.get('exc') == 'invalid_argument'
        return [] if ok else [('spec', f"{a!r}, specified {x['names'] if x['good'] else 'to be refused'}")]
    for s, a, d in answers(ctx, exe, list(tspec), judge2, command=lambda s: ('spec', s)):
        ctx.violation(f'type specification {s!r}: {d[0][1]}', {'spec': s, 'specified': tspec[s], 'got': a})
    # instructions are equal when name and operand types are, and print as both
    good = [''] + [s for s in tspec if tspec[s]['good']]
    tspec['']= {'good': True, 'names': []}
    pairs = []
    for _ in range(4000 if q else 30000):
        a, b = rnd.choice(good), rnd.choice(good)
        b = rnd.choice([a, a, b, a[:-1], a[::-1]])
        n, m = rnd.choice([('X', 'X'), ('X', 'x'), ('', ''), ('X', 'XX'), ('CNOT', 'CNOT')])
        pairs.append((n, a, m, b))

    def judge3(x, a):
        n, s, m, t = x
        eq = n == m and tspec[s]['names'] == tspec[t]['names']
        want = {'str': f"{n}({', '.join(tspec[s]['names'])})", 'eq': eq, 'ne': not eq}
        return [] if a == want else [('instruction', f'{a}, specified {want}')]
    for x, a, d in answers(ctx, exe, list(dict.fromkeys(pairs)), judge3, command=lambda x: ('insobj', x[0], '1', x[1], x[2], '1', x[3])):
        ctx.violation(f'instructions {x[0]}({x[1]}) and {x[2]}({x[3]}): {d[0][1]}', {'pair': x, 'got': a})
    ctx.sample({'values': pool[:8]})
    ctx.sample({'type specifications': list(tspec)[:8]})
    return ['promotion of dynamic booleans and integers to float is not specified (no program has such values)']


CHECKS = {'C22': c22, 'C24': c24}
