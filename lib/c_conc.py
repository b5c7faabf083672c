"""C30: analyses do not influence each other (Concurrent.tla); every history in a process of its own, under the thread sanitizer."""
import glob
import itertools
import os
import re
import subprocess

import gen
import oracle
from c_lang import P, pick, with_build
from frame import inv

CFG = inv('CSpec', ['NoInfluence', 'TableInTime', 'OneAtATime'], ['TableIsCreatedOnce', 'OthersStay', 'AllReturn'])
TSAN = ('-O1', '-g1', '-fsanitize=thread')
ASKED = 'truefalsefalse-' 'truefalsefalsef' 'falsetruefalsei' 'falsefalsetruef'
SETS = [
    # short, different in outcome
    [P + 'qubit q; X q', P + 'X q; qubit q', 'version 3.0; qubit', 'version 3.1', P + 'qubit[2] a; bit[2] q; q = measure a; CNOT a[0], a[1]', P + 'qubit q; Rx(sin(pi / 4) ** 2) q'],
    # the same names for other things
    [P + 'qubit a; X a', P + 'bit a; X a', P + 'qubit[3] a; X a', P + 'qubit[2] a; X a[2]', P + 'X a', P + 'qubit a; qubit a'],
    # every phase of the analysis
    [P + "qubit[4] q; ctrl.pow(1/2).inv.Ry(tau) q[0], q[3]\nasm(B) '''x'''", P + 'qubit q; wait(1 < 2 ? 3 : 4 % 3) q; CRk(2) q, q; init q', P + 'qubit[3] q; wait(1/0) q; X q[5]; Foo q; CNOT q, q[0:1]; Rx(true, 1) q; reset', "version 3\n/* é */ qubit[2] é", P + 'wait(max(1, 2)) q; ' + 'bit b; ' * 3, P + 'qubit q; wait(abs(-3)) q; barrier q'],
]


def scripts(ctx, n, how):
    """scripts over n texts, numbered from 1: threads, their calls, the alternatives of a call"""
    rnd, q = ctx.rnd, ctx.quick
    alt = lambda xs, hs: [{'x': x, 'how': h} for x in xs for h in hs]  # noqa: E731
    base = range(1, n + 1)
    out = []
    for group in range(0, n, 6):
        g = [x for x in base if group < x <= group + 6]
        some = rnd.sample(g, min(len(g), 2 if q else 3))
        out.append([[alt(g, ['own'])] * 2])                                          # one after another, in one thread
        out.append([[alt(some, ['own', 'shared'])] * 3])
        out.append([[alt(g, ['own'])]] * 2)                                          # two threads, one call each
        out.append([[alt(some[:1], how)]] * 2)
        out.append([[alt(some[1:2], ['shared', 'read'])]] * 2)
        out.append([[alt(some[:1], ['own'])], [alt(some[1:2], ['own'])], [alt(some[:1], ['file'])]])
        out.append([[alt(some[1:2], ['own'])] * 2, [alt(some[:1], ['own'])] * 2])
        if not q:
            out.append([[alt(g, ['own'])] * 3])
            out.append([[alt(g, how)]] * 2)
            out.append([[alt(some, ['own'])]] * 3)
            out.append([[alt(some[:2], ['own', 'shared'])] * 2] * 2)
    return out


TWINS = [('qubit q; Rx(sin(0.5)) q', 'qubit q; Rx(sin(0.50000001)) q'), ('qubit q; wait(4611686018427387904 - 1) q', 'qubit q; wait(4611686018427387905 - 1) q'), ('qubit q; Rx(0.1 + 0.2) q', 'qubit q; Rx(0.1 + 0.20000000001) q'), ('qubit q; wait(abs(1)) q', 'qubit q; wait(abs(1.0)) q'),
         ('qubit q; Rx(1 / 2) q', 'qubit q; Rx(1.0 / 2) q'), ('qubit q; Rx(0.0 * 1) q', 'qubit q; Rx(-0.0 * 1) q'), ('qubit q; Rx(true + 1) q', 'qubit q; Rx(1 + 1) q'), ('qubit q; Rx(-pi) q', 'qubit q; Rx(-3.14159) q'), ('qubit[2] q; X q[0, 1]', 'qubit[2] q; X q[1, 0]'), ('qubit[3] q; X q[0:1]', 'qubit[2] q; X q[0:1]'),
         ('qubit[2] q; X q[1]', 'qubit q; X q[1]'), ('qubit pi2; Rx(pi) pi2', 'qubit pi2; Rx(pi2) pi2'), ('bit b; qubit q; b = measure q', 'qubit b; bit q; b = measure q'), ('qubit q; ctrl.X q, q', 'qubit q; ctrl.CNOT q, q'), ('qubit q; inv.Rx(1) q', 'qubit q; inv.Rx(1) q, q'), ('qubit q; ctrl.inv.X q, q', 'qubit q; inv.ctrl.X q, q'),
         ("asm(A) '''x'''", "asm(A) '''x '''"), ('qubit q; X q // é', 'qubit q; X Q // e'), ('qubit q; sin(1) q', 'qubit q; Rx(sin(1)) q'), ('qubit q; pow(2).X q', 'qubit q; pow(3).X q'), ('qubit q; U(1, 2, 3) q', 'qubit q; U(1, 2) q'), ('qubit q; wait(9223372036854775807) q', 'qubit q; wait(9223372036854775808) q')]


def twins(rnd, count):
    """pairs of programs that are nearly the same"""
    g = gen.Gen(rnd)
    out = [(P + a, P + b) for a, b in TWINS]
    out += [(b, a) for a, b in out]
    while len(out) < count:
        a = g.program()
        spots = list(re.finditer(r'\d+\.?\d*|\b[A-Za-z]\w*\b', a))[2:]
        if not spots:
            continue
        m = rnd.choice(spots)
        w = m[0]
        if w[0].isdigit():
            n = rnd.choice([str(int(float(w)) + rnd.choice([1, -1])).lstrip('-'), w + '0', (w if '.' in w else w + '.') + '00000001', w + '.0', '(' + w + ')'])
        else:
            n = rnd.choice([w.swapcase(), w + 'x', w[:-1] or 'z', 'X', 'Y', 'q', 'b', 'bit', 'qubit'])
        b = a[:m.start()] + n + a[m.end():]
        if a != b:
            out.append((a, b))
    return out[:count] if count >= 2 * len(TWINS) else out


def runnable(exe, scratch):
    """how executables with the thread sanitizer start here: prefix of the command, None when they do not"""
    for prefix in ([], ['setarch', '-R']):
        p = subprocess.run([*prefix, exe], input=b'parse 3 0 1 0\n0\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        if b'perr' in p.stdout:
            return prefix
    return None


def c30(ctx):
    g = gen.Gen(ctx.rnd)
    texts = [t for s in SETS for t in s] + ([] if ctx.quick else [g.program() for _ in range(24)])
    src = [t.encode() for t in texts]
    how = ['own', 'shared', 'read', 'file']
    os.environ['TSAN_OPTIONS'] = f'halt_on_error=1:exitcode=66:log_path={ctx.scratch}/race:suppressions={ctx.scratch}/known'
    with open(f'{ctx.scratch}/known', 'w') as f:      # caches within the C++ library's locale facets
        f.write('race:std::ctype<*>::narrow\nrace:std::ctype<*>::widen\nrace:std::ctype<*>::_M_\n')

    def work():
        exps, r = oracle.reports(src, ctx.scratch)
        ctx.count(r)
        reports = []
        sc = scripts(ctx, len(src), how)
        for k in range(0, len(sc), 12):
            reports += ctx.tlc('Concurrent', CFG, {'SCRIPTS': ctx.file(sc[k:k + 12]), 'TEXTS': ctx.file([list(t) for t in src])}).reports
        # nearly the same program, before and after
        ps = twins(ctx.rnd, 110 if ctx.quick else 800)
        for k in range(0, len(ps), 60):
            part = list(dict.fromkeys(t for p in ps[k:k + 60] for t in p))
            at = {t: i + 1 for i, t in enumerate(part)}
            data = [t.encode() for t in part]
            more, r = oracle.reports(data, ctx.scratch)
            ctx.count(r)
            own = lambda t: [{'x': at[t], 'how': 'own'}]  # noqa: E731
            found = ctx.tlc('Concurrent', CFG, {'SCRIPTS': ctx.file([[[own(a), own(b), own(a)]] for a, b in ps[k:k + 60]]), 'TEXTS': ctx.file([list(t) for t in data])}).reports
            for h in found:
                for e in h['events']:
                    e['x'] += len(src)
            reports += found
            src.extend(data)
            texts.extend(part)
            exps += more
        return [oracle.expectation(e) for e in exps], list({str(h['events']): h for h in reports}.values())
    exe, (exps, reps) = with_build(ctx, work, opt=TSAN, parts=('THREADS',))
    prefix = runnable(exe, ctx.scratch)
    if prefix is None:
        exe, prefix = ctx.full(parts=('THREADS',), name='plain'), []
    ctx.notes['data races'] = 'watched by the thread sanitizer' if exe.endswith('full') else 'not watched: the thread sanitizer does not start here'
    if prefix:
        with open(f'{ctx.scratch}/start', 'w') as f:
            f.write(f'#!/bin/sh\nexec {" ".join(prefix)} {exe}\n')
        os.chmod(f'{ctx.scratch}/start', 0o755)
        exe = f'{ctx.scratch}/start'
    seen = {}

    def one(d, h):
        where = f'{ctx.scratch}/h{os.getpid()}'
        os.makedirs(where, exist_ok=True)
        args = ['threads', str(max(e['t'] for e in h['events'])), '3', where]
        for e in h['events']:
            args += [e['e'], str(e['t'])] + ([e['how'], src[e['x'] - 1]] if e['e'] == 'begin' else [])
        a = d.ask(*args)
        if 'hang' in a:
            a = d.ask(*args)
        d.stop()
        if 'answers' not in a:
            return f'{str(a)[:300]}{race(ctx.scratch) if a.get("crash") == "exit 66" else ""}', None
        bad, all_forms = [], []
        for e, got in zip([e for e in h['events'] if e['e'] == 'return'], a['answers']):
            if len(got) != 1:
                bad.append(f'{texts[e["x"] - 1]!r}: {len(got)} different answers')
            for x in got:
                diff = oracle.differences(exps[e['x'] - 1], x)
                bad += [f'{texts[e["x"] - 1]!r} ({e["how"]}): {k}: {t}' for k, t in diff]
                if x.get('asked', ASKED) != ASKED:
                    bad.append(f'the instruction table answers {x["asked"]}')
                all_forms.append((e['x'], e['how'], x.get('forms')))
        return ('; '.join(bad[:4]) if bad else None), all_forms
    for h, (bad, all_forms) in zip(reps, ctx.pmap(exe, one, reps, timeout=60.0, mem_gb=None)):
        if bad is None:
            for x, how1, f in all_forms:
                k = (x, how1 == 'file')
                if seen.setdefault(k, f) != f:
                    bad = f'{texts[x - 1]!r} ({how1}): the result is shown and written differently than in another history'
        if bad:
            ctx.violation(f'{shown(h)}: {bad}', {'history': h['events'], 'texts': {str(e['x']): texts[e['x'] - 1] for e in h['events']}, 'difference': bad})
    ctx.traces += len(reps)
    ctx.notes['histories'] = {'one thread': sum(1 for h in reps if all(e['t'] == 1 for e in h['events'])), 'several threads': sum(1 for h in reps if any(e['t'] > 1 for e in h['events']))}
    for h in pick(ctx, reps, 6):
        ctx.sample({'history': shown(h)})
    return ['within a call the operating system decides how threads interleave: races are found where two calls touch the same data without order, in whatever order they came',
            'the substitutes for the ANTLR runtime and tree-gen stand for the real ones']


def shown(h):
    return '; '.join(f"thread {e['t']} {e['e']}s" + (f" text {e['x']} ({e['how']})" if e['e'] == 'begin' else '') for e in h['events'])


def race(scratch):
    for f in sorted(glob.glob(f'{scratch}/race.*'))[:1]:
        lines = [x.rstrip() for x in open(f, errors='replace')]
        return '\n' + '\n'.join(itertools.islice((x for x in lines if '#' in x or 'WARNING' in x or ' of size ' in x), 30))
    return ''


CHECKS = {'C30': c30}
