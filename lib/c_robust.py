"""C26: whatever the input, an answer (Robust.tla); the library is built with sanitizers."""
import re

from big import any_of
import gen
import norm
import oracle
from c_lang import P, fam, pick, texts, with_build
from frame import REPO, inv

CFG = inv('RSpec', ['NeverStuck', 'OneOutcome', 'SpecInvariant'], ['Ends', 'ErrorsOnlyGrow', 'SameSource'])
SAN = ('-O0', '-g0', '-fsanitize=address,bounds,null,return,unreachable,vptr,integer-divide-by-zero', '-fno-sanitize-recover=all')
# well-formed and malformed sequences of bytes, as texts see them
PIECES = [b'\x00', b'\x01', b'\x0b', b'\x0c', b'\x7f', b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xc2\x80', b'\xc3\xa9', b'\xdf\xbf', b'\xe0\x80\x80', b'\xe0\xa0\x80', b'\xe2\x82', b'\xed\x9f\xbf',
          b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xef\xbb\xbf', b'\xef\xbf\xbf', b'\xf0\x80\x80\x80', b'\xf0\x90\x80\x80', b'\xf0\x9f\x98', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xfe', b'\xff',
          b'\r', b'\n', b'\t', b' ', b'"', b"'", b'\\', b'#', b'@', b'%', b'%s%n', b'{}', b'{0}', b'$']
PLACES = [(b'', b''), (b'', b'version 3.0'), (b'version', b'3.0'), (b'version 3', b'.0'), (b'version 3.0', b''), (b'version 3.0;', b'\nqubit q'), (b'version 3.0; qubit q', b''), (b'version 3.0; qubit q', b'; X q'), (b'version 3.0; X ', b' q'),
          (b'version 3.0 //', b'\nqubit q'), (b'version 3.0 /* ', b' */; X q'), (b"version 3.0; asm(B) '''", b"'''"), (b'version 3.0; asm(', b") ''''''"), (b'version 3.0; Rx(1', b') q')]
NEST = [('(', '1', ')'), ('-', '1', ''), ('!', 'true', ''), ('sin(', '1', ')'), ('1 ** ', '2', ''), ('true ? 1 : ', '0', ''), ('1 - (', '1', ')'), ('(', '1', ''), ('', '1', ')'), ('q[', '0', ']'), ('abs(', '', ')'), ('1 + ', '1', '')]


def judge(exp, a):
    if 'crash' in a or 'hang' in a or 'exc' in a:
        return [str(a)[:600]]
    out = [t for k, t in oracle.differences(exp, a) if k in ('crash', 'syntax', 'outcome', 'root', 'errors')]
    for e in a['perr'] + a['aerr']:
        try:
            norm.err_parts(e)
        except (ValueError, KeyError) as x:
            out.append(f"the error {e['what']!r} has no valid JSON form: {x}")
    if not a['aerr'] and not (a['hasroot'] and a['wf'] and a['sem'] is not None):
        out.append('neither errors nor a well-formed result')
    if bool(a['perr']) == (a['ast'] is not None):
        out.append('not exactly one of parse errors and syntax tree')
    return out


def c26(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    progs = ["version 3.0\nqubit[5] q; bit[5] b\nctrl.pow(-1/2).inv.Rx(sin(pi) ** 2) q[0], q[1:2, 3]\nb[0:2] = measure q[2, 0, 1] // é\nwait(1 < 2 ? 3 : 4) q\nasm(B) '''x\n'''; reset; barrier q[0]",
             'version 3;bit x;qubit y; x = measure(1, 0., .5e1) y; /* a\n*/ CRk(2) y, y; init y; qubit[2] x'] + [g.program() for _ in range(0 if q else 60)]
    prefixes = [p[:i] for p in progs for i in range(len(p) + 1)]
    suffixes = [p[i:] for p in progs for i in range(len(p))]
    cuts = [p[:i] + p[i + 1:] for p in progs for i in range(len(p))]

    def soup():
        ws = ['version 3.0', ';', '\n', 'qubit q', 'bit[2] b', 'q', 'b', '=', 'measure', 'X', 'CNOT', 'Rx', '(', ')', '[', ']', ',', ':', '.', 'inv.', 'ctrl.', 'pow', 'wait', 'asm', "'''", '1', '2.5', 'true', 'pi', '-', '!', '+', '**', '?', ':', '/*', '*/', '//', 'reset', 'barrier', 'é', '\x00']
        return 'version 3.0;' + ' '.join(rnd.choice(ws) for _ in range(rnd.randint(1, 14)))

    def damaged(b):
        b = bytearray(b)
        for _ in range(rnd.randint(1, 4)):
            k, i = rnd.random(), rnd.randrange(len(b) + 1)
            if k < .5 and i < len(b):
                b[i] ^= 1 << rnd.randrange(8)
            elif k < .8:
                b[i:i] = rnd.choice(PIECES)
            else:
                del b[i:i + rnd.randint(1, 3)]
        return bytes(b)
    big = 400 if q else 3000
    depth = (1, 2, 7, 15) if q else (1, 2, 3, 7, 20, 40, 80)
    F = [[[a], [p for p in PIECES], [b]] for a, b in PLACES] if q else [[[a], [p for p in PIECES] + [bytes([i]) for i in range(256)], [b'', *PIECES[:30]], [b]] for a, b in PLACES]
    F += [texts(bytes([i]) for i in range(256)), texts(bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 12))) for _ in range(400 if q else 5000))]
    F += [texts(prefixes), texts(pick(ctx, suffixes, 100) if q else suffixes), texts(pick(ctx, cuts, 150) if q else cuts), texts(any_of(rnd, 60 if q else 400))]
    F += [texts(soup() for _ in range(600 if q else 8000)), texts(g.mutate(g.mutate(g.program())) for _ in range(600 if q else 8000)),
          texts(damaged(rnd.choice(gen.corpus(REPO) or [P.encode()]) if rnd.random() < .5 else g.program().encode()) for _ in range(600 if q else 8000))]
    F += [texts(f'{P}qubit[9] q; {h}{a * n}{m}{c * n}{t}' for a, m, c in NEST for n in depth if a != 'q[' or n <= 7 for h, t in (('Rx(', ') q'), ('X q[', ']')) + ((('', ''), ('b = measure ', '')) if not q else ()))]
    F += [texts([P + 'qubit q; ' + 'inv.' * n + 'X q' for n in depth] + [P + 'qubit q; ' + 'X q;' * n for n in (big // 5, )] + [P + 'qubit q; CNOT ' + 'q, ' * n + 'q' for n in depth] + [P + 'qubit[9] q; X q[' + '1, ' * n + '1]' for n in depth]
                + [P + 'qubit ' + 'a' * big, P + 'qubit[' + '9' * 400 + '] q', P + 'Rx(' + '9' * 400 + '.0) q', 'version ' + '3.' * 200 + '0', 'version ' + '9' * 100, P + 'Rx(1.0e' + '9' * 50 + ') q', P + ';' * big, P + '\n' * big, P + '/*' * big, P + "'" * 301])]
    F += [fam(P, 'qubit[3] q; bit[3] b; qubit s; wait(', [f'{a} {o} {b}' for a in ('-9223372036854775807-1', '9223372036854775807', '0', '-1', '1.5', 'true', 's', 'q') for b in ('-1', '0', '64', '-(9223372036854775807)', '0.0', 'false', 'b') for o in (gen.BINOPS if not q else ['/', '%', '<<', '**', '-', '=='])], ') q')]
    F += [fam(P, ['qubit[3] q; X ', 'bit[2] b; b = measure ', 'wait(1) ', 'pow(', 'asm(B) ', 'Rx(1)(2) ', 'reset ', 'qubit['], ['q', 'q[3]', 'q[-1]', 'q[1:0]', 'q[q]', 'q[1.5]', 'pi', 'pi[0]', 'sin', '3[1]', 'q[0][0]', 'q()', '-q', 'q[0:]', 'q[]', '(q)', 'true ? q : q', '!b', '9223372036854775807', '-1', '0', ''], ['', ').X q', '] q', ' q'])]

    def work():
        # the texts are deterministic once written: the graph is a forest, and small enough for the temporal properties
        reps = {}
        fs = [f for f in F if f and all(f)]
        for k in range(0, len(fs), 6):
            r = ctx.tlc('Robust', CFG, {'FAMILIES': ctx.file([[[list(x) for x in s] for s in f] for f in fs[k:k + 6]])})
            reps.update((bytes(x.pop('src')), x) for x in r.reports)
        return reps
    exe, reps = with_build(ctx, work, opt=SAN, parts=('SER',))
    exps = {s: oracle.expectation(r) for s, r in reps.items()}
    # long ranges are written out one by one by the library (known finding of C13)
    skip = [s for s, e in exps.items() if e['outcome'] == 'undecided' and re.search(rb'\d{5}', s) and b':' in s]
    for s in skip:
        del exps[s]

    def one(d, s):
        def f():
            a = d.ask('analyze', s, '1' if len(s) % 2 else '0', '\xff%s{}\n')
            w = judge(exps[s], a)
            if not w and exps[s]['outcome'] in ('accepted', 'rejected'):
                b = d.ask('ser', s, '0', '')
                w = [f'serialization: {str(b)[:300]}'] if 'crash' in b or 'hang' in b or 'exc' in b else []
            return (w, a) if w else None
        return d.settle(f)
    items = list(exps)
    for s, r in zip(items, ctx.pmap(exe, one, items, timeout=60.0, mem_gb=None)):
        if r:
            ctx.violation(f'{s[:400]!r}: {r[0][0]}', {'source': s.decode('latin-1'), 'differences': r[0][:10], 'got': repr(r[1])[:5000]})
    ctx.traces += len(items)
    kinds = {}
    for s, e in exps.items():
        kinds[e['outcome']] = kinds.get(e['outcome'], 0) + 1
    ctx.notes['inputs'] = kinds
    for s in pick(ctx, items, 6):
        ctx.sample({'input': repr(s[:200]), 'specified': exps[s]['outcome']})
    return ['memory and stack suffice (nesting up to 15, thorough 80)', 'signed overflow and shifts outside 0..63 are not sanitized']


CHECKS = {'C26': c26}
