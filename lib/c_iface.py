"""C17: every public entry point is the same pipeline (Interface.tla)."""
import itertools
import json
import os
import re

from big import any_of
import gen
import norm
import oracle
from c_lang import P, fam, pick, texts, with_build
from frame import REPO, inv

CFG = inv('ISpec', ['OneAnswer', 'TreeOrErrors', 'AnalysisKeepsParseErrors', 'SpecInvariant'], ['AskingChangesNothing', 'ErrorsOnlyGrow'])
UNKNOWN = '<unknown file name>'
LOC = re.compile(r'"source_location":"((?:[^"\\]|\\.)*?):\d+:\d+(?:\.\.[\d:]+)?"')
TAILS = ['', 'X nope', 'X nope; qubit[0] z; Rx(1/0) q', 'X', 'Rx(', '@', 'H q; CNOT q, v[0,1]; b = measure v', "asm(B) '''é \n'''", '\x00', 'wait(1.5) q', 'qubit q']
NAMES = ['', 'x', '0', 'a.cq', 'dir/b c.cq', 'é%.cq', 'x:1:2', '<unknown file name>x']


def raw(j):
    """JSON text of the library; the driver shows bytes as latin-1"""
    return json.loads(j.encode('latin-1'))


def plain_error(e, file):
    """text and JSON of an error with its file name taken out; None where it does not carry the given one"""
    j = raw(e['json'])
    loc, _ = norm.err_parts(e)
    rel = j.pop('relatedInformation', None)
    what = e['what']
    if loc:
        head = f'Error at {file or UNKNOWN}:'
        if not what.startswith(head) or (rel is not None) != bool(file):
            return None
        what = 'Error at @:' + what[len(head):]
    return what, j


class Judge:
    def __init__(self, exp, a, file, path, ser):
        self.exp, self.a, self.file, self.path, self.ser = exp, a, file, path, ser
        self.out, self.base, self.json = [], {}, {}

    def say(self, e, text):
        self.out.append(f"{e['n']}: {text}"[:600])

    def named(self, text, name):
        return text.replace('Error at @:', f'Error at {name or UNKNOWN}:')

    def entry(self, e):
        x = self.a.get(e['n'])
        count = e['errors']
        if self.exp['outcome'] == 'parse-error':      # also literals that only host arithmetic finds out of range
            count = 1
            if e['form'] == 'tree':
                return
        if e['skipped']:
            return
        name = {'given': self.file or None, 'path': self.path, 'none': None}[e['file']]
        if isinstance(x, dict) and x.get('exc') not in (None, 'AnalysisFailed'):
            return self.say(e, x)
        getattr(self, {'tree': 'result'}.get(e['form'], e['form']))(e, x, name, count)

    def result(self, e, x, name, count):
        stage = e['stage']
        es = x['perr' if stage == 'parse' else 'aerr']
        if count >= 0 and len(es) != count:
            return self.say(e, f'{len(es)} errors, specified {count}')
        pe = [plain_error(y, name) for y in es]
        if None in pe:
            return self.say(e, f'{es[pe.index(None)]} does not carry the file name {name!r}')
        tree = None if es else x['ast' if stage == 'parse' else 'sem']
        if not es and not isinstance(tree, dict):
            return self.say(e, 'neither errors nor a tree')
        wrong = [y for y in norm.locs_with_files(tree, []) if y[1] != name]
        if wrong:
            self.say(e, f'location {wrong[0]} does not carry the file name {name!r}')
        got = {'errors': pe, 'tree': norm.impl_ast(tree)}
        want = self.base.setdefault(stage, got)
        for p, b, c in norm.diff(want, got)[:1]:
            self.say(e, f'differs from the other entry points at {p}: {c!r} instead of {b!r}')
        self.strings(e, x['strs'], name, count)
        self.json_(e, x['js'], name)

    def strings(self, e, x, name, count):
        want = self.base.get(e['stage'])
        if want is None:
            return
        if want['errors']:
            w = [''] + [self.named(y[0], name) for y in want['errors']]
            if x != w:
                self.say(e, f'strings {x}, specified {w}')
        elif len(x) != 1 or not x[0]:
            self.say(e, f'{len(x)} strings, specified the serialized tree alone')
        elif self.ser.get('ast' if e['stage'] == 'parse' else 'sem', {}).get('hex') != x[0].encode('latin-1').hex():
            self.say(e, 'the string is not the serialized tree')

    def json_(self, e, x, name):
        want = self.base.get(e['stage'])
        if want is None:
            return
        try:
            j = raw(x)
        except ValueError:
            return self.say(e, f'not JSON: {x!r}')
        if not want['errors']:
            if list(j) != ['Program']:
                return self.say(e, f'{x}, specified a program')
            wrong = {m[1] for m in LOC.finditer(x)} - {name or UNKNOWN}
            if wrong:
                self.say(e, f'the JSON tree carries the file name {wrong.pop()!r}, specified {name!r}')
            t = re.sub(r'"source_location":"(.*?):(\d+:\d+(?:\.\.[\d:]+)?)"', r'"source_location":"\2"', x)
            if self.json.setdefault(e['stage'], t) != t:
                self.say(e, 'the JSON tree differs from that of the other entry points')
            return
        if list(j) != ['errors']:
            return self.say(e, f'{x}, specified errors')
        for y in j['errors']:
            rel = y.pop('relatedInformation', None)
            if (rel is not None) != bool(name) and y['range']['start'] != {'line': 0, 'character': 0}:
                self.say(e, f'{x} does not carry the file name {name!r}')
        if j['errors'] != [y[1] for y in want['errors']]:
            self.say(e, f"{x}, specified {[y[1] for y in want['errors']]}")

    def root(self, e, x, name, count):
        want = self.base.get(e['stage'])
        if want is None:
            return
        if want['errors']:
            if e['n'] == 'unwrap':
                text = '\n'.join(self.named(y[0], name) for y in want['errors'])
                if 'failed' not in x or x['out'] != text:
                    self.say(e, f'{x}, specified to fail and print {text!r}')
            elif x.get('exc') != 'AnalysisFailed':
                self.say(e, f'{x}, specified to fail')
        else:
            t = x if e['n'] != 'unwrap' else x.get('root')
            if not isinstance(t, dict) or 'exc' in t or norm.diff(want['tree'], norm.impl_ast(t)) or (e['n'] == 'unwrap' and x['out']):
                self.say(e, f'{x}, specified the tree of the program')
            elif [y for y in norm.locs_with_files(t, []) if y[1] != name]:
                self.say(e, f'a location does not carry the file name {name!r}')



def judge(exp, entries, a, file, path, ser):
    j = Judge(exp, a, file, path, ser)
    for e in entries:
        if e['form'] == 'json':
            x = a.get(e['n'])
            if isinstance(x, dict):
                j.say(e, x)
            else:
                j.json_(e, x, {'given': file or None, 'path': path, 'none': None}[e['file']])
        else:
            j.entry(e)
    # the result itself is the specified one
    if not j.out:
        both = {'perr': a['parse_string']['perr'], 'ast': a['parse_string']['ast'], **{k: a['analyze_parsed'].get(k) for k in ('aerr', 'hasroot', 'wf', 'sem', 'kept')}}
        j.out += [f'{k}: {t}' for k, t in oracle.differences(exp, both)]
    for n in ('missing_file', 'missing_file_analyze'):
        if a[n].get('exc') != 'Error' or path not in a[n]['msg']:
            j.out.append(f'{n}: {a[n]}, specified an error that names the file')
    return j.out


def wrapper(ctx, ans, outs):
    """The Python class hands over what the C++ class answers: trees read from exactly its bytes, errors as they are, JSON untouched.
    outs: per program, the raw answers of the C++ class by method"""
    jobs = []
    for k, (s, o) in enumerate(outs):
        for kind in ('string', 'file'):
            for stage in ('parse', 'analyze'):
                for form in ('', '_to_json'):
                    x = o[f'v3x_{stage}_{kind}' + ('_json' if form else '')]
                    if isinstance(x, dict):
                        continue
                    args = ['p.cq'] if kind == 'file' else [s.decode('latin-1')] if k % 3 == 0 else [s.decode('latin-1'), NAMES[k % len(NAMES)]]
                    jobs.append((s, {'op': 'wrap', 'method': f'{stage}_{kind}{form}', 'static': stage == 'parse', 'args': args,
                                     'ret': x.encode('latin-1').hex() if form else [y.encode('latin-1').hex() for y in x]}))
    # answers that no program gives: whatever they are, they are handed over
    for errs in (['e', 'e'], ['a', 'b', 'a'], [''], ['', ''], ['x' * 70000], ['Error at é:1:2: \n'], [' e ', 'e'], ['\xff\xfe', '"'], [str(k % 7) for k in range(40)]):
        for kind, stage in itertools.product(('string', 'file'), ('parse', 'analyze')):
            jobs.append((b'', {'op': 'wrap', 'method': f'{stage}_{kind}', 'static': stage == 'parse', 'args': ['x'], 'ret': ['', *[y.encode('latin-1').hex() for y in errs]]}))
    for text, kind, stage in itertools.product(('', ' {} ', '{"errors":[1,1]}', 'é\xff\x00'), ('string', 'file'), ('parse', 'analyze')):
        jobs.append((b'', {'op': 'wrap', 'method': f'{stage}_{kind}_to_json', 'static': stage == 'parse', 'args': ['x'], 'ret': text.encode('latin-1').hex()}))

    def one(d, job):
        s, r = job
        a = d.ask(r)
        stage = 'ast' if r['static'] else 'sem'
        tree = isinstance(r['ret'], list) and len(r['ret']) == 1
        want = {'asked': [[r['method'], r['args']]], 'read': [[stage, r['ret'][0]]] if tree else [],
                'value': f'<{stage} tree>'.encode().hex() if tree else r['ret'][1:] if isinstance(r['ret'], list) else r['ret']}
        return [] if a == want else [f"Python Analyzer.{r['method']}: {str(a)[:400]}, specified {str(want)[:400]}"]
    for (s, r), w in zip(jobs, ctx.pmap(ctx.python(), one, jobs)):
        if w:
            ctx.violation(f'{s.decode("utf-8", "replace")!r}: {w[0]}', {'source': s.decode('latin-1'), 'request': r})
    ctx.traces += len(jobs)
    ctx.notes['calls of the Python class'] = len(jobs)


def c17(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    F = [fam(['version 3.0', 'version 3', 'version 3.1', 'version', ''] if not q else ['version 3.0', 'version 3.1', 'version'], [';', '\n', ''] if not q else ['\n', ''], ['qubit q; qubit[2] v; bit[2] b', ''], [';', '\n'], TAILS),
         texts([b'\xff', b'version 3.0;\xc3', b'', b'\xef\xbb\xbfversion 3.0', b'version 3.0\nX \xe9', b'version 3.0 // \xf0\x9f\x98\x80\nqubit q\r\n', b'version 3.0\x00']),
         texts((g.mutate(g.program()) if g.p(.3) else g.program()) for _ in range(700 if q else 5000)),
         texts(pick(ctx, gen.corpus(REPO), 90) if q else gen.corpus(REPO)),
         texts(any_of(rnd, 40 if q else 400))]

    def work():
        reps, ans = {}, {}
        r = ctx.tlc('Interface', CFG, {'FAMILIES': ctx.file([[[list(x) for x in s] for s in f] for f in F])})
        for x in r.reports:
            s = bytes(x.pop('src'))
            if 'answers' in x:
                ans[s] = x['answers']
            else:
                reps[s] = x
        return reps, ans
    exe, (reps, ans) = with_build(ctx, work, parts=('API', 'SER'))
    exps = {s: oracle.expectation(r) for s, r in reps.items()}
    items = [(s, NAMES[k % len(NAMES)]) for k, s in enumerate(ans)]

    def one(d, it):
        s, name = it
        file, path = name.encode().decode('latin-1'), f'{ctx.scratch}/p{os.getpid()}.cq'
        a = d.ask('api', s, file, path)
        if 'crash' in a or 'hang' in a or 'exc' in a:
            return [str(a)], a
        return judge(exps[s], ans[s], a, file, path, d.ask('ser', s, '0', '')), a

    def twice(d, it):
        last = []

        def f():
            last[:] = one(d, it)
            return last[0]
        d.settle(f)
        w, a = last
        return w, a if w else {k: v for k, v in a.items() if k.startswith('v3x')}
    res = ctx.pmap(exe, twice, items)
    ctx.traces += len(items)
    wrapper(ctx, ans, [(s, a) for (s, _), (w, a) in zip(items, res) if not w])
    for (s, name), r in zip(items, res):
        if r[0]:
            ctx.violation(f'{s.decode("utf-8", "replace")!r} with file name {name!r}: {r[0][0]}', {'source': s.decode('latin-1'), 'file': name, 'differences': r[0][:10], 'got': repr(r[1])[:5000]})
    ctx.notes['programs'] = len(ans)
    ctx.notes['calls'] = sum(len(x) for x in ans.values())
    for s in pick(ctx, list(ans), 4):
        ctx.sample({'program': s.decode('utf-8', 'replace')[:300], 'errors': {x['stage']: x['errors'] for x in ans[s]}})
    return ['the JSON and serialized forms of trees come from the generated tree classes (substitute generator)']


# ------------------------------------------------------------------ C18 serialization
SER_CFG = inv('PSpec', ['SpecInvariant', 'RoundTrip', 'LinksResolve', 'NothingLeft'], ['ErrorsOnlyGrow', 'SameSource'])


def refs(n):
    """instruction references as the library prints them, everywhere in a tree that Python read"""
    if isinstance(n, list):
        return [refs(x) for x in n]
    if isinstance(n, dict):
        if 'ref' in n:
            return norm.ref(n['ref'], [norm.TYPEC[t] for t in n['types']])
        return {k: refs(v) for k, v in n.items()}
    return n


def c18(ctx):
    rnd, q = ctx.rnd, ctx.quick
    g = gen.Gen(rnd)
    many = ', '.join(str(i) for i in range(30))
    F = [fam('version ', ['3', '3.0', '3.0.0', '3.0.0.0.0'], '\n', ['', 'qubit q', 'bit b', 'qubit[1] q', 'bit[3] b; qubit[2] v; qubit w; bit x', 'bool z']),
         fam(P, 'qubit[40] q; bit[40] b; qubit r\n', ['', 'X q', f'H q[{many}]'], ';', ['Rx(1.5) q[3]', 'ctrl.pow(-0.5).inv.Rn(1, 0, 0, 1e300, -1e-300) q, r', 'b[1:3] = measure q[2, 0, 5]', 'CRk(-3) q[0], q[39]', 'wait(9223372036854775807) r', 'init q; reset r; reset; barrier q[0:39]'], ';',
             ['b = measure q', 'pow(2).X q', 'Rz(' + '1/3' + ') r', "asm(Back) \'\'\'é \"\\ \x00 \n\'\'\'", "asm(Back) \'\'\'\'\'\'"]),
         fam(P, 'qubit q; Rx(', ['true', '0', '-0.0', '1e308*10.0', '-(1e308*10.0)', '1e308*10.0-1e308*10.0', '4.9406564584124654e-324', '0.1', '9007199254740993', '-9223372036854775807-1', 'sqrt(2)', '1 < 2 ? 3 : 4.5', '127', '128', '255', '256', '65535', '65536', '4294967295', '4294967296', '-24', '-25', '-256', '-257'], ') q'),
         fam(P, 'qubit q; wait(', ['23', '24', '255', '256', '65535', '65536', '4294967295', '4294967296', '9223372036854775807'], ') q'),
         fam(P, ['qubit q; wait(', 'qubit[2] q; CRk('], ['-', '- 1 - ', '7 % 5 + '], ['23', '24', '255', '256', '65535', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '4611686018427387904', '9223372036854775806'], [') q' , ') q[0], q[1]']),
         fam(P, 'qubit[2] q; CRk(', [f'{rnd.choice("- ")}({rnd.getrandbits(63) >> rnd.randint(0, 62)})' for _ in range(20 if q else 300)], ') q[0], q[1]'),
         fam(P, 'qubit q; U(', [repr(rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-300, 300)) for _ in range(12 if q else 200)], ', true ? 2 : 3, ', ['1.5', '1/3.0', '-(0.0)'], ') q'),
         fam(P, ['qubit ', 'qubit[300] '], ['a', 'a' * 23, 'a' * 24, 'b' * 255, 'c' * 256, 'd' * 257 if q else 'd' * 65536], ['', ' ; X a']),
         fam(P, 'f(', ['', '1', 'x[1:2, 3]', '!a, -b', '~a ** 2'], ') = 3'),
         fam(P, ['b = measure ', 'U(1, 2, 3) ', 'nope(1, x) '], ['q', 'q[1, 2:3]', 'q[a ? b : c]', 'q + 1', 'sin(q)']),
         texts(g.program() for _ in range(1500 if q else 6000)),
         texts(pick(ctx, gen.corpus(REPO), 120) if q else gen.corpus(REPO)),
         texts(any_of(rnd, 60 if q else 400))]

    def work():
        r = ctx.tlc('Serial', SER_CFG, {'FAMILIES': ctx.file([[[list(x) for x in s] for s in f] for f in F])})
        return {bytes(x.pop('src')): x for x in r.reports}
    exe, reps = with_build(ctx, work, parts=('SER',))
    exps = {s: e for s, e in ((s, oracle.expectation(r)) for s, r in reps.items()) if e['outcome'] in ('accepted', 'rejected')}
    files = ['', 'é/x.cq']

    def ask(d, s):
        return d.ask('ser', s, *(('1', files[1]) if len(s) % 2 else ('0', '')))

    def judge(s, a):
        if 'crash' in a or 'hang' in a or 'exc' in a or 'perr' in a:
            return [str(a)[:600]]
        out = []
        for part, want in (('ast', exps[s]['ast']), ('sem', exps[s].get('sem'))):
            if want is None:
                continue
            x = a.get(part)
            if not isinstance(x, dict) or 'exc' in x:
                out.append(f'{part}: {x}')
                continue
            for k in ('equals', 'wf'):
                if not x[k] and (part, k) != ('sem', 'equals'):     # links compare by identity
                    out.append(f'{part}: the tree read back is not {dict(equals="equal to", wf="well formed, unlike")[k]} the one written')
            if x['hex'] != x['hex2']:
                out.append(f'{part}: the tree read back is written differently')
            for p, v, w in norm.diff(norm.strip(want), norm.impl_ast(norm.strip(x['full2'], ('loc', 'file'))))[:3]:
                out.append(f'{part}: read back {p}: {w!r}, specified {v!r}')
        return out

    def one(d, s):
        last = []

        def f():
            a = ask(d, s)
            last[:] = [a, judge(s, a)]
            return last[1]
        d.settle(f)
        return last
    res = ctx.pmap(exe, one, exps)
    ctx.traces += len(exps)
    todo, bad = [], 0
    for s, (a, w) in zip(exps, res):
        if w:
            ctx.violation(f'{s.decode("utf-8", "replace")!r}: {w[0]}', {'source': s.decode('latin-1'), 'differences': w[:10]})
        for part, want in (('ast', exps[s]['ast']), ('sem', exps[s].get('sem'))):
            if want is not None and isinstance(a.get(part), dict) and 'hex' in a[part]:
                todo.append((s, part, want, a[part]['hex']))

    def python(d, it):
        s, part, want, h = it
        a = d.ask({'op': 'tree', 'kind': part, 'hex': h})
        if 'one' not in a:
            return [f'Python, {part}: {a}']
        out = []
        latin = lambda n: n.encode('utf-8', 'surrogateescape').decode('latin-1') if isinstance(n, str) else [latin(x) for x in n] if isinstance(n, list) else {k: latin(v) for k, v in n.items()} if isinstance(n, dict) else n
        for k, name in (('one', 'reads'), ('two', 'reads from its own serialization')):
            for p, v, w in norm.diff(norm.strip(want), latin(norm.impl_ast(refs(a[k]))))[:3]:
                out.append(f'Python {name} {part}{p}: {w!r}, specified {v!r}')
        if not a['same']:
            out.append(f'Python, {part}: the tree read back is written differently')
        return out
    for (s, part, want, h), w in zip(todo, ctx.pmap(ctx.python(), python, todo)):
        if w:
            ctx.violation(f'{s.decode("utf-8", "replace")!r}: {w[0]}', {'source': s.decode('latin-1'), 'serialized': h, 'differences': w})
    ctx.traces += len(todo)
    ctx.notes['programs'], ctx.notes['trees read in Python'] = len(exps), len(todo)
    for s in pick(ctx, list(exps), 4):
        ctx.sample({'program': s.decode('utf-8', 'replace')[:300], 'specified': exps[s]['outcome']})
    return ['the generated tree classes, in C++ and Python, are those of the substitute generator', 'Python writing for C++ to read is not specified (Python writes texts where C++ reads byte strings)']


CHECKS = {'C17': c17, 'C18': c18}
