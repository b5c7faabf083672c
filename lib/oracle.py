"""Expected answers, from behaviours of the specification, and their comparison with the library's."""
import json
import os
import tempfile

import norm
import terms
import tlc

CFG = '''SPECIFICATION PSpec
INVARIANT SpecInvariant
PROPERTY ErrorsOnlyGrow
PROPERTY SameSource
CHECK_DEADLOCK FALSE
'''


def explore(families, scratch, budget=20000, **kw):
    """families: [[slot, ...], ...], a slot being a list of texts (bytes).  Every program of every family, written and
    analysed by behaviours of the specification: ({source: report}, run of TLC)"""
    total = tlc.Run()
    out = {}
    batch, weight = [], 0
    for f in families + [None]:
        w = 0
        if f is not None:
            w = 1
            for s in f:
                w *= len(s)
        if batch and (f is None or weight + w > budget):
            fd, path = tempfile.mkstemp(suffix='.json', dir=scratch)
            with os.fdopen(fd, 'w') as h:
                json.dump([[[list(x) for x in s] for s in g] for g in batch], h)
            r = tlc.run('Programs', CFG, {'FAMILIES': path}, scratch, **kw)
            os.unlink(path)
            for x in r.reports:
                out[bytes(x.pop('src'))] = x
            r.reports = []
            total.add(r)
            batch, weight = [], 0
        if f is not None:
            batch.append(f)
            weight += w
    return out, total


def reports(sources, scratch, chunk=20000):
    """the specification's report for every source text (bytes), in order; and the run of TLC"""
    total = tlc.Run()
    out = []
    for k in range(0, len(sources), chunk):
        part = sources[k:k + chunk]
        by, r = explore([[list(dict.fromkeys(part))]], scratch, chunk + 1)
        out += [by[x] for x in part]
        total.add(r)
    return out, total


def expectation(rep):
    """outcome: parse-error (locs), undecided, rejected (errs), accepted (sem); ast where there is one"""
    o = rep['outcome']
    if o == 'encoding':
        return {'outcome': 'parse-error', 'why': 'encoding', 'locs': None}
    if o == 'syntax':
        return {'outcome': 'parse-error', 'why': 'syntax', 'locs': rep['locs']}
    bad = [f['loc'] for f in rep['floats'] if terms.strtod(f['v'])[1]]
    if o == 'range' or bad:
        return {'outcome': 'parse-error', 'why': 'range', 'locs': rep['locs'] + bad}
    e = {'outcome': o, 'ast': norm.spec_ast(rep['ast'][0])}
    if o == 'rejected':
        e['errs'] = rep['errs']
        e['kept'] = norm.spec_sem(rep['sem'][0], rep['ast'][0]['version'])['block']
    elif o == 'accepted':
        e['sem'] = norm.spec_sem(rep['sem'][0], rep['ast'][0]['version'])
    return e


def differences(exp, got):
    """[(aspect, detail)]: where the library's answer (driver's 'analyze') departs from the expectation.
    Aspects: crash, syntax, outcome, syntax-loc, ast, ast-loc, kept (what a result with errors holds), errors, error-loc, error-names, version, variables, statements, loc, root"""
    if 'crash' in got or 'hang' in got or 'exc' in got:
        return [('crash', str(got)[:300])]
    d = []
    pe = got['perr']
    if exp['outcome'] == 'parse-error':
        if not pe:
            return [('syntax', f"accepted by the parser; the specification expects a parse error ({exp['why']}) at {exp['locs']}")]
        if len(pe) != 1:
            d.append(('errors', f'{len(pe)} parse errors'))
        loc, _ = norm.err_parts(pe[0])
        if exp['locs'] is not None and loc not in exp['locs']:
            d.append(('syntax-loc', f"parse error at {loc}; the specification expects {exp['locs']}"))
        if exp['locs'] is None and loc:
            d.append(('syntax-loc', f'parse error at {loc}; the specification expects none'))
        if got['hasroot'] or got['ast'] is not None:
            d.append(('root', 'a root although the text does not parse'))
        if [e['json'] for e in got['aerr']] != [e['json'] for e in pe]:
            d.append(('errors', 'the analysis does not report the parse errors'))
        return d
    if pe:
        return [('syntax', f"parse error {pe[0]['what']!r}; the specification accepts the text")]
    ast = norm.impl_ast(got['ast'])
    for path, a, b in norm.diff(exp['ast'], ast):
        d.append(('ast-loc' if '.loc' in path else 'ast', f'{path}: {b!r}, specified {a!r}'))
    if exp['outcome'] == 'undecided':
        return d
    ae = got['aerr']
    if exp['outcome'] == 'rejected':
        if not ae:
            d.append(('outcome', f"analysed without errors; the specification expects {[e['kind'] for e in exp['errs']]}"))
            return d
        if not got['hasroot']:
            d.append(('root', 'no root with semantic errors'))
        if len(ae) != len(exp['errs']):
            d.append(('errors', f"{len(ae)} errors {[e['what'] for e in ae]}, specified {[(e['kind'], e['loc']) for e in exp['errs']]}"))
            return d
        for x, y in zip(exp['errs'], ae):
            loc, msg = norm.err_parts(y)
            if loc != x['loc']:
                d.append(('error-loc', f"{y['what']!r}: specified at {x['loc']} ({x['kind']})"))
            if not norm.mentions(msg, x['names']):
                d.append(('error-names', f"{y['what']!r}: specified to name {x['names']} ({x['kind']})"))
        for path, a, b in norm.diff(exp['kept'], norm.impl_ast(got['kept'])['block'] if got['kept'] else None):
            d.append(('kept', f'{path}: {b!r}, specified {a!r}'))
        return d
    if ae:
        d.append(('outcome', f"errors {[e['what'] for e in ae]}; the specification accepts the program"))
        return d
    if not got['hasroot'] or not got['wf']:
        d.append(('root', 'no well-formed root without errors'))
        return d
    for path, a, b in norm.diff(exp['sem'], norm.impl_ast(got['sem'])):
        asp = ('version' if path.startswith(('.version', '.api')) else 'variables' if path.startswith('.variables') else
               'loc' if '.loc' in path else 'statements')
        d.append((asp, f'{path}: {b!r}, specified {a!r}'))
    return d
