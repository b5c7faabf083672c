"""Brings reports of the specification and answers of the library to one form, and compares them."""
import json

import terms

LINKED = {'Variable': 'link'}
TYPEC = {'Qubit': 'Q', 'Bit': 'B', 'Bool': 'b', 'Int': 'i', 'Float': 'f', 'QubitArray': 'V', 'BitArray': 'W'}
SPECNAME = {'Q': 'qubit', 'B': 'bit', 'b': 'bool', 'i': 'int', 'f': 'float', 'V': 'qubit array', 'W': 'bit array'}


class Wild:
    def __repr__(self):
        return '*'


WILD = Wild()


class F:
    """a double, by its bits; all NaN are alike.  approx: the last bit is not specified."""

    def __init__(self, h, approx=False):
        self.h, self.approx = h, approx

    def __eq__(self, o):
        if not isinstance(o, F):
            return False
        if self.h == o.h or (terms.nan_hex(self.h) and terms.nan_hex(o.h)):
            return True
        return (self.approx or o.approx) and terms.ulps(self.h, o.h) <= 2

    def __repr__(self):
        return f'float:{self.h}'


def text(cs):
    return ''.join(map(chr, cs))


# ---- syntax trees -----------------------------------------------------------------
def spec_ast(n):
    """node of the specification -> node as the library dumps it, without file names"""
    k = n['k']
    o = {'@': k}
    if n['loc']:
        o['loc'] = n['loc']
    for f, v in n.items():
        if f in ('k', 'loc', 'sizeloc'):
            continue
        if f in ('gate', 'size', 'arguments') and isinstance(v, list):      # optional child
            o[f] = spec_ast(v[0]) if v else None
        elif f == 'value':
            o[f] = v if isinstance(v, bool) else F(terms.hexf(terms.strtod(text(v))[0])) if k == 'FloatLiteral' else {'i': str(int(text(v)))}
        elif k == 'Version' and f == 'items':
            o[f] = [{'i': str(int(text(i)))} for i in v]
        elif f == 'backend_code':
            o[f] = text(v)
        elif isinstance(v, dict):
            o[f] = spec_ast(v)
        elif isinstance(v, list):
            o[f] = [spec_ast(x) for x in v]
        else:
            o[f] = v
    return o


def impl_ast(n, files=None):
    if isinstance(n, list):
        return [impl_ast(x, files) for x in n]
    if not isinstance(n, dict):
        return n
    if 'f' in n and len(n) == 1:
        return F(n['f'])
    o = {}
    for f, v in n.items():
        if f == 'file':
            if files is not None:
                files.append(v)
            continue
        o[f] = impl_ast(v, files)
    return o


def locs_with_files(n, out):
    """(location, file) of every located node"""
    if isinstance(n, list):
        for x in n:
            locs_with_files(x, out)
    elif isinstance(n, dict):
        if 'loc' in n:
            out.append((n['loc'], n.get('file')))
        for v in n.values():
            locs_with_files(v, out)
    return out


def strip(n, keys=('loc',)):
    if isinstance(n, list):
        return [strip(x, keys) for x in n]
    if isinstance(n, dict):
        return {k: strip(v, keys) for k, v in n.items() if k not in keys}
    return n


# ---- semantic trees ----------------------------------------------------------------
def spec_value(v, vars_):
    o = {}
    if v['loc']:
        o['loc'] = v['loc']
    if v['c'] in ('b', 'i', 'f'):
        x = terms.ev(v['t'])
        o['@'] = {'b': 'ConstBool', 'i': 'ConstInt', 'f': 'ConstFloat'}[v['c']]
        if x is terms.ANY:
            o['value'] = WILD
        elif v['c'] == 'b':
            o['value'] = bool(x)
        elif v['c'] == 'i':
            o['value'] = {'i': str(int(x))}
        else:
            o['value'] = F(terms.hexf(float(x)))
    elif v['c'] == 'var':
        o['@'] = 'VariableRef'
        o['variable'] = {'link': vars_[v['x'] - 1]['name']}
    else:
        o['@'] = 'IndexRef'
        o['variable'] = {'link': vars_[v['x'] - 1]['name']}
        o['indices'] = [{'@': 'ConstInt', 'value': {'i': i}} for i in v['ix']]
    return o


def spec_gate(g, vs):
    return {'@': 'Gate', **({'loc': g['loc']} if g['loc'] else {}), 'name': g['name'], 'gate': spec_gate(g['gate'][0], vs) if g['gate'] else None,
            'parameters': [spec_value(v, vs) for v in g['parameters']], 'annotations': []}


def ref(name, types):
    return f"{name}({', '.join(SPECNAME[c] for c in types)})"


def spec_stmt(s, vs):
    loc = {'loc': s['loc']} if s['loc'] else {}
    if s['k'] == 'gate':
        return {'@': 'GateInstruction', **loc, 'instruction_ref': ref(s['name'], s['types']), 'gate': spec_gate(s['gate'], vs),
                'operands': [spec_value(v, vs) for v in s['operands']], 'annotations': []}
    if s['k'] == 'nongate':
        return {'@': 'NonGateInstruction', **loc, 'instruction_ref': ref(s['name'], s['types']), 'name': s['name'],
                'operands': [spec_value(v, vs) for v in s['operands']], 'parameters': [spec_value(v, vs) for v in s['parameters']], 'annotations': []}
    return {'@': 'AsmDeclaration', **loc, 'backend_name': s['name'], 'backend_code': text(s['code']), 'annotations': []}


CLASS = {v: k for k, v in TYPEC.items()}


def spec_sem(s, ast_version, arena=None, api=('3', '0')):
    vs = arena or s['vars']
    return {'@': 'Program', 'api_version': [{'i': x} for x in api],
            'version': {'@': 'Version', **({'loc': ast_version['loc']} if ast_version['loc'] else {}), 'items': [{'i': i} for i in s['version']]},
            'block': {'@': 'Block', **({'loc': s['loc']} if s['loc'] else {}), 'statements': [spec_stmt(x, vs) for x in s['stmts']]},
            'variables': [{'@': 'Variable', 'name': v['name'], 'typ': {'@': CLASS[v['typ']], 'size': {'i': v['size']}}, 'annotations': []} for v in s['vars']]}


# ---- comparison --------------------------------------------------------------------
def diff(a, b, path=''):
    """paths at which b (library) differs from a (specification)"""
    if a is WILD or b is WILD:
        return []
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append((f'{path}.{k}', None, b[k]))
            elif k not in b:
                out.append((f'{path}.{k}', a[k], None))
            else:
                out += diff(a[k], b[k], f'{path}.{k}')
        return out
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return [(path + '.#', len(a), len(b))]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, f'{path}[{i}]')
        return out
    if isinstance(a, bool) != isinstance(b, bool) or a != b:
        return [(path, a, b)]
    return []


def err_parts(e):
    """location (or []) and message of an error of the library, from its JSON form"""
    j = json.loads(e['json'])
    r = j['range']
    loc = [r['start']['line'], r['start']['character'], r['end']['line'], r['end']['character']]
    return ([] if loc == [0, 0, 0, 0] else loc), j['message']


def mentions(msg, names):
    """all names occur in the message, in order and as whole words"""
    p = 0
    for n in names:
        while True:
            q = msg.find(n, p)
            if q < 0:
                return False
            before, after = msg[q - 1:q], msg[q + len(n):q + len(n) + 1]
            word = lambda c: c.isalnum() or c == '_'
            if (word(n[0]) and word(before or ' ')) or (word(n[-1]) and word(after or ' ')):
                p = q + 1
                continue
            p = q + len(n)
            break
    return True
