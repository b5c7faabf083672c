"""The Python side: the repository's own Python modules over node classes made from its .tree files.

Usage: py_side.py REPO SUPPORT < requests > answers, one JSON per line.
  {"op": "tree", "kind": "ast"|"sem", "hex": ...}       the tree, and the tree after serializing and reading it again
  {"op": "wrap", "method": ..., "args": [...], "ret": ...}  a call of cqasm.v3x.Analyzer on a stand-in for the C++ class"""
import importlib.abc
import importlib.machinery
import json
import struct
import sys

sys.dont_write_bytecode = True
REPO, SUPPORT = sys.argv[1:3]
sys.path.insert(0, f'{SUPPORT}/treegen')
import treegen  # noqa: E402


# ---- CBOR, as far as trees need it
def head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for k, f in ((24, '>B'), (25, '>H'), (26, '>I'), (27, '>Q')):
        if n < 1 << 8 * struct.calcsize(f):
            return bytes([major << 5 | k]) + struct.pack(f, n)
    raise ValueError(n)


def enc(x):
    if x is None or isinstance(x, bool):
        return {None: b'\xf6', True: b'\xf5', False: b'\xf4'}[x]
    if isinstance(x, int):
        return head(0, x) if x >= 0 else head(1, -1 - x)
    if isinstance(x, float):
        return b'\xfb' + struct.pack('>d', x)
    if isinstance(x, str):
        b = x.encode()
        return head(3, len(b)) + b
    if isinstance(x, bytes):
        return head(2, len(x)) + x
    if isinstance(x, (list, tuple)):
        return head(4, len(x)) + b''.join(map(enc, x))
    if isinstance(x, dict):
        return head(5, len(x)) + b''.join(enc(k) + enc(v) for k, v in x.items())
    raise TypeError(type(x))


def dec(b, at=0):
    h = b[at]
    major, low = h >> 5, h & 31
    at += 1
    if major == 7:
        if low == 27:
            return struct.unpack('>d', b[at:at + 8])[0], at + 8
        if low == 31:
            return dec, at                      # break
        return {20: False, 21: True, 22: None}[low], at
    n = None
    if low < 24:
        n = low
    elif low < 28:
        k = 1 << (low - 24)
        n = int.from_bytes(b[at:at + k], 'big')
        at += k
    elif low != 31:
        raise ValueError(h)
    if major == 0:
        return n, at
    if major == 1:
        return -1 - n, at
    if major in (2, 3):
        v = bytes(b[at:at + n])
        if len(v) != n:
            raise ValueError('short')
        return (v if major == 2 else v.decode()), at + n
    out = []
    while n is None or len(out) < (n if major == 4 else 2 * n):
        v, at = dec(b, at)
        if v is dec:
            break
        out.append(v)
    return (out if major == 4 else dict(zip(out[::2], out[1::2]))), at


# ---- node classes
MODULES = {'ast': 'syntactic', 'semantic': 'semantic', 'types': 'types', 'values': 'values'}
TAG = {'Maybe': '?', 'One': '1', 'Any': '*', 'Many': '+', 'Link': '$', 'OptLink': '@'}


def primitive(typ):
    parts = typ.split('::')
    __import__('.'.join(parts[:-1]))
    return getattr(sys.modules['.'.join(parts[:-1])], parts[-1])


class Base:
    @classmethod
    def deserialize(cls, data):
        if isinstance(data, bytes):
            data, end = dec(data)
        nodes, links = {}, []
        root = cls._read(data, nodes, links)
        for node, name, to in links:
            node.__dict__[name] = nodes[to]
        return root

    @classmethod
    def _read(cls, d, nodes, links):
        import cqasm.v3x.primitives as prim
        here = cls.module[d['@t']]
        if not issubclass(here, cls):
            raise ValueError(f"{d['@t']} where {cls.__name__} is expected")
        n = here.__new__(here)
        nodes[d['@i']] = n
        for f in here.fields:
            v = d[f.name]
            if f.kind == 'Prim':
                n.__dict__[f.name] = prim.deserialize(primitive(f.typ), v)
                continue
            if v['@T'] != TAG[f.kind]:
                raise ValueError(f"edge {v['@T']} of {f.name}")
            if f.kind in ('Link', 'OptLink'):
                n.__dict__[f.name] = None
                if v['@l'] is not None:
                    links.append((n, f.name, v['@l']))
            elif f.kind in ('Any', 'Many'):
                n.__dict__[f.name] = [cls.of(f)._read(x, nodes, links) for x in v['@d']]
            else:
                n.__dict__[f.name] = None if v['@t'] is None else cls.of(f)._read(v, nodes, links)
        return n

    @classmethod
    def of(cls, f):
        m, c = (f.typ.split('::')[-2], f.typ.split('::')[-1]) if f.ext else (cls.home, treegen.camel(f.typ))
        return CLASSES[{'syntactic': 'ast'}.get(m, m)][c]

    def serialize(self):
        ids = {}
        self._number(ids)
        return enc(self._write(ids))

    def _number(self, ids):
        ids[id(self)] = len(ids)
        for f in self.fields:
            v = getattr(self, f.name)
            if f.kind in ('Maybe', 'One') and v is not None:
                v._number(ids)
            elif f.kind in ('Any', 'Many'):
                for x in v:
                    x._number(ids)

    def _write(self, ids):
        import cqasm.v3x.primitives as prim
        d = {'@i': ids[id(self)], '@t': type(self).__name__}
        for f in self.fields:
            v = getattr(self, f.name)
            if f.kind == 'Prim':
                d[f.name] = prim.serialize(primitive(f.typ), v)
            elif f.kind in ('Link', 'OptLink'):
                d[f.name] = {'@T': TAG[f.kind], '@l': None if v is None else ids[id(v)]}
            elif f.kind in ('Any', 'Many'):
                d[f.name] = {'@T': TAG[f.kind], '@d': [{'@T': '1', **x._write(ids)} for x in v]}
            else:
                d[f.name] = {'@T': TAG[f.kind], **({'@t': None} if v is None else v._write(ids))}
        return d

    def __str__(self):
        return type(self).__name__


CLASSES = {}
for py, cpp in MODULES.items():
    sp = treegen.parse(f'{REPO}/src/v3x/{cpp}.tree')
    by = {}
    by['Node'] = type('Node', (Base,), {'module': by, 'home': py, 'fields': []})
    for nd in sp.nodes:
        by[nd.cls] = type(nd.cls, (by[nd.parent.cls] if nd.parent else by['Node'],), {'fields': nd.all_fields()})
    CLASSES[py] = by


# ---- stand-in for the C++ class
class Native:
    """answers what the request says, and records how it is asked"""
    reply, log = None, None


def method(name, static):
    def call(*args):
        Native.log.append([name, list(args)])
        return Native.reply
    return staticmethod(call) if static else lambda self, *args: call(*args)


V3x = type('V3xAnalyzer', (), {n: method(n, n.startswith('parse')) for s in ('parse', 'analyze') for k in ('file', 'string') for n in (f'{s}_{k}', f'{s}_{k}_to_json')})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == 'libqasm' or name.startswith('cqasm.v3x.') and name.rsplit('.', 1)[1] in CLASSES:
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        if mod.__name__ == 'libqasm':
            mod.V3xAnalyzer = V3x
        else:
            mod.__dict__.update(CLASSES[mod.__name__.rsplit('.', 1)[1]])


sys.meta_path.insert(0, Finder())
sys.path.insert(0, f'{REPO}/python/module')
import cqasm.v3x  # noqa: E402
import cqasm.v3x.primitives as primitives  # noqa: E402
import cqasm.v3x.instruction as instruction  # noqa: E402


def plain(x):
    """a tree in the form of the C++ driver's dumps, without locations"""
    if isinstance(x, Base):
        o = {'@': type(x).__name__}
        for f in x.fields:
            v = getattr(x, f.name)
            if f.kind in ('Link', 'OptLink'):
                o[f.name] = None if v is None else {'link': v.name} if v in LIVE[0] else 'dangling'
            else:
                o[f.name] = plain(v)
        return o
    if isinstance(x, list):
        return [plain(y) for y in x]
    if x is None:
        return None
    if isinstance(x, primitives.Version):
        return [{'i': str(y)} if type(y) is int else repr(y) for y in x]
    if isinstance(x, instruction.InstructionRef):
        if x.data is None:
            return 'unresolved'
        return {'ref': x.data.name if type(x.data.name) is str else repr(x.data.name), 'types': [type(t).__name__ for t in x.data.types], 'str': str(x)}
    if type(x) is bool or type(x) is str:
        return x
    if type(x) is int:
        return {'i': str(x)}
    if type(x) is float:
        return {'f': struct.pack('>d', x).hex()}
    return f'{type(x).__name__}:{x!r}'


LIVE = [[]]


def tree(root):
    LIVE[0] = getattr(root, 'variables', [])
    return plain(root)


def cmd_tree(r):
    cls = CLASSES['ast']['Root'] if r['kind'] == 'ast' else CLASSES['semantic']['Program']
    root = cls.deserialize(bytes.fromhex(r['hex']))
    one = tree(root)
    again = root.serialize()
    return {'one': one, 'two': tree(cls.deserialize(again)), 'same': cls.deserialize(again).serialize() == again}


def cmd_wrap(r):
    """ret: list of hex (strings as the extension module hands them over) or a string"""
    got = []

    def reader(kind):
        def read(data):
            got.append([kind, data.hex() if isinstance(data, bytes) else repr(data)])
            return f'<{kind} tree>'
        return staticmethod(read)
    CLASSES['ast']['Root'].deserialize = reader('ast')
    CLASSES['semantic']['Program'].deserialize = reader('sem')
    try:
        native = lambda h: bytes.fromhex(h).decode('utf-8', 'surrogateescape')
        Native.reply = tuple(map(native, r['ret'])) if isinstance(r['ret'], list) else native(r['ret'])
        Native.log = []
        call = getattr(cqasm.v3x.Analyzer, r['method']) if r['static'] else getattr(cqasm.v3x.Analyzer(), r['method'])
        v = call(*r['args'])
        enc1 = lambda s: s.encode('utf-8', 'surrogateescape').hex() if isinstance(s, str) else repr(s)
        return {'value': enc1(v) if not isinstance(v, list) else list(map(enc1, v)), 'read': got, 'asked': Native.log}
    finally:
        del CLASSES['ast']['Root'].deserialize
        del CLASSES['semantic']['Program'].deserialize


def seen(x):
    """an instruction reference, as far as a user sees it"""
    d = x.data
    return {'str': str(x), 'data': None if d is None else {'str': str(d), 'name': d.name if type(d.name) is str else repr(d.name), 'types': [[type(t).__name__, str(t.size)] for t in d.types], 'tuple': type(d.types) is tuple}}


def cmd_sig(r):
    """hex: the map of a reference to an instruction, as C++ writes it"""
    ref = instruction.InstructionRef
    x = primitives.deserialize(ref, dec(bytes.fromhex(r['hex']))[0])
    m = primitives.serialize(ref, x)
    return {'one': seen(x), 'keys': list(m), 'two': seen(primitives.deserialize(ref, dec(enc(m))[0]))}


def cmd_prim(r):
    typ = {'str': primitives.Str, 'bool': primitives.Bool, 'int': primitives.Int, 'float': primitives.Float, 'version': primitives.Version}[r['kind']]
    x = primitives.deserialize(typ, dec(bytes.fromhex(r['hex']))[0])
    m = primitives.serialize(typ, x)
    y = primitives.deserialize(typ, dec(enc(m))[0])
    form = lambda v: [type(v).__name__, *([struct.pack('>d', v).hex()] if type(v) is float else map(str, v) if isinstance(v, tuple) else [v if isinstance(v, str) else str(v).lower()])]
    return {'one': form(x), 'keys': list(m), 'two': form(y), 'hex': enc(m).hex()}


def cmd_make(r):
    """constructors: what: ins | ref | version"""
    def typ(c):
        if c not in CLASSES['types']:
            return c
        t = CLASSES['types'][c]()
        t.size = 0
        return t
    ts = lambda v: None if v is None else [typ(c) for c in v]
    if r['what'] == 'version':
        v = primitives.Version(r['arg'])
        return {'items': list(map(str, v)), 'tuple': isinstance(v, tuple)}
    if r['what'] == 'ins':
        return seen(instruction.InstructionRef(instruction.Instruction(r['name'], ts(r['types']))))
    args = [instruction.Instruction(a['ins'][0], ts(a['ins'][1])) if isinstance(a, dict) else ts(a) if isinstance(a, list) else a for a in r['args']]
    return seen(instruction.InstructionRef(*args, **{k: ts(v) if k == 'types' else v for k, v in r.get('kw', {}).items()}))


for line in sys.stdin:
    req = json.loads(line)
    try:
        ans = {'tree': cmd_tree, 'wrap': cmd_wrap, 'sig': cmd_sig, 'prim': cmd_prim, 'make': cmd_make}[req['op']](req)
    except Exception as e:  # noqa: BLE001
        ans = {'exc': f'{type(e).__name__}: {e}'}
    print(json.dumps(ans), flush=True)
