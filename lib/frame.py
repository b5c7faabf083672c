"""What every check shares: scratch directory, builds, drivers, TLC runs, violations, evidence."""
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, f'{VERIF}/support')
import build as builder  # noqa: E402
import driver  # noqa: E402
import tlc  # noqa: E402

REPO = builder.REPO
HARNESS = f'{VERIF}/harness'
PARTS = {'API': 'emscripten_wrapper.cpp'}


def b2s(codes):
    """sequence of byte values of the specification, as the drivers' strings show it"""
    return bytes(codes).decode('latin-1')


def known_findings(prop):
    """[(key, text)] of the findings listed for a property"""
    out = []
    path = f'{VERIF}/known_findings.txt'
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                f = dict(x.split('=', 1) for x in line.split()[1:3])
                if f['property'] == prop:
                    out.append((f['key'], line.split(None, 3)[3].strip()))
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rnd = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], {}
        self.violations, self.known = [], []
        self.exes = {}
        self.cpus = os.cpu_count() or 4

    # --- building
    def base(self, part, v3x=()):
        out = f'{self.scratch}/b{part}'
        try:
            self.exes['base'] = builder.build_base(out, f'{HARNESS}/drv_base.cpp', [f'-DW_{part}'], v3x=v3x)
        except builder.BuildError:      # what it needs may have moved: take all sources
            self.exes['base'] = builder.build(f'{out}f', {'base': [f'{HARNESS}/drv_base.cpp']}, opt=['-O0', f'-DW_{part}'])['base']
        return self.exes['base']

    def full(self, parts=(), opt=('-O0',), cxx='g++', name='full'):
        srcs = [f'{HARNESS}/drv_full.cpp'] + ([f'{REPO}/emscripten/emscripten_wrapper.cpp'] if 'API' in parts else [])
        r = builder.build(f'{self.scratch}/{name}', {name: srcs}, opt=[*opt, *[f'-DW_{p}' for p in parts]], cxx=cxx)
        self.exes[name] = r[name]
        return r[name]

    def python(self):
        return [sys.executable, '-B', f'{HARNESS}/py_side.py', REPO, f'{VERIF}/support']

    # --- specification
    def tlc(self, module, cfg, env=None, **kw):
        r = tlc.run(module, cfg, {k: str(v) for k, v in (env or {}).items()}, self.scratch, **kw)
        self.count(r)
        return r

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def file(self, data):
        fd, path = tempfile.mkstemp(suffix='.json', dir=self.scratch)
        with os.fdopen(fd, 'w') as f:
            json.dump(data, f)
        return path

    # --- implementation
    def pmap(self, exe, func, items, timeout=20.0, mem_gb=4):
        """func(driver, item) on every item, over several driver processes; results in order"""
        items = list(items)
        n = min(self.cpus, max(1, len(items) // 20))
        if n <= 1:
            d = client(exe, timeout, mem_gb)
            try:
                return [func(d, x) for x in items]
            finally:
                d.stop()
        global _job
        _job = (exe, func, items, timeout, mem_gb)
        size = max(1, min(200, len(items) // (n * 4) + 1))
        with multiprocessing.get_context('fork').Pool(n) as pool:
            parts = pool.map(_chunk, [(i, min(i + size, len(items))) for i in range(0, len(items), size)], chunksize=1)
        return [x for p in parts for x in p]

    # --- answers
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self, assumptions=()):
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                         'samples': self.samples or ['none'], **self.notes},
            'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
        }
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        shown = []
        for what, replay in self.violations[:5]:
            path = f'{VERIF}/evidence/{self.prop}-{len(shown) + 1}.replay.json'
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'what': what, **replay}, f, indent=1)
                f.write('\n')
            shown.append(path)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'  {what}'[:1500])
        if len(self.violations) > 5:
            print(f'  ... and {len(self.violations) - 5} more')
        for text in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {text}')
        print(f"{self.prop}: {'FAILED' if self.violations else 'held'}: {self.states} states, {self.transitions} transitions, {self.traces} behaviours against the code, {ev['wall_s']} s")
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


_job = None


def client(exe, timeout, mem):
    return (driver.PyDriver if isinstance(exe, list) else driver.Driver)(exe, timeout, mem)


def _chunk(span):
    exe, func, items, timeout, mem = _job
    d = client(exe, timeout, mem)
    try:
        return [func(d, items[i]) for i in range(*span)]
    finally:
        d.stop()


def inv(spec, invariants=(), properties=()):
    return '\n'.join([f'SPECIFICATION {spec}'] + [f'INVARIANT {i}' for i in invariants] + [f'PROPERTY {p}' for p in properties] + ['CHECK_DEADLOCK FALSE', ''])
