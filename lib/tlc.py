"""Runs TLC on a module of /verif/spec and collects the JSON lines that its behaviours print."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


class TlcTimeout(TlcError):
    pass


class Run:
    def __init__(self):
        self.reports, self.states, self.distinct, self.depth = [], 0, 0, 0

    def add(self, o):
        self.reports += o.reports
        self.states += o.states
        self.distinct += o.distinct
        self.depth = max(self.depth, o.depth)


def run(module, cfg, env=None, scratch=None, workers=None, **kw):
    try:
        return once(module, cfg, env, scratch, workers, **kw)
    except TlcTimeout:
        raise
    except TlcError as e:
        if workers == 1:
            raise
        # the workers of TLC share values; what is really wrong with a specification, one worker finds as well
        print(f'{module}: again, with one worker, after: {str(e)[:300]}')
        return once(module, cfg, env, scratch, 1, **kw)


def once(module, cfg, env=None, scratch=None, workers=None, heap='6g', timeout=840, extra=()):
    """cfg: text of the configuration.  Raises TlcError when TLC reports anything but success."""
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    try:
        # TLC leaves files beside the module: work on a copy
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(f'{d}/run.cfg', 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={d}', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers or os.cpu_count() or 4), '-noGenerateSpecTE', '-nowarning', '-metadir', f'{d}/meta',
               '-config', 'run.cfg', *extra, f'{module}.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcTimeout(f'{module}: no answer within {timeout} s') from e
        out = p.stdout.decode('utf-8', 'replace')
        r = Run()
        other = []
        for line in out.splitlines():
            if line.startswith('"{'):
                r.reports.append(json.loads(json.loads(line)))
            else:
                other.append(line)
        text = '\n'.join(other)
        if 'No error has been found' not in text:
            why = '\n'.join(x for x in other if not re.match(r'(Parsing|Semantic|Linting)', x))
            raise TlcError(f'{module}: ' + (why if len(why) < 6000 else f'{why[:2500]}\n...\n{why[-3000:]}'))
        m = re.search(r'(\d+) states generated, (\d+) distinct', text)
        r.states, r.distinct = int(m[1]), int(m[2])
        m = re.search(r'depth of the complete state graph search is (\d+)', text)
        r.depth = int(m[1]) if m else 0
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
