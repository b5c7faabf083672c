#!/usr/bin/env python3
"""Builds the complete libqasm (tree and ANTLR parts included) from the current tree of /repo.

The official offline build only compiles annotations and utils, because tree-gen and ANTLR
cannot be fetched.  This script generates the missing sources from /repo's own .tree and .g4
files with the substitutes in treegen/ and antlrgen/, and compiles every source of the library.

build_lib(out, opt) -> (include flags, list of object files)
"""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LIBQASM_REPO', '/repo')


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('command failed: ' + ' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def generate(out):
    inc = f'{out}/gen/libqasm/v3x'
    os.makedirs(inc, exist_ok=True)
    src = []
    for t in ('types', 'values', 'syntactic', 'semantic'):
        cpp = f'{out}/gen/{t}_generated.cpp'
        sh([sys.executable, f'{HERE}/treegen/treegen.py', f'{REPO}/src/v3x/{t}.tree', f'{inc}/{t}_generated.hpp', cpp])
        src.append(cpp)
    sh([sys.executable, f'{HERE}/antlrgen/antlrgen.py', f'{REPO}/src/v3x/CqasmLexer.g4', f'{REPO}/src/v3x/CqasmParser.g4', inc])
    src.append(f'{inc}/CqasmTables.cpp')
    src.append(f'{HERE}/antlrgen/antlr4-runtime.cpp')
    return src


def flags(out, opt):
    return ['-std=c++20', '-w', *opt, f'-I{out}/gen', f'-I{REPO}/include', f'-I{HERE}/treegen', f'-I{HERE}/antlrgen',
            f'-I{HERE}/stubs', f'-I{REPO}/emscripten', f'-I{REPO}/test']


def build(out, drivers, opt=('-O1',), cxx='g++', extra_link=()):
    """drivers: {exe name: [sources]}; returns {exe name: path}"""
    os.makedirs(out, exist_ok=True)
    lib = generate(out) + sorted(glob.glob(f'{REPO}/src/*.cpp') + glob.glob(f'{REPO}/src/v3x/*.cpp'))
    fl = flags(out, opt)
    jobs = []

    def obj(s, prefix):
        return f'{out}/{prefix}_{os.path.basename(s)}.o'
    libobjs = []
    for s in lib:
        libobjs.append(obj(s, 'lib'))
        jobs.append((s, libobjs[-1]))
    exes = {}
    for name, srcs in drivers.items():
        exes[name] = [obj(s, name) for s in srcs]
        jobs += list(zip(srcs, exes[name]))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        # the substitute runtime is not under test: fast, and without sanitizers (but the thread sanitizer has to see everything)
        quiet = [x for x in fl if not x.startswith(('-O', '-fsanitize', '-fno-sanitize')) or x == '-fsanitize=thread'] + ['-O2']
        list(ex.map(lambda j: sh([cxx, *(quiet if j[0].endswith('/antlr4-runtime.cpp') else fl), '-c', j[0], '-o', j[1]]), jobs))
    res = {}
    for name, objs in exes.items():
        res[name] = f'{out}/{name}'
        sh([cxx, *fl, *objs, *libobjs, '-o', res[name], '-lfmt', '-lpthread', *extra_link])
    return res


def build_base(out, src, defs, opt=('-O1',), cxx='g++', v3x=()):
    """a driver of the parts below the language, which need nothing generated; v3x: further sources under src/v3x"""
    os.makedirs(out, exist_ok=True)
    srcs = [src] + sorted(glob.glob(f'{REPO}/src/*.cpp')) + [f'{REPO}/src/v3x/{x}' for x in v3x]
    fl = flags(out, opt)
    objs = [f'{out}/base_{i}.o' for i in range(len(srcs))]
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(lambda j: sh([cxx, *fl, *(defs if j[0] == src else ()), '-c', j[0], '-o', j[1]]), zip(srcs, objs)))
    sh([cxx, *fl, *objs, '-o', f'{out}/base', '-lfmt', '-lpthread'])
    return f'{out}/base'


if __name__ == '__main__':
    # build.py OUT EXE=src,src ... [-- compiler options]
    a = sys.argv[1:]
    opt = ['-O1']
    if '--' in a:
        k = a.index('--')
        a, opt = a[:k], a[k + 1:]
    d = {}
    for x in a[1:]:
        n, s = x.split('=')
        d[n] = s.split(',')
    try:
        print(build(a[0], d, opt))
    except BuildError as e:
        print(e)
        sys.exit(2)
