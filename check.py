#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import frame  # noqa: E402


def checks():
    import c_base
    import c_api
    import c_conc
    import c_desc
    import c_iface
    import c_lang
    import c_robust
    return {**c_base.CHECKS, **c_lang.CHECKS, **c_api.CHECKS, **c_iface.CHECKS, **c_robust.CHECKS, **c_desc.CHECKS, **c_conc.CHECKS}


def setup():
    """nothing is prebuilt (every check builds from /repo); makes sure that the tools are there"""
    import shutil
    missing = [t for t in ('java', 'g++', 'clang++') if not shutil.which(t)]
    missing += [j for j in frame.tlc.JARS.split(':') if not os.path.exists(j)]
    os.makedirs(os.path.join(frame.VERIF, 'evidence'), exist_ok=True)
    print(f'missing: {missing}' if missing else 'ready')
    return 1 if missing else 0


def main():
    if sys.argv[1:] == ['setup']:
        return setup()
    table = checks()
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print('usage: check.py ' + '|'.join(sorted(table)) + ' [quick|thorough]')
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = frame.Ctx(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        assumptions = table[sys.argv[1]](ctx) or ()
        return ctx.finish(assumptions)
    except frame.builder.BuildError as e:
        print(f'{sys.argv[1]}: /repo does not build with the harness\n{e}')
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
