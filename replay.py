# -*- coding: utf-8 -*-
"""Run recorded inputs of a harness against the real code (PyPy, real storage).

usage: python replay.py CASE.json      (python of /opt/venv or /opt/venv-slow)
exit 0: property holds on these inputs; 1: violated; 3: not applicable / error
"""
from __future__ import print_function
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))
sys.setrecursionlimit(3000)

import cenv                     # noqa: E402
cenv.fake_pkg_resources()
import warnings                 # noqa: E402
warnings.simplefilter('ignore')
import sched_threads            # noqa: E402
import hx                       # noqa: E402
import pymorphy2                # noqa: E402

ROOT = os.path.realpath(os.environ.get('SX_REPO', '/repo'))
assert os.path.realpath(pymorphy2.__file__).startswith(ROOT + os.sep), pymorphy2.__file__


def fresh():
    for m in list(sys.modules):
        if m.split('.')[0] in ('pymorphy2', 'harness'):
            del sys.modules[m]
    hx.HARNESSES.clear()


def run(case):
    """('holds'|'violated'|'skip', text, log)"""
    fresh()
    mod, name = case['harness'].split('.')
    if mod == 'threads' and not any(isinstance(x, sched_threads.Finder) for x in sys.meta_path):
        sched_threads.install()
        sys.meta_path.insert(0, sched_threads.Finder(ROOT))
    importlib.import_module('harness.' + mod)
    h = hx.HARNESSES[case['harness']]
    env = cenv.ConcreteEnv(case['param'], case['config'], case['inputs'], case.get('known', ()))
    try:
        h.fn(env)
        return 'holds', '', env.log
    except cenv.Skip:
        return 'skip', 'an assumption of the harness is false', env.log
    except cenv.Violated as e:
        return 'violated', 'assertion %r fails%s' % (
            e.args[0], '' if e.args[1] is None else ': %s' % (e.args[1],)), env.log
    except Exception:
        return 'violated', 'exception:\n' + traceback.format_exc()[-2500:], env.log
    finally:
        env.close()


def main():
    with open(sys.argv[1], encoding='utf8') as f:
        cases = json.load(f)
    if isinstance(cases, dict):
        st, txt, log = run(cases)
        print('REPLAY %s: %s' % (st, txt))
        return {'holds': 0, 'violated': 1}.get(st, 3)
    n = 0
    for i, case in enumerate(cases):
        st, txt, log = run(case)
        if st == 'violated':
            print('CASE %d' % i)
            print('REPLAY violated: %s' % txt)
            return 1
        if st == 'skip':
            print('sample %d (%s %r %r): %s' % (i, case['harness'], case['param'],
                                               case['inputs'], txt))
            return 3
        if log != case['log']:
            print('sample %d (%s %r %r): engine and interpreter disagree\n  engine: %r\n  real:   %r' % (
                i, case['harness'], case['param'], case['inputs'], case['log'], log))
            return 3
        n += 1
    print('VALIDATED %d' % n)
    return 0


if __name__ == '__main__':
    sys.exit(main())
