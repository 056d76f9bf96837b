# -*- coding: utf-8 -*-
"""Build and confirm a planted bug from a description.

usage: mkseed.py SEED.py     (development tool; no check uses it)

SEED.py defines: id, property, needs, breaks, edits = [(file, old, new)], demo
(Python source run with the real interpreter), optional py = 'slow'.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0')
for k in ('PYTHONPATH', 'PYMORPHY2_DICT_PATH'):
    ENV.pop(k, None)


def tests(repo):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ps = []
    rep = tempfile.mkdtemp()
    for env in ('venv', 'venv-slow'):
        ps.append(subprocess.Popen(
            ['/opt/%s/bin/python' % env, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=short',
             '--timeout=300', '--continue-on-collection-errors', '--doctest-modules', '-o', 'junit_family=xunit2',
             '--junitxml=%s/%s.xml' % (rep, env), 'pymorphy2', 'tests'],
            cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True))
    out = [p.communicate()[0] for p in ps]
    bad = [o[-3000:] for p, o in zip(ps, out) if p.returncode]
    shutil.rmtree(rep)
    return bad


def main():
    d = {}
    with open(sys.argv[1], encoding='utf8') as f:
        exec(f.read(), d)
    repo = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    os.rmdir(repo)
    shutil.copytree('/repo', repo, symlinks=True)
    try:
        dest = os.path.join(root, 'seeded', d['id'])
        os.makedirs(dest, exist_ok=True)
        with open(dest + '/demo.py', 'w', encoding='utf8') as f:
            f.write(d['demo'].lstrip('\n'))
        with open(dest + '/demo.sh', 'w', encoding='utf8') as f:
            f.write('#!/bin/bash\n'
                    '# run with cwd = the repository\n'
                    'export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                    'exec /opt/%s/bin/python "$(dirname "$0")/demo.py"\n' % (
                        'venv-slow' if d.get('py') == 'slow' else 'venv'))
        os.chmod(dest + '/demo.sh', 0o755)
        run = lambda: subprocess.run(['bash', dest + '/demo.sh'], cwd=repo, env=ENV, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, universal_newlines=True, timeout=280)
        r = run()
        ok = True
        if r.returncode != 0:
            print('DEMO FAILS WITHOUT THE CHANGE', r.stdout[-2000:])
            ok = False
        for fn, old, new in d['edits']:
            p = os.path.join(repo, fn)
            s = open(p, encoding='utf8').read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            with open(p, 'w', encoding='utf8') as f:
                f.write(s.replace(old, new))
        r = run()
        print('demo with the change:', r.returncode, r.stdout[-400:])
        if r.returncode == 0:
            print('DEMO PASSES WITH THE CHANGE')
            ok = False
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, universal_newlines=True).stdout
        with open(dest + '/patch.diff', 'w', encoding='utf8') as f:
            f.write(diff)
        subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', dest + '/patch.diff'])
        with open(dest + '/meta.json', 'w', encoding='utf8') as f:
            json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), f,
                      ensure_ascii=False, indent=1)
            f.write('\n')
        bad = tests(repo)
        if bad:
            print('TESTS FAIL', bad[0])
            ok = False
        checks = sys.argv[2:] or [d['property']]
        for c in checks:
            r = subprocess.run(['./check', c, '--no-evidence'], cwd=root, env=dict(ENV, SX_REPO=repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            print('check', c, 'exit', r.returncode, '\n   '.join(r.stdout.strip().split('\n')[-4:]))
        print('OK' if ok else 'REJECTED', d['id'])
        if not ok:
            shutil.rmtree(dest)
    finally:
        shutil.rmtree(repo)


main()
