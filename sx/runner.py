# -*- coding: utf-8 -*-
"""Runs the obligations of one property and reports.

exit 0: every obligation decided, property holds within the stated bounds
exit 1: a counterexample, reproduced by the real code ("VIOLATION property=...")
exit 2: no answer (solver/budget/engine limit, or a counterexample that the real
        code does not reproduce)
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
PY = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}
NPROC = int(os.environ.get('SX_NPROC', '8'))
PATH_LIMIT = 150        # seconds for one path
MEM = 3400 << 20


def modules_for(prop):
    """Harness modules that mention the property."""
    out = []
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.py') and f != '__init__.py':
            with open(os.path.join(VERIF, 'harness', f), encoding='utf8') as fp:
                if re.search(r"""@harness\(\s*['"]%s['"]""" % prop, fp.read()):
                    out.append('harness.' + f[:-3])
    return out


def _fake_modules():
    """Third-party modules the code under test imports but never needs here."""
    import cenv
    import glob
    import importlib.util
    cenv.fake_pkg_resources()
    for p in glob.glob('/opt/venv/lib/*/site-packages/docopt.py'):
        spec = importlib.util.spec_from_file_location('docopt', p)
        m = importlib.util.module_from_spec(spec)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            spec.loader.exec_module(m)
        sys.modules['docopt'] = m


from cenv import ENTRY_POINTS  # noqa: E402


def load(config, mods):
    """(Re-)import the instrumented code for a storage back end."""
    from . import stubs, loader, transform
    for m in list(sys.modules):
        if m.split('.')[0] in ('pymorphy2', 'harness'):
            del sys.modules[m]
    loader.SEEN.clear()
    stubs.install_dawg(config == 'fast')
    transform.YIELDS = any(m.endswith('.threads') for m in mods)
    if transform.YIELDS:
        import sched_threads
        sched_threads.install()
    if not any(isinstance(f, loader.Finder) for f in sys.meta_path):
        _fake_modules()
        loader.install({'pymorphy2': REPO, 'harness': VERIF})
    import hx
    hx.HARNESSES.clear()
    for m in mods:
        importlib.import_module(m)
    load.snapshot = loader.Snapshot('pymorphy2')
    load.config = config


load.config = None
load.snapshot = None


class _PathTimeout(BaseException):
    pass


def _alarm(*a):
    from .core import Inconclusive
    raise Inconclusive('path limit: one execution path ran for more than %d s' % PATH_LIMIT)


def run_obligation(hid, param, config, mods, deadline, nsamples, eager=False):
    from . import core, stubs, loader, env as envmod, calls
    import hx
    if load.config != config:
        load(config, mods)
    h = hx.HARNESSES[hid]
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(6000)
    eng = core.Engine(deadline=deadline)
    signal.signal(signal.SIGALRM, _alarm)
    loader.SEEN.clear()
    samples = []
    cur = [None]

    def reset():
        signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT)
        load.snapshot.restore()
        stubs.reset()
        calls.WARNINGS[:] = []
        ENTRY_POINTS[:] = []
        os.environ.pop('PYMORPHY2_DICT_PATH', None)
        sys.modules['pymorphy2_dicts'] = None
        for k in ('nltk', 'opencorpora', 'tqdm'):
            sys.modules.pop(k, None)
        cur[0] = envmod.SymEnv(eng, param, config)
        cur[0].eager = eager

    def body():
        try:
            h.fn(cur[0])
        except core.SymHashNeeded:
            raise core.Unsupported('native hash of a symbolic value:\n' + traceback.format_exc())
        except RecursionError:
            raise core.ViolationFound('RecursionError', traceback.format_exc()[-1500:],
                                      eng.witness(eng._ensure_model()))
        except MemoryError:
            raise core.Inconclusive('out of memory')
        except Exception as e:
            raise core.ViolationFound('exception ' + type(e).__name__,
                                      traceback.format_exc()[-3000:],
                                      eng.witness(eng._ensure_model()))

    def on_path():
        n = eng.paths
        if len(samples) < nsamples and (nsamples > 50 or n & (n - 1) == 0 or n % 7 == 3):
            m = eng._ensure_model()
            samples.append(dict(inputs=eng.witness(m), log=cur[0].final_log(m)))

    res = dict(hid=hid, param=param, config=config, eager=eager, status='ok', error=None, violation=None)
    t = time.time()
    try:
        v = eng.explore(body, reset=reset, on_path=on_path)
        if v is not None:
            res['status'] = 'violation'
            res['violation'] = dict(label=v.label, detail=v.detail, inputs=v.witness)
    except core.Inconclusive as e:
        res['status'] = 'inconclusive'
        res['error'] = str(e)
        if 'path limit' in str(e):
            try:
                res['violation'] = dict(label='does not terminate', detail=traceback.format_exc()[-3000:],
                                        inputs=eng.witness(eng._ensure_model()))
            except BaseException:
                pass
    except core.Control as e:
        res['status'] = 'unsupported'
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    except MemoryError:
        res['status'] = 'inconclusive'
        res['error'] = 'out of memory'
    except Exception as e:
        res['status'] = 'unsupported'
        res['error'] = 'engine: ' + traceback.format_exc()[-3000:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(
        wall=time.time() - t, paths=eng.paths, aborted=eng.aborted, queries=eng.queries,
        sat=eng.sat, unsat=eng.unsat, solver_time=eng.solver_time, checks=eng.checks,
        check_queries=eng.check_queries, branches=eng.branches, reached=eng.reached,
        assumes=eng.assume_count, forced=eng.forced_concretizations,
        functions=sorted(loader.SEEN), samples=samples, ninputs=len(eng.inputs))
    return res


def _child(args, path):
    try:
        r = run_obligation(*args)
    except BaseException:
        r = dict(hid=args[0], param=args[1], config=args[2], eager=False, status='unsupported',
                 error=traceback.format_exc(), violation=None, wall=0, paths=0, aborted=0,
                 queries=0, sat=0, unsat=0, solver_time=0, checks=0, check_queries=0,
                 branches=0, reached={}, assumes=0, forced={}, functions=[], samples=[],
                 ninputs=0)
    try:
        data = pickle.dumps(r)
    except Exception:
        print(traceback.format_exc(), r)
        raise
    with open(path, 'wb') as f:
        f.write(data)


def replay(path, config, timeout=90):
    """'violated', 'holds', 'timeout' or 'error' and the text."""
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + VERIF, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf8', SX_REPO=REPO)
    try:
        p = subprocess.run([PY[config], os.path.join(VERIF, 'replay.py'), path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, cwd=tempfile.gettempdir())
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')
    out = p.stdout.decode('utf8', 'replace')
    return {0: 'holds', 1: 'violated'}.get(p.returncode, 'error'), out


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf8') as f:
        return json.load(f)['known']


def save_case(prop, name, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(data, ensure_ascii=True, indent=1, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(p, 'w') as f:
        f.write(txt)
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--only', help='substring of harness ids')
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--samples', type=int, help='sampled paths per obligation')
    ap.add_argument('--eager', action='store_true', help='fork over the values of all inputs')
    ap.add_argument('--param', help='JSON: run only this parameter set')
    a = ap.parse_args(argv)
    t0 = time.time()
    budget = a.budget or (640 if a.tier == 'quick' else 6 * 3600)
    deadline = t0 + budget
    prop = a.prop
    mods = modules_for(prop)
    if not mods:
        print('no harness for', prop)
        return 2
    import hx
    from . import loader
    try:
        load('fast', mods)
    except Exception:
        traceback.print_exc()
        print('ERROR: cannot import the code under test')
        return 2
    hs = [h for h in hx.HARNESSES.values() if h.prop == prop]
    if a.only:
        hs = [h for h in hs if a.only in h.id]

    # known findings: confirmed on the real code, then excluded from the search
    active = []
    for k in known_findings():
        if k['property'] != prop:
            continue
        p = save_case(prop, 'known-' + k['id'], dict(
            harness=k['harness'], param=k['param'], config=k['config'],
            inputs=k['inputs'], label=k['label'], known=[]))
        st, out = replay(p, k['config'])
        if st == 'violated':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            active.append(k['id'])
        elif st != 'holds':
            print('ERROR: known finding %s: %s\n%s' % (k['id'], st, out))
            return 2
    os.environ['SX_KNOWN'] = ','.join(active)

    obligations = []
    for h in hs:
        params = list(h.params[0])
        if a.tier == 'thorough':
            params += list(h.params[1])
        if a.param:
            params = [json.loads(a.param)]
        for p in params:
            for c in h.config:
                obligations.append((h.id, p, c, a.eager))
    nsamples = a.samples or (3 if a.tier == 'quick' else 12)
    todo = list(obligations)
    todo.sort(key=lambda o: -o[1].get('weight', 0))
    running = {}
    results = []
    tmp = tempfile.mkdtemp(prefix='sx-')
    confirmed = None
    errors = []
    try:
        n = 0
        while todo or running:
            while todo and len(running) < NPROC:
                o = todo.pop(0)
                n += 1
                path = os.path.join(tmp, '%d.pkl' % n)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        _child((o[0], o[1], o[2], mods, deadline, nsamples, o[3]), path)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(0)
                running[pid] = (o, path)
            pid, st = os.wait()
            o, path = running.pop(pid)
            if not os.path.exists(path):
                errors.append('%s %r: worker died (status %s)' % (o[0], o[1], st))
                continue
            with open(path, 'rb') as f:
                r = pickle.load(f)
            os.unlink(path)
            results.append(r)
            if a.v:
                print('%-40s %-38s %s %-9s paths=%d/%d q=%d solver=%.1f wall=%.1f' % (
                    r['hid'], json.dumps(r['param'], ensure_ascii=False), r['config'],
                    r['status'], r['paths'], r['aborted'], r['queries'], r['solver_time'],
                    r['wall']))
                sys.stdout.flush()
            if r['status'] == 'unsupported' and not o[3]:
                if a.v: print(r['error'])
                # a construct the engine has no symbolic form for: the inputs are
                # forked over at once, so that it runs on known values
                results.pop()
                todo.append(o[:3] + (True,))
                continue
            if r['status'] in ('inconclusive', 'unsupported') and not r['violation']:
                errors.append('%s %r %s: %s: %s' % (r['hid'], r['param'], r['config'],
                                                   r['status'], r['error']))
            if r['violation']:
                v = r['violation']
                case = dict(harness=r['hid'], param=r['param'], config=r['config'],
                            inputs=v['inputs'], label=v['label'], known=active)
                name = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
                p = save_case(prop, name, case)
                st, out = replay(p, r['config'])
                if st == 'violated' or (st == 'timeout' and v['label'] == 'does not terminate'):
                    confirmed = (p, r, v, out)
                    break
                if not o[3]:
                    results.pop()
                    todo.append(o[:3] + (True,))
                    continue
                errors.append('%s %r: counterexample not reproduced (%s): %s\n%s\n%s\n%s' % (
                    r['hid'], r['param'], st, v['label'], v['inputs'], v['detail'], out))
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass

    # vacuity: every named situation must occur on some path
    if not confirmed and not errors:
        for h in hs:
            got = set()
            for r in results:
                if r['hid'] == h.id:
                    got |= set(r['reached'])
                    if not r['paths']:
                        errors.append('%s %r: vacuous, no path completes' % (h.id, r['param']))
            for lab in h.reach:
                if lab not in got:
                    errors.append('%s: situation %r is never reached (vacuous)' % (h.id, lab))

    # sampled paths, executed by the real code
    validated = 0
    if not confirmed and not errors:
        for config in ('fast', 'slow'):
            cases = []
            for r in results:
                if r['config'] != config:
                    continue
                for s in r['samples']:
                    cases.append(dict(harness=r['hid'], param=r['param'], config=config,
                                      inputs=s['inputs'], log=s['log'], label='sampled path',
                                      known=active))
            if not cases:
                continue
            p = os.path.join(tmp, 'samples.json')
            with open(p, 'w') as f:
                json.dump(cases, f)
            st, out = replay(p, config, timeout=240)
            m = re.search(r'^VALIDATED (\d+)', out, re.M)
            if m:
                validated += int(m.group(1))
            if st == 'violated':
                i = int(re.search(r'^CASE (\d+)', out, re.M).group(1))
                p = save_case(prop, 'sample', cases[i])
                confirmed = (p, None, dict(label='sampled path fails on the real code',
                                           inputs=cases[i]['inputs'], detail=''), out)
                break
            if st != 'holds':
                errors.append('validation of sampled paths (%s): %s\n%s' % (config, st, out))

    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    if not a.no_evidence and not a.only and not a.param:
        evidence(prop, a.tier, hs, obligations, results, validated, wall, confirmed, errors, active)
    if confirmed:
        p, r, v, out = confirmed
        print('counterexample: %s' % v['label'])
        print('inputs: %s' % json.dumps(v['inputs'], ensure_ascii=False, sort_keys=True))
        print(out.strip()[-3000:])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors:
        for e in errors[:6]:
            print('ERROR: ' + e[:6000])
        print('NO ANSWER property=%s (%d problems)' % (prop, len(errors)))
        return 2
    print('OK property=%s obligations=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (
        prop, len(results), sum(r['paths'] for r in results),
        sum(r['queries'] for r in results), sum(r['solver_time'] for r in results),
        validated, wall))
    return 0


def evidence(prop, tier, hs, obligations, results, validated, wall, confirmed, errors, active):
    from . import loader
    fns = sorted(set(f for r in results for f in r['functions'] if f.startswith('pymorphy2')))
    forced = {}
    for r in results:
        for k, n in r['forced'].items():
            forced[k] = forced.get(k, 0) + n
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append(dict(harness=r['hid'], param=r['param'], inputs=s['inputs']))
    reached = {}
    for r in results:
        for k, n in r['reached'].items():
            reached[r['hid'] + ':' + k] = reached.get(r['hid'] + ':' + k, 0) + n

    def tot(k):
        return sum(r[k] for r in results)
    cov = dict(
        states=tot('paths') + tot('aborted'),
        transitions=tot('branches'),
        traces_validated_against_impl=validated,
        samples=samples[:12],
        exhaustive=not errors and not confirmed,
        rule='states: feasible execution paths of the real code over the symbolic inputs '
             '(completed + cut by an assumption); transitions: branch decisions put to the '
             'solver; the assertion on each path is decided by one solver query over all '
             'inputs of that path',
        obligations=len(obligations), obligations_decided=sum(
            1 for r in results if r['status'] in ('ok', 'violation')),
        bounds=[dict(harness=h.id, note=h.note, params=list(h.params[0]) +
                     (list(h.params[1]) if tier == 'thorough' else []),
                     storage=list(h.config)) for h in hs],
        functions_encoded=fns,
        sources=dict((m, v[1]) for m, v in sorted(loader.SOURCES.items())
                     if m.startswith('pymorphy2')),
        queries=tot('queries'), queries_sat=tot('sat'), queries_unsat=tot('unsat'),
        solver_time_s=round(tot('solver_time'), 2),
        assertions=tot('checks'), assertion_queries=tot('check_queries'),
        assumptions_made=tot('assumes'),
        concretised_calls=forced,
        obligations_decided_value_by_value=[dict(harness=r['hid'], param=r['param'])
                                            for r in results if r['eager']],
        situations_reached=reached,
        known_findings=active,
        errors=errors[:5],
    )
    d = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')),
             level='model_checking', coverage=cov, wall_s=round(wall, 2),
             violations=1 if confirmed else 0,
             assumptions=['input bounds as listed in coverage.bounds; nothing is claimed outside them',
                          'models of the code outside the repository (DAWG storage, JSON, files, '
                          'Unicode tables, regular expressions) in /verif/sx are faithful; sampled '
                          'paths are re-run on the real interpreter and real storage'])
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + '.tmp', 'w', encoding='utf8') as f:
        json.dump(d, f, ensure_ascii=False, indent=1)
    os.replace(p + '.tmp', p)
