"""Runs one check:  run.py C03 [quick|thorough]      re-runs a recorded violation:  run.py --replay FILE

A check generates cases (pure JSON, a function of VERIF_SEED, property and index), executes each in a forked child of a
lane process (so every case starts from the same state), compares with the oracle inside the child, and reports.  A lane is
a process with a fixed PYTHONHASHSEED.  Exit: 0 held, 1 violation, 2 the check itself failed."""
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NL = 8
CASE_TIMEOUT = 240          # of one case, in seconds that pass
CASE_CPU = 100              # ... and in seconds of computing


def load(prop):
    if VERIF not in sys.path:
        sys.path[:0] = [VERIF, REPO]
    return importlib.import_module('sim.checks.%s' % prop.lower())


def hashseed(seed, lane):
    return int(hashlib.sha256(b'%d/%d' % (seed, lane)).hexdigest()[:8], 16) % 4294967295


def env_for(hs, work):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OPENMDAO', 'PYTHON'))}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hs), MPLBACKEND='Agg', OPENMDAO_REPORTS='0',
             OPENMDAO_WORKDIR=work, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', SIM_WORK=work, TMPDIR=work, HOME=work,
             PYTHONWARNINGS='ignore', TESTFLO_RUNNING='1')
    return e


# ---- one case, in a forked child ---------------------------------------------------------------------------------
def execute(mod, case):
    """Result of one case: {'v': None | {kind, detail}, 'sig':, 'stats': {...}, 'nt': bool}. Runs in a forked child."""
    from sim import world, model, ops
    import traceback
    world.reset_stats()
    v, out = None, {}
    try:
        out = mod.run(case) or {}
        bad = ops.changed_arrays()
        if bad:
            raise model.Violation('user-array-modified', bad[0])
    except model.Violation as e:
        v = {'kind': e.kind, 'detail': e.detail[:600]}
    except world.HarnessError:
        raise
    except world.NoProgress as e:
        v = {'kind': 'no-progress', 'detail': str(e)[:300]}
    except SystemExit as e:
        v = {'kind': 'process-exit', 'detail': 'SystemExit(%r)' % (e.code,)}
    except MemoryError as e:
        v = {'kind': 'exception:MemoryError', 'detail': str(e)[:300]}
    except BaseException as e:  # noqa
        fr = [f for f in traceback.extract_tb(e.__traceback__)]
        tail = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(fr[-5:]))
        v = {'kind': 'exception:' + type(e).__name__, 'detail': '%s [%s]' % (str(e)[:400], tail)}
        if os.environ.get('SIM_TRACE'):
            v['trace'] = traceback.format_exc()
    st = dict(world.STATS)
    st.update(out.get('stats', {}))
    return {'v': v, 'sig': out.get('sig') or world.take_sig(), 'stats': st, 'nt': bool(out.get('nt', True))}


def forked(mod, case, timeout=CASE_TIMEOUT):
    from sim import world
    r = world.run_forked(lambda c: execute(mod, c), case, timeout, CASE_CPU)
    if 'sig' in r:
        return r
    base = {'sig': '', 'stats': {}, 'nt': True}
    if 'timeout' in r:
        return dict(base, v={'kind': 'no-progress', 'detail': 'case did not finish within %d s of computing' % CASE_CPU})
    if 'exit' in r:
        return dict(base, v={'kind': 'process-exit', 'detail': r['exit']})
    if 'died' in r:
        return dict(base, v={'kind': 'process-died', 'detail': r['died']})
    return dict(base, v=None, harness=r.get('harness', repr(r)))


def hung(v):
    return bool(v) and v['kind'] == 'no-progress' and 'did not finish' in v['detail']


def prepare(mod):
    from sim import world
    world.preload()
    if hasattr(mod, 'prepare'):
        mod.prepare()


def gen_case(mod, seed, i, tier):
    c = mod.gen(random.Random('%d/%s/%d' % (seed, mod.PROP, i)), i, tier)
    return json.loads(json.dumps(c, default=_js))


def _js(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def lane(prop, tier, seed, k, n, total, deadline, path):
    mod = load(prop)
    prepare(mod)
    bad = 0
    end = time.monotonic() + deadline
    with open(path, 'w') as f:
        for i in range(k, total, n):
            if time.monotonic() > end or os.path.exists(os.path.join(os.path.dirname(path), 'stop')):
                f.write(json.dumps({'cut': i}) + '\n')
                break
            case = gen_case(mod, seed, i, tier)
            if case is None:
                f.write(json.dumps({'i': i, 'skip': 1}) + '\n')
                continue
            cpu0 = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
            r = forked(mod, case)
            r['cpu'] = round(resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - cpu0, 2)
            r['i'] = i
            if i // n < 1 and not r['v']:     # determinism self-test on the first case of each lane
                r2 = forked(mod, case)
                r['redo'] = int(json.dumps([r['sig'], r['stats'], r['v']], sort_keys=True) ==
                                json.dumps([r2['sig'], r2['stats'], r2['v']], sort_keys=True))
            if r['v'] or r.get('harness') or i < 3:
                r['case'] = case
            f.write(json.dumps(r) + '\n')
            f.flush()
            if hung(r['v']):
                # one is enough; all lanes stop
                open(os.path.join(os.path.dirname(path), 'stop'), 'w').close()
            if r['v'] or r.get('harness'):
                bad += 1
                if bad >= 4:
                    f.write(json.dumps({'cut': i + n, 'why': 'violations'}) + '\n')
                    break


# ---- minimisation ------------------------------------------------------------------------------------------------
def minimise(path):
    """Rewrites the replay file with a smaller case showing the same kind of violation (time-bounded)."""
    rec = json.load(open(path))
    mod = load(rec['property'])
    prepare(mod)
    end = time.monotonic() + float(os.environ.get('SIM_MIN_S', '60'))
    if not hasattr(mod, 'shrink'):
        return
    kind = rec['violation']['kind']
    if hung(rec['violation']):
        return
    best, steps, tried, seen = rec['case'], 0, 0, set()
    best_v = rec['violation']
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in mod.shrink(best):
            if time.monotonic() > end:
                break
            cand = json.loads(json.dumps(cand, default=_js))
            key = hashlib.sha1(json.dumps(cand, sort_keys=True).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            r = forked(mod, cand, 60)
            if r['v'] and r['v']['kind'] == kind:
                best, best_v, improved, steps = cand, r['v'], True, steps + 1
                break
    rec.update(case=best, violation=best_v, minimised={'steps': steps, 'tried': tried})
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)


def replay(path):
    rec = json.load(open(path))
    if os.environ.get('PYTHONHASHSEED') != str(rec['hashseed']) or os.environ.get('SIM_WORK') is None:
        work = tempfile.mkdtemp(prefix='simr_')
        try:
            return subprocess.call([PY, os.path.join(HERE, 'run.py'), '--replay', path], env=env_for(rec['hashseed'], work), cwd=work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    mod = load(rec['property'])
    prepare(mod)
    r = forked(mod, rec['case'], CASE_TIMEOUT)
    print(json.dumps({'violation': r['v'], 'harness': r.get('harness')}))
    if r.get('harness'):
        return 2
    return 1 if r['v'] else 0


# ---- master ------------------------------------------------------------------------------------------------------
def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def matches(f, prop, v, case):
    if f['property'] != prop:
        return False
    m = f['match']
    if m.get('kind') and m['kind'] != v['kind']:
        return False
    if m.get('detail') and m['detail'] not in v['detail']:
        return False
    if m.get('case') and m['case'] not in json.dumps(case):
        return False
    return True


def master(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod_counts = load(prop)
    total = mod_counts.COUNTS[tier]
    deadline = 330 if tier == 'quick' else 600
    work = tempfile.mkdtemp(prefix='sim_%s_' % prop)
    try:
        procs = []
        for k in range(NL):
            w = os.path.join(work, 'w%d' % k)
            os.mkdir(w)
            path = os.path.join(work, 'lane%d.jsonl' % k)
            procs.append((k, path, subprocess.Popen(
                [PY, os.path.join(HERE, 'run.py'), '--lane', prop, tier, str(seed), str(k), str(NL), str(total), str(deadline), path],
                env=env_for(hashseed(seed, k), w), cwd=w, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, 'err%d' % k), 'wb'))))
        recs, errors, cut = [], [], 0
        for k, path, p in procs:
            try:
                rc = p.wait(timeout=deadline + CASE_TIMEOUT * 2 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = 'timeout'
            if rc != 0:
                errors.append('lane %d ended with %s: %s' % (k, rc, open(os.path.join(work, 'err%d' % k), errors='replace').read()[-1500:]))
            if os.path.exists(path):
                for line in open(path):
                    r = json.loads(line)
                    if 'cut' in r:
                        cut += 1
                        continue
                    if 'skip' in r:
                        continue
                    r['lane'] = k
                    recs.append(r)
        errors += ['case %d: %s' % (r['i'], r['harness']) for r in recs if r.get('harness')]
        code = report(prop, tier, seed, mod_counts, recs, errors, cut, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def report(prop, tier, seed, mod, recs, errors, cut, work, t0):
    kf = known()
    bad = sorted([r for r in recs if r['v']], key=lambda r: (len(json.dumps(r['case'])), r['i']))
    kinds, listed, confirmed, unconf = {}, [], [], []
    for r in bad:
        f = next((f for f in kf['findings'] if matches(f, prop, r['v'], r['case'])), None)
        if f:
            if f not in listed:
                listed.append(f)
        else:
            kinds.setdefault(r['v']['kind'], []).append(r)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    deadline = time.time() + 240
    for kind, rs in list(kinds.items())[:4]:
        done = False
        for r in rs[:3]:
            if time.time() > deadline or done:
                break
            path = os.path.join(VERIF, 'replays', '%s_seed%d_case%d.json' % (prop, seed, r['i']))
            hs = hashseed(seed, r['lane'])
            rec = {'property': prop, 'seed': seed, 'tier': tier, 'index': r['i'], 'hashseed': hs, 'violation': r['v'], 'case': r['case'],
                   'how': '%s %s --replay %s' % (PY, os.path.join(HERE, 'run.py'), path)}
            json.dump(rec, open(path, 'w'), indent=1)
            env = env_for(hs, work)
            ok = sum(subprocess.call([PY, os.path.join(HERE, 'run.py'), '--replay', path], env=env, cwd=work,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1 for _ in range(1))
            if not ok:
                unconf.append((r, path))
                continue
            orig = open(path).read()
            if hung(r['v']):
                confirmed.append((rec, path))
                break
            try:
                subprocess.call([PY, os.path.join(HERE, 'run.py'), '--minimise', path], env=dict(env, SIM_MIN_S='40'), cwd=work,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
            except subprocess.TimeoutExpired:
                open(path, 'w').write(orig)
            again = subprocess.call([PY, os.path.join(HERE, 'run.py'), '--replay', path], env=env, cwd=work,
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if again != 1:
                open(path, 'w').write(orig)
            confirmed.append((json.load(open(path)), path))
            done = True
    # findings that are listed are replayed from the list itself, so that each is reported whatever was generated
    for f in kf['findings']:
        if f['property'] == prop and f not in listed and 'replay' in f:
            p = os.path.join(work, 'kf.json')
            json.dump(f['replay'], open(p, 'w'))
            if subprocess.call([PY, os.path.join(HERE, 'run.py'), '--replay', p], env=env_for(f['replay']['hashseed'], work), cwd=work,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1:
                listed.append(f)
    for f in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    wall = time.time() - t0
    good = [r for r in recs if not r.get('harness')]
    stats, sigs = {}, set()
    for r in good:
        for a, b in r['stats'].items():
            if isinstance(b, (int, float)):
                stats[a] = stats.get(a, 0) + b
            elif isinstance(b, list):
                stats.setdefault(a, set()).update(b)
        if r['nt'] and r['sig']:
            sigs.add(r['sig'])
    redo = [r['redo'] for r in good if 'redo' in r]
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    opcount = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith('op:')}
    other = {k: (len(v) if isinstance(v, set) else v) for k, v in sorted(stats.items()) if not k.startswith(('fault:', 'op:'))}
    samples = [dict(index=r['i'], case=clip(r['case'])) for r in recs if 'case' in r and not r['v']][:2] or \
              [dict(index=r['i'], case=clip(r['case'])) for r in recs if 'case' in r][:1]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1),
          'violations': len(confirmed),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['the numpy reference interpreter is right',
                                                            'openmdao and numpy as installed behave as documented'],
          'coverage': {'evaluations': len(good), 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples,
                       'planned_cases': mod.COUNTS[tier], 'lanes_cut_short': cut, 'lanes': NL,
                       'hash_seeds': sorted({hashseed(seed, r['lane']) for r in recs}),
                       'slowest_case_cpu_s': max([r.get('cpu', 0) for r in good], default=0),
                       'simulated_runs_per_hour': int(len(good) / max(wall, 1e-9) * 3600),
                       'case_seeds_per_hour': int(len(good) / max(wall, 1e-9) * 3600),
                       'simulated_time': getattr(mod, 'TIME', 'the library has no clock; simulated time is counted in driver operations: see operations'),
                       'faults_injected': faults or 'none applicable to this property', 'operations': opcount, 'measures': other,
                       'distinct_measure': mod.DISTINCT, 'real_components': mod.REAL, 'stubbed_components': mod.STUB,
                       'determinism_reruns': len(redo), 'determinism_identical': sum(redo),
                       'known_findings_seen': [f['what'] for f in listed],
                       'unconfirmed': [{'index': r['i'], 'violation': r['v']} for r, _ in unconf]}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for rec, path in confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  case %d: %s: %s' % (rec['index'], rec['violation']['kind'], rec['violation']['detail'][:400]))
    print('%s %s: %d cases, %d distinct, %d violations, %.1f s' % (prop, tier, len(good), len(sigs), len(confirmed), wall))
    if confirmed:
        return 1
    for e in errors[:3]:
        print('CHECK ERROR', e)
    for r, path in unconf[:3]:
        print('CHECK ERROR not reproduced: case %d %s' % (r['i'], r['v']))
    if errors or unconf or not good:
        return 2
    return 0


def clip(case, n=1500):
    s = json.dumps(case)
    return json.loads(s) if len(s) <= n else s[:n] + '...'


def main():
    a = sys.argv[1:]
    if a[0] == '--lane':
        lane(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
        return 0
    if a[0] == '--minimise':
        minimise(a[1])
        return 0
    if a[0] == '--replay':
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return master(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
