"""C01: components are placed in dependency order, independents first, however unordered choices are resolved."""
import glob
import os
import random
import runpy
import numpy as np
from sim import grow, hist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import common
from .common import REAL, STUB  # noqa

PROP = 'C01'
COUNTS = {'quick': 800, 'thorough': 12000}
DISTINCT = 'sha1 over the component orders obtained under the schedules of the case'
RULE = ('a random program (flat, flat rewritten in random topological orders, nested, or grown to hundreds of statements) built under 4 resolutions of the unordered '
        'choices, every output poisoned before one pass; every 16th case is a shipped example built under 3 resolutions; '
        'non-trivial if at least two components depend on each other')
NOT_EXAMPLES = {'ex_implicit_with_subsystems_internal_n2'}      # opens a browser


def exdir():
    import omtools
    return os.path.join(os.path.dirname(omtools.__file__), 'examples', 'valid')


def examples():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(exdir() + '/ex_*.py'))


def gen(rng, i, tier):
    worlds = [common.world_of(rng) for _ in range(4)]
    worlds[0]['hash'][0] = 'creation'
    worlds[1]['hash'][0] = rng.choice(['reverse', 'clustered'])
    if i % 16 == 5:
        ex = [e for e in examples() if e not in NOT_EXAMPLES]
        return {'example': ex[(i // 16) % len(ex)], 'worlds': worlds[:3], 'world': worlds[0]}
    if i % 16 in (7, 13):
        fam = [f for f in grow.FAMILIES if f not in ('cyclic', 'implicit')]
        script = grow.make(rng.sample(fam, rng.choice([1, 2, 3])), rng.randrange(1 << 30), rng.choice([12, 20, 30, 50]))
        return {'script': script, 'points': [{}], 'worlds': worlds, 'world': worlds[0], 'rbs': rng.random() < 0.4, 'variants': [],
                'pkind': 'grown'}
    kind = rng.choice(['flat', 'shuffled', 'shuffled', 'nested', 'nested', 'twice'])
    cfg = {'recent': rng.choice([0.2, 0.5, 0.8]), 'p_new': rng.choice([0.1, 0.25, 0.4])}
    case, flat, g = common.program(rng, 1, 'flat' if kind == 'shuffled' else kind, cfg, nexpr=rng.choice([3, 5, 8, 12, 16]))
    case.update(worlds=worlds, world=worlds[0], rbs=rng.random() < 0.4, variants=[])
    if kind == 'shuffled' or kind == 'nested' and rng.random() < 0.7:
        case['variants'] = [rng.randrange(1 << 30) for _ in worlds]
    case['pkind'] = kind
    return case


def check_build(script, rbs, points, tag, grown=False):
    L = model.Live(script, hooks={'rbs': rbs})
    L.setup()
    L.prob.final_setup()
    fb = model.feedback(L.prob)
    if fb:
        raise Violation('feedback', '%s runs before its input from %s is computed' % (fb[0][1], fb[0][0]))
    io = model.indep_order(L.prob)
    if io:
        raise Violation('independents-first', '%s comes after %s' % io[0])
    if grown:              # (values of these may overflow)
        return model.exec_order(L.prob), model.connections(L.prob)[1]
    L.set(points[0])
    model.poison(L.prob, random.Random(tag))
    L.run()
    L.check_values()
    stat('single_passes')
    return model.exec_order(L.prob), model.connections(L.prob)[1]


def run(case):
    if 'example' in case:
        return run_example(case)
    common.note_ops(case['script'])
    orders, ncon = set(), 0
    for k, w in enumerate(case['worlds']):
        case = dict(case, world=w)
        common.enter(case)
        script = case['script']
        if case['variants']:
            script = prog.shuffle(random.Random(case['variants'][k % len(case['variants'])]), script)
        o, con = check_build(script, case['rbs'], case['points'], k, case['pkind'] == 'grown')
        ncon = max(ncon, len(con))
        orders.add(repr([q for q in o if '_0' not in q]) + str(len(o)))
        sig(o)
    return {'nt': ncon > 0, 'stats': {'distinct_orders': len(orders)}}


def run_example(case):
    stat('example_runs', len(case['worlds']))
    ref = None
    for k, w in enumerate(case['worlds']):
        common.enter(dict(case, world=w))
        ns = runpy.run_path('%s/%s.py' % (exdir(), case['example']))
        prob = ns.get('prob')
        if prob is None:
            return {'nt': False}
        fb = model.feedback(prob)
        vals = {}
        for path, meta in prob.model.list_outputs(out_stream=None, prom_name=True):
            n = meta['prom_name'] if 'prom_name' in meta else path
            if not n.split('.')[-1].startswith('_') and not n.startswith('_auto'):
                vals[n] = np.array(meta['val'])
        sig(model.exec_order(prob))
        if k == 0:
            ref = (fb, vals)
            continue
        if fb and not ref[0]:
            raise Violation('feedback', 'example %s: %s' % (case['example'], fb[0]))
        if set(vals) != set(ref[1]):
            raise Violation('interface', 'example %s: outputs %s' % (case['example'], sorted(set(vals) ^ set(ref[1]))))
        for n in vals:
            if not model.close(vals[n], ref[1][n], 1e-6, 1e-8):
                raise Violation('value', 'example %s: %s depends on the schedule' % (case['example'], n))
    return {}


def shrink(case):
    if 'example' in case:
        return
    for c in common.shrink(case):
        yield c
    if case['variants']:
        yield dict(case, variants=[])
    if len(case['worlds']) > 1:
        for k in range(len(case['worlds'])):
            yield dict(case, worlds=case['worlds'][:k] + case['worlds'][k + 1:])
