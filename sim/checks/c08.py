"""C08: hierarchical models compute the same as the flat model."""
import random
import numpy as np
from sim import hist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import c02, common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C08'
COUNTS = {'quick': 700, 'thorough': 12000}
RULE = ('a random flat program and the same program split into nested groups (library groups, inline groups, native components and '
        'groups, up to 3 levels; promoted by wildcard, by name, under other names or connected explicitly), each built under 2 '
        'resolutions of the unordered choices, poisoned before one pass at every point and compared with the written program. '
        'Non-trivial if there is at least one subsystem')


def gen(rng, i, tier):
    case, flat, g = common.program(rng, 2, 'nested', nexpr=rng.choice([3, 5, 8, 12, 16]), wide=True, depth=rng.choice([1, 2, 2, 3]))
    case['flat'] = flat
    case['worlds'] = [common.world_of(rng) for _ in range(2)]
    case['world'] = case['worlds'][0]
    case['rbs'] = rng.random() < 0.3
    case['mode'] = rng.choice(['fwd', 'rev'])
    case['lin'] = rng.choice([None, None, None, 'direct', 'csc', 'krylov'])
    if not prog.in_domain(case['script'], dict(hist.declared(case['script']), **case['points'][0])):
        return None
    return case


def values(script, case, tag, nested):
    L = model.Live(script, hooks={'rbs': case['rbs'], 'lin': case['lin']}, mode=case['mode'])
    L.setup()
    L.prob.final_setup()
    if nested:
        fb = model.feedback(L.prob)
        if fb:
            raise Violation('feedback', '%s runs before its input from %s is computed' % (fb[0][1], fb[0][0]))
        sig(c02.check(script, L.prob, L.hidden))
    res = []
    for k, p in enumerate(case['points']):
        if not prog.in_domain(script, dict(L.cur, **p)):
            continue
        L.set(p)
        model.poison(L.prob, random.Random(tag * 10 + k))
        L.run()
        L.check_values()
        n = L.check_totals()
        stat('total_blocks_checked', n)
        outs = {n: np.array(L.prob.get_val(L.hidden.get(n, n))) for n in prog.outputs(script)}
        res.append((k, outs))
        stat('single_passes')
    return res


def run(case):
    common.note_ops(case['script'])
    for k, w in enumerate(case['worlds']):
        common.enter(dict(case, world=w))
        a = values(case['script'], case, k, True)
        if case.get('flat') and len(case['worlds']) > 1 and k == 0:
            b = dict(values(case['flat'], case, k, False))
            for q, outs in a:
                for n, v in b.get(q, {}).items():
                    if n in outs and not model.close(outs[n], v, 1e-12, 1e-12):
                        raise Violation('hierarchy', '%s = %s nested, %s flat' % (n, model.brief(outs[n]), model.brief(v)))
    return {'nt': any(st['s'] == 'sub' for st in case['script'])}


def shrink(case):
    if case.get('flat'):
        yield dict(case, flat=None)
    yield from common.shrink(case)
    for k in range(len(case['worlds'])):
        if len(case['worlds']) > 1:
            yield dict(case, worlds=case['worlds'][:k] + case['worlds'][k + 1:])
    if case['lin']:
        yield dict(case, lin=None)
    for k in range(len(case['points'])):
        if len(case['points']) > 1:
            yield dict(case, points=case['points'][:k] + case['points'][k + 1:])
