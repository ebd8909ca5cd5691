"""C03: outputs equal the written expressions after any evaluation history."""
from sim import hist, model, prog, world
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT, shrink  # noqa

PROP = 'C03'
COUNTS = {'quick': 4500, 'thorough': 9000}
RULE = ('a random program over all documented operations (flat, nested or with inputs declared twice) and a random driver history '
        'of 4-16 operations on one live model; non-trivial if the history evaluates the model at least twice')
FOCUS = 'values'


def gen(rng, i, tier):
    case, flat, g = common.program(rng, p_huge=0.04)
    case['world'] = common.world_of(rng)
    case['mode'] = rng.choice(['fwd', 'rev', 'auto'])
    case['rbs'] = rng.random() < 0.3
    if FOCUS == 'totals':
        case['lin'] = rng.choice([None, None, 'direct', 'csc', 'dense', 'krylov', 'gs'])
    n = rng.choice([4, 6, 8, 12, 16]) if 'huge' not in case else rng.choice([2, 3, 4])
    w = dict(totals=0.6, partials=0.5) if FOCUS == 'values' else dict(totals=3.5, run=1.5)
    case['cx'] = rng.random() < 0.25
    if case['cx']:
        w.update(checkpart=2., checktot=1.)
    h = hist.gen(rng, case['script'], case['points'], n, weights=w, cx=case['cx'])
    h.append(['set', rng.randrange(len(case['points']))])
    h += [['run']] if FOCUS == 'values' else [['run'], ['totals'], ['totals']]
    if not all(prog.in_domain(case['script'], dict(hist.declared(case['script']), **p)) for p in case['points'][:1]):
        return None
    case['history'] = hist.validate(case['script'], case['points'], h)
    return case


def run(case):
    common.enter(case)
    common.note_ops(case['script'])
    L = model.Live(case['script'], hooks={'rbs': case['rbs'], 'lin': case.get('lin')}, mode=case['mode'], complex_=case.get('cx', False))
    L.setup()
    D = hist.Driver(L, case['points'], check=FOCUS)
    for o in case['history']:
        D.op(o)
    if FOCUS == 'values':
        D.op(['run'])
    else:
        D.op(['totals'])
    order = model.exec_order(L.prob)
    sig(order, case['history'], case['script'])
    ev = sum(o[0] not in ('set', 'set1', 'poison') for o in case['history'])
    return {'nt': ev >= 2}
