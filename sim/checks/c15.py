"""C15: building a model takes a number of steps polynomial in its size."""
import math
from sim import grow, model, world
from sim.model import Violation
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C15'
COUNTS = {'quick': 330, 'thorough': 4000}
RULE = ('programs of 1-3 growing families (chains, repeated doubling, diamonds, ladders, fans, dense layers, trees, hubs, random sharing, '
        'reads and assemblies, cyclic and residual definitions, subsystems in a row and nested), at three doubling sizes up to several '
        'hundred statements, each set up 1-3 times under its own resolution of the unordered choices with a budget of library steps of '
        '1500 N + 0.4 N^3 for N statements and operand uses. Non-trivial if the largest program has at least 60 statements')


def bound(n):
    return int(1500 * n + 0.4 * n ** 3)


def gen(rng, i, tier):
    fam = list(grow.FAMILIES)
    k = rng.choice([1, 1, 1, 2, 2, 3])
    f = [fam[i % len(fam)]] + rng.sample([q for q in fam if q != fam[i % len(fam)]], k - 1)
    rng.shuffle(f)
    n = rng.choice([15, 25, 40, 60] if tier == 'quick' else [25, 40, 60, 90, 140])
    return {'families': f, 'seed': rng.randrange(1 << 30), 'sizes': [n, 2 * n, 4 * n], 'setups': rng.choice([1, 1, 2, 3]),
            'rbs': rng.random() < 0.4, 'world': common.world_of(rng)}


def run(case):
    common.enter(case)
    top = 0
    pts = []
    for n in case['sizes']:
        script = case.get('script') or grow.make(case['families'], case['seed'], n)
        N = grow.size(script)
        top = max(top, N)
        L = model.Live(script, hooks={'rbs': case['rbs']})
        for k in range(case['setups']):
            try:
                with world.StepCounter(bound(N)) as sc:
                    L.setup()
            except world.NoProgress:
                raise Violation('no-progress', 'set-up %d of %s at size %d (%d statements and operand uses) takes more than %d steps' % (
                    k + 1, '+'.join(case['families']), n, N, bound(N)))
            stat('build_steps', sc.steps)
            pts.append((N, sc.steps))
        L.prob.final_setup()
    worst = max(s / bound(n) for n, s in pts)
    stat('within_%d%%_of_budget' % (10 * math.ceil(10 * worst)))
    for f in case['families']:
        stat('family:' + f)
    sig(case['families'], pts, model.exec_order(L.prob)[:400])
    return {'nt': top >= 60}


def shrink(case):
    if len(case['families']) > 1:
        for k in range(len(case['families'])):
            yield dict(case, families=case['families'][:k] + case['families'][k + 1:])
    if case['setups'] > 1:
        yield dict(case, setups=1)
    if len(case['sizes']) > 1:
        for n in case['sizes']:
            yield dict(case, sizes=[n])
    elif case['sizes'][0] > 8:
        for n in (case['sizes'][0] // 2, case['sizes'][0] * 3 // 4, case['sizes'][0] - 1):
            yield dict(case, sizes=[n])
    w = case['world']
    if w['hash'] != ['creation', 0]:
        yield dict(case, world=dict(w, hash=['creation', 0], counter=0))
    if case['rbs']:
        yield dict(case, rbs=False)
