"""C05: models living in one process are isolated from each other."""
import gc
import numpy as np
from sim import hist, model, ops, prog, sibling, world
from sim.model import Violation
from sim.world import sig, stat
from . import c02, common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C05'
COUNTS = {'quick': 900, 'thorough': 14000}
RULE = ('2-4 random programs (some the same, some failing in the middle of their set-up) whose constructions, evaluations, failures and '
        'disposal interleave in one process, also in the middle of each other\'s set-up, with the process having created any number '
        'of expressions before; non-trivial if at least two models are evaluated')


class Planted(Exception):
    """What a failing user model raises."""


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3, 4])
    models = []
    alike = rng.random() < 0.5       # models that differ in parameters of operations only
    # the models have the same few operations in common, with other shapes and parameters
    ops = common.theme(rng) if rng.random() < 0.6 else None
    for k in range(n):
        if k and rng.random() < (0.75 if alike else 0.4):
            src = models[rng.randrange(k)]
            m = dict(src, mode=rng.choice(['fwd', 'rev']))
            if alike or rng.random() < 0.3:
                m['script'] = sibling.sibling(rng, src['script'], src['points']) or src['script']
            models.append(m)
            continue
        cfg = {'opset': ops} if ops else {}
        if alike:
            cfg['cube'] = rng.choice([2, 3, 3, 4])
        c, _, _ = common.program(rng, 2, kinds=('ot', 'inline'), nexpr=rng.choice([2, 4, 6, 9]), cfg=cfg)
        c['mode'] = rng.choice(['fwd', 'rev'])
        if not all(prog.in_domain(c['script'], dict(hist.declared(c['script']), **p)) for p in c['points'][:1]):
            return None
        c.pop('pkind')
        models.append(c)
    ev = []
    for _ in range(rng.choice([6, 10, 16, 24])):
        m = rng.randrange(n)
        o = rng.choices(['new', 'setup', 'set', 'run', 'totals', 'checkpart', 'linearize', 'poison', 'fail', 'drop', 'bump', 'inside'],
                        [.6, 1, 2, 3, 2, .3, .3, .3, .7, .5, .8, 1])[0]
        if o == 'set':
            ev.append([m, 'set', rng.randrange(2)])
        elif o == 'poison':
            ev.append([m, 'poison', rng.randrange(99)])
        elif o == 'fail':
            ev.append([m, 'fail', rng.randrange(12)])
        elif o == 'bump':
            ev.append([m, 'bump', rng.choice([1, 62, 63, 256, 1000, 3844, 4096, 238328])])
        elif o == 'inside':
            inner = [[rng.choice([x for x in range(n) if x != m]), rng.choice(['new', 'setup', 'run', 'totals', 'drop'])]
                     for _ in range(rng.choice([1, 2, 3]))]
            ev.append([m, 'inside', rng.randrange(12), inner])
        else:
            ev.append([m, o])
    ev += [[m, 'totals'] for m in range(n)]
    return {'models': models, 'events': ev, 'world': common.world_of(rng)}


class Proc:
    def __init__(self, case):
        self.case = case
        self.D = {}
        self.hook = None
        self.base = case['world']['counter']
        self.evaluated = set()

    def live(self, m, setup=True):
        if m not in self.D:
            self.new(m)
        D = self.D[m]
        if setup and not D.ready:
            self.setup(m)
        return D

    def new(self, m):
        c = self.case['models'][m]
        L = model.Live(c['script'], hooks={'after': self.after}, mode=c['mode'])
        D = hist.Driver(L, c['points'])
        D.ready = False
        self.D[m] = D

    def after(self, group, st, env):
        if self.hook is not None:
            self.hook()

    def setup(self, m):
        D = self.live(m, False)
        D.op(['setup'])
        D.ready = True
        D.L.prob.final_setup()
        sig(c02.check(D.L.script, D.L.prob, D.L.hidden))

    def event(self, e):
        m, o = e[:2]
        stat('event:' + o)
        if o == 'new':
            self.new(m)
        elif o == 'setup':
            self.setup(m)
        elif o == 'drop':
            self.D.pop(m, None)
            gc.collect()
        elif o == 'bump':
            self.base += 1000000 + e[2]
            world.set_counter(self.base)
        elif o == 'fail':
            # another model, of the same class, whose setup raises after its k-th statement
            stat('fault:model_fails_in_setup')
            left = [e[2]]

            def hook():
                left[0] -= 1
                if left[0] < 0:
                    raise Planted()
            old, self.hook = self.hook, hook
            c = self.case['models'][m]
            try:
                model.Live(c['script'], hooks={'after': self.after}).setup()
            except Planted:
                pass
            finally:
                self.hook = old
        elif o == 'inside':
            # in the middle of this model's set-up, others are built and evaluated
            left = [e[2]]
            done = []

            def hook():
                left[0] -= 1
                if left[0] < 0 and not done:
                    done.append(1)
                    old, self.hook = self.hook, None
                    try:
                        for q in e[3]:
                            if q[0] != m:
                                self.event(q)
                    finally:
                        self.hook = old
            self.live(m, False)
            old, self.hook = self.hook, hook
            try:
                self.setup(m)
            finally:
                self.hook = old
        else:
            D = self.live(m)
            self.evaluated.add(m)
            D.op([o] + e[2:])


def run(case):
    common.enter(case)
    for c in case['models']:
        common.note_ops(c['script'])
    P = Proc(case)
    for e in case['events']:
        if e[0] < len(case['models']):
            P.event(e)
    return {'nt': len(P.evaluated) >= 2}


def shrink(case):
    for ev in hist.drop_parts(case['events']):
        yield dict(case, events=ev)
    for m in range(len(case['models'])):
        for c in hist.shrink_script(case['models'][m]['script']):
            ms = list(case['models'])
            ms[m] = dict(ms[m], script=c)
            yield dict(case, models=ms)
    w = case['world']
    if w['counter'] or w['hash'] != ['creation', 0]:
        yield dict(case, world={'counter': 0, 'hash': ['creation', 0]})
