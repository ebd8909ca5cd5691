"""C12: an interruption at any instant leaves the model usable."""
import random
from sim import hist, imp, imphist, model, prog, world
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C12'
COUNTS = {'quick': 260, 'thorough': 9000}
RULE = ('a random model (flat, nested, implicit, with native components) and a random history in which set-ups, evaluations, '
        'derivatives and checks are interrupted at a chosen executed line of the library (uniform over lines or over executions), '
        'or a user component fails, and then repeated; a second model in the process is evaluated in between. Non-trivial if at '
        'least one interruption fired')
ACTS = ['setup', 'setup', 'run', 'totals', 'totals', 'linearize', 'checkpart']


def gen(rng, i, tier):
    kind = rng.choices(['plain', 'native', 'imp'], [0.45, 0.2, 0.35])[0]
    if kind == 'imp':
        r = imp.gen_model(rng)
        if r is None:
            return None
        case = {'script': r[0], 'points': hist.points_json(r[1])}
    elif kind == 'native':
        case, _, _ = common.program(rng, kind='nested', kinds=['om', 'omgroup', 'ot', 'inline'])
    else:
        case, _, _ = common.program(rng)
    case['world'] = common.world_of(rng)
    case['kind'] = kind
    case['mode'] = rng.choice(['fwd', 'rev'])
    case['other'] = None
    if rng.random() < 0.4:
        o, _, _ = common.program(rng, npoints=2, nexpr=rng.randint(2, 6))
        case['other'] = {'script': o['script'], 'points': o['points']}
    script, pts = case['script'], case['points']
    common.plain_jacobians(script)
    if not prog.in_domain(script, dict(hist.declared(script), **pts[0])):
        return None
    h = []
    native = any(st['s'] == 'sub' and st['kind'] in ('om', 'omgroup') for st in common.walk(script))
    for _ in range(rng.choice([2, 3, 4])):
        for _ in range(rng.randrange(3)):
            h += hist.gen(rng, script, pts, 1, allow=('set', 'set1', 'run', 'poison', 'totals'))
        what = rng.choice(ACTS)
        if native and rng.random() < 0.4:
            h.append(['fail', rng.choice(['setup', 'compute', 'partials']), rng.randint(1, 3)])
        else:
            n = rng.choice([4, 6, 8]) if what == 'setup' else rng.choice([1, 2, 3])
            pick = [k for k in range(len(pts)) if prog.in_domain(script, dict(hist.declared(script), **pts[k]))]
            h.append(['int', what, rng.choice(['func', 'func', 'line', 'any']), rng.randrange(1 << 30),
                      [rng.choice(list(world.EXC)) for _ in range(n)], rng.random() < 0.25,
                      [rng.choice(pick), rng.randrange(1000)] if pick and rng.random() < 0.6 else None,
                      rng.choice(pick) if pick and rng.random() < 0.4 else None])
        if h[-1][0] == 'fail' and h[-1][1] == 'setup' or h[-1][1] == 'setup':
            h.append(['set', 0])
        if rng.random() < 0.5:
            h.append(['other', rng.randrange(2)])
    case['history'] = hist.validate(script, pts, [['set', 0]] + h)
    return case


class Interrupting(imphist.ImpDriver):
    fired = 0
    other = None

    def op(self, o):
        if o[0] == 'int':
            self.int(*o[1:])
        elif o[0] == 'fail':
            self.fail(*o[1:])
        elif o[0] == 'other':
            if self.other:
                self.other.op(['set', o[1]])
                self.other.op(['run'])
                self.other.op(['totals'])
        else:
            super().op(o)

    def act(self, what, fin=False):
        """the operation and nothing else"""
        L = self.L
        if what == 'setup':
            L.setup()
        elif what == 'run':
            L.run()
        elif what == 'totals':
            L.totals()
        elif what == 'linearize':
            L.prob.model.run_linearize()
        elif what == 'checkpart':
            self.noisy = True
            L.prob.check_partials(out_stream=None, method='fd')

    def ready(self, what):
        if what != 'setup' and what != 'run' and not self.valid:
            self.run()

    def again(self, what):
        """repeat and compare with the reference"""
        if what == 'checkpart':         # the user's probing was cut short: what it had perturbed is still perturbed
            self.L.set(dict(self.L.cur))
            self.guess(3)
            self.run()
        self.act(what)
        if what == 'setup':
            self.valid, self.noisy = False, False
            self.op(['set', 0])
            self.run()
            self.totals()
            return
        if what == 'run':
            self.valid = True
        self.L.check_values()
        if what == 'totals' or not self.noisy:
            self.totals()

    def fresh(self, what, other, seed):
        """evaluate elsewhere first, so that what is interrupted has something to do"""
        if what == 'setup':
            return
        L = self.L
        cur = dict(L.cur)
        L.set({n: v for n, v in self.points[other % len(self.points)].items() if n in L.leaf})
        self.guess(seed)
        self.run()
        if what == 'totals':
            L.totals()
        L.set(cur)
        self.guess(seed + 1)
        self.valid = False
        self.ready(what)

    def elsewhere(self, what, k):
        """the user does not repeat at the same point, but goes on at another one (and comes back)"""
        L = self.L
        cur = dict(L.cur)
        L.set({n: v for n, v in self.points[k].items() if n in L.leaf})
        if what == 'checkpart':
            self.guess(3)
        self.act('run')
        L.check_values()
        self.valid = True
        if not self.noisy:
            self.totals()
        L.set(cur)
        self.valid = False
        self.run()
        stat('continued_elsewhere')

    def int(self, what, how, seed, excs, double=False, fresh=None, move=None):
        rng = random.Random(seed)
        self.ready(what)
        if fresh:
            self.fresh(what, *fresh)
        with world.LinePoints(record=True) as lp:
            self.act(what)
        if not lp.count:
            return
        key = lambda c: (c[0].co_filename, c[0].co_firstlineno, c[1])  # noqa
        places = sorted(lp.seen, key=key)
        funcs = {}
        for c in places:
            funcs.setdefault(c[0], []).append(c)
        for n, exc in enumerate(excs):
            if n and not double:
                self.ready(what)
                if fresh:
                    self.fresh(what, *fresh)
            elif fresh and not n:
                self.fresh(what, *fresh)
            if how == 'func':
                k = rng.choice(lp.seen[rng.choice(rng.choice(list(funcs.values())))])
            elif how == 'line':
                k = rng.choice(lp.seen[rng.choice(places)])
            else:
                k = rng.randint(1, lp.count)
            self.valid = False
            try:
                with world.LinePoints(k, world.EXC[exc]) as p:
                    self.act(what)
            except (world.SimInterrupt, world.SimMemoryError):
                pass
            if p.fired:
                stat('fault:%s_in_%s' % (exc, what))
                stat('crashpoints')
                sig(p.where, k)
                self.fired += 1
            if double and n < len(excs) - 1:
                continue
            self.valid = what not in ('run', 'setup')
            if move is not None and what != 'setup':
                self.elsewhere(what, move)
            self.again(what)

    def fail(self, what, n):
        act = {'setup': 'setup', 'compute': 'run', 'partials': 'totals'}[what]
        self.ready(act)
        prog.FAULT[what] = n
        try:
            self.act(act)
        except prog.UserError:
            self.fired += 1
        prog.FAULT.clear()
        self.valid = act == 'totals'
        self.again(act)


def run(case):
    common.enter(case)
    common.note_ops(case['script'])
    L = model.Live(case['script'], mode=case['mode'])
    L.setup()
    D = Interrupting(L, case['points'], check='both')
    if case.get('other'):
        M = model.Live(case['other']['script'])
        M.setup()
        D.other = hist.Driver(M, case['other']['points'])
    for o in case['history']:
        D.op(o)
    D.op(['totals'])
    sig(model.exec_order(L.prob), case['history'], case['script'])
    return {'nt': D.fired > 0}


def shrink(case):
    if case.get('other'):
        yield dict(case, other=None)
    for k, o in enumerate(case['history']):
        if o[0] == 'int' and len(o[4]) > 1:
            h = list(case['history'])
            h[k] = o[:4] + [o[4][:1]]
            yield dict(case, history=h)
    yield from common.shrink(case)
