"""C07: setting a model up again yields the same model."""
from sim import hist, imphist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import c02, common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C07'
COUNTS = {'quick': 600, 'thorough': 12000}
RULE = ('one model object (flat, nested, with implicit components, declared in setup or before it, children created once or anew) and '
        'a random history of set-ups, option changes, evaluations and failures; after each set-up the interface, the initial values, '
        'the outputs and the derivatives are compared with the written program. Non-trivial if it is set up at least twice')


def gen(rng, i, tier):
    how = rng.choices(['options', 'same', 'outside', 'kept'], [0.45, 0.25, 0.12, 0.18])[0]
    progs = []
    for _ in range(2 if how == 'options' else 1):
        kind = rng.choices(['flat', 'nested', 'twice', 'imp'], [0.3, 0.45, 0.05, 0.2])[0]
        if how == 'kept':
            kind = 'nested'
        c, _, g = common.program(rng, 2, kind, kinds=('ot', 'ot', 'inline', 'omgroup') if how != 'kept' else ('ot', 'ot', 'inline'),
                                 nexpr=None if kind == 'imp' else rng.choice([2, 4, 6, 9]))
        c.pop('pkind')
        if g is not None and kind != 'nested' and rng.random() < 0.15:
            common.add_cycle(rng, g, c['script'])
            c['cyc'] = True
        if not c.get('cyc') and not all(prog.in_domain(c['script'], dict(hist.declared(c['script']), **p)) for p in c['points'][:1]):
            return None
        progs.append(c)
    ev = [['setup', None]]
    cur = 0
    for _ in range(rng.choice([3, 5, 8, 12])):
        o = rng.choices(['setup', 'run', 'totals', 'set', 'option', 'final', 'abort', 'checkpart'], [2.5, 1.5, 1.5, 1.5, 2, .5, .8, .3])[0]
        if o == 'setup':
            ev.append([o, rng.choice(['fwd', 'rev', 'auto'])])
        elif o == 'set':
            ev.append([o, rng.randrange(2)])
        elif o == 'option':
            if len(progs) > 1:
                cur = 1 - cur
                ev += [[o, cur], ['setup', None]]
        elif o == 'abort':
            if how != 'outside':
                ev += [[o, rng.randrange(14)], ['setup', None]]
        else:
            ev.append([o])
    if ev[-1][0] != 'setup':
        ev.append(['setup', None])
    ev += [['totals'], ['set', 1], ['totals']]
    return {'progs': progs, 'how': how, 'events': ev, 'world': common.world_of(rng), 'rbs': rng.choice([None, True]),
            'lin': None if any(c.get('cyc') for c in progs) else rng.choice([None, None, 'direct', 'csc', 'krylov'])}


class Planted(Exception):
    pass


def run(case):
    common.enter(case)
    progs = case['progs']
    for c in progs:
        common.note_ops(c['script'])
    left = [None]

    def after(group, st, env):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise Planted()
    hooks = {'after': after}
    if case.get('lin'):
        hooks['lin'] = case['lin']
    if case['rbs'] is not None:
        hooks['rbs'] = case['rbs']
    if case['how'] == 'kept':
        hooks['kept'] = {}
    lib = world.lib()
    m = None
    if case['how'] == 'outside':
        m = lib.Group()
        prog.om_exec(m, progs[0]['script'], lib, None)
    k = 0
    D = live(progs[0], hooks, m)
    top, prob = D.L.prob.model, D.L.prob
    setups, changed = 0, False
    for e in case['events']:
        o = e[0]
        stat('event:' + o)
        if o == 'option':
            k = e[1] if e[1] < len(progs) else 0
            top.options['script'] = progs[k]['script']
            D = live(progs[k], hooks, top, prob)
            changed = True
        elif o == 'setup':
            D.op(['setup', e[1]] if e[1] else ['setup'])
            prob.final_setup()
            order = c02.check(progs[k]['script'], prob, D.L.hidden)
            sig(order)
            setups += 1
            changed = False
        elif o == 'abort':
            left[0] = e[1]
            try:
                D.L.setup()
                stat('fault:none')
            except Planted:
                stat('fault:model_fails_in_setup')
                changed = True
            left[0] = None
            D.valid = False
        elif changed:
            continue
        elif o == 'final':
            prob.final_setup()
        elif o == 'set':
            cur = dict(D.L.cur, **progs[k]['points'][e[1]])
            if progs[k].get('cyc') or prog.in_domain(progs[k]['script'], cur):
                D.op(e)
        elif progs[k].get('cyc'):
            if o == 'run':
                prob.run_model()
        else:
            if not D.valid and not prog.in_domain(progs[k]['script'], D.L.cur):
                continue
            D.op(e)
    return {'nt': setups >= 2}


def live(p, hooks, m, prob=None):
    L = model.Live(p['script'], hooks=hooks, model=m)
    if prob is not None:
        L.prob = prob
    return imphist.ImpDriver(L, p['points'])


def shrink(case):
    for ev in hist.drop_parts(case['events'], 1):
        yield dict(case, events=ev)
    for m in range(len(case['progs'])):
        for c in hist.shrink_script(case['progs'][m]['script']):
            ms = list(case['progs'])
            ms[m] = dict(ms[m], script=c)
            yield dict(case, progs=ms)
    w = case['world']
    if w['counter'] or w['hash'] != ['creation', 0]:
        yield dict(case, world={'counter': 0, 'hash': ['creation', 0]})
