"""C06: models built and evaluated concurrently by several threads, one seeded interleaving per case."""
import gc
import random
from sim import hist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import c02, common
from .common import STUB  # noqa

PROP = 'C06'
COUNTS = {'quick': 1600, 'thorough': 12000}
RULE = ('2-4 threads, each building and evaluating its own random program (half of the time several threads the same one), under one '
        'seeded interleaving decided at every bytecode of the library; non-trivial if control changed threads at least 3 times')
DISTINCT = 'sha1 over the sequence of thread switches (event index, thread) and component orders'
REAL = ['omtools', 'openmdao', 'numpy', 'Python threads']
STUB = STUB + ['thread scheduler: exactly one thread runs; the simulator decides at library bytecodes which']
ASSUMPTIONS = ['threads are preempted only inside library code: openmdao and numpy are taken to be thread-safe for separate problems']
FOCUS = ['__init__', 'initialize', 'gen_hex_name', 'add_dependency_node', '_dedup_dependencies', 'setup', 'register_output',
         '_sort_expressions_and_build_components', '_build_components', 'compute', 'compute_partials', 'topological_sort']


def gen(rng, i, tier):
    if rng.random() < 0.55:
        return aligned(rng)
    n = rng.choice([2, 2, 3, 4])
    models = []
    ops = common.theme(rng) if rng.random() < 0.6 else None
    for k in range(n):
        if k and rng.random() < 0.5:
            models.append(dict(models[rng.randrange(k)]))
            continue
        c, _, _ = common.program(rng, 2, kinds=('ot', 'inline'), nexpr=rng.choice([1, 2, 4, 6]), cfg={'opset': ops} if ops else None)
        if not all(prog.in_domain(c['script'], dict(hist.declared(c['script']), **p)) for p in c['points']):
            return None
        c.pop('pkind')
        models.append(c)
    return {'models': models, 'world': common.world_of(rng), 'seed': rng.randrange(1 << 30), 'rounds': rng.choice([1, 1, 2]),
            'rate': rng.choice([0.0001, 0.0005, 0.003, 0.02]), 'focus': rng.choice([None, [], rng.sample(FOCUS, 3), ['__init__', rng.choice(FOCUS)]]),
            'hot': rng.choice([0.02, 0.1, 0.4]), 'stores': rng.random() < 0.6,
            'phases': rng.choice(['all', 'all', 'build', 'construct'])}


def aligned(rng):
    """threads that do the same with different values, and that are preempted where the same operation is evaluated"""
    op = rng.choice(common.NOPOS)
    for _ in range(20):
        c, _, _ = common.program(rng, 2, 'flat', nexpr=rng.choice([1, 2, 3]), cfg={'opset': [op], 'mix': False})
        if all(prog.in_domain(c['script'], dict(hist.declared(c['script']), **p)) for p in c['points']):
            break
    else:
        return None
    c.pop('pkind')
    return {'models': [dict(c) for _ in range(rng.choice([2, 2, 3]))], 'world': common.world_of(rng), 'seed': rng.randrange(1 << 30), 'rounds': 1,
            'rate': rng.choice([0, 0.0001, 0.001]), 'focus': rng.choice([['compute'], ['compute_partials'], ['compute', 'compute_partials'], ['setup']]),
            'hot': rng.choice([0.05, 0.2, 0.5]), 'stores': rng.random() < 0.3, 'phases': 'all'}


def job(c, k, case, sums):
    def body():
        order = []
        for r in range(case['rounds']):
            L = model.Live(c['script'], mode='rev' if (k + r) % 2 else 'fwd')
            L.prob._name = 'thread%d_%d' % (k, r)
            L.setup()
            L.prob.final_setup()
            order = c02.check(L.script, L.prob, L.hidden)
            if case['phases'] != 'construct':
                L.set(c['points'][(k + r) % 2])
                L.run()
                L.check_values()
                if case['phases'] == 'all':
                    L.check_totals()
                    L.set(c['points'][(k + r + 1) % 2])
                    L.run()
                    L.check_values()
            sums[k] += 1
        return order
    return body


def run(case):
    common.enter(case)
    gc.disable()
    n = len(case['models'])
    sums = [0] * n
    B = world.Baton([job(c, k, case, sums) for k, c in enumerate(case['models'])], seed=case['seed'], plan=case.get('plan'),
                    rate=case['rate'], focus=case['focus'], hot=case['hot'], stores=case['stores'])
    B.run()
    stat('thread_switches', len(B.switches))
    stat('fault:preemption', len(B.switches))
    stat('bytecodes_scheduled', B.events)
    sig(B.switches, B.results)
    for k, e in enumerate(B.errors):
        if e is not None:
            if case.get('plan') is None:
                case['recorded'] = B.switches
            raise e
    stat('models_checked', sum(sums))
    return {'nt': len(B.switches) >= 3}


def shrink(case):
    # record the schedule of the failing run, then replay it explicitly with switches removed
    if 'plan' not in case:
        r = record(case)
        if r:
            yield dict(case, plan=r)
    else:
        for p in hist.drop_parts(case['plan']):
            yield dict(case, plan=p)
    if case['rounds'] > 1:
        yield dict(case, rounds=1)
    for k in range(len(case['models'])):
        if len(case['models']) > 2:
            yield dict(case, models=case['models'][:k] + case['models'][k + 1:])
        for c in hist.shrink_script(case['models'][k]['script']):
            ms = list(case['models'])
            ms[k] = dict(ms[k], script=c)
            yield dict(case, models=ms)


def record(case):
    def fn(c):
        try:
            run(c)
        except BaseException:  # noqa
            pass
        return {'plan': c.get('recorded')}
    return world.run_forked(fn, dict(case), 100).get('plan')
