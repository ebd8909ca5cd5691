"""C02: the built model has exactly the declared interface."""
import random
import re
import numpy as np
from sim import hist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C02'
COUNTS = {'quick': 2400, 'thorough': 40000}
RULE = ('a random program (flat in random topological orders, nested, or with inputs declared twice) with unused declarations and '
        'expressions, cyclic outputs and design variables, set up under 3 resolutions of the unordered choices and compared with the '
        'interface the program declares; non-trivial if at least one output and one independent or input are declared')


def gen(rng, i, tier):
    kind = rng.choice(['flat', 'shuffled', 'shuffled', 'nested', 'twice'] * 2 + ['imp'])
    if rng.random() < 0.06:          # next to nothing in the model
        g = prog.Gen(rng, 1, {'p_indep': 0.7})
        for _ in range(rng.choice([1, 1, 2])):
            g.leaf()
        if rng.random() < 0.4:
            g.exprs(1)
            prog.register(g)
        script = common.provider(rng, g.script) if rng.random() < 0.4 else g.script
        w = [common.world_of(rng) for _ in range(2)]
        return {'script': script, 'points': hist.points_json(g.points), 'worlds': w, 'world': w[0], 'rbs': False, 'pkind': 'tiny',
                'variants': []}
    cfg = {'p_new': rng.choice([0.15, 0.3, 0.5]), 'p_indep': rng.choice([0.3, 0.6, 0.9])}
    case, flat, g = common.program(rng, 1, 'flat' if kind == 'shuffled' else kind, cfg, nexpr=rng.choice([1, 2, 4, 6, 10, 14]),
                                   kinds=('ot', 'ot', 'inline'))
    script = list(case['script'])
    if kind not in ('nested', 'imp'):
        g.script = script
        if rng.random() < 0.6:           # declarations and expressions nobody needs
            n0 = len(script)
            for _ in range(rng.randint(1, 4)):
                g.leaf() if rng.random() < 0.4 else g.exprs(1)
            extra = script[n0:]
            del script[n0:]
            pos = 0 if rng.random() < 0.3 and all(st['s'] != 'expr' for st in extra) else len(script)
            script[pos:pos] = extra
        if rng.random() < 0.3:
            common.add_cycle(rng, g, script)
    case['script'] = script
    case['points'] = case['points'][:1]
    case.update(worlds=[common.world_of(rng) for _ in range(3)], rbs=rng.random() < 0.3, pkind=kind,
                variants=[rng.randrange(1 << 30) for _ in range(3)] if kind == 'shuffled' or kind == 'nested' and rng.random() < 0.7 else [])
    case['world'] = case['worlds'][0]
    return case


def shapes_of(script):
    vals = {n: np.array(st['val'], float).reshape(tuple(st['shape'])) if not st.get('scalar') else
            st['val'] * np.ones(tuple(st['shape'])) for n, st in prog.leaves(script).items()}
    for n, st in cyc(script).items():
        vals[n] = np.ones(tuple(st['shape']))
    for n, (_, st, _) in prog.unknowns(script).items():
        vals[n] = np.ones(tuple(st['shape']))
    with np.errstate(all='ignore'):
        return {n: v.shape for n, v in prog.ref_values(script, vals).items()}


def cyc(script):
    d = {st['id'] for st in script if st['s'] == 'define'}
    return {st['name']: st for st in script if st['s'] == 'create' and st['id'] in d}


def check(script, prob, hidden):
    m = prob.model
    leaf = prog.leaves(script)
    used = prog.used_leaves(script)
    outs = prog.outputs(script)
    shapes = shapes_of(script)
    indeps = {n for n, st in leaf.items() if st['s'] == 'indep'}
    inputs = {n for n in used if n in leaf} - indeps
    omap, imap = {}, {}
    for a, meta in m.get_io_metadata(iotypes=('output',), metadata_keys=['shape']).items():
        if not a.startswith('_auto_ivc'):
            omap.setdefault(meta['prom_name'], []).append((a, tuple(meta['shape'])))
    for a, meta in m.get_io_metadata(iotypes=('input',), metadata_keys=['shape']).items():
        if m._conn_global_abs_in2out.get(a, '_auto_ivc').startswith('_auto_ivc'):
            imap.setdefault(meta['prom_name'], []).append((a, tuple(meta['shape'])))
    # outputs and independents
    for n in list(outs) + sorted(indeps):
        p = hidden.get(n, n)
        got = omap.get(p, [])
        if len(got) != 1:
            raise Violation('output-missing' if not got else 'output-duplicated', '%s is offered by %s' % (p, [a for a, _ in got]))
        exp = tuple(leaf[n]['shape']) if n in leaf else shapes[n]
        if got[0][1] != exp:
            raise Violation('output-shape', '%s has shape %s, declared %s' % (p, got[0][1], exp))
    known = {hidden.get(n, n) for n in outs} | indeps
    for p in omap:
        if p not in known and '.' not in p and not p.startswith('_'):
            raise Violation('output-undeclared', '%s is offered by %s' % (p, omap[p][0][0]))
    # inputs
    if set(imap) != inputs:
        raise Violation('inputs', 'exposed %s, needed %s' % (sorted(imap), sorted(inputs)))
    for n in inputs:
        for a, sh in imap[n]:
            if sh != tuple(leaf[n]['shape']):
                raise Violation('input-shape', '%s has shape %s, declared %s' % (a, sh, leaf[n]['shape']))
    # initial values
    for n in sorted(indeps | inputs):
        st = leaf[n]
        exp = np.array(st['val'], float) if not st.get('scalar') else st['val'] * np.ones(tuple(st['shape']))
        got = np.array(prob.get_val(n))
        if got.shape != tuple(st['shape']) or not model.close(got, exp.reshape(tuple(st['shape'])), 1e-14, 1e-14):
            raise Violation('initial-value', '%s = %s, declared %s' % (n, model.brief(got), model.brief(exp)))
    for st in common.walk(script):
        if st['s'] in ('create', 'iout') and 'val' in st:
            got = np.array(prob.get_val(hidden.get(st['name'], st['name'])))
            exp = np.array(st['val'], float)
            exp = exp * np.ones(tuple(st['shape'])) if st.get('scalar') else exp.reshape(tuple(st['shape']))
            if got.shape != exp.shape or not model.close(got, exp, 1e-14, 1e-14):
                raise Violation('initial-value', 'output %s = %s, declared %s' % (st['name'], model.brief(got), model.brief(exp)))
    # design variables
    dv = {n for n in indeps if leaf[n].get('dv')}
    got = {re.sub('(_in)+$', '', v.get('name') or k) for k, v in m.get_design_vars().items()}
    if got != dv:
        raise Violation('design-variables', 'design variables %s, declared %s' % (sorted(got), sorted(dv)))
    if m.get_constraints() or m.get_objectives():
        raise Violation('responses', 'responses nobody declared')
    # nothing computes what nobody needs
    order, con = model.connections(prob)
    named = {hidden.get(n, n) for n in list(outs) + sorted(indeps)}
    need = {a.rpartition('.')[0] for n, l in omap.items() for a, _ in l if n in named}
    grew = True
    while grew:
        grew = False
        for s, t in con:
            if t in need and s not in need:
                need.add(s)
                grew = True
    dead = [c for c in order if c not in need]
    if dead:
        raise Violation('unneeded-component', '%s computes nothing any output needs' % dead[0])
    return order


def run(case):
    common.note_ops(case['script'])
    for k, w in enumerate(case['worlds']):
        common.enter(dict(case, world=w))
        script = case['script']
        if case['variants']:
            script = prog.shuffle(random.Random(case['variants'][k % len(case['variants'])]), script)
        L = model.Live(script, hooks={'rbs': case['rbs']})
        L.prob.setup()
        L.prob.final_setup()
        sig(check(script, L.prob, L.hidden))
        stat('interfaces_checked')
    return {'nt': bool(prog.outputs(case['script']))}


def shrink(case):
    yield from common.shrink(case)
    if case['variants']:
        yield dict(case, variants=[])
    for k in range(len(case['worlds'])):
        if len(case['worlds']) > 1:
            yield dict(case, worlds=case['worlds'][:k] + case['worlds'][k + 1:])
