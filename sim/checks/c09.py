"""C09: implicitly defined outputs satisfy their residuals after every solve that reports convergence."""
from sim import hist, imp, imphist, model, prog, world
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C09'
COUNTS = {'quick': 400, 'thorough': 9000}
RULE = ('a random model with one or two implicit components (1-3 outputs each, Newton or bracketed, shared inputs, coupled outputs, '
        'internal subsystems) and a random history of evaluations at changing points, initial guesses, truncated, failed and '
        'interrupted solves; non-trivial if the history evaluates the model at least twice')
FOCUS = 'values'


def gen(rng, i, tier):
    r = imp.gen_model(rng)
    if r is None:
        return None
    script, pts = r
    common.add_resembling(rng, script, pts, how='nudge' if prog.factors(script) else rng.choice(['nudge', 'zero', 'zero']))
    case = {'script': script, 'points': hist.points_json(pts)}
    case['world'] = common.world_of(rng)
    case['mode'] = rng.choice(['fwd', 'rev', 'auto'])
    if not prog.in_domain(script, dict(hist.declared(script), **pts[0])):
        return None
    case['lin'] = rng.choice([None, None, 'direct', 'csc', 'dense', 'krylov', 'gs']) if FOCUS == 'totals' else None
    w = dict(totals=0.5) if FOCUS == 'values' else dict(totals=4, run=1.5, truncate=0.5)
    h = imphist.gen(rng, script, case['points'], rng.choice([4, 6, 8, 12]), w)
    h.append(['set', rng.randrange(len(pts))])
    h.append(['run'] if FOCUS == 'values' else ['totals'])
    h = [['set', 0]] + h
    if any(o[0] == 'interrupt' and o[3] != 'setup' for o in h):      # Newton's method linearizes while running
        common.plain_jacobians(script)
        case['lin'] = 'direct0' if case['lin'] in ('csc', 'dense', 'direct') else case['lin']
    case['history'] = hist.validate(script, case['points'], fix(h))
    return case


def fix(h):
    """a new set-up brings the declared values back: start again from a whole point"""
    out = []
    for o in h:
        out.append(o)
        if o[0] == 'setup' or (o[0] == 'interrupt' and o[3] == 'setup'):
            out.append(['set', 0])
    return out


def run(case):
    common.enter(case)
    common.note_ops(case['script'])
    L = model.Live(case['script'], mode=case['mode'], hooks={'lin': case.get('lin')})
    L.setup()
    D = imphist.ImpDriver(L, case['points'], check=FOCUS)
    for o in case['history']:
        D.op(o)
    D.op(['run'] if FOCUS == 'values' else ['totals'])
    sig(model.exec_order(L.prob), case['history'], case['script'])
    ev = sum(o[0] not in ('set', 'set1', 'poison', 'guess') for o in case['history'])
    return {'nt': ev >= 2}


def shrink(case):
    yield from hist.shrink(case, single=[('mode', ['fwd'])])
    for k, st in enumerate(case['script']):
        if st['s'] == 'imp':
            for key, val in (('lin', 'direct'),):
                if st['cfg'].get(key) != val:
                    s = list(case['script'])
                    s[k] = dict(st, cfg=dict(st['cfg'], **{key: val}))
                    yield dict(case, script=s)
    w = case['world']
    if w['counter']:
        yield dict(case, world=dict(w, counter=0))
    if w['hash'] != ['creation', 0]:
        yield dict(case, world=dict(w, hash=['creation', 0]))
