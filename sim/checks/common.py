"""What the checks share: the world of a case, and random programs."""
import random
import numpy as np
from sim import hist, model, ops, prog, world
from sim.world import sig, stat

NOPOS = [o for o in prog.OPS if o != 'pos']
REAL = ['omtools (all of /repo/omtools the program touches)', 'openmdao', 'numpy']
STUB = ['Variable.__hash__ (seeded)', 'Variable._count (seeded start)', 'numpy.empty inside omtools (seeded garbage)']
DISTINCT = 'sha1 over the order in which components were placed, schedule decisions and results of the oracle'
HASHMODES = ['random', 'random', 'creation', 'reverse', 'clustered']
COUNTERS = [0, 0, 7, 50, 200, 3950, 3966, 250030, 1 << 20]


def world_of(rng):
    """The simulated process: how unordered choices resolve, how many expressions there were, what memory holds."""
    return {'hash': [rng.choice(HASHMODES), rng.randrange(1 << 30)], 'counter': rng.choice(COUNTERS)}


def enter(case):
    mode, seed = case['world']['hash']
    world.install_hash(world.HashSchedule(seed, mode))
    world.set_counter(case['world']['counter'])
    world.install_empty(seed)
    if ops.SHARED is None:
        ops.SHARED = {}
    stat('hash_schedules')


# operations that compute with positions of elements
POSITIONAL = ['getitem', 'expand', 'reorder_axes', 'transpose', 'sum', 'sumn', 'average', 'max', 'min', 'pnorm', 'dot', 'cross', 'inner', 'einsum',
              'matvec', 'matmat', 'outer', 'reshape', 'rotmat', 'if_else', 'mul', 'getitem', 'expand']


def program(rng, npoints=3, kind=None, cfg=None, nexpr=None, p_create=None, kinds=None, wide=False, depth=None, p_provider=0.06, p_huge=0.):
    """A random program, flat or nested, as JSON-able case fields."""
    kind = kind or rng.choices(['flat', 'nested', 'twice'], [0.6, 0.3, 0.1])[0]
    if kind == 'imp':
        from sim import imp
        while True:
            r = imp.gen_model(rng, npoints)
            if r is not None:
                break
        return {'script': r[0], 'points': hist.points_json(r[1]), 'pkind': kind}, r[0], None
    c = dict(cfg or {})
    if rng.random() < 0.4:
        c.setdefault('mix', True)
    if rng.random() < 0.1:
        c.setdefault('big', True)
        c.setdefault('maxsize', 120)
    if p_huge and rng.random() < p_huge:
        c.update(huge=True, maxsize=300, maxleaves=3)
        nexpr = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.8:
            c['opset'] = rng.sample(POSITIONAL, 2) + ['getitem'] * (rng.random() < 0.3)
    if rng.random() < 0.35:
        c.setdefault('opset', theme(rng))
    if kind == 'nested':
        c.setdefault('opset', NOPOS)
    if p_create is not None:
        c['p_create'] = p_create
    elif rng.random() < 0.25:
        c['p_create'] = 0.4
    script, pts, g = prog.gen_program(rng, npoints, c, nexpr)
    if kind == 'twice':
        script = declare_twice(rng, script)
    flat = script
    if kind == 'nested':
        script = prog.hierarchize(rng, script, {k: v[0].shape for k, v in g.vals.items()}, depth=depth or rng.choice([1, 2]), wide=wide,
                                 **({'kinds': kinds} if kinds else {}))
    if kind in ('nested', 'flat', 'twice') and rng.random() < p_provider:
        script = provider(rng, script)
    if rng.random() < 0.3:
        script = shuffle_deep(rng, script)
    if rng.random() < 0.4:
        script = declare_early(rng, script)
    import copy
    s2, p2 = copy.deepcopy(script), [dict(p) for p in pts]
    scalarise(rng, s2, p2)
    if all(prog.in_domain(s2, p) for p in p2):
        script, pts = s2, p2
    pts = list(pts)
    if npoints > 1:
        add_resembling(rng, script, pts)
    r = {'script': script, 'points': hist.points_json(pts), 'pkind': kind}
    if c.get('huge'):
        r['huge'] = 1
    return r, flat, g


def theme(rng):
    """few operations, used repeatedly with different shapes and parameters"""
    return sorted(rng.sample(NOPOS, rng.choice([1, 2, 3]))) + ['add', 'mulc']


def add_resembling(rng, script, pts, how=None):
    if rng.random() < 0.5:
        q = resembling(rng, rng.choice(pts), how)
        if prog.in_domain(script, q):
            pts.append(q)


def resembling(rng, p, how=None):
    """a point that a careless comparison takes for p: hardly different, the same values in another order or with other
    signs, or with one entry different"""
    how = how or rng.choice(['nudge', 'nudge', 'nudge', 'order', 'sign', 'entry', 'zero'])
    if how == 'nudge':
        return nudged(rng, p)
    q = {k: np.array(v, float) for k, v in p.items()}
    for k in rng.sample(sorted(q), rng.randint(1, len(q))):
        v = q[k].reshape(-1)
        if how == 'order':
            v = np.array(rng.sample(v.tolist(), v.size))
        elif how == 'zero':
            v = 0 * v
        elif how == 'sign':
            v = v * np.array([rng.choice([-1., 1.]) for _ in range(v.size)])
        else:
            v[rng.randrange(v.size)] = round(rng.uniform(0.3, 1.7), 4)
        q[k] = v.reshape(q[k].shape)
    return q


def nudged(rng, p):
    eps = rng.choice([1e-3, 1e-5, 1e-7, 1e-8])
    return {k: np.asarray(v, float) * (1 + (eps * rng.uniform(0.3, 1) if rng.random() < 0.7 else 0)) for k, v in p.items()}


def scalarise(rng, script, pts):
    """Some leaves get a scalar as value (broadcast to the declared shape) instead of an array."""
    done = {}
    for st in walk(script):
        if st['s'] in ('indep', 'input') and not isinstance(st['val'], (int, float)):
            if st['name'] in done:
                if done[st['name']] is not None:
                    st.update(done[st['name']])
                continue
            done[st['name']] = None
            if st['name'] in pts[0] and rng.random() < 0.15:
                done[st['name']] = {'val': round(rng.uniform(0.4, 1.6), 4), 'scalar': 1}
                st.update(done[st['name']])
                # the script must be inside all domains at its declared values too: they become the first point
                import numpy as np
                pts[0][st['name']] = np.full(tuple(st['shape']), st['val'])


def walk(script):
    for st in script:
        yield st
        if st['s'] == 'sub':
            yield from walk(st['script'])


def shuffle_deep(rng, script):
    return [dict(st, script=shuffle_deep(rng, st['script'])) if st['s'] == 'sub' else st for st in prog.shuffle(rng, script)]


def provider(rng, script):
    """Some independents are created in a group of their own (nothing but independents in it), and declared as inputs here."""
    ind = [st for st in script if st['s'] == 'indep']
    if not ind:
        return script
    take = ind if rng.random() < 0.5 else rng.sample(ind, rng.randint(1, len(ind)))
    if rng.random() < 0.3:
        take = take[:1]
    ids = {st['id'] for st in take}
    body = [st for st in script if st['s'] == 'indep' and st['id'] in ids]
    names = [st['name'] for st in body]
    sub = dict(s='sub', name='prov', kind=rng.choice(['ot', 'ot', 'inline']), script=body, hidden=[])
    if sub['kind'] == 'ot':
        sub.update(rng.choice([{'promotes': ['*']}, {'promotes': names}, {'promotes_outputs': names}, {'promotes_outputs': ['*']}]))
    out = [sub]
    for st in script:
        out.append({'s': 'input', 'id': st['id'], 'name': st['name'], 'shape': st['shape'], 'val': st['val']}
                   if st['s'] == 'indep' and st['id'] in ids else st)
    return out


def declare_twice(rng, script):
    """Some uses of a declared input go through a second declaration of the same input."""
    ins = [st for st in script if st['s'] == 'input']
    if not ins:
        return script
    st = rng.choice(ins)
    twin = dict(st, id=st['id'] + 't')
    out = []
    for q in script:
        if q is st:
            out += [q, twin]
            continue
        if q['s'] == 'expr' and rng.random() < 0.5 and q['op'] != 'pos':
            q = dict(q, args=[twin['id'] if a == st['id'] else a for a in q['args']])
        out.append(q)
    return out


def declare_early(rng, script):
    """Outputs of subsystems are declared as inputs once more before the subsystem, for nothing"""
    made, out = {}, []
    for st in script:
        if st['s'] == 'sub':
            for n in prog.outputs([st]):
                made[n] = len(out)
            if st['kind'] in ('ot', 'inline'):
                st = dict(st, script=declare_early(rng, st['script']))
        out.append(st)
    for st in script:
        if st['s'] == 'input' and st['name'] in made and rng.random() < 0.6:
            out.insert(rng.randint(0, made.pop(st['name'])), {'s': 'early', 'name': st['name'], 'shape': st['shape'], 'val': st['val'],
                                                             'use': rng.random() < 0.3})
    return out


def plain_jacobians(script):
    """OpenMDAO keeps solving with an assembled Jacobian of the past once an exception passed through a linearization: not used where
    linearizations are stopped"""
    for st in walk(script):
        if st['s'] in ('imp', 'solver'):
            c = st.get('cfg', st)
            if c.get('lin') in ('csc', 'dense', 'direct'):
                c['lin'] = 'direct0'


def note_ops(script):
    for st in walk(script):
        if st['s'] == 'expr':
            stat('expr:' + st['op'])


def shrink(case):
    yield from hist.shrink(case, single=[('rbs', [False]), ('mode', ['fwd'])])
    w = case['world']
    if w['counter']:
        yield dict(case, world=dict(w, counter=0))
    if w['hash'] != ['creation', 0]:
        yield dict(case, world=dict(w, hash=['creation', 0]))
        yield dict(case, world=dict(w, hash=['random', 0]))


def add_cycle(rng, g, script, name='cyc'):
    """Append an output defined in terms of itself, as a contraction around some existing expression."""
    pool = [q for q in g.pool if g.vals[q][0].size]
    if not pool:
        return
    a = rng.choice(pool)
    sh = g.vals[a][0].shape
    n = g.n
    g.n += 5
    i, e1, e2, e3, e4 = ['v%d' % (n + k) for k in range(5)]
    val = [round(rng.uniform(-1, 1), 3) for _ in range(int(np.prod(sh)))]
    script.append(dict(s='create', id=i, name=name, shape=list(sh), val=np.array(val).reshape(sh).tolist()))
    script.append(dict(s='expr', id=e1, op='cos', args=[i], p={}))
    script.append(dict(s='expr', id=e2, op='mulc', args=[e1], p={'c': round(rng.uniform(0.1, 0.4), 3)}))
    script.append(dict(s='expr', id=e3, op='add', args=[e2, a], p={}))
    script.append(dict(s='define', id=i, src=e3))
