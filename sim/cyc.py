"""Random models with outputs defined in terms of themselves or of each other."""
import numpy as np
from . import ops, prog
from .common_ops import NOPOS, TOTAL
from .imp import Inner, dedup

PHI = ['sin', 'cos', 'tanh', 'arctan']


def gen_ring(rng, g, tag, nout=None):
    """Append to g: outputs tag0.. defined in terms of each other (a contraction). -> (statements, [(id, name, shape)])"""
    I = Inner(rng, g)
    n = nout or rng.choice([1, 1, 2, 2, 3, 4])
    start = len(g.script)
    base = [i for i in g.pool if g.vals[i][0].size <= 8]
    same = rng.random() < 0.5
    ys = []
    for k in range(n):
        b = rng.choice(base)
        sh = g.shape(b) if not same or not ys else ys[0][2]
        y = 'v%d' % g.n
        g.n += 1
        val = [round(rng.uniform(-1, 1), 3) for _ in range(int(np.prod(sh)))]
        ys.append([y, '%s%d' % (tag, k), tuple(sh), b, val])
        g.script.append(dict(s='create', id=y, name='%s%d' % (tag, k), shape=list(sh), val=np.array(val).reshape(sh).tolist()))
    # which output is computed from which
    style = rng.choice(['ring', 'ring', 'random', 'self', 'dense'])
    uses = []
    for k in range(n):
        if style == 'self' or n == 1:
            u = [k]
        elif style == 'ring':
            u = [(k + 1) % n] + ([k] if rng.random() < 0.2 else [])
        elif style == 'dense':
            u = list(range(n))
        else:
            u = rng.sample(range(n), rng.randint(1, n))
        uses.append(u)
    shared = {}

    def phi(j, sh):
        """a bounded expression of output j with slope at most 1 (row sums), of shape sh"""
        key = (j, sh)
        if key in shared and rng.random() < 0.6:
            return shared[key]
        y, _, s, _, _ = ys[j]
        t = y
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            t = I.op(rng.choice(PHI), [t])
        if s != sh:
            if s != (1,) and len(s) == 1 and rng.random() < 0.3:
                t = I.op('getitem', [y], {'key': rng.randrange(s[0])})
                t = I.op(rng.choice(PHI), [t])
            elif s != (1,):
                t = I.op('average', [t], {'axes': None})
            if sh != (1,):
                t = I.op('expand', [t], {'shape': list(sh), 'idx': None})
        elif rng.random() < 0.2 and s != (1,):
            t = I.op('average', [t], {'axes': None})
            t = I.op('expand', [t], {'shape': list(sh), 'idx': None})
        shared[key] = t
        return t
    defs = []
    for k, (y, name, sh, b, val) in enumerate(ys):
        terms = []
        for j in uses[k]:
            c = round(rng.uniform(0.05, 0.4) / len(uses[k]), 4) * rng.choice([-1, 1])
            terms.append(I.op('mulc', [phi(j, sh)], {'c': c}))
        if g.shape(b) == sh or rng.random() < 0.7:
            t = I.fit(b, g.shape(b), sh)
            if rng.random() < 0.5:
                t = I.op(rng.choice(PHI), [t])
            terms.append(t)
        else:
            terms.append(I.op('addc', [terms.pop()], {'c': round(rng.uniform(-1, 1), 3)}))
        rng.shuffle(terms)
        e = terms[0]
        for t in terms[1:]:
            e = I.op(rng.choice(['add', 'sub']), [e, t])
        if len(terms) == 1 and rng.random() < 0.3:
            e = I.op('neg', [e])
        d = dict(s='define', id=y, src=e)
        if rng.random() < 0.6:
            g.script.append(d)
        else:
            defs.append(d)
    rng.shuffle(defs)
    g.script += defs
    st = g.script[start:]
    return st, [(y, name, sh) for y, name, sh, _, _ in ys]


def solver(rng, kind=None):
    kind = kind or rng.choice(['gs', 'gs', 'gs', 'newton', 'jac'])
    nl = {'kind': kind, 'maxiter': {'gs': 300, 'newton': 60, 'jac': 1500}[kind], 'atol': 1e-13, 'rtol': 1e-30,
          'err_on_non_converge': True}
    return dict(s='solver', nl=nl, lin=rng.choice(['direct', 'direct', 'csc', 'krylov', 'gs']))


def gen_model(rng, npoints=3, nested=None):
    """-> (script, points, kind) or None; kind: 'flat', 'nested' (the cycle is in a child group), 'across' (through a child)"""
    kind = nested or rng.choice(['flat', 'flat', 'flat', 'nested', 'across'])
    # unconverged values of the outputs, and everything else that a solver of the whole model evaluates before its inputs have
    # settled, must stay in the domain of every operation
    alg = rng.choice(['gs', 'gs', 'gs', 'newton', 'jac'])
    g = prog.Gen(rng, npoints, {'opset': NOPOS if kind == 'nested' or alg == 'gs' else TOTAL, 'maxsize': 10, 'p_new': 0.2})
    for _ in range(rng.randint(1, 3)):
        g.leaf(rng.choice([(1,), (1,), (2,), (3,), (2, 2)]))
    g.exprs(rng.choice([0, 1, 2, 4]))
    if kind == 'nested':
        n = rng.choice([1, 1, 2])
        for k in range(n):
            if not nest(rng, g, k):
                return None
            g.exprs(rng.choice([0, 1, 2]))
    elif kind == 'across':
        g.cfg['opset'] = TOTAL
        across(rng, g)
        if not finish(g, {'cy0': 'cy0'}):
            return None
        g.exprs(rng.choice([0, 1, 2]))
    else:
        g.cfg['opset'] = TOTAL
        for k in range(rng.choice([1, 1, 2])):
            _, ys = gen_ring(rng, g, 'cy%d_' % k)
            if not finish(g, {y: name for y, name, _ in ys}):
                return None
            g.exprs(rng.choice([0, 1, 2, 4]))
    prog.register(g)
    if kind in ('flat', 'across'):
        g.script.insert(rng.choice([0, len(g.script)]), solver(rng, alg))
    return dedup(g.script), g.points, kind


def finish(g, ys):
    """values of the outputs (id -> name) at every point"""
    vals = {n: [] for n in ys.values()}
    for k in range(g.P):
        try:
            v = prog.solve(g.script, g.points[k])
        except prog.OutOfDomain:
            return False
        for n in vals:
            if np.max(np.abs(v[n])) > 50:
                return False
            vals[n].append(v[n])
    for i, n in ys.items():
        g.vals[i] = vals[n]
        g.pool.append(i)
    return True


def nest(rng, g, k):
    """a child group that contains the cycle"""
    named = {st['id']: st['name'] for st in g.script if st['s'] in ('indep', 'input', 'reg', 'create')}
    declared = {st['id']: st for st in g.script if st['s'] in ('indep', 'input')}
    cands = [i for i in g.pool if g.vals[i][0].size <= 8]
    gi = prog.Gen(rng, g.P, dict(g.cfg, prefix='n%d' % k, p_new=0.0, closed=True, opset=TOTAL))
    ins = rng.sample(cands, min(len(cands), rng.choice([1, 2])))
    for i in ins:
        if i not in named:
            named[i] = 'n%din%d' % (k, len(named))
            g.script.append(dict(s='reg', id=i, name=named[i]))
        j = 'v%d' % gi.n
        gi.n += 1
        val = declared[i]['val'] if i in declared else np.ones(g.shape(i)).tolist()
        st = dict(s='input', id=j, name=named[i], shape=list(g.shape(i)), val=val)
        if i in declared and declared[i].get('scalar'):
            st['scalar'] = 1
        gi.script.append(st)
        gi._add(j, g.vals[i])
    gi.exprs(rng.choice([0, 1]))
    _, ys = gen_ring(rng, gi, 'n%dy' % k)
    gi.script.insert(rng.choice([0, len(gi.script)]), solver(rng))
    kind = rng.choice(['ot', 'inline'])
    sub = dict(s='sub', name='n%dsub' % k, kind=kind, script=gi.script)
    if kind == 'ot':
        sub['promotes'] = ['*']
    g.script.append(sub)
    ids = {}
    for y, name, sh in ys:
        i = 'v%d' % g.n
        g.n += 1
        g.script.append(dict(s='input', id=i, name=name, shape=list(sh), val=np.ones(sh).tolist()))
        ids[i] = name
    return finish(g, ids)


def across(rng, g):
    """an output whose definition goes through a child group that reads it"""
    I = Inner(rng, g)
    b = rng.choice([i for i in g.pool if g.vals[i][0].size <= 8])
    sh = g.shape(b)
    val = np.array([round(rng.uniform(-1, 1), 3) for _ in range(int(np.prod(sh)))]).reshape(sh).tolist()
    y = 'cy0'
    g.script.append(dict(s='create', id=y, name='cy0', shape=list(sh), val=val))
    body = [dict(s='input', id='v0', name='cy0', shape=list(sh), val=val),
            dict(s='expr', id='v1', op=rng.choice(PHI), args=['v0'], p={}),
            dict(s='expr', id='v2', op='mulc', args=['v1'], p={'c': round(rng.uniform(0.1, 0.4), 3)}),
            dict(s='reg', id='v2', name='cz')]
    kind = rng.choice(['ot', 'inline', 'omgroup'])
    sub = dict(s='sub', name='across', kind=kind, script=body)
    if kind != 'inline':
        sub['promotes'] = ['*']
    g.script.append(sub)
    z = 'v%d' % g.n
    g.n += 1
    g.script.append(dict(s='input', id=z, name='cz', shape=list(sh), val=np.ones(sh).tolist()))
    e = I.op('add', [z, b]) if rng.random() < 0.5 else I.op('sub', [b, z])
    g.script.append(dict(s='define', id=y, src=e))
