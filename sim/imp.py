"""Random models with implicitly defined outputs."""
import numpy as np
from . import ops, prog
from .common_ops import NOPOS


def _c(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3) * rng.choice([-1, 1])


class Inner:
    """Statement list of an ImplicitComponent under construction."""

    def __init__(self, rng, g):
        self.rng, self.g = rng, g

    def op(self, name, args, p=None):
        g = self.g
        i = 'v%d' % g.n
        g.n += 1
        g.script.append(dict(s='expr', id=i, op=name, args=list(args), p=p or {}))
        return i

    def fit(self, i, src, dst):
        """an expression of shape dst made from i of shape src"""
        if src == dst:
            return i
        if src != (1,):
            i = self.op(self.rng.choice(['sum', 'average']), [i], {'axes': None})
        if dst != (1,):
            i = self.op('expand', [i], {'shape': list(dst), 'idx': None})
        return i


def gen_component(rng, g, name, mode=None, nout=None):
    """Append to g (the generator of the outer program) an implicit component fed by outer expressions. -> ids of its outputs
    as they are known outside (declared as inputs after it), or None."""
    P = g.P
    mode = mode or rng.choice(['newton', 'newton', 'bracket'])
    # what goes in
    named = {st['id']: st['name'] for st in g.script if st['s'] in ('indep', 'input', 'reg', 'create')}
    cands = [i for i in g.pool if g.vals[i][0].size <= 6]
    ins = []
    for i in rng.sample(cands, min(len(cands), rng.choice([1, 1, 2, 3]))):
        if i not in named:
            named[i] = '%sin%d' % (name, len(ins))
            g.script.append(dict(s='reg', id=i, name=named[i]))
        ins.append(i)
    # the residuals are multiplied by something that is positive at some points and negative at others, but never small
    factor = None
    if not g.cfg.get('closed') and rng.random() < 0.3:
        factor = g.leaf((1,), 'normal')
        g.pool.remove(factor)
        st = g.script[-1]
        vals = [np.array([round(rng.uniform(0.4, 1.8), 3) * rng.choice([-1, 1])]) for _ in range(P)]
        g.vals[factor] = vals
        for k in range(P):
            g.points[k][st['name']] = vals[k]
        st['val'] = vals[0].tolist()
        named[factor] = st['name']
        ins.append(factor)
    gi = prog.Gen(rng, P, dict(g.cfg, opset=NOPOS, maxsize=8, p_new=0.0, prefix=name + 'k', closed=True))
    gi.n = 0
    declared = {st['id']: st for st in g.script if st['s'] in ('indep', 'input')}
    inner_factor = None
    for i in ins:
        j = 'v%d' % gi.n
        gi.n += 1
        if i == factor:
            inner_factor = j
        val = declared[i]['val'] if i in declared else np.ones(g.shape(i)).tolist()
        st = dict(s='input', id=j, name=named[i], shape=list(g.shape(i)), val=val)
        if i in declared and declared[i].get('scalar'):
            st['scalar'] = 1
        gi.script.append(st)
        gi._add(j, g.vals[i])
        if i == factor:
            gi.pool.remove(j)
    # constants computed by internal subsystems
    sub_at = None
    if rng.random() < 0.35:
        gs = prog.Gen(rng, P, dict(p_indep=1.0, opset=NOPOS, maxsize=6, prefix=name + 'c', p_new=0.3, maxleaves=3))
        gs.leaf(rng.choice([(1,), (2,), (2, 2)]))
        gs.points = [gs.points[0]] * P
        for i in list(gs.vals):
            gs.vals[i] = [gs.vals[i][0]] * P
        gs.cfg['p_new'] = 0.0
        gs.exprs(rng.choice([1, 2, 3]))
        last = gs.pool[-1]
        leafs = {st['id']: st for st in gs.script if st['s'] == 'indep'}
        if any(st['s'] == 'indep' and st['id'] != gs.script[0]['id'] for st in gs.script):
            # leaves added later hold other values per point: keep only programs of the first leaf
            gs = None
        if gs is not None:
            if last in leafs:
                nm, body = leafs[last]['name'], gs.script
            else:
                nm, body = name + 'r', gs.script + [dict(s='reg', id=last, name=name + 'r')]
            kind = rng.choice(['inline', 'ot', 'icreate'])
            sub = dict(s='sub', name=name + 'sub', kind=kind, script=body)
            if kind == 'ot':
                sub['promotes'] = ['*']
            gi.script.append(sub)
            j = 'v%d' % gi.n
            gi.n += 1
            gi.script.append(dict(s='input', id=j, name=nm, shape=list(gs.shape(last)), val=np.ones(gs.shape(last)).tolist()))
            gi._add(j, gs.vals[last])
            sub_at = nm
    I = Inner(rng, gi)
    gi.exprs(rng.choice([0, 1, 2, 4]))
    nout = nout or rng.choice([1, 1, 2, 2, 3])
    outs, multi = [], False
    shared = rng.choice(gi.pool)
    for k in range(nout):
        f = shared if rng.random() < 0.4 else rng.choice(gi.pool)
        sh = gi.shape(f) if rng.random() < 0.8 else rng.choice([(1,), (2,), (3,), (2, 2)])
        if int(np.prod(sh)) > 6:
            sh = (1,)
        y = 'v%d' % gi.n
        gi.n += 1
        val = round(rng.uniform(-1.5, 1.5), 3)
        st = dict(s='iout', id=y, name='%sy%d' % (name, k), shape=list(sh))
        if rng.random() < 0.5:
            st.update(val=val, scalar=1)
        else:
            st.update(val=[round(rng.uniform(-1.5, 1.5), 3) for _ in range(int(np.prod(sh)))])
            st['val'] = np.array(st['val']).reshape(sh).tolist()
        outs.append((st, y, f, tuple(sh)))
    order = rng.random() < 0.5
    if order:
        gi.script += [o[0] for o in outs]
    bodies = []
    for k, (st, y, f, sh) in enumerate(outs):
        c = _c(rng, 0.8, 3)
        budget = 0.3 * abs(c)
        fmax = max(np.max(np.abs(v)) for v in gi.vals[f])
        scale = 1.0 if fmax < 3 else round(3 / fmax, 4)
        start = len(gi.script)
        rhs = I.fit(f, gi.shape(f), sh)
        if gi.shape(f) != sh and gi.shape(f) != (1,):
            scale = round(scale / max(1, gi.vals[f][0].size), 4)
        if scale != 1.0:
            rhs = I.op('mulc', [rhs], {'c': scale})
        elif rng.random() < 0.3:
            rhs = I.op('sin', [rhs])
        terms = []
        style = rng.choice(['linear', 'bounded', 'bounded', 'cubic', 'exp', 'wave'] if mode == 'bracket' else
                           ['linear', 'bounded', 'bounded', 'dense', 'elem'])
        if style == 'bounded':
            t = I.op(rng.choice(['sin', 'cos', 'tanh', 'arctan']), [y])
            terms.append(I.op('mulc', [t], {'c': _c(rng, 0.05, budget * 0.5)}))
        elif style == 'dense' and sh != (1,):
            t = I.op(rng.choice(['sin', 'tanh']), [y])
            t = I.fit(t, sh, (1,))
            t = I.op('expand', [t], {'shape': list(sh), 'idx': None})
            terms.append(I.op('mulc', [t], {'c': round(_c(rng, 0.02, budget * 0.5 / int(np.prod(sh))), 4)}))
        elif style == 'elem' and len(sh) == 1 and sh[0] > 1:
            t = I.op('getitem', [y], {'key': rng.randrange(sh[0])})
            t = I.op('cos', [t])
            t = I.op('expand', [t], {'shape': list(sh), 'idx': None})
            terms.append(I.op('mulc', [t], {'c': _c(rng, 0.05, budget * 0.5)}))
        elif style == 'cubic':
            t = I.op('pow', [y], {'c': 3})
            terms.append(I.op('mulc', [t], {'c': np.sign(c) * round(rng.uniform(0.1, 0.6), 3)}))
        elif style == 'exp':
            t = I.op('exp', [I.op('mulc', [y], {'c': 0.3})])
            terms.append(I.op('mulc', [t], {'c': np.sign(c) * round(rng.uniform(0.1, 0.6), 3)}))
        elif style == 'wave':
            t = I.op('sin', [I.op('mulc', [y], {'c': 2.5})])
            terms.append(I.op('mulc', [t], {'c': _c(rng, 0.2, 2)}))
            multi = True
        couple = 0.5 / max(1, nout - 1)
        for q, (st2, y2, f2, sh2) in enumerate(outs):
            if q != k and rng.random() < 0.5 and (order or q < k):
                if len(sh2) == 1 and sh2[0] > 1 and rng.random() < 0.4:      # one element only
                    t = I.fit(I.op('getitem', [y2], {'key': rng.randrange(sh2[0])}), (1,), sh)
                    n2 = 1
                else:
                    t = I.fit(y2, sh2, sh)
                    n2 = 1 if sh2 == sh or sh2 == (1,) else int(np.prod(sh2))
                t = I.op(rng.choice(['sin', 'tanh', 'cos']), [t])
                terms.append(I.op('mulc', [t], {'c': round(_c(rng, 0.04, budget * couple / n2), 4)}))
        own = I.op('mulc', [y], {'c': c}) if rng.random() < 0.8 else I.op('cmul', [y], {'c': c})
        terms = [own] + terms
        rng.shuffle(terms)
        r = terms[0]
        for t in terms[1:]:
            r = I.op('add', [r, t])
        r = I.op('sub', [r, rhs]) if rng.random() < 0.6 else I.op('sub', [rhs, r])
        if rng.random() < 0.2:
            r = I.op('neg', [r])
        if inner_factor and rng.random() < 0.7:
            r = I.op('mul', [r, I.fit(inner_factor, (1,), sh)] if rng.random() < 0.5 else [I.fit(inner_factor, (1,), sh), r])
        body = gi.script[start:]
        del gi.script[start:]
        d = dict(s='residual', id=y, src=r)
        if mode == 'bracket':
            lim = (3.5 + sum(abs(b['p'].get('c', 0)) for b in body if b['op'] == 'mulc') + 1) / abs(c)
            b = [round(-lim - rng.random(), 3), round(lim + rng.random(), 3)]
            if rng.random() < 0.3:
                b.reverse()
            if rng.random() < 0.4:
                b = [np.full(sh, q).tolist() for q in b]
            d['x1'], d['x2'] = b
        bodies.append((st, body, d))
    for st, body, d in bodies:
        if not order:
            gi.script.append(st)
        gi.script += body
        if rng.random() < 0.7:
            gi.script.append(d)
            d = None
        if d is not None:
            bodies_late = gi.__dict__.setdefault('late', [])
            bodies_late.append(d)
    late = gi.__dict__.get('late', [])
    # a residual that is reused in another must not be defined late; definitions may come in any order otherwise
    rng.shuffle(late)
    gi.script += late
    cfg = {'lin': rng.choice([None, 'direct', 'krylov', None, 'csc', 'dense'])}
    if mode == 'newton':
        cfg['lin'] = cfg['lin'] or 'direct'       # openmdao requires a linear solver beside Newton
        cfg['nl'] = {'kind': 'newton', 'maxiter': 60, 'atol': 1e-12, 'rtol': 1e-30, 'err_on_non_converge': True}
    else:
        cfg['bis'] = rng.choice([60, 80, 100, 100])
    comp = dict(s='imp', name=name, script=gi.script, cfg=cfg)
    if factor:
        cfg['factor'] = named[factor]
    g.script.append(comp)
    res = []
    for st, y, f, sh in outs:
        i = 'v%d' % g.n
        g.n += 1
        g.script.append(dict(s='input', id=i, name=st['name'], shape=list(sh), val=np.ones(sh).tolist()))
        res.append((i, st['name'], sh))
    # values of the outputs at every point
    vals = {n: [] for _, n, _ in res}
    for k in range(P):
        try:
            v = prog.solve(g.script, g.points[k])
        except prog.OutOfDomain:
            return None
        for n in vals:
            vals[n].append(v[n])
    for i, n, sh in res:
        g.vals[i] = vals[n]
    return {'ids': [i for i, _, _ in res], 'multi': multi, 'name': name}


def gen_model(rng, npoints=3, mode=None, ncomp=None, nexpr=None):
    """-> (script, points) or None"""
    g = prog.Gen(rng, npoints, {'opset': NOPOS, 'maxsize': 10, 'p_new': 0.2})
    for _ in range(rng.randint(1, 3)):
        g.leaf(rng.choice([(1,), (1,), (2,), (3,), (2, 2)]))
    g.exprs(rng.choice([0, 1, 2, 3]))
    sinks = []
    for c in range(ncomp or rng.choice([1, 1, 1, 2])):
        r = gen_component(rng, g, 'z%d' % c, mode)
        if r is None:
            return None
        for i in r['ids']:
            if r['multi']:
                e = g.add_expr(rng.choice(['sin', 'cos', 'tanh']), [i], {})
                if e is not None:
                    g.pool.remove(e)
                    sinks.append(e)
            else:
                g.pool.append(i)
        g.exprs(nexpr if nexpr is not None else rng.choice([0, 1, 2, 4]))
    if g.n and not any(st['s'] == 'expr' for st in g.script):
        g.exprs(1)
    prog.register(g)
    have = {st['id'] for st in g.script if st['s'] == 'reg'}
    for k, e in enumerate(sinks):
        if e not in have:
            g.script.append(dict(s='reg', id=e, name='w%d' % k))
    return dedup(g.script), g.points


def dedup(script):
    """an expression is registered at most once"""
    seen, out = set(), []
    for st in script:
        if st['s'] == 'reg':
            if st['id'] in seen:
                continue
            seen.add(st['id'])
        out.append(st)
    return out
