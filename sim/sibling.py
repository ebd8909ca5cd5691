"""Models that look like a given one - the same statements and shapes - but compute something else."""
import copy
import numpy as np
from . import prog


def other_params(rng, st, shapes):
    """another parameter set for the operation of statement st (shapes: of the operands), or None"""
    p, op = copy.deepcopy(st['p']), st['op']
    x = shapes[0]
    if op in ('max', 'min', 'pnorm', 'cross', 'dot') and isinstance(p.get('axis'), int) and rng.random() < 0.7:
        c = [k for k in range(len(x)) if k != p['axis']]
        p['axis'] = rng.choice(c) if c else p['axis']
    elif op in ('max', 'min'):
        p['rho'] = rng.choice([q for q in (20., 5., 50., 2.) if q != p['rho']])
    elif op == 'pnorm':
        p['t'] = rng.choice([q for q in (2, 4, 6) if q != p['t']])
    elif op in ('sum', 'sumn', 'average', 'averagen') and p['axes']:
        p['axes'] = sorted(rng.sample(range(len(x)), np.size(p['axes'])))
    elif op == 'inner' and p['axes']:
        k = np.size(p['axes'][0])
        p['axes'] = [rng.sample(range(len(x)), k), rng.sample(range(len(shapes[1])), k)]
    elif op == 'einsum':
        p['subs'] = [''.join(rng.sample(s, len(s))) for s in p['subs']]
        p['out'] = ''.join(rng.sample(p['out'], len(p['out'])))
        p['fmt'] = rng.choice(['dense', 'sparse'])
    elif op == 'reorder_axes':
        rng.shuffle(p['perm'])
    elif op == 'expand' and p['idx']:
        i, o = p['idx'].split('->')
        pos = sorted(rng.sample(range(len(o)), len(i)))
        e = iter('mnop')
        p['idx'] = i + '->' + ''.join(i[pos.index(k)] if k in pos else next(e) for k in range(len(o)))
    elif op == 'rotmat':
        p['axis'] = rng.choice('xyz')
    elif op == 'getitem':
        def shift(k, n):
            if isinstance(k, int):
                return rng.randrange(n)
            a, b, s = k
            if s is not None and s < 0:
                d = rng.randint(-b, n - 1 - a)
                return [a + d, b + d, s]
            a, b = a or 0, n if b is None else b
            d = rng.randint(-a, n - b)
            return [a + d, b + d, s]
        k = p['key']
        p['key'] = {'t': [shift(q, n) for q, n in zip(k['t'], x)]} if isinstance(k, dict) else shift(k, x[0])
    elif op == 'pow':
        c = p['c']
        p['c'] = np.array([rng.choice([1, 2, 3, 0.5, -1, 0]) for _ in range(np.size(c))], float).reshape(np.shape(c)).tolist() \
            if isinstance(c, list) else rng.choice([2, 3, 4, -1, 1, 0, 0.5, 1.5])
    elif 'c' in p:
        c = p['c']
        p['c'] = np.round(np.array(c) + rng.choice([1., -1., 0.5]), 3).tolist() if isinstance(c, list) else \
            round(c + rng.choice([1., -1., 0.5]), 3)
    else:
        return None
    return p if p != st['p'] else None


def sibling(rng, script, points, share=0.7):
    """a copy of the script with other parameters of some operations, or None; every shape and domain stays as it is"""
    new = copy.deepcopy(script)
    changed = 0

    def walk(stmts, env):
        nonlocal changed
        for k, st in enumerate(stmts):
            if st['s'] == 'sub':
                walk(st['script'], None)
            elif st['s'] == 'expr' and rng.random() < share:
                for _ in range(3):
                    old = st['p'], list(st['args'])
                    shapes = shape_of(new, st)
                    if shapes is None:
                        break
                    args = shapes[:-1]
                    p = other_params(rng, st, args)
                    if p is None and len(args) == 2 and args[0] == args[1] and st['op'] != 'if_else':
                        st['args'] = st['args'][::-1]
                    elif p is None:
                        break
                    else:
                        st['p'] = p
                    now = shape_of(new, st)
                    if now is not None and now == shapes and all(prog.in_domain(new, q) for q in points):
                        changed += 1
                        break
                    st['p'], st['args'] = old
    walk(new, None)
    return new if changed else None


def shape_of(script, st):
    """shapes of the operands and of the result of statement st within the script, or None"""
    prog.SEEN = seen = {}
    try:
        with np.errstate(all='ignore'):
            prog.ref_eval(script, {})
    except Exception:
        return None
    finally:
        prog.SEEN = None
    return seen.get(id(st))
