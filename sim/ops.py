"""Registry of the operations of the DSL: how to generate, interpret (numpy, complex-analytic) and build each.

Every op:  gen(g) -> (arg_ids, params) or None      g: prog.Gen, offers typed operands
           ref(p, *arrays) -> array                 independent semantics, works for complex input
           ok(p, *arrays) -> bool                   operands are well inside the operation's domain (real input)
           build(ot, p, *variables) -> variable     through the public API
"""
import numpy as np

OPS = {}


class Op:
    def __init__(self, name, gen, ref, build, ok=None, weight=1.0, tags=()):
        self.name, self.gen, self.ref, self.build = name, gen, ref, build
        self.ok = ok or (lambda p, *a: True)
        self.weight = weight
        self.tags = set(tags)
        OPS[name] = self


# ---- elementwise unary -------------------------------------------------------------------------------------------
def _unary(name, f, ok=None, weight=0.25):
    def gen(g):
        return [g.any()], {}
    Op(name, gen, lambda p, x: f(x), lambda ot, p, x: getattr(ot, name)(x), (lambda p, x: ok(x)) if ok else None,
       weight, tags=('unary', 'elementwise'))


def _away0(f, m=0.2):
    return lambda x: bool(np.all(np.abs(f(x)) > m))


_small = lambda x: bool(np.all(np.abs(x) < 4))
_unary('sin', np.sin, weight=0.5)
_unary('cos', np.cos, weight=0.5)
_unary('tan', np.tan, _away0(np.cos))
_unary('exp', np.exp, _small, weight=0.5)
_unary('log', np.log, lambda x: bool(np.all(x > 0.15)))
_unary('log10', np.log10, lambda x: bool(np.all(x > 0.15)))
_unary('sinh', np.sinh, _small)
_unary('cosh', np.cosh, _small)
_unary('tanh', np.tanh, _small)
_unary('sec', lambda x: 1 / np.cos(x), _away0(np.cos))
_unary('cosec', lambda x: 1 / np.sin(x), _away0(np.sin))
_unary('cotan', lambda x: np.cos(x) / np.sin(x), _away0(np.sin))
_unary('sech', lambda x: 1 / np.cosh(x), _small)
_unary('cosech', lambda x: 1 / np.sinh(x), lambda x: _small(x) and bool(np.all(np.abs(x) > 0.2)))
_unary('cotanh', lambda x: 1 / np.tanh(x), lambda x: _small(x) and bool(np.all(np.abs(x) > 0.2)))
_unary('arcsin', np.arcsin, lambda x: bool(np.all(np.abs(x) < 0.9)))
_unary('arccos', np.arccos, lambda x: bool(np.all(np.abs(x) < 0.9)))
_unary('arctan', np.arctan)
Op('neg', lambda g: ([g.any()], {}), lambda p, x: -x, lambda ot, p, x: -x, weight=0.4, tags=('unary', 'elementwise', 'arith'))
Op('pos', lambda g: ([g.any()], {}), lambda p, x: +x, lambda ot, p, x: +x, weight=0.1, tags=('alias',))


# ---- arithmetic --------------------------------------------------------------------------------------------------
def _gen_bin(g):
    a = g.any()
    b = g.like(a)
    return [a, b], {}


def _arr(p):
    c = p['c']
    return np.array(c, dtype=float) if isinstance(c, list) else c


def shared_array(c):
    """The array object a user's program would pass: the same object wherever the same constant is written, in every model
    and at every set-up of the process (when enabled)."""
    if SHARED is None:
        return np.array(c, dtype=float)
    k = repr(c)
    if k not in SHARED:
        a = np.array(c, dtype=float)
        SHARED[k] = (a, a.copy())
    return SHARED[k][0]


SHARED = None


def changed_arrays():
    """Arrays the library was given and modified."""
    return [k[:80] for k, (a, b) in (SHARED or {}).items() if a.shape != b.shape or a.tobytes() != b.tobytes()]


def _user(p):
    c = p['c']
    return shared_array(c) if isinstance(c, list) else c


def _gen_const(g):
    a = g.any()
    sh = g.shape(a)
    r = g.rng.random()
    if r < 0.3:
        c = g.rng.choice([-3, -2, -1, 2, 3, 4, 5, 1])
    elif r < 0.36:
        c = g.rng.choice([0, 0., 1., -1., np.round(g.sign(sh) + 1).tolist(), np.zeros(sh).tolist()])
    elif r < 0.7:
        c = round(g.rng.uniform(-2, 2), 3) or 0.5
    else:
        c = np.round(g.arr(sh, 0.3, 2.0) * g.sign(sh), 3).tolist()
    return [a], {'c': c}


_nz = lambda x: bool(np.all(np.abs(x) > 0.1))
Op('add', _gen_bin, lambda p, x, y: x + y, lambda ot, p, x, y: x + y, weight=1.5, tags=('arith', 'bin'))
Op('sub', _gen_bin, lambda p, x, y: x - y, lambda ot, p, x, y: x - y, weight=1.0, tags=('arith', 'bin'))
Op('mul', _gen_bin, lambda p, x, y: x * y, lambda ot, p, x, y: x * y, weight=1.5, tags=('arith', 'bin'))
Op('div', _gen_bin, lambda p, x, y: x / y, lambda ot, p, x, y: x / y, lambda p, x, y: _nz(y), weight=0.7, tags=('arith', 'bin'))
Op('addc', _gen_const, lambda p, x: x + _arr(p), lambda ot, p, x: x + _user(p), weight=0.5, tags=('arith',))
Op('subc', _gen_const, lambda p, x: x - _arr(p), lambda ot, p, x: x - _user(p), weight=0.5, tags=('arith',))
Op('mulc', _gen_const, lambda p, x: x * _arr(p), lambda ot, p, x: x * _user(p), weight=0.7, tags=('arith',))
Op('divc', _gen_const, lambda p, x: x / _arr(p), lambda ot, p, x: x / _user(p), lambda p, x: _nz(_arr(p)), weight=0.4, tags=('arith',))
Op('cadd', _gen_const, lambda p, x: _arr(p) + x, lambda ot, p, x: _user(p) + x, weight=0.4, tags=('arith',))
Op('csub', _gen_const, lambda p, x: _arr(p) - x, lambda ot, p, x: _user(p) - x, weight=0.5, tags=('arith',))
Op('cmul', _gen_const, lambda p, x: _arr(p) * x, lambda ot, p, x: _user(p) * x, weight=0.5, tags=('arith',))
Op('cdiv', _gen_const, lambda p, x: _arr(p) / x, lambda ot, p, x: _user(p) / x, lambda p, x: _nz(x), weight=0.4, tags=('arith',))


def _gen_pow(g):
    a = g.any()
    r = g.rng.random()
    if r < 0.5:
        c = g.rng.choice([2, 3, 2, 4, -1, -2, 1, 0])
    elif r < 0.8:
        c = g.rng.choice([0.5, 1.5, -0.5, 2.5, 2., 3.])
    else:
        n = int(np.prod(g.shape(a)))
        c = np.array([g.rng.choice([1, 2, 3, 0.5, -1, 0]) for _ in range(n)], float).reshape(g.shape(a)).tolist()
    return [a], {'c': c}


def _ok_pow(p, x):
    c = np.array(p['c'], float) * np.ones(x.shape)
    frac = c != np.round(c)
    return bool(np.all(x[frac] > 0.15)) and bool(np.all(np.abs(x[c < 0]) > 0.1))


def _ref_pow(p, x):
    c = _arr(p)
    if isinstance(c, np.ndarray):
        return x ** c
    return x ** c


Op('pow', _gen_pow, _ref_pow, lambda ot, p, x: x ** _user(p), _ok_pow, weight=1.5, tags=('arith',))


# ---- reductions --------------------------------------------------------------------------------------------------
def _axes(g, rank, allow_int=True, keep=True):
    k = g.rng.randint(1, max(1, rank - 1)) if keep else g.rng.randint(1, rank)
    ax = sorted(g.rng.sample(range(rank), k))
    if g.rng.random() < 0.3:         # counted from the end, in any order
        g.rng.shuffle(ax)
        ax = [q - rank if g.rng.random() < 0.5 else q for q in ax]
    return ax


def _ax(g, rank):
    a = g.rng.randrange(rank)
    return a - rank if g.rng.random() < 0.2 else a


def _gen_red(multi):
    def gen(g):
        form = g.rng.random()
        n = (g.rng.randint(4, 12) if g.rng.random() < 0.1 else g.rng.choice([2, 2, 3])) if multi else 1
        if form < 0.4:
            a = g.any()
            ax = None
        else:
            a = g.rank(2, 4)
            ax = _axes(g, len(g.shape(a)))
        return [a] + [g.like(a) for _ in range(n - 1)], {'axes': ax}
    return gen


def _ref_red(fn, mean):
    def ref(p, *xs):
        if p['axes'] is None:
            if len(xs) == 1:
                return np.reshape(fn(xs[0]), (1,))
            t = sum(xs[1:], xs[0])
            return t / len(xs) if mean else t
        ax = tuple(p['axes'])
        t = sum((fn(x, axis=ax) for x in xs[1:]), fn(xs[0], axis=ax))
        return t / len(xs) if mean else t
    return ref


def _kw_axes(p):
    return {} if p['axes'] is None else {'axes': tuple(p['axes'])}


Op('sum', _gen_red(False), _ref_red(np.sum, False), lambda ot, p, *x: ot.sum(*x, **_kw_axes(p)), weight=0.8, tags=('red',))
Op('sumn', _gen_red(True), _ref_red(np.sum, False), lambda ot, p, *x: ot.sum(*x, **_kw_axes(p)), weight=0.6, tags=('red', 'multi'))
Op('average', _gen_red(False), _ref_red(np.mean, True), lambda ot, p, *x: ot.average(*x, **_kw_axes(p)), weight=0.6, tags=('red',))
Op('averagen', _gen_red(True), _ref_red(np.mean, True), lambda ot, p, *x: ot.average(*x, **_kw_axes(p)), weight=0.5, tags=('red', 'multi'))


def _ks(x, rho, axis):
    m = np.max(x.real, axis=axis, keepdims=True)
    r = m + np.log(np.sum(np.exp(rho * (x - m)), axis=axis, keepdims=True)) / rho
    return np.squeeze(r, axis=axis) if axis is not None else np.reshape(r, (1,))


def _ref_ext(sgn):
    def ref(p, *xs):
        rho = p['rho']
        if len(xs) > 1:
            return sgn * _ks(np.stack([sgn * x for x in xs]), rho, 0)
        return sgn * _ks(sgn * xs[0], rho, p['axis'])
    return ref


def _gen_ext(g):
    r = g.rng.random()
    rho = g.rng.choice([20., 20., 5., 50., 2.])
    if g.can_leaf() and g.rng.random() < 0.25:       # operands far from zero
        st = g.rng.choice(['far+', 'far-'])
        a = g.leaf(style=st)
        if r < 0.5:
            return [a, g.leaf(g.shape(a), st)], {'rho': rho, 'axis': None}
        return [a], {'rho': rho, 'axis': _ax(g, len(g.shape(a))) if len(g.shape(a)) > 1 and r < 0.8 else None}
    if r < 0.4:
        a = g.any()
        more = g.rng.randint(2, 10) if g.rng.random() < 0.08 else 1 if g.rng.random() < 0.3 else 0
        return [a, g.like(a)] + [g.like(a) for _ in range(more)], {'rho': rho, 'axis': None}
    if r < 0.65:
        return [g.any()], {'rho': rho, 'axis': None}
    a = g.rank(2, 4)
    return [a], {'rho': rho, 'axis': _ax(g, len(g.shape(a)))}


def _b_ext(name):
    def b(ot, p, *xs):
        kw = {'rho': p['rho']}
        if p['axis'] is not None:
            kw['axis'] = p['axis']
        return getattr(ot, name)(*xs, **kw)
    return b


Op('max', _gen_ext, _ref_ext(1.), _b_ext('max'), weight=0.7, tags=('red',))
Op('min', _gen_ext, _ref_ext(-1.), _b_ext('min'), weight=0.7, tags=('red',))


def _gen_pnorm(g):
    pt = g.rng.choice([2, 2, 4, 6])
    if g.rng.random() < 0.5:
        return [g.any()], {'t': pt, 'axis': None}
    a = g.rank(2, 4)
    ax = _axes(g, len(g.shape(a)))
    return [a], {'t': pt, 'axis': ax[0] if len(ax) == 1 and g.rng.random() < 0.5 else ax}


def _ref_pnorm(p, x):
    t, ax = p['t'], p['axis']
    if ax is None:
        return np.reshape(np.sum(x ** t) ** (1.0 / t), (1,))
    return np.sum(x ** t, axis=tuple(ax) if isinstance(ax, list) else ax) ** (1.0 / t)


def _b_pnorm(ot, p, x):
    kw = {'pnorm_type': p['t']}
    if p['axis'] is not None:
        kw['axis'] = tuple(p['axis']) if isinstance(p['axis'], list) else p['axis']
    return ot.pnorm(x, **kw)


def _ok_pnorm(p, x):
    return bool(np.all(np.abs(_ref_pnorm(p, x)) > 0.15))


Op('pnorm', _gen_pnorm, _ref_pnorm, _b_pnorm, _ok_pnorm, weight=0.7, tags=('red',))


# ---- products ----------------------------------------------------------------------------------------------------
def _gen_dot(g):
    if g.rng.random() < 0.5:
        a = g.rank(1, 1)
        return [a, g.like(a)], {'axis': None}
    a, ax = g.with3()
    return [a, g.like(a)], {'axis': ax - len(g.shape(a)) if g.rng.random() < 0.2 else ax}


Op('dot', _gen_dot,
   lambda p, x, y: np.reshape(np.sum(x * y), (1,)) if x.ndim == 1 else np.sum(x * y, axis=p['axis']),
   lambda ot, p, x, y: ot.dot(x, y) if p['axis'] is None else ot.dot(x, y, axis=p['axis']), weight=0.6, tags=('prod',))


def _gen_cross(g):
    a, ax = g.with3(minrank=1)
    return [a, g.like(a)], {'axis': ax}


Op('cross', _gen_cross, lambda p, x, y: np.cross(x, y, axis=p['axis']),
   lambda ot, p, x, y: ot.cross(x, y, axis=p['axis']), weight=0.6, tags=('prod',))


def _gen_inner(g):
    if g.rng.random() < 0.35:
        a = g.rank(1, 1)
        return [a, g.like(a)], {'axes': None}
    a = g.rank(2, 3)
    sa = g.shape(a)
    k = g.rng.randint(1, len(sa) - 1)
    axa = g.rng.sample(range(len(sa)), k)
    rest = [g.rng.choice([1, 2, 3]) for _ in range(g.rng.randint(0 if k > 1 else 1, 1))]
    sb = list(rest)
    axb = []
    for ax in axa:           # insert contracted dims at random places
        pos = g.rng.randint(0, len(sb))
        axb = [q + 1 if q >= pos else q for q in axb]
        axb.append(pos)
        sb.insert(pos, sa[ax])
    b = g.of(tuple(sb))
    axa = [q - len(sa) if g.rng.random() < 0.15 else q for q in axa]
    axb = [q - len(sb) if g.rng.random() < 0.15 else q for q in axb]
    if k == 1 and g.rng.random() < 0.2:
        axa, axb = axa[0], axb[0]
    return [a, b], {'axes': [axa, axb]}


def _ref_inner(p, x, y):
    if p['axes'] is None:
        return np.reshape(np.sum(x * y), (1,))
    return np.tensordot(x, y, axes=p['axes'])


Op('inner', _gen_inner, _ref_inner,
   lambda ot, p, x, y: ot.inner(x, y) if p['axes'] is None else ot.inner(x, y, axes=tuple(list(q) if isinstance(q, list) else q for q in p['axes'])),
   weight=0.6, tags=('prod',))


def _gen_outer(g):
    a, b = g.any(), g.any()
    if np.prod(g.shape(a)) * np.prod(g.shape(b)) > 40 or len(g.shape(a)) + len(g.shape(b)) > 4:
        a, b = g.rank(1, 1), g.rank(1, 1)
    return [a, b], {}


Op('outer', _gen_outer, lambda p, x, y: np.multiply.outer(x, y), lambda ot, p, x, y: ot.outer(x, y), weight=0.4, tags=('prod',))


def _gen_matmat(g):
    a = g.rank(2, 2)
    n = g.shape(a)[1]
    if g.rng.random() < 0.15:
        return [a, g.of((n,))], {}
    return [a, g.of((n, g.rng.choice([1, 2, 3, 2, 3])))], {}


def _ref_matmat(p, x, y):
    return x @ y


Op('matmat', _gen_matmat, _ref_matmat, lambda ot, p, x, y: ot.matmat(x, y), weight=0.6, tags=('prod',))


def _gen_matvec(g):
    a = g.rank(2, 2)
    return [a, g.of((g.shape(a)[1],))], {}


Op('matvec', _gen_matvec, lambda p, x, y: x @ y, lambda ot, p, x, y: ot.matvec(x, y), weight=0.6, tags=('prod',))


def _gen_einsum(g):
    dims = {}
    letters = 'ijklm'
    g_dims = [g.rng.choice([2, 3, 2, 3, 1, 4]) for _ in letters]
    n = g.rng.choice([1, 2, 2, 2, 3])
    subs, args = [], []
    for t in range(n):
        if t and g.rng.random() < 0.25:
            # same shape as an earlier operand
            s = subs[g.rng.randrange(t)]
            if g.rng.random() < 0.5:
                s = ''.join(g.rng.sample(s, len(s)))
        else:
            s = ''.join(g.rng.sample(letters, g.rng.choice([1, 2, 2, 3])))
            if len(s) > 1 and g.rng.random() < 0.08:         # a diagonal
                s = s[0] + s[:-1]
        subs.append(s)
    for s in subs:
        args.append(g.of(tuple(g_dims[letters.index(c)] for c in s)))
    used = sorted(set(''.join(subs)))
    no = g.rng.randint(0, min(3, len(used)))
    out = g.rng.sample(used, no)
    osz = int(np.prod([g_dims[letters.index(c)] for c in out])) if out else 1
    if osz > 60:
        out = out[:1]
    return args, {'subs': subs, 'out': ''.join(out), 'fmt': g.rng.choice(['dense', 'sparse']), 'api': g.rng.choice(['old', 'new'])}


def _strict(subs, xs):
    """numpy stretches axes of one element, the library does not"""
    dims = {}
    for s, x in zip(subs, xs):
        for c, n in zip(s, np.shape(x)):
            if dims.setdefault(c, n) != n:
                raise ValueError('axes of unequal length')


def _ref_einsum(p, *xs):
    _strict(p['subs'], xs)
    r = np.einsum(','.join(p['subs']) + '->' + p['out'], *xs)
    return np.reshape(r, (1,)) if r.ndim == 0 else r


def _b_einsum(ot, p, *xs):
    if p['api'] == 'old':
        return ot.einsum(*xs, subscripts=','.join(p['subs']) + '->' + p['out'], partial_format=p['fmt'])
    op = [tuple(ord(c) for c in s) if k % 2 else tuple('ax' + c for c in s) for k, s in enumerate([])]
    op = [tuple('ax' + c for c in s) for s in p['subs']]
    if p['out']:
        op.append(tuple('ax' + c for c in p['out']))
    return ot.einsum_new_api(*xs, operation=op, partial_format=p['fmt'])


Op('einsum', _gen_einsum, _ref_einsum, _b_einsum, weight=0.8, tags=('prod',))


# ---- shape manipulation ------------------------------------------------------------------------------------------
Op('transpose', lambda g: ([g.rank(1, 4)], {}), lambda p, x: np.transpose(x), lambda ot, p, x: ot.transpose(x), weight=0.5, tags=('shape',))


def _gen_reorder(g):
    a = g.rank(2, 4)
    r = len(g.shape(a))
    perm = list(range(r))
    g.rng.shuffle(perm)
    return [a], {'perm': perm}


def _b_reorder(ot, p, x):
    l = 'ijkl'[:len(p['perm'])]
    return ot.reorder_axes(x, l + '->' + ''.join(l[q] for q in p['perm']))


Op('reorder_axes', _gen_reorder, lambda p, x: np.transpose(x, p['perm']), _b_reorder, weight=0.5, tags=('shape',))


def _gen_reshape(g):
    a = g.any()
    n = int(np.prod(g.shape(a)))
    opts = [(n,)] + [(k, n // k) for k in range(1, n + 1) if n % k == 0] + \
        [(k, m, n // k // m) for k in range(2, n) if n % k == 0 for m in range(2, n // k + 1) if (n // k) % m == 0]
    return [a], {'shape': list(g.rng.choice(opts))}


Op('reshape', _gen_reshape, lambda p, x: np.reshape(x, tuple(p['shape'])), lambda ot, p, x: ot.reshape(x, tuple(p['shape'])),
   weight=0.4, tags=('shape',))


def _gen_expand(g):
    if g.rng.random() < 0.4:
        return [g.of((1,))], {'shape': list(g.newshape()), 'idx': None}
    a = g.rank(1, 2)
    sa = g.shape(a)
    if sa == (1,):
        return [a], {'shape': list(g.newshape()), 'idx': None}
    li = 'ijk'[:len(sa)]
    out = list(li)
    extra = 'mn'[:g.rng.randint(1, 2)]
    dims = dict(zip(li, sa))
    for e in extra:
        out.insert(g.rng.randint(0, len(out)), e)
        dims[e] = g.rng.choice([2, 3])
    return [a], {'shape': [dims[c] for c in out], 'idx': li + '->' + ''.join(out)}


def _ref_expand(p, x):
    if p['idx'] is None:
        return np.reshape(x, (1,) * len(p['shape'])) * np.ones(tuple(p['shape']))
    i, o = p['idx'].split('->')
    y = np.ones(tuple(p['shape']))
    _strict([i, o], [x, y])
    return np.einsum(i + ',' + o + '->' + o, x, y)


def _b_expand(ot, p, x):
    if p['idx'] is None:
        return ot.expand(x, tuple(p['shape']))
    return ot.expand(x, tuple(p['shape']), p['idx'])


Op('expand', _gen_expand, _ref_expand, _b_expand, weight=0.6, tags=('shape',))


def _gen_rotmat(g):
    a = g.of((1,)) if g.rng.random() < 0.5 else g.rank(1, 2)
    return [a], {'axis': g.rng.choice('xyz')}


def _ref_rotmat(p, x):
    c, s, o, z = np.cos(x), np.sin(x), np.ones_like(x), np.zeros_like(x)
    if p['axis'] == 'x':
        m = [[o, z, z], [z, c, -s], [z, s, c]]
    elif p['axis'] == 'y':
        m = [[c, z, s], [z, o, z], [-s, z, c]]
    else:
        m = [[c, -s, z], [s, c, z], [z, z, o]]
    r = np.stack([np.stack(row, axis=-1) for row in m], axis=-2)
    return r[0] if x.shape == (1,) else r


Op('rotmat', _gen_rotmat, _ref_rotmat, lambda ot, p, x: ot.rotmat(x, p['axis']), weight=0.4, tags=('shape',))


def _gen_if(g):
    a = g.any()
    special = g.can_leaf() and g.rng.random() < 0.3
    c = g.leaf((1,), 'grid') if special else g.of((1,))
    # the side a condition is on must not depend on rounding; the value of an independent variable is exact
    return [c, a, g.like(a)], {'exact': 1} if c in g.exact else {}


Op('if_else', _gen_if, lambda p, c, x, y: np.array(y if c.real[0] < 0 else x), lambda ot, p, c, x, y: ot.if_else(c, x, y),
   lambda p, c, x, y: bool(np.abs(c[0]) > 0.05) or 'exact' in p, weight=0.5, tags=('cond',))


# ---- indexed read ------------------------------------------------------------------------------------------------
def key_obj(k):
    """JSON key -> python key: int | [start,stop,step] (slice) | {'t': [..]} (tuple of those)"""
    if isinstance(k, dict):
        return tuple(key_obj(q) for q in k['t'])
    if isinstance(k, list):
        return slice(*k)
    return k


def key_np(k):
    """numpy key with the DSL's convention that an integer keeps the axis (length one)."""
    if isinstance(k, dict):
        return tuple(key_np(q) for q in k['t'])
    if isinstance(k, list):
        return slice(*k)
    return slice(k, k + 1)


def gen_key1(rng, n, neg=False):
    r = rng.random()
    if r < 0.35:
        return rng.randrange(n)
    a = rng.randrange(n)
    b = rng.randint(a + 1, n)
    st = rng.choice([None, None, 1, 2, 3])
    if r < 0.5:
        a = None if rng.random() < 0.5 else 0
    if r > 0.85:
        b = None if rng.random() < 0.7 else n
    if 0.5 < r < 0.68 and a and a < b - 1:          # backwards
        return [b - 1, a - 1, -(st or 1)]
    return [a, b, st]


def gen_key(rng, shape):
    if len(shape) == 1:
        return gen_key1(rng, shape[0])
    return {'t': [gen_key1(rng, n) for n in shape]}


def _gen_getitem(g):
    a = g.rank(1, 3)
    key = gen_key(g.rng, g.shape(a))
    if int(np.prod(g.shape(a))) > 200 and g.rng.random() < 0.7:       # the elements at the end
        last = [[g.rng.randint(n * 3 // 4, n - 1), None, None] if n > 1 else 0 for n in g.shape(a)]
        key = last[0] if len(last) == 1 else {'t': last}
    return [a], {'key': key}


Op('getitem', _gen_getitem, lambda p, x: x[key_np(p['key'])], lambda ot, p, x: x[key_obj(p['key'])], weight=1.2, tags=('index',))
