"""C14: a rejected declaration leaves the model unchanged."""
import copy
import random
from collections import Counter
import numpy as np
from sim import hist, imp, imphist, model, ops, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import c02, common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C14'
COUNTS = {'quick': 600, 'thorough': 16000}
RULE = ('a random program (flat, nested, inputs declared twice, implicit) with 1-8 invalid declarations of random kinds injected at '
        'random positions of its construction at any level and caught there; interface, components, values and derivatives of the model '
        'are compared with those of the program without them, also after further set-ups; in some cases an output is left undefined, '
        'which must be reported, and then repaired. Non-trivial if at least one declaration was rejected')

DECL = ['val_indep', 'val_input', 'val_create', 'reg_input', 'reg_none', 'reg_number']
REG = ['reg_twice', 'reg_twice', 'reg_create']
ASSIGN = ['as_overlap', 'as_overlap', 'as_overlap', 'as_repeat', 'as_range', 'as_shape', 'as_self', 'as_type', 'as_key', 'as_define']
DEFINE = ['df_again', 'df_shape', 'df_self', 'df_type', 'df_assign']
OPER = ['op_type', 'op_shape', 'op_shape', 'op_shape', 'op_arg', 'op_type2']
READ = ['rd_range', 'rd_negative', 'rd_type', 'rd_rank', 'rd_empty']
RESID = ['rs_again', 'rs_again_bracketed', 'rs_shape', 'rs_self', 'rs_registered', 'rs_none', 'rs_bracketed_shape', 'val_iout']
ALL = DECL + REG + ASSIGN + DEFINE + OPER + READ


def levels(script, native=False):
    """every script of the program in which omtools declarations are made"""
    if not native:
        yield script
    for st in script:
        if st['s'] == 'sub':
            yield from levels(st['script'], st['kind'] in ('om', 'omgroup'))
        elif st['s'] == 'imp':
            yield st['script']


def kinds_for(sc):
    k = list(DECL + OPER + READ)
    if any(st['s'] in ('reg', 'indep') for st in sc):
        k += REG * 2
    if any(st['s'] == 'assign' for st in sc):
        k += ASSIGN * 3
    if any(st['s'] == 'create' for st in sc):
        k += DEFINE * 3
    if any(st['s'] == 'define' for st in sc):
        k += ['df_again', 'df_assign', 'df_again', 'df_shape'] * 4
    if any(st['s'] == 'iout' for st in sc):
        k += RESID * 4
    return k


def gen(rng, i, tier):
    case, _, g = common.program(rng, 2, rng.choices(['flat', 'nested', 'twice', 'imp'], [0.5, 0.25, 0.05, 0.2])[0],
                                p_create=rng.choice([None, 0.5, 0.8]))
    script = case['script']
    if g is not None and case['pkind'] == 'flat' and rng.random() < 0.4:
        common.add_cycle(rng, g, script)
        case['cyc'] = True
    case['world'] = common.world_of(rng)
    case['mode'] = rng.choice(['fwd', 'rev', 'auto'])
    case['rbs'] = rng.random() < 0.3
    if not case.get('cyc') and not prog.in_domain(script, dict(hist.declared(script), **case['points'][0])):
        return None
    n = 0
    lv = list(levels(script))
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        sc = rng.choice(lv)
        st = dict(s='bad', what=rng.choice(kinds_for(sc)), seed=rng.randrange(1 << 30), n=n)
        n += 1
        sc.insert(rng.choice([rng.randint(0, len(sc)), rng.randint(0, len(sc)), len(sc)]), st)
    case['undefined'] = None
    if rng.random() < 0.2:
        case['undefined'] = [rng.randrange(1000), rng.randrange(1000), rng.random() < 0.5]
    h = [rng.choice([['set', 0], ['run'], ['setup', None], ['set', 1], ['totals']]) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    case['history'] = [o for o in h if not case.get('cyc')]
    return case


def strip(script):
    res = []
    for st in script:
        if st['s'] == 'bad':
            continue
        if st['s'] in ('sub', 'imp'):
            st = dict(st, script=strip(st['script']))
        res.append(st)
    return res


def other_shapes(shape):
    """shapes of as many elements"""
    shape = tuple(shape)
    n = int(np.prod(shape))
    res = {shape[::-1], (n,), (n, 1), (1, n), (1,) + shape, shape + (1,)} | {(d, n // d) for d in range(2, n) if n % d == 0}
    return sorted(res - {shape})


def broadcasts(shape, to):
    try:
        return np.broadcast_shapes(shape, to) == tuple(to)
    except ValueError:
        return False


class Bad:
    """Carries out invalid declarations; each has to be rejected with an ordinary exception."""

    def __init__(self):
        self.rejected = Counter()

    def __call__(self, group, st, env, ot):
        rng = random.Random(st['seed'])
        self.st, self.group, self.env, self.ot, self.rng = st, group, env, ot, rng
        done = env['@done']
        self.done = done
        group_, what = st['what'].split('_', 1)
        fn = {'val': self.val, 'reg': self.reg, 'as': self.assign, 'df': self.df, 'op': self.op, 'rd': self.rd, 'rs': self.rs}[group_](what)
        if fn is None:
            stat('bad_not_applicable')
            return
        try:
            fn()
        except Exception:
            self.rejected[st['what']] += 1
            stat('fault:rejected_' + st['what'])
        else:
            raise Violation('accepted', 'invalid declaration %s' % st['what'])

    # -- operands
    def new(self, shape=(1,)):
        return self.ot.sin(self.group.declare_input('zz%d' % self.st['n'], shape=tuple(shape), val=0.5))

    def wrong(self, shape):
        return self.rng.choice(other_shapes(shape)) if self.rng.random() < 0.5 else tuple(n + 1 for n in shape)

    def ids(self, *kinds):
        return [q['id'] for q in self.done if q['s'] in kinds]

    def pick(self, *kinds):
        c = self.ids(*kinds)
        return self.rng.choice(c) if c else None

    def expr(self):
        i = self.pick('expr', 'indep', 'input')
        return None if i is None else self.env[i]

    def val(self, what):
        g = self.group
        f = {'indep': g.create_indep_var, 'input': g.declare_input, 'create': g.create_output, 'iout': g.create_implicit_output}[what]
        rng = self.rng
        if rng.random() < 0.5:
            # as many elements, arranged differently, or one axis of them
            sh = rng.choice([(2, 3), (2,), (3, 2), (2, 1, 2), (4,)])
            ways = [q for q in other_shapes(sh) if sh != (1,)] + [sh[:-1], sh[1:], sh + (1,)]
            bad = np.ones(rng.choice(ways))
            if rng.random() < 0.3 and bad.ndim:
                bad = bad.tolist()
            return lambda: f('zz', shape=sh, val=bad)
        bad = rng.choice([np.ones(3), [1., 2., 3.], np.ones((2, 2)), 'a', None])
        return lambda: f('zz', shape=(2,), val=bad)

    def reg(self, what):
        g = self.group
        if what == 'none':
            return lambda: g.register_output('zz', None)
        if what == 'number':
            return lambda: g.register_output('zz', self.rng.choice([3, 1.5, 'x', np.ones(2)]))
        i = self.pick(*{'input': ['input'], 'twice': ['reg', 'indep'], 'create': ['create']}[what])
        if i is None:
            return None
        return lambda: g.register_output('zz', self.env[i])

    def assigns(self):
        a = [q for q in self.done if q['s'] == 'assign']
        return self.rng.choice(a) if a else None

    def assign(self, what):
        env, rng = self.env, self.rng
        q = self.assigns()
        if q is None:
            return None
        c = env[q['id']]
        st = next(s for s in self.done if s['s'] == 'create' and s['id'] == q['id'])
        shape = tuple(st['shape'])
        key = ops.key_obj(q['key'])

        def put(k, e):
            def f():
                c[k] = e
            return f
        if what == 'overlap':
            k = q['key']
            if isinstance(k, list) and rng.random() < 0.6:          # a part of it, or beyond it
                p = list(range(shape[0]))[slice(*k)]
                a = rng.choice(p)
                lo, hi, step = rng.randint(0, a), rng.randint(a + 1, shape[0]), rng.choice([1, 1, 2, 3])
                lo = a - (a - lo) // step * step
                return put(slice(lo, hi, step), self.new((len(range(lo, hi, step)),)))
            if isinstance(k, dict) and rng.random() < 0.6:
                sl = []
                for n, kk in zip(shape, k['t']):
                    p = list(range(n))[ops.key_np(kk)]
                    a = rng.choice(p)
                    lo, hi, step = rng.randint(0, a), rng.randint(a + 1, n), rng.choice([1, 1, 2, 3])
                    sl.append(slice(a if step > 1 else lo, hi, step))
                return put(tuple(sl), self.new(np.zeros(shape)[tuple(sl)].shape))
            return put(key, self.new(env[q['src']].shape))
        if what == 'repeat':
            return put(key, env[q['src']])
        if what == 'range':
            if len(shape) == 1:
                n = shape[0]
                a = rng.randint(max(0, n - 2), n)
                k = rng.choice([slice(a, n + 2), n, n + 3, -1])
                return put(k, self.new((n + 2 - a,) if isinstance(k, slice) else (1,)))
            k = tuple([slice(0, n + 1) for n in shape])
            return put(k, self.new(tuple(n + 1 for n in shape)))
        if what == 'shape':
            return put(key, self.new(self.wrong(env[q['src']].shape)))
        if what == 'self':
            return put(slice(0, shape[0]), c)
        if what == 'type':
            return put(key, rng.choice([1.0, None, np.ones(env[q['src']].shape), 'a']))
        if what == 'key':
            return put(rng.choice([1.5, None, 'a', [0, 1]]), self.new(env[q['src']].shape))
        if what == 'define':
            return lambda: c.define(self.new(shape))

    def df(self, what):
        env = self.env
        i = self.pick('define')
        j = self.pick('create')
        if what == 'again':
            if i is None:
                return None
            return lambda: env[i].define(self.new(env[i].shape))
        if what == 'assign':
            if i is None or len(env[i].shape) != 1:
                return None

            def f():
                env[i][0:env[i].shape[0]] = self.new(env[i].shape)
            return f
        if j is None:
            return None
        if what == 'shape':
            return lambda: env[j].define(self.new(self.wrong(env[j].shape)))
        if what == 'self':
            return lambda: env[j].define(env[j])
        return lambda: env[j].define(self.rng.choice([1.0, None, np.ones(env[j].shape)]))

    def op(self, what):
        ot, rng = self.ot, self.rng
        x = self.expr()
        if x is None:
            return None
        other = self.new(rng.choice(other_shapes(x.shape)) if rng.random() < 0.5 else tuple(n + 1 for n in x.shape))
        shapes = [tuple(n + 1 for n in x.shape), (2,) + x.shape, x.shape + (1,)] + other_shapes(x.shape) * 2
        const = np.ones(rng.choice([q for q in shapes if not broadcasts(q, x.shape)] or [(2,) + x.shape]))
        power = np.ones(rng.choice([q for q in shapes if q != x.shape]))
        junk = rng.choice([None, 'a', [1., 2.]])
        if what == 'type':
            f = rng.choice([lambda: x + junk, lambda: x - junk, lambda: x * junk, lambda: x / junk, lambda: x ** junk, lambda: junk + x,
                            lambda: junk - x, lambda: junk * x, lambda: junk / x, lambda: x ** x])
        elif what == 'type2':
            u = rng.choice(['sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'sec', 'cosec', 'cotan', 'sech', 'cosech',
                            'cotanh', 'arcsin', 'arccos', 'arctan', 'sum', 'average', 'max', 'min', 'pnorm', 'transpose'])
            v = rng.choice([1.0, None, np.ones(2), 'a'])
            w = rng.choice(['sum', 'average', 'max', 'min', 'dot', 'inner', 'outer', 'matmat', 'matvec'])
            f = rng.choice([lambda: getattr(ot, u)(v), lambda: getattr(ot, w)(x, v), lambda: ot.cross(x, v, axis=0)])
        elif what == 'shape':
            f = rng.choice([lambda: x + other, lambda: x - other, lambda: x * other, lambda: x / other, lambda: ot.max(x, other),
                            lambda: ot.min(x, other), lambda: ot.dot(x, other), lambda: ot.cross(x, other, axis=0),
                            lambda: ot.if_else(x, x, other), lambda: ot.matmat(self.new((2, 3)), self.new((2, 3))),
                            lambda: ot.matvec(self.new((2, 3)), self.new((2,)))]
                           + [lambda: x ** power] * 4 + [lambda: x + const, lambda: const - x, lambda: x - const, lambda: const * x,
                                                         lambda: x * const, lambda: const / x, lambda: x / const])
        else:
            f = rng.choice([lambda: ot.pnorm(x, pnorm_type=3), lambda: ot.pnorm(x, pnorm_type=-2), lambda: ot.pnorm(x, axis='a'),
                            lambda: ot.max(x, x, axis=0), lambda: ot.min(x, x, axis=0), lambda: ot.expand(self.new((2,)), (2, 3)),
                            lambda: ot.expand(self.new((2,)), (2, 3), 'i'), lambda: ot.expand(self.new((2,)), (3, 2), 'i->ij'),
                            lambda: ot.expand(self.new((2, 2)), (2, 3, 2), 'ij->jai'), lambda: ot.expand(self.new((2,)), (2, 3), 'ij->ja'),
                            lambda: ot.inner(self.new((2, 2)), self.new((2, 2)), axes=([rng.choice([-3, 2])], [0])),
                            lambda: ot.dot(self.new((2, 2)), self.new((2, 2)), axis=0),
                            lambda: ot.cross(self.new((2, 2)), self.new((2, 2)), axis=0),
                            lambda: ot.einsum(x, x, subscripts='i,i->i', partial_format='x')])
        return f

    def rd(self, what):
        i = self.pick('expr', 'indep', 'input', 'create')
        if i is None:
            return None
        x, rng = self.env[i], self.rng
        if what == 'range':
            if len(x.shape) == 1:
                n = x.shape[0]
                return lambda: x[rng.choice([n, n + 2, slice(0, n + 1), slice(n, n + 2)])]
            return lambda: x[tuple(slice(0, n + 1) for n in x.shape)]
        if what == 'negative':
            return lambda: x[-1]
        if what == 'type':
            return lambda: x[rng.choice(['a', 1.5, None, [0]])]
        if what == 'rank':
            return lambda: x[tuple([0] * (len(x.shape) + 1))]
        return lambda: x[tuple(slice(1, 1) for _ in x.shape)]

    def rs(self, what):
        env, rng = self.env, self.rng
        y = self.pick('iout')
        r = self.pick('residual')
        x = self.expr()
        if what.startswith('again'):
            if r is None:
                return None
            if what == 'again':
                return lambda: env[r].define_residual(self.new(env[r].shape))
            return lambda: env[r].define_residual_bracketed(self.new(env[r].shape), x1=-7., x2=9.)
        if what == 'registered':
            q = [s for s in self.done if s['s'] == 'residual']
            if not q or y is None:
                return None
            e = env[rng.choice(q)['src']]
            return lambda: env[y].define_residual(e)
        if y is None:
            return None
        y = env[y]
        wrong = self.wrong(y.shape)
        if what == 'shape':
            return lambda: y.define_residual(self.new(wrong))
        if what == 'bracketed_shape':
            return lambda: y.define_residual_bracketed(self.new(wrong), x1=-5., x2=5.)
        if what == 'self':
            return rng.choice([lambda: y.define_residual(y), lambda: y.define_residual_bracketed(y, x1=0., x2=1.)])
        return rng.choice([lambda: y.define_residual(None), lambda: y.define_residual_bracketed(2.0)])


def structure(prob):
    """component types per group, whatever the names of unnamed expressions"""
    from openmdao.core.component import Component
    c = Counter()
    for s in prob.model.system_iter(recurse=True, typ=Component):
        if s.name != '_auto_ivc':
            c[s.pathname.rpartition('.')[0], type(s).__name__] += 1
    return c


def with_undefined(script, a, b, imp_):
    """the script with an output whose definition is missing, or None"""
    script = copy.deepcopy(script)
    if imp_:
        cand = []
        for st in script:
            if st['s'] != 'imp':
                continue
            deps = {q['id']: q['args'] for q in st['script'] if q['s'] == 'expr'}
            for q in st['script']:
                if q['s'] == 'residual':
                    seen = set()
                    todo = [r['src'] for r in st['script'] if r['s'] == 'residual' and r is not q]
                    while todo:
                        k = todo.pop()
                        if k not in seen:
                            seen.add(k)
                            todo += deps.get(k, [])
                    if q['id'] in seen:
                        cand.append((st, q))
        if not cand:
            return None
        st, q = cand[a % len(cand)]
        st['script'].remove(q)
        return script
    lv = [sc for sc in levels(script)]
    sc = lv[a % len(lv)]
    if any(st['s'] == 'iout' for st in sc):
        return None
    sc.insert(b % (len(sc) + 1), dict(s='create', id='undef', name='undef', shape=[2]))
    return script


def run(case):
    common.enter(case)
    B = Bad()
    hooks = {'bad': B, 'rbs': case['rbs']}
    script = case['script']
    clean = strip(script)
    L = model.Live(script, mode=case['mode'], hooks=hooks)
    if case.get('undefined'):
        u = with_undefined(script, *case['undefined'])
        if u is not None:
            L.prob.model.options['script'] = u
            try:
                L.setup()
                L.prob.final_setup()
            except Violation:
                raise
            except Exception:
                stat('fault:undefined_output_reported')
            else:
                raise Violation('undefined-accepted', 'an output without definition was not reported')
            L.prob.model.options['script'] = script
    L.setup()
    L.prob.final_setup()
    C = model.Live(clean, mode=case['mode'], hooks={'rbs': case['rbs']})
    C.setup()
    C.prob.final_setup()
    a, b = structure(L.prob), structure(C.prob)
    if a != b:
        raise Violation('structure', 'components differ: %s with, %s without the rejected declarations' % (
            sorted((a - b).items()), sorted((b - a).items())))
    if prog_kind_ok(clean):
        c02.check(clean, L.prob, prog.hidden_paths(clean))
    if not case.get('cyc'):
        D = imphist.ImpDriver(L, case['points'])
        for o in case['history'] + [['set', 0], ['run'], ['totals'], ['set', 1]]:
            D.op(o)
        D.op(['totals'])
    else:
        for prob in (L.prob, C.prob):
            prob.run_model()
        for n in prog.outputs(clean):
            x, y = np.array(L.prob.get_val(n)), np.array(C.prob.get_val(n))
            if not model.close(x, y, 1e-9):
                raise Violation('value', '%s = %s, %s without the rejected declarations' % (n, model.brief(x), model.brief(y)))
    sig(model.exec_order(L.prob), sorted(B.rejected.items()), script)
    return {'nt': sum(B.rejected.values()) > 0 or bool(case.get('undefined'))}


def prog_kind_ok(script):
    return all(st['s'] != 'sub' or st['kind'] in ('ot', 'inline') for st in common.walk(script))


def shrink(case):
    if case.get('undefined'):
        yield dict(case, undefined=None)
    for sc in without_bad(case['script']):
        yield dict(case, script=sc)
    yield from common.shrink(case)


def without_bad(script):
    for k, st in enumerate(script):
        if st['s'] == 'bad':
            yield script[:k] + script[k + 1:]
        elif st['s'] in ('sub', 'imp'):
            for q in without_bad(st['script']):
                yield script[:k] + [dict(st, script=q)] + script[k + 1:]
