"""C16: indexed assembly and extraction are independent of order and history."""
import random
import numpy as np
from sim import hist, imphist, model, ops, prog, world
from sim.model import Violation
from sim.ops import key_np
from sim.world import sig, stat
from . import common
from .c14 import Bad, strip
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C16'
COUNTS = {'quick': 600, 'thorough': 12000}
RULE = ('programs that split expressions and inputs of 1 to 4 dimensions by random keys (integers, slices, strides, tuples, the same part '
        'written in several ways) and assemble outputs from random partitions of their positions into arithmetic progressions, also '
        'partially, in chains; written in 3 random orders (reads before the assignments they depend on, late registrations, overlapping, '
        'repeated and out-of-range assignments in between), each under its own resolution of the unordered choices and with a driver '
        'history. Non-trivial if at least one part was assigned and one read')
OPSET = ['sin', 'mulc', 'add', 'mul', 'sum', 'addc', 'neg', 'cos', 'average']


def split(rng, ap, parts):
    """split the progression (start, step, count) into about `parts` progressions"""
    aps = [ap]
    for _ in range(parts * 2):
        if len(aps) >= parts:
            break
        k = rng.randrange(len(aps))
        a, s, n = aps[k]
        if n < 2:
            continue
        if rng.random() < 0.35 and n >= 2:
            aps[k:k + 1] = [(a, 2 * s, (n + 1) // 2), (a + s, 2 * s, n // 2)]
        else:
            m = rng.randint(1, n - 1)
            aps[k:k + 1] = [(a, s, m), (a + m * s, s, n - m)]
    return aps


def spell(rng, ap, size, read=False, back=True):
    """a key for the progression"""
    a, s, n = ap
    if n == 1 and rng.random() < 0.6:
        return a
    last = a + (n - 1) * s
    if back and n > 1 and a > 0 and rng.random() < 0.15:
        lo = rng.randint(max(0, a - s), a - 1)
        return [last, lo, -s]
    step = s if n > 1 else rng.choice([None, 1, s])
    hi = rng.randint(last + 1, last + (step or 1))
    if last + (step or 1) >= size and rng.random() < 0.4:
        hi = None
    elif not read and hi < size and rng.random() < 0.2:
        hi -= size
    return [None if a == 0 and rng.random() < 0.4 else a, hi, None if step == 1 and rng.random() < 0.7 else step]


def part_keys(rng, shape, parts, read=False):
    if len(shape) == 1:
        return [spell(rng, p, shape[0], read) for p in split(rng, (0, 1, shape[0]), parts)]
    per = []
    for n in shape:
        per.append(split(rng, (0, 1, n), rng.choice([1, 1, 2, 3])))
    while int(np.prod([len(p) for p in per])) > 9:
        j = max(range(len(per)), key=lambda q: len(per[q]))
        per[j] = [(0, 1, shape[j])]
    combos = [[]]
    for p in per:
        combos = [c + [q] for c in combos for q in p]
    return [{'t': [spell(rng, q, n, read) for q, n in zip(c, shape)]} for c in combos]


def read(rng, g, i):
    """read a random part, perhaps the same one twice in different spellings"""
    sh = g.shape(i)
    k = rng.choice(part_keys(rng, sh, rng.choice([1, 2, 3, 4]), True))
    for k in [k, k] if rng.random() < 0.3 else [k]:
        key_read(g, i, k)


def key_read(g, i, key):
    """a read; the library returns the same expression for a part written the same way"""
    ks = key['t'] if isinstance(key, dict) else [key]
    norm = repr([[q, q + 1, None] if isinstance(q, int) else [q[0] or 0, n if q[1] is None else q[1], q[2]]
                 for q, n in zip(ks, g.shape(i))])
    i0 = g.alias.get(i, i)
    seen = g.__dict__.setdefault('seen_reads', {})
    e = g.add_expr('getitem', [i], {'key': key})
    if e is not None:
        if (i0, norm) in seen:
            g.alias[e] = seen[i0, norm]
        else:
            seen[i0, norm] = e


def assemble(rng, g, name, shape):
    i = 'v%d' % g.n
    g.n += 1
    keys = part_keys(rng, shape, rng.choice([1, 2, 3, 4, 6, 9, 13]))
    zero = np.zeros(shape)
    srcs, used = [], set()
    for k in keys:
        psh = zero[key_np(k)].shape
        c = [q for q in g.pool if g.shape(q) == psh and g.alias.get(q, q) not in used]
        if c and rng.random() < 0.7:
            src = rng.choice(c)
        else:
            src = g.leaf(psh)
            if rng.random() < 0.5:
                e = g.add_expr(rng.choice(['mulc', 'addc']), [src], {'c': round(rng.uniform(0.5, 2), 3)})
                src = e if e is not None else src
        used.add(g.alias.get(src, src))
        srcs.append((k, src))
    rng.shuffle(srcs)
    g.script.append(dict(s='create', id=i, name=name, shape=list(shape)))
    arrs = [np.full(shape, np.nan) for _ in range(g.P)]
    for k, src in srcs:
        g.script.append(dict(s='assign', id=i, key=k, src=src))
        for p in range(g.P):
            v = arrs[p]
            v[key_np(k)] = g.vals[src][p]
    g._add(i, arrs)
    return i


def shape(rng, big=False):
    if big:
        return rng.choice([(rng.randint(130, 280),), (rng.randint(9, 14), rng.randint(15, 19)), (2, 3, 2, 2), (3, 2, 1, 2)])
    return tuple(rng.choice([[(rng.randint(1, 12),)], [(rng.randint(2, 7),)], [(rng.randint(1, 4), rng.randint(1, 4))],
                             [(rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3))]])[0])


def gen(rng, i, tier):
    big = rng.random() < 0.04
    g = prog.Gen(rng, 3, {'opset': OPSET, 'maxsize': 200 if big else 30, 'p_new': 0.15, 'maxleaves': 30})
    for _ in range(rng.randint(1, 2)):
        g.leaf(shape(rng, big))
    for k in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            read(rng, g, rng.choice(g.pool))
            if rng.random() < 0.3:
                g.exprs(1)
        c = assemble(rng, g, 'c%d' % k, shape(rng, big))
        for _ in range(rng.choice([0, 1, 1, 3])):
            read(rng, g, c)
        g.exprs(rng.choice([0, 1]))
    prog.register(g)
    script = g.script
    partial = []
    if rng.random() < 0.3:
        # some positions of outputs nothing else is computed from are left out
        used = {q for st in script for q in prog.ids_of(st)[1] if st['s'] == 'expr' or st['s'] == 'assign' and q == st['src']}
        for st in [q for q in script if q['s'] == 'create' and q['id'] not in used]:
            a = [q for q in script if q['s'] == 'assign' and q['id'] == st['id']]
            if len(a) > 1:
                for q in rng.sample(a, rng.randint(1, len(a) - 1)):
                    script.remove(q)
                partial.append(st['name'])
    if not prog.outputs(script):
        return None
    if not partial and not prog.in_domain(script, dict(hist.declared(script), **g.points[0])):
        return None
    if any(not partial and not prog.in_domain(script, dict(hist.declared(script), **p)) for p in g.points):
        return None
    bad = []
    for n in range(rng.choice([0, 1, 2, 4, 8])):
        bad.append(dict(s='bad', what=rng.choice(['as_overlap'] * 5 + ['as_repeat', 'as_range', 'as_shape', 'rd_range', 'rd_negative',
                                                                    'rd_empty', 'rd_rank', 'as_key', 'reg_create']),
                        seed=rng.randrange(1 << 30), n=n))
    variants = [[rng.randrange(1 << 30), common.world_of(rng)] for _ in range(3)]
    if not partial:
        common.add_resembling(rng, script, g.points)
    pts = hist.points_json(g.points)
    h = hist.gen(rng, script, pts, rng.choice([2, 3, 5]), weights=dict(partials=0.2, poison=0.8))
    if partial:
        h = [o for o in h if o[0] not in ('checktot',)]
    else:
        h = hist.validate(script, pts, [['set', 0]] + h)
    return {'script': script, 'points': pts, 'history': [['set', 0]] + h, 'variants': variants, 'world': variants[0][1], 'bad': bad,
            'partial': partial, 'mode': rng.choice(['fwd', 'rev']), 'rbs': rng.random() < 0.3}


class PartLive(model.Live):
    partial = ()

    def check_values(self, only=None, rtol=model.RTOL_V, atol=1e-10):
        if not self.partial:
            return super().check_values(only, rtol, atol)
        ref = self.ref()
        super().check_values([n for n in prog.outputs(self.script) if n not in self.partial], rtol, atol)
        for n in self.partial:
            if n not in ref:
                continue
            got, exp = np.array(self.prob.get_val(n)), ref[n]
            m = np.isfinite(exp)
            if got.shape != exp.shape:
                raise Violation('shape', '%s has shape %s, expected %s' % (n, got.shape, exp.shape))
            if not model.close(got[m], exp[m], rtol, atol):
                raise Violation('value', '%s = %s at its assigned positions, expected %s' % (n, model.brief(got[m]), model.brief(exp[m])))


def run(case):
    common.enter(case)
    script = case['script']
    rej = 0
    for k, (seed, w) in enumerate(case['variants']):
        common.enter(dict(case, world=w))
        rng = random.Random(seed)
        written = prog.shuffle(rng, script, early=True) if k else list(script)
        for b in case['bad']:
            written.insert(rng.choice([rng.randint(0, len(written)), len(written)]), b)
        B = Bad()
        L = PartLive(script, mode=case['mode'], model=prog.group_class(world.lib())(script=written, hooks={'bad': B, 'rbs': case['rbs']}))
        L.partial = case['partial']
        L.setup()
        L.prob.final_setup()
        fb = model.feedback(L.prob)
        if fb:
            raise Violation('feedback', '%s runs before its input from %s is computed' % (fb[0][1], fb[0][0]))
        D = imphist.ImpDriver(L, case['points'])
        for o in case['history'] if not k else case['history'][-3:]:
            D.op(o)
        D.op(['set', 1])
        D.op(['poison', k])
        D.op(['run'])
        D.op(['totals'])
        sig(model.exec_order(L.prob))
        rej += sum(B.rejected.values())
    for st in script:
        if st['s'] == 'assign':
            stat('assigned_parts')
        elif st['s'] == 'expr' and st['op'] == 'getitem':
            stat('read_parts')
    stat('programs_with_partial_outputs', bool(case['partial']))
    return {'nt': any(st['s'] == 'assign' for st in script) and any(st['s'] == 'expr' and st['op'] == 'getitem' for st in script)}


def shrink(case):
    if len(case['variants']) > 1:
        for k in range(len(case['variants'])):
            yield dict(case, variants=case['variants'][:k] + case['variants'][k + 1:])
    for k in range(len(case['bad'])):
        yield dict(case, bad=case['bad'][:k] + case['bad'][k + 1:])
    yield from common.shrink(case)
