"""C11: cyclic definitions build in finite time and converge to the fixed point of the written definitions."""
import random
import numpy as np
from sim import cyc, hist, imphist, model, ops, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import common
from .c09 import fix
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C11'
COUNTS = {'quick': 300, 'thorough': 9000}
RULE = ('a random model with one or two sets of 1-4 outputs defined in terms of themselves or each other (rings, dense, self-cycles, '
        'shared sub-expressions, in or through a child group; block Gauss-Seidel, block Jacobi or Newton), built under a step budget '
        'and a resolution of the unordered choices, its first pass compared with one pass from the declared initial values, then a '
        'random history with arbitrary earlier states, truncated, failed and interrupted solves. Non-trivial if there is a cycle')
BUDGET = 3_000_000


def gen(rng, i, tier):
    r = cyc.gen_model(rng)
    if r is None:
        return None
    script, pts, kind = r
    common.add_resembling(rng, script, pts, how='nudge' if prog.factors(script) else rng.choice(['nudge', 'zero', 'zero']))
    case = {'script': script, 'points': hist.points_json(pts), 'kind': kind, 'world': common.world_of(rng),
            'mode': rng.choice(['fwd', 'rev', 'auto']), 'rbs': rng.random() < 0.3}
    if not prog.in_domain(script, dict(hist.declared(script), **pts[0])):
        return None
    # one pass of the solver stays inside every domain only if nothing but the cycles' bounded expressions sees unconverged values
    w = dict(totals=1.2, checkpart=0, poison=0.8, guess=1.2, nan=0.5, truncate=1.2, interrupt=0.6, setup=0.4)
    h = imphist.gen(rng, script, case['points'], rng.choice([4, 6, 8]), w)
    h = [['first'], ['set', 0]] + h + [['set', rng.randrange(len(pts))], ['totals']]
    case['history'] = hist.validate(script, case['points'], fix(h))
    return case


class CycDriver(imphist.ImpDriver):
    env = None

    def op(self, o):
        if o[0] == 'first':
            self.first()
        elif o[0] == 'poison':
            if self.started():
                model.poison(self.L.prob, random.Random(o[1]), -3, 3)
                self.valid = False
        else:
            super().op(o)

    def first(self):
        """the first pass starts from the declared initial values"""
        L = self.L
        m = L.prob.model
        s = [st for st in L.script if st['s'] == 'solver']
        if not s or s[0]['nl']['kind'] != 'gs' or any(st['s'] in ('sub', 'imp') for st in L.script):
            return
        L.set(self.points[0])
        L.prob.final_setup()
        nl = m.nonlinear_solver
        old = nl.options['maxiter']
        nl.options['maxiter'] = 1
        try:
            with np.errstate(all='ignore'):
                L.run()
        except self.om.AnalysisError:
            stat('fault:not_converged')
        finally:
            nl.options['maxiter'] = old
        ref = one_pass(L, self.env)
        if ref is None:
            return
        outs = prog.outputs(L.script)
        for n in outs:
            if n in ref:
                got = np.array(L.prob.get_val(n))
                if not model.close(got, ref[n], 1e-9):
                    raise Violation('first-pass', '%s = %s after one pass from the declared initial values, expected %s' % (
                        n, model.brief(got), model.brief(ref[n])))
        stat('first_passes')


def one_pass(L, env):
    """what one pass in the observed order computes, name -> value; None if some value was not finite"""
    order = {c: k for k, c in enumerate(model.exec_order(L.prob))}
    where = {}
    for a, meta in L.prob.model.get_io_metadata(iotypes=('output',)).items():
        c = a.rpartition('.')[0]
        if c in order:
            where.setdefault(meta['prom_name'], order[c])
    stm = {st['id']: st for st in L.script if st['s'] in ('expr', 'create', 'indep', 'input')}
    defs = {st['id']: st for st in L.script if st['s'] == 'define'}
    asg = {}
    for st in L.script:
        if st['s'] == 'assign':
            asg.setdefault(st['id'], []).append(st)
    cur, done = {}, set()
    for i, st in stm.items():
        if st['s'] in ('indep', 'input'):
            cur[i] = L.cur[st['name']]
            done.add(i)
        elif st['s'] == 'create':
            cur[i] = (np.array(st['val'], float) if 'val' in st else np.ones(tuple(st['shape']))).reshape(tuple(st['shape']))
    todo = sorted((where[env[i].name], k, i) for k, i in enumerate(stm) if i not in done and env[i].name in where)
    reg = {st['id']: st['name'] for st in L.script if st['s'] == 'reg'}
    res = {}

    def get(q, me):
        # reads of one expression gathered in one component share its place
        if q in done or q in cur and stm[q]['s'] == 'create':
            return cur[q]
        raise Violation('first-pass', '%s is computed from %s, which has no declared initial value and is computed later' % (
            env[me].name, env[q].name))
    for _, _, i in todo:
        st = stm[i]
        with np.errstate(all='ignore'):
            if st['s'] == 'expr':
                v = np.asarray(ops.OPS[st['op']].ref(st['p'], *[get(q, i) for q in st['args']]), float)
            elif i in defs:
                v = get(defs[i]['src'], i)
            else:
                v = np.ones(tuple(st['shape']))
                for q in asg.get(i, []):
                    k = ops.key_np(q['key'])
                    v[k] = get(q['src'], i).reshape(v[k].shape)
        if not np.all(np.isfinite(v)):
            return None
        cur[i] = v
        done.add(i)
        if st['s'] == 'create':
            res[st['name']] = v
        if i in reg:
            res[reg[i]] = v
    return res


def scc(con):
    """component -> representative of its strongly connected component"""
    g, gr = {}, {}
    for s, t in con:
        g.setdefault(s, []).append(t)
        gr.setdefault(t, []).append(s)
    nodes = sorted(set(g) | set(gr))
    seen, post = set(), []
    for r in nodes:
        if r in seen:
            continue
        seen.add(r)
        stack = [(r, iter(g.get(r, ())))]
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(g.get(w, ()))))
                    break
            else:
                post.append(v)
                stack.pop()
    comp = {}
    for r in reversed(post):
        if r in comp:
            continue
        stack = [r]
        while stack:
            v = stack.pop()
            if v not in comp:
                comp[v] = r
                stack.extend(w for w in gr.get(v, ()) if w not in comp)
    return comp


def check_feedback(prob):
    order, con = model.connections(prob)
    c = scc(con)
    for s, t in con:
        if order[s] >= order[t] and c[s] != c[t]:
            raise Violation('feedback', '%s runs before its input from %s is computed, and they are not in a cycle' % (t, s))
    io = model.indep_order(prob)
    if io:
        raise Violation('independents-first', '%s comes after %s' % io[0])
    return sorted(order, key=order.get), len({c[s] for s, t in con if order[s] >= order[t]})


def run(case):
    common.enter(case)
    common.note_ops(case['script'])
    env = {}

    def after(group, st, e):
        if not group.name:
            env.update({k: v for k, v in e.items() if not k.startswith('@')})
    L = model.Live(case['script'], mode=case['mode'], hooks={'after': after, 'rbs': case['rbs']})
    try:
        with world.StepCounter(BUDGET) as sc:
            L.setup()
            L.prob.final_setup()
    except world.NoProgress as e:
        raise Violation('no-progress', str(e))
    stat('build_steps', sc.steps)
    order, cycles = check_feedback(L.prob)
    D = CycDriver(L, case['points'], acyclic=False)
    D.env = env
    for o in case['history']:
        D.op(o)
    D.op(['totals'])
    sig(order, case['history'])
    return {'nt': cycles > 0}


def shrink(case):
    yield from common.shrink(case)
