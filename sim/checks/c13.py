"""C13: points outside an operation's domain are reported and recoverable."""
import warnings
import numpy as np
from sim import hist, imp, imphist, model, prog, world
from sim.model import Violation
from sim.world import sig, stat
from . import common
from .common import REAL, STUB, DISTINCT  # noqa

PROP = 'C13'
COUNTS = {'quick': 700, 'thorough': 14000}
RULE = ('a random program (flat, nested, inputs declared twice, implicit) and a random driver history in which unusable values (not a '
        'number, infinities, zeros, negative, out of range, overflowing, subnormal) are put into single elements or whole independents '
        'before evaluations, derivatives and checks, under different floating point error policies; then usable values again. '
        'Non-trivial if at least one evaluation saw an unusable value')
KINDS = ['nan', 'nan', 'nan', 'inf', '-inf', '0', '0', '-0', '-1', 'flip', '1.0', '3', '1e308', '-1e308', '1e160', '-1e160', '1e-310', '800', 'const']
# (checks by finite differences at such a point leave OpenMDAO's differences behind in the model: not used here)
ACTS = ['run', 'run', 'run', 'totals', 'totals', 'linearize']
POLICY = ['default', 'ignore', 'raise', 'error']
LIM = 1e6


# operations with a restricted domain, and values outside it
DOMAIN = {'log': ['0', '-0', '-1'], 'log10': ['0', '-0', '-1'], 'div': ['0', '-0', 'nan'], 'cdiv': ['0', '-0', 'nan'], 'pow': ['0', '-0', '-1'],
          'arcsin': ['3', '-3', '1.0', 'nan'], 'arccos': ['3', '-3', '1.0', 'nan'], 'cotan': ['0', 'inf'], 'cosec': ['0', 'inf'], 'cotanh': ['0'],
          'cosech': ['0'], 'exp': ['800', 'inf', '1e308'], 'sinh': ['800', '-800'], 'cosh': ['800', 'inf'], 'pnorm': ['0', 'nan', 'inf'],
          'max': ['nan', '-nan', 'inf'], 'min': ['nan', 'inf'], 'tan': ['inf'], 'sin': ['inf'], 'tanh': ['nan'], 'if_else': ['nan', '0']}


def targets(script):
    """(leaf, unusable value) such that the leaf is an operand of an operation that cannot take the value"""
    res, ids = [], {}
    for st in script:
        if st['s'] in ('indep', 'input'):
            ids[st['id']] = st['name']
        elif st['s'] == 'expr':
            if st['op'] in prog.EXACT and st['args'][0] in ids:
                ids[st['id']] = ids[st['args'][0]]
            for a in st['args']:
                if a in ids:
                    res += [(ids[a], k) for k in DOMAIN.get(st['op'], ())]
        elif st['s'] == 'sub':
            res += targets(st['script'])
    return res


def gen(rng, i, tier):
    cfg = {'opset': sorted(rng.sample(sorted(DOMAIN), rng.choice([2, 3, 4]))) + ['add', 'mul', 'getitem', 'expand']} if rng.random() < 0.4 else None
    simple = rng.random() < 0.35       # outputs close to the values that become unusable
    if simple:
        cfg = {'opset': rng.sample(sorted(CURVED | {'pow'}), rng.choice([3, 8, 12])) + [rng.choice(sorted(LINEAR))], 'p_new': rng.choice([0.2, 0.9])}
    case, _, _ = common.program(rng, kind='flat', cfg=cfg, nexpr=rng.choice([2, 4, 6, 10])) if simple else common.program(rng, kind=rng.choices(['flat', 'nested', 'twice', 'imp'], [0.55, 0.25, 0.05, 0.15])[0], cfg=cfg)
    script, pts = case['script'], case['points']
    case['world'] = common.world_of(rng)
    case['mode'] = rng.choice(['fwd', 'rev'])
    case['rbs'] = rng.random() < 0.3
    case['policy'] = rng.choice(POLICY + ['default', 'ignore'] * simple)
    common.plain_jacobians(script)
    for st in script:
        # OpenMDAO's own iterative linear solvers start from what the last solve left, which may be not a number for ever
        if st['s'] == 'imp' and st['cfg'].get('lin') in ('krylov', 'gs'):
            st['cfg']['lin'] = 'direct0'
    if not prog.in_domain(script, dict(hist.declared(script), **pts[0])):
        return None
    names = sorted(prog.leaves(script))
    h = [['set', 0]]
    tg = targets(script)
    known = set(names)
    tg = [t for t in tg if t[0] in known]
    for _ in range(rng.choice([2, 3, 4, 6])):
        h += hist.gen(rng, script, pts, rng.randrange(3), weights=dict(totals=2, partials=0.1, checkpart=0.1, checktot=0.1))
        for _ in range(rng.choice([1, 1, 2, 3])):
            n, k = rng.choice(tg) if tg and rng.random() < 0.5 + 0.25 * simple else (rng.choice(names), rng.choice(KINDS))
            h.append(['bad', n, k, rng.choice([-1, 0, 0, 1, rng.randrange(30)]), rng.choice(ACTS + ['totals'] * 14 * simple)])
        h.append(['good', rng.choice(['point', 'one']), rng.randrange(len(pts))])
        h.append([rng.choice(['run', 'totals'])])
    case['history'] = hist.validate(script, pts, h)
    if rng.random() < 0.25 and case['pkind'] != 'imp':
        n = rng.choice(names)
        # (OpenMDAO wants the same value from all uses of an input, and not-a-number is not equal to itself)
        kinds = ['inf', '0', '-1', '1e308'] + (['nan'] if prog.leaves(script)[n]['s'] == 'indep' else [])
        case['start'] = [n, rng.choice(kinds)]
    return case


def bad_value(good, kind, where):
    v = np.array(good, float)
    q = v.reshape(-1)
    if kind == 'const':
        q[:] = q[0]
        return v
    if kind == 'flip':
        new = -q
    else:
        new = np.full(q.shape, float(kind))
    if where < 0:
        q[:] = new
    else:
        q[where % q.size] = new[where % q.size]
    return v


class BadDriver(imphist.ImpDriver):
    policy = 'default'
    bads = 0
    broken = None          # leaf -> its last usable value
    last = None

    def guarded(self, act):
        """run act() under the error policy of the simulated process; -> the exception it raised, or None"""
        try:
            with warnings.catch_warnings():
                if self.policy == 'error':
                    warnings.simplefilter('error', RuntimeWarning)
                else:
                    warnings.simplefilter('ignore')
                with np.errstate(**{'default': dict(all='warn'), 'error': dict(all='warn', under='ignore'), 'ignore': dict(all='ignore'),
                                    'raise': dict(all='raise', under='ignore')}[self.policy]):
                    act()
        except Exception as e:
            if isinstance(e, (AttributeError, NameError, ImportError, UnboundLocalError)):
                raise Violation('report', 'the unusable value surfaced as %s: %s' % (type(e).__name__, e))
            return e
        except BaseException as e:
            raise Violation('process-exit', '%s: %s' % (type(e).__name__, e))
        return None

    def op(self, o):
        if o[0] == 'bad':
            stat('op:bad')
            self.bad(*o[1:])
        elif o[0] == 'good':
            stat('op:good')
            self.good(*o[1:])
        elif self.broken:
            pass                   # histories are cut by the minimiser: nothing is promised until values are usable again
        else:
            super().op(o)

    def bad(self, name, kind, where, act):
        L = self.L
        if name not in L.leaf:
            return
        if self.broken is None:
            self.broken = {}
            self.last = dict(L.cur)
        v = bad_value(L.cur[name], kind, where)
        self.broken.setdefault(name, L.cur[name])
        L.set({name: v})
        self.valid = False
        e = ran = self.guarded(L.run)
        self.bads += 1
        stat('fault:unusable_%s' % kind)
        if e is not None:
            stat('fault:reported_by_exception')
            sig(type(e).__name__)
        else:
            stat('fault:completed')
            if not L.unk:
                self.check_bad()
        if act == 'run':
            return
        if act == 'totals':
            res = []
            e = self.guarded(lambda: res.append(L.totals()))
            # (OpenMDAO's matrix and iterative solvers mix what is not a number into everything)
            if e is None and ran is None and res[0] and not L.unk and not any(st['s'] in ('solver', 'imp', 'native') for st in common.walk(L.script)):
                with np.errstate(all='ignore'), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.check_bad_totals(res[0])
        elif act == 'linearize':
            e = self.guarded(L.prob.model.run_linearize)
        stat('fault:%s_at_unusable_point' % act)

    def check_bad(self):
        """Outputs the reference computes from usable values only are exact; outputs it cannot compute are not numbers."""
        L = self.L
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prog.TRACE = tr = []
            try:
                ref = prog.ref_values(L.script, L.cur)
            except FloatingPointError:
                return
            finally:
                prog.TRACE = None
        tame_values = all(np.all(~np.isfinite(v) | (np.abs(v) < 1e3)) and not np.any((np.abs(v) < 1e-100) & (v != 0)) for v in L.cur.values())
        tame = all(np.all(np.isnan(v) | (np.abs(v) < 1e3)) and not np.any((np.abs(v) < 1e-100) & (v != 0)) for v in L.cur.values())
        # infinities of which rounding is not the cause
        blown = tame_values and max([t[1] for t in tr], default=0) < LIM and not any(t[2] for t in tr)
        tame = tame and max([t[0] for t in tr], default=0) < LIM
        dep = prog.dependence(L.script)
        for n in prog.outputs(L.script):
            got = np.array(L.prob.get_val(L.hidden.get(n, n)))
            free = not (dep[n] & set(self.broken))
            if free or tame and np.all(np.isfinite(ref[n])):
                if not model.close(got, ref[n], 1e-9 if free else 1e-6):
                    raise Violation('unaffected-value' if free else 'value-at-boundary', '%s = %s, expected %s (%s changed)' % (
                        n, model.brief(got), model.brief(ref[n]), sorted(self.broken)))
                stat('values_unaffected')
            elif (tame or blown) and not np.all(np.isfinite(ref[n])):
                if np.any(np.isfinite(got) & ~np.isfinite(ref[n])):
                    raise Violation('silent', '%s = %s although it is undefined at this point (expected %s)' % (
                        n, model.brief(got), model.brief(ref[n])))
                stat('values_undefined')

    def check_bad_totals(self, got):
        """Derivatives of outputs that use usable values only are exact; derivatives that do not exist are not numbers."""
        L = self.L
        dep = prog.dependence(L.script)
        of = [o for o in L.of() if not dep[o] & set(self.broken)]
        wrt = L.wrt()
        # (in reverse mode, and in groups within groups, OpenMDAO visits components without influence: zero times not-a-number)
        wrt0 = [w for w in wrt if w not in self.broken]
        if of and wrt0 and L.prob._mode == 'fwd' and not any(st['s'] == 'sub' for st in L.script):
            ref = prog.ref_totals(L.script, {n: np.nan_to_num(v, nan=1., posinf=1., neginf=1.) if n in self.broken else v
                                             for n, v in L.cur.items()}, of, wrt0)
            for o in of:
                for w in wrt0:
                    if np.max(np.abs(ref[o, w]), initial=0.) < 1e6 and not model.close(np.asarray(got[o, w]), ref[o, w], model.RTOL_D, 1e-9):
                        raise Violation('unaffected-totals', 'd%s/d%s = %s, expected %s (%s changed)' % (
                            o, w, model.brief(got[o, w]), model.brief(ref[o, w]), sorted(self.broken)))
                    stat('totals_unaffected')
        for o, w in singular(L.script, L.cur):
            if w in wrt and o in L.of():
                d = np.asarray(got[o, w])
                bad = singular_at(L.script, o, np.asarray(L.cur[w], float)).flatten()
                if np.any(bad & np.isfinite(np.diagonal(d))):
                    raise Violation('silent-derivative', 'd%s/d%s = %s at %s = %s, where it is undefined' % (
                        o, w, model.brief(d), w, model.brief(L.cur[w])))
                stat('totals_undefined')
                [stat('totals_undefined_' + st['op']) for st in chains(L.script)[o][2][:1] if bad.any()]

    def good(self, how, k):
        L = self.L
        if self.broken is None:
            return
        if how == 'one':
            L.set(self.broken)
        else:
            L.set(dict(self.last, **{n: v for n, v in self.broken.items()}))
        self.broken = None
        if L.unk:
            self.guess(7)
        self.valid = False


# elementwise operations of one operand: not linear, so that the derivative at not-a-number is not a number; derivative infinite at zero
CURVED = {'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'sec', 'cosec', 'cotan', 'sech', 'cosech', 'cotanh', 'arcsin', 'arccos',
          'arctan', 'cdiv'}
POLE = {'log', 'log10', 'cdiv', 'cosec', 'cotan', 'cosech', 'cotanh'}
LINEAR = {'neg', 'addc', 'subc', 'mulc', 'cmul', 'cadd', 'csub', 'divc'}


def chains(script):
    """output -> (leaf, statements) for outputs computed from a leaf element by element, at the top level"""
    ids, res = {}, {}
    for st in script:
        if st['s'] in ('indep', 'input'):
            ids[st['id']] = (st['name'], st['shape'], [])
        elif st['s'] == 'expr' and st['args'][0] in ids and len(st['args']) == 1 and (st['op'] in CURVED | LINEAR or st['op'] == 'pow'):
            n, sh, c = ids[st['args'][0]]
            if 'c' not in st['p'] or np.shape(st['p']['c']) in ((), tuple(sh)):
                ids[st['id']] = (n, sh, c + [st])
        elif st['s'] == 'reg' and st['id'] in ids:
            res[st['name']] = ids[st['id']]
    return res


def singular(script, cur):
    return [(o, c[0]) for o, c in chains(script).items() if c[2]]


def singular_at(script, out, x):
    """where the derivative of the output with respect to the leaf is certainly no number"""
    bad = np.zeros(x.shape, bool)
    nan = np.isnan(x)
    chain = chains(script)[out][2]
    for k, st in enumerate(chain):
        curved = st['op'] in CURVED
        if st['op'] == 'pow':
            c = np.array(st['p']['c'], float) * np.ones(x.shape)
            curved = (c != 0) & (c != 1)
            nan &= c != 0          # not-a-number to the power zero is one
            if k == 0:
                bad |= (x == 0) & (c < 1) & (c != 0) | (x < 0) & (c != np.floor(c))
        if st['op'] == 'cdiv' and np.any(np.asarray(st['p']['c']) == 0):
            curved = np.asarray(st['p']['c']) * np.ones(x.shape) != 0
        bad |= nan & curved
        if k == 0 and st['op'] in POLE:
            bad |= (x == 0) & curved
        if k == 0 and st['op'] in ('arcsin', 'arccos'):
            bad |= np.abs(x) >= 1
    return bad


def run(case):
    common.enter(case)
    common.note_ops(case['script'])
    script = case['script']
    if case.get('start'):
        script = with_start(script, *case['start'])
    L = model.Live(script, mode=case['mode'], hooks={'rbs': case['rbs']})
    try:
        L.setup()
    except SystemExit as e:
        raise Violation('process-exit', str(e))
    D = BadDriver(L, case['points'], check='both')
    D.policy = case['policy']
    if case.get('start') and not L.unk:
        # the declared values are unusable
        D.broken = {case['start'][0]: None}
        e = D.guarded(L.run)
        D.bads += 1
        stat('fault:unusable_declared_value')
        D.broken = None
    for o in case['history']:
        D.op(o)
    if D.broken:
        D.op(['good', 'point', 0])
    D.op(['run'])
    D.op(['totals'])
    sig(model.exec_order(L.prob), case['history'], case['script'])
    return {'nt': D.bads > 0}


def with_start(script, name, kind):
    res = []
    for st in script:
        if st['s'] in ('indep', 'input') and st['name'] == name:
            v = bad_value(np.array(st['val'], float), kind, 0).tolist()
            st = dict(st, val=v)
        elif st['s'] == 'sub':
            st = dict(st, script=with_start(st['script'], name, kind))
        res.append(st)
    return res


def shrink(case):
    if case.get('start'):
        yield dict(case, start=None)
    yield from common.shrink(case)
    if case['policy'] != 'ignore':
        yield dict(case, policy='ignore')
