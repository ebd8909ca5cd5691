"""Driver histories: JSON lists of operations on live models, executed one at a time with the oracle after each."""
import warnings
import numpy as np
from . import model, prog, world
from .world import stat

OPS = ('set', 'set1', 'run', 'totals', 'partials', 'checkpart', 'checktot', 'linearize', 'poison')


def gen(rng, script, points, n, allow=OPS, weights=None, cx=False):
    """n operations; every evaluation is preceded by whatever the random walk did before."""
    names = sorted(points[0])
    h = []
    w = dict(set=2.0, set1=1.5, run=3.0, totals=2.0, partials=0.3, checkpart=0.45, checktot=0.25, linearize=0.3, poison=0.4)
    w.update(weights or {})
    for _ in range(n):
        o = rng.choices(allow, [w[a] for a in allow])[0]
        if o == 'set':
            h.append(['set', rng.randrange(len(points))])
        elif o == 'set1':
            h.append(['set1', rng.choice(names), rng.randrange(len(points))])
        elif o == 'checkpart':
            h.append(['checkpart', rng.choice(['fd', 'fd', 'central'] + ['cs'] * 5 * cx)])
        elif o == 'checktot' and cx:
            h.append(['checktot', rng.choice(['fd', 'cs', 'cs'])])
        elif o == 'poison':
            h.append(['poison', rng.randrange(1000)])
        else:
            h.append([o])
    return h


def declared(script):
    return {n: np.array(st['val'], float).reshape(tuple(st['shape'])) if not st.get('scalar') else
            st['val'] * np.ones(tuple(st['shape'])) for n, st in prog.leaves(script).items()}


def validate(script, points, history, start=None):
    """Drop single-value changes that would leave the domain of some operation (mixtures of two points may)."""
    cur = dict(start or declared(script))
    out = []
    for o in history:
        if o[0] == 'setup':
            cur = dict(declared(script))
        elif o[0] == 'set':
            new = dict(cur, **points[o[1]])
            if not prog.in_domain(script, new):
                continue
            cur = new
        elif o[0] == 'set1':
            new = dict(cur, **{o[1]: points[o[2]][o[1]]})
            if not prog.in_domain(script, new):
                continue
            cur = new
        out.append(o)
    return out


class Driver:
    """Executes operations on a Live model; values are checked after each run, derivatives at each 'totals'."""

    def __init__(self, live, points, check='both', acyclic=True):
        self.L, self.points = live, points
        self.check = check
        self.noisy = False
        self.valid = False        # outputs are those of the current values
        self.acyclic = acyclic

    def op(self, o):
        L = self.L
        k = o[0]
        stat('op:' + k)
        if k == 'setup':
            L.setup(o[1] if len(o) > 1 else None)
            self.valid, self.noisy = False, False
        elif k == 'set':
            L.set(self.points[o[1]])
            self.valid = False
        elif k == 'set1':
            L.set({o[1]: self.points[o[2]][o[1]]})
            self.valid = False
        elif k == 'run':
            self.run()
        elif k == 'poison':
            # earlier state of every computed output is arbitrary
            import random
            if L.prob._metadata and L.prob._metadata['setup_status'] >= 2 and self.acyclic:
                model.poison(L.prob, random.Random(o[1]))
                self.valid = False
        elif k in ('totals', 'partials', 'checkpart', 'checktot', 'linearize'):
            if not self.valid:
                self.run()
            getattr(self, k)(*o[1:])
        else:
            raise world.HarnessError(k)

    def run(self):
        self.L.run()
        self.valid = True
        if self.check in ('both', 'values'):
            self.L.check_values()
            stat('value_checks')

    def totals(self):
        L = self.L
        tol = dict(rtol=1e-4, atol=1e-5) if self.noisy else {}
        if self.check in ('both', 'totals'):
            n = L.check_totals(**tol)
            stat('total_blocks_checked', n)
        else:
            L.totals()

    def linearize(self):
        self.L.prob.model.run_linearize()

    def partials(self):
        self.L.prob.model.run_linearize()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.L.totals()

    def checkpart(self, how='fd'):
        kw = {'form': 'central'} if how == 'central' else {}
        if how == 'cs':          # components are evaluated with complex values
            stat('complex_probes')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.L.prob.check_partials(out_stream=None, method='cs')
        else:
            # OpenMDAO leaves the probed values of constant partials in place afterwards (noise of the probing)
            self.noisy = True
            self.L.prob.check_partials(out_stream=None, method='fd', **kw)
        if self.check in ('both', 'values'):
            self.L.check_values()

    def checktot(self, how='fd'):
        L = self.L
        of, wrt = L.of(), L.wrt()
        if of and wrt:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                L.prob.check_totals(of=of, wrt=wrt, out_stream=None, method=how)
            stat('complex_probes', how == 'cs')
            if self.check in ('both', 'values'):
                L.check_values(rtol=1e-9)


def points_json(points):
    return [{k: np.asarray(v).tolist() for k, v in p.items()} for p in points]


# ---- shrinking ---------------------------------------------------------------------------------------------------
def drop_parts(lst, keep_first=0):
    """Candidates of a list with parts removed: halves, quarters, ..., single elements."""
    n = len(lst) - keep_first
    size = n // 2
    while size >= 1:
        for a in range(keep_first, len(lst), size):
            c = lst[:a] + lst[a + size:]
            if len(c) < len(lst):
                yield c
        size //= 2


def dangling(script):
    """an explicit connection from or to something that is no longer there"""
    pairs = [q for st in script for q in (st.get('connect', []) if st['s'] == 'sub' else st['pairs'] if st['s'] == 'connect' else [])]
    for st in script:
        if st['s'] == 'sub':
            ok = set(prog.outputs(st['script'])) | prog.used_leaves(st['script']) | {'*'}
            if any(q not in ok for k in ('promotes', 'promotes_inputs', 'promotes_outputs', 'hidden') for q in st.get(k, [])):
                return True
    if not pairs:
        return False
    have = set(prog.outputs(script)) | prog.indeps_of(script) | {st['name'] for st in script if st['s'] == 'input'}
    for st in script:
        if st['s'] == 'sub':
            ins = prog.used_leaves(st['script'])
            have |= {st['name'] + '.' + n for n in list(prog.outputs(st['script'])) + list(ins)}
    return any(a not in have or b not in have for a, b in pairs)


def shrink_script(script):
    """Smaller scripts: statements removed (dependents go with them), subsystems flattened."""
    n = len(script)
    whole = len(prog.prune(script)) == n        # no output is left partly undefined on purpose
    seen = set()
    for c in drop_parts(script):
        p = prog.prune(c, whole)
        key = repr(p)
        if dangling(p):
            continue
        if len(p) < n and key not in seen and any(st['s'] in ('reg', 'create', 'sub') for st in p):
            seen.add(key)
            yield p
    for k, st in enumerate(script):
        if st['s'] == 'sub':
            for q in shrink_script(st['script']):
                if dangling(script[:k] + [dict(st, script=q)] + script[k + 1:]):
                    continue
                yield script[:k] + [dict(st, script=q)] + script[k + 1:]


def shrink(case, script_keys=('script',), list_keys=('history',), single=()):
    for key in list_keys:
        if key in case and case[key]:
            for c in drop_parts(case[key]):
                yield dict(case, **{key: c})
    for key in script_keys:
        if key in case:
            for c in shrink_script(case[key]):
                yield dict(case, **{key: c})
    for key, vals in single:
        for v in vals:
            if case.get(key) != v and key in case:
                yield dict(case, **{key: v})
