"""Driving one live model and comparing it with the reference."""
import numpy as np
from . import prog, world


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


RTOL_V = 1e-9
RTOL_D = 2e-7


def close(a, b, rtol, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        scale = float(np.max(np.abs(b), initial=0))
        d = np.abs(a - b)
        return bool(np.all(d <= atol * max(1.0, scale) + rtol * np.maximum(np.abs(b), 1e-3 * scale)))


class Live:
    """A live model: an OpenMDAO problem built by the library plus the reference program."""

    def __init__(self, script, hooks=None, mode='fwd', model=None, complex_=False, name=None):
        import openmdao.api as om
        self.om = om
        self.ot = world.lib()
        self.script = script
        self.hooks = hooks
        self.mode = mode
        self.cx = complex_
        self.prob = om.Problem(reports=False)
        self.prob.model = model if model is not None else prog.group_class(self.ot)(script=script, hooks=hooks)
        self.leaf = prog.leaves(script)
        self.used = prog.used_leaves(script)
        self.hidden = prog.hidden_paths(script)
        self.unk = prog.unknowns(script)
        self.cur = {}
        self.dirty = True

    # -- operations
    def setup(self, mode=None):
        self.prob.setup(mode=mode or self.mode, force_alloc_complex=self.cx)
        self.cur = {n: np.array(st['val'], float).reshape(tuple(st['shape'])) if not st.get('scalar')
                    else st['val'] * np.ones(tuple(st['shape'])) for n, st in self.leaf.items()}
        self.dirty = True

    def set(self, vals):
        for n, v in vals.items():
            if n in self.leaf:
                if n in self.used:
                    self.prob.set_val(n, np.array(v, float))
                self.cur[n] = np.array(v, float)
        self.dirty = True

    def run(self):
        self.prob.run_model()
        self.dirty = False

    # -- oracles
    def ref(self):
        return prog.ref_values(self.script, self.now())

    def now(self):
        """current leaf values and, for outputs that solve equations, what the model reports"""
        v = dict(self.cur)
        for n in self.unk:
            v[n] = np.array(self.prob.get_val(n))
        return v

    def check_values(self, only=None, rtol=RTOL_V, atol=None):
        prog.TRACE = []
        try:
            ref = self.ref()
            big = max([t[0] for t in prog.TRACE] + [float(np.max(np.abs(v), initial=0)) for v in self.cur.values()], default=1.)
        finally:
            prog.TRACE = None
        if atol is None:          # rounding of the largest intermediate value
            atol = 1e-10 if self.unk or not np.isfinite(big) else 1e-13 * max(big, 1e-9)
        self.check_equations(ref)
        outs = prog.outputs(self.script)
        for n in outs:
            if only is not None and n not in only:
                continue
            got = np.array(self.prob.get_val(self.hidden.get(n, n)))
            if got.shape != ref[n].shape:
                raise Violation('shape', '%s has shape %s, expected %s' % (n, got.shape, ref[n].shape))
            if not close(got, ref[n], rtol, atol):
                raise Violation('value', '%s = %s, expected %s' % (n, brief(got), brief(ref[n])))
        for n in self.used:
            if n in self.leaf:
                got = np.array(self.prob.get_val(n))
                if not close(got, self.cur[n], 1e-12):
                    raise Violation('leaf-changed', '%s = %s, was set to %s' % (n, brief(got), brief(self.cur[n])))

    def check_equations(self, ref, tol=1e-8):
        for n, (kind, st, d) in self.unk.items():
            r = prog.residuals(ref, {n: (kind, st, d)})[n]
            y = ref[n]
            if not np.all(np.isfinite(y)):
                raise Violation('residual', '%s = %s after an evaluation that reported convergence' % (n, brief(y)))
            if 'x1' in d:
                lo = np.minimum(d['x1'], d['x2']) * np.ones(y.shape)
                hi = np.maximum(d['x1'], d['x2']) * np.ones(y.shape)
                if np.any(y < lo - 1e-12) or np.any(y > hi + 1e-12):
                    raise Violation('bracket', '%s = %s outside its bracket' % (n, brief(y)))
                t = float(st.get('tol', 0))
                if t:       # bisection truncated by the user: a sign change within the remaining interval
                    v = self.now()
                    s = []
                    for q in (y - t, y + t):
                        s.append(prog.residuals(prog.ref_values(self.script, dict(v, **{n: q})), {n: (kind, st, d)})[n])
                    if np.any((np.sign(s[0]) * np.sign(s[1]) > 0) & (np.abs(r) > tol)):
                        raise Violation('residual', 'no sign change of the residual of %s at %s' % (n, brief(y)))
                    continue
            if np.max(np.abs(r), initial=0) > tol * (1 + float(np.max(np.abs(y), initial=0))):
                raise Violation('residual', 'residual of %s is %s at %s' % (n, brief(r), brief(y)))

    def wrt(self):
        return [n for n in self.leaf if n in self.used]

    def of(self):
        return [n for n in prog.outputs(self.script) if n not in self.hidden]

    def totals(self, of=None, wrt=None):
        if not (of or self.of()) or not (wrt or self.wrt()):
            return {}
        return self.prob.compute_totals(of=of or self.of(), wrt=wrt or self.wrt())

    def check_totals(self, of=None, wrt=None, rtol=RTOL_D, ref=None, atol=1e-9):
        of, wrt = of or self.of(), wrt or self.wrt()
        if not of or not wrt:
            return 0
        got = self.totals(of, wrt)
        ref = ref or prog.ref_totals(self.script, self.now(), of, wrt)
        n = 0
        for o in of:
            for w in wrt:
                a, b = np.asarray(got[o, w]), ref[o, w]
                n += 1
                if a.shape != b.shape:
                    raise Violation('totals-shape', 'd%s/d%s has shape %s, expected %s' % (o, w, a.shape, b.shape))
                if not close(a, b, rtol, atol):
                    raise Violation('totals', 'd%s/d%s = %s, expected %s (%s mode)' % (o, w, brief(a), brief(b), self.prob._mode))
        return n


def brief(a):
    a = np.asarray(a)
    if a.size > 8:
        return '%s..(shape %s)' % (np.round(a.flatten()[:8], 6).tolist(), a.shape)
    return str(np.round(a, 8).tolist())


def poison(prob, rng, lo=50, hi=90):
    """Overwrite every computed output with garbage before a single pass."""
    from openmdao.core.component import Component
    from openmdao.core.indepvarcomp import IndepVarComp
    k = 0
    for sysm in prob.model.system_iter(recurse=True, typ=Component):
        if isinstance(sysm, IndepVarComp) or sysm.name == '_auto_ivc':
            continue
        for n in list(sysm._var_rel2meta if hasattr(sysm, '_var_rel2meta') else sysm._var_rel_names['output']):
            try:
                v = sysm._outputs[n]
            except Exception:
                continue
            sysm._outputs[n] = np.full(np.shape(v), rng.uniform(lo, hi))
            k += 1
    return k


def exec_order(prob):
    """[(abs component path)] in execution order, without _auto_ivc."""
    from openmdao.core.component import Component
    return [s.pathname for s in prob.model.system_iter(recurse=True, typ=Component) if s.name != '_auto_ivc']


def connections(prob):
    """[(source component, target component)] over explicit and implicit connections; auto_ivc left out."""
    order = {c: i for i, c in enumerate(exec_order(prob))}
    res = []
    for tgt, src in prob.model._conn_global_abs_in2out.items():
        s, t = src.rpartition('.')[0], tgt.rpartition('.')[0]
        if s in order and t in order:
            res.append((s, t))
    return order, res


def feedback(prob):
    order, con = connections(prob)
    return sorted({(s, t) for s, t in con if order[s] >= order[t]})


def indep_order(prob):
    """In every group: no independent-variable component after a component of another kind. Returns offending paths."""
    from openmdao.core.indepvarcomp import IndepVarComp
    from openmdao.core.group import Group
    bad = []
    groups = [prob.model] + list(prob.model.system_iter(recurse=True, typ=Group))
    for g in groups:
        seen = None
        for s in g.system_iter(recurse=False):
            if s.name == '_auto_ivc':
                continue
            if isinstance(s, IndepVarComp):
                if seen:
                    bad.append((s.pathname, seen))
            else:
                seen = s.pathname
    return bad
