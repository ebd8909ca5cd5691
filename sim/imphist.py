"""Histories on models with implicitly defined outputs."""
import random
import numpy as np
from . import hist, model, prog, world
from .world import stat


def gen(rng, script, points, n, weights=None):
    w = dict(set=2.0, set1=1.5, run=3.0, totals=2.0, partials=0.3, checkpart=0.3, linearize=0.3, poison=0.3,
             guess=1.0, truncate=1.0, nan=0.7, interrupt=0.8, setup=0.2)
    w.update(weights or {})
    names = sorted(points[0])
    ops = [o for o in w if w[o] > 0]
    h = []
    for _ in range(n):
        o = rng.choices(ops, [w[a] for a in ops])[0]
        if o in ('set', 'set1', 'checkpart', 'poison'):
            h += hist.gen(rng, script, points, 1, allow=(o,))
        elif o == 'guess':
            h.append([o, rng.randrange(1000)])
        elif o == 'truncate':
            h.append([o, rng.randrange(4), rng.choice([1, 1, 2, 3])])
        elif o == 'nan':
            h.append([o, rng.choice(names), 'nan', rng.choice(['run', 'run', 'totals'])])
        elif o == 'interrupt':
            h.append([o, rng.randint(1, 4000), rng.choice(list(world.EXC)), rng.choice(['run', 'run', 'totals', 'setup'])])
        elif o == 'setup':
            h.append([o, rng.choice(['fwd', 'rev', None])])
        else:
            h.append([o])
    return h


class ImpDriver(hist.Driver):
    """Adds failed, truncated and interrupted solves, and free choice of initial guesses."""

    def comps(self):
        from omtools.api import ImplicitComponent
        from openmdao.api import Group
        return [s for s in self.L.prob.model.system_iter(recurse=True, include_self=True) if isinstance(s, ImplicitComponent) or
                (isinstance(s, Group) and s.nonlinear_solver is not None and 'maxiter' in s.nonlinear_solver.options
                 and s.nonlinear_solver.options['maxiter'] > 1)]

    def op(self, o):
        k = o[0]
        if k in ('guess', 'truncate', 'nan', 'interrupt'):
            stat('op:' + k)
            getattr(self, k)(*o[1:])
        else:
            super().op(o)

    def checktot(self):
        pass

    def guess(self, seed, lo=-1.5, hi=1.5):
        rng = random.Random(seed)
        for n in self.L.unk:
            v = self.L.prob.get_val(n)
            self.L.prob.set_val(n, np.array([rng.uniform(lo, hi) for _ in range(np.size(v))]).reshape(np.shape(v)))
        self.valid = False

    def truncate(self, which, its):
        """One evaluation during which a solver is not given enough iterations."""
        cs = self.comps()
        if not cs or not self.started():
            return
        c = cs[which % len(cs)]
        nl = c.nonlinear_solver
        if nl is not None and 'maxiter' in nl.options:
            old = nl.options['maxiter']
            nl.options['maxiter'] = its
        else:
            old, nl = c.maxiter, None
            c.maxiter = its
        try:
            self.L.run()
            stat('truncated_completed')
            ok = nl is not None
        except self.om.AnalysisError:
            stat('fault:not_converged')
            ok = False
        finally:
            if nl is not None:
                nl.options['maxiter'] = old
            else:
                c.maxiter = old
        self.valid = False
        if ok:
            self.L.check_values()
            self.valid = True

    def started(self):
        if self.L.prob._metadata is None or self.L.prob._metadata['setup_status'] < 2:
            self.L.prob.final_setup()
        return True

    @property
    def om(self):
        return self.L.om

    def nan(self, name, what, act):
        """One evaluation with an unusable input value."""
        L = self.L
        if name not in L.used or name not in L.leaf:
            return
        good = np.array(L.cur[name])
        bad = np.array(good)
        bad.flat[0] = float(what)
        L.prob.set_val(name, bad)
        try:
            with np.errstate(all='ignore'):
                L.run()
                if act == 'totals':
                    L.totals()
        except Exception as e:
            stat('fault:unusable_input_reported')
        else:
            stat('fault:unusable_input_silent')
            with np.errstate(all='ignore'):
                L.cur[name] = bad
                try:
                    ref = L.ref()
                    res = prog.residuals(ref, L.unk)
                except Exception:
                    res = {}
            for n, r in res.items():
                y = np.asarray(L.prob.get_val(n))
                if np.any(np.isnan(r)) and np.all(np.isfinite(y)):
                    raise model.Violation('residual', 'residual of %s is not a number but the evaluation reported convergence to %s'
                                          % (n, model.brief(y)))
        L.set({name: good})
        if not self.acyclic:
            model.poison(L.prob, random.Random(5), -1.5, 1.5)
        self.guess(7)          # an iterative solver continues from where it stopped: the user picks a usable guess again

    def interrupt(self, k, exc, act):
        L = self.L
        lp = world.LinePoints(k, world.EXC[exc])
        try:
            with lp:
                if act == 'setup':
                    L.setup()
                else:
                    L.run()
                    if act == 'totals':
                        L.totals()
        except (world.SimInterrupt, world.SimMemoryError):
            stat('fault:interrupted_%s' % act)
        if act == 'setup':
            L.setup()
        self.valid = False
