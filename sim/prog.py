"""Programs: a program is a JSON list of statements, executed (a) by omtools inside Group.setup, (b) by an independent
numpy interpreter.

 {'s':'indep','id','name','shape','val','dv'}      self.create_indep_var
 {'s':'input','id','name','shape','val'}           self.declare_input
 {'s':'expr','id','op','args','p'}                 an operation
 {'s':'reg','id','name'}                           self.register_output(name, id)
 {'s':'create','id','name','shape'}                self.create_output, followed by
 {'s':'assign','id','key','src'}                   id[key] = src
 {'s':'define','id','src'}                         id.define(src)
 {'s':'sub','name','kind','script',...}            subsystem
 {'s':'early','name','shape','val','use'}          self.declare_input of an output of a later subsystem, which nothing needs
 {'s':'solver','nl':..,'lin':..}                   solvers of the group or implicit component being set up
 {'s':'imp','name','script','cfg'}                 an ImplicitComponent whose script may also contain
 {'s':'iout','id','name','shape','val'}            create_implicit_output
 {'s':'residual','id','src'[,'x1','x2']}           id.define_residual(src) / define_residual_bracketed
 {'s':'bad',...}                                   a declaration that must be rejected; the exception is caught
"""
import numpy as np
from . import ops, world
from .ops import OPS, key_np, key_obj

RANGE = (0.4, 1.6)


def ids_of(st):
    """(defined id or None, used ids)"""
    s = st['s']
    if s in ('indep', 'input', 'create', 'iout'):
        return st['id'], []
    if s == 'expr':
        return st['id'], list(st['args'])
    if s == 'reg':
        return None, [st['id']]
    if s in ('assign', 'define', 'residual'):
        return None, [st['id'], st['src']]
    if s == 'bad':
        return None, [st[k] for k in ('a', 'b') if st.get(k)]
    return None, []


def prune(script, whole=True):
    """Drop statements whose operands are gone (after shrinking); drop incomplete outputs."""
    have, out = set(), []
    for st in script:
        d, u = ids_of(st)
        if any(x not in have for x in u):
            continue
        if d:
            have.add(d)
        out.append(st)
    full = {st['id'] for st in out if st['s'] in ('define', 'residual')}
    cover = {st['id']: np.zeros(tuple(st['shape']), bool) for st in out if st['s'] == 'create'}
    for st in out:
        if st['s'] == 'assign':
            cover[st['id']][key_np(st['key'])] = True
            if whole is False or cover[st['id']].all():
                full.add(st['id'])
    dead = {st['id'] for st in out if st['s'] in ('create', 'iout') and st['id'] not in full}
    if dead:
        out = [st for st in out if not (st['s'] in ('create', 'iout') and st['id'] in dead)]
        return prune(out, whole)
    return out


# ---- reference ---------------------------------------------------------------------------------------------------
class RefError(Exception):
    pass


class OutOfDomain(Exception):
    pass


SEEN = None          # when a dict: shapes seen by each expression
TRACE = None         # when a list: the magnitude of every expression evaluated by the reference
EXACT = {'reshape', 'transpose', 'reorder_axes', 'getitem', 'expand', 'neg', 'pos'}     # operations that do not round


def ref_eval(script, vals, env=None, names=None, strict=False):
    """Evaluate script with leaf values `vals` (name -> array, may be complex). -> (env id->array, names name->array)."""
    env = {} if env is None else env
    names = {} if names is None else names
    assigned, exact = {}, set()
    dtype = complex if any(np.iscomplexobj(v) for v in vals.values()) else float
    for st in script:
        s = st['s']
        if s in ('indep', 'input'):
            n = st['name']
            if n in names:
                v = names[n]
            else:
                v = vals[n] if n in vals else np.array(st['val'], float).reshape(tuple(st['shape']))
                names[n] = v
            env[st['id']] = np.asarray(v).reshape(tuple(st['shape']))
            if TRACE is not None and n in vals:
                exact.add(st['id'])
        elif s == 'expr':
            a = [env[q] for q in st['args']]
            if strict and not OPS[st['op']].ok(st['p'], *[np.real(q) for q in a]):
                raise OutOfDomain(st['op'])
            env[st['id']] = OPS[st['op']].ref(st['p'], *a)
            if SEEN is not None:
                SEEN[id(st)] = [np.shape(q) for q in a] + [np.shape(env[st['id']])]
            if TRACE is not None:
                # magnitude; ... of finite values; infinity arising from operands subject to rounding
                r = env[st['id']]
                if st['op'] in EXACT and exact.issuperset(st['args']):
                    exact.add(st['id'])
                TRACE.append((float(np.max(np.abs(np.nan_to_num(r, nan=0.)), initial=0)), float(np.max(np.abs(r[np.isfinite(r)]), initial=0)),
                              not np.all(np.isfinite(r)) and all(np.all(np.isfinite(q)) for q in a) and not exact.issuperset(st['args'])))
            if strict and (not np.all(np.isfinite(env[st['id']])) or np.max(np.abs(env[st['id']]), initial=0) > 1e4):
                raise OutOfDomain(st['op'])
        elif s == 'reg':
            names[st['name']] = env[st['id']]
        elif s == 'create':
            assigned[st['id']] = st
            env[st['id']] = np.full(tuple(st['shape']), np.nan, dtype)
            if st['name'] in vals:            # defined in terms of itself: its value is given
                env[st['id']] = np.asarray(vals[st['name']]).reshape(tuple(st['shape']))
                names[st['name']] = env[st['id']]
        elif s == 'define':
            # what the definition of the output evaluates to
            names['=' + assigned[st['id']]['name']] = env[st['src']]
        elif s == 'assign':
            a = env[st['id']]
            k = key_np(st['key'])
            a = a.copy()
            a[k] = env[st['src']].reshape(a[k].shape)
            env[st['id']] = a
            names[assigned[st['id']]['name']] = a
        elif s == 'sub':
            sub_env = {}
            # promoted inputs resolve to names of the parent, or to leaf values
            sub_names = dict(names)
            ref_eval(st['script'], vals, sub_env, sub_names, strict)
            for k, v in sub_names.items():
                names[k] = v
        elif s == 'iout':
            env[st['id']] = np.asarray(vals[st['name']]).reshape(tuple(st['shape']))
            names[st['name']] = env[st['id']]
            assigned[st['id']] = st
        elif s == 'residual':
            names['=' + assigned[st['id']]['name']] = env[st['src']]
        elif s == 'imp':
            sub_names = dict(names)
            ref_eval(st['script'], vals, {}, sub_names, strict)
            for q in st['script']:
                if q['s'] == 'iout':
                    names[q['name']] = sub_names[q['name']]
                    names['=' + q['name']] = sub_names['=' + q['name']]
        elif s in ('bad', 'solver', 'connect', 'early'):
            pass
        else:
            raise RefError(s)
    return env, names


def leaves(script, produced=None):
    """Leaf declarations (name -> st) whose values a driver can set: indeps anywhere, inputs not produced by anything."""
    prod, res = set(), {}

    def walk(sc):
        for st in sc:
            if st['s'] == 'sub':
                walk(st['script'])
            elif st['s'] in ('reg', 'create', 'indep'):
                prod.add(st['name'])
            elif st['s'] == 'imp':
                prod.update(q['name'] for q in st['script'] if q['s'] == 'iout')

    def walk2(sc):
        for st in sc:
            if st['s'] == 'sub':
                walk2(st['script'])
            elif st['s'] == 'imp':
                inside = outputs(st['script'])
                for q in st['script']:
                    if q['s'] == 'input' and q['name'] not in prod and q['name'] not in inside and q['name'] not in indeps_of(st['script']):
                        res.setdefault(q['name'], q)
            elif st['s'] == 'indep':
                res.setdefault(st['name'], st)
            elif st['s'] == 'input' and st['name'] not in prod:
                res.setdefault(st['name'], st)
    walk(script)
    walk2(script)
    return res


def used_leaves(script):
    """Names of leaves that appear in the built model: all indeps; inputs some registered/created output needs."""
    need = set()

    def walk(sc, native=False):
        deps = {}
        name = {}
        roots = []
        if native:        # a native system has every input it declares
            need.update(st['name'] for st in sc if st['s'] == 'input')
        for st in sc:
            if st['s'] == 'expr':
                deps[st['id']] = list(st['args'])
            elif st['s'] in ('indep', 'input'):
                name[st['id']] = st['name']
                if st['s'] == 'indep':
                    need.add(st['name'])
            elif st['s'] == 'create':
                deps.setdefault(st['id'], [])
                roots.append(st['id'])
            elif st['s'] in ('assign', 'define'):
                deps.setdefault(st['id'], []).append(st['src'])
            elif st['s'] == 'residual':
                roots.append(st['src'])
            elif st['s'] == 'imp':
                walk(st['script'])
            elif st['s'] == 'reg':
                roots.append(st['id'])
            elif st['s'] == 'sub':
                walk(st['script'], st['kind'] in ('om', 'omgroup'))
        seen = set()
        while roots:
            r = roots.pop()
            if r in seen:
                continue
            seen.add(r)
            if r in name:
                need.add(name[r])
            roots.extend(deps.get(r, []))
    walk(script)
    return need


def outputs(script):
    """name -> (kind) of user named outputs, in order."""
    res = {}
    for st in script:
        if st['s'] == 'reg':
            res[st['name']] = 'reg'
        elif st['s'] == 'create':
            res[st['name']] = 'create'
        elif st['s'] == 'sub':
            res.update(outputs(st['script']))
        elif st['s'] == 'imp':
            res.update({q['name']: 'iout' for q in st['script'] if q['s'] == 'iout'})
    return res


def dependence(script, names=None):
    """name -> names of the leaves its value is computed from (structurally; not through equations)"""
    names = {} if names is None else names
    env, nm = {}, {}
    for st in script:
        s = st['s']
        if s in ('indep', 'input'):
            env[st['id']] = names.setdefault(st['name'], {st['name']})
        elif s == 'expr':
            env[st['id']] = set().union(*[env[a] for a in st['args']])
        elif s == 'reg':
            names[st['name']] = env[st['id']]
        elif s == 'create':
            env[st['id']] = names[st['name']] = set()
            nm[st['id']] = st['name']
        elif s in ('assign', 'define'):
            env[st['id']] = names[nm[st['id']]] = env[st['id']] | env[st['src']]
        elif s == 'sub':
            names.update(dependence(st['script'], dict(names)))
    return names


def walk_all(script):
    for st in script:
        yield st
        if st['s'] in ('sub', 'imp'):
            yield from walk_all(st['script'])


def indeps_of(script):
    res = set()
    for st in script:
        if st['s'] == 'indep':
            res.add(st['name'])
        elif st['s'] == 'sub':
            res |= indeps_of(st['script'])
    return res


def unknowns(script):
    """name -> ('iout'|'cyc', statement, definition): outputs whose value is the solution of an equation."""
    res = {}

    def walk(sc):
        cyc = {st['id']: st for st in sc if st['s'] in ('define', 'residual')}
        for st in sc:
            if st['s'] in ('create', 'iout') and st['id'] in cyc:
                res[st['name']] = ('iout' if st['s'] == 'iout' else 'cyc', st, cyc[st['id']])
            elif st['s'] in ('sub', 'imp'):
                walk(st['script'])
    walk(script)
    return res


def residuals(names, unk):
    return {n: np.asarray(names['=' + n]) - (np.asarray(names[n]) if k == 'cyc' else 0) for n, (k, _, _) in unk.items()}


def solve(script, vals, unk=None, tries=60):
    """vals extended by the solution of the equations (Newton with complex-step Jacobian), or OutOfDomain."""
    unk = unknowns(script) if unk is None else unk
    if not unk:
        return dict(vals)
    names = list(unk)
    shapes = {n: tuple(unk[n][1]['shape']) for n in names}
    v = {k: np.asarray(a, float) for k, a in vals.items()}
    for n in names:
        if n not in v:
            v[n] = np.array(unk[n][1].get('val', 1.) * np.ones(shapes[n]) if not isinstance(unk[n][1].get('val', 1.), list) else
                            unk[n][1]['val'], float).reshape(shapes[n])
    for it in range(tries):
        with np.errstate(all='ignore'):
            r0, J = res_jac(script, v, unk, names)
            R = np.concatenate([r0[n].flatten() for n in names])
            if not np.all(np.isfinite(R)) or not np.all(np.isfinite(J)):
                raise OutOfDomain('residual')
            if np.max(np.abs(R)) < 1e-13 * (1 + max(np.max(np.abs(v[n])) for n in names)):
                return v
            try:
                d = np.linalg.solve(J, -R)
            except np.linalg.LinAlgError:
                raise OutOfDomain('singular')
        k = 0
        for n in names:
            m = v[n].size
            v[n] = v[n] + d[k:k + m].reshape(shapes[n])
            k += m
        if it > 4 and np.max(np.abs(d)) < 1e-13:
            return v
    raise OutOfDomain('no solution found')


def res_jac(script, v, unk, wrt):
    """residuals (name -> array) and the stacked Jacobian with respect to the names in wrt, by complex steps"""
    h = 1e-30
    r0 = None
    cols = []
    for w in wrt:
        for k in range(np.asarray(v[w]).size):
            c = {n: np.asarray(a, complex) for n, a in v.items()}
            x = c[w].flatten()
            x[k] += 1j * h
            c[w] = x.reshape(np.shape(v[w]))
            _, names = ref_eval(script, c)
            r = residuals(names, unk)
            if r0 is None:
                r0 = {n: np.real(a) for n, a in r.items()}
            cols.append(np.concatenate([np.imag(np.asarray(r[n], complex)).flatten() / h for n in unk]))
    return r0, np.array(cols).T


def factors(script):
    """leaves that must not be zero"""
    return {st['cfg']['factor'] for st in script if st['s'] == 'imp' and st['cfg'].get('factor')}


def in_domain(script, vals):
    try:
        v = solve(script, {k: np.asarray(v, float) for k, v in vals.items()})
        with np.errstate(all='raise', under='ignore'):
            ref_eval(script, v, strict=True)
    except (OutOfDomain, FloatingPointError):
        return False
    return True


def ref_values(script, vals):
    _, names = ref_eval(script, {k: np.asarray(v, float) for k, v in vals.items()})
    return {k: np.real(v) for k, v in names.items()}


def ref_totals(script, vals, of, wrt):
    """Complex-step derivatives: dict (of, wrt) -> matrix. vals must contain the solved unknowns, if any."""
    unk = unknowns(script)
    if unk:
        return _ref_totals_implicit(script, vals, of, wrt, unk)
    h = 1e-30
    res = {}
    for w in wrt:
        x0 = np.asarray(vals[w], float)
        cols = {o: [] for o in of}
        for k in range(x0.size):
            v = {n: np.asarray(a, complex) for n, a in vals.items()}
            x = x0.astype(complex).flatten()
            x[k] += 1j * h
            v[w] = x.reshape(x0.shape)
            _, names = ref_eval(script, v)
            for o in of:
                cols[o].append(np.imag(np.asarray(names[o], complex)).flatten() / h)
        for o in of:
            res[o, w] = np.array(cols[o]).T
    return res


def _ref_totals_implicit(script, vals, of, wrt, unk):
    """implicit function theorem"""
    ys = list(unk)
    part = _partials(script, vals, of, list(wrt) + ys)
    _, Ry = res_jac(script, vals, unk, ys)
    res = {}
    for w in wrt:
        _, Rx = res_jac(script, vals, unk, [w])
        dy = -np.linalg.solve(Ry, Rx)
        for o in of:
            res[o, w] = part[o, w] + np.hstack([part[o, y] for y in ys]) @ dy
    return res


def _partials(script, vals, of, wrt):
    h = 1e-30
    res = {}
    for w in wrt:
        x0 = np.asarray(vals[w], float)
        cols = {o: [] for o in of}
        for k in range(x0.size):
            v = {n: np.asarray(a, complex) for n, a in vals.items()}
            x = x0.astype(complex).flatten()
            x[k] += 1j * h
            v[w] = x.reshape(x0.shape)
            _, names = ref_eval(script, v)
            for o in of:
                cols[o].append(np.imag(np.asarray(names[o], complex)).flatten() / h)
        for o in of:
            res[o, w] = np.array(cols[o]).T
    return res


# ---- omtools -----------------------------------------------------------------------------------------------------
def om_exec(group, script, ot, hooks=None, env=None):
    """Run the script against the library, as a user's setup method would."""
    env = {} if env is None else env
    done = env.setdefault('@done', [])
    for st in script:
        s = st['s']
        if s == 'indep':
            env[st['id']] = group.create_indep_var(st['name'], shape=tuple(st['shape']), val=_val(st), dv=st.get('dv', False))
        elif s == 'input':
            env[st['id']] = group.declare_input(st['name'], shape=tuple(st['shape']), val=_val(st))
        elif s == 'early':
            x = group.declare_input(st['name'], shape=tuple(st['shape']), val=_val(st))
            if st['use']:
                2 * x
        elif s == 'expr':
            env[st['id']] = OPS[st['op']].build(ot, st['p'], *[env[a] for a in st['args']])
        elif s == 'reg':
            group.register_output(st['name'], env[st['id']])
        elif s == 'create':
            kw = {'val': np.array(st['val'], float).reshape(tuple(st['shape']))} if 'val' in st else {}
            env[st['id']] = group.create_output(st['name'], shape=tuple(st['shape']), **kw)
        elif s == 'assign':
            env[st['id']][key_obj(st['key'])] = env[st['src']]
        elif s == 'define':
            env[st['id']].define(env[st['src']])
        elif s == 'sub':
            om_sub(group, st, ot, hooks, env.get('@comp'))
        elif s == 'bad':
            hooks['bad'](group, st, env, ot)
        elif s == 'imp':
            group.add_subsystem(st['name'], implicit_class(ot)(script=st['script'], cfg=st['cfg'], hooks=hooks,
                                                               **({'maxiter': st['cfg']['bis']} if 'bis' in st['cfg'] else {})),
                                promotes=['*'])
        elif s == 'iout':
            env[st['id']] = group.create_implicit_output(st['name'], shape=tuple(st['shape']), val=_val(st))
        elif s == 'residual':
            if 'x1' in st:
                env[st['id']].define_residual_bracketed(env[st['src']], x1=_br(st['x1']), x2=_br(st['x2']))
            else:
                env[st['id']].define_residual(env[st['src']])
        elif s == 'connect':
            for a, b in st['pairs']:
                group.connect(a, b)
        elif s == 'solver':
            set_solvers(env.get('@comp', group), st)
        else:
            raise RefError(s)
        done.append(st)
        if hooks and 'after' in hooks:
            hooks['after'](group, st, env)
    return env


def _val(st):
    v = st['val']
    if st.get('scalar'):
        return v
    return ops.shared_array(np.array(v, float).reshape(tuple(st['shape'])).tolist())


_classes = {}


def _br(v):
    return np.array(v, float) if isinstance(v, list) else v


def set_solvers(system, c):
    import openmdao.api as om
    nl, lin = c.get('nl'), c.get('lin')
    if nl:
        nl = dict(nl)
        kind = nl.pop('kind')
        kw = dict(iprint=-1, **nl)
        if kind == 'newton':
            system.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, **kw)
        elif kind == 'gs':
            system.nonlinear_solver = om.NonlinearBlockGS(**kw)
        elif kind == 'jac':
            system.nonlinear_solver = om.NonlinearBlockJac(**kw)
        else:
            raise RefError(kind)
    if lin == 'direct':
        system.linear_solver = om.DirectSolver()
    elif lin == 'direct0':
        system.linear_solver = om.DirectSolver(assemble_jac=False)
    elif lin in ('csc', 'dense'):
        system.linear_solver = om.DirectSolver(assemble_jac=True)
        system.options['assembled_jac_type'] = lin
    elif lin == 'krylov':
        system.linear_solver = om.ScipyKrylov(iprint=-1, rtol=1e-13, atol=1e-14, maxiter=2000)
    elif lin == 'gs':
        system.linear_solver = om.LinearBlockGS(iprint=-1, rtol=1e-14, atol=1e-14, maxiter=300)


def implicit_class(ot):
    if 'i' not in _classes:
        class ScriptImplicit(ot.ImplicitComponent):
            def initialize(self):
                self.options.declare('script', types=list)
                self.options.declare('cfg', types=dict)
                self.options.declare('hooks', default=None)

            def setup(self):
                om_exec(self.group, self.options['script'], ot, self.options['hooks'], {'@comp': self})
                set_solvers(self, self.options['cfg'])
        _classes['i'] = ScriptImplicit
    return _classes['i']


def group_class(ot):
    if 'g' not in _classes:
        class ScriptGroup(ot.Group):
            def initialize(self):
                self.options.declare('script', types=list)
                self.options.declare('hooks', default=None)

            def setup(self):
                if self.options['hooks'] and 'rbs' in self.options['hooks']:
                    self.reverse_branch_sorting = self.options['hooks']['rbs']
                om_exec(self, self.options['script'], ot, self.options['hooks'])
                if self.options['hooks'] and self.options['hooks'].get('lin') and not self.name:
                    set_solvers(self, {'lin': self.options['hooks']['lin']})
        _classes['g'] = ScriptGroup
    return _classes['g']


FAULT = {}


class UserError(Exception):
    """raised by a user's component"""


def user_fault(what):
    if what in FAULT:
        FAULT[what] -= 1
        if FAULT[what] <= 0:
            del FAULT[what]
            world.stat('fault:user_component_' + what)
            raise UserError(what)


def native_system(script):
    """A native OpenMDAO group/component computing the same script, used as a foreign subsystem (a stand-in for user code):
    one explicit component whose derivatives are the reference's complex-step ones."""
    import openmdao.api as om
    lv = leaves(script)
    outs = outputs(script)

    class Native(om.ExplicitComponent):
        def setup(self):
            user_fault('setup')
            v0 = {k: np.array(st['val'], float).reshape(tuple(st['shape'])) if not st.get('scalar') else
                  st['val'] * np.ones(tuple(st['shape'])) for k, st in lv.items()}
            r0 = ref_values(script, v0)
            for k in lv:
                self.add_input(k, val=v0[k])
            for o in outs:
                self.add_output(o, shape=r0[o].shape)
            self.declare_partials('*', '*')

        def compute(self, inputs, outputs):
            user_fault('compute')
            r = ref_values(script, {k: np.real(np.array(inputs[k])) for k in lv})
            for o in outs:
                outputs[o] = r[o]

        def compute_partials(self, inputs, partials):
            user_fault('partials')
            t = ref_totals(script, {k: np.array(inputs[k]) for k in lv}, list(outs), list(lv))
            for key, m in t.items():
                partials[key] = m
    return Native()


def om_sub(group, st, ot, hooks, comp=None):
    kind = st['kind']
    kw = {}
    if 'promotes' in st:
        kw['promotes'] = st['promotes']
    if 'promotes_inputs' in st:
        kw['promotes_inputs'] = st['promotes_inputs']
    if 'promotes_outputs' in st:
        kw['promotes_outputs'] = st['promotes_outputs']
    for k in kw:          # other ways to write the same names
        kw[k] = {'tuple': tuple, 'reversed': lambda v: v[::-1],
                 'glob': lambda v: ['[a-z]*'] if v == ['*'] else v}.get(st.get('written'), list)(kw[k])
    if kind == 'icreate':          # ImplicitComponent.create_group
        g = comp.create_group(st['name'])
        om_exec(g, st['script'], ot, hooks)
    elif kind == 'inline':
        with group.create_group(st['name']) as g:
            om_exec(g, st['script'], ot, hooks)
    elif kind == 'ot':
        kept = (hooks or {}).get('kept')
        if kept is None:
            body = st['script']
            if st.get('rename'):
                body = renamed(body, st['rename'])
                for k in kw:
                    kw[k] = [(q + '_in', q) if q in st['rename'] else q for q in kw[k]]
            sub = group_class(ot)(script=body, hooks=hooks)
        else:           # the user creates the child once and adds it in every set-up
            key = repr((st['name'], sorted(st['script'], key=repr)))
            if key not in kept:
                kept[key] = group_class(ot)(script=st['script'], hooks=hooks)
            sub = kept[key]
        group.add_subsystem(st['name'], sub, **kw)
        for a, b in st.get('connect', []):
            group.connect(a, b)
    elif kind == 'om':
        group.add_subsystem(st['name'], native_system(st['script']), **kw)
    elif kind == 'omgroup':
        import openmdao.api as om
        g = om.Group()
        ind = [q for q in st['script'] if q['s'] == 'indep']
        if ind:
            iv = om.IndepVarComp()
            for q in ind:
                iv.add_output(q['name'], shape=tuple(q['shape']), val=_val(q))
                if q.get('dv'):
                    iv.add_design_var(q['name'])
            g.add_subsystem('ind', iv, promotes=['*'])
        g.add_subsystem('inner', native_system(st['script']), promotes=['*'])
        group.add_subsystem(st['name'], g, **kw)
    else:
        raise RefError(kind)


# ---- generation --------------------------------------------------------------------------------------------------
class Closed(Exception):
    """no operand of the wanted shape, and no new leaf may be declared"""


class Gen:
    """Generates expression statements with operands that keep every point of the history inside all domains."""

    def __init__(self, rng, npoints=3, cfg=None):
        self.rng = rng
        self.cfg = dict(maxleaves=6, p_indep=0.75, p_new=0.25, maxsize=24, opset=None, dup=0.0, leaf_only_index=False,
                        recent=0.4, lo=RANGE[0], hi=RANGE[1], prefix='')
        self.cfg.update(cfg or {})
        self.P = npoints
        self.script = []
        self.vals = {}        # id -> [array per point]
        self.points = [dict() for _ in range(npoints)]   # name -> array
        self.pool = []        # ids usable as operands
        self.n = 0
        self.nleaf = 0
        self.optally = {}
        self.taken, self.alias = set(), {}
        self.exact = set()            # ids of leaves
        # one kind of values, and of signs, for all leaves of a program
        self.uniform = (rng.choice(['normal', 'grid', 'equal', 'wide', 'wide', 'tiny']), rng.choice([0.0, 0.3, 0.9])) if \
            self.cfg.get('mix') and rng.random() < 0.4 else None
        self.style = 'normal'         # of the values drawn
        self.lim = 3000. if self.cfg.get('huge') or self.cfg.get('mix') and rng.random() < 0.5 else 60.     # of their magnitude

    # -- helpers for op generators
    def arr(self, shape, lo=None, hi=None):
        lo = self.cfg['lo'] if lo is None else lo
        hi = self.cfg['hi'] if hi is None else hi
        n = int(np.prod(shape))
        kind = self.style
        if kind == 'grid':           # special values: zeros, ones, ties
            return np.array([self.rng.choice([0., 1., -1., 2., 0.5, 0.]) for _ in range(n)]).reshape(shape)
        if kind == 'equal':
            return np.full(shape, round(self.rng.uniform(lo, hi), 4))
        if kind == 'wide':
            a, b = (-3, 1.2) if self.lim < 100 else (0, 2.5)
            return np.array([float('%.4g' % 10 ** self.rng.uniform(a, b)) for _ in range(n)]).reshape(shape)
        if kind in ('far+', 'far-'):     # far from zero, all of one sign
            return np.array([float(kind[-1] + '%.4g' % self.rng.uniform(12, min(self.lim, 900.) * 0.9)) for _ in range(n)]).reshape(shape)
        if kind == 'tiny':
            return np.array([float('%.4g' % 10 ** self.rng.uniform(-10, -6)) for _ in range(n)]).reshape(shape)
        return np.array([round(self.rng.uniform(lo, hi), 4) for _ in range(n)]).reshape(shape)

    def sign(self, shape):
        n = int(np.prod(shape))
        return np.array([self.rng.choice([-1., 1.]) for _ in range(n)]).reshape(shape)

    def shape(self, i):
        return self.vals[i][0].shape

    def newshape(self):
        r = self.rng.random()
        if self.cfg.get('cube'):         # all axes of equal length
            return (self.cfg['cube'],) * (self.rng.choice([1, 2, 2, 3]) if self.cfg['cube'] < 4 else self.rng.choice([1, 2, 2]))
        if self.cfg.get('huge') and r < 0.8:       # positions do not fit into one byte
            return self.rng.choice([(self.rng.randint(130, 290),), (self.rng.randint(15, 24), self.rng.randint(12, 20)), (3, 90), (130, 2), (1, 270)])
        if self.cfg.get('big') and r < 0.5:
            return self.rng.choice([(self.rng.randint(8, 40),), (self.rng.randint(5, 9), self.rng.randint(5, 9)), (3, 4, 5), (2, 2, 2, 2),
                                    (2, 1, 3, 2), (1, 1), (1, self.rng.randint(5, 12))])
        if r < 0.2:
            return (1,)
        if r < 0.55:
            return (self.rng.choice([2, 3, 4, 3, 5]),)
        if r < 0.9:
            return (self.rng.choice([1, 2, 3, 4]), self.rng.choice([2, 3, 3, 1, 4]))
        return tuple(self.rng.choice([1, 2, 3, 2]) for _ in range(3))

    def leaf(self, shape=None, style=None):
        if self.cfg.get('closed'):
            raise Closed()
        shape = self.newshape() if shape is None else tuple(shape)
        kind = 'indep' if self.rng.random() < self.cfg['p_indep'] else 'input'
        self.nleaf += 1
        i = 'v%d' % self.n
        self.n += 1
        name = self.cfg['prefix'] + ('x' if kind == 'indep' else 'u') + str(self.nleaf)
        mode = self.rng.random()
        if self.cfg.get('mix'):
            self.style = self.rng.choice(['normal', 'normal', 'grid', 'grid', 'equal', 'wide', 'tiny'])
        if self.uniform:
            self.style, mode = self.uniform
        if style:
            self.style, mode = style, 0.9
        sg = self.sign(shape) if mode < 0.25 else -1.0 if mode < 0.35 and self.style != 'normal' else 1.0
        pts = [self.arr(shape) * (self.sign(shape) if mode < 0.12 else sg) for _ in range(self.P)]
        self.style = 'normal'
        st = dict(s=kind, id=i, name=name, shape=list(shape), val=pts[0].tolist())
        if kind == 'indep':
            st['dv'] = self.rng.random() < 0.3
        self.script.append(st)
        self._add(i, pts)
        self.exact.add(i)
        for k in range(self.P):
            self.points[k][name] = pts[k]
        return i

    def _add(self, i, pts):
        self.vals[i] = pts
        self.pool.append(i)

    def pick(self, cands):
        if self.rng.random() < self.cfg['recent']:
            return cands[-1 - min(len(cands) - 1, int(self.rng.expovariate(0.7)))]
        return self.rng.choice(cands)

    def find(self, pred, mk):
        c = [i for i in self.pool if pred(self.shape(i))]
        if not c or (self.rng.random() < self.cfg['p_new'] and self.nleaf < self.cfg['maxleaves']):
            return self.leaf(mk())
        return self.pick(c)

    def can_leaf(self):
        return not self.cfg.get('closed') and self.nleaf < self.cfg['maxleaves']

    def any(self):
        return self.find(lambda s: True, self.newshape)

    def of(self, shape):
        shape = tuple(int(q) for q in shape)
        return self.find(lambda s: s == shape, lambda: shape)

    def like(self, a):
        return self.of(self.shape(a))

    def rank(self, lo, hi):
        def mk():
            r = self.rng.randint(lo, hi)
            if self.cfg.get('cube'):
                return (self.cfg['cube'],) * (r if self.cfg['cube'] < 4 else max(lo, min(r, 3)))
            return tuple(self.rng.choice([2, 3, 4, 2, 3, 1] if r < 4 else [1, 2, 2, 3]) for _ in range(r))
        return self.find(lambda s: lo <= len(s) <= hi, mk)

    def with3(self, minrank=2):
        def mk():
            r = self.rng.randint(minrank, 3)
            s = [3 if self.cfg.get('cube') else self.rng.choice([1, 2, 4, 2]) for _ in range(r)]
            s[self.rng.randrange(r)] = 3
            return tuple(s)
        a = self.find(lambda s: minrank <= len(s) <= 3 and 3 in s, mk)
        s = self.shape(a)
        return a, self.rng.choice([k for k in range(len(s)) if s[k] == 3])

    # -- statements
    def expr(self, opname=None):
        """Add one random expression; returns id or None."""
        if opname is None:
            names = self.cfg['opset'] or list(OPS)
            w = [OPS[n].weight for n in names]
            opname = self.rng.choices(names, w)[0]
        op = OPS[opname]
        mark = (len(self.script), len(self.pool), self.nleaf, self.n)
        try:
            g = op.gen(self)
        except Closed:
            return None
        if g is None:
            return None
        args, p = g
        if opname == 'getitem':        # equal selections return the same expression object: generate each once
            sel = (self.alias.get(args[0], args[0]), repr(norm_key(p['key'], self.shape(args[0]))))
            if sel in self.taken:
                return None
            i = self.add_expr(opname, args, p, mark)
            if i is not None:
                self.taken.add(sel)
            return i
        if opname == 'pos':
            i = self.add_expr(opname, args, p, mark)
            if i is not None:
                self.alias[i] = self.alias.get(args[0], args[0])
            return i
        return self.add_expr(opname, args, p, mark)

    def add_expr(self, opname, args, p, mark=None):
        op = OPS[opname]
        pts = []
        good = True
        try:
            with np.errstate(all='raise', under='ignore'):
                for k in range(self.P):
                    a = [self.vals[q][k] for q in args]
                    if not op.ok(p, *a):
                        good = False
                        break
                    v = np.asarray(op.ref(p, *a), float)
                    if v.size > self.cfg['maxsize'] * 2 or not np.all(np.isfinite(v)) or np.max(np.abs(v), initial=0) > self.lim:
                        good = False
                        break
                    pts.append(v)
        except FloatingPointError:
            good = False
        if not good:
            return None
        i = 'v%d' % self.n
        self.n += 1
        self.script.append(dict(s='expr', id=i, op=opname, args=list(args), p=p))
        self._add(i, pts)
        self.optally[opname] = self.optally.get(opname, 0) + 1
        return i

    def exprs(self, count, tries=8):
        got = []
        for _ in range(count):
            for _ in range(tries):
                i = self.expr()
                if i is not None:
                    got.append(i)
                    break
        return got

    def create_indexed(self, name, shape=None, partial=False):
        """An output assembled by indexed assignment from newly made parts; returns list of statements appended."""
        rng = self.rng
        shape = self.newshape() if shape is None else shape
        i = 'v%d' % self.n
        self.n += 1
        parts = partition(rng, shape)
        srcs = []
        used = set()
        for key, psh in parts:
            # each source expression may be used only once per output
            c = [q for q in self.pool if self.shape(q) == psh and self.alias.get(q, q) not in used]
            if c and rng.random() < 0.6:
                src = rng.choice(c)
            else:
                src = self.leaf(psh)
                if rng.random() < 0.4:
                    e = self.add_expr('mulc', [src], {'c': round(rng.uniform(0.5, 2), 3)})
                    src = e if e is not None else src
            used.add(self.alias.get(src, src))
            srcs.append((key, src))
        rng.shuffle(srcs)
        self.script.append(dict(s='create', id=i, name=name, shape=list(shape)))
        arrs = [np.full(shape, np.nan) for _ in range(self.P)]
        for key, src in srcs:
            self.script.append(dict(s='assign', id=i, key=key, src=src))
            for k in range(self.P):
                v = arrs[k]
                kk = key_np(key)
                v[kk] = self.vals[src][k].reshape(v[kk].shape)
        self._add(i, arrs)
        return i


def norm_key(k, shape):
    ks = k['t'] if isinstance(k, dict) else [k]
    return [list(range(*(slice(q, q + 1) if not isinstance(q, list) else slice(*q)).indices(n))) for q, n in zip(ks, shape)]


def partition1(rng, n):
    """Partition range(n) into keys (int, slice, strided)."""
    if n == 1:
        return [rng.choice([0, [0, 1, None], [None, None, None]])]
    r = rng.random()
    if r < 0.25:
        step = rng.randint(2, min(3, n))
        return [[a, None if rng.random() < 0.5 else n, step] for a in range(step)]
    cuts = sorted(rng.sample(range(1, n), rng.randint(0 if r < 0.35 else 1, min(3, n - 1))))
    b = [0] + cuts + [n]
    keys = []
    for lo, hi in zip(b, b[1:]):
        if hi - lo == 1 and rng.random() < 0.5:
            keys.append(lo)
        else:
            keys.append([None if lo == 0 and hi != n and rng.random() < 0.3 else lo, hi, rng.choice([None, None, 1])])
    return keys


def partition(rng, shape):
    """[(json key, shape of part)]"""
    if len(shape) == 1:
        ks = partition1(rng, shape[0])
        return [(k, np.zeros(shape)[key_np(k)].shape) for k in ks]
    per = [partition1(rng, n) if rng.random() < 0.7 else [[0, n, None]] for n in shape]
    while int(np.prod([len(p) for p in per])) > 6:
        j = max(range(len(per)), key=lambda q: len(per[q]))
        per[j] = [[0, shape[j], None]]
    out = [[]]
    for p in per:
        out = [o + [k] for o in out for k in p]
    res = []
    for o in out:
        k = {'t': o}
        res.append((k, np.zeros(shape)[key_np(k)].shape))
    return res


def gen_program(rng, npoints=3, cfg=None, nexpr=None, nout=None):
    """A flat acyclic program. Returns (script, points)."""
    g = Gen(rng, npoints, cfg)
    n = nexpr or rng.choice([2, 3, 4, 5, 6, 8, 10])
    for _ in range(rng.randint(1, 2)):
        g.leaf()
    while n > 0:
        r = rng.random()
        if r < g.cfg.get('p_create', 0.08) and 'create_n' not in g.__dict__:
            g.create_n = 1
            g.create_indexed('c%d' % g.n)
        g.exprs(1)
        n -= 1
    register(g, nout)
    return g.script, g.points, g


def register(g, nout=None, prefix='y'):
    """Register outputs: sinks preferred, some intermediates, some sinks left unused; order and place vary."""
    rng = g.rng
    used = set()
    exprs = []
    for st in g.script:
        d, u = ids_of(st)
        used.update(u)
        if st['s'] == 'expr' and st['id'] not in g.alias:
            exprs.append(st['id'])
    sinks = [e for e in exprs if e not in used]
    inter = [e for e in exprs if e in used]
    take = [e for e in sinks if rng.random() < 0.85] or sinks[:1]
    take += [e for e in inter if rng.random() < 0.15]
    if nout:
        take = take[:nout]
    rng.shuffle(take)
    mode = rng.random()
    for k, e in enumerate(take):
        st = dict(s='reg', id=e, name='%s%s%d' % (g.cfg['prefix'], prefix, k))
        if mode < 0.5:
            g.script.append(st)
        else:
            pos = next(j for j, q in enumerate(g.script) if q.get('id') == e and q['s'] == 'expr') + 1
            g.script.insert(rng.randint(pos, len(g.script)), st)
    return take


# ---- hierarchy ---------------------------------------------------------------------------------------------------
def _blocks(script):
    """Statements grouped so that an output and its assignments stay together."""
    out, where = [], {}
    for st in script:
        if st['s'] == 'create':
            where[st['id']] = [st]
            out.append(where[st['id']])
        elif st['s'] in ('assign', 'define'):
            where[st['id']].append(st)
        else:
            out.append([st])
    return out


def hierarchize(rng, script, shapes, depth=1, prefix='h', kinds=('ot', 'ot', 'inline', 'om', 'omgroup'), nseg=None, hide=True, wide=False):
    """Split a flat script into subsystems; returns an equivalent nested script. shapes: id -> shape."""
    blocks = _blocks(script)
    n = len(blocks)
    defs = {}                 # id -> block index
    for b, bl in enumerate(blocks):
        for st in bl:
            d, _ = ids_of(st)
            if d:
                defs[d] = (b, st)
    uses = {}                 # id -> set of blocks using it as operand
    regname, regblock = {}, {}
    for b, bl in enumerate(blocks):
        for st in bl:
            if st['s'] == 'reg':
                regname[st['id']], regblock[st['id']] = st['name'], b
                continue
            _, u = ids_of(st)
            for x in u:
                uses.setdefault(x, set()).add(b)
    # choose disjoint segments of blocks
    k = nseg or rng.choice([1, 1, 2, 2, 3])
    cuts = sorted(rng.sample(range(n + 1), min(2 * k, (n + 1) // 2 * 2)))
    segs = [(a, z) for a, z in zip(cuts[::2], cuts[1::2]) if any(st['s'] == 'expr' for bl in blocks[a:z] for st in bl)]
    if not segs:
        segs = [(0, n)]
    seg_of = {}
    for j, (a, z) in enumerate(segs):
        for b in range(a, z):
            seg_of[b] = j
    counter = [0]
    names = {}                # id -> name by which other levels know it

    def name_of(i):
        if i in names:
            return names[i]
        st = defs[i][1]
        if st['s'] in ('indep', 'input', 'create'):
            names[i] = st['name']
        elif i in regname:
            names[i] = regname[i]
        else:
            counter[0] += 1
            names[i] = '%s%d' % (prefix, counter[0])
        return names[i]

    out, done_reg = [], set()
    paths, late = {}, []
    b = 0
    while b < n:
        if b not in seg_of:
            for st in blocks[b]:
                if st['s'] == 'reg':
                    i = st['id']
                    if i in done_reg or seg_of.get(defs[i][0]) is not None:
                        continue          # registered where it was needed earlier, or inside its subsystem
                    done_reg.add(i)
                out.append(st)
            b += 1
            continue
        j = seg_of[b]
        a, z = segs[j]
        inner, need_in, local = [], [], set()
        body = [st for bl in blocks[a:z] for st in bl]
        for st in body:
            d, u = ids_of(st)
            if st['s'] == 'reg' and defs[st['id']][0] not in range(a, z):
                continue
            for x in u:
                if defs[x][0] not in range(a, z) and x not in local:
                    local.add(x)
                    need_in.append(x)
        pre = []
        for x in need_in:
            src = defs[x][1]
            nm = name_of(x)
            if src['s'] == 'expr' and defs[x][0] not in seg_of and x not in done_reg:
                done_reg.add(x)
                pre.append(dict(s='reg', id=x, name=nm))
            val = src['val'] if src['s'] in ('input', 'indep') else np.ones(shapes[x]).tolist()
            inner.append(dict(s='input', id=x, name=nm, shape=list(shapes[x]), val=val))
        # registrations written in this segment of expressions defined before it
        for st in body:
            if st['s'] == 'reg' and defs[st['id']][0] not in range(a, z):
                if st['id'] not in done_reg and seg_of.get(defs[st['id']][0]) is None:
                    done_reg.add(st['id'])
                    pre.append(st)
        inner_reg = set()
        for st in body:
            if st['s'] == 'reg':
                if defs[st['id']][0] not in range(a, z):
                    continue
                inner_reg.add(st['id'])
            inner.append(st)
        outs = []
        for bl in blocks[a:z]:
            for st in bl:
                d, _ = ids_of(st)
                if not d:
                    continue
                later = any(q >= z or q < a for q in uses.get(d, ()))
                if st['s'] == 'expr' and (later or d in regname):
                    if d not in inner_reg:
                        inner_reg.add(d)
                        inner.append(dict(s='reg', id=d, name=name_of(d)))
                if later:
                    outs.append(d)
        kind = rng.choice(kinds)
        if kind == 'om' and any(st['s'] == 'indep' for st in inner):
            kind = 'omgroup'
        nested = inner
        if depth > 1 and kind in ('ot', 'inline') and rng.random() < 0.6:
            nested = hierarchize(rng, inner, shapes, depth - 1, prefix + 'n%d_' % j, kinds, hide=False, wide=wide)
        if not outputs(inner):
            # nothing would be built; keep the statements where they are
            kind = None
        if kind is None:
            out.extend(pre)
            out.extend(st for st in inner if not (st['s'] == 'input' and st['id'] in need_in))
            b = z
            continue
        sub = dict(s='sub', name='%ss%d' % (prefix, j), kind=kind, script=nested)
        if kind in ('ot', 'omgroup'):
            ins = sorted({st['name'] for st in inner if st['s'] == 'input'} & used_leaves(nested))
            pouts = sorted(outputs(nested)) + sorted({st['name'] for st in inner if st['s'] == 'indep'})
            if kind == 'omgroup':
                ins = sorted({st['name'] for st in inner if st['s'] == 'input'})
            keep = {name_of(d) for d in outs}
            form = rng.random()
            produced = {x for x in need_in if defs[x][1]['s'] not in ('input',)}
            if wide and hide and kind == 'ot' and form > 0.8 and produced | set(outs):
                # nothing but independents and undefined inputs is promoted; the rest is connected explicitly
                pn = {name_of(x) for x in produced}
                sub['promotes_inputs'] = [q for q in ins if q not in pn]
                sub['promotes_outputs'] = sorted(st['name'] for st in inner if st['s'] == 'indep')
                sub['hidden'] = [q for q in pouts if q not in sub['promotes_outputs']]
                sub['connect'] = [[paths.get(q, q), sub['name'] + '.' + q] for q in ins if q in pn]
                for q in sub['hidden']:
                    paths[q] = sub['name'] + '.' + q
                late += [[paths[name_of(d)], name_of(d)] for d in outs if name_of(d) in paths]
            elif form < 0.25:
                sub['promotes'] = ['*']
            elif wide and form < 0.4:
                sub['promotes_inputs'], sub['promotes_outputs'] = ['*'], ['*']
            else:
                hidden = []
                if hide and rng.random() < 0.4:
                    cand = [q for q in pouts if q not in keep and q in outputs(inner)]
                    if cand:
                        hidden = [rng.choice(cand)]
                pouts = [q for q in pouts if q not in hidden]
                sub['hidden'] = hidden
                if form < 0.7:
                    sub['promotes_inputs'], sub['promotes_outputs'] = ins, pouts
                else:
                    sub['promotes'] = ins + pouts
                if wide and kind == 'ot' and rng.random() < 0.5:
                    c = sub['promotes_inputs'] + sub['promotes_outputs'] if 'promotes_inputs' in sub else sub['promotes']
                    sub['rename'] = sorted(rng.sample(c, rng.randint(0, len(c))))
            if wide and rng.random() < 0.5:
                sub['written'] = rng.choice(['tuple', 'glob', 'reversed'])
        elif kind == 'om':
            sub['promotes'] = ['*']
        out.extend(pre)
        out.append(sub)
        for d in outs:
            st = defs[d][1]
            val = st['val'] if st['s'] in ('input', 'indep') else np.ones(shapes[d]).tolist()
            out.append(dict(s='input', id=d, name=name_of(d), shape=list(shapes[d]), val=val))
        b = z
    if late:
        used = used_leaves([st for st in out if 'connect' not in st])
        out.append(dict(s='connect', pairs=[q for q in late if q[1] in used]))
    return out


def renamed(script, names):
    """the same statements with other names: n -> n_in"""
    def nm(n):
        return n + '_in' if n in names else n
    out = []
    for st in script:
        st = dict(st)
        if st['s'] in ('indep', 'input', 'reg', 'create'):
            st['name'] = nm(st['name'])
        elif st['s'] == 'sub':
            st['script'] = renamed(st['script'], names)
            for k in ('promotes', 'promotes_inputs', 'promotes_outputs', 'hidden'):
                if k in st:
                    st[k] = [nm(n) for n in st[k]]
        out.append(st)
    return out


def hidden_paths(script):
    """name -> path for outputs of top-level subsystems that are not promoted."""
    return {h: st['name'] + '.' + h for st in script if st['s'] == 'sub' for h in st.get('hidden', [])}


def shuffle(rng, script, early=False):
    """Another order of writing the same program: a random topological order (assignments to one output keep together
    with its creation or drift apart, registrations move anywhere after what they register). With early, expressions of an
    output may be written before its definition (the reference does not evaluate such scripts)."""
    n = len(script)
    before = {k: set() for k in range(n)}
    dpos = {}
    for k, st in enumerate(script):
        d, u = ids_of(st)
        for x in u:
            before[k].add(dpos[x])
        if d:
            dpos[d] = k
    # an expression that reads an assembled output must come after its last assignment
    last = {}
    for k, st in enumerate(script):
        if st['s'] in ('assign', 'define'):
            last.setdefault(st['id'], []).append(k)
    for k, st in enumerate(script):
        if st['s'] in ('expr', 'assign', 'define') and not early:
            for x in (st['args'] if st['s'] == 'expr' else [st['src']]):
                for q in last.get(x, []):
                    if q < k:
                        before[k].add(q)
    # what a subsystem reads is registered before it, and what it computes declared after it
    made = {}
    nm = {}
    for k, st in enumerate(script):
        s = st['s']
        need = set()
        if s in ('sub', 'imp'):
            need = used_leaves([st]) | {q['name'] for q in walk_all(st['script']) if q['s'] == 'input'}
        elif s == 'input':
            need = {st['name']} if made.get(st['name'], (0, ''))[1] in ('sub', 'imp') else set()
        before[k].update(j for q in need if q in made for j in made[q][0])
        if s == 'create':
            nm[st['id']] = st['name']
        if s in ('reg', 'indep', 'create'):
            made[st['name']] = ([k], s)
        elif s in ('assign', 'define'):
            made[nm[st['id']]][0].append(k)
        elif s in ('sub', 'imp'):
            for q in set(outputs([st])) | indeps_of([st]):
                made[q] = ([k], s)
        elif s in ('connect', 'solver'):
            before[k].update(range(k))
    out, placed = [], set()
    while len(out) < n:
        ready = [k for k in range(n) if k not in placed and before[k] <= placed]
        k = rng.choice(ready) if rng.random() < 0.8 else ready[-1]
        placed.add(k)
        out.append(script[k])
    return out
