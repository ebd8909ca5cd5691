"""C17: option dictionaries reflect exactly the accepted operations."""
import builtins
import copy
from sim import world
from sim.model import Violation
from sim.world import sig, stat

PROP = 'C17'
COUNTS = {'quick': 8000, 'thorough': 120000}
RULE = ('histories of up to 60 operations (declare, assign, update, remove, read, membership, iteration, printing, construction of further '
        'dictionaries) over 1 to 4 option dictionaries, plain, read-only and subclasses with initialize and pre_setup, with validators '
        'that accept, reject, read and assign other options, fail when called, and with the operation interrupted at a chosen line of the '
        'library. Non-trivial if at least one operation was accepted and one rejected or interrupted')
DISTINCT = 'sha1 over the outcome of every operation and the state read back after it'
REAL = ['omtools.utils.options_dictionary']
STUB = ['user-supplied validators (simulated)', 'signals (raised at a chosen line)']
TIME = 'no clock; time is the number of operations performed'
ASSUMPTIONS = ['options are declared through the public methods only']

NAMES = ['a', 'b', 'c', 'long_option_name', '']


class Thing:
    pass


THING, THING2 = Thing(), Thing()


def func(x):
    return x


_vals = {}


def val(t):
    if not _vals:
        fill()
    return _vals[t]


def fill():
    import numpy as np
    _vals.update({'none': None, 'true': True, 'false': False, 'i0': 0, 'i1': 1, 'i7': 7, 'im3': -3, 'f': 2.5, 'fm': -0.5, 'big': 1e9, 'sa': 'a', 'sb': 'b',
            's': '', 'sl': 'text ' * 30, 'lt': '<x object at y>', 'tup': (1, 2), 'lst': [1], 'npf': np.float64(1.5), 'npi': np.int64(3), 'arr': np.array([1., 2.]), 'obj': THING,
            'obj2': THING2, 'fn': func, 'cls': Thing, 'dct': {'k': 1}})



TOKENS = ['none', 'true', 'false', 'i0', 'i1', 'i7', 'im3', 'f', 'fm', 'big', 'sa', 'sb', 's', 'sl', 'lt', 'tup', 'lst', 'npf', 'npi', 'arr', 'obj', 'obj2',
          'fn', 'cls', 'dct']
TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'tuple': tuple, 'list': list, 'Thing': Thing, 'type': type}
FAILS = ['ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'AttributeError', 'StopIteration', 'KeyboardInterrupt', 'SystemExit', 'MemoryError',
         'OSError', 'AssertionError', 'IndexError', 'GeneratorExit']


class SimFail(Exception):
    pass


_types = {}


def failure(name):
    if name not in _types:
        _types[name] = type('Sim' + name, (getattr(builtins, name),), {'sim': True})
    return _types[name]('injected')


# ---- generation --------------------------------------------------------------------------------------------------
def gen_spec(rng):
    s = {}
    if rng.random() < 0.6:
        s['default'] = rng.choice(TOKENS)
    r = rng.random()
    if r < 0.25:
        s['values'] = [rng.choice(['list', 'list', 'tuple', 'set']), [rng.choice([t for t in TOKENS if t not in ('lst', 'dct', 'arr')]) for _ in range(rng.randint(0, 4))]]
    elif r < 0.6:
        s['types'] = [rng.choice(['one', 'tuple', 'list', 'set']), [rng.choice(list(TYPES)) for _ in range(rng.randint(1, 3))]]
    elif r < 0.66:
        s['bad'] = rng.choice(['values-str', 'values-dict', 'types-str', 'types-int', 'both'])
    if 'default' in s and rng.random() < 0.5:      # often a default that fits
        if 'values' in s and s['values'][1]:
            s['default'] = rng.choice(s['values'][1])
        elif 'types' in s:
            s['default'] = {'int': 'i7', 'float': 'f', 'str': 'sa', 'bool': 'true', 'tuple': 'tup', 'list': 'lst', 'Thing': 'obj',
                            'type': 'cls'}[s['types'][1][0]]
    if rng.random() < 0.25:
        s['lower'] = rng.choice([-5, 0, 0.5])
    if rng.random() < 0.25:
        s['upper'] = rng.choice([0, 1, 5.5])
    if rng.random() < 0.3:
        s['allow_none'] = rng.random() < 0.8
    if rng.random() < 0.4:
        k = rng.random()
        s['check'] = ('ok',) if k < 0.4 else ('reject', rng.choice(TOKENS)) if k < 0.7 else ('reads', rng.choice(NAMES)) if k < 0.85 else \
            ('sets', rng.choice(NAMES), rng.choice(TOKENS))
    if rng.random() < 0.3:
        s['desc'] = rng.choice(['short', 'a much longer description ' * 6, ''])
    return s


def fits(rng, spec):
    """a value likely to be accepted"""
    if spec.get('values') and spec['values'][1]:
        return rng.choice(spec['values'][1])
    if spec.get('types'):
        return {'int': rng.choice(['i0', 'i1', 'i7', 'im3']), 'float': rng.choice(['f', 'fm', 'big', 'npf']), 'str': rng.choice(['sa', 'sb', 's', 'sl']),
                'bool': 'false', 'tuple': 'tup', 'list': 'lst', 'Thing': rng.choice(['obj', 'obj2']), 'type': 'cls'}[rng.choice(spec['types'][1])]
    return rng.choice(TOKENS)


def gen(rng, i, tier):
    n = rng.randint(5, 60)
    ops, specs, nd = [], {}, 0
    for k in range(n):
        r = rng.random()
        d = rng.randrange(max(nd, 1))
        name = rng.choice(NAMES[:rng.choice([2, 3, 5])])
        if nd == 0 or (r < 0.05 and nd < 4):
            op = ['new', rng.choice(['plain', 'plain', 'plain', 'readonly', 'sub', 'sub', 'subsub', 'subreadonly']),
                  {rng.choice(NAMES[:4]): rng.choice(TOKENS) for _ in range(rng.choice([0, 0, 1, 2]))}]
            if nd == 0:
                op[2] = {}
            if op[1].startswith('sub'):
                op.append([[rng.choice(NAMES), gen_spec(rng)] for _ in range(rng.randint(0, 3))])
                op[3] = [e for e in op[3] if 'bad' not in e[1] and ('default' not in e[1] or rng.random() < 0.3)]
                for nm in list(op[2]):
                    if rng.random() < 0.7:
                        op[3].append([nm, {'default': 'none'}])
            nd += 1
        elif r < 0.3:
            s = gen_spec(rng)
            op = ['declare', d, name, s]
            specs[d, name] = s
        elif r < 0.6:
            op = ['set', d, name, fits(rng, specs.get((d, name), {})) if rng.random() < 0.7 else rng.choice(TOKENS)]
        elif r < 0.7:
            op = ['update', d, [[nm, fits(rng, specs.get((d, nm), {})) if rng.random() < 0.7 else rng.choice(TOKENS)]
                                for nm in rng.sample(NAMES, rng.randint(0, 4))]]
        elif r < 0.77:
            op = ['undeclare', d, name]
        elif r < 0.88:
            op = ['get', d, name]
        elif r < 0.92:
            op = ['contains', d, name]
        else:
            op = ['show', d, rng.choice(['repr', 'str', 'rst', 'iter'])]
        f = None
        if op[0] in ('set', 'update', 'declare') and rng.random() < 0.15:
            f = ['validator', rng.randint(1, 3 if op[0] == 'update' else 1), rng.choice(FAILS)]
        elif op[0] in ('set', 'update', 'declare', 'undeclare', 'get', 'show') and rng.random() < 0.12:
            f = ['line', rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
        ops.append({'op': op, 'fault': f})
    return {'ops': ops}


def shrink(case):
    n = len(case['ops'])
    step = max(1, n // 2)
    while step:
        for a in range(0, n, step):
            if a == 0 and case['ops'][0]['op'][0] == 'new' and step == 1:
                continue
            c = copy.deepcopy(case)
            del c['ops'][a:a + step]
            if c['ops'] and c['ops'][0]['op'][0] == 'new':
                yield c
        step //= 2
    for k, o in enumerate(case['ops']):
        if o['fault']:
            c = copy.deepcopy(case)
            c['ops'][k]['fault'] = None
            yield c
        if o['op'][0] == 'declare':
            for key in list(o['op'][3]):
                c = copy.deepcopy(case)
                del c['ops'][k]['op'][3][key]
                yield c


# ---- the reference -----------------------------------------------------------------------------------------------
class Rejected(Exception):
    def __init__(self, *kinds):
        self.kinds = kinds


class Ref:
    """the documented behaviour, on immutable snapshots"""

    def __init__(self, read_only):
        self.read_only = read_only
        self.d = {}          # name -> (spec, set?, token)

    def ok(self, name, spec, tok, calls):
        v = val(tok)
        if not (v is None and spec.get('allow_none')):
            if 'values' in spec:
                vals = (set if spec['values'][0] == 'set' else list)(val(t) for t in spec['values'][1])
                try:
                    if v not in vals:
                        raise Rejected(ValueError)
                except (TypeError, ValueError):
                    raise Rejected(Exception)
            elif 'types' in spec:
                if not isinstance(v, tuple(TYPES[t] for t in spec['types'][1])):
                    raise Rejected(TypeError)
            for key, beyond in (('upper', lambda a, b: a > b), ('lower', lambda a, b: a < b)):
                if key in spec:
                    try:
                        out = bool(beyond(v, spec[key]))
                    except Exception:
                        raise Rejected(Exception)
                    if out:
                        raise Rejected(ValueError)
        c = spec.get('check')
        if c:
            self.check(c, name, tok, calls)

    def check(self, c, name, tok, calls):
        k = calls.enter(name, tok)
        if k is not None:
            raise Rejected(k)
        if c[0] == 'reject' and tok == c[1]:
            raise Rejected(SimFail)
        if c[0] == 'reads' and c[1] != name:
            if c[1] in self.d and self.d[c[1]][1]:
                calls.seen.append(('read', self.d[c[1]][2]))
            else:
                calls.seen.append(('read', None))
        if c[0] == 'sets' and c[1] != name and calls.depth < 3:
            try:
                self.set(c[1], c[2], calls)
                calls.seen.append(('set', 1))
            except Rejected as e:
                if not all(issubclass(x, Exception) for x in e.kinds):
                    raise
                calls.seen.append(('set', 0))
        calls.leave()

    def declare(self, name, spec, calls):
        if spec.get('bad'):
            raise Rejected(TypeError, RuntimeError)
        if 'default' in spec:
            self.ok(name, spec, spec['default'], calls)
        self.d[name] = (spec, 'default' in spec, spec.get('default'))

    def set(self, name, tok, calls):
        if name not in self.d:
            raise Rejected(KeyError)
        if self.read_only:
            raise Rejected(KeyError)
        self.ok(name, self.d[name][0], tok, calls)
        if name in self.d:
            self.d[name] = (self.d[name][0], True, tok)


class Calls:
    """counts the calls of validators within one operation and makes the chosen one fail"""

    def __init__(self, fault):
        self.n, self.depth, self.seen = 0, 0, []
        self.fault = fault if fault and fault[0] == 'validator' else None
        self.exc = failure(self.fault[2]) if self.fault else None
        self.fired = False

    def enter(self, name, tok):
        self.n += 1
        if self.fault and self.n == self.fault[1]:
            self.fired = True
            return type(self.exc)
        self.depth += 1
        return None

    def leave(self):
        self.depth -= 1


class Env:
    calls = None


def same(a, b):
    return a is b


def real_check(env, od, c):
    def check(name, value):
        calls = env.calls
        if calls.enter(name, value) is not None:
            raise calls.exc
        try:
            if c[0] == 'reject' and (value is val(c[1]) or type(value) is type(val(c[1])) and not hasattr(value, 'shape') and value == val(c[1])):
                raise SimFail('rejected')
            if c[0] == 'reads' and c[1] != name:
                try:
                    calls.seen.append(('read', od()[c[1]]))
                except (KeyError, RuntimeError):
                    calls.seen.append(('read', None))
            if c[0] == 'sets' and c[1] != name and calls.depth < 3:
                try:
                    od()[c[1]] = val(c[2])
                    calls.seen.append(('set', 1))
                except Exception as e:
                    if getattr(e, 'sim', False) and not isinstance(e, Exception):
                        raise
                    calls.seen.append(('set', 0))
        finally:
            calls.leave()
    return check


def kwargs(env, od, spec):
    k = {}
    if 'default' in spec:
        k['default'] = val(spec['default'])
    if 'values' in spec:
        k['values'] = {'list': list, 'tuple': tuple, 'set': set}[spec['values'][0]]([val(t) for t in spec['values'][1]])
    if 'types' in spec:
        ts = [TYPES[t] for t in spec['types'][1]]
        k['types'] = ts[0] if spec['types'][0] == 'one' else {'tuple': tuple, 'list': list, 'set': set}[spec['types'][0]](ts)
    b = spec.get('bad')
    if b:
        k.update({'values-str': {'values': 'abc'}, 'values-dict': {'values': {1: 2}}, 'types-str': {'types': 'int'}, 'types-int': {'types': 3},
                  'both': {'values': [1], 'types': int}}[b])
    for key in ('lower', 'upper', 'allow_none', 'desc'):
        if key in spec:
            k[key] = spec[key]
    if spec.get('check'):
        k['check_valid'] = real_check(env, od, spec['check'])
    return k


def norm(spec):
    """types given one by one use the first only"""
    s = dict(spec)
    if 'types' in s and s['types'][0] == 'one':
        s['types'] = ['one', s['types'][1][:1]]
    return s


def compare(d, r, what):
    """the whole observable state of one dictionary"""
    names = list(d)
    if sorted(names) != sorted(r.d):
        raise Violation('names', '%s: the dictionary lists %s, accepted declarations are %s' % (what, sorted(names), sorted(r.d)))
    for n in NAMES:
        if (n in d) != (n in r.d):
            raise Violation('membership', '%s: %r in options is %s' % (what, n, n in d))
        try:
            v, e = d[n], None
        except Exception as x:
            v, e = None, x
        if n not in r.d:
            if not isinstance(e, KeyError):
                raise Violation('read', '%s: reading undeclared option %r gives %r' % (what, n, e if e else v))
        elif not r.d[n][1]:
            if not isinstance(e, RuntimeError):
                raise Violation('required', '%s: reading required option %r, never set, gives %r' % (what, n, e if e else v))
        elif e is not None or not same(v, val(r.d[n][2])):
            raise Violation('value', '%s: option %r reads %r, the last accepted value is %r' % (what, n, e if e else v, val(r.d[n][2])))
    return tuple((n, r.d[n][1], r.d[n][2]) for n in sorted(r.d))


def run(case):
    import omtools.api as ot
    OD = ot.OptionsDictionary
    env = Env()
    ds, rs, accepted, stopped = [], [], 0, 0

    def build(op):
        kind, kw, specs = op[1], op[2], op[3] if len(op) > 3 else []
        log = []
        if kind.startswith('sub'):
            class Sub(OD):
                def initialize(self):
                    log.append('initialize')
                    for nm, s in specs:
                        self.declare(nm, **kwargs(env, lambda: self, s))

                def pre_setup(self):
                    log.append(('pre_setup', tuple(sorted(self))))
            cls = Sub
            if kind == 'subsub':
                class SubSub(Sub):
                    def pre_setup(self):
                        super().pre_setup()
                cls = SubSub
        else:
            cls = OD
        d = cls(**dict({'read_only': True} if 'readonly' in kind else {}, **{k: val(t) for k, t in kw.items()}))
        if kind.startswith('sub') and [x[0] if isinstance(x, tuple) else x for x in log] != ['initialize', 'pre_setup']:
            raise Violation('construction', 'hooks of the class were called as %s' % (log,))
        return d

    def refbuild(op, calls):
        kind, kw, specs = op[1], op[2], op[3] if len(op) > 3 else []
        r = Ref('readonly' in kind)
        for nm, s in specs:
            r.declare(nm, norm(s), calls)
        for k, t in kw.items():
            r.set(k, t, calls)
        return r

    def real(op, d):
        k = op[0]
        if k == 'declare':
            d.declare(op[2], **kwargs(env, lambda: d, op[3]))
        elif k == 'set':
            d[op[2]] = val(op[3])
        elif k == 'update':
            d.update({n: val(t) for n, t in op[2]})
        elif k == 'undeclare':
            d.undeclare(op[2])
        elif k == 'get':
            return d[op[2]]
        elif k == 'contains':
            return op[2] in d
        elif k == 'show':
            t = {'repr': lambda: repr(d), 'str': lambda: str(d), 'rst': lambda: '\n'.join(d.__rst__()), 'iter': lambda: ' '.join(d)}[op[2]]()
            return t

    def ref(op, r, calls):
        """the states after each step of the operation: the last is final, earlier ones may be seen after an interruption"""
        k = op[0]
        if k == 'declare':
            r.declare(op[2], norm(op[3]), calls)
        elif k == 'set':
            r.set(op[2], op[3], calls)
        elif k == 'update':
            for n, t in op[2]:
                r.set(n, t, calls)
        elif k == 'undeclare':
            r.d.pop(op[2], None)
        elif k == 'get':
            if op[2] not in r.d:
                raise Rejected(KeyError)
            if not r.d[op[2]][1]:
                raise Rejected(RuntimeError)

    for j, o in enumerate(case['ops']):
        op, f = o['op'], o['fault']
        what = 'operation %d %s' % (j, op[:3])
        if op[0] != 'new' and op[1] >= len(ds):
            continue
        stat('operations')
        stat('op:' + op[0])
        rc, calls = Calls(f), Calls(f)
        env.calls = calls
        exp = None
        if op[0] == 'new':
            try:
                r = refbuild(op, rc)
            except Rejected as e:
                exp = e
            try:
                d = build(op)
                got = None
            except Violation:
                raise
            except BaseException as e:
                got = e
            if exp is not None and got is None:
                raise Violation('accepted', '%s: construction accepted what has to be rejected' % what)
            if exp is None and got is not None:
                raise Violation('rejected', '%s: construction raised %s: %s' % (what, type(got).__name__, got))
            if exp is None:
                ds.append(d)
                rs.append(r)
                accepted += 1
        else:
            d, r = ds[op[1]], rs[op[1]]
            before = dict(r.d)
            states = [before]
            steps = [op] if op[0] != 'update' else [['update', op[1], [x]] for x in op[2]]
            trial = Ref(r.read_only)
            trial.d = dict(before)
            for s in steps:
                try:
                    ref(s, trial, rc)
                except Rejected as e:
                    exp = e
                    states.append(dict(trial.d))
                    break
                states.append(dict(trial.d))
            if f and f[0] == 'line' and has_sets(before, op):
                f = None       # a validator that assigns another option is stopped half-way by an interruption: any prefix is fine
            if f and f[0] == 'line':
                with world.LinePoints() as lp:
                    probe(copy_of(d), op, real, env)
                total = lp.count
                env.calls = calls = Calls(None)
                k = 1 + int(f[1] * total) if total else 1
                lp = world.LinePoints(k, {'KeyboardInterrupt': world.SimInterrupt, 'MemoryError': world.SimMemoryError}[f[2]])
                got = None
                with lp:
                    try:
                        res = real(op, d)
                    except (world.SimInterrupt, world.SimMemoryError) as e:
                        got = e
                    except BaseException as e:
                        got = e
                if lp.fired:
                    stat('fault:interrupted_at_line')
                    stopped += 1
                    if got is None:
                        raise Violation('swallowed', '%s: an interruption inside the operation was swallowed' % what)
                    err = None
                    for s in states:
                        r.d = dict(s)
                        try:
                            st = compare(d, r, what + ' interrupted')
                            err = None
                            break
                        except Violation as e:
                            err = err or e
                    if err:
                        raise Violation('interrupted', err.detail if hasattr(err, 'detail') else str(err))
                    sig(j, 'int', st)
                    continue
            else:
                try:
                    res, got = real(op, d), None
                except BaseException as e:
                    got = e
            if calls.fired:
                stat('fault:validator_failed')
            if exp is not None:
                stopped += 1
                if got is None:
                    raise Violation('accepted', '%s: was accepted, has to be rejected' % what)
                if not isinstance(got, tuple(exp.kinds)):
                    raise Violation('error', '%s: raised %s: %s, expected %s' % (what, type(got).__name__, got, [x.__name__ for x in exp.kinds]))
                r.d = states[-1]
            else:
                if got is not None:
                    raise Violation('rejected', '%s: raised %s: %s' % (what, type(got).__name__, got))
                accepted += 1
                r.d = states[-1]
                if op[0] == 'get' and not same(res, val(r.d[op[2]][2])):
                    raise Violation('value', '%s: reads %r' % (what, res))
                if op[0] == 'contains' and res != (op[2] in r.d):
                    raise Violation('membership', '%s: %s' % (what, res))
                if op[0] == 'show':
                    for n in r.d:
                        if n and n not in res:
                            raise Violation('printing', '%s: option %r is not shown' % (what, n))
            seen = [(a, b if a == 'set' else val(b) if b is not None else None) for a, b in rc.seen]
            if exp is None and len(seen) == len(calls.seen) and not all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1] if a[0] == 'set' else same(a[1], b[1]))
                                                                        for a, b in zip(seen, calls.seen)):
                raise Violation('validator', '%s: a validator saw %s, expected %s' % (what, calls.seen, seen))
            if exp is None and op[0] in ('set', 'declare', 'update') and rc.n and not calls.n:
                raise Violation('validator', '%s: the validator was not called' % what)
        for k in range(len(ds)):
            sig(j, compare(ds[k], rs[k], what + (' (dictionary %d)' % k)))
    stat('dictionaries', len(ds))
    return {'nt': bool(accepted and stopped), 'stats': {}}


def has_sets(d, op):
    return any((s.get('check') or [''])[0] == 'sets' for s, _, _ in d.values()) or \
        (op[0] == 'declare' and (op[3].get('check') or [''])[0] == 'sets')


def copy_of(d):
    """the same options in another dictionary, to measure the operation without performing it"""
    import omtools.api as ot
    c = copy.copy(d)
    for k, v in list(vars(d).items()):
        if isinstance(v, dict):
            setattr(c, k, {a: (dict(b) if isinstance(b, dict) else b) for a, b in v.items()})
        elif isinstance(v, list):
            setattr(c, k, list(v))
    return c


def probe(d, op, real, env):
    saved = env.calls
    env.calls = Calls(None)
    try:
        real(op, d)
    except BaseException:
        pass
    env.calls = saved
