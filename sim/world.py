"""The seams the simulator owns: hash order, expression counter, step counting, crash points, thread schedule, forks."""
import ast
import dis
import hashlib
import itertools
import json
import os
import random
import resource
import select
import signal
import sys
import threading
import time
import traceback

_lib_prefix = None


class HarnessError(Exception):
    """The check itself is at fault."""


# ---- measures of one case ----------------------------------------------------------------------------------------
STATS = {}
_sig = hashlib.sha1()


def reset_stats():
    global _sig
    STATS.clear()
    _sig = hashlib.sha1()


def stat(key, n=1):
    STATS[key] = STATS.get(key, 0) + n


def sig(*parts):
    """Fold what was observed (orders, schedules, values) into the signature of this execution."""
    for p in parts:
        _sig.update(repr(p).encode())


def take_sig():
    return _sig.hexdigest()[:16]


# ---- uninitialised memory ----------------------------------------------------------------------------------------
def install_empty(seed):
    """numpy.empty called by the library returns seeded garbage instead of whatever the allocator had."""
    import numpy as np
    rng = random.Random('empty/%s' % seed)
    real = getattr(np.empty, '_sim_real', np.empty)

    def empty(*a, **k):
        r = real(*a, **k)
        if _lib_prefix and sys._getframe(1).f_code.co_filename.startswith(_lib_prefix) and r.dtype.kind in 'fc':
            stat('uninitialised_arrays')
            r.fill(rng.uniform(-1e3, 1e3))
        return r
    empty._sim_real = real
    np.empty = empty


class SimLock:
    """A lock created by library code: a thread that waits for it hands over control instead of blocking the simulation."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.count = reentrant, None, 0
        self.real = _real_locks['Lock']()

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        spins = 0
        while not self.real.acquire(False):
            if not blocking:
                return False
            i = _baton.tids.get(me) if _baton is not None else None
            if i is None or len(_baton._alive()) < 2:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('a thread waits for a lock that nobody will release')
            spins += 1
            if spins > 2000:
                raise Deadlock('threads wait for each other')
            _baton.hand_over(i)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.reentrant:
            if self.owner != threading.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self.count -= 1
            if self.count:
                return
        self.owner = None
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


_real_locks = {'Lock': threading.Lock, 'RLock': threading.RLock}
_baton = None


def install_locks():
    """Locks made by library code become simulated ones; everybody else gets the real ones."""
    import importlib.util
    prefix = os.path.dirname(os.path.abspath(importlib.util.find_spec('omtools').origin)) + os.sep

    def factory(kind):
        real = _real_locks[kind]

        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                return SimLock(kind == 'RLock')
            return real(*a, **k)
        return make
    for kind in _real_locks:
        setattr(threading, kind, factory(kind))


def lib():
    """Import the library under test (from /repo's working tree) and return the public namespace."""
    global _lib_prefix
    if 'omtools' not in sys.modules:
        install_locks()
    import omtools
    import omtools.api as ot
    _lib_prefix = os.path.dirname(os.path.abspath(omtools.__file__)) + os.sep
    return ot


def preload():
    """Import every module of the library that is safe to import, so later code never imports under a lock."""
    import importlib
    import pkgutil
    import warnings
    warnings.simplefilter('ignore')
    lib()
    import omtools
    for sub in ('core', 'comps', 'std', 'utils'):
        d = os.path.join(os.path.dirname(omtools.__file__), sub)
        for root, _, files in os.walk(d):
            for f in sorted(files):
                if f.endswith('.py') and f != 'generate_example_scripts.py' and f != '__init__.py':
                    rel = os.path.relpath(os.path.join(root, f), os.path.dirname(omtools.__file__))[:-3]
                    try:
                        importlib.import_module('omtools.' + rel.replace(os.sep, '.'))
                    except Exception:
                        pass
    import openmdao.api  # noqa


# ---- unordered choices -------------------------------------------------------------------------------------------
class HashSchedule:
    """Decides the hash of every expression object, i.e. how identity-hashed sets iterate.

    modes: random; creation (ascending); reverse; clustered (few distinct buckets, insertion order inside)."""

    def __init__(self, seed, mode='random'):
        self.rng = random.Random('hash/%s' % seed)
        self.mode = mode
        self.n = 0
        self.decisions = 0
        self.lock = threading.Lock()

    def value(self):
        self.n += 1
        if self.mode == 'random':
            return self.rng.getrandbits(60)
        if self.mode == 'creation':
            return self.n
        if self.mode == 'reverse':
            return (1 << 40) - self.n
        if self.mode == 'clustered':
            return self.rng.randrange(4) + 8 * self.rng.randrange(3)
        return self.rng.getrandbits(3)


_sched = None


def install_hash(sched):
    global _sched
    _sched = sched
    from omtools.core.variable import Variable

    def __hash__(self):
        h = self.__dict__.get('_sim_hash')
        if h is None:
            h = _sched.value() if _sched is not None else id(self) >> 4
            self.__dict__['_sim_hash'] = h
        return h
    try:
        Variable.__hash__ = __hash__
    except Exception:
        pass


def set_counter(n):
    """Simulate process history: how many expressions were created before (if the library counts them)."""
    from omtools.core.variable import Variable
    for attr in ('_count', '_counter', '_ids'):
        c = Variable.__dict__.get(attr)
        if isinstance(c, int) and not isinstance(c, bool):
            setattr(Variable, attr, n)
            return True
        if isinstance(c, itertools.count):
            setattr(Variable, attr, itertools.count(n))
            return True
    return False


# ---- execution events --------------------------------------------------------------------------------------------
class NoProgress(BaseException):
    """Step budget of the simulation exhausted."""


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


EXC = {'KeyboardInterrupt': SimInterrupt, 'MemoryError': SimMemoryError}

TOOL = 4
mon = sys.monitoring


def _is_lib(code):
    return code.co_filename.startswith(_lib_prefix)


class StepCounter:
    """Counts calls and jumps executed inside the library; optional budget."""

    def __init__(self, budget=None):
        self.budget = budget
        self.steps = 0

    def __enter__(self):
        mon.use_tool_id(TOOL, 'sim')
        ev = mon.events.PY_START | mon.events.JUMP | mon.events.BRANCH

        def cb(code, *a):
            if not _is_lib(code):
                return mon.DISABLE
            self.steps += 1
            if self.budget is not None and self.steps > self.budget:
                raise NoProgress('more than %d steps inside the library' % self.budget)
        for e in (mon.events.PY_START, mon.events.JUMP, mon.events.BRANCH):
            mon.register_callback(TOOL, e, cb)
        mon.restart_events()
        mon.set_events(TOOL, ev)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        for e in (mon.events.PY_START, mon.events.JUMP, mon.events.BRANCH):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False


_skips = {}


def no_crash(filename):
    """lines at which no exception from outside can arise in CPython: signals are handled at calls and jumps, so not between the end of the
    body of a with statement and its __exit__, nor right before the first statement of a finally clause"""
    if filename not in _skips:
        lines = _skips[filename] = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            return lines
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                lines.update(range(n.lineno, n.body[0].lineno))
                if n.body[0].lineno == n.lineno:
                    lines.add(n.lineno)
            elif isinstance(n, ast.Try) and n.finalbody:
                lines.add(n.finalbody[0].lineno)
    return _skips[filename]


class LinePoints:
    """Counts line events inside the library; raises at the k-th (1-based) if k is given."""

    def __init__(self, k=None, exc=None, budget=20_000_000, record=False, anywhere=False):
        self.seen = {} if record else None
        self.k, self.exc, self.count, self.fired, self.where = k, exc, 0, False, None
        self.budget = budget
        self.skip = (lambda filename: ()) if anywhere else no_crash

    def __enter__(self):
        mon.use_tool_id(TOOL, 'sim')

        def cb(code, line):
            if not _is_lib(code):
                return mon.DISABLE
            self.count += 1
            if self.seen is not None:
                self.seen.setdefault((code, line), []).append(self.count)
            if self.k is not None and self.count >= self.k and not self.fired and line not in self.skip(code.co_filename):
                self.fired = True
                self.where = '%s:%s' % (code.co_filename[len(_lib_prefix):], code.co_name)
                raise self.exc()
            if self.count > self.budget:
                raise NoProgress()
        mon.register_callback(TOOL, mon.events.LINE, cb)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


# ---- threads -----------------------------------------------------------------------------------------------------
STORES = {dis.opmap[o] for o in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_NAME', 'DELETE_SUBSCR', 'DELETE_ATTR')}


class Deadlock(Exception):
    pass


class Baton:
    """Runs several functions in real threads, exactly one at a time; the seed decides at bytecodes of the library who goes
    on.  trace of decisions is recorded; `plan` (list of [event index, thread]) replays a minimised schedule."""

    def __init__(self, fns, seed=None, plan=None, rate=0.02, focus=None, hot=0.2, stores=False,
                 budget=30_000_000):
        self.fns = fns
        self.rng = random.Random('baton/%s' % seed)
        self.plan = None if plan is None else {int(a): int(b) for a, b in plan}
        self.rate = rate
        self.focus = focus            # None or names of functions in which switches are frequent (`hot`)
        self.hot, self.stores = hot, stores      # stores: only right before an attribute or global is written
        self.codes = {}
        self.switches = []
        self.events = 0
        self.cur = 0
        self.budget = budget
        self.results = [None] * len(fns)
        self.errors = [None] * len(fns)
        self.done = [False] * len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.finished = threading.Semaphore(0)
        self.tids = {}
        self.gap = 0

    def _alive(self):
        return [i for i in range(len(self.fns)) if not self.done[i]]

    def _hot(self, code, off):
        if self.focus and code.co_name not in self.focus:
            return False
        if not self.stores:
            return True
        b = self.codes.get(code)
        if b is None:
            b = self.codes[code] = code.co_code
        return b[off] in STORES

    def _yield(self, me, code, off):
        self.events += 1
        if self.events > self.budget:
            raise NoProgress()
        nxt = None
        if self.plan is not None:
            nxt = self.plan.get(self.events)
            if nxt is not None and (nxt >= len(self.fns) or self.done[nxt] or nxt == me):
                nxt = None
        else:
            r = self.rate
            if self.focus is not None and self._hot(code, off):
                r = self.hot
            if self.rng.random() < r:
                c = [i for i in self._alive() if i != me]
                if c:
                    nxt = self.rng.choice(c)
        if nxt is not None:
            self.switches.append([self.events, nxt])
            self.cur = nxt
            self.sems[nxt].release()
            self.sems[me].acquire()

    def hand_over(self, me):
        """the running thread cannot go on: the next one does"""
        n = len(self.fns)
        nxt = next(i % n for i in range(me + 1, me + n) if not self.done[i % n])
        stat('lock_waits')
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def run(self, timeout=120):
        global _baton
        _baton = self

        def body(i):
            self.sems[i].acquire()
            self.tids[threading.get_ident()] = i
            try:
                self.results[i] = self.fns[i]()
            except BaseException as e:  # noqa
                self.errors[i] = e
            self.done[i] = True
            self.tids.pop(threading.get_ident(), None)
            al = self._alive()
            if al:
                nxt = al[0] if self.plan is not None else self.rng.choice(al)
                self.cur = nxt
                self.sems[nxt].release()
            else:
                self.finished.release()

        mon.use_tool_id(TOOL, 'sim')

        def cb(code, off):
            if not _is_lib(code):
                return mon.DISABLE
            me = self.tids.get(threading.get_ident())
            if me is None:
                return
            self._yield(me, code, off)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, cb)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.INSTRUCTION)
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ths:
            t.start()
        self.cur = 0 if self.plan is not None else self.rng.randrange(len(self.fns))
        first = 0 if self.plan is None else self.plan.get(0, 0)
        if self.plan is None:
            self.switches.append([0, self.cur])
            first = self.cur
        self.sems[first].release()
        ok = self.finished.acquire(timeout=timeout)
        _baton = None
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
        if not ok:
            raise Deadlock('threads did not finish')
        return self.results


# ---- isolation of one case ---------------------------------------------------------------------------------------
def run_forked(fn, arg, timeout=240, cpu=None):
    """Run fn(arg) in a forked child (exactly the parent's state), return its JSON-able result.
    Result forms: {'ok':..., ...} from fn; {'died': text} if the child left without a result; {'timeout': True}."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('SIM_STDERR'):
                os.dup2(dn, 2)
            try:
                res = fn(arg)
            except SystemExit as e:
                res = {'exit': repr(e.code)}
            except BaseException as e:  # noqa
                res = {'harness': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
            data = json.dumps(res, default=_js).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed or os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
        return {'timeout': True}
    try:
        return json.loads(b''.join(chunks).decode())
    except Exception:
        return {'died': 'status %d' % st}


def _js(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)
