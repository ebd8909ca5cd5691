"""C18: generated example scripts do not depend on directory order, leftovers, faults or crashes."""
import ast
import builtins
import contextlib
import copy
import hashlib
import importlib
import io
import os
import random
import re
import runpy
import shutil
import sys
from sim import world
from sim.model import Violation
from sim.world import sig, stat

PROP = 'C18'
COUNTS = {'quick': 320, 'thorough': 5000}
RULE = ('a simulated package directory with a random subset of the real example modules and random synthetic ones, random leftovers '
        '(scripts of an earlier version, longer, shorter or torn, unrelated files, stale scripts), then 1 to 5 generator runs, each in a '
        'fresh or the same process, with its own directory order and fault plan (crash at an operation or a line, full disk, I/O error '
        'on opening, writing or listing, torn and lost buffered writes), with source files edited between runs, closed by a run without '
        'faults. Non-trivial if a fault fired or a leftover was overwritten')
DISTINCT = 'sha1 over fault plan, operation counts, the state of the directories after every run and the final contents'
REAL = ['omtools.utils.generate_example_scripts', 'the example modules of omtools', 'omtools and openmdao when a generated script is run']
STUB = ['open, os.listdir and os.scandir as the generator sees them (order, buffering and faults decided by the simulator over a scratch directory)',
        'process restarts (modules forgotten and executed again)']
TIME = 'no clock; time is the number of file operations performed'
ASSUMPTIONS = ['a crashed process loses any suffix of what it had not flushed', 'example modules keep their imports on single lines']
GEN = 'omtools.utils.generate_example_scripts'
TREE = None
WORDS = ['Single', 'Vector', 'Pair', 'Tensor', 'Mixed', 'Deep', 'Plain', 'Axis', 'Sum']


# strings in the code of a class
LITERALS = ['"""two\nlines"""', '"""one line"""', '"""\nlines\n"""', '"""\nline"""', "'''more\n\n    lines'''", "'it is \\'quoted\\''", '"# no comment"',
            '"""first""" \\\n            """second"""']


class Crash(BaseException):
    pass


# ---- generation of cases -----------------------------------------------------------------------------------------
def synth(rng, k):
    """an example module with a few classes"""
    r = random.Random(rng.random())
    lines = ['import numpy as np', 'from omtools.api import Group', 'import omtools.api as ot']
    if r.random() < 0.5:
        lines.append('from openmdao.api import ExplicitComponent')
        comp = True
    else:
        comp = False
    r.shuffle(lines)
    lines += ['', '']
    used, classes = {}, []
    for _ in range(r.randint(0, 4)):
        words = tuple(r.sample(WORDS, r.randint(1, 3)))
        if used and r.random() < 0.3:      # an example and an error (or something else) of the same name
            words = r.choice(sorted(used))
        kind = r.choice(['Example', 'Example', 'Example', 'Error', 'Helper', 'Exampleless', 'Erroneous', 'Other'])
        if kind in used.get(words, ()):
            kind = 'Error' if kind == 'Example' else 'Example'
            if kind in used[words]:
                continue
        used.setdefault(words, set()).add(kind)
        name = kind + ''.join(words)
        n = r.randint(1, 4)
        c = r.randint(2, 9)
        vs = ['x', 'y'] if r.random() < 0.7 else (['y'] if r.random() < 0.7 else [])
        iscomp = comp and r.random() < 0.3
        late = r.random() < 0.25           # an import between the classes
        literal = r.choice(LITERALS) if r.random() < 0.25 else None
        opt = r.random() < 0.4
        doc = ''
        if r.random() < 0.9:
            text = r.choice(['', '    A worked example, with some text.\n', ''])
            params = ['    :param var: %s\n' % v for v in vs] + (['    :param option: size=%d\n' % n] if opt else [])
            r.shuffle(params)
            doc = '    """\n' + text + (('\n' if text else '') + ''.join(params)) + '    """\n'
            if doc == '    """\n    """\n':
                doc = ''
        else:
            opt = False
        body = 'class %s(%s):\n%s' % (name, 'ExplicitComponent' if iscomp else 'Group', doc)
        if opt or r.random() < 0.3:
            body += "    def initialize(self):\n        self.options.declare('size', %d)\n\n" % (n if not opt else 1)
            size = "self.options['size']"
        else:
            size = str(n)
        if iscomp:
            body += ("    def setup(self):\n        self.add_input('x', val=%d. * np.arange(1, 1 + %s))\n        self.add_output('y', shape=(%s, ))\n\n"
                     "    def compute(self, inputs, outputs):\n        outputs['y'] = %d. * inputs['x']\n" % (c, size, size, c))
        elif kind == 'Error':
            body += ("    def setup(self):\n        x = self.declare_input('x', val=np.ones(%s))\n"
                     "        z = self.declare_input('z', val=np.ones(9))\n        self.register_output('y', ot.dot(x, z))\n" % size)
        else:
            body += ("    def setup(self):\n        x = self.declare_input('x', val=%d. * np.arange(1, 1 + %s))\n"
                     "        self.register_output('y', %d * x + ot.sin(x))\n" % (c, size, c))
        if late:
            body = 'import math\n\n\n' * (r.random() < 0.8) + 'from math import pi as PI\n\n\n' + body.replace('np.arange(', 'PI * np.arange(')
        if literal:
            body = body.replace('    def setup(self):\n', '    def setup(self):\n        text = %s\n        assert len(text) == %d, text\n' % (
                literal, len(eval('(%s)' % literal))))
        classes.append(body)
        if r.random() < 0.3:
            classes.append('def example_function_%d(x):\n    return x\n' % len(classes))
    return '\n'.join(lines) + '\n\n'.join(classes)


FAULTS = ['crash-op', 'crash-op', 'crash-op', 'crash-line', 'crash-line', 'enospc', 'enospc', 'eio-write', 'eio-open', 'eio-close', 'eio-list', 'eacces-open', 'memory-line']


def gen(rng, i, tier):
    runs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        runs.append({'order': rng.randrange(1 << 30), 'fresh': rng.random() < 0.7,
                     'fault': [rng.choice(FAULTS), rng.random(), rng.random(), rng.random() < 0.5] if rng.random() < 0.85 else None})
    runs.append({'order': rng.randrange(1 << 30), 'fresh': True if not runs or runs[-1]['fault'] else rng.random() < 0.7, 'fault': None})
    mods = [['synth_%s' % rng.choice(['alpha', 'be_ta', 'c', 'delta_two']), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    mods = list({m[0]: m for m in mods}.values())
    return {'real': rng.random() if rng.random() < 0.2 else 0.1, 'pick': rng.randrange(1 << 30), 'synth': mods, 'left': rng.randrange(1 << 30), 'runs': runs,
            'leftovers': rng.choice([0, 0.3, 0.7, 1]), 'edit': rng.randrange(1 << 30) if rng.random() < 0.4 else None, 'exec': rng.randrange(1 << 30)}


def shrink(case):
    for k in range(len(case['runs']) - 1):
        c = copy.deepcopy(case)
        del c['runs'][k]
        c['runs'][-1]['fresh'] = True
        yield c
    for k in range(len(case['synth'])):
        c = copy.deepcopy(case)
        del c['synth'][k]
        yield c
    for key, v in (('real', 0.12), ('real', 0.03), ('real', 0), ('leftovers', 0), ('edit', None)):
        if case[key] != v:
            c = copy.deepcopy(case)
            c[key] = v
            yield c
    for k, r in enumerate(case['runs']):
        if r['fault'] and k < len(case['runs']) - 1:
            c = copy.deepcopy(case)
            c['runs'][k]['fault'] = None
            yield c


# ---- the simulated package ---------------------------------------------------------------------------------------
def prepare():
    """a copy of the package the generator works on; nothing it does can reach the original"""
    global TREE, ORIG
    import omtools
    ORIG = os.path.dirname(os.path.abspath(omtools.__file__))
    base = os.path.join(os.environ['SIM_WORK'], 'tree')
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree(ORIG, os.path.join(base, 'omtools'), ignore=shutil.ignore_patterns('__pycache__', 'examples', 'tests'))
    TREE = os.path.join(base, 'omtools')
    for m in [m for m in sys.modules if m == 'omtools' or m.startswith('omtools.')]:
        del sys.modules[m]
    sys.path.insert(0, base)
    importlib.invalidate_caches()
    import omtools.api  # noqa
    if not os.path.abspath(omtools_file()).startswith(TREE):
        raise world.HarnessError('omtools was not loaded from the scratch copy')
    world._lib_prefix = TREE + os.sep


def omtools_file():
    return sys.modules['omtools'].__file__


def sources():
    d = os.path.join(ORIG, 'examples')
    return sorted(f for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')


def snake(words):
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', re.sub('(.)([A-Z][a-z]+)', r'\1_\2', words)).lower()


def expected(src):
    """module name -> the scripts it has to give: (folder, file) -> (module, class)"""
    out, clash = {}, set()
    for mod, text in src.items():
        for node in ast.parse(text).body:
            if isinstance(node, ast.ClassDef):
                for p, folder in (('Example', 'valid'), ('Error', 'invalid')):
                    m = re.fullmatch(p + '((?:[A-Z][a-z0-9]*)+)', node.name)
                    if m:
                        key = (folder, '%s_%s.py' % (mod, snake(m.group(1))))
                        if key in out:
                            clash.add(key)
                        out[key] = (mod, node.name)
    return out, clash


def build(case):
    ex = os.path.join(TREE, 'examples')
    shutil.rmtree(ex, ignore_errors=True)
    for d in ('valid', 'invalid'):
        os.makedirs(os.path.join(ex, d))
    open(os.path.join(ex, '__init__.py'), 'w').close()
    rng = random.Random('pick/%s' % case['pick'])
    src = {}
    for f in sources():
        if rng.random() < case['real']:
            src[f[:-3]] = open(os.path.join(ORIG, 'examples', f)).read()
    for name, seed in case['synth']:
        src[name] = synth(random.Random('synth/%s' % seed), 0)
    while True:
        exp, clash = expected(src)
        if not clash:
            break
        for key in clash:
            src.pop(exp[key][0], None)
    put_sources(src)
    # leftovers
    rng = random.Random('left/%s' % case['left'])
    keep = {}
    for folder in ('valid', 'invalid'):
        d = os.path.join(ex, folder)
        old = os.path.join(ORIG, 'examples', folder)
        for f in sorted(os.listdir(old)):
            if not f.endswith('.py'):
                continue
            mine = (folder, f) in exp
            if f == '__init__.py' or (case['leftovers'] and rng.random() < (case['leftovers'] if mine else 0.05)):
                text = open(os.path.join(old, f)).read()
                if mine:
                    text = mess(rng, text)
                    stat('leftover_scripts')
                else:
                    keep[folder + '/' + f] = text
                open(os.path.join(d, f), 'w').write(text)
    for key in sorted(exp):
        p = os.path.join(ex, *key)
        if not os.path.exists(p) and case['leftovers'] and rng.random() < case['leftovers']:
            open(p, 'w').write(mess(rng, 'print(1)\n' * rng.randint(0, 400)))
            stat('leftover_scripts')
    for f in ('README.txt', 'notes.md', 'valid/notes.txt', 'invalid/old.py.bak', 'data.pyx', 'valid/example_old.py', 'py', 'ex.py~'):
        if rng.random() < 0.3:
            open(os.path.join(ex, f), 'w').write('unrelated %s\n' % rng.random())
    return src, exp


def mess(rng, text):
    k = rng.random()
    if k < 0.25:
        return text
    if k < 0.5:
        return text[:rng.randint(0, len(text))]
    if k < 0.75:
        return text + '# tail of an older, longer script\n' * rng.randint(1, 200)
    return ''


def put_sources(src):
    for mod, text in src.items():
        p = os.path.join(TREE, 'examples', mod + '.py')
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)


def edit(case, src):
    """another version of some synthetic modules"""
    rng = random.Random('edit/%s' % case['edit'])
    new = dict(src)
    for name, seed in case['synth']:
        if name in new and rng.random() < 0.7:
            new[name] = synth(random.Random('synth2/%s' % seed), 0)
    exp, clash = expected(new)
    return src if clash else new


def snapshot():
    out = {}
    for root, dirs, files in os.walk(TREE):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            p = os.path.join(root, f)
            out[os.path.relpath(p, TREE)] = open(p, 'rb').read()
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), TREE) + '/'] = b''
    return out


# ---- the simulated file system -----------------------------------------------------------------------------------
_open, _listdir, _scandir = builtins.open, os.listdir, os.scandir
WRITERS = ('remove', 'unlink', 'rename', 'replace', 'rmdir', 'mkdir', 'truncate', 'link', 'symlink', 'chmod', 'utime')
GUARD = {'on': False, 'hit': None}


def audit(event, args):
    """nothing outside the scratch directory is written while the generator runs"""
    if not GUARD['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes)) or not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            return
        paths = [path]
    elif event in ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.utime', 'shutil.rmtree',
                   'shutil.move', 'shutil.copyfile'):
        paths = [a for a in args if isinstance(a, (str, bytes))]
        if event == 'shutil.copyfile':
            paths = paths[1:]
    elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.kill'):
        GUARD['hit'] = GUARD['hit'] or event
        raise PermissionError('blocked by the simulator: ' + event)
    else:
        return
    for p in paths:
        q = os.path.abspath(os.fsdecode(p))
        if not q.startswith(os.environ['SIM_WORK'] + os.sep) and q != os.devnull:
            GUARD['hit'] = GUARD['hit'] or '%s %s' % (event, q)
            raise PermissionError('blocked by the simulator: %s' % q)


class FS:
    def __init__(self, order, fault, k=None):
        self.rng = random.Random('fs/%s/%s' % (order, fault))
        self.n, self.dead, self.fired, self.fault, self.k = 0, False, None, fault, k
        self.kinds = []
        self.dirs = 0
        self.sticky = False

    def op(self, kind):
        """one operation of the generator on the file system; the place where faults strike"""
        if self.dead:
            raise Crash()
        self.n += 1
        self.kinds.append(kind)
        f = self.fault
        if f and f[0].startswith('crash') and self.k == self.n:
            self.crash()
        hit = f and (self.k == self.n or (self.sticky and f[3]))
        if hit and self.applies(f[0], kind):
            self.fired = f[0]
            self.sticky = True
            e = {'enospc': (28, 'No space left on device'), 'eio-write': (5, 'Input/output error'), 'eio-open': (5, 'Input/output error'),
                 'eio-close': (5, 'Input/output error'), 'eio-list': (5, 'Input/output error'), 'eacces-open': (13, 'Permission denied')}[f[0]]
            raise OSError(*e)

    def crash(self):
        self.dead, self.fired = True, 'crash'
        raise Crash()

    @staticmethod
    def applies(f, kind):
        return {'enospc': ('write', 'close', 'open-w'), 'eio-write': ('write', 'close'), 'eio-open': ('open-w', 'open-r'), 'eio-close': ('close',),
                'eio-list': ('list',), 'eacces-open': ('open-w', 'open-r')}.get(f, ()).__contains__(kind)

    # what the generator sees
    def open(self, file, mode='r', *a, **k):
        if not isinstance(file, (str, os.PathLike)) or 'b' in mode or not os.path.abspath(os.fspath(file)).startswith(TREE + os.sep):
            return _open(file, mode, *a, **k)
        if not any(c in mode for c in 'wax+'):
            self.op('open-r')
            return _open(file, mode, *a, **k)
        self.op('open-w')
        return File(self, _open(file, mode, *a, **k))

    def listdir(self, path='.'):
        r = sorted(_listdir(path))
        if isinstance(path, int) or not os.path.abspath(os.fspath(path)).startswith(TREE):
            return r
        self.op('list')
        self.dirs += 1
        self.rng.shuffle(r)
        return r

    def scandir(self, path='.'):
        if isinstance(path, int) or not os.path.abspath(os.fspath(path)).startswith(TREE):
            return _scandir(path)
        self.op('list')
        with _scandir(path) as it:
            r = sorted(it, key=lambda e: e.name)
        self.rng.shuffle(r)

        class It(list):
            def __enter__(s):
                return iter(r)

            def __exit__(s, *a):
                return False

            def close(s):
                pass
        return It(r)

    @contextlib.contextmanager
    def installed(self):
        saved = {n: getattr(os, n) for n in WRITERS}

        def wrap(n):
            def f(*a, **k):
                self.op('meta')
                return saved[n](*a, **k)
            return f
        builtins.open = io.open = self.open
        os.listdir, os.scandir = self.listdir, self.scandir
        for n in WRITERS:
            setattr(os, n, wrap(n))
        GUARD['on'] = True
        try:
            yield self
        finally:
            GUARD['on'] = False
            builtins.open = io.open = _open
            os.listdir, os.scandir = _listdir, _scandir
            for n in WRITERS:
                setattr(os, n, saved[n])


class File:
    """a file being written: buffered, so that a crash loses what was not flushed and may tear what was"""

    def __init__(self, fs, f):
        self.fs, self.f, self.buf, self.closed = fs, f, '', False
        self.name = f.name

    def _flush(self, part=None):
        text = self.buf if part is None else self.buf[:part]
        self.f.write(text)
        self.f.flush()
        self.buf = ''

    def write(self, text):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        try:
            self.fs.op('write')
        except Crash:
            self._lose()
            raise
        except OSError:
            self.buf += text
            self._flush(self.fs.rng.randint(0, len(self.buf)))
            stat('fault:torn_write')
            raise
        self.buf += text
        if self.fs.rng.random() < 0.3:
            self._flush()
        return len(text)

    def _lose(self):
        if not self.closed:
            part = self.fs.rng.randint(0, len(self.buf))
            stat('lost_characters', len(self.buf) - part)
            self._flush(part)
            self.f.close()
            self.closed = True

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.fs.dead:
            return self._lose()
        self.fs.op('write')
        self._flush()

    def close(self):
        if self.closed:
            return
        if self.fs.dead:
            return self._lose()
        try:
            self.fs.op('close')
        except Crash:
            self._lose()
            raise
        except OSError:
            self._flush(self.fs.rng.randint(0, len(self.buf)))
            self.f.close()
            self.closed = True
            raise
        self._flush()
        self.f.close()
        self.closed = True

    def tell(self):
        self._flush()
        return self.f.tell()

    def fileno(self):
        self._flush()
        return self.f.fileno()

    def writable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        try:
            if not self.closed:
                self.close()
        except BaseException:
            pass


# ---- one run -----------------------------------------------------------------------------------------------------
_ns = {}


def forget():
    """a new process: nothing of the generator and the examples is in memory"""
    _ns.clear()
    for m in [m for m in sys.modules if m == GEN or m.startswith('omtools.examples')]:
        del sys.modules[m]
    for name in ('examples',):
        if hasattr(sys.modules['omtools'], name):
            delattr(sys.modules['omtools'], name)
    import linecache
    linecache.clearcache()
    importlib.invalidate_caches()
    # pretend the files got a new time stamp
    sys.path_importer_cache.clear()


def generate(fresh):
    if fresh or 'export_examples' not in _ns:
        forget()
        _ns.update(runpy.run_module(GEN, run_name='__main__'))
    else:
        _ns['export_examples']()


def attempt(order, fault, k, fresh):
    """run the generator; returns (exception or None, fs)"""
    fs = FS(order, fault, k)
    lp = None
    if fault and fault[0].endswith('-line') and k:
        lp = world.LinePoints(k, Crash if fault[0] == 'crash-line' else world.SimMemoryError, anywhere=fault[0] == 'crash-line')
    elif fault and fault[0].endswith('-line'):
        lp = world.LinePoints()
    err = None
    with contextlib.redirect_stdout(io.StringIO()):
        with fs.installed():
            try:
                if lp:
                    with lp:
                        try:
                            generate(fresh)
                        except BaseException:
                            if fault[0] == 'crash-line' and lp.fired:
                                fs.dead = True
                            raise
                else:
                    generate(fresh)
            except SystemExit as e:
                err = e
            except BaseException as e:
                err = e
            if lp:
                fs.lines = lp.count
                if lp.fired:
                    fs.fired = fault[0]
                    if fault[0] == 'crash-line':
                        fs.dead = True
            import gc
            # the frames of a crashed process are gone: files still open lose their buffers
            if err is not None:
                err.__traceback__ = None
                gc.collect()
    if GUARD['hit']:
        raise Violation('outside', 'the generator tried to touch what is not its own: %s' % GUARD['hit'])
    return err, fs


def scripts(exp):
    out = {}
    for key in exp:
        p = os.path.join(TREE, 'examples', *key)
        out[key] = _open(p).read() if os.path.exists(p) else None
    return out


def run(case):
    sys.addaudithook(audit)
    src, exp = build(case)
    versions = [src]
    if case['edit'] is not None and len(case['runs']) > 1:
        versions.append(edit(case, src))
    final_src = versions[-1]
    final_exp, _ = expected(final_src)
    allexp = dict(exp)
    allexp.update(final_exp)
    # reference: a clean run of the final sources into empty directories
    start = snapshot()
    put_sources(final_src)
    for key in allexp:
        p = os.path.join(TREE, 'examples', *key)
        if os.path.exists(p):
            os.remove(p)
    err, fs = attempt(0, None, None, True)
    if err is not None:
        raise Violation('clean-run', 'the generator fails without any fault: %s: %s' % (type(err).__name__, err))
    want = scripts(allexp)
    missing = sorted(k for k in final_exp if want[k] is None)
    if missing:
        raise Violation('missing', 'no script for %s' % ['%s of %s' % (final_exp[k][1], final_exp[k][0]) for k in missing[:3]])
    extra = sorted(k for k in allexp if k not in final_exp and want[k] is not None)
    if extra:
        raise Violation('extra', 'scripts %s for classes that do not exist' % extra[:3])
    restore(start)
    put_sources(src)
    before = snapshot()
    touched = {'examples/%s/%s' % k for k in allexp}
    mutable = touched | {'examples/%s.py' % m for m in final_src}
    fired = 0
    edit_at = random.Random('at/%s' % case['edit']).randrange(len(case['runs'])) if len(versions) > 1 else None
    for j, r in enumerate(case['runs']):
        fresh = r['fresh'] or j == 0
        if j == edit_at:
            put_sources(final_src)
            for m in final_src:
                before['examples/%s.py' % m] = final_src[m].encode()
            fresh = True
            stat('source_edits')
        k = None
        if r['fault']:
            # measure the run to place the fault: a dry run in a forked process on the same state, undone afterwards
            total, kinds, lines = measure(r, fresh)
            if r['fault'][0].endswith('-line'):
                k = 1 + int(r['fault'][1] * lines)
            elif r['fault'][0] == 'crash-op':
                k = 1 + int(r['fault'][1] * total)
            else:
                at = [a + 1 for a, kd in enumerate(kinds) if FS.applies(r['fault'][0], kd)]
                k = at[int(r['fault'][1] * len(at))] if at else None
        err, fs = attempt(r['order'], r['fault'], k, fresh)
        stat('generator_runs')
        stat('file_operations', fs.n)
        sig(j, r['fault'], k, fs.n, type(err).__name__)
        if fs.fired:
            fired += 1
            stat('fault:' + fs.fired)
            if fs.fired not in ('crash', 'crash-line') and err is None:
                raise Violation('swallowed', 'run %d: %s at operation %s (%s) was not reported' % (j, r['fault'][0], k, fs.kinds[-1] if fs.kinds else ''))
        elif err is not None:
            raise Violation('failed', 'run %d: the generator fails without a fault: %s: %s' % (j, type(err).__name__, str(err)[:200]))
        if err is not None:
            _ns.clear() if isinstance(err, Crash) else None
            if r['fault'][0].startswith('crash') and j + 1 < len(case['runs']):
                case['runs'][j + 1] = dict(case['runs'][j + 1], fresh=True)
        now = snapshot()
        for p in sorted(set(before) | set(now)):
            if p in touched:
                continue
            if now.get(p) != before.get(p):
                if err is not None and p not in before:
                    stat('temporary_files')      # a crashed run may leave a file of its own; the next one has to cope
                    continue
                raise Violation('unrelated', 'run %d %s %s' % (j, 'removed' if p not in now else 'created' if p not in before else 'modified', p))
        sig(j, sorted((p, hashlib.sha1(now[p]).hexdigest()[:8]) for p in touched if p in now))
        got = scripts(allexp)
        if err is None:
            ver = final_src if edit_at is None or j >= edit_at else src
            vexp = expected(ver)[0]
            for key in sorted(vexp):
                if got[key] is None:
                    raise Violation('missing', 'run %d: no script for %s of %s' % (j, vexp[key][1], vexp[key][0]))
                if ver is final_src and got[key] != want[key]:
                    a, b = got[key], want[key]
                    at = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
                    raise Violation('content', 'run %d: %s differs from a clean generation at character %d: %r, clean %r' % (j, '/'.join(key), at, a[at:at + 60], b[at:at + 60]))
    stat('scripts', len(final_exp))
    meaning(case, final_exp, final_src)
    return {'nt': bool(fired or case['leftovers']), 'stats': {}}


def restore(start):
    now = snapshot()
    for p in now:
        if p not in start and not p.endswith('/'):
            os.remove(os.path.join(TREE, p))
    for p, data in start.items():
        if not p.endswith('/') and now.get(p) != data:
            with _open(os.path.join(TREE, p), 'wb') as f:
                f.write(data)


def measure(r, fresh):
    start = snapshot()

    def dry(_):
        err, fs = attempt(r['order'], ['none-line', 0, 0, 0] if r['fault'][0].endswith('-line') else None, None, fresh)
        return {'n': fs.n, 'kinds': fs.kinds, 'lines': getattr(fs, 'lines', 0)}
    res = world.run_forked(dry, None, 60)
    restore(start)
    if 'n' not in res:
        raise world.HarnessError('dry run: %r' % (res,))
    return res['n'], res['kinds'], res['lines']


# ---- what the scripts do -----------------------------------------------------------------------------------------
def execute(code, name):
    """the problem a script builds, or the error it raises, and what it prints"""
    ns, out = {'__name__': '__main__'}, io.StringIO()
    GUARD['on'] = True
    try:
        with contextlib.redirect_stdout(out):
            try:
                exec(compile(code, name, 'exec'), ns)
                return ns, None, out.getvalue()
            except Exception as e:
                return ns, e, out.getvalue()
    finally:
        GUARD['on'] = False


def meaning(case, exp, src):
    """the script does what the class says: same values, and prints the listed variables"""
    import numpy as np
    rng = random.Random('exec/%s' % case['exec'])
    keys = sorted(k for k in exp if exp[k][0] != 'ex_implicit')
    rng.shuffle(keys)
    for key in keys[:3]:
        mod, cls = exp[key]
        text = _open(os.path.join(TREE, 'examples', *key)).read()
        node = next(n for n in ast.parse(src[mod]).body if isinstance(n, ast.ClassDef) and n.name == cls)
        doc = ast.get_docstring(node) or ''
        vs = [m.strip() for m in re.findall(r'^\s*:param var:(.*)$', doc, re.M)]
        opts = {}
        for m in re.findall(r'^\s*:param option:(.*)$', doc, re.M):
            opts.update(eval('dict(%s)' % m))
        ns, err, out = execute(text, key[1])
        ref = {'__name__': 'reference'}
        exec(compile(src[mod], mod, 'exec'), ref)
        from openmdao.api import Problem
        from omtools.api import Group
        perr = prob = None
        try:
            obj = ref[cls](**opts)
            prob = Problem()
            if any(b.__name__ == 'Group' for b in type(obj).__mro__):
                prob.model = obj
            else:
                prob.model = Group()
                prob.model.add_subsystem('example', obj)
            prob.setup(force_alloc_complex=True)
            prob.run_model()
            for v in vs:
                prob[v]
        except Exception as e:
            perr = e
        stat('scripts_executed')
        if (err is None) != (perr is None) or type(err).__name__ != type(perr).__name__:
            raise Violation('script', '%s: running it gives %r, the class gives %r' % ('/'.join(key), err, perr))
        if err is None:
            p = ns.get('prob')
            if type(p).__name__ != 'Problem':
                raise Violation('script', '%s: builds no problem' % '/'.join(key))
            for v in vs:
                if not np.array_equal(p[v], prob[v]):
                    raise Violation('script', '%s: %s is %s, the class gives %s' % ('/'.join(key), v, p[v], prob[v]))
                if v not in out or str(prob[v].shape) not in out or str(prob[v]) not in out:
                    raise Violation('script', '%s: does not print %s' % ('/'.join(key), v))
