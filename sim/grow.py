"""Families of programs that grow: every sharing structure at a chosen size, as scripts."""
import random


class B:
    def __init__(self, rng, sh=(1,), prefix=''):
        self.rng, self.sh, self.script, self.n, self.prefix = rng, list(sh), [], 0, prefix
        self.pool = []         # expressions that later families may start from

    def id(self):
        self.n += 1
        return 'v%d' % self.n

    def leaf(self, sh=None, kind=None):
        if sh is None and kind is None and self.pool and self.rng.random() < 0.6:
            return self.rng.choice(self.pool)
        i = self.id()
        sh = self.sh if sh is None else list(sh)
        kind = kind or self.rng.choice(['indep', 'input'])
        st = dict(s=kind, id=i, name=self.prefix + 'x%d' % self.n, shape=sh, val=0.5, scalar=1)
        if kind == 'indep':
            st['dv'] = self.rng.random() < 0.3
        self.script.append(st)
        return i

    def e(self, op, *args, **p):
        i = self.id()
        self.script.append(dict(s='expr', id=i, op=op, args=list(args), p=p))
        return i

    def un(self, a):
        return self.e(self.rng.choice(['sin', 'cos', 'tanh', 'arctan', 'neg']), a)

    def bi(self, a, b):
        return self.e(self.rng.choice(['add', 'sub', 'mul']), a, b)

    def name(self, i):
        return next(st['name'] for st in self.script if st.get('id') == i and 'name' in st)

    def reg(self, i, name=None):
        if any(st['s'] == 'reg' and st['id'] == i for st in self.script):
            return
        if self.sh == [1]:
            self.pool.append(i)
        self.script.append(dict(s='reg', id=i, name=name or self.prefix + 'y%d' % len(self.script)))


def chain(b, n):
    a = b.leaf()
    for _ in range(n):
        a = b.un(a)
    b.reg(a)


def double(b, n):
    """every expression uses the previous one twice"""
    a = b.leaf()
    for _ in range(n // 2):
        a = b.bi(a, a)
    b.reg(a)


def diamond(b, n):
    a = b.leaf()
    for _ in range(max(1, n // 3)):
        a = b.bi(b.un(a), b.un(a))
    b.reg(a)


def ladder(b, n):
    a, c = b.leaf(), b.leaf()
    for _ in range(n // 2):
        a, c = b.bi(a, c), b.bi(c, a)
    b.reg(b.bi(a, c))


def fan(b, n):
    a = b.leaf()
    r = [b.un(a) for _ in range(n)]
    if b.rng.random() < 0.5:
        b.reg(b.e('sumn', *r, axes=None))
    else:
        for q in r:
            b.reg(q)


def outputs(b, n):
    """every expression is an output"""
    a, c = b.leaf(), b.leaf()
    for _ in range(n // 2):
        a, c = b.bi(a, c), b.un(a)
        b.reg(a)
        b.reg(c)


def layers(b, n):
    """dense layers of width w"""
    w = b.rng.choice([3, 4, 6])
    r = [b.leaf() for _ in range(w)]
    for _ in range(max(1, n // (w * 2))):
        s = b.e('sumn', *r, axes=None) if b.rng.random() < 0.5 else None
        r = [b.bi(s, q) if s else b.e('sumn', *r, axes=None) for q in r]
    for q in r:
        b.reg(q)


def tree(b, n):
    r = [b.leaf() for _ in range(max(2, n // 2))]
    while len(r) > 1:
        r = [b.bi(r[k], r[k + 1]) if k + 1 < len(r) else r[k] for k in range(0, len(r), 2)]
    b.reg(r[0])


def fibonacci(b, n):
    a, c = b.leaf(), b.leaf()
    for _ in range(n):
        a, c = c, b.bi(a, c)
    b.reg(c)


def window(b, n):
    """random expressions of the most recent ones"""
    w = b.rng.choice([2, 3, 5, 8])
    r = [b.leaf() for _ in range(2)]
    for _ in range(n):
        q = b.rng.choice(r[-w:])
        r.append(b.bi(q, b.rng.choice(r[-w:])) if b.rng.random() < 0.8 else b.un(q))
        if b.rng.random() < 0.1:
            b.reg(r[-1])
    b.reg(r[-1])


def allpast(b, n):
    """random expressions of any earlier ones"""
    r = [b.leaf() for _ in range(2)]
    for _ in range(n):
        r.append(b.bi(b.rng.choice(r), b.rng.choice(r)))
    b.reg(b.e('sumn', *r[-min(len(r), 10):], axes=None))


def hub(b, n):
    """everything uses the first expression as well"""
    h = b.un(b.leaf())
    a = h
    for _ in range(n):
        a = b.bi(a, h)
    b.reg(a)


def reads(b, n):
    """reads of one vector, combined, and assembled again"""
    m = max(2, n // 3)
    x = b.leaf((m,))
    r = []
    for k in range(m):
        r.append(b.un(b.e('getitem', x, key=k)))
    c = b.id()
    b.script.append(dict(s='create', id=c, name=b.prefix + 'c', shape=[m]))
    order = list(range(m))
    b.rng.shuffle(order)
    for k in order:
        b.script.append(dict(s='assign', id=c, key=k, src=r[k]))
    if b.rng.random() < 0.5:
        b.script.append(dict(s='reg', id=b.e('sin', c), name=b.prefix + 'sin'))


def vectors(b, n):
    """reads of reads: every stage reads all parts of the previous one and assembles the next"""
    m = b.rng.choice([2, 3])
    x = b.leaf((m,))
    for s in range(max(1, n // (3 * m))):
        r = [b.un(b.e('getitem', x, key=k)) for k in range(m)]
        c = b.id()
        b.script.append(dict(s='create', id=c, name=b.prefix + 'c%d' % s, shape=[m]))
        for k in range(m):
            b.script.append(dict(s='assign', id=c, key=k, src=r[k]))
        x = c


def leaves(b, n):
    """many independents, all used by many"""
    w = max(2, n // 4)
    x = [b.leaf(kind='indep') for _ in range(w)]
    for _ in range(w):
        b.reg(b.e('sumn', *b.rng.sample(x, min(len(x), 6)), axes=None))


def body(b, n, y):
    """a shared structure below the outputs y, for definitions in terms of themselves"""
    st = b.rng.choice(['ladder', 'double', 'window', 'chain'])
    a, c = y[0], y[-1]
    r = [a, c]
    for _ in range(max(1, n // 2)):
        if st == 'chain':
            a = b.un(a)
        elif st == 'double':
            a = b.e('mulc', b.e(b.rng.choice(['add', 'mul']), a, a), c=0.5)
        elif st == 'ladder':
            a, c = b.bi(a, c), b.bi(c, a)
        else:
            r.append(b.bi(b.rng.choice(r[-4:]), b.rng.choice(r[-4:])))
            a = r[-1]
    return b.bi(a, c) if st == 'ladder' else b.un(a)


def cyclic(b, n):
    x = b.leaf()
    k = b.rng.choice([1, 1, 2, 3])
    ys = []
    for j in range(k):
        y = b.id()
        b.script.append(dict(s='create', id=y, name=b.prefix + 'w%d' % j, shape=b.sh, val=[0.5]))
        ys.append(y)
    for y in ys:
        e = body(b, n // k, ys)
        b.script.append(dict(s='define', id=y, src=b.bi(b.e('mulc', e, c=0.1), x)))


def subsystems(b, n):
    """subsystems in a row, each of everything so far"""
    a = b.leaf(kind='indep')
    name = b.name(a)
    for k in range(max(1, n // 6)):
        s = B(b.rng, b.sh, 'k%d' % k)
        s.script.append(dict(s='input', id='v0', name=name, shape=b.sh, val=0.5, scalar=1))
        q = s.bi('v0', s.un('v0'))
        name = 's%dy' % k
        s.reg(q, name)
        b.script.append(dict(s='sub', name='s%d' % k, kind='ot', script=s.script, promotes=['*']))
        i = b.id()
        b.script.append(dict(s='input', id=i, name=name, shape=b.sh, val=0.5, scalar=1))
        a = b.bi(i, a)
        b.reg(a)


def implicit(b, n):
    x = b.leaf(kind='indep')
    xn = b.name(x)
    s = B(b.rng, b.sh, 'k')
    s.script.append(dict(s='input', id='v0', name=xn, shape=b.sh, val=0.5, scalar=1))
    k = b.rng.choice([1, 1, 2, 3, 5])
    ys = []
    for j in range(k):
        y = s.id()
        s.script.append(dict(s='iout', id=y, name='z%d' % j, shape=b.sh, val=0.5, scalar=1))
        ys.append(y)
    shared = body(s, n, ys + ['v0']) if b.rng.random() < 0.4 else None
    for y in ys:
        e = shared or body(s, n // k, [y, 'v0'] if b.rng.random() < 0.5 else ys + ['v0'])
        s.script.append(dict(s='residual', id=y, src=s.bi(s.un(e), y)))
    b.script.append(dict(s='imp', name='z', script=s.script, cfg={'lin': 'direct', 'nl': {'kind': 'newton', 'maxiter': 30,
                                                                                       'atol': 1e-10, 'rtol': 1e-30}}))
    b.reg(b.un(x))


def nesting(b, n):
    """groups inside groups"""
    a = b.leaf(kind='indep')
    name = b.name(a)

    def level(d):
        s = B(b.rng, b.sh, 'd%d' % d)
        s.script.append(dict(s='input', id='v0', name=name, shape=b.sh, val=0.5, scalar=1))
        q = s.bi('v0', s.un('v0'))
        if d:
            s.script.append(dict(s='sub', name='g%d' % d, kind=b.rng.choice(['ot', 'inline']), script=level(d - 1), promotes=['*']))
            i = s.id()
            s.script.append(dict(s='input', id=i, name='d%dy' % (d - 1), shape=b.sh, val=0.5, scalar=1))
            q = s.bi(i, q)
        s.reg(q, 'd%dy' % d)
        return s.script
    d = min(40, max(1, n // 6))
    b.script.append(dict(s='sub', name='nest', kind='ot', script=level(d), promotes=['*']))
    i = b.id()
    b.script.append(dict(s='input', id=i, name='d%dy' % d, shape=b.sh, val=0.5, scalar=1))
    b.reg(b.un(i))


FAMILIES = {f.__name__: f for f in (chain, double, diamond, ladder, fan, outputs, layers, tree, fibonacci, window, allpast, hub, reads,
                                    vectors, leaves, cyclic, subsystems, nesting, implicit)}


def size(script):
    n = 0
    for st in script:
        n += 1
        if 'args' in st:
            n += len(st['args'])
        if 'script' in st:
            n += size(st['script'])
    return n


def make(families, seed, n):
    """one program of size about n made of the families, each possibly on top of what the ones before computed"""
    b = B(random.Random(seed))
    for k, f in enumerate(families):
        b.prefix = 'f%d' % k
        FAMILIES[f](b, max(4, n // len(families)))
    return b.script
