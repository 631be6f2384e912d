"""Instrumented user-side objects: keys, values, iterables and functions the library calls into."""
import numbers

from dst.sim import cb

HASH_MODES = ('ident', 'mod3', 'const', 'stride32', 'neg', 'big', 'mod8', 'scatter')


def mkhash(mode, c, secret=0):
    if mode == 'ident':
        return c + secret
    if mode == 'mod3':
        return c % 3 + secret
    if mode == 'mod8':
        return c % 8 + secret
    if mode == 'const':
        return 7 + secret
    if mode == 'stride32':
        return c * 32 + secret
    if mode == 'neg':
        return -2 - c - secret
    if mode == 'big':
        return (1 << 60) + c * 97 + secret
    return (c * 2654435761 + secret) % (1 << 61)


class SimKey(object):
    """Equality class c, hash h, object identity u."""
    __slots__ = ('c', 'h', 'u', '__weakref__')

    def __init__(self, c, h, u):
        self.c, self.h, self.u = c, h, u

    def __hash__(self):
        cb('hash')
        return self.h

    def __eq__(self, o):
        cb('eq')
        if isinstance(o, SimKey):
            return self.c == o.c
        return NotImplemented

    def __lt__(self, o):
        cb('lt')
        if isinstance(o, SimKey):
            return self.c < o.c
        return NotImplemented

    def __gt__(self, o):
        cb('lt')
        if isinstance(o, SimKey):
            return self.c > o.c
        return NotImplemented

    def __repr__(self):
        return 'K%d' % self.c


class BadNeKey(SimKey):
    """A key with a nonsensical __ne__ (the library must not rely on it)."""
    __slots__ = ()
    __hash__ = SimKey.__hash__

    def __ne__(self, o):
        return True


class SimObj(object):
    """Plain object: identity equality, deterministic hash."""
    __slots__ = ('u', '__weakref__')

    def __init__(self, u):
        self.u = u

    def __hash__(self):
        return self.u

    def __repr__(self):
        return 'O%d' % self.u


class NanKey(object):
    """Never equal to anything, itself included (like a NaN), with a deterministic hash: the same object is found by
    identity only."""
    __slots__ = ('u', '__weakref__')

    def __init__(self, u):
        self.u = u

    def __hash__(self):
        return 2

    def __eq__(self, o):
        cb('eq')
        return False

    def __repr__(self):
        return 'N%d' % self.u


class SimIter(object):
    """One-shot iterator with a yield point (and possible failure) at every step."""
    def __init__(self, els):
        self.els = list(els)
        self.i = 0

    def __iter__(self):
        cb('iter')
        return self

    def __next__(self):
        cb('next')
        if self.i >= len(self.els):
            raise StopIteration
        self.i += 1
        return self.els[self.i - 1]


class SimIterable(object):
    """Re-iterable without a length."""
    def __init__(self, els):
        self.els = list(els)

    def __iter__(self):
        return SimIter(self.els)


class SimSeq(object):
    """Old style sequence protocol only."""
    def __init__(self, els):
        self.els = list(els)

    def __len__(self):
        return len(self.els)

    def __getitem__(self, i):
        cb('getitem')
        return self.els[i]


class SimMapping(dict):
    """A dict subclass whose iteration is a yield point."""
    def items(self):
        cb('items')
        return dict.items(self)


class Idx(object):
    """An integer that is not an int (like those of numpy): what it is used for runs user code."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __index__(self):
        cb('index')
        return self.i

    __int__ = __index__

    def __hash__(self):
        return hash(self.i)

    def __repr__(self):
        return str(self.i)


def _idx(name):
    f = getattr(int, name)

    def method(self, *a):
        cb('index')
        return f(self.i, *[x.i if type(x) is Idx else x for x in a])
    return method


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'mod', 'rmod', 'floordiv', 'rfloordiv', 'and', 'rand', 'or', 'ror', 'xor', 'lshift', 'rshift', 'rrshift',
           'rlshift', 'neg', 'pos', 'abs', 'invert', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'bool', 'divmod', 'rdivmod'):
    setattr(Idx, '__%s__' % _n, _idx('__%s__' % _n))
numbers.Integral.register(Idx)


SPECIALS = [0, 1, True, 1.0, None, '', False, 0.0, 'a', 'b', 2, (), (1, 2), -1, 'key', b'x', 3, 2.5]
SPECIALS[5:5] = [NanKey(0)]
SPECIALS.append(NanKey(1))


CHECKED = [-1, 0, 1, 2, 3, 5, 8, 13, 99, 100, 101, 7, 12, 40, 'a', 'b', '', 'c', 'zz', 2.5, 0.5, None, True, -2.5, (1, 2)]
# equal but distinct objects
TWINS = [1, True, 1.0, 0, False, 'zz', ''.join(['z', 'z']), 10 ** 6, 10 ** 6 + 0 * len(CHECKED), 1000000.0, 'a', 2, 2.0, -1]


def make_atoms(cfg):
    """The element population of a run, a pure function of its configuration."""
    n = cfg.get('atoms', 24)
    classes = max(1, cfg.get('classes', n))
    mode = cfg.get('hash', 'ident')
    secret = cfg.get('secret', 0)
    out = []
    mix = cfg.get('mix', 'keys')
    for i in range(n):
        c = i % classes
        if mix == 'keys':
            out.append(SimKey(c, mkhash(mode, c, secret), i))
        elif mix == 'badne':
            out.append(BadNeKey(c, mkhash(mode, c, secret), i))
        elif mix == 'ints':
            out.append(int(c))
        elif mix == 'strs':
            out.append('k%d' % c)
        elif mix == 'special':
            out.append(SPECIALS[i % len(SPECIALS)])
        elif mix == 'checked':
            out.append(CHECKED[i % len(CHECKED)])
        elif mix == 'twins':
            out.append(TWINS[i % len(TWINS)])
        elif mix == 'objs':
            out.append(SimObj(i))
        else:   # mixed
            r = i % 5
            if r == 0:
                out.append(SPECIALS[(i // 5) % len(SPECIALS)])
            elif r == 1:
                out.append(SimObj(i))
            elif r == 2:
                out.append(BadNeKey(c, mkhash(mode, c, secret), i))
            else:
                out.append(SimKey(c, mkhash(mode, c, secret), i))
    return out
