"""C13: pickling, crash and restart, copying.

A value is described by a specification tree (plain data).  The store keeps images; a crash drops every live value,
leaves a torn prefix of the image being written and restarts with another hash secret.  What is loaded is compared
with the specification by a walker that knows the kinds only, and is exercised (look-ups with fresh keys, updates,
rejections).  Some runs hand their images to a real second process with another PYTHONHASHSEED or implementation.
"""
import copy
import json
import os
import pickle
import random
import subprocess
import sys

from dst import atoms as A
from dst import decl as D
from dst.sim import SimFault, SimInterrupt, quiet, cb
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P
SECRET = [0]
MODE = ['scatter']


class PKey(object):
    """Key whose hash depends on the secret of the (simulated) process."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __hash__(self):
        cb('hash')
        return A.mkhash(MODE[0], self.c, SECRET[0])

    def __eq__(self, o):
        cb('eq')
        return self.c == o.c if isinstance(o, PKey) else NotImplemented

    def __repr__(self):
        return 'P%d' % self.c

    def __reduce__(self):
        cb('reduce')
        return mkkey, (self.c,)

    def __deepcopy__(self, memo):
        cb('reduce')
        return PKey(self.c)


def mkkey(c):
    cb('restore')
    return PKey(c)


def zero(*a):
    """a serializer: none of its business when pickling"""
    return 0


class PVec(P.CheckedPVector):
    __type__ = (PKey, int)
    __serializer__ = zero
    __invariant__ = D.inv(lambda x: x != -1, 'minus one')


class PSet_(P.CheckedPSet):
    __type__ = (PKey, int)
    __serializer__ = zero
    __invariant__ = D.inv(lambda x: x != -1, 'minus one')


class PMap_(P.CheckedPMap):
    __key_type__ = (PKey, int)
    __value_type__ = (PKey, int)
    __serializer__ = lambda *a: (0, 0)
    __invariant__ = D.inv(lambda k, v: v != -1, 'minus one')


class PRec(P.PRecord):
    a = P.field(serializer=zero)
    b = P.field(type=(PKey, int), initial=3, invariant=D.inv(lambda x: x != -1, 'minus one'))
    c = P.field(factory=D.bump)
    d = P.pvector_field(int)
    e = P.pmap_field(int, PKey)
    f = P.pset_field(PKey, optional=True)


class PKls(P.PClass):
    a = P.field(serializer=zero)
    b = P.field(type=(PKey, int), invariant=D.inv(lambda x: x != -1, 'minus one'))
    c = P.field(factory=D.bump)
    d = P.pvector_field(int)
    e = P.pmap_field(int, PKey)
    f = P.pset_field(PKey, optional=True)


class PVecVec(P.CheckedPVector):
    __type__ = PVec


class PEmpty(P.PRecord):
    """nothing mandatory"""
    a = P.field()
    b = P.field(initial=1)


SEQ = ('vec', 'pyvec', 'list', 'deque', 'cvec')
FIELDS = {'rec': 'abcdef', 'kls': 'abcdef', 'erec': 'ab'}


# ---------------------------------------------------------------------- specifications
# ['k', c] ['n', int] ['s', str] ['l', [..]] mutable list  ['d', [[k, v]..]] mutable dict
# ['vec'|'pyvec'|'list'|'deque'|'cvec'|'set'|'cset'|'bag'|'fset'|'tup', items, extra]
# ['map'|'cmap', [[k, v]..], extra]   ['rec'|'kls'|'erec', {field: spec}]   ['vv', [[items]..]]
def norm(s):
    """Comparable description of a specification."""
    t = s[0]
    if t in ('k', 'n', 's', 'z'):
        return tuple(s)
    if t in ('set', 'cset', 'fset'):
        return (t, frozenset(norm(x) for x in s[1]))
    if t == 'bag':
        return (t, count(norm(x) for x in s[1]))
    if t in ('map', 'cmap', 'd'):
        return (t, frozenset((norm(k), norm(v)) for k, v in s[1]))
    if t in ('rec', 'kls', 'erec'):
        out = {}
        for k, v in s[1].items():
            if t != 'erec' and k in 'def':
                out[k] = fieldnorm(k, v)
            elif t != 'erec' and k == 'c' and v[0] == 'n':
                out[k] = ('n', v[1] + 1)        # applied when set, once
            else:
                out[k] = norm(v)
        return (t, frozenset(out.items()))
    if t == 'deque':
        return (t, tuple(norm(x) for x in s[1]), s[2])
    return (t, tuple(norm(x) for x in s[1]))


def count(l):
    c = {}
    for x in l:
        x = pyvec_as_vec(x)
        c[x] = c.get(x, 0) + 1
    return frozenset(c.items())


def fieldnorm(k, v):
    if v is None:
        return None
    if k == 'd':
        return ('fd', tuple(v))
    if k == 'e':
        return ('fe', frozenset((a, ('k', b)) for a, b in v))
    return ('ff', frozenset(('k', x) for x in v))


class Private(object):
    """cannot be pickled or copied"""
    def __reduce_ex__(self, protocol):
        raise TypeError('cannot pickle')


def make(lib, s, r, ff=True):
    """Build the value; r varies the way."""
    t = s[0]
    if t == 'k':
        return PKey(s[1])
    if t in ('n', 's'):
        return s[1]
    if t == 'z':
        return {'none': None, 'true': True, 'half': 0.5}[s[1]]
    if t == 'l':
        return [make(lib, x, r) for x in s[1]]
    if t == 'tup':
        return tuple(make(lib, x, r) for x in s[1])
    if t == 'd':
        return dict((make(lib, k, r), make(lib, v, r)) for k, v in s[1])
    w = r.randrange(4)
    if t in SEQ:
        els = [make(lib, x, r) for x in s[1]]
        if t == 'list':
            return lib.plist(els)
        if t == 'deque':
            d = lib.pdeque(els, maxlen=s[2])
            if w == 0 and els:
                d = lib.pdeque(els[1:], maxlen=s[2]).appendleft(els[0]) if s[2] is None or len(els) <= s[2] else d
            return d
        f = {'vec': lib.pvector, 'pyvec': lib.python_pvector, 'cvec': PVec}[t]
        if w == 0:
            v = f([])
            for x in els:
                v = v.append(x)
            return v
        if w == 1 and els and t != 'cvec':
            return f(els[:-1] + [1, els[-1]]).delete(len(els) - 1)
        if w == 2:
            e = f(els).evolver()
            if els:
                e[0] = 3
                e[0] = els[0]
            return e.persistent()
        return f(els)
    if t == 'vv':
        return PVecVec([make(lib, x, r) for x in s[1]])
    if t in ('set', 'cset', 'fset', 'bag'):
        els = [make(lib, x, r) for x in s[1]]
        if t == 'fset':
            return frozenset(els)
        f = {'set': lib.pset, 'cset': PSet_, 'bag': lib.pbag}[t]
        if w == 0:
            v = f([])
            for x in els:
                v = v.add(x)
            return v
        if w == 1:
            return f(els).add(-77).remove(-77)
        if w == 2 and t == 'set':
            # the keys of a map with values that are none of the set's business
            v = lib.pmap((x, Private()) for x in els).keys()
            return v.add(-77).remove(-77) if r.randrange(2) else v
        return f(els)
    if t in ('map', 'cmap'):
        it = [(make(lib, k, r), make(lib, v, r)) for k, v in s[1]]
        f = lib.pmap if t == 'map' else PMap_
        if w == 0:
            m = f({})
            for k, v in it:
                m = m.set(k, v)
            return m
        if w == 1:
            return f(dict(it)).set(-77, 1).remove(-77)
        if w == 2 and t == 'map':
            return lib.pmap(dict(it), 64)
        return f(dict(it))
    if t in ('rec', 'kls', 'erec'):
        cls = {'rec': PRec, 'kls': PKls, 'erec': PEmpty}[t]
        kw = {}
        for k, v in s[1].items():
            if t != 'erec' and k == 'd':
                kw[k] = list(v)
            elif t != 'erec' and k == 'e':
                kw[k] = dict((a, PKey(b)) for a, b in v)
            elif t != 'erec' and k == 'f':
                kw[k] = None if v is None else [PKey(x) for x in v]
            else:
                kw[k] = make(lib, v, r)
        # all of a, b, c optional; fields with initial values that the specification leaves out are removed
        x = cls(**kw)
        if t in ('rec', 'erec') and 'b' not in s[1]:
            x = x.remove('b')
        return x
    raise ValueError(t)


class Wrong(Exception):
    pass


def leaf(v):
    if isinstance(v, PKey):
        return ('k', v.c)
    if v is None:
        return ('z', 'none')
    if v is True:
        return ('z', 'true')
    if isinstance(v, float):
        return ('z', 'half') if v == 0.5 else ('float', v)
    if isinstance(v, int):
        return ('n', v)
    if isinstance(v, str):
        return ('s', v)
    return None


def walk(lib, v):
    """Description of a live value, comparable with norm()."""
    l = leaf(v)
    if l is not None:
        return l
    t = type(v)
    if t is list:
        return ('l', tuple(walk(lib, x) for x in v))
    if t is tuple:
        return ('tup', tuple(walk(lib, x) for x in v))
    if t is dict:
        return ('d', frozenset((walk(lib, k), walk(lib, x)) for k, x in v.items()))
    if t is frozenset:
        return ('fset', frozenset(walk(lib, x) for x in v))
    if t is type(lib.pmap()):
        return ('map', frozenset((walk(lib, k), walk(lib, x)) for k, x in v.items()))
    if t is type(lib.pset()):
        return ('set', frozenset(walk(lib, x) for x in v))
    if t is type(lib.pbag([])):
        return ('bag', count(walk(lib, x) for x in v))
    if isinstance(v, type(lib.plist([1]))) or v is lib.plist():
        return ('list', tuple(walk(lib, x) for x in v))
    if t is type(lib.pdeque()):
        return ('deque', tuple(walk(lib, x) for x in v), v.maxlen)
    for n, c in (('cvec', PVec), ('vv', PVecVec)):
        if t is c:
            return (n, tuple(walk(lib, x) for x in v))
    if t is PSet_:
        return ('cset', frozenset(walk(lib, x) for x in v))
    if t is PMap_:
        return ('cmap', frozenset((walk(lib, k), walk(lib, x)) for k, x in v.items()))
    for n, c in (('rec', PRec), ('kls', PKls), ('erec', PEmpty)):
        if t is c:
            out = {}
            items = list(v.items()) if n != 'kls' else [(k, getattr(v, k)) for k in FIELDS[n] if hasattr(v, k)]
            for k, x in items:
                if n != 'erec' and k in 'def':
                    out[k] = fwalk(k, x, c)
                else:
                    out[k] = walk(lib, x)
            return (n, frozenset(out.items()))
    if t is lib.PythonPVector and (t is not type(lib.pvector())):
        return ('pyvec', tuple(walk(lib, x) for x in v))
    if t is type(lib.pvector()):
        return ('vec', tuple(walk(lib, x) for x in v))
    return ('?', t.__name__)


def fwalk(k, x, cls):
    if x is None:
        return None
    want = type(getattr(cls(), k))
    if k == 'f':
        want = type(cls(f=[]).f)
    if type(x) is not want:
        return ('wrong type', type(x).__name__)
    if k == 'd':
        return ('fd', tuple(x))
    if k == 'e':
        return ('fe', frozenset((a, leaf(b)) for a, b in x.items()))
    return ('ff', frozenset(leaf(y) for y in x))


def pyvec_as_vec(n):
    """Pickles name the implementation that pvector() is; a pure Python vector is restored as that one."""
    if isinstance(n, tuple) and n and n[0] == 'pyvec':
        return ('vec',) + tuple(pyvec_as_vec(x) for x in n[1:])
    if isinstance(n, tuple):
        return tuple(pyvec_as_vec(x) for x in n)
    if isinstance(n, frozenset):
        return frozenset(pyvec_as_vec(x) for x in n)
    return n


def verify(lib, s, v, depth=0):
    """The value has the contents of the specification and works.  Raises Wrong."""
    want, got = pyvec_as_vec(norm(s)), pyvec_as_vec(walk(lib, v))
    if want != got:
        raise Wrong('contents: %s instead of %s' % (str(got)[:200], str(want)[:200]))
    fresh = make(lib, s, random.Random(3))
    try:
        if not (v == fresh) or not (fresh == v):
            raise Wrong('not equal to a value built afresh with the same contents (%s)' % s[0])
    except TypeError:
        pass            # bags inside other things
    try:
        h = hash(fresh)
    except TypeError:
        h = None
    if h is not None and hash(v) != h:
        raise Wrong('hash differs from that of an equal value (%s)' % s[0])
    use(lib, s, v, depth)
    if pyvec_as_vec(walk(lib, v)) != got:
        raise Wrong('changed by use')


def use(lib, s, v, depth):
    t = s[0]
    if t in ('map', 'cmap'):
        for k, x in s[1]:
            kk = make(lib, k, random.Random(1))
            if kk not in v:
                raise Wrong('a key is not found in the restored %s' % t)
            if pyvec_as_vec(walk(lib, v[kk])) != pyvec_as_vec(norm(dict2(s[1])[norm(k)])):
                raise Wrong('wrong value found in the restored %s' % t)
            if kk in v.remove(kk) or len(v.remove(kk)) != len(v) - 1:
                raise Wrong('removal from the restored %s' % t)
            if len(v.set(kk, 5)) != len(v) or v.set(kk, 5)[kk] != 5:
                raise Wrong('update of the restored %s' % t)
        if -99 in v or len(v.set(-99, 1)) != len(v) + 1:
            raise Wrong('insertion into the restored %s' % t)
        if t == 'cmap':
            rejects(lambda: v.set('x', 1), P.CheckedKeyTypeError)
            rejects(lambda: v.set(1, 'x'), P.CheckedValueTypeError)
            rejects(lambda: v.set(1, -1), P.InvariantException)
    elif t in ('set', 'cset', 'bag'):
        for k in s[1]:
            kk = make(lib, k, random.Random(1))
            if kk not in v:
                raise Wrong('an element is not found in the restored %s' % t)
            if t != 'bag' and (len(v.add(kk)) != len(v) or kk in v.remove(kk)):
                raise Wrong('update of the restored %s' % t)
            if t == 'bag' and v.add(kk).count(kk) != v.count(kk) + 1:
                raise Wrong('update of the restored bag')
        if len(v.add(-99)) != len(v) + 1:
            raise Wrong('insertion into the restored %s' % t)
        if t == 'cset':
            rejects(lambda: v.add('x'), P.CheckedValueTypeError)
            rejects(lambda: v.add(-1), P.InvariantException)
    elif t in ('vec', 'pyvec', 'cvec'):
        n = len(s[1])
        if list(v.append(7))[n:] != [7] or len(v.append(7)) != n + 1 or (n and v.set(n // 2, 9)[n // 2] != 9):
            raise Wrong('update of the restored %s' % t)
        if t == 'cvec':
            rejects(lambda: v.append('x'), P.CheckedValueTypeError)
            rejects(lambda: v.append(-1), P.InvariantException)
    elif t == 'deque':
        w = v.append(7)
        if s[2] is not None and (len(w) > s[2] or w.maxlen != s[2]):
            raise Wrong('restored deque ignores its maximum length')
    elif t in ('rec', 'kls'):
        rejects(lambda: v.set(b='x'), P.PTypeError)
        rejects(lambda: v.set(b=-1), P.InvariantException)
        rejects(lambda: v.set(d=['x']), TypeError)
        rejects(lambda: v.set(zz=1), AttributeError)
        if v.set(c=5).c != 6 or v.set(a=1).a != 1:
            raise Wrong('update of the restored %s' % t)
    elif t == 'vv':
        rejects(lambda: v.append(3), P.CheckedValueTypeError)


def dict2(items):
    return dict((norm(k), v) for k, v in items)


def rejects(f, cls):
    try:
        f()
    except cls:
        return
    except Exception as e:
        raise Wrong('forbidden update raised %s' % type(e).__name__)
    raise Wrong('a restored checked value accepts a forbidden update')


def hashable(s):
    return s[0] not in ('l', 'd') and all(hashable(x) for x in kids(s))


def kids(s):
    if s[0] in ('k', 'n', 's', 'z'):
        return []
    if s[0] in ('map', 'cmap', 'd'):
        return [x for kv in s[1] for x in kv]
    if s[0] in ('rec', 'kls', 'erec'):
        return [v for k, v in s[1].items() if k in 'abc']
    return s[1]


# ---------------------------------------------------------------------- scenario
class Image(object):
    __slots__ = ('spec', 'data', 'full', 'proto')

    def __init__(self, spec, data, full, proto):
        self.spec, self.data, self.full, self.proto = spec, data, full, proto


class Slot(object):
    __slots__ = ('spec', 'v')

    def __init__(self, spec, v):
        self.spec, self.v = spec, v


class Store(Base):
    def setup(self):
        MODE[0] = self.cfg['hash']
        SECRET[0] = self.cfg['secret']
        self.slots = []
        self.images = []
        self.pending = None
        self.boots = 0

    def fail(self, msg, sig):
        self.sim.violate('C13', msg, sig)

    def add(self, s, v):
        if len(self.slots) >= 10:
            self.slots.pop(0)
        self.slots.append(Slot(s, v))

    def keep(self, im):
        if len(self.images) >= 14:
            self.images.pop(0)
        self.images.append(im)

    def crash(self):
        """Every live value is gone; the store keeps what was durable; another hash secret."""
        if self.inflight:
            return
        seed, self.pending = self.pending, None
        self.slots = []
        self.boots += 1
        SECRET[0] = (seed * 7919) % 1000003
        self.sim.stat('crash')
        self.sim.stat('restart')
        self.sim.event('crash', SECRET[0])
        with quiet():
            for im in self.images:
                self.recover(im)
            self.images = [im for im in self.images if im.full]

    def recover(self, im):
        try:
            v = pickle.loads(im.data)
        except Exception as e:
            if im.full:
                self.fail('the image of a %s (protocol %d) does not load after a restart: %s: %s' % (im.spec[0], im.proto, type(e).__name__, e), 'C13:load')
            return
        if not im.full:
            self.fail('a torn image of a %s loads as %s' % (im.spec[0], str(v)[:100]), 'C13:torn')
            return
        self.judge(im.spec, v, 'restored after a restart')
        self.add(im.spec, v)

    def judge(self, spec, v, what):
        try:
            with quiet():
                verify(self.lib, spec, v)
        except Wrong as e:
            self.fail('a %s, %s: %s' % (spec[0], what, e), 'C13:value')
        except Exception as e:
            self.fail('a %s, %s: using it raised %s: %s' % (spec[0], what, type(e).__name__, e), 'C13:use')

    def before(self):
        if self.pending is not None:
            self.crash()

    def op_new(self, task, o):
        self.before()
        s = o['s']
        r = random.Random(o['h'])
        with quiet():
            v = make(self.lib, s, r)
        if pyvec_as_vec(walk(self.lib, v)) != pyvec_as_vec(norm(s)):
            self.sim.stat('skipped')        # not the business of this property
            return
        self.add(s, v)

    def op_crash(self, task, o):
        self.pending = o['h']
        self.before()

    def op_dump(self, task, o):
        self.before()
        if not self.slots:
            return
        sl = self.slots[o['t'] % len(self.slots)]
        proto = o['h'] % (pickle.HIGHEST_PROTOCOL + 1)
        boots = self.boots
        got, fault = self.real(task, o, lambda: pickle.dumps(sl.v, proto) if o['h'] % 5 else self.pydump(sl.v, proto))
        self.sim.event('dump', sl.spec[0], proto, got[0])
        with quiet():
            if pyvec_as_vec(walk(self.lib, sl.v)) != pyvec_as_vec(norm(sl.spec)):
                self.fail('serialising changed a %s' % sl.spec[0], 'C13:changed')
        if got[0] == 'exc':
            if fault is None or got[1] is not fault:
                self.fail('serialising a %s (protocol %d) raised %s: %s' % (sl.spec[0], proto, type(got[1]).__name__, got[1]), 'C13:dump')
            # once the fault is gone it works
            with quiet():
                data = pickle.dumps(sl.v, proto)
        else:
            data = got[1]
        if o['h'] % 7 == 0 and len(data) > 1:
            # the machine goes down during the write
            k = (o['h'] // 7) % len(data)
            self.keep(Image(sl.spec, data[:k], False, proto))
            self.sim.stat('torn')
            self.pending = o['h']
        else:
            self.keep(Image(sl.spec, data, True, proto))

    def pydump(self, v, proto):
        import io
        f = io.BytesIO()
        pickle._Pickler(f, proto).dump(v)
        return f.getvalue()

    def op_load(self, task, o):
        self.before()
        ims = [i for i in self.images if i.full]
        if not ims:
            return
        im = ims[o['t'] % len(ims)]
        boots = self.boots
        got, fault = self.real(task, o, lambda: pickle.loads(im.data))
        self.sim.event('load', im.spec[0], got[0])
        if got[0] == 'exc':
            if fault is None or got[1] is not fault:
                self.fail('loading a %s raised %s: %s' % (im.spec[0], type(got[1]).__name__, got[1]), 'C13:load')
            with quiet():
                v = pickle.loads(im.data)
        else:
            v = got[1]
        self.judge(im.spec, v, 'restored')
        self.add(im.spec, v)

    def op_cut(self, task, o):
        """every byte position a write can be cut at, for one image"""
        self.before()
        ims = [i for i in self.images if i.full and len(i.data) < 3000]
        if not ims:
            return
        im = ims[o['t'] % len(ims)]
        with quiet():
            for k in range(0, len(im.data), 1 + len(im.data) // 60):
                self.sim.stat('truncated')
                try:
                    v = pickle.loads(im.data[:k])
                except Exception:
                    continue
                self.fail('the first %d of %d bytes of the image of a %s load as %s' % (k, len(im.data), im.spec[0], str(v)[:80]), 'C13:torn')

    def op_copy(self, task, o):
        self.before()
        if not self.slots:
            return
        sl = self.slots[o['t'] % len(self.slots)]
        deep = o['h'] % 2
        got, fault = self.real(task, o, lambda: copy.deepcopy(sl.v) if deep else copy.copy(sl.v))
        what = 'deepcopy' if deep else 'copy'
        if got[0] == 'exc':
            if fault is None or got[1] is not fault:
                self.fail('%s of a %s raised %s: %s' % (what, sl.spec[0], type(got[1]).__name__, got[1]), 'C13:copy')
            return
        self.judge(sl.spec, got[1], what)
        with quiet():
            self.independent(sl.v, got[1], deep, sl.spec)
            if pyvec_as_vec(walk(self.lib, sl.v)) != pyvec_as_vec(norm(sl.spec)):
                self.fail('%s changed a %s' % (what, sl.spec[0]), 'C13:changed')
        self.add(sl.spec, got[1])

    def independent(self, a, b, deep, spec):
        """mutable leaves directly inside: shared by copy, not shared by deepcopy"""
        ma, mb = self.mutables(a, spec), self.mutables(b, spec)
        for x, y in zip(ma, mb):
            if deep and x is y:
                self.fail('deepcopy of a %s shares a mutable element with the original' % spec[0], 'C13:deep')
            if not deep and x is not y:
                self.fail('copy of a %s has copied its elements' % spec[0], 'C13:shallow')

    def mutables(self, v, spec):
        t = spec[0]
        if t in ('vec', 'pyvec', 'list', 'deque'):
            return [x for x in v if type(x) in (list, dict)]
        if t == 'map':
            return [x for k, x in sorted(((repr(k), x) for k, x in v.items()), key=lambda p: p[0]) if type(x) in (list, dict)]
        if t in ('rec', 'kls', 'erec'):
            return [x for x in [getattr(v, k, None) for k in 'ab'] if type(x) in (list, dict)]
        return []

    def op_use(self, task, o):
        """other work on the same values: fills caches, derives"""
        self.before()
        if not self.slots:
            return
        sl = self.slots[o['t'] % len(self.slots)]

        def work():
            try:
                hash(sl.v)
            except TypeError as e:
                if isinstance(e, SimFault):
                    raise
            if sl.spec[0] in ('vec', 'pyvec', 'cvec'):
                return sl.v.append(4)
            if sl.spec[0] in ('map', 'cmap'):
                return sl.v.set(-3, 4)
            if sl.spec[0] in ('set', 'cset', 'bag'):
                return sl.v.add(-3)
        self.real(task, o, work)

    def finish(self):
        if self.pending is not None:
            self.crash()
        with quiet():
            for im in self.images:
                self.recover(im)
        if self.cfg.get('process') and self.images:
            self.real_restart()

    def real_restart(self):
        """A second process, with another PYTHONHASHSEED (and possibly the other implementation)."""
        from dst import build
        scratch = os.environ['DST_SCRATCH']
        fl = self.flavor if self.flavor != 'py' or self.cfg['process'] % 2 else 'c'
        if fl == 'c' and not os.path.isdir(os.path.join(scratch, 'std')):
            fl = self.flavor
        req = {'mode': MODE[0], 'secret': SECRET[0] + 17, 'flavor': fl, 'images': [[im.spec, im.data.hex()] for im in self.images if im.full]}
        p = subprocess.run([sys.executable, '-c', 'from dst import sp_pickle; sp_pickle.consumer()'], input=json.dumps(req).encode(), capture_output=True,
                           env=build.env_for(fl, scratch, str(self.cfg['process'])), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), timeout=50)
        self.sim.stat('restart')
        self.sim.stat('restart.process')
        if p.returncode != 0:
            self.fail('the process restoring the images failed: %s' % p.stderr.decode()[-300:], 'C13:process')
            return
        for bad in json.loads(p.stdout):
            self.fail('in another process: ' + bad, 'C13:process')


def consumer():
    """The process after the restart."""
    from dst import lib
    req = json.load(sys.stdin)
    MODE[0], SECRET[0] = req['mode'], req['secret']
    out = []
    for spec, data in req['images']:
        try:
            verify(lib, spec, pickle.loads(bytes.fromhex(data)))
        except Wrong as e:
            out.append('a %s: %s' % (spec[0], e))
        except Exception as e:
            out.append('a %s: %s: %s' % (spec[0], type(e).__name__, str(e)[:200]))
    json.dump(out, sys.stdout)


RUN['store'] = runner(Store)


# ---------------------------------------------------------------------- plans
def gspec(r, depth=0, hsh=False, top=False):
    kinds = ['vec', 'pyvec', 'list', 'deque', 'map', 'set', 'bag', 'cvec', 'cset', 'cmap', 'rec', 'kls', 'erec', 'vv']
    if not top and (depth > 2 or r.random() < 0.55):
        x = r.random()
        if x < 0.45:
            return ['k', r.randrange(60)]
        if x < 0.65:
            return ['s', 'str%d' % r.randrange(40)]
        if x < 0.85 or hsh:
            return r.choice((['n', r.randrange(-5, 5) * 1000 + 7], ['z', 'none'], ['z', 'half'], ['tup', [['n', 3], ['s', 'q']]]))
        if x < 0.93:
            return ['l', [['n', 1], ['s', 'm']]]
        return ['d', [[['s', 'x'], ['n', 1]]]]
    t = r.choice(kinds)
    n = r.choice((0, 1, 2, 3, 5, 9)) if depth else r.choice((0, 1, 2, 3, 5, 8, 12, 33, 40, 70))
    if depth == 0 and t in ('vec', 'pyvec') and r.random() < 0.08:
        return [t, [['n', i] for i in range(r.choice((1024, 1056, 1057)))], None]
    if t in ('vec', 'pyvec', 'list'):
        return [t, [gspec(r, depth + 1, hsh) for _ in range(n)], None]
    if t == 'deque':
        ml = r.choice((None, None, n, n + 3))
        return [t, [gspec(r, depth + 1, hsh) for _ in range(n)], ml]
    if t in ('set', 'bag', 'map'):
        ks = {}
        for _ in range(n):
            k = gspec(r, 2 if r.random() < 0.85 else 1, True)
            while k[0] == 'bag' or deepbag(k):
                k = ['k', r.randrange(60)]
            ks[repr(pyvec_as_vec(norm(k)))] = k
        ks = list(ks.values())
        # no two keys that are equal but of different description
        if t == 'map':
            return [t, [[k, gspec(r, depth + 1, hsh)] for k in ks], None]
        if t == 'bag':
            ks = ks + ks[:r.randrange(3)]
        return [t, ks, None]
    simple = lambda: r.choice((['k', r.randrange(60)], ['n', r.randrange(200)]))
    if t == 'cvec':
        return [t, [simple() for _ in range(n)], None]
    if t == 'cset':
        return [t, uniq([simple() for _ in range(n)]), None]
    if t == 'cmap':
        return [t, [[k, simple()] for k in uniq([simple() for _ in range(n)])], None]
    if t == 'vv':
        return [t, [['cvec', [simple() for _ in range(r.randrange(4))], None] for _ in range(min(n, 5))], None]
    f = {}
    if r.random() < 0.7:
        f['a'] = gspec(r, depth + 1, hsh)
    if r.random() < 0.6:
        f['b'] = simple()
    if t == 'erec':
        return [t, f]
    if r.random() < 0.5:
        f['c'] = ['n', r.randrange(5)]
    f['d'] = [r.randrange(9) for _ in range(r.randrange(4))]
    f['e'] = [[i, r.randrange(60)] for i in range(r.randrange(4))]
    f['f'] = None if r.random() < 0.3 else sorted(set(r.randrange(60) for _ in range(r.randrange(4))))
    return [t, f]


def deepbag(s):
    return s[0] == 'bag' or any(deepbag(x) for x in kids(s))


def uniq(l):
    return list(dict((repr(x), x) for x in l).values())


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C13']}
    sched_cfg(r, cfg, r.choice((0, 1, 1, 2)))
    if cfg.get('instr'):
        cfg['i_gap'] = max(cfg['i_gap'], 60)
    cfg['hash'] = r.choice(('scatter', 'scatter', 'ident', 'mod3', 'const', 'big', 'neg'))
    cfg['secret'] = r.randrange(100000)
    if r.random() < 0.5:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.01, 0.05, 0.2))
        cfg['max_faults'] = 20
        if cfg.get('instr'):
            cfg['interrupts'] = 1
            cfg['i_int'] = 0.1
    if r.random() < (0.05 if tier == 'quick' else 0.3):
        cfg['process'] = r.randrange(2, 60000)
    w = {'new': 3, 'dump': 4, 'load': 1.5, 'copy': 2, 'crash': 0.7, 'cut': 0.2, 'use': 1}
    names, ws = list(w), list(w.values())
    tasks = []
    for t in range(r.choice((1, 2, 3))):
        ops = []
        for i in range(r.choice((8, 15, 25))):
            n = r.choices(names, ws)[0] if i > 1 else 'new'
            o = {'o': n, 't': r.randrange(1 << 16), 'h': r.randrange(1 << 30)}
            if n == 'new':
                o['s'] = gspec(r, 0, False, True)
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'store', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C13'] = plan
