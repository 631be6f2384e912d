"""C15: no aliasing of mutable inputs and outputs; freeze, thaw, mutant.

Every mutable object handed to the library (once the call has returned) and every mutable object received from it goes
into a common bin, from which any task at any time takes one and mutates it.  Values are compared with plain snapshots.
"""
import collections
import random

from dst import atoms as A
from dst import decl as D
from dst.sim import SimFault, SimInterrupt, quiet, cb
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P


class AVec(P.CheckedPVector):
    pass


class ASet(P.CheckedPSet):
    pass


class AMap(P.CheckedPMap):
    pass


class ARec(P.PRecord):
    a = P.field()
    b = P.field()
    c = P.pvector_field(object)
    d = P.pmap_field(object, object)
    e = P.pset_field(object)


class ACls(P.PClass):
    a = P.field()
    b = P.field()
    c = P.pvector_field(object)
    d = P.pmap_field(object, object)
    e = P.pset_field(object)


class LSub(list):
    pass


Pair = collections.namedtuple('Pair', 'x y')


def kk(x):
    """comparable description of a leaf, without calling user code"""
    if isinstance(x, A.SimKey):
        return ('K', x.c)
    return (type(x).__name__, x)


class Slot(object):
    __slots__ = ('kind', 'v', 'snap')

    def __init__(self, kind, v, snap):
        self.kind, self.v, self.snap = kind, v, snap


def snap(lib, v):
    """Deep description of anything; insertion order of maps and sets does not matter."""
    t = type(v)
    if isinstance(v, A.SimKey):
        return ('K', v.c)
    if t in (int, str, float, bool, type(None)):
        return (t.__name__, v)
    if t is ACls:
        return ('cls', tuple((k, snap(lib, getattr(v, k))) for k in 'abcde' if hasattr(v, k)))
    if isinstance(v, (dict, P.PMap)):
        return (t.__name__, frozenset((snap(lib, k), snap(lib, x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset, P.PSet)):
        return (t.__name__, frozenset(snap(lib, x) for x in v))
    if isinstance(v, P.PBag):
        c = {}
        for x in v:
            s = snap(lib, x)
            c[s] = c.get(s, 0) + 1
        return ('pbag', frozenset(c.items()))
    if isinstance(v, (list, tuple, P.PVector, P.PList, P.PDeque, collections.deque)) or hasattr(v, '__iter__'):
        return (t.__name__, tuple(snap(lib, x) for x in v))
    return ('obj', id(v))


def shape(v):
    """Deep description with the identity of every builtin container: what 'unmodified' means for an argument."""
    t = type(v)
    if isinstance(v, dict):
        return ('d', id(v), t, tuple((kk(k) if not isinstance(k, tuple) else repr(k), shape(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ('l', id(v), t, tuple(shape(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('s', id(v), t, frozenset(map(kk, v)))
    return id(v)


class Alias(Base):
    def setup(self):
        self.pool = []
        self.bin = []           # mutable objects nobody else cares about
        self.evs = {}
        self.n = 0

    def atom(self, r):
        self.n += 1
        x = r.randrange(3)
        c = r.randrange(12)
        if x == 0:
            return A.SimKey(c, A.mkhash(self.cfg['hash'], c), self.n)
        return 'str%d' % c if x == 1 else c * 1000

    def fail(self, msg, sig):
        self.sim.violate('C15', msg, sig)

    def add(self, kind, v):
        with quiet():
            s = Slot(kind, v, snap(self.lib, v))
        if len(self.pool) >= self.cfg['cap']:
            self.pool.pop(0)
        self.pool.append(s)

    def discard_into_bin(self, *objs):
        for o in objs:
            if isinstance(o, (list, dict, set, collections.deque, bytearray)):
                if len(self.bin) > 60:
                    self.bin.pop(0)
                self.bin.append(o)

    def check(self, o):
        with quiet():
            for s in self.pool:
                now = snap(self.lib, s.v)
                if now != s.snap:
                    self.fail('a %s changed from %s to %s (after %s)' % (s.kind, str(s.snap)[:150], str(now)[:150], o['o']), 'C15:changed')

    def after(self, task, o):
        self.check(o)

    def odd(self, got, fault, what):
        """-> True if the call gave nothing to look at"""
        if got[0] == 'ok':
            return False
        if fault is None or got[1] is not fault:
            self.fail('%s raised %s: %s' % (what, type(got[1]).__name__, str(got[1])[:200]), 'C15:raised')
        return True

    # ------------------------------------------------------------------ values from mutable sources
    def op_build(self, task, o):
        r = random.Random(o['h'])
        lib = self.lib
        n = o['n']
        if o['k'] == 'deque' and r.random() < 0.3:
            pass
        els = [self.atom(r) for _ in range(n)]
        src_kind = r.choice(('list', 'list', 'deque', 'dictview', 'iter', 'sub'))
        if src_kind == 'list':
            src = backing = list(els)
        elif src_kind == 'deque':
            src = backing = collections.deque(els)
        elif src_kind == 'sub':
            src = backing = LSub(els)
        elif src_kind == 'iter':
            backing = list(els)
            src = iter(backing)
        else:
            backing = dict(enumerate(els))
            src = backing.values()
        pairs = [(A.SimKey(i, A.mkhash(self.cfg['hash'], i), self.n) if r.random() < 0.5 else 'k%d' % i, x) for i, x in enumerate(els[:30])]
        d = dict(pairs)
        dsrc = r.choice((d, d, list(pairs), collections.OrderedDict(pairs), collections.defaultdict(list, pairs)))
        if type(dsrc) is collections.OrderedDict and self.cfg.get('faults'):
            dsrc = d        # OrderedDict hashes its keys while iterating and turns a failing hash into KeyError
        base = [s for s in self.pool if s.kind == o['k']]
        base = base[o['t'] % len(base)].v if base and r.random() < 0.5 else None
        k = o['k']
        how = r.randrange(4)
        muts = [backing]
        exp = None
        pre = None
        if k in ('vec', 'pyvec', 'avec'):
            mk = {'vec': lib.pvector, 'pyvec': lib.python_pvector, 'avec': AVec}[k]
            if how == 0:
                f = lambda: mk(src)
                exp = els
            elif how == 1:
                b = base if base is not None else mk([1])
                f = lambda: b.extend(src)
                exp = list(b) + els
            elif how == 2:
                b = base if base is not None else mk([])
                f = lambda: b + src
                exp = list(b) + els
            else:
                b = base if base is not None else mk([7] * r.choice((0, 1, 33)))
                e = b.evolver()
                if r.random() < 0.5:
                    e.append(5)
                    pre = [5]
                else:
                    pre = []
                f = lambda: e.extend(src) and None
                exp = None
                got, fault = self.real(task, o, f)
                if self.odd(got, fault, 'evolver.extend'):
                    return
                self.evs[task.idx] = (k, e, [snap(lib, x) for x in list(b) + pre + els])
                self.discard_into_bin(*muts)
                return
            expd = ('seq', exp)
        elif k == 'plist':
            b = base if base is not None else lib.plist([1])
            f = (lambda: lib.plist(src)) if how < 2 else (lambda: b.mcons(src)) if how == 2 else (lambda: lib.plist(els, reverse=True))
            exp = els if how < 2 else list(reversed(els)) + list(b) if how == 2 else list(reversed(els))
            expd = ('seq', exp)
            muts.append(els) if how == 3 else None
            exp = list(exp)
            expd = ('seq', exp)
        elif k == 'deque':
            b = base if base is not None else lib.pdeque([1])
            f = (lambda: lib.pdeque(src)) if how < 2 else (lambda: b.extend(src)) if how == 2 else (lambda: b.extendleft(src))
            exp = els if how < 2 else list(b) + els if how == 2 else list(reversed(els)) + list(b)
            expd = ('seq', list(exp))
        elif k in ('map', 'amap'):
            b = base if base is not None else (lib.pmap if k == 'map' else AMap)({'z': 1})
            muts = [dsrc]
            if how == 0:
                f = (lambda: lib.pmap(dsrc, r.choice((0, 8)))) if k == 'map' else (lambda: AMap(dict(dsrc)))
                exp = dict(pairs)
            elif how == 1:
                dd = d
                muts = [dd]
                f = lambda: b.update(dd)
                exp = dict(b.items())
                exp.update(pairs)
            elif how == 2:
                dd = d
                muts = [dd]
                f = (lambda: b + dd) if r.random() < 0.5 else (lambda: b | dd)
                exp = dict(b.items())
                exp.update(pairs)
            else:
                dd = d
                muts = [dd]
                f = lambda: b.update_with(lambda x, y: y, dd)
                exp = dict(b.items())
                exp.update(pairs)
            expd = ('map', exp)
        elif k in ('set', 'aset'):
            mk = lib.pset if k == 'set' else ASet
            b = base if base is not None else mk(['z'])
            st = set(els)
            muts.append(st)
            if how == 0:
                f = lambda: mk(src)
                exp = set(els)
            elif how == 1:
                f = lambda: mk(st)
                exp = set(els)
            elif how == 2:
                f = lambda: b.update(src)
                exp = set(b) | set(els)
            elif k == 'set':
                f = lambda: b | st
                exp = set(b) | set(els)
            else:
                f = lambda: mk(src)
                exp = set(els)
            expd = ('set', exp)
        elif k == 'bag':
            b = base if base is not None else lib.pbag(['z'])
            f = (lambda: lib.pbag(src)) if how < 2 else (lambda: b.update(src))
            exp = list(els) if how < 2 else list(b) + els
            expd = ('bag', exp)
        else:       # rec, cls
            cls = ARec if k == 'rec' else ACls
            st = set(els)
            kw = {'a': r.randrange(5), 'c': list(els), 'd': dict(pairs), 'e': st}
            muts = [kw, kw['c'], kw['d'], st]
            b = base if base is not None else cls(b=2)
            inner = [kw['c'], kw['d'], kw['e']]
            if how == 0:
                f = lambda: cls.create(kw)
            elif how == 1:
                f = lambda: cls(**kw)
            elif how == 2:
                f = lambda: b.set(**kw)
            else:
                f = (lambda: cls.create(kw, ignore_extra=True))
            want = dict((x, getattr(b, x)) for x in 'b' if hasattr(b, x)) if how == 2 else {}
            expd = ('rec', dict(a=('int', kw['a']), c=[kk(x) for x in els], d=frozenset((kk(x), kk(y)) for x, y in pairs), e=frozenset(kk(x) for x in els)))
        before = [shape(x) if not isinstance(x, collections.deque) else list(map(kk, x)) for x in muts]
        got, fault = self.real(task, o, f)
        self.sim.event('build', k, how, got[0])
        with quiet():
            for x, y in zip(muts, before):
                now = shape(x) if not isinstance(x, collections.deque) else list(map(kk, x))
                if now != y:
                    self.fail('building a %s modified its argument' % k, 'C15:argument')
        if not self.odd(got, fault, 'building a %s' % k):
            with quiet():
                m = self.wrong(got[1], expd)
            if m:
                self.fail('a %s built from a mutable source: %s' % (k, m), 'C15:build')
            self.add(k, got[1])
        self.discard_into_bin(*muts)

    def wrong(self, v, expd):
        t, e = expd
        if t == 'seq':
            got, want = [kk(x) for x in v], [kk(x) for x in e]
        elif t == 'map':
            got, want = dict((kk(k), kk(x)) for k, x in v.items()), dict((kk(k), kk(x)) for k, x in e.items())
        elif t == 'set':
            got, want = sorted(map(repr, map(kk, v))), sorted(map(repr, map(kk, e)))
        elif t == 'bag':
            got, want = sorted(map(repr, map(kk, v))), sorted(map(repr, map(kk, e)))
        else:
            got = dict(a=kk(v.a), c=[kk(x) for x in v.c], d=frozenset((kk(x), kk(y)) for x, y in v.d.items()), e=frozenset(kk(x) for x in v.e))
            want = e
        if got != want:
            return 'contains %s instead of %s' % (str(got)[:150], str(want)[:150])

    def op_persist(self, task, o):
        """an evolver fed from a list that somebody has mutated since"""
        if task.idx not in self.evs:
            return
        k, e, want = self.evs[task.idx]
        got, fault = self.real(task, o, lambda: e.persistent())
        if self.odd(got, fault, 'persistent()'):
            return
        with quiet():
            now = [snap(self.lib, x) for x in got[1]]
        if now != want:
            self.fail('an evolver extended from a mutable source: persistent() contains %s instead of %s' % (str(now)[:150], str(want)[:150]), 'C15:evolver')
        self.add(k, got[1])
        if o['h'] % 2:
            del self.evs[task.idx]

    # ------------------------------------------------------------------ mutable results
    def op_out(self, task, o):
        if not self.pool:
            return
        s = self.pool[o['t'] % len(self.pool)]
        v, k = s.v, s.kind
        lib = self.lib
        fs = [lambda: lib.thaw(v), lambda: lib.thaw(v, strict=False)] + ([] if k == 'frozen' else [lambda: v.__reduce__()])
        if k in ('vec', 'pyvec', 'avec', 'frozen'):
            if hasattr(v, 'tolist'):
                fs += [lambda: v.tolist(), lambda: v.tolist(), lambda: list(v), lambda: v.__reduce__()[1]]
            if k == 'avec':
                fs += [lambda: v.serialize()]
        if k in ('map', 'amap', 'rec'):
            fs += [lambda: dict(v), lambda: v.serialize() if k != 'map' else dict(v), lambda: list(v.items()), lambda: v.items(), lambda: v.keys(), lambda: v.values()]
        if k in ('set', 'aset'):
            fs += [lambda: set(v), lambda: v.serialize() if k == 'aset' else list(v)]
        if k == 'cls':
            fs += [lambda: v.serialize(), lambda: v.serialize()]
        f = fs[o['h'] % len(fs)]
        got, fault = self.real(task, o, f)
        self.sim.event('out', k, got[0])
        if self.odd(got, fault, 'converting a %s' % k):
            return
        self.collect(got[1])

    def collect(self, x, depth=0):
        """all mutable containers inside a result"""
        if depth > 5:
            return
        if isinstance(x, (list, dict, set)):
            self.discard_into_bin(x)
        if isinstance(x, dict):
            for y in list(x.values()):
                self.collect(y, depth + 1)
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.collect(y, depth + 1)

    def op_mutate(self, task, o):
        """somebody mutates something it owns"""
        if not self.bin:
            return
        r = random.Random(o['h'])
        for _ in range(r.choice((1, 1, 3))):
            x = self.bin[r.randrange(len(self.bin))]
            self.sim.stat('mutation')
            with quiet():
                w = r.randrange(5)
                if isinstance(x, (list, collections.deque)):
                    if w == 0:
                        x.append('mutated')
                    elif w == 1:
                        x.clear()
                    elif w == 2 and len(x):
                        x[r.randrange(len(x))] = 'mutated'
                    elif w == 3 and len(x):
                        del x[r.randrange(len(x))]
                    else:
                        x.reverse()
                        x.append('mutated')
                elif isinstance(x, dict):
                    if w == 0 or not x:
                        x['mutated'] = 1
                    elif w == 1:
                        x.clear()
                    elif w == 2:
                        x.popitem()
                    else:
                        for k in list(x):
                            x[k] = 'mutated'
                elif isinstance(x, set):
                    if w < 2 or not x:
                        x.add('mutated')
                    elif w == 2:
                        x.clear()
                    else:
                        x.pop()

    # ------------------------------------------------------------------ freeze, thaw, mutant
    def mkobj(self, s, muts):
        """real object of a specification, collecting its mutable containers"""
        t = s[0]
        lib = self.lib
        if t == 'a':
            return A.SimKey(s[1], A.mkhash(self.cfg['hash'], s[1]), 1000 + s[1]) if s[2] else s[1] * 100
        if t == 'str':
            return 'text%d' % s[1]
        if t == 'none':
            return None
        if t in ('l', 't', 'sub', 'pv', 'ppv', 'pl', 'nt'):
            els = [self.mkobj(x, muts) for x in s[1]]
            if t == 'l':
                muts.append(els)
                return els
            if t == 't':
                return tuple(els)
            if t == 'nt':
                return Pair(*(els + [0, 0])[:2])
            if t == 'sub':
                els = LSub(els)
                muts.append(els)
                return els
            return {'pv': lib.pvector, 'ppv': lib.python_pvector, 'pl': lib.plist}[t](els)
        if t in ('d', 'dd', 'od', 'pm'):
            d = dict((self.mkobj(k, muts), self.mkobj(x, muts)) for k, x in s[1])
            if t == 'dd':
                d = collections.defaultdict(list, d)
            elif t == 'od' and not self.cfg.get('faults'):
                d = collections.OrderedDict(d)
            elif t == 'pm':
                return lib.pmap(d)
            muts.append(d)
            return d
        els = [self.mkobj(x, muts) for x in s[1]]
        if t == 's':
            x = set(els)
            muts.append(x)
            return x
        if t == 'fs':
            return frozenset(els)
        return lib.pset(els)

    def expect_freeze(self, o, strict):
        """expected result: ('same', o) | ('vec', [..]) | ('map', {..}) | ('tuple', ..) | ('set', ..)"""
        t = type(o)
        lib = self.lib
        if t in (dict, collections.defaultdict) or (strict and t is type(lib.pmap())):
            return ('map', [(k, self.expect_freeze(x, strict)) for k, x in o.items()])
        if t is list or (strict and t in (type(lib.pvector()), lib.PythonPVector)):
            return ('vec', [self.expect_freeze(x, strict) for x in o])
        if t is tuple:
            return ('tuple', [self.expect_freeze(x, strict) for x in o])
        if t is set:
            return ('pset', list(o))
        return ('same', o)

    def expect_thaw(self, o, strict):
        t = type(o)
        lib = self.lib
        if t in (type(lib.pvector()), lib.PythonPVector) or (strict and t is list):
            return ('list', [self.expect_thaw(x, strict) for x in o])
        if t is type(lib.pmap()) or (strict and t is dict):
            return ('dict', [(k, self.expect_thaw(x, strict)) for k, x in o.items()])
        if t is tuple:
            return ('tuple', [self.expect_thaw(x, strict) for x in o])
        if t is type(lib.pset()):
            return ('set', list(o))
        return ('same', o)

    def match(self, e, v, path='result'):
        t, c = e
        lib = self.lib
        if t == 'same':
            return None if v is c else '%s is not the original object but a %s' % (path, type(v).__name__)
        want = {'map': type(lib.pmap()), 'vec': type(lib.pvector()), 'pset': type(lib.pset()), 'tuple': tuple, 'list': list, 'dict': dict, 'set': set}[t]
        if type(v) is not want:
            return '%s is a %s instead of a %s' % (path, type(v).__name__, want.__name__)
        if len(v) != len(c):
            return '%s has %d elements instead of %d' % (path, len(v), len(c))
        if t in ('vec', 'tuple', 'list'):
            for i, (x, y) in enumerate(zip(c, v)):
                m = self.match(x, y, '%s[%d]' % (path, i))
                if m:
                    return m
        elif t in ('map', 'dict'):
            have = dict((kk(k) if not isinstance(k, tuple) else repr(k), (k, y)) for k, y in v.items())
            for k, x in c:
                kx = kk(k) if not isinstance(k, tuple) else repr(k)
                if kx not in have:
                    return '%s lacks the key %r' % (path, k)
                m = self.match(x, have[kx][1], '%s[%r]' % (path, k))
                if m:
                    return m
        else:
            if sorted(repr(kk(x)) for x in v) != sorted(repr(kk(x)) for x in c):
                return '%s is %r' % (path, v)
        return None

    def leaky(self, e):
        """does the expected result keep something mutable?"""
        t, c = e
        if t == 'same':
            return self.has_mutable(c)
        if t in ('map', 'dict'):
            return any(self.leaky(x) for k, x in c)
        if t in ('vec', 'tuple', 'list'):
            return any(self.leaky(x) for x in c)
        return False

    def has_mutable(self, x):
        if isinstance(x, (list, dict, set)):
            return True
        if isinstance(x, (tuple, P.PVector, P.PList)):
            return any(self.has_mutable(y) for y in x)
        if isinstance(x, P.PMap):
            return any(self.has_mutable(y) for y in x.values())
        return False

    def op_freeze(self, task, o):
        muts = []
        with quiet():
            src = self.mkobj(o['s'], muts)
            strict = bool(o['h'] % 3)
            e = self.expect_freeze(src, strict)
            before = shape(src)
            sn = snap(self.lib, src)
        lib = self.lib
        f = (lambda: lib.freeze(src)) if o['h'] % 3 == 1 else lambda: lib.freeze(src, strict)
        got, fault = self.real(task, o, f)
        self.sim.event('freeze', got[0])
        self.unmodified(src, before, sn, 'freeze')
        if self.odd(got, fault, 'freeze'):
            return
        with quiet():
            m = self.match(e, got[1])
        if m:
            self.fail('freeze(strict=%s): %s' % (strict, m), 'C15:freeze')
        if not self.leaky(e):
            self.add('frozen', got[1])
            self.discard_into_bin(*muts)

    def unmodified(self, src, before, sn, what):
        with quiet():
            if shape(src) != before or snap(self.lib, src) != sn:
                self.fail('%s modified its argument' % what, 'C15:argument')

    def op_thaw(self, task, o):
        lib = self.lib
        muts = []
        pooled = self.pool and o['h'] % 2
        with quiet():
            if pooled:
                s = self.pool[o['t'] % len(self.pool)]
                if s.kind not in ('frozen', 'vec', 'pyvec', 'map', 'set'):
                    return
                src = s.v
            else:
                src = self.mkobj(o['s'], muts)
            strict = bool(o['h'] // 2 % 3)
            e = self.expect_thaw(src, strict)
            before = shape(src)
            sn = snap(lib, src)
        f = (lambda: lib.thaw(src)) if o['h'] // 2 % 3 == 1 else lambda: lib.thaw(src, strict)
        got, fault = self.real(task, o, f)
        self.sim.event('thaw', got[0])
        self.unmodified(src, before, sn, 'thaw')
        if self.odd(got, fault, 'thaw'):
            return
        with quiet():
            m = self.match(e, got[1])
        if m:
            self.fail('thaw(strict=%s): %s' % (strict, m), 'C15:thaw')
        # the result belongs to the caller; mutating it must not reach the source
        if pooled:
            if not self.leaky2(e):
                self.collect(got[1])
        elif strict and not self.leaky2(e):
            # mutate the result right here and look at the source
            with quiet():
                mine = []
                self.gather(got[1], mine)
                for x in mine:
                    self.spoil(x)
                self.unmodified(src, before, sn, 'mutating the result of thaw')

    def leaky2(self, e):
        t, c = e
        if t == 'same':
            return self.has_mutable(c)
        if t == 'dict':
            return any(self.leaky2(x) for k, x in c)
        if t in ('list', 'tuple'):
            return any(self.leaky2(x) for x in c)
        return False

    def gather(self, x, out):
        if isinstance(x, (list, tuple)):
            for y in x:
                self.gather(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                self.gather(y, out)
        if isinstance(x, (list, dict, set)):
            out.append(x)

    def spoil(self, x):
        self.sim.stat('mutation')
        if isinstance(x, list):
            x.append('mutated')
            x[0] = 'mutated'
        elif isinstance(x, dict):
            x['mutated'] = 1
        else:
            x.add('mutated')

    def op_mutant(self, task, o):
        lib = self.lib
        muts = []
        with quiet():
            args = [self.mkobj(s, muts) for s in o['args']]
            kw = dict(('kw%d' % i, self.mkobj(s, muts)) for i, s in enumerate(o['kw']))
            rmuts = []
            ret = self.mkobj(o['s'], rmuts)
            ea = [self.expect_freeze(x, True) for x in args]
            ek = dict((k, self.expect_freeze(x, True)) for k, x in kw.items())
            er = self.expect_freeze(ret, True)
            before = [shape(x) for x in args] + [shape(x) for _, x in sorted(kw.items())]
            bs = [snap(lib, x) for x in args] + [snap(lib, x) for _, x in sorted(kw.items())]
        seen = []

        def user(*a, **k):
            seen.append((a, k))
            cb('fn')
            return ret
        fn = lib.mutant(user)
        got, fault = self.real(task, o, lambda: fn(*args, **kw))
        self.sim.event('mutant', got[0])
        with quiet():
            if [shape(x) for x in args] + [shape(x) for _, x in sorted(kw.items())] != before or \
                    [snap(lib, x) for x in args] + [snap(lib, x) for _, x in sorted(kw.items())] != bs:
                self.fail('calling a mutant function modified its arguments', 'C15:argument')
            for a, k in seen:
                ms = [self.match(e, x) for e, x in zip(ea, a)] + [self.match(ek[n], k[n]) for n in ek if n in k]
                if len(a) != len(ea) or set(k) != set(ek) or any(ms):
                    self.fail('a mutant function does not receive its arguments frozen: %s' % [m for m in ms if m], 'C15:mutant')
        if self.odd(got, fault, 'a mutant function'):
            return
        if len(seen) != 1:
            self.fail('a mutant function called %d times' % len(seen), 'C15:mutant')
        with quiet():
            m = self.match(er, got[1])
        if m:
            self.fail('the result of a mutant function: %s' % m, 'C15:mutant')
        if not self.leaky(er):
            self.add('frozen', got[1])
            self.discard_into_bin(*rmuts)
        if not any(self.leaky(e) for e in ea):
            self.discard_into_bin(*muts)


RUN['alias'] = runner(Alias)


# ---------------------------------------------------------------------- plans
def gobj(r, depth, top=False):
    if not top and (depth == 0 or r.random() < 0.35):
        return r.choice((['a', r.randrange(12), 1], ['a', r.randrange(12), 0], ['str', r.randrange(5)], ['none']))
    t = r.choice(('l', 'l', 'l', 'd', 'd', 'd', 'dd', 't', 't', 's', 'fs', 'pv', 'ppv', 'pm', 'ps', 'pl', 'sub', 'od', 'nt'))
    n = r.choice((0, 1, 2, 3, 4)) if r.random() < 0.95 else r.choice((12, 33, 40))
    if t in ('l', 't', 'pv', 'ppv', 'pl', 'sub', 'nt'):
        return [t, [gobj(r, depth - 1) for _ in range(n)]]
    hk = lambda: r.choice((['a', r.randrange(12), 1], ['a', r.randrange(12), 0], ['str', r.randrange(9)]))
    if t in ('d', 'dd', 'od', 'pm'):
        ks = list(dict((repr(k), k) for k in [hk() for _ in range(n)]).values())
        return [t, [[k, gobj(r, depth - 1)] for k in ks]]
    return [t, list(dict((repr(k), k) for k in [hk() for _ in range(n)]).values())]


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C15']}
    sched_cfg(r, cfg, r.choice((0, 1, 1, 2)))
    if cfg.get('instr'):
        cfg['i_gap'] = max(cfg['i_gap'], 25)
    cfg['hash'] = r.choice(A.HASH_MODES)
    cfg['cap'] = r.choice((6, 12))
    if r.random() < 0.3:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.01, 0.05))
        cfg['max_faults'] = 15
    kinds = ('vec', 'vec', 'pyvec', 'avec', 'plist', 'deque', 'map', 'map', 'amap', 'set', 'aset', 'bag', 'rec', 'cls')
    w = {'build': 3, 'persist': 0.6, 'out': 2, 'mutate': 3, 'freeze': 2, 'thaw': 2, 'mutant': 0.6}
    names, ws = list(w), list(w.values())
    tasks = []
    for t in range(r.choice((1, 2, 2, 3))):
        ops = []
        for i in range(r.choice((15, 30, 50))):
            n = r.choices(names, ws)[0]
            o = {'o': n, 't': r.randrange(1 << 16), 'h': r.randrange(1 << 30)}
            if n == 'build':
                o['k'] = r.choice(kinds)
                o['n'] = r.choice((0, 1, 2, 3, 5, 31, 32, 33, 40, 64, 65)) if r.random() < 0.97 else 1057
            elif n in ('freeze', 'thaw', 'mutant'):
                o['s'] = gobj(r, r.choice((1, 2, 3, 4)), True)
                if n == 'mutant':
                    o['args'] = [gobj(r, 2) for _ in range(r.randrange(3))]
                    o['kw'] = [gobj(r, 2) for _ in range(r.randrange(3))]
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'alias', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C15'] = plan
