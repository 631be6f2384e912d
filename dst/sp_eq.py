"""C10: equality and hash.

Contents are abstract (codes); concrete values are built towards a content by random histories, some starting from
values that were already hashed, inside the simulation (switches and failures at every call into user code).  The
expected verdict of every comparison follows from the abstract contents alone.
"""
import copy
import fractions
import pickle
import random

from dst import atoms as A
from dst import decl as D
from dst.sim import SimFault, SimInterrupt, quiet
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P
FLD = 'abcdef'


class EVec(P.CheckedPVector):
    pass


class ESet(P.CheckedPSet):
    pass


class EMap(P.CheckedPMap):
    pass


class ERec(P.PRecord):
    a = P.field()
    b = P.field()
    c = P.field()
    d = P.field()
    e = P.field()
    f = P.field()


class EKls(P.PClass):
    a = P.field()
    b = P.field()
    c = P.field()


class EKlsSub(EKls):
    pass


class EKlsRe(EKls):
    b = P.field()


class EKlsMore(EKls):
    d = P.field()


class EKey(A.SimKey):
    __slots__ = ()
    __hash__ = A.SimKey.__hash__

    def __reduce__(self):
        return EKey, (self.c, self.h, self.u)


class ENan(A.NanKey):
    """Equal to nothing but found by identity; one object per code, copies and pickles included."""
    __slots__ = ()

    def __hash__(self):
        return 1000 + self.u

    def __reduce__(self):
        return enan, (self.u,)


NANS = {}


def enan(c):
    return NANS.setdefault(c, ENan(c))


# kind -> group; same group: equal iff contents are the same
GROUP = {'vec': 'seq', 'pyvec': 'seq', 'evec': 'seq', 'list': 'seq', 'plist': 'plist', 'pdeque': 'pdeque', 'pmap': 'map', 'emap': 'map', 'erec': 'map',
         'dict': 'map', 'pset': 'set', 'eset': 'set', 'frozenset': 'set', 'keys': 'set', 'set': 'set', 'pbag': 'bag', 'cls': 'cls', 'clssub': 'cls',
         'clsre': 'cls', 'clsmore': 'cls', 'items': 'items', 'tuple': 'tuple'}
BUILTIN = ('list', 'dict', 'set', 'frozenset', 'tuple')
UNHASHABLE = ('list', 'dict', 'set', 'items')
BYGROUP = {}
for _k, _g in GROUP.items():
    BYGROUP.setdefault(_g, []).append(_k)


class Slot(object):
    __slots__ = ('kind', 'v', 'content', 'hashed')

    def __init__(self, kind, v, content):
        self.kind, self.v, self.content = kind, v, content
        self.hashed = False


def canon(group, c):
    """Content as comparable data (c: JSON list)."""
    if group in ('seq', 'plist', 'pdeque', 'tuple'):
        return tuple(c)
    if group in ('map', 'items', 'cls'):
        return frozenset((k, v) for k, v in c)
    if group == 'set':
        return frozenset(c)
    if group == 'bag':
        return tuple(sorted(c))
    raise ValueError(group)


class Eq(Base):
    def setup(self):
        self.slots = []
        self.h = {}             # (hash group, content) -> hash
        self.u = 0
        self.mode = self.cfg['hash']
        self.mix = self.cfg['mix']

    # ------------------------------------------------------------------ concrete elements
    def el(self, c, r, key=False):
        """A fresh representative of code c."""
        self.u += 1
        mix = self.mix
        if mix == 'keys':
            return EKey(c, A.mkhash(self.mode, c), self.u)
        if mix == 'strs':
            return ('k%d' % c)[:] + ''
        if mix == 'num':
            if c < 2 and r.random() < 0.3:
                return bool(c)
            x = r.randrange(4)
            return c if x < 2 else float(c) if x == 2 else fractions.Fraction(c)
        if mix == 'nested':
            return self.nested(c, r)
        if mix == 'nan':
            return enan(c) if c % 5 == 2 else EKey(c, A.mkhash(self.mode, c), self.u)
        raise ValueError(mix)

    def nested(self, c, r, depth=0):
        lib = self.lib
        k = c % 6
        if k < 2:
            return EKey(c, A.mkhash(self.mode, c), self.u)
        # several implementations and orders of the same content
        if k == 2:
            l = [c, 0, -1, c]
            return r.choice((lib.pvector, lib.python_pvector, EVec))(l)
        if k == 3:
            it = [(c, 1), (c + 8, 2), (c + 16, lib.pvector([c]))]
            r.shuffle(it)
            m = lib.pmap(dict(it), r.choice((0, 1, 8, 3)))
            if r.random() < 0.3:
                m = m.set(-5, 1).remove(-5)
            return m if r.random() < 0.7 else EMap(dict(it))
        if k == 4:
            l = [c, c + 8, -1, c + 16]
            r.shuffle(l)
            return r.choice((lib.pset, frozenset, ESet, lambda x: lib.pmap(dict((y, r.random()) for y in x)).keys()))(l)
        return lib.plist([c, 1]) if c % 12 == 5 else lib.pdeque([c, 1], maxlen=r.choice((None, 2, 9)))

    # ------------------------------------------------------------------ building by a random history
    def content_of(self, o):
        return o['c']

    def make(self, kind, c, r, src):
        """Build content c as a value of the kind, by a history drawn from r; src: a slot of the kind to start from."""
        g = GROUP[kind]
        if g in ('seq', 'plist', 'pdeque', 'tuple'):
            return self.make_seq(kind, c, r, src)
        if g in ('map', 'items'):
            return self.make_map(kind, c, r, src)
        if g == 'set':
            return self.make_set(kind, c, r, src)
        if g == 'bag':
            return self.make_bag(c, r, src)
        return self.make_cls(kind, c, r, src)

    def make_seq(self, kind, c, r, src):
        lib = self.lib
        els = [self.el(x, r) for x in c]
        if kind == 'list':
            return els
        if kind == 'tuple':
            return tuple(els)
        n = len(c)
        how = r.randrange(7)
        if kind in ('vec', 'pyvec', 'evec'):
            mk = {'vec': lib.pvector, 'pyvec': lib.python_pvector, 'evec': EVec}[kind]
            if src is not None and how < 5:
                v, old = src.v, list(src.content)
                while len(old) > n:
                    i = r.randrange(len(old))
                    v = v.delete(i)
                    del old[i]
                if how < 2:
                    e = v.evolver()
                    for i in r.sample(range(len(old)), len(old)):
                        if old[i] != c[i] or r.random() < 0.1:
                            e[i] = els[i]
                    for x in els[len(old):]:
                        e.append(x)
                    return e.persistent()
                for i in r.sample(range(len(old)), len(old)):
                    if old[i] != c[i] or r.random() < 0.1:
                        v = v.set(i, els[i])
                return v.extend(els[len(old):])
            if how == 0:
                return mk(els)
            if how == 1:
                v = mk([])
                for x in els:
                    v = v.append(x)
                return v
            if how == 2:
                v = mk(els + els[:3])
                for i in range(min(3, n)):
                    v = v.delete(n)
                return v
            if how == 3:
                k = r.randrange(n + 1)
                return mk(els[:k]) + els[k:]
            if how == 4:
                e = mk([]).evolver()
                e.extend(els)
                return e.persistent()
            if how == 5:
                if kind == 'evec':
                    return EVec(lib.pvector(els))
                return mk(els + els)[:n] if n else mk([])
            v = mk(reversed(els))
            for i in range(n):
                v = v.set(i, els[i])
            return v
        if kind == 'plist':
            if src is not None and how < 3 and len(src.content) and n:
                # cons onto what the slot shares with the end of c
                k = 0
                old = list(src.content)
                while k < min(n, len(old)) and old[len(old) - 1 - k] == c[n - 1 - k]:
                    k += 1
                l = src.v
                for _ in range(len(old) - k):
                    l = l.rest
                for x in reversed(els[:n - k]):
                    l = l.cons(x)
                return l
            if how == 3:
                return lib.plist(els, reverse=False)
            if how == 4:
                return lib.plist(reversed(els), reverse=True)
            if how == 5:
                return lib.plist(reversed(els)).reverse()
            return lib.plist(els[n // 2:]).mcons(reversed(els[:n // 2]))
        # pdeque
        ml = r.choice((None, None, n, n + 1, n + 7))
        if how == 0:
            return lib.pdeque(els, maxlen=ml)
        if how == 1:
            d = lib.pdeque([], maxlen=ml)
            for x in els:
                d = d.append(x)
            return d
        if how == 2:
            d = lib.pdeque([])
            for x in reversed(els):
                d = d.appendleft(x)
            return d
        if how == 3:
            d = lib.pdeque(els)
            k = r.randrange(n + 1)
            return lib.pdeque(els[k:] + els[:k], maxlen=ml).rotate(k)
        if how == 4:
            return lib.pdeque(els + els[:2]).pop(min(2, n))
        if how == 5:
            return lib.pdeque([1, 2] + els, maxlen=n) if n else lib.pdeque()
        k = r.randrange(n + 1)
        return lib.pdeque(els[k:]).extendleft(reversed(els[:k]))

    def make_map(self, kind, c, r, src):
        lib = self.lib
        if kind == 'items':
            return self.make_map('pmap', c, r, src and Slot('pmap', src.v._map, src.content)).items()
        if kind == 'erec':
            it = [(FLD[k], self.el(v, r)) for k, v in c]
        elif self.cfg.get('reckeys'):
            it = [(FLD[k], self.el(v, r)) for k, v in c]
        else:
            it = [(self.el(k, r), self.el(v, r)) for k, v in c]
        order = list(range(len(it)))
        r.shuffle(order)
        if kind == 'dict':
            return dict(it[i] for i in order)
        n = len(it)
        how = r.randrange(7)

        def key(k):
            return FLD[k] if kind == 'erec' or self.cfg.get('reckeys') else self.el(k, r)
        if src is not None and how < 4:
            m = src.v
            old = dict(src.content)
            new = dict((k, v) for k, v in c)
            todo = [k for k in old if k not in new] + [c[i][0] for i in order]
            todo.sort(key=lambda k: (k * 37 + 11) % 17)
            byc = dict((c[i][0], it[i]) for i in order)
            e = m.evolver() if how < 2 else None
            for k in todo:
                if k not in new:
                    if e is not None:
                        del e[key(k)]
                    else:
                        m = m.remove(key(k)) if r.random() < 0.5 else m.discard(key(k))
                elif k not in old or old[k] != new[k] or r.random() < 0.1:
                    kk, vv = byc[k]
                    if e is not None:
                        e[kk] = vv
                    else:
                        m = m.set(kk, vv)
            return e.persistent() if e is not None else m
        if kind == 'erec':
            d = dict(it[i] for i in order)
            if how < 5:
                return ERec(**d)
            x = ERec()
            for i in order:
                x = x.set(*it[i])
            return x
        if kind == 'emap':
            d = dict(it[i] for i in order)
            if how < 4:
                return EMap(d)
            x = EMap({})
            for i in order:
                x = x.set(*it[i])
            return x
        if how == 0:
            return lib.pmap(dict(it[i] for i in order), r.choice((0, 1, 3, 8, 64)))
        if how == 1:
            m = lib.pmap()
            for i in order:
                m = m.set(*it[i])
            return m
        if how == 2:
            e = lib.pmap({}, r.choice((0, 8, 100))).evolver()
            for i in order:
                e[it[i][0]] = it[i][1]
            return e.persistent()
        if how == 3:
            k = r.randrange(n + 1)
            return lib.pmap(dict(it[i] for i in order[:k])).update(dict(it[i] for i in order[k:]))
        if how == 4:
            # wrong values first
            m = lib.pmap(dict((it[i][0], 'x') for i in order))
            for i in reversed(order):
                m = m.set(*it[i])
            return m
        if how == 5:
            xs = [-3, -4, -5] if not self.cfg.get('reckeys') else ['x', 'y', 'z']
            m = lib.pmap(dict([(x, 1) for x in xs] + [it[i] for i in order]))
            for x in xs:
                m = m.remove(x)
            return m
        return lib.pmap([it[i] for i in order][:n // 2]) + dict([it[i] for i in order][n // 2:])

    def make_set(self, kind, c, r, src):
        lib = self.lib
        els = [self.el(x, r) for x in c]
        order = list(range(len(els)))
        r.shuffle(order)
        l = [els[i] for i in order]
        if kind == 'set':
            return set(l)
        if kind == 'frozenset':
            return frozenset(l)
        if kind == 'keys':
            m = lib.pmap(dict((x, r.randrange(5)) for x in l))
            x = m.keys()
            return x
        how = r.randrange(6)
        if src is not None and how < 4:
            s = src.v
            new = set(c)
            e = s.evolver() if how < 2 else None
            gone = [k for k in sorted(src.content) if k not in new]
            add = [i for i in order if c[i] not in src.content or r.random() < 0.1]
            for k in gone:
                x = self.el(k, r)
                if e is not None:
                    e.remove(x)
                else:
                    s = s.remove(x) if r.random() < 0.5 else s.discard(x)
            for i in add:
                if e is not None:
                    e.add(els[i])
                else:
                    s = s.add(els[i])
            return e.persistent() if e is not None else s
        mk = lib.pset if kind == 'pset' else ESet
        if how < 2:
            return mk(l)
        if how == 2:
            s = mk([])
            for x in l:
                s = s.add(x)
            return s
        if how == 3:
            return mk(l[:len(l) // 2]).update(l[len(l) // 2:] + l[:1])
        if how == 4:
            return mk(l + [-3, -4]).remove(-3).discard(-4)
        if kind == 'pset':
            return lib.pset(l[:len(l) // 2]) | lib.pset(l[len(l) // 3:])
        return mk(lib.pset(l))

    def make_bag(self, c, r, src):
        lib = self.lib
        els = [self.el(x, r) for x in c]
        r.shuffle(els)
        how = r.randrange(4)
        if src is not None and how < 3:
            b = src.v
            old = list(src.content)
            new = list(c)
            for x in list(old):
                if x in new:
                    new.remove(x)
                    continue
                b = b.remove(self.el(x, r))
            for x in new:
                b = b.add(self.el(x, r))
            return b
        if how == 0:
            return lib.pbag(els)
        if how == 1:
            b = lib.pbag([])
            for x in els:
                b = b.add(x)
            return b
        if how == 2:
            k = r.randrange(len(els) + 1)
            return lib.pbag(els[:k]).update(els[k:])
        return lib.pbag(els + els[:2]) - lib.pbag(els[:2])

    def make_cls(self, kind, c, r, src):
        cls = {'cls': EKls, 'clssub': EKlsSub, 'clsre': EKlsRe, 'clsmore': EKlsMore}[kind]
        it = [(FLD[k], self.el(v, r)) for k, v in c]
        r.shuffle(it)
        how = r.randrange(4)
        if src is not None and how < 3:
            x = src.v
            have = dict(c)
            for k, v in sorted(src.content):
                if k not in have:
                    x = x.remove(FLD[k])
            if how == 0:
                return x.set(**dict(it))
            if how == 1:
                e = x.evolver()
                for k, v in it:
                    e[k] = v
                return e.persistent()
            for k, v in it:
                x = x.set(k, v)
            return x
        if how == 0:
            x = cls()
            for k, v in it:
                x = x.set(k, v)
            return x
        return cls(**dict(it))

    # ------------------------------------------------------------------ operations
    def fail(self, msg, sig):
        self.sim.violate('C10', msg, sig)

    def bad_exc(self, got, fault, what):
        """An exception that the run did not inject."""
        if got[0] != 'exc':
            return False
        if fault is not None and got[1] is fault:
            return True
        self.fail('%s raised %s: %s' % (what, type(got[1]).__name__, got[1]), 'C10:raise')
        return True

    def op_build(self, task, o):
        kind, c = o['k'], o['c']
        g = GROUP[kind]
        r = random.Random(o['h'])
        same = [s for s in self.slots if s.kind == kind]
        src = None
        if same and r.random() < 0.6:
            src = same[o['t'] % len(same)]
        got, fault = self.real(task, o, lambda: self.make(kind, c, r, src))
        self.sim.event('build', kind, got[0])
        if got[0] == 'exc':
            if fault is None or got[1] is not fault:
                self.fail('building a %s raised %s: %s' % (kind, type(got[1]).__name__, got[1]), 'C10:build')
            return
        s = Slot(kind, got[1], canon(g, c))
        if src is not None and src.hashed:
            self.sim.probe('built from a hashed %s' % kind)
        self.add(s)

    def add(self, s):
        if len(self.slots) >= self.cfg['cap']:
            self.slots.pop(0)
        self.slots.append(s)

    def op_copy(self, task, o):
        if not self.slots:
            return
        s = self.slots[o['t'] % len(self.slots)]
        if s.kind in ('items', 'keys'):
            return
        h = o['h'] % 3
        f = (lambda: copy.copy(s.v)) if h == 0 else (lambda: copy.deepcopy(s.v)) if h == 1 else (lambda: pickle.loads(pickle.dumps(s.v, 2 + o['h'] % 4)))
        got, fault = self.real(task, o, f)
        if got[0] == 'ok':
            n = Slot(s.kind, got[1], s.content)
            self.add(n)
        else:
            self.bad_exc(got, fault, 'copying a %s' % s.kind)

    def hgroup(self, s):
        return GROUP[s.kind]

    def op_hash(self, task, o):
        ss = [s for s in self.slots if s.kind not in UNHASHABLE]
        if not ss:
            return
        s = ss[o['t'] % len(ss)]
        got, fault = self.real(task, o, lambda: hash(s.v))
        self.sim.event('hash', s.kind, got[0])
        if self.bad_exc(got, fault, 'hashing a %s' % s.kind):
            return
        self.judge_hash(s, got[1])

    def judge_hash(self, s, h):
        s.hashed = True
        k = (s.kind if GROUP[s.kind] == 'cls' else GROUP[s.kind], s.content)
        if self.h.setdefault(k, h) != h:
            self.fail('two %s values with the same contents (the later one a %s) have different hashes' % (GROUP[s.kind], s.kind), 'C10:hash')

    def expect(self, a, b):
        """True / False / None (only symmetry is required)"""
        ga, gb = GROUP[a.kind], GROUP[b.kind]
        if ga != gb:
            return None
        if ga == 'cls' and a.kind != b.kind and a.content == b.content:
            return None         # related classes: free to differ, if symmetric and with equal hashes when equal
        return a.content == b.content

    def op_cmp(self, task, o):
        a, b = self.two(o)
        if a is None:
            return
        mode = o['h'] % 3
        va, vb = a.v, b.v
        got, fault = self.real(task, o, (lambda: (va == vb)) if mode == 0 else (lambda: va != vb) if mode == 1 else lambda: self.member(va, vb))
        self.sim.event('cmp', a.kind, b.kind, got[0])
        if 'pbag' in (a.kind, b.kind) and a.kind != b.kind:
            return
        if mode == 2 and (a.kind in UNHASHABLE or b.kind in UNHASHABLE):
            return
        if self.bad_exc(got, fault, 'comparing a %s and a %s' % (a.kind, b.kind)):
            return
        e = self.expect(a, b)
        if e is None:
            return
        r = got[1] if mode != 1 else not got[1]
        if r is not True and r is not False:
            self.fail('comparing a %s and a %s gives %r' % (a.kind, b.kind, r), 'C10:type')
        if r != e:
            self.fail('a %s and a %s with %s contents %s' % (a.kind, b.kind, 'equal' if e else 'different',
                                                             ('compare equal' if r else 'compare unequal') if mode < 2 else
                                                             ('find each other as keys' if r else 'do not find each other as keys')), 'C10:eq')

    def member(self, va, vb):
        return vb in {va: 1} and vb in self.lib.pmap({va: 1}) and vb in self.lib.pset([va])

    def two(self, o):
        if not self.slots:
            return None, None
        a = self.slots[o['t'] % len(self.slots)]
        c = self.slots
        if o['h'] % 7:
            c = [s for s in self.slots if GROUP[s.kind] == GROUP[a.kind]]
            if o['h'] % 5 > 1:
                c = [s for s in c if s.content == a.content]
        return a, c[(o['h'] // 35) % len(c)]

    def finish(self):
        """every pair, without faults"""
        with quiet():
            order = list(self.slots)
            random.Random(len(order)).shuffle(order)
            half = len(order) // 2
            self.pairs(order[:12])
            for s in order:
                if s.kind not in UNHASHABLE:
                    self.judge_hash(s, hash(s.v))
            self.pairs(order)

    def pairs(self, ss):
        for i, a in enumerate(ss):
            for b in ss[i:]:
                if 'pbag' in (a.kind, b.kind) and a.kind != b.kind:
                    continue
                try:
                    x, y = a.v == b.v, b.v == a.v
                    nx, ny = a.v != b.v, b.v != a.v
                except Exception as e:
                    self.fail('comparing a %s and a %s raised %s: %s' % (a.kind, b.kind, type(e).__name__, e), 'C10:raise')
                    return
                if bool(x) != bool(y):
                    self.fail('%s == %s is %r but the other way round %r' % (a.kind, b.kind, x, y), 'C10:symmetry')
                if bool(nx) == bool(x) or bool(ny) == bool(y):
                    self.fail('%s == %s and != give the same' % (a.kind, b.kind), 'C10:ne')
                e = self.expect(a, b)
                if e is not None and bool(x) != e:
                    self.fail('a %s and a %s with %s contents compare %s' % (a.kind, b.kind, 'equal' if e else 'different', 'equal' if x else 'unequal'), 'C10:eq')
                if x and a.kind not in UNHASHABLE and b.kind not in UNHASHABLE and hash(a.v) != hash(b.v):
                    self.fail('a %s and a %s compare equal but their hashes differ' % (a.kind, b.kind), 'C10:hash')


RUN['eq'] = runner(Eq)


# ---------------------------------------------------------------------- plans
def near(r, c, codes, fields=None):
    """A content differing slightly from c."""
    c = [list(x) if isinstance(x, list) else x for x in c]
    x = r.randrange(5)
    pairs = fields is not None or (c and isinstance(c[0], list))
    if pairs:
        if x == 0 and c:
            c[r.randrange(len(c))][1] = r.choice(codes)
        elif x == 1 and c:
            del c[r.randrange(len(c))]
        elif x == 2 and len(c) > 1:
            i, j = r.sample(range(len(c)), 2)
            c[i][1], c[j][1] = c[j][1], c[i][1]
        elif x == 3 and c:
            have = set(k for k, v in c)
            free = [k for k in (fields or codes) if k not in have]
            if free:
                c[r.randrange(len(c))][0] = r.choice(free)
        else:
            have = set(k for k, v in c)
            free = [k for k in (fields or codes) if k not in have]
            if free:
                c.append([r.choice(free), r.choice(codes)])
        return c
    if x == 0 and c:
        c[r.randrange(len(c))] = r.choice(codes)
    elif x == 1 and c:
        del c[r.randrange(len(c))]
    elif x == 2 and len(c) > 1:
        i, j = r.sample(range(len(c)), 2)
        c[i], c[j] = c[j], c[i]
    elif x == 3 and c:
        c.append(c[-1])
    else:
        c.append(r.choice(codes))
    return c


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C10']}
    sched_cfg(r, cfg, r.choice((0, 1, 1, 2)))
    cfg['mix'] = r.choice(('keys', 'keys', 'keys', 'num', 'strs', 'nested', 'nan'))
    cfg['hash'] = r.choice(A.HASH_MODES)
    cfg['cap'] = r.choice((8, 16, 28))
    if r.random() < 0.6:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.005, 0.03, 0.1))
        cfg['max_faults'] = 30
    if cfg.get('instr') and r.random() < 0.4:
        cfg['interrupts'] = 1
        cfg['i_int'] = r.choice((0.02, 0.1))
    ncodes = r.choice((4, 8, 16, 40))
    codes = list(range(ncodes))
    groups = [g for g in BYGROUP if g != 'tuple']
    if r.random() < 0.75:
        groups = r.sample(groups, r.choice((1, 1, 2)))
    if 'map' in groups and r.random() < 0.3:
        cfg['reckeys'] = 1
    fam = {}
    for g in groups:
        n = r.choice((0, 1, 2, 3, 6, 12, 20, 40))
        if g in ('seq', 'plist', 'pdeque', 'bag'):
            if g == 'seq' and r.random() < 0.2:
                n = r.choice((31, 32, 33, 64, 65) if cfg.get('instr') else (31, 32, 33, 64, 65, 1025, 1057))
            base = [r.choice(codes) for _ in range(n)]
        elif g == 'set':
            base = r.sample(codes, min(n, ncodes))
        elif g == 'cls':
            base = [[k, r.choice(codes)] for k in r.sample(range(3), r.choice((0, 1, 2, 3, 3, 3)))]
        else:
            ks = r.sample(codes, min(n, ncodes))
            if cfg.get('reckeys'):
                ks = r.sample(range(6), min(n, 6))
            base = [[k, r.choice(codes)] for k in ks]
        flds = (list(range(6)) if cfg.get('reckeys') else codes) if g in ('map', 'items') else list(range(3)) if g == 'cls' else None
        cs = [base]
        for _ in range(r.choice((1, 2, 4))):
            c = near(r, r.choice(cs), codes, flds)
            if g == 'set':
                c = sorted(set(c))
            cs.append(c)
        fam[g] = cs
    kinds = [k for k in GROUP if GROUP[k] in fam and (k != 'erec' or cfg.get('reckeys'))]
    if 'seq' in fam and r.random() < 0.3:
        kinds.append('tuple')
    w = {'build': 5, 'hash': 2, 'cmp': 3, 'copy': 0.7}
    names, ws = list(w), list(w.values())
    tasks = []
    for t in range(r.choice((1, 2, 2, 3))):
        ops = []
        for i in range(r.choice((12, 25, 45))):
            n = r.choices(names, ws)[0] if i > 2 else 'build'
            o = {'o': n, 't': r.randrange(1 << 16), 'h': r.randrange(1 << 30)}
            if n == 'build':
                o['k'] = r.choice(kinds)
                g = GROUP[o['k']]
                o['c'] = r.choice(fam['seq' if g == 'tuple' else g])
                if g in ('map', 'items', 'set'):    # the order of insertion is free
                    o['c'] = r.sample(o['c'], len(o['c']))
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'eq', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C10'] = plan
