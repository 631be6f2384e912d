"""C09: lifetime of contained objects.

The elements are tokens the harness only knows by weak reference.  The model of every live collection, evolver and
iterator is the list of token numbers in it; from these follow the tokens that must be alive and those that may be.
"""
import gc
import random
import sys
import weakref

from dst import decl as D
from dst.sim import quiet, cb, SimFault
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P


class Tok(object):
    """An element.  May hold a reference (to build cycles) and run an action when it dies."""
    __slots__ = ('uid', 'ref', 'act', '__weakref__')
    world = None

    def __init__(self, uid):
        self.uid = uid
        self.ref = None
        self.act = None

    def __hash__(self):
        cb('hash')
        return self.uid * 7 % 64

    def __eq__(self, o):
        cb('eq')
        return self is o

    def __repr__(self):
        return 'T%d' % self.uid

    def __del__(self):
        if self.act is not None:
            a, self.act = self.act, None
            Tok.world.finalizer(self.uid, a)


class LVec(P.CheckedPVector):
    __type__ = Tok


class LSet(P.CheckedPSet):
    __type__ = Tok


class LMap(P.CheckedPMap):
    __key_type__ = int
    __value_type__ = Tok


class LRec(P.PRecord):
    a = P.field()
    b = P.field()
    c = P.field()


class LCls(P.PClass):
    a = P.field()
    b = P.field()
    c = P.field()


ORDERED = ('vec', 'pyvec', 'list', 'deque', 'lvec', 'nest')
KINDS = ('vec', 'vec', 'vec', 'vec', 'pyvec', 'list', 'deque', 'map', 'mapk', 'set', 'bag', 'lvec', 'lset', 'lmap', 'rec', 'cls', 'nest')
SIZES = (0, 1, 2, 3, 5, 31, 32, 33, 34, 40, 64, 65, 70, 1024, 1055, 1056, 1057, 1060, 1088, 1089, 2100)


def build(lib, kind, toks):
    if kind == 'vec':
        return lib.pvector(toks)
    if kind == 'pyvec':
        return lib.python_pvector(toks)
    if kind == 'list':
        return lib.plist(toks)
    if kind == 'deque':
        return lib.pdeque(toks)
    if kind == 'map':
        return lib.pmap(dict(enumerate(toks)))
    if kind == 'mapk':
        return lib.pmap(dict((t, 1) for t in toks))
    if kind == 'set':
        return lib.pset(toks)
    if kind == 'bag':
        return lib.pbag(toks)
    if kind == 'lvec':
        return LVec(toks)
    if kind == 'lset':
        return LSet(toks)
    if kind == 'lmap':
        return LMap(dict(enumerate(toks)))
    if kind in ('rec', 'cls'):
        return (LRec if kind == 'rec' else LCls)(**dict(zip('abc', toks)))
    if kind == 'nest':      # vectors in a map in a vector
        k = len(toks) // 2
        return lib.v(lib.m(x=lib.pvector(toks[:k])), lib.m(x=lib.pvector(toks[k:])))
    raise ValueError(kind)


def read(kind, v):
    """uids in order"""
    if kind in ('map', 'lmap'):
        return [t.uid for t in v.values()]
    if kind == 'mapk':
        return [t.uid for t in v]
    if kind in ('rec', 'cls'):
        return [getattr(v, k).uid for k in 'abc' if hasattr(v, k)]
    if kind == 'nest':
        return [t.uid for m in v for t in m['x']]
    return [t.uid for t in v]


class Slot(object):
    __slots__ = ('kind', 'v', 'uids', 'maybe', 'fresh', 'idx')

    def __init__(self, kind, v, uids, fresh=False):
        self.kind, self.v, self.uids, self.fresh = kind, v, uids, fresh
        self.maybe = ()
        self.idx = None
        w = Tok.world
        if w is not None and uids and kind not in ('it', 'ev'):
            w.watch(v)


class Raising(object):
    """An iterable of new tokens that fails after k of them."""
    def __init__(self, w, n, k):
        self.w, self.n, self.k = w, n, k
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        cb('next')
        if self.i == self.k:
            raise SimFault('iterable')
        if self.i >= self.n:
            raise StopIteration
        self.i += 1
        return self.w.tok()


class Reentrant(object):
    """An iterable of tokens that uses the evolver it is given to after k of them."""
    def __init__(self, ts, k, act):
        self.ts, self.k, self.act = ts, k, act
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        cb('next')
        if self.i == self.k:
            self.act()
            self.act = None
        if self.i >= len(self.ts):
            raise StopIteration
        self.i += 1
        return self.ts[self.i - 1]


class Life(Base):
    def setup(self):
        Tok.world = self
        self.n = 0
        self.ref = {}           # uid -> weakref
        self.slots = []         # collections
        self.evs = {}           # (task, slot) -> Slot with evolver
        self.its = {}
        self.loose = set()      # uids of tokens reachable from cycles that share structure
        self.infin = 0
        self.touch = {}         # task -> evolver being updated
        self.snaps = {}
        self.weak = []          # weak references to collections
        self.told = 0           # of their callbacks, how many were called
        self.wrote = {}         # task -> tokens added to the evolver from within finalizers
        for k, n in self.cfg['seeds']:
            self.new_slot(k, n)

    def tok(self):
        self.n += 1
        t = Tok(self.n)
        self.ref[self.n] = weakref.ref(t)
        if self.cfg.get('fin') and self.n % self.cfg['fin'] == 0:
            t.act = (self.n * 2654435761 >> 8) % 1000
        return t

    def toks(self, n):
        return [self.tok() for _ in range(n)]

    def new_slot(self, kind, n, fresh=False):
        if kind in ('rec', 'cls'):
            n = min(n, 3)
        if kind not in ('vec', 'pyvec', 'nest', 'lvec'):
            n = min(n, 70)
        ts = self.toks(n)
        uids = [t.uid for t in ts]
        v = build(self.lib, kind, ts)
        del ts
        s = Slot(kind, v, uids, fresh)
        self.keep(s)
        return s

    def watch(self, v):
        """A weak reference to a collection, if there can be one."""
        if len(self.weak) < 60:
            try:
                r = weakref.ref(v, self.tell if len(self.weak) % 3 == 0 else None)
            except TypeError:
                return
            self.weak.append(r)
            self.sim.stat('weakref')

    def tell(self, r):
        self.told += 1

    def keep(self, s):
        if len(self.slots) >= self.cfg['cap']:
            i = s.uids[0] % len(self.slots) if s.uids else 0
            self.slots[i] = s       # the old one dies here
        else:
            self.slots.append(s)

    def pick(self, o, kinds=None):
        c = [s for s in self.slots if kinds is None or s.kind in kinds]
        return c[o['t'] % len(c)] if c else None

    # ------------------------------------------------------------------ finalizers
    def finalizer(self, uid, a):
        """User code run while the library releases something: reads, writes, allocates, drops, yields."""
        sim = self.sim
        if self.infin > 3 or sim.stopping:
            return
        me = sim.cur.idx if sim.cur is not None else None
        sim.stat('finalizer')
        self.infin += 1
        q = sim.quiet
        try:
            k = a % 7
            if k == 0:
                sim.quiet = True        # no switch in the middle of a collection: it would disable all others
                gc.collect()
                sim.stat('finalizer.gc')
            elif k == 1 and me in self.touch:
                # read the evolver being updated right now
                ev, n = self.touch[me]      # (of this thread: evolvers are not shared between threads)
                m = len(ev)
                if m:
                    ev[a % m]
                    ev[m - 1]
                    ev[-1]
                sim.stat('finalizer.read_evolver')
            elif k == 2 and me in self.touch:
                ev, n = self.touch[me]
                p = ev.persistent()
                l = [t.uid for t in p]
                self.snaps[me].append((p, l))
                sim.stat('finalizer.persist_evolver')
            elif k == 6 and me in self.wrote:
                # update the evolver being updated right now
                ev, n = self.touch[me]
                t = self.tok()
                t.act = None
                self.wrote[me].append(t.uid)
                ev.append(t)
                sim.stat('finalizer.write_evolver')
            elif k == 3:
                # churn the node cache
                x = self.lib.pvector(range(40 + a % 40))
                y = x.append(3).set(0, 5)
                del x, y
                sim.stat('finalizer.churn')
            elif k == 4 and self.slots:
                s = self.slots[a % len(self.slots)]
                if s.kind == 'vec':
                    read('vec', s.v)
                sim.stat('finalizer.read')
            elif k == 5:
                if not q:
                    f, sim.cur.faultable = sim.cur.faultable, False      # nothing can surface from a finalizer
                    me = sim.cur
                    try:
                        sim.quiet = False
                        cb('finalizer')
                    finally:
                        me.faultable = f
                sim.stat('finalizer.yield')
        finally:
            sim.quiet = q
            self.infin -= 1

    # ------------------------------------------------------------------ oracle
    def fail(self, msg, sig):
        self.sim.violate('C09', msg, sig)

    def alive(self, u):
        return self.ref[u]() is not None

    def check(self, o, full=True):
        # 1. everything contained is alive: judged by weak references before anything is read
        must = set()
        maybe = set()
        holders = self.slots
        for s in holders:
            must.update(s.uids)
            maybe.update(s.maybe)
        for s in self.its.values():     # what an iterator has passed, it may release
            must.update(s.uids[s.idx:])
            maybe.update(s.uids)
            maybe.update(s.maybe)
        for k, s in self.evs.items():
            if k in self.touch:         # in the middle of an update
                maybe.update(s.uids)
            else:
                must.update(s.uids)
                maybe.update(s.maybe)
        for u in must:
            if self.ref[u]() is None:
                self.fail('object %d died while a live collection contains it (after %s)' % (u, o['o']), 'C09:early')
                return
        # 2. contents intact, and weak references in step with the collections
        for r in self.weak:
            x = r()
            if x is not None:
                type(x), len(x) if hasattr(type(x), '__len__') else 0
        x = None
        if full:
            for s in self.slots:
                self.intact(s, o)
        # 3. nothing else is alive, once no operation is in progress
        if self.inflight == 0:
            extra = self.extra(must, maybe)
            if extra:
                gc.collect()
                extra = self.extra(must, maybe)
                if extra:
                    self.fail('objects %s are still alive although nothing holds them (after %s)' % (sorted(extra)[:5], o['o']), 'C09:leak')
            for u in [u for u in self.ref if u not in must and u not in maybe and u not in self.loose]:
                del self.ref[u]

    def extra(self, must, maybe):
        return [u for u, r in self.ref.items() if u not in must and u not in maybe and u not in self.loose and r() is not None]

    def intact(self, s, o):
        try:
            got = read(s.kind, s.v)
        except Exception as e:
            self.fail('reading a %s after %s raised %r' % (s.kind, o['o'], e), 'C09:content')
            return
        if s.kind not in ORDERED:
            ok = sorted(got) == sorted(s.uids)
        else:
            ok = got == s.uids
        if not ok:
            self.fail('a %s of %d elements changed (after %s)' % (s.kind, len(s.uids), o['o']), 'C09:content')

    # ------------------------------------------------------------------ operations
    def run(self, task, o, fn):
        """-> outcome without keeping the exception (and its frames) alive"""
        got, fault = self.real(task, o, fn)
        if got[0] == 'exc':
            e = got[1]
            name = type(e).__name__
            if isinstance(e, (SystemError, MemoryError)) and not isinstance(e, SimFault):
                self.fail('%s raised %s: %s' % (o['o'], name, e), 'C09:error')
            while e is not None:        # exceptions keep frames, and these the objects, alive
                e.__traceback__ = None
                e = e.__context__
            return ('exc', name)
        return got

    def op_new(self, task, o):
        kind, n = o['a']
        self.new_slot(kind, n)

    def after(self, task, o):
        if task.fault is not None:
            task.fault.__traceback__ = None
            task.fault = None
        self.sim.event(o['o'], task.idx, len(self.slots))
        self.check(o, full=self.cfg.get('full', True))

    def op_drop(self, task, o):
        if self.slots:
            i = o['t'] % len(self.slots)
            s = self.slots.pop(i)
            got, _ = self.real(task, o, lambda: self.release(s))
            del s

    def release(self, s):
        s.v = None
        s.uids = ()
        s.maybe = ()

    def op_gc(self, task, o):
        self.sim.stat('gc')
        gc.collect()

    def derived(self, src, v, uids):
        self.keep(Slot(src.kind, v, uids))

    def op_vecop(self, task, o):
        """one derivation from a vector-like value"""
        s = self.pick(o, ('vec', 'pyvec', 'lvec'))
        if s is None:
            return
        what, r = o['a']
        v, u = s.v, s.uids
        n = len(u)
        lib = self.lib
        src = s
        exp = None
        ts = []
        if what == 'append':
            ts = self.toks(1)
            fn = lambda: v.append(ts[0])
            exp = u + [t.uid for t in ts]
        elif what == 'extend':
            ts = self.toks(r % 70)
            fn = lambda: v.extend(ts)
            exp = u + [t.uid for t in ts]
        elif what == 'extendit':
            ts = self.toks(r % 40)
            fn = lambda: v.extend(iter(ts))
            exp = u + [t.uid for t in ts]
        elif what == 'plus':
            q = self.pick({'t': r}, ('vec',))
            if q is None or len(q.uids) > 200:
                return
            w = q.v
            fn = lambda: v + w
            exp = u + q.uids
        elif what == 'set' and n:
            i = r % n
            ts = self.toks(1)
            fn = lambda: v.set(i - (n if r & 1 else 0), ts[0])
            exp = u[:i] + [ts[0].uid] + u[i + 1:]
        elif what == 'mset' and n:
            ts = self.toks(2)
            i, j = r % n, (r * 7) % n
            fn = lambda: v.mset(i, ts[0], j, ts[1])
            exp = list(u)
            exp[i] = ts[0].uid
            exp[j] = ts[1].uid
        elif what == 'delete' and n:
            i = r % n
            fn = lambda: v.delete(i)
            exp = u[:i] + u[i + 1:]
        elif what == 'slice' and n:
            i, j = r % n, r * 5 % (n + 1)
            fn = lambda: v[i:j]
            exp = u[i:j]
        elif what == 'mul' and n < 50:
            fn = lambda: v * 2
            exp = u * 2
        elif what == 'remove' and n:
            i = r % n
            x = self.ref[u[i]]
            fn = lambda: v.remove(x())
            k = u.index(u[i])
            exp = u[:k] + u[k + 1:]
        elif what == 'transform' and n:
            i = r % n
            ts = self.toks(1)
            fn = lambda: v.transform([i], lambda _: ts[0])
            exp = u[:i] + [ts[0].uid] + u[i + 1:]
        elif what == 'read' and n:
            i = r % n
            fn = lambda: (v[i], v[-1], len(v), v.count(v[i]), v.index(v[i]), repr(v[:2]), v == v, hash(v[:3]), v.tolist()) and None
        elif what == 'fail':
            fn = lambda: v.extend(Raising(self, r % 80, r % 37))
        elif what == 'failnew':
            fn = lambda: lib.pvector(Raising(self, r % 80, r % 75))
            s = Slot('vec', None, [])
        elif what == 'badindex':
            t = self.tok()
            fn = lambda: v.set(n + 5, t)
        elif what == 'badtype':
            fn = lambda: v.extend(5)
        elif what == 'badadd':
            fn = lambda: v + 5
        else:
            return
        got = self.run(task, o, fn)
        fn = None
        t = None
        x = None
        del ts
        if got[0] == 'ok' and exp is not None:
            kind = s.kind
            val = got[1]
            if kind == 'lvec' and type(val) is not LVec:
                kind = 'pyvec'
            self.keep(Slot(kind, val, exp))
            val = None
        elif got[0] == 'ok' and what in ('fail', 'failnew'):
            val = got[1]
            kind = 'vec' if what == 'failnew' else s.kind
            self.keep(Slot(kind, val, [t.uid for t in val]))
            val = None
        got = None
        v = w = q = None

    def op_otherop(self, task, o):
        """one derivation from any other kind; the new content is read back and becomes the model"""
        s = self.pick(o, ('list', 'deque', 'map', 'mapk', 'set', 'bag', 'lset', 'lmap', 'rec', 'cls', 'nest'))
        if s is None:
            return
        r = o['a'][1]
        k = s.kind
        v, u = s.v, s.uids
        t = self.tok()
        tu = t.uid
        lib = self.lib
        n = len(u)
        exp = None
        if k == 'list':
            fn, exp = ((lambda: v.cons(t), [tu] + u), (lambda: v.reverse(), u[::-1]), (lambda: v.rest, u[1:]), (lambda: v.mcons([t]), [tu] + u))[r % 4]
        elif k == 'deque':
            fn, exp = ((lambda: v.append(t), u + [tu]), (lambda: v.appendleft(t), [tu] + u), (lambda: v.pop(), u[:-1]), (lambda: v.popleft(), u[1:]),
                       (lambda: v.rotate(1), u[-1:] + u[:-1]), (lambda: v.extend([t]), u + [tu]))[r % 6]
            if n == 0 and r % 6 in (2, 3):
                return
        elif k in ('map', 'lmap'):
            if r % 4 == 0 or n == 0:
                fn, exp = (lambda: v.set(1000 + r, t)), u + [tu]
                if 1000 + r in v:
                    return
            elif r % 4 == 1:
                key = sorted(v.keys())[r % n]
                old = v[key].uid
                fn, exp = (lambda: v.set(key, t)), [x for x in u if x != old] + [tu]
                if u.count(old) > 1:
                    return
            elif r % 4 == 2:
                key = sorted(v.keys())[r % n]
                old = v[key].uid
                if u.count(old) > 1:
                    return
                fn, exp = (lambda: v.remove(key)), [x for x in u if x != old]
            else:
                fn, exp = (lambda: v.update({5000 + r: t})), u + [tu]
                if 5000 + r in v:
                    return
        elif k == 'mapk':
            if r % 2 or n == 0:
                fn, exp = (lambda: v.set(t, r)), u + [tu]
            else:
                x = self.ref[u[r % n]]
                fn, exp = (lambda: v.remove(x())), [y for y in u if y != u[r % n]]
        elif k in ('set', 'lset', 'bag'):
            if r % 2 or n == 0:
                fn, exp = (lambda: v.add(t)), u + [tu]
            else:
                x = self.ref[u[r % n]]
                fn, exp = (lambda: v.remove(x())), [y for y in u if y != u[r % n]]
        elif k in ('rec', 'cls'):
            old = [getattr(v, 'a').uid] if hasattr(v, 'a') else []
            fn, exp = (lambda: v.set(a=t)), [tu] + u[len(old):]
        elif k == 'nest':
            fn, exp = (lambda: v.transform([0, 'x'], lambda q: q.append(t))), None
            a = len(v[0]['x'])
            exp = u[:a] + [tu] + u[a:]
        got = self.run(task, o, fn)
        fn = t = x = None
        if got[0] == 'ok':
            self.keep(Slot(k, got[1], exp))
        got = None
        v = None

    # -- evolvers
    def op_evnew(self, task, o):
        s = self.pick(o, ('vec', 'pyvec', 'lvec'))
        if s is None:
            return
        v, u = s.v, s.uids
        got = self.run(task, o, lambda: v.evolver())
        v = None
        if got[0] == 'ok':
            e = Slot('ev', got[1], list(u))
            e.maybe = set(u)
            self.evs[task.idx] = e
        got = None

    def op_evop(self, task, o):
        e = self.evs.get(task.idx)
        if e is None:
            return
        what, r = o['a']
        ev, u = e.v, e.uids
        n = len(u)
        before = list(u)
        self.touch[task.idx] = (ev, n)
        self.snaps[task.idx] = []
        if what in ('set', 'append', 'delete', 'persist'):      # the order is the same however these are done
            self.wrote[task.idx] = []
        idx = None
        if what == 'set' and n:
            i = idx = r % n
            t = self.tok()
            # the new token belongs to the evolver from now on; the old one is possibly held by the source
            got = self.run(task, o, lambda: ev.__setitem__(i, t))
            if got[0] == 'ok':
                u[i] = t.uid
            e.maybe.add(t.uid)
        elif what == 'append':
            t = self.tok()
            got = self.run(task, o, lambda: ev.append(t) and None)
            if got[0] == 'ok':
                u.append(t.uid)
            e.maybe.add(t.uid)
        elif what == 'extend':
            ts = self.toks(r % 45)
            got = self.run(task, o, lambda: ev.extend(ts) and None)
            if got[0] == 'ok':
                u.extend([t.uid for t in ts])
            e.maybe.update(t.uid for t in ts)
            t = ts = None
        elif what == 'extendre':
            ts = self.toks(r % 45)
            it = Reentrant(ts, r // 45 % (len(ts) + 1), lambda: self.reenter(task.idx, ev, r, e))
            got = self.run(task, o, lambda: ev.extend(it) and None)
            if got[0] == 'ok':
                u.extend([t.uid for t in ts])
            else:
                for i in range(len(u), len(ev)):
                    u.append(ev[i].uid)
            e.maybe.update(t.uid for t in ts)
            t = ts = it = None
        elif what == 'delete' and n:
            i = r % n
            got = self.run(task, o, lambda: ev.__delitem__(i))
            if got[0] == 'ok':
                del u[i]
        elif what == 'bad':
            t = self.tok()
            got = self.run(task, o, lambda: ev.__setitem__(n + 7, t))
        elif what == 'fail':
            got = self.run(task, o, lambda: ev.extend(Raising(self, r % 80, r % 37)) and None)
            for i in range(len(u), len(ev)):
                u.append(ev[i].uid)
            e.maybe.update(u)
        elif what == 'persist':
            got = self.run(task, o, lambda: ev.persistent())
            if got[0] == 'ok':
                if type(got[1]) is LVec:
                    k = 'lvec'
                else:
                    k = 'vec' if not isinstance(got[1], self.lib.PythonPVector) or self.flavor == 'py' else 'pyvec'
                self.keep(Slot(k, got[1], list(u)))
                e.maybe = set(u) | e.maybe
        else:
            del self.touch[task.idx]
            self.wrote.pop(task.idx, None)
            return
        t = None
        got = None
        del self.touch[task.idx]
        late = self.wrote.pop(task.idx, ())
        u.extend(late)
        e.maybe.update(late)
        snaps = self.snaps.pop(task.idx)
        for p, l in snaps:
            # a vector taken from within a finalizer: it must be stable, and right except at the index being written
            now = [x.uid for x in p]
            if now != l:
                self.fail('a vector obtained from an evolver inside a finalizer changed afterwards', 'C09:snapshot')
            if what == 'set':
                # from within the same finalizers, more may have been added at the end
                while len(l) > n and len(u) > n and l[-1] in u[n:]:
                    l.pop()
            if what == 'set' and len(l) == n:
                bad = [i for i in range(n) if l[i] != before[i] and i != idx]
                if bad or (idx is not None and l[idx] not in (before[idx], u[idx])):
                    self.fail('a vector obtained from an evolver inside a finalizer is wrong', 'C09:snapshot')
            elif what == 'set':
                self.fail('a vector obtained from an evolver inside a finalizer has %d elements instead of %d' % (len(l), n), 'C09:snapshot')
        p = None
        x = None
        snaps = None
        # the evolver shows what it should
        m = len(ev)
        if m != len(u):
            self.fail('the evolver has %d elements instead of %d after %s' % (m, len(u), what), 'C09:evolver')
        else:
            for i in range(0, m, 1 + m // 40):
                if ev[i].uid != u[i]:
                    self.fail('element %d of the evolver is wrong after %s' % (i, what), 'C09:evolver')
                    break
        ev = None

    def reenter(self, me, ev, r, e):
        """called by an iterable the evolver is extended with"""
        self.sim.stat('reentrant')
        k = r // 3 % 4
        if k == 0 and len(e.uids):
            t = self.tok()
            i = r % len(e.uids)
            ev[i] = t
            e.uids[i] = t.uid
            e.maybe.add(t.uid)
        elif k == 1:
            len(ev)
            if len(ev):
                ev[-1]
        else:
            p = ev.persistent()
            self.snaps[me].append((p, [t.uid for t in p]))

    def op_evdrop(self, task, o):
        e = self.evs.pop(task.idx, None)
        if e is not None:
            self.real(task, o, lambda: self.release(e))
            e = None

    # -- iterators
    def op_itnew(self, task, o):
        s = self.pick(o, ('vec', 'pyvec', 'list', 'deque'))
        if s is None:
            return
        v, u = s.v, s.uids
        got = self.run(task, o, lambda: iter(v))
        v = None
        if got[0] == 'ok':
            it = Slot('it', got[1], list(u))
            it.idx = 0
            self.its[task.idx] = it
        got = None

    def op_itstep(self, task, o):
        it = self.its.get(task.idx)
        if it is None:
            return
        for j in range(o['a'][1] % 40):
            got, _ = self.real(task, o, lambda: next(it.v).uid, sub='.%d' % j)
            if got[0] == 'exc':
                got = None
                if it.idx != len(it.uids):
                    self.fail('iterator stopped after %d of %d' % (it.idx, len(it.uids)), 'C09:iterator')
                # an exhausted iterator may or may not hold its collection
                it.maybe = set(it.uids)
                it.uids = []
                it.idx = 0
                break
            if it.idx >= len(it.uids) or got[1] != it.uids[it.idx]:
                self.fail('iterator yields %r at %d' % (got[1], it.idx), 'C09:iterator')
                break
            it.idx += 1
        it = None

    def op_itdrop(self, task, o):
        it = self.its.pop(task.idx, None)
        if it is not None:
            self.real(task, o, lambda: self.release(it))
        it = None

    # -- cycles
    def op_cycle(self, task, o):
        """a collection nothing shares structure with, in a cycle with one of its elements; then dropped"""
        kind, n, r = o['a']
        if kind in ('rec', 'cls'):
            n = max(1, min(n, 3))
        elif kind not in ('vec', 'pyvec', 'nest', 'lvec'):
            n = min(n, 70)
        n = max(1, n)
        ts = self.toks(n)
        for t in ts:
            t.act = None
        uids = [t.uid for t in ts]
        q = r % 5
        first = ts[0]
        ref = self.ref[uids[r % n]]
        if q == 0 and kind == 'vec' and n > 1:
            # built by derivation, the original dropped
            v = self.lib.pvector(ts[:-1])
            v = v.append(ts[-1])
        elif q == 1 and kind == 'vec':
            e = self.lib.pvector(ts).evolver()
            t = self.tok()
            t.act = None
            e[0] = t
            uids.append(t.uid)
            v = e.persistent()
            e = None
            if r % n == 0:
                ref = self.ref[t.uid]
        else:
            v = build(self.lib, kind, ts)
        t = None
        if q == 2:
            ref().ref = iter(v) if kind not in ('cls',) else v
        elif q == 3 and kind not in ('list', 'deque', 'bag', 'nest'):
            e = v.evolver()
            if r // 5 % 2 and kind in ('vec', 'pyvec', 'lvec', 'cvec'):
                # through an element the evolver has not put into a vector yet
                t = self.tok()
                t.act = None
                uids.append(t.uid)
                e.append(t)
                t.ref = e
                if r // 10 % 2:
                    ref().ref = e
            else:
                ref().ref = e
            e = None
        elif q == 4:
            ref().ref = [v, {1: v}]
        else:
            ref().ref = v
        ts = first = t = None
        v = None
        self.sim.stat('cycle')
        gc.collect()
        for u in uids:
            if self.ref[u]() is not None:
                self.fail('a cycle through a %s of %d elements is not reclaimed by the garbage collector' % (kind, n), 'C09:cycle')
                break

    def op_livecycle(self, task, o):
        """a cycle that is still referenced, also through a value sharing structure with it, must survive collections"""
        kind, n, r = o['a']
        s = self.pick(o, ('vec',))
        if s is None:
            return
        t = self.tok()
        t.act = None
        i = r % (len(s.uids) + 1)
        v = s.v
        v2 = v.append(t) if i == len(s.uids) else v.set(i, t)
        exp = s.uids + [t.uid] if i == len(s.uids) else s.uids[:i] + [t.uid] + s.uids[i + 1:]
        mode = r % 4
        if mode == 0:
            t.ref = (v2, v)
        elif mode == 1:
            e = v2.evolver()
            e.append(t)
            t.ref = (e, v2)
            e = None
        elif mode == 2:
            t.ref = (iter(v2), v2)
        else:
            t.ref = v2
        # a garbage cycle that shares structure with a live value need not be reclaimed, but must not be harmed either
        self.loose.update(exp)
        self.loose.update(s.uids)
        if r % 3 == 0:
            self.keep(Slot('vec', v2, exp))
        v = v2 = t = None
        gc.collect()
        self.sim.stat('livecycle')

    # -- repeated operation: growth of allocated memory
    def op_deep(self, task, o):
        """vectors with a further level in their tree: a few tokens among many numbers"""
        r = random.Random(o['a'][1])
        lib = self.lib
        with quiet():
            self.sim.event('deep')
            n = r.choice(DEEP) + r.choice((0, 0, 0, 1, 32))
            l = [0] * n
            exp = {}

            def tok():
                t = self.tok()
                t.act = None
                return t

            def place():
                return r.choice((0, 31, 32, 1023, 1024, 1056, 32767, 32768, 32769, 32799, 32800, n - 33, n - 1, r.randrange(n)))
            for i in range(6):
                p = place()
                if p < n:
                    l[p] = tok()
                    exp[p] = l[p].uid
            vals = [(lib.pvector(l), exp, n)]
            l = None
            mine = set(exp.values())
            for step in range(r.choice((4, 8, 12))):
                v, exp, k = r.choice(vals)
                exp = dict(exp)
                op = r.randrange(6)
                t = tok()
                mine.add(t.uid)
                if op == 0:
                    v = v.append(t)
                    exp[k] = t.uid
                    k += 1
                elif op == 1:
                    m = r.choice((1, 31, 32, 33, 64))
                    v = v.extend([0] * (m - 1) + [t])
                    exp[k + m - 1] = t.uid
                    k += m
                elif op == 2:
                    p = place() % k
                    v = v.set(p, t)
                    exp[p] = t.uid
                elif op == 3:
                    e = v.evolver()
                    for _ in range(r.choice((1, 3))):
                        p = place() % k
                        e[p] = t
                        exp[p] = t.uid
                    if r.random() < 0.5:
                        e.append(t)
                        exp[k] = t.uid
                        k += 1
                    v = e.persistent()
                    e = None
                elif op == 4:
                    m = r.choice((1, 20, 33))
                    for _ in range(m):
                        v = v.append(t)
                        exp[k] = t.uid
                        k += 1
                elif len(vals) > 1:
                    vals.pop(r.randrange(len(vals)))
                    v = None
                if v is not None and op != 5:
                    vals.append((v, exp, k))
                v = t = None
                self.deep_check(vals, mine)
            while vals:
                vals.pop(r.randrange(len(vals)))
                self.deep_check(vals, mine)

    def deep_check(self, vals, mine):
        held = set()
        for v, exp, k in vals:
            held.update(exp.values())
            if len(v) != k:
                return self.fail('a vector of %d elements has %d' % (k, len(v)), 'C09:deep')
            for p, u in exp.items():
                t = v[p]
                if not isinstance(t, Tok) or t.uid != u:
                    return self.fail('element %d of a vector of %d is another object' % (p, k), 'C09:deep')
                t = None
        for u in mine:
            if (self.ref[u]() is not None) != (u in held):
                return self.fail('an object is %s while %d vectors of more than 32000 elements are left' % (
                    'dead although contained' if u in held else 'alive although not contained', len(vals)), 'C09:deep')

    def op_loop(self, task, o):
        what, r = o['a']
        n = SIZES[r % len(SIZES)]
        lib = self.lib
        base = lib.pvector(range(n))
        l = list(range(r % 50))

        class Bad(object):
            def __eq__(self, x):
                raise ValueError()
            __hash__ = None
        bad = Bad()

        def bads():
            yield 1
            yield 2
            raise ValueError
        fns = {
            'new': lambda: lib.pvector(l), 'append': lambda: base.append(r), 'extend': lambda: base.extend(l), 'set': lambda: base.set(r % (n + 1), l),
            'setneg': lambda: base.set(-1 - r % (n or 1), l) if n else 0, 'mset': lambda: base.mset(r % (n + 1), 1, 0, 2), 'plus': lambda: base + base,
            'mul': lambda: base * 2, 'slice': lambda: base[1:r % (n + 1)], 'step': lambda: base[::-2], 'delete': lambda: base.delete(r % (n + 1)),
            'remove': lambda: base.remove(r % (n + 1)), 'index': lambda: base.index(r % (n + 1)), 'count': lambda: base.count(3), 'iter': lambda: next(iter(base), None),
            'tolist': lambda: base.tolist(), 'repr': lambda: repr(base), 'hash': lambda: hash(base), 'eq': lambda: base == base.append(1), 'lt': lambda: base < base.append(1),
            'eqlist': lambda: base == l, 'reduce': lambda: base.__reduce__(), 'evset': lambda: self.loop_ev(base, r), 'evpers': lambda: base.evolver().append(1).persistent(),
            'failext': lambda: base.extend(bads()), 'failnew': lambda: lib.pvector(bads()), 'failidx': lambda: base.set(n + 3, 1), 'failtype': lambda: base['a'],
            'failadd': lambda: base + 3, 'failmset': lambda: base.mset(0, 1, n + 9, 2), 'failmset2': lambda: base.mset(1), 'failremove': lambda: base.remove(bad),
            'failindex': lambda: base.index(bad), 'failcount': lambda: base.count(bad), 'faileq': lambda: base == [bad] * n, 'failhash': lambda: hash(base.append([])),
            'failev': lambda: self.loop_evfail(base, n), 'get': lambda: (base[r % n], base[-1]) if n else 0, 'transform': lambda: base.transform([0], lambda x: 7) if n else 0,
            'new2': lambda: lib.pvector(base), 'contains': lambda: n + 5 in base, 'reversed': lambda: list(reversed(base)), 'evdel': lambda: self.loop_evdel(base),
        }
        name = sorted(fns)[o['t'] % len(fns)]
        f = fns[name]

        def once():
            try:
                f()
            except (ValueError, IndexError, TypeError):
                pass
        got, _ = self.real(task, o, lambda: self.loop(once), faultable=False)
        once = None
        if got[0] == 'exc':
            self.fail('%s on a vector of %d raised %r' % (name, n, got[1]), 'C09:error')
        elif got[1] is not None:
            self.fail('repeating %s on a vector of %d leaks %s' % (name, n, got[1]), 'C09:growth')
        self.sim.event('loop', name, n)

    def loop_ev(self, base, r):
        e = base.evolver()
        e.append(1)
        e[0] = r
        e[-1] = 5
        e.extend([1] * 33)
        e[len(e) - 2] = 6
        return e.persistent()

    def loop_evfail(self, base, n):
        e = base.evolver()
        e[n + 3] = 1

    def loop_evdel(self, base):
        e = base.evolver()
        e.append(4)
        del e[0]
        e.delete(-1)
        return len(e)

    def loop(self, once):
        K = 40
        sim = self.sim
        q, sim.quiet = sim.quiet, True
        try:
            for _ in range(6):
                once()
            sizes = []
            for rnd in range(3):
                gc.collect()
                b0 = sys.getallocatedblocks()
                for _ in range(K):
                    once()
                gc.collect()
                sizes.append(sys.getallocatedblocks() - b0)
            # a leak shows in every round; caches and free lists settle
            if min(sizes) >= K - 2:
                return '%d memory blocks in %d repetitions' % (min(sizes), K)
        finally:
            sim.quiet = q
        return None

    def finish(self):
        o = {'o': 'the end of the run'}
        self.check(o)
        self.slots = []
        self.evs = {}
        self.its = {}
        gc.collect()
        gc.collect()
        dead = [r for r in self.weak if r() is None]
        if len(dead) != len(self.weak) and not self.loose:
            self.fail('weak references to %d collections outlive them' % (len(self.weak) - len(dead)), 'C09:weakref')
        if self.told != sum(1 for i, r in enumerate(self.weak) if i % 3 == 0 and r() is None):
            self.fail('%d callbacks of weak references were called for %d dropped collections' % (self.told, len(dead)), 'C09:weakref')
        left = [u for u, r in self.ref.items() if r() is not None and u not in self.loose]
        if left:
            self.fail('objects %s are still alive after everything was dropped' % (left[:5],), 'C09:leak-end')


RUN['life'] = runner(Life)

DEEP = (32767, 32768, 32800, 32832, 33824)
VOPS = ('append', 'append', 'extend', 'extend', 'extendit', 'plus', 'set', 'set', 'set', 'mset', 'delete', 'slice', 'mul', 'remove', 'transform', 'read',
        'fail', 'fail', 'failnew', 'badindex', 'badtype', 'badadd')
EOPS = ('set', 'set', 'set', 'set', 'append', 'append', 'extend', 'extendre', 'delete', 'delete', 'bad', 'fail', 'persist', 'persist')


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C09']}
    sched_cfg(r, cfg, r.choice((0, 0, 1, 1, 2)))
    cfg['cap'] = r.choice((3, 5, 8))
    cfg['fin'] = r.choice((0, 0, 2, 3, 7))
    big = r.random() < 0.25
    sizes = SIZES if big else SIZES[:13]
    if big:
        cfg['full'] = r.random() < 0.5
    if r.random() < 0.5:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.01, 0.05))
        cfg['max_faults'] = 10
    kinds = KINDS if r.random() < 0.5 else ('vec',)
    cfg['seeds'] = [[r.choice(kinds), r.choice(sizes)] for _ in range(3)]
    w = {'new': 1, 'drop': 1.5, 'gc': 0.4, 'vecop': 5, 'otherop': 2 if len(kinds) > 1 else 0, 'evnew': 1.2, 'evop': 5, 'evdrop': 0.3, 'itnew': 0.5,
         'itstep': 1, 'itdrop': 0.2, 'cycle': 0.5, 'livecycle': 0.4, 'loop': 0.15, 'deep': 0.04}
    if flavor == 'py':
        w['loop'] = 0
        w['deep'] = 0.01
    names, ws = list(w), list(w.values())
    tasks = []
    for t in range(r.choice((1, 1, 2, 3))):
        ops = []
        for i in range(r.choice((15, 30, 60))):
            n = r.choices(names, ws)[0]
            o = {'o': n, 't': r.randrange(1 << 16)}
            x = r.randrange(1 << 16)
            if n == 'new':
                o['a'] = [r.choice(kinds), r.choice(sizes)]
            elif n == 'vecop':
                o['a'] = [r.choice(VOPS), x]
            elif n == 'evop':
                o['a'] = [r.choice(EOPS), x]
            elif n in ('cycle', 'livecycle'):
                o['a'] = [r.choice(kinds), r.choice(sizes), x]
            else:
                o['a'] = [None, x]
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'life', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C09'] = plan
