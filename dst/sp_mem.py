"""C16: failing allocations in the C vector, its iterator and its evolver.

Operations are called through the allocation seam (dst/native/simalloc.c): attempts of one operation with seeded
allocations failing, until it succeeds.  Values are compared with lists after every attempt, elements by their exact
reference counts at the end, blocks by repeating a failing attempt.
"""
import gc
import operator as OP
import sys

from dst.sim import quiet
from dst.special import Base, RUN, PLANS, runner, numbered

INF = 1 << 40


class Str(str):
    """elements: string semantics, own identity, no Python code run by comparison"""


class Vec(object):
    __slots__ = ('v', 'm')

    def __init__(self, v, m):
        self.v, self.m = v, m


def ids(x):
    return list(map(id, x))


def clip(i, n):
    """an index from a plan, into -n .. n-1"""
    return i % (2 * n) - n


class Mem(Base):
    def setup(self):
        import simalloc
        self.A = simalloc
        simalloc.install()
        self.els = [Str('e%d' % i) for i in range(40)]
        self.pool = []
        self.evs = []
        self.its = []
        self.mkpool = self.cfg['sizes']
        pv = self.lib.pvector
        for n in self.mkpool:
            m = [self.els[(i * 7 + n) % 40] for i in range(n)]
            self.pool.append(Vec(pv(m), m))
        del m, n
        self.prefill()

    def prefill(self):
        """fill the interpreter's free lists, which look like leaks while they grow"""
        x = [[] for _ in range(100)] + [{1: 2} for _ in range(100)] + [float(i) for i in range(120)] + \
            [tuple(range(n)) for n in range(1, 21) for _ in range(2100)]
        del x
        slice(1, 2)

    def fail(self, msg, sig):
        self.sim.violate('C16', msg, sig)

    def el(self, i):
        return self.els[i % 40]

    # ------------------------------------------------------------------ the seam
    def windows(self, o):
        """failing allocations of the successive attempts"""
        kind, arg = o['nm']
        if kind == 'enum':              # every allocation in turn
            k = 0
            while True:
                yield k, k + arg
                k += 1
        elif kind == 'rest':            # everything from a point on fails
            k = 0
            while True:
                yield k, INF
                k += 1
        for k, n in arg:
            yield k, k + n
        while True:
            yield 0, 0

    def attempts(self, o, what, fn, args, after):
        """Call fn(*args) until no allocation fails or it succeeds.  after(): checks of an attempt that raised.
        -> its result"""
        A = self.A
        tries = 0
        for k, stop in self.windows(o):
            tries += 1
            if tries > 400:
                k = stop = 0
            r = A.call(k, stop, fn, args)
            if r[0] == 1:
                if r[3]:
                    self.sim.stat('nomem', r[3])
                # (the import made by __reduce__ allocates more or less depending on the caches of the interpreter)
                self.sim.event(what, 0 if what == 'reduce' else (tries, r[2], r[3]))
                self.sim.stat('attempts', tries)
                return r[1]
            e = r[1]
            failed = r[3]
            t = type(e)
            msg = str(e)[:200]
            del r, e
            if failed:
                self.sim.stat('nomem', failed)
            self.sim.probe('%s@%d' % (what, min(k, 60)))
            if t is not MemoryError or not failed:
                self.fail('%s with allocation %d failing raised %s: %s' % (what, k, t.__name__, msg), 'C16:exc')
            after(what, k)
            if o['rep'] and tries % 3 == o['rep'] % 3:
                self.leak(what, fn, args, k, stop)

    def leak(self, what, fn, args, k, stop):
        A = self.A
        reps = 12

        def one():
            r = A.call(k, stop, fn, args)
            return r[0]
        if one() or one():
            return          # cached memory makes it succeed now: operations on evolvers are not repeated this way
        # objects that come from the free lists of the interpreter do not show as blocks
        n0 = len(gc.get_objects())
        b0 = A.outstanding()
        for _ in range(reps):
            if one():
                return
        b1 = A.outstanding()
        n1 = len(gc.get_objects())
        if n1 - n0 >= reps:
            gc.collect()
            n1 = len(gc.get_objects())
            if n1 - n0 >= reps:
                self.fail('%s with allocation %d failing leaks objects: %d in %d attempts' % (what, k, n1 - n0, reps), 'C16:objects')
                return
        if b1 - b0 < reps:
            return
        # the interpreter keeps some freed lists, dictionaries (up to 80) and tuples (2000 of each size): repeat until these are full
        for _ in range(2300):
            if one():
                return
        gc.collect()
        b0 = A.outstanding()
        for _ in range(100):
            if one():
                return
        gc.collect()
        b1 = A.outstanding()
        if b1 - b0 >= 100:
            self.fail('%s with allocation %d failing leaks memory: %d blocks in 100 attempts' % (what, k, b1 - b0), 'C16:blocks')
        self.sim.probe('freelist')

    def same(self, what, k):
        """no vector has changed"""
        for x in self.pool:
            if ids(x.v) != ids(x.m) or len(x.v) != len(x.m):
                self.fail('after %s with allocation %d failing a vector contains %s instead of %s'
                          % (what, k, str(list(x.v))[:150], str(x.m)[:150]), 'C16:changed')

    def after(self, task, o):
        self.same(o['o'], -1)
        for e in self.evs:
            self.evsame(e, o['o'], -1)
        while len(self.pool) > self.cfg['cap']:
            self.pool.pop(o['t'] % len(self.pool))

    def keep(self, what, v, m):
        if type(v) is not type(self.lib.pvector()):
            self.fail('%s returned a %s' % (what, type(v).__name__), 'C16:result')
        if ids(v) != ids(m) or len(v) != len(m):
            self.fail('%s returned %s instead of %s' % (what, str(list(v))[:150], str(m)[:150]), 'C16:result')
        self.pool.append(Vec(v, m))

    # ------------------------------------------------------------------ vectors
    def op_vec(self, task, o):
        x = self.pool[o['t'] % len(self.pool)]
        v, m, n = x.v, x.m, len(x.m)
        a = o['a']
        w = o['w']
        e = self.el(a)
        other = self.pool[a % len(self.pool)]
        more = [self.el(a + i) for i in range(o['n'])]
        src = (more, tuple(more), other.v)[a % 3]
        if src is other.v:
            more = list(other.m)
        if n + len(more) > 4000:
            src, more = [e], [e]
        i = clip(a, n) if n else 0
        call = exp = None
        if w == 'append':
            call, exp = (v.append, (e,)), m + [e]
        elif w == 'set' and n:
            exp = list(m)
            exp[i] = e
            call = (v.set, (i, e))
        elif w == 'setend':
            call, exp = (v.set, (n, e)), m + [e]
        elif w == 'mset' and n:
            exp = list(m)
            args = []
            for j in range(o['n'] % 6 + 1):
                p = clip(a * (j + 1), n)
                args += [p, self.el(a + j)]
                exp[p] = args[-1]
            call = (v.mset, tuple(args))
        elif w == 'extend':
            call, exp = (v.extend, (src,)), m + more
        elif w == 'extenditer':
            # a fresh iterator for every attempt: not repeatable by itself
            return self.fresh(o, 'extend', lambda: (v.extend, (iter(src),)), m + more)
        elif w == 'add':
            call, exp = (OP.add, (v, src)), m + more
        elif w == 'mul':
            c = a % 4 if n < 200 else a % 2
            call, exp = (OP.mul, (v, c)), m * c
        elif w == 'slice':
            j = (a * 31) % (n + 2)
            s = slice(min(a % (n + 2), j), max(a % (n + 2), j), (None, 2, -1)[a % 3])
            call, exp = (OP.getitem, (v, s)), m[s]
        elif w == 'delete' and n:
            exp = list(m)
            del exp[i]
            call = (v.delete, (i,))
        elif w == 'remove' and n:
            exp = list(m)
            y = m[i]
            exp.remove(y)
            call = (v.remove, (y,))
        elif w == 'create':
            call, exp = (self.lib.pvector, (src,)), list(more)
        elif w == 'createiter':
            return self.fresh(o, 'create', lambda: (self.lib.pvector, (iter(more),)), list(more))
        elif w == 'get' and n:
            r = self.attempts(o, w, OP.getitem, (v, i), self.same)
            if r is not m[i]:
                self.fail('v[%d] gave %r' % (i, r), 'C16:result')
            return
        elif w in ('tolist', 'repr', 'hash', 'eq', 'lt', 'count', 'index', 'contains', 'reduce', 'list', 'len'):
            return self.read(o, w, v, m, other, i)
        if call is None:
            return
        r = self.attempts(o, w, call[0], call[1], self.same)
        self.keep(w, r, exp)

    def fresh(self, o, what, mk, exp):
        for k, stop in self.windows(o):
            if k > 60:
                k = stop = 0
            f, args = mk()
            r = self.A.call(k, stop, f, args)
            if r[3]:
                self.sim.stat('nomem', r[3])
            if r[0] == 1:
                self.sim.event(what, k, r[2], r[3])
                return self.keep(what, r[1], exp)
            t, failed, msg = type(r[1]), r[3], str(r[1])[:200]
            del r, f, args
            self.sim.probe('%s@%d' % (what, min(k, 60)))
            if t is not MemoryError or not failed:
                self.fail('%s from an iterator with allocation %d failing raised %s: %s' % (what, k, t.__name__, msg), 'C16:exc')
            self.same(what, k)

    def read(self, o, w, v, m, other, i):
        y = m[i] if m else self.els[0]
        exp = None
        if w == 'tolist':
            call, exp = (v.tolist, ()), m
        elif w == 'list':
            call, exp = (list, (v,)), m
        elif w == 'len':
            call, exp = (len, (v,)), len(m)
        elif w == 'repr':
            call, exp = (repr, (v,)), 'pvector(%s)' % repr(m)
        elif w == 'hash':
            call, exp = (hash, (v,)), hash(tuple(m))
        elif w == 'eq':
            z = (other.m, other.v, list(m))[o['a'] % 3]
            call, exp = (OP.eq, (v, z)), m == (other.m if o['a'] % 3 < 2 else m)
        elif w == 'lt':
            call, exp = (OP.lt, (v, other.v)), m < other.m
        elif w == 'count':
            call, exp = (v.count, (y,)), m.count(y)
        elif w == 'index':
            if y not in m:
                return
            call, exp = (v.index, (y,)), m.index(y)
        elif w == 'contains':
            call, exp = (OP.contains, (v, y)), y in m
        else:
            call = (v.__reduce__, ())
        r = self.attempts(o, w, call[0], call[1], self.same)
        if w == 'reduce':
            if not (type(r) is tuple and r[0] is self.lib.pvector or callable(r[0])) or ids(r[0](*r[1])) != ids(m):
                self.fail('__reduce__ gave %s' % str(r)[:150], 'C16:result')
        elif w == 'hash' or w == 'eq' or exp is None:
            if w == 'eq' and bool(r) != exp:
                self.fail('%s gave %r instead of %r' % (w, r, exp), 'C16:result')
            if w == 'hash' and r != hash(self.lib.pvector(m)):
                self.fail('hash gave %r' % r, 'C16:result')
        elif r != exp or (w in ('tolist', 'list') and ids(r) != ids(exp)):
            self.fail('%s gave %s instead of %s' % (w, str(r)[:150], str(exp)[:150]), 'C16:result')

    # ------------------------------------------------------------------ iterators
    def op_iter(self, task, o):
        x = self.pool[o['t'] % len(self.pool)]
        it = self.attempts(o, 'iter', iter, (x.v,), self.same)
        if len(self.its) > 4:
            self.its.pop(0)
        self.its.append([it, x.m, 0])

    def op_next(self, task, o):
        if not self.its:
            return
        x = self.its[o['t'] % len(self.its)]
        for _ in range(o['n']):
            if x[2] >= len(x[1]):
                return
            r = self.attempts(o, 'next', next, (x[0],), self.same)
            if r is not x[1][x[2]]:
                self.fail('iteration gave %r instead of %r at %d' % (r, x[1][x[2]], x[2]), 'C16:result')
            x[2] += 1

    # ------------------------------------------------------------------ evolvers
    def evsame(self, x, what, k):
        e, m = x
        if len(e) != len(m):
            self.fail('after %s with allocation %d failing an evolver has %d elements instead of %d' % (what, k, len(e), len(m)), 'C16:evolver')
        for i, y in enumerate(m):
            if e[i] is not y:
                self.fail('after %s with allocation %d failing an evolver has %r instead of %r at %d' % (what, k, e[i], y, i), 'C16:evolver')

    def op_evnew(self, task, o):
        x = self.pool[o['t'] % len(self.pool)]
        e = self.attempts(o, 'evolver', x.v.evolver, (), self.same)
        if len(self.evs) > 3:
            self.evs.pop(o['a'] % len(self.evs))
        self.evs.append([e, list(x.m)])

    def op_ev(self, task, o):
        if not self.evs:
            return
        x = self.evs[o['t'] % len(self.evs)]
        e, m = x
        n = len(m)
        a = o['a']
        w = o['w']
        y = self.el(a)
        o = dict(o, rep=0)
        i = clip(a, n) if n else 0

        def after(what, k):
            self.same(what, k)
            if what != 'ev.extend':
                for z in self.evs:
                    self.evsame(z, what, k)
        if w == 'append':
            call = (e.append, (y,))
            m2 = m + [y]
        elif w in ('set', 'setitem') and n:
            call = (e.set, (i, y)) if w == 'set' else (OP.setitem, (e, i, y))
            m2 = list(m)
            m2[i] = y
        elif w in ('delete', 'delitem') and n:
            call = (e.delete, (i,)) if w == 'delete' else (OP.delitem, (e, i))
            m2 = list(m)
            del m2[i]
        elif w == 'extend' and n < 3000:
            more = [self.el(a + j) for j in range(o['n'])]
            x2 = self.pool[a % len(self.pool)]
            if a % 3 == 1 and len(x2.m) < 300:
                more, src = x2.m, x2.v
            else:
                src = (more, None, tuple(more))[a % 3] or list(more)
            return self.evextend(o, x, src, more)
        elif w == 'get' and n:
            r = self.attempts(o, 'ev.get', OP.getitem, (e, i), after)
            if r is not m[i]:
                self.fail('evolver[%d] gave %r' % (i, r), 'C16:result')
            return
        elif w == 'persistent':
            r = self.attempts(o, 'ev.persistent', e.persistent, (), after)
            self.keep('ev.persistent', r, list(m))
            if e.is_dirty():
                self.fail('an evolver is dirty after persistent()', 'C16:evolver')
            return
        else:
            return
        self.attempts(o, 'ev.' + w, call[0], call[1], after)
        x[1] = m2
        self.evsame(x, 'ev.' + w, -1)

    def evextend(self, o, x, src, more):
        """a failed extend may have appended the first of the elements"""
        e = x[0]
        base = x[1]

        def after(what, k):
            self.same(what, k)
            n = len(e) - len(base)
            if not 0 <= n <= len(more):
                self.fail('after a failed extend an evolver has %d elements, it had %d' % (len(e), len(base)), 'C16:evolver')
            x[1] = base + list(more[:n])
            self.evsame(x, what, k)
            if n:
                raise Partial()
        try:
            self.attempts(o, 'ev.extend', e.extend, (src,), after)
            x[1] = base + list(more)
        except Partial:
            pass
        self.evsame(x, 'ev.extend', -1)

    def op_drop(self, task, o):
        what = (self.pool, self.evs, self.its)[o['a'] % 3]
        if what and (what is not self.pool or len(what) > 2):
            what.pop(o['t'] % len(what))

    def finish(self):
        """Everything goes; the elements are referenced by the harness only, exactly."""
        with quiet():
            self.same('the run', -1)
            probe = Str('probe')
            want = sys.getrefcount(probe)
            del self.pool[:], self.evs[:], self.its[:]
            gc.collect()
            els = self.els
            self.els = None
            bad = []
            while els:
                x = els.pop()
                n = sys.getrefcount(x)
                if n != want:
                    bad.append((str(x), n - want))
                del x
        if bad:
            self.fail('references to elements after everything was dropped: %s (too many if positive)' % bad[:5], 'C16:refs')


class Partial(Exception):
    pass


RUN['mem'] = runner(Mem)

WV = {'append': 3, 'set': 3, 'setend': 0.5, 'mset': 2, 'extend': 3, 'extenditer': 1.5, 'add': 1, 'mul': 1, 'slice': 1.5, 'delete': 2, 'remove': 1, 'create': 1,
      'createiter': 1, 'get': 0.5, 'tolist': 0.5, 'repr': 0.3, 'hash': 0.3, 'eq': 0.5, 'lt': 0.5, 'count': 0.3, 'index': 0.3, 'contains': 0.3,
      'reduce': 0.5, 'list': 0.5, 'len': 0.1}
WE = {'append': 2, 'set': 2, 'setitem': 3, 'delete': 1, 'delitem': 1, 'extend': 2, 'get': 0.5, 'persistent': 3}


def plan(r, seed, tier, flavor):
    cfg = {'tags': ['C16'], 'b_switch': 0.5, 'b_gc': 0.02}
    sizes = (0, 1, 2, 30, 31, 32, 33, 63, 64, 65, 96, 1023, 1024, 1025, 1055, 1056, 1057, 1087, 1088, 1089, 1120, 2080)
    if tier == 'thorough' and r.random() < 0.02:
        sizes = (32767, 32768, 32800, 32801, 33824)
    cfg['sizes'] = [r.choice(sizes) for _ in range(r.choice((1, 2, 3)))]
    cfg['cap'] = 5
    tasks = []
    w = {'vec': 5, 'evnew': 1.2, 'ev': 4, 'iter': 0.5, 'next': 0.5, 'drop': 1}
    names, ws = list(w), list(w.values())
    for t in range(r.choice((1, 1, 2))):
        ops = []
        for i in range(r.choice((8, 15, 25))):
            n = r.choices(names, ws)[0]
            o = {'o': n, 't': r.randrange(1 << 16), 'a': r.randrange(1 << 16), 'n': r.choice((0, 1, 2, 5, 31, 32, 33, 64, 70)), 'rep': r.choice((0, 0, 0, 1, 2, 3))}
            if n == 'vec':
                o['w'] = r.choices(list(WV), list(WV.values()))[0]
            elif n == 'ev':
                o['w'] = r.choices(list(WE), list(WE.values()))[0]
            elif n == 'next':
                o['n'] = r.choice((1, 2, 40))
            x = r.random()
            if x < 0.5:
                o['nm'] = ['enum', r.choice((1, 1, 1, 2, 5))]
            elif x < 0.6:
                o['nm'] = ['rest', 0]
            elif x < 0.95:
                o['nm'] = ['list', [[r.randrange(r.choice((3, 8, 20, 80))), r.choice((1, 1, 2, INF))] for _ in range(r.randrange(1, 5))]]
            else:
                o['nm'] = ['list', []]
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'mem', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C16'] = plan
