"""C17: generated types of collection fields.

Tasks declare classes with collection fields at the same time (preempted between the instructions of the library,
interrupted, failing), use them, exchange values between them and send them through pickle.  The oracle is the
declaration: which values a field accepts follows from its item types and item invariant alone.
"""
import gc
import pickle
import random
import sys
import types

from dst import decl as D
from dst.sim import SimFault, SimInterrupt, quiet, cb
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P
MODS = ('simmod_a', 'simmod_b')


class Root(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        cb('eq')
        return type(o) is type(self) and o.n == self.n

    def __hash__(self):
        cb('hash')
        return self.n % 4

    def __repr__(self):
        return '%s.%s(%d)' % (type(self).__module__, type(self).__name__, self.n)


def inv_small(x):
    cb('inv')
    return (key(x) < 6, 'not small')


def inv_even(x):
    cb('inv')
    return (key(x) % 2 == 0, 'odd')


def inv_big(x):
    cb('inv')
    return (key(x) >= 4, 'not big')


INVS = {'small': (inv_small, lambda n: n < 6), 'even': (inv_even, lambda n: n % 2 == 0), 'big': (inv_big, lambda n: n >= 4)}


def key(x):
    return x.n if isinstance(x, (Root, P.PRecord)) else int(x)


def same(a, b):
    return type(a) is type(b) and (a.n == b.n if isinstance(a, (Root, P.PRecord)) else a == b)


class Decl(object):
    __slots__ = ('cls', 'spec', 'name')


class Src(object):
    """initial value whose iteration can fail"""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        for x in self.xs:
            cb('iter')
            yield x


class Reg(Base):
    def setup(self):
        self.mods = {}
        for m in MODS:
            mod = types.ModuleType(m)
            sys.modules[m] = mod
            self.mods[m] = mod
            for i in range(3):
                c = type('Item%d' % i, (Root,), {'__module__': m})
                setattr(mod, c.__name__, c)
            # subclass of an item type
            c = type('Sub0', (mod.Item0,), {'__module__': m})
            setattr(mod, 'Sub0', c)
            for i in range(2):
                # records, which are also created from plain data
                c = type(P.PRecord)('Rec%d' % i, (P.PRecord,), {'n': P.field(), '__module__': m})
                setattr(mod, c.__name__, c)
            for b in (int, str):
                n = b.__name__.capitalize()
                setattr(mod, n, type(n, (b,), {'__module__': m}))
        self.decls = []
        self.vals = []          # (instance, Decl, [items], kind)
        self.n = 0

    def fail(self, msg, sig):
        self.sim.violate('C17', msg, sig)

    # ------------------------------------------------------------------ specifications
    def typ(self, t):
        if t[0] == 'c':
            return getattr(self.mods[t[1]], t[2])
        if t[0] == 's':
            return '%s.%s' % (t[1], t[2])
        if t[0] == 'b':
            return getattr(self.mods[MODS[0]], t[1])
        return tuple(self.typ(x) for x in t[1])

    def classes(self, t):
        if t[0] in ('c', 's'):
            return (getattr(self.mods[t[1]], t[2]),)
        if t[0] == 'b':
            return (getattr(self.mods[MODS[0]], t[1]),)
        return tuple(c for x in t[1] for c in self.classes(x))

    def item(self, i):
        """an item of a plan"""
        if i[0] in ('Int', 'Str'):
            return getattr(self.mods[MODS[0]], i[0])(i[1])
        if i[0] == 'int':
            return i[1]
        return getattr(self.mods[i[1]], i[2])(**{'n': i[3]})

    def rec(self, t):
        """the record that plain data becomes in a field with these item types"""
        return next((c for c in self.classes(t) if issubclass(c, P.PRecord)), None)

    def recs(self, s):
        return self.rec(s['t']) or (s['k'] == 'pmap' and self.rec(s['t2']))

    def ok(self, spec, t, x, inv='own'):
        if not isinstance(x, self.classes(t)):
            return False
        inv = spec.get('inv') if inv == 'own' else inv
        return inv is None or INVS[inv][1](key(x))

    def accepts(self, spec, items, inv='own'):
        if items is None:
            return bool(spec['opt'])
        if spec['k'] == 'pmap':
            return all(self.ok(spec, spec['t'], k) and self.ok(spec, spec['t2'], v) for k, v in items)
        return all(self.ok(spec, spec['t'], x, inv) for x in items)

    # ------------------------------------------------------------------ declaring
    def op_declare(self, task, o):
        s = o['s']
        lib = self.lib
        self.n += 1
        name = 'Cls%d' % self.n
        if 'as' in s:
            if not self.decls:
                return
            s = dict(self.decls[s['as'] % len(self.decls)].spec, base=s['base'])
        with quiet():
            t = self.typ(s['t'])
            t2 = self.typ(s['t2']) if s['k'] == 'pmap' else None
            init = [self.item(i) for i in s.get('init', ())]
            init = [x for x in init if self.ok(s, s['t'], x)] if s['k'] != 'pmap' else []
        # another declaration with the same item type and another item invariant: its invariant decides (known finding)
        kw = {}
        if s['opt']:
            kw['optional'] = True
        if s.get('inv'):
            kw['item_invariant'] = INVS[s['inv']][0]
        base = lib.PRecord if s['base'] == 'rec' else lib.PClass
        mod = o['m']

        def go():
            if s['k'] == 'pmap':
                f = lib.pmap_field(t, t2, **kw)
            elif s['k'] == 'pvector':
                f = lib.pvector_field(t, initial=Src(init), **kw) if init else lib.pvector_field(t, **kw)
            else:
                f = lib.pset_field(t, initial=Src(init), **kw) if init else lib.pset_field(t, **kw)
            return type(base)(name, (base,), {'f': f, '__module__': mod})
        # for the known finding: the declaration counts from its beginning, its type may be the first
        d = Decl()
        d.cls, d.spec, d.name = None, s, name
        self.started = getattr(self, 'started', [])
        self.started.append(d)
        got, fault = self.real(task, o, go)
        self.sim.event('declare', name, got[0])
        if got[0] == 'exc':
            if got[1] is not fault:
                if isinstance(got[1], lib.InvariantException) and self.kf(s, init, None):
                    return self.fail('declaring a field: the invariant of another field is applied', 'C17:item-invariant-shared')
                self.fail('declaring %s raised %s: %s' % (self.show(s), type(got[1]).__name__, str(got[1])[:200]), 'C17:declare')
            return
        d.cls = got[1]
        with quiet():
            setattr(self.mods[mod], name, d.cls)
        self.decls.append(d)
        if init:
            self.check(d, d.cls().f, init, 'the initial value')

    def show(self, s):
        return '%s_field(%s%s%s%s)' % (s['k'], self.typ(s['t']), ', %s' % (self.typ(s['t2']),) if s['k'] == 'pmap' else '',
                                       ', optional' if s['opt'] else '', ', %s' % s['inv'] if s.get('inv') else '')

    def kf(self, spec, items, observed_ok):
        """Is this the known finding: decided by the item invariant of another field with the same item type?"""
        if spec['k'] == 'pmap' or items is None:
            return False
        t = repr(self.typ(spec['t']))
        for d in self.started:
            s = d.spec
            if s['k'] == spec['k'] and s.get('inv') != spec.get('inv') and repr(self.typ(s['t'])) == t:
                if observed_ok is None or self.accepts(spec, items, s.get('inv')) == observed_ok:
                    return True
        return False

    # ------------------------------------------------------------------ checking a value
    def contents(self, k, v):
        if v is None:
            return None
        if k == 'pmap':
            return list(v.items())
        return list(v)

    def check(self, d, v, items, what):
        with quiet():
            k = d.spec['k']
            want = {'pvector': self.lib.CheckedPVector, 'pset': self.lib.CheckedPSet, 'pmap': self.lib.CheckedPMap}[k]
            got = self.contents(k, v)
            if items is None:
                if v is not None:
                    self.fail('%s of %s is %r instead of None' % (what, self.show(d.spec), v), 'C17:value')
                return
            if not isinstance(v, want):
                self.fail('%s of %s is a %s' % (what, self.show(d.spec), type(v).__name__), 'C17:value')
            if k == 'pvector':
                good = len(got) == len(items) and all(map(same, got, items))
            elif k == 'pset':
                u = self.uniq(items)
                good = len(got) == len(u) and all(any(same(x, y) for y in u) for x in got)
            else:
                u = self.uniqm(items)
                good = len(got) == len(u) and all(any(same(a, x) and same(b, y) for x, y in u) for a, b in got)
            if not good:
                self.fail('%s of %s contains %s instead of %s' % (what, self.show(d.spec), got, items), 'C17:value')

    def uniq(self, items):
        out = []
        for x in items:
            if not any(same(x, y) for y in out):
                out.append(x)
        return out

    def uniqm(self, items):
        out = []
        for k, v in items:
            out = [(a, b) for a, b in out if not same(a, k)] + [(k, v)]
        return out

    def outcome_of(self, d, got, fault, items, what):
        """-> instance or None"""
        lib = self.lib
        exp = self.accepts(d.spec, items)
        if got[0] == 'ok':
            if not exp:
                if self.kf(d.spec, items, True):
                    self.fail('%s accepted %s' % (self.show(d.spec), items), 'C17:item-invariant-shared')
                    return None
                self.fail('%s: %s accepted %s' % (what, self.show(d.spec), items), 'C17:accepts')
            self.check(d, got[1].f, items, what)
            return got[1]
        e = got[1]
        if fault is not None and e is fault:
            return None
        if items is not None and not isinstance(e, (lib.InvariantException, TypeError)):
            self.fail('%s: %s raised %s: %s' % (what, self.show(d.spec), type(e).__name__, str(e)[:200]), 'C17:raised')
        if exp:
            if self.kf(d.spec, items, False):
                self.fail('%s rejected %s' % (self.show(d.spec), items), 'C17:item-invariant-shared')
                return None
            self.fail('%s: %s rejected %s: %s: %s' % (what, self.show(d.spec), items, type(e).__name__, str(e)[:150]), 'C17:rejects')
        return None

    def items_for(self, d, o):
        r = random.Random(o['h'])
        if d.spec['opt'] and r.random() < 0.1:
            return None
        with quiet():
            pool = [self.item(i) for i in o['items']]
            if r.random() < 0.75 or self.recs(d.spec):
                if d.spec['k'] == 'pmap':
                    ks = [x for x in pool if self.ok(d.spec, d.spec['t'], x)]
                    vs = [x for x in pool if self.ok(d.spec, d.spec['t2'], x)]
                else:
                    ks = vs = [x for x in pool if self.ok(d.spec, d.spec['t'], x)]
            else:
                ks = vs = pool
            if d.spec['k'] == 'pset' or d.spec['k'] == 'pmap':
                # bool, int and their equals across types would merge
                ks = [x for i, x in enumerate(ks) if not any(x == y and not same(x, y) for y in ks[:i])]
            if d.spec['k'] == 'pmap':
                return list(zip(ks, vs))
            return ks

    def op_use(self, task, o):
        if not self.decls:
            return
        d = self.decls[o['t'] % len(self.decls)]
        items = self.items_for(d, o)
        src = items if items is None else dict(items) if d.spec['k'] == 'pmap' else list(items)
        w = o['h'] // 7 % 4
        if w == 0:
            f = lambda: d.cls(f=src)
        elif w == 1:
            f = lambda: d.cls.create({'f': src})
        else:
            with quiet():
                x = d.cls()
            f = (lambda: x.set('f', src)) if w == 2 or d.spec['base'] == 'cls' else (lambda: x.set(f=src))
        if d.spec['k'] == 'pmap' and items:
            items = self.uniqm(items)
        got, fault = self.real(task, o, f)
        self.sim.event('use', d.name, got[0])
        x = self.outcome_of(d, got, fault, items, 'setting a field')
        if x is not None:
            self.keep(x, d, items)

    def op_make(self, task, o):
        """records of a collection from plain data: the first record type of the declaration"""
        ds = [d for d in self.decls if self.recs(d.spec)]
        if not ds:
            return
        d = ds[o['t'] % len(ds)]
        s = d.spec
        r = random.Random(o['h'])
        with quiet():
            R = self.rec(s['t2' if s['k'] == 'pmap' else 't'])
            src, items = [], []
            pool = [self.item(i) for i in o['items']]
            if s['k'] == 'pmap':
                ks = [x for x in pool if self.ok(s, s['t'], x)]
                pool = [x for x in pool if self.ok(s, s['t2'], x)]
            else:
                pool = [x for x in pool if self.ok(s, s['t'], x)]
            for x in pool:
                plain = R and r.random() < 0.6
                y = R(n=key(x)) if plain else x
                if s['k'] == 'pset' and any(y == z and not same(y, z) for z in items):
                    continue
                items.append(y)
                src.append({'n': key(x)} if plain else x)
            if s['k'] == 'pmap':
                ks = [x for i, x in enumerate(ks) if not any(x == y for y in ks[:i])]
                src, items = dict(zip(ks, src)), list(zip(ks, items))
        if o['h'] // 7 % 2:
            f = lambda: d.cls(f=src)
        else:
            f = lambda: d.cls.create({'f': src})
        got, fault = self.real(task, o, f)
        self.sim.event('make', d.name, got[0])
        x = self.outcome_of(d, got, fault, items, 'making the records of a field')
        if x is not None:
            self.keep(x, d, items)

    def keep(self, x, d, items):
        if len(self.vals) > 12:
            self.vals.pop(0)
        self.vals.append((x, d, items))

    def op_update(self, task, o):
        """change the collection of a field and put it back"""
        if not self.vals:
            return
        x, d, items = self.vals[o['t'] % len(self.vals)]
        more = self.items_for(d, o)
        if items is None or not more:
            return
        k = d.spec['k']
        if k == 'pvector':
            f = lambda: x.set('f', x.f.append(more[0]))
            new = items + more[:1]
        elif k == 'pset':
            f = lambda: x.set('f', x.f.add(more[0]))
            with quiet():
                if any(more[0] == y and not same(more[0], y) for y in items):
                    return
            new = items + more[:1]
        else:
            with quiet():
                if any(more[0][0] == y and not same(more[0][0], y) for y, _ in items):
                    return
            f = lambda: x.set('f', x.f.set(more[0][0], more[0][1]))
            new = self.uniqm(items + more[:1])
        got, fault = self.real(task, o, f)
        self.sim.event('update', d.name, got[0])
        y = self.outcome_of(d, got, fault, new, 'updating the collection of a field')
        if y is not None:
            self.keep(y, d, new)

    def op_exchange(self, task, o):
        """a value of one field into another"""
        if not self.vals:
            return
        x, d, items = self.vals[o['t'] % len(self.vals)]
        k = d.spec['k']
        cand = [e for e in self.decls if e.spec['k'] == k]
        if self.recs(d.spec) or any(self.recs(e.spec) for e in cand):
            # a record of another type would be plain data there
            cand = [e for e in cand if self.sets(e.spec) == self.sets(d.spec)]
            if not cand:
                return
        same_spec = [e for e in cand if self.show(e.spec) == self.show(d.spec) and e is not d]
        if same_spec and o['h'] % 4:
            e = same_spec[o['h'] // 4 % len(same_spec)]
            self.sim.probe('exchange-same')
        else:
            e = cand[o['h'] // 4 % len(cand)]
        if items is not None and o['h'] % 5 == 0:
            with quiet():
                v = x.f.evolver()
                v = v.persistent()
        else:
            v = x.f
        w = o['h'] // 64 % 3
        if w == 0:
            f = lambda: e.cls(f=v)
        elif w == 1:
            f = lambda: e.cls.create({'f': v})
        else:
            with quiet():
                y = e.cls()
            f = lambda: y.set('f', v)
        got, fault = self.real(task, o, f)
        self.sim.event('exchange', d.name, e.name, got[0])
        z = self.outcome_of(e, got, fault, items, 'exchanging a value (declared as %s)' % self.show(d.spec))
        if z is None:
            return
        if self.show(e.spec) == self.show(d.spec):
            with quiet():
                if not (z.f == v) or (items is not None and type(z.f) is not type(v)):
                    self.fail('%s: a value of another field declared the same way is not the same any more' % self.show(d.spec), 'C17:exchange')
        self.keep(z, e, items)

    def op_pickle(self, task, o):
        if not self.vals:
            return
        x, d, items = self.vals[o['t'] % len(self.vals)]
        proto = o['h'] % 6
        v = x.f
        whole = o['h'] // 8 % 2

        def go():
            return pickle.loads(pickle.dumps(x if whole else v, proto))
        got, fault = self.real(task, o, go)
        self.sim.event('pickle', d.name, got[0])
        if got[0] == 'exc':
            if got[1] is not fault:
                if isinstance(got[1], self.lib.InvariantException) and self.kf(d.spec, items, None):
                    return self.fail('pickling', 'C17:item-invariant-shared')
                self.fail('pickling a value of %s raised %s: %s' % (self.show(d.spec), type(got[1]).__name__, str(got[1])[:200]), 'C17:pickle')
            return
        y = got[1]
        with quiet():
            if whole:
                if type(y) is not d.cls:
                    self.fail('unpickling gave a %s' % type(y).__name__, 'C17:pickle')
                w = y.f
            else:
                w = y
            self.check(d, w, items, 'the unpickled value')
            if items is not None and type(w) is not type(v):
                self.fail('unpickling a value of %s gave another type, %s' % (self.show(d.spec), type(w)), 'C17:pickle')
            if whole and not (y == x):
                self.fail('unpickling gave an unequal %s' % self.show(d.spec), 'C17:pickle')
        if whole:
            self.keep(y, d, items)

    def op_forget(self, task, o):
        """pickle a value, drop every class and value of its type, collect, and load it again"""
        if not self.vals:
            return
        x, d, items = self.vals[o['t'] % len(self.vals)]
        if items is None:
            return
        with quiet():
            key = self.tkey(d.spec)
            got = self.outcome(lambda: pickle.dumps(x.f, o['h'] % 6))
            if got[0] == 'exc':
                return self.fail('pickling a value of %s raised %r' % (self.show(d.spec), got[1]), 'C17:pickle')
            image = got[1]
            gone = [e for e in self.decls if self.tkey(e.spec) == key]
            self.decls[:] = [e for e in self.decls if self.tkey(e.spec) != key]
            self.vals[:] = [e for e in self.vals if self.tkey(e[1].spec) != key]
            for e in gone:
                for m in self.mods.values():
                    if getattr(m, e.name, None) is e.cls:
                        delattr(m, e.name)
                e.cls = None
            gone = e = m = x = None
            gc.collect()
        self.sim.event('forget', d.name)
        got, fault = self.real(task, o, lambda: pickle.loads(image), sub='.load')
        with quiet():
            if got[0] == 'exc':
                if got[1] is fault and fault is not None:
                    return
                if isinstance(got[1], self.lib.InvariantException) and self.kf(d.spec, items, None):
                    return self.fail('pickling', 'C17:item-invariant-shared')
                return self.fail('unpickling a value of %s when no class declares such a field any more raised %s: %s' % (
                    self.show(d.spec), type(got[1]).__name__, str(got[1])[:200]), 'C17:forget')
            v = got[1]
            self.check(d, v, items, 'the value unpickled without a declaration')
        before = len(self.decls)
        self.op_declare(task, dict(o, o='declare', s=d.spec, m=MODS[0]))
        if len(self.decls) == before:
            return
        e = self.decls[-1]
        if e.spec is not d.spec:
            return
        with quiet():
            got = self.outcome(lambda: e.cls(f=v))
            y = self.outcome_of(e, got, None, items, 'a value unpickled before the field was declared again')
            if y is not None:
                if type(y.f) is not type(v) or not y.f == v:
                    self.fail('%s: a value unpickled before the field was declared again is not the same any more' % self.show(d.spec), 'C17:exchange')
                self.keep(y, e, items)

    def sets(self, s):
        return set(self.classes(s['t'])), set(self.classes(s['t2'])) if s['k'] == 'pmap' else None

    def tkey(self, s):
        return s['k'], repr(self.typ(s['t'])), repr(self.typ(s['t2'])) if s['k'] == 'pmap' else None

    def finish(self):
        """every pair of fields declared in the same way takes each other's values"""
        with quiet():
            for x, d, items in list(self.vals):
                for e in self.decls:
                    if e.spec['k'] == d.spec['k'] and self.show(e.spec) == self.show(d.spec):
                        got = self.outcome(lambda: e.cls(f=x.f))
                        if self.outcome_of(e, got, None, items, 'exchanging a value at the end (declared as %s)' % self.show(d.spec)) is None:
                            continue
                        if items is not None and (type(got[1].f) is not type(x.f) or not got[1].f == x.f):
                            self.fail('%s: a value of another field declared the same way is not the same any more' % self.show(d.spec), 'C17:exchange')


RUN['reg'] = runner(Reg)


def gtype(r, deep=True, recs=False):
    x = r.random()
    if x < 0.5:
        return ['c', r.choice(MODS), 'Item%d' % r.randrange(2)]
    if x < 0.55:
        return ['c', r.choice(MODS), 'Sub0']
    if recs and x < 0.75:
        return ['c', r.choice(MODS), 'Rec%d' % r.randrange(2)]
    if x < 0.68:
        return ['s', r.choice(MODS), 'Item%d' % r.randrange(2)]
    if x < 0.85 or not deep:
        return ['b', r.choice(('Int', 'Str'))]
    return ['t', [gtype(r, False, recs) for _ in range(r.choice((1, 2, 2, 3)))]]


def gitem(r):
    x = r.random()
    if x < 0.6:
        return ['o', r.choice(MODS), 'Item%d' % r.choice((0, 0, 1, 1, 2)), r.randrange(8)]
    if x < 0.7:
        return ['o', r.choice(MODS), 'Sub0', r.randrange(8)]
    if x < 0.8:
        return ['o', r.choice(MODS), 'Rec%d' % r.randrange(2), r.randrange(8)]
    return [r.choice(('Int', 'Str', 'Int', 'Str', 'int')), r.randrange(8)]


def gspec(r, invs):
    k = r.choice(('pvector', 'pvector', 'pset', 'pset', 'pmap'))
    s = {'k': k, 't': gtype(r), 'opt': r.random() < 0.25, 'base': r.choice(('rec', 'cls'))}
    if k == 'pmap':
        s['t2'] = gtype(r)
    elif r.random() < invs:
        s['inv'] = r.choice(list(INVS))
    if r.random() < 0.2:
        s['init'] = [gitem(r) for _ in range(3)]
    return s


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C17']}
    sched_cfg(r, cfg, r.choice((1, 2, 2, 2)))
    if cfg.get('instr'):
        cfg['i_gap'] = r.choice((8, 25, 60, 200))
    if r.random() < 0.3:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.01, 0.05))
        cfg['max_faults'] = 15
    if cfg.get('instr') and r.random() < 0.3:
        cfg['interrupts'] = 1
        cfg['i_int'] = r.choice((0.02, 0.1))
        cfg['max_faults'] = 10
    mode = r.choice(('none', 'fixed', 'fixed', 'any'))
    specs = [gspec(r, 0 if mode == 'none' else 0.5) for _ in range(r.choice((1, 2, 3)))]
    if mode == 'fixed':
        # one invariant per item type
        inv = r.choice(list(INVS) + [None])
        for s in specs:
            if s['k'] != 'pmap':
                s['inv'] = inv
                if inv is None:
                    del s['inv']
    make = 0
    if cfg.get('instr'):
        # the order of a set of two types depends on addresses, and with it the number of instructions executed
        for s in specs:
            s['opt'] = False
    if r.random() < 0.35:
        # records among the item types, in one order and in another
        k = r.choice(('pvector', 'pset', 'pmap'))
        ts = [['c', r.choice(MODS), 'Rec%d' % i] for i in range(2)] + ([gtype(r, False)] if r.random() < 0.4 else [])
        for _ in range(2):
            r.shuffle(ts)
            s = {'k': k, 't': ['t', list(ts)], 'opt': False, 'base': 'rec'}
            if k == 'pmap':
                s['t2'] = s['t']
                s['t'] = ['b', 'Int']
            specs.append(s)
        specs.append(s)
        make = 2
    if r.random() < 0.4:
        # the same with the other module's class of the same name
        s = dict(r.choice(specs))
        if s['t'][0] in ('c', 's'):
            s['t'] = [s['t'][0], MODS[1 - MODS.index(s['t'][1])], s['t'][2]]
            specs.append(s)
    ws = {'make': make, 'declare': 3, 'use': 4, 'update': 1.5, 'exchange': 3, 'pickle': 1.5}
    tasks = []
    nt = r.choice((1, 2, 2, 3, 3))
    if nt == 1:
        # another task could be using what is dropped
        ws['forget'] = 1.5
    for t in range(nt):
        ops = []
        for i in range(r.choice((6, 12, 20))):
            n = 'declare' if i < 2 else r.choices(list(ws), list(ws.values()))[0]
            o = {'o': n, 't': r.randrange(1 << 16), 'h': r.randrange(1 << 20)}
            if n == 'declare':
                o['m'] = r.choice(MODS)
                o['s'] = dict(r.choice(specs), base=r.choice(('rec', 'cls')))
                if r.random() < 0.3 and not cfg.get('instr'):
                    o['s']['opt'] = not o['s']['opt']
                if mode == 'any' and o['s']['k'] != 'pmap' and r.random() < 0.3:
                    o['s']['inv'] = r.choice(list(INVS))
            elif n in ('use', 'update', 'make'):
                o['items'] = [gitem(r) for _ in range(r.choice((1, 3, 6, 8)))]
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'reg', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C17'] = plan
