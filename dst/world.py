"""Shared state of a run: pools of persistent values with their reference models, argument
resolution, execution of one operation against the real library and the model."""
import random
import types

from dst import atoms as A
from dst.sim import SimFault, SimInterrupt, SimStop, SimHang, quiet, cb


class Entry(object):
    __slots__ = ('value', 'model', 'fp', 'kind', 'n')

    def __init__(self, kind, value, model, n):
        self.kind, self.value, self.model, self.n = kind, value, model, n
        self.fp = None


class Op(object):
    """gen(g) -> list of argument specs; real(target, *args); model(model, *args)."""
    __slots__ = ('name', 'kind', 'gen', 'real', 'model', 'res', 'tag', 'weight', 'fault', 'big')

    def __init__(self, name, kind, gen, real, model, res, tag, weight=1.0, fault=True, big=True):
        self.name, self.kind, self.gen, self.real, self.model = name, kind, gen, real, model
        self.res, self.tag, self.weight, self.fault, self.big = res, tag, weight, fault, big


OPS = {}
KINDS = {}
RESOLVERS = {}      # further argument kinds: fn(world, spec, target) -> (real, model)
RESULTS = {}        # further result kinds: fn(expected, got) -> None or message


class Kind(object):
    """How to build, check and observe values of one kind.

    check(value, model) -> None or message ; observe(value) -> comparable fingerprint
    """
    def __init__(self, name, tag, check, observe, keys, seeds):
        self.name, self.tag, self._check, self._observe, self.keys, self.seeds = name, tag, check, observe, keys, seeds
        KINDS[name] = self

    def check(self, value, model):
        try:
            return self._check(value, model)
        except Exception as e:
            return 'observing it raised %s: %s' % (type(e).__name__, str(e)[:200])

    def observe(self, value):
        try:
            return self._observe(value)
        except Exception as e:
            return ('observing it raises', type(e).__name__, str(e)[:200])


# ---------------------------------------------------------------------- argument specs
SIZES = [0, 1, 2, 3, 5, 8, 31, 32, 33, 34, 63, 64, 65, 66, 96, 97, 127, 128, 129]
BIG = [1023, 1024, 1025, 1055, 1056, 1057, 1058, 1087, 1088, 1089, 2047, 2080, 2112]
HUGE = [32767, 32768, 32799, 32800, 32801, 32832, 32833]
GIANT = [1048575, 1048576, 1048607, 1048608, 1048609]

IT_KINDS = ('list', 'tuple', 'gen', 'iter', 'iterable', 'seq', 'pvec', 'plist', 'range', 'dictkeys', 'pdeque')


class Gen(object):
    """Static generator of operation arguments (knows the configuration, not the run)."""
    def __init__(self, rng, cfg):
        self.r = rng
        self.cfg = cfg
        self.n = cfg.get('atoms', 24)

    def atom(self):
        return ['a', self.r.randrange(self.n)]

    def pick(self):
        """an element that is in the receiver (usually)"""
        x = self.r.random()
        if x < 0.55:
            return ['p', self.r.randrange(1 << 16)]
        if x < 0.75:
            return ['pe', self.r.randrange(1 << 16)]
        return self.atom()

    def index(self):
        m = self.r.choice(('in', 'in', 'in', 'neg', 'neg', 'first', 'last', 'len', 'tail', 'tail-1', 'past', 'under',
                           'blk', 'negfirst', 'abs', 'edge', 'edge', 'edge', 'hot', 'hot', 'hot'))
        return ['i', m, self.r.randrange(1 << 16)]

    def count(self):
        return ['i', self.r.choice(('in', 'neg', 'len', 'past', 'first', 'abs', 'abs')), self.r.randrange(1 << 16)]

    def slice(self):
        r = self.r
        def e():
            return None if r.random() < 0.25 else self.index()
        step = r.choice((None, None, None, 1, 2, 3, -1, -1, -2, 7, -5, 32, 33))
        return ['s', e(), e(), step]

    def size(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return r.choice((0, 1, 1, 2, 3, 4, 5))
        if x < 0.9:
            return r.choice(SIZES)
        if x < 0.9 + self.cfg.get('p_big', 0.0):
            return r.choice(BIG)
        return r.randrange(0, 40)

    def iterable(self, n=None, kinds=IT_KINDS):
        k = self.r.choice(kinds)
        return ['it', k, self.size() if n is None else n, self.r.randrange(self.n), self.r.choice((1, 1, 1, 0, 3, 7))]

    def ref(self, kind):
        return ['v', kind, self.r.randrange(1 << 16)]

    def mapping(self):
        k = self.r.choice(('dict', 'dict', 'pairs', 'pmap', 'simdict', 'genpairs'))
        n = min(self.size(), 200)
        return ['mp', k, n, self.r.randrange(self.n), self.r.randrange(self.n)]

    def fn2(self):
        return ['f', self.r.choice(('left', 'right', 'pair', 'pair'))]

    def fnlr(self):
        return ['f', self.r.choice(('left', 'right'))]

    def lit(self, x):
        return ['n', x]


def take(atoms, n, off, step):
    m = len(atoms)
    return [atoms[(off + i * step) % m] for i in range(n)]


class World(object):
    SimMapping = A.SimMapping

    def __init__(self, sim, cfg, lib):
        self.sim = sim
        self.cfg = cfg
        self.lib = lib
        self.atoms = A.make_atoms(cfg)
        self.pools = {}
        self.cap = cfg.get('cap', 14)
        self.rng = random.Random('world-%s' % (sim.seed,))     # choices of *checks*, not of the workload
        self.serial = 0
        self.recheck = cfg.get('recheck', 2)
        self.memo = {}
        self.pins = {}

    # -- pools
    def add(self, kind, value, model):
        self.serial += 1
        e = Entry(kind, value, model, self.serial)
        pool = self.pools.setdefault(kind, [])
        if len(pool) >= self.cap:
            pool[self.serial * 7 % len(pool)] = e
        else:
            pool.append(e)
        if self.cfg.get('fp'):
            e.fp = KINDS[kind].observe(value)
        return e

    def get(self, kind, n):
        pool = self.pools.get(kind)
        if not pool:
            self.seed_kind(kind)
            pool = self.pools[kind]
        return pool[n % len(pool)]

    def pinned(self, spec):
        """The pool entry of a reference; the same one whenever an operation resolves it again."""
        key = (spec[1], spec[2])
        if key not in self.pins:
            self.pins[key] = self.get(spec[1], spec[2])
        return self.pins[key]

    def seed_kind(self, kind):
        for value, model in KINDS[kind].seeds(self):
            self.add(kind, value, model)

    # -- arguments
    def index_of(self, spec, n):
        _, mode, r = spec
        if mode == 'in':
            return r % n if n else 0
        if mode == 'neg':
            return -1 - (r % n) if n else -1
        if mode == 'first':
            return 0
        if mode == 'negfirst':
            return -n
        if mode == 'last':
            return n - 1
        if mode == 'len':
            return n
        if mode == 'past':
            return n + 1 + r % 3
        if mode == 'under':
            return -n - 1 - r % 3
        if mode == 'tail':
            return ((n - 1) >> 5) << 5 if n else 0
        if mode == 'tail-1':
            return max(0, (((n - 1) >> 5) << 5) - 1) if n else 0
        if mode == 'edge':
            # around the ends of leaves and inner nodes, again and again
            if not n:
                return 0
            tail = ((n - 1) >> 5) << 5
            base = (tail, 1024 if n > 1024 else 32, tail - 32, (n >> 10) << 10)[r % 4]
            i = base + (-1, 0, 31, -32, 1, -33)[r // 4 % 6]
            return max(0, min(n - 1, i))
        if mode == 'hot':
            # one leaf per run, so that several updates of one run meet in it
            if not n:
                return 0
            leaf = self.cfg.get('hot', 0) % ((n + 31) >> 5)
            return min(n - 1, (leaf << 5) + (0, 31, 1, 30, r // 4 % 32)[r % 5])
        if mode == 'blk':
            b = n // 32
            return (r % (b + 1)) * 32
        return r % 9 - 4

    def as_index(self, i, spec, target):
        """Some runs give vectors integers that are not ints."""
        if self.cfg.get('idx') and spec[2] % 3 == 0 and target.kind in ('vec', 'cvec'):
            return A.Idx(i)
        return i

    def model_len(self, target):
        m = target.model
        if isinstance(m, tuple):
            m = m[0]
        return len(m)

    def resolve(self, spec, target):
        """-> (real argument, model argument)"""
        t = spec[0]
        if t == 'a':
            x = self.atoms[spec[1] % len(self.atoms)]
            return x, x
        if t == 'n':
            return spec[1], spec[1]
        if t == 'p':
            ks = KINDS[target.kind].keys(target.model)
            if not ks:
                x = self.atoms[spec[1] % len(self.atoms)]
            else:
                x = ks[spec[1] % len(ks)]
            return x, x
        if t == 'pe':
            # towards the ends: last, first, around leaf boundaries
            ks = KINDS[target.kind].keys(target.model)
            if not ks:
                x = self.atoms[spec[1] % len(self.atoms)]
            else:
                n = len(ks)
                x = ks[(n - 1, 0, n - 2, ((n - 1) >> 5) << 5, 31, 32)[spec[1] % 6] % n]
            return x, x
        if t == 'i':
            i = self.index_of(spec, self.model_len(target))
            return self.as_index(i, spec, target), i
        if t == 's':
            n = self.model_len(target)
            f = lambda e: None if e is None else self.index_of(e, n)
            s = slice(f(spec[1]), f(spec[2]), spec[3])
            g = lambda i, e: None if i is None else self.as_index(i, e, target)
            return slice(g(s.start, spec[1]), g(s.stop, spec[2]), s.step), s
        if t == 'v':
            e = self.pinned(spec)
            return e.value, e.model
        if t == 'it':
            _, k, n, off, step = spec
            els = take(self.atoms, n, off, step)
            return self.mkiter(k, els)
        if t == 'mp':
            _, k, n, off, voff = spec
            ks = take(self.atoms, n, off, 1)
            vs = take(self.atoms, n, voff, 5)
            d = {}
            for a, b in zip(ks, vs):
                d[a] = b
            pairs = list(zip(ks, vs))
            if k == 'dict':
                return dict(d), d
            if k == 'pairs':
                return pairs, d
            if k == 'genpairs':
                return iter(list(pairs)), d
            if k == 'pmap':
                return self.lib.pmap(d), d
            if k == 'proxy':
                return types.MappingProxyType(dict(d)), d
            return A.SimMapping(d), d
        if t == 'f':
            return self.function(spec)
        if t == 'd':        # dict of specs
            rs = [(k, self.resolve(x, target)) for k, x in spec[1]]
            return dict((k, a) for k, (a, _) in rs), dict((k, b) for k, (_, b) in rs)
        if t == 'l':        # list of specs
            rs = [self.resolve(x, target) for x in spec[1]]
            return [a for a, _ in rs], [b for _, b in rs]
        return RESOLVERS[t](self, spec, target)

    def function(self, spec):
        """Two-argument merge functions.  Results are memoised so that the real run and the model
        see the very same result object for the same arguments."""
        name = spec[1]
        memo = self.memo

        def pure(l, r):
            if name == 'left':
                return l
            if name == 'right':
                return r
            key = (name, id(l), id(r))
            if key not in memo:
                memo[key] = (A.SimObj(100000 + len(memo)), l, r)
            return memo[key][0]

        def real(l, r):
            cb('fn')
            return pure(l, r)
        return real, pure

    def mkiter(self, k, els):
        lib = self.lib
        if k == 'list':
            return list(els), els
        if k == 'tuple':
            return tuple(els), els
        if k == 'gen':
            return (x for x in list(els)), els
        if k == 'iter':
            return A.SimIter(els), els
        if k == 'iterable':
            return A.SimIterable(els), els
        if k == 'seq':
            return A.SimSeq(els), els
        if k == 'pvec':
            return lib.pvector(els), els
        if k == 'pyvec':
            return lib.python_pvector(els), els
        if k == 'plist':
            return lib.plist(els), els
        if k == 'pdeque':
            return lib.pdeque(els), els
        if k == 'range' and len(els) > 200:     # beyond the interned integers elements have no identity
            return list(els), els
        if k == 'range':
            # a real range of ints, for integer populations only in effect; elements are ints
            r = range(len(els))
            return r, list(r)
        if k == 'pyset':
            return set(els), list(dict.fromkeys(els))
        if k == 'frozenset':
            return frozenset(els), list(dict.fromkeys(els))
        if k == 'pset':
            return lib.pset(els), list(dict.fromkeys(els))
        if k == 'dictkeys':
            d = dict.fromkeys(els)
            return d.keys(), list(d)
        raise ValueError(k)

    # -- one operation
    def outcome(self, fn, args):
        try:
            return ('ok', fn(*args))
        except (SimStop, SimHang):
            raise
        except BaseException as e:
            return ('exc', e)

    def real(self, task, op, fn, faultable, sub=''):
        """Run library code inside the simulation: yield points and faults are live."""
        sim = self.sim
        sim.begin_op(task, '%s%s' % (op['id'], sub), faultable=faultable and self.cfg.get('faults', False),
                     interruptible=self.cfg.get('interrupts', False))
        try:
            got = self.outcome(fn, ())
        finally:
            sim.quiet = True
        task.lastfault = task.fault
        sim.end_op(task)
        return got

    def run_op(self, task, op):
        """Execute one generated operation with all oracles."""
        sim = self.sim
        spec = OPS[op['o']]
        target = self.get(spec.kind, op['t']) if spec.kind else None
        if target is not None and self.model_len(target) > self.cfg.get('max_len', 3000) and not spec.big:
            return
        pins = self.pins = {}
        args = [self.resolve(a, target) for a in op['a']]
        rargs = [a for a, _ in args]
        margs = [b for _, b in args]
        held = [(e, e.fp) for e in self.arg_entries(op, target)] if self.cfg.get('fp') else ()
        exp = self.outcome(spec.model, ([target.model] if target else []) + margs)
        got = self.real(task, op, lambda: spec.real(*([target.value] if target else []) + rargs), spec.fault)
        fault = task.lastfault
        self.judge(task, op, spec, target, exp, got, fault, held, pins)

    def arg_entries(self, op, target):
        out = [target] if target else []
        for a in op['a']:
            if a[0] == 'v':
                out.append(self.pinned(a))
        return out

    def judge(self, task, op, spec, target, exp, got, fault, held, pins):
        sim = self.sim
        what = '%s on %s' % (op['o'], describe(target))
        if fault is not None:
            if got[0] == 'ok':
                sim.violate('C07', '%s: the injected %r was swallowed' % (what, fault), 'C07:swallowed')
            elif got[1] is not fault and not (isinstance(got[1], AttributeError) and got[1].__cause__ is fault and op['o'] == 'map.attr'):
                sim.violate('C07', '%s: the injected %r surfaced as %r' % (what, fault, got[1]), 'C07:replaced')
            sim.event('op', task.idx, op['id'], op['o'], 'fault')
            sim.stat('faulted_ops')
            for e, fp in held:
                self.check_fp(e, 'C07', 'after a fault in ' + what)
            if self.cfg.get('retry'):
                # the fault is gone: the same operation must now give the model's answer
                self.pins = pins
                args = [self.resolve(a, target) for a in op['a']]
                with quiet():
                    got2 = self.outcome(spec.real, ([target.value] if target else []) + [a for a, _ in args])
                msg = self.compare(spec, exp, got2, store=False)
                if msg:
                    sim.violate('C07', 'retry of %s after a fault: %s' % (what, msg), 'C07:retry')
            self.recheck_some()
            return None
        msg = self.compare(spec, exp, got, store=False)
        if msg:
            if got[0] == 'exc':
                # exceptions nobody injected
                msg += ' (%s: %s)' % (type(got[1]).__name__, str(got[1])[:120])
            sim.violate(spec.tag, '%s: %s' % (what, msg), '%s:%s' % (spec.tag, op['o']))
            return None
        sim.event('op', task.idx, op['id'], op['o'], brief(got))
        if got[0] == 'ok' and spec.res.startswith('new:'):
            self.add(spec.res[4:], got[1], exp[1])
        elif got[0] == 'ok' and spec.res.startswith('pair:'):
            self.add(spec.res[5:], got[1][0], exp[1][0])
            self.add(spec.res[5:], got[1][1], exp[1][1])
        for e, fp in held:
            self.check_fp(e, 'C01', 'after ' + what)
        self.recheck_some()
        return got

    def recheck_some(self):
        if not self.cfg.get('fp'):
            return
        for kind in sorted(self.pools):
            pool = self.pools[kind]
            for _ in range(min(self.recheck, len(pool))):
                self.check_fp(pool[self.rng.randrange(len(pool))], 'C01', 'later')

    def finish_probes(self):
        for kind, pool in self.pools.items():
            for e in pool:
                try:
                    n = self.model_len(e)
                except TypeError:
                    continue
                self.sim.probe('size.%s.%s' % (kind, '0' if n == 0 else '1-31' if n < 32 else '32-1023' if n < 1024 else '1024-32767' if n < 32768 else '32768+'))

    def recheck_all(self, tag='C01'):
        for kind in sorted(self.pools):
            for e in self.pools[kind]:
                if self.cfg.get('fp'):
                    self.check_fp(e, tag, 'at the end of the run')
                else:
                    msg = KINDS[kind].check(e.value, e.model)
                    if msg:
                        self.sim.violate(KINDS[kind].tag, 'value of kind %s at the end of the run: %s' % (kind, msg),
                                         KINDS[kind].tag + ':final')

    def check_fp(self, e, tag, when):
        fp = KINDS[e.kind].observe(e.value)
        if fp != e.fp:
            d = diff(e.fp, fp)
            self.sim.violate(tag, 'a %s changed %s: %s' % (e.kind, when, d), '%s:changed:%s' % (tag, e.kind))
            e.fp = fp

    def compare(self, spec, exp, got, store):
        if exp[0] == 'exc':
            if got[0] == 'ok':
                return 'expected %s, got %s' % (type(exp[1]).__name__, brief(got))
            if not isinstance(got[1], exc_class(exp[1])):
                return 'expected %s, got %s' % (type(exp[1]).__name__, type(got[1]).__name__)
            if getattr(exp[1], 'codes', None) is not None:
                from dst.decl import error_content
                return error_content(got[1], exp[1])
            return None
        if got[0] == 'exc':
            return 'expected %s, got exception' % brief(exp)
        return self.compare_result(spec.res, exp[1], got[1])

    def compare_result(self, res, e, g):
        if res.startswith('new:'):
            return KINDS[res[4:]].check(g, e)
        if res.startswith('pair:'):
            if type(g) is not tuple or len(g) != 2:
                return 'not a pair: %r' % (g,)
            return KINDS[res[5:]].check(g[0], e[0]) or KINDS[res[5:]].check(g[1], e[1])
        if res == 'el':
            return None if g is e else 'expected %r, got %r' % (e, g)
        if res == 'val':
            return None if type(g) is type(e) and g == e else 'expected %r, got %r' % (e, g)
        if res == 'els':
            g = list(g)
            if len(g) != len(e) or any(a is not b for a, b in zip(g, e)):
                return 'expected %s, got %s' % (short(e), short(g))
            return None
        if res == 'unordered':
            return unordered(e, g)
        if res == 'items':
            return items_check(e, g)
        if res == 'same':       # (expected-is-identical flag, expected) : identity with the receiver is documented
            return None if g else 'documented identity does not hold'
        return RESULTS[res](e, g)


def unordered(e, g):
    g = list(g)
    if len(g) != len(e):
        return 'expected %d elements %s, got %d %s' % (len(e), short(e), len(g), short(g))
    rest = list(g)
    for x in e:
        for i, y in enumerate(rest):
            if x is y or x == y:
                del rest[i]
                break
        else:
            return 'missing %r' % (x,)
    return None


def items_check(e, g):
    """g: iterable of pairs; e: dict.  Keys by equality, values by identity."""
    g = list(g)
    if len(g) != len(e):
        return 'expected %d items, got %d: %s' % (len(e), len(g), short(g))
    seen = set()
    for p in g:
        k, v = p
        if k in seen:
            return 'duplicate key %r' % (k,)
        seen.add(k)
        if k not in e:
            return 'unexpected key %r' % (k,)
        if e[k] is not v:
            return 'wrong value for key %r: %r instead of %r' % (k, v, e[k])
    return None


def exc_class(e):
    return getattr(e, 'classes', None) or type(e)


def short(x, n=8):
    x = list(x)
    return '%r%s' % (x[:n], '' if len(x) <= n else '...(%d)' % len(x))


def describe(t):
    if t is None:
        return 'factory'
    m = t.model
    if isinstance(m, tuple) and m and isinstance(m[0], (list, dict)):
        return '%s of %d (%r)' % (t.kind, len(m[0]), m[1:])
    try:
        return '%s of %d' % (t.kind, len(m))
    except TypeError:
        return t.kind


def brief(o):
    if o[0] == 'exc':
        return 'exc ' + type(o[1]).__name__
    v = o[1]
    if v is None or isinstance(v, (int, str, bool)):
        return 'ok %r' % (v,)
    try:
        return 'ok %s[%d]' % (type(v).__name__, len(v))
    except Exception:
        return 'ok %s' % type(v).__name__


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if len(x) != len(y):
                        return 'component %d: %d entries became %d' % (i, len(x), len(y))
                    bad = [j for j in range(len(x)) if x[j] != y[j]]
                    return 'component %d: entries %s differ' % (i, bad[:5])
                return 'component %d: %s became %s' % (i, str(x)[:200], str(y)[:200])
    return '%s became %s' % (str(a)[:200], str(b)[:200])
