"""Map, set and bag: operations and dict / set / multiset reference models.

Models: map = dict; set = dict element -> True, or None where operands held equal but different objects and either may
be kept; bag = dict element -> positive count.
"""
import types

from pyrsistent import InvariantException

from dst.world import OPS, Kind, take, unordered, items_check, RESULTS
from dst import ops_seq as S
from dst.lib import discard as _discard
from dst.sim import SimFault
from dst.ops_seq import op, ids, safe_hash

MISSING = object()


def raiser(exc):
    raise exc


def L():
    return S.LIB


# ------------------------------------------------------------------ map
def map_check(v, m):
    if not isinstance(v, L().PMap):
        return 'not a pmap: %r' % (type(v),)
    if len(v) != len(m):
        return 'expected length %d, got %d' % (len(m), len(v))
    msg = items_check(m, v.items())
    if msg:
        return 'items: ' + msg
    held = {k: k for k in v}
    for k in m:
        if held[k] is not k:
            return 'key %r is held as the equal, but different %r' % (k, held[k])
        try:
            if v[k] is not m[k]:
                return 'lookup of %r gives %r instead of %r' % (k, v[k], m[k])
        except KeyError:
            return 'lookup of key %r fails' % (k,)
        if k not in v:
            return 'key %r not contained' % (k,)
    return None


def map_observe(v):
    items = list(v.items())
    return (len(v), tuple((id(a), id(b)) for a, b in items), ids(v), ids(v.values()), ids(v[k] for k in v), safe_hash(v),
            repr(v) if len(items) <= 100 else None, len(v.keys()))


def map_seeds(w):
    out = []
    for j, (n, ps) in enumerate(w.cfg.get('mseeds', ((0, 0), (1, 0), (3, 1), (6, 0), (20, 2)))):
        d = {}
        for a, b in zip(take(w.atoms, n, j * 2, 1), take(w.atoms, n, j, 3)):
            d[a] = b
        out.append((w.lib.pmap(d, ps) if ps else w.lib.pmap(d), d))
    return out


Kind('map', 'C03', map_check, map_observe, lambda m: list(m), map_seeds)
NM = 'new:map'
T = 'C03'


def d_set(m, k, v):
    m = dict(m)
    m[k] = v
    return m


def d_remove(m, k):
    m = dict(m)
    del m[k]
    return m


def d_discard(m, k):
    m = dict(m)
    m.pop(k, None)
    return m


def d_update(m, *others):
    m = dict(m)
    for o in others:
        m.update(o)
    return m


def d_update_with(m, f, *others):
    m = dict(m)
    for o in others:
        for k, v in o.items():
            m[k] = f(m[k], v) if k in m else v
    return m


def sets_loop(v, ks, vs):
    for a, b in zip(ks, vs):
        v = v.set(a, b)
    return v


def dsets_loop(m, ks, vs):
    m = dict(m)
    for a, b in zip(ks, vs):
        m[a] = b
    return m


def rem_loop(v, ks):
    for a in ks:
        v = v.discard(a)
    return v


def drem_loop(m, ks):
    m = dict(m)
    for a in ks:
        m.pop(a, None)
    return m


def map_evo(v, sets, dels):
    e = v.evolver()
    for i in range(0, len(sets), 2):
        e[sets[i]] = sets[i + 1]
    for k in dels:
        if k in e:
            del e[k]
    return settle(e)


def settle(e):
    """persistent(); content that was refused is refused again"""
    try:
        return e.persistent()
    except InvariantException as exc:
        again = None
        try:
            r = e.persistent()
        except InvariantException as a:
            again = a
        if again is None:
            return r
        if sorted(map(str, again.invariant_errors)) != sorted(map(str, exc.invariant_errors)) or \
                sorted(again.missing_fields) != sorted(exc.missing_fields):
            return again
        raise exc


def dmap_evo(m, sets, dels):
    m = dict(m)
    for i in range(0, len(sets), 2):
        m[sets[i]] = sets[i + 1]
    for k in dels:
        m.pop(k, None)
    return m


def mapping_ok(g):
    sp = g.mapping()
    sp[1] = g.r.choice(('dict', 'dict', 'pmap', 'simdict', 'proxy'))
    return sp


PS = lambda g: g.lit(g.r.choice((0, 0, 1, 2, 3, 5, 7, 8, 16, 31, 32, 33, 100)))
LST = lambda g, n=None: g.iterable(n, ('list',))
KV = lambda g, lo, hi: ['l', [y for _ in range(g.r.randrange(lo, hi)) for y in (g.pick(), g.atom())]]

op('map.new', None, lambda g: [g.mapping(), PS(g)], lambda d, ps: L().pmap(d, ps), lambda d, ps: dict(d), NM, T, 1.5)
op('map.new1', None, lambda g: [g.mapping()], lambda d: L().pmap(d), lambda d: dict(d), NM, T, 1)
op('map.m', None, lambda g: [g.atom(), g.atom()], lambda a, b: L().m(a=a, key=b), lambda a, b: {'a': a, 'key': b}, NM, T, 0.3)
op('map.set', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, x: v.set(k, x), d_set, NM, T, 5)
op('map.setnew', 'map', lambda g: [g.atom(), g.atom()], lambda v, k, x: v.set(k, x), d_set, NM, T, 5)
op('map.sets', 'map', lambda g: [LST(g, g.r.choice((5, 9, 14, 24, 40, 70))), LST(g, 70)], sets_loop, dsets_loop, NM, T, 1.5)
op('map.remove', 'map', lambda g: [g.pick()], lambda v, k: v.remove(k), d_remove, NM, T, 3)
op('map.discard', 'map', lambda g: [g.pick()], lambda v, k: v.discard(k), d_discard, NM, T, 2)
op('map.discards', 'map', lambda g: [LST(g, g.r.choice((3, 8, 20)))], rem_loop, drem_loop, NM, T, 0.7)
op('map.discardsame', 'map', lambda g: [g.atom()], lambda v, k: (v.discard(k) is v) if k not in v else True, lambda m, k: (hash(k), True)[1], 'same', T, 0.5)
op('map.trset', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, x: v.transform([k], x), d_set, NM, T, 0.5)
op('map.trdiscard', 'map', lambda g: [g.pick()], lambda v, k: v.transform([k], _discard), d_discard, NM, T, 0.5)
op('map.trpred', 'map', lambda g: [g.atom(), g.atom()], lambda v, k, x: v.transform([lambda y: y is k], lambda _: x),
   lambda m, k, x: {y: (x if y is k else o) for y, o in m.items()}, NM, T, 0.3)
op('map.update', 'map', lambda g: [mapping_ok(g)], lambda v, d: v.update(d), d_update, NM, T, 2)
op('map.update2', 'map', lambda g: [mapping_ok(g), mapping_ok(g)], lambda v, d, e: v.update(d, e), d_update, NM, T, 1)
op('map.updatev', 'map', lambda g: [g.ref('map')], lambda v, d: v.update(d), d_update, NM, T, 1)
op('map.update0', 'map', lambda g: [], lambda v: v.update(), d_update, NM, T, 0.2)
op('map.update_with', 'map', lambda g: [g.fn2(), mapping_ok(g)], lambda v, f, d: v.update_with(f, d), d_update_with, NM, T, 1.5)
op('map.update_with2', 'map', lambda g: [g.fn2(), mapping_ok(g), g.ref('map')], lambda v, f, d, e: v.update_with(f, d, e), d_update_with, NM, T, 1)
op('map.add', 'map', lambda g: [mapping_ok(g)], lambda v, d: v + d, d_update, NM, T, 0.7)
op('map.or', 'map', lambda g: [g.ref('map')], lambda v, d: v | d, d_update, NM, T, 0.7)
op('map.evo', 'map', lambda g: [KV(g, 1, 9), ['l', [g.pick() for _ in range(g.r.randrange(4))]]], map_evo, dmap_evo, NM, T, 1.5)
op('map.fill', 'map', lambda g: [LST(g, g.r.choice((g.n, g.n // 2, g.n * 2 // 3))), g.atom()], lambda v, ks, x: v.update(dict.fromkeys(ks, x)),
   lambda m, ks, x: d_update(m, dict.fromkeys(ks, x)), NM, T, 0.3)
op('map.drain', 'map', lambda g: [['l', []], LST(g, g.r.choice((g.n, g.n // 2, g.n * 2 // 3)))], map_evo, dmap_evo, NM, T, 0.3)
op('map.get', 'map', lambda g: [g.pick()], lambda v, k: v[k], lambda m, k: m[k], 'el', T, 2)
op('map.getm', 'map', lambda g: [g.pick()], lambda v, k: v.get(k), lambda m, k: m.get(k), 'el', T, 1)
op('map.getd', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, d: v.get(k, d), lambda m, k, d: m.get(k, d), 'el', T, 1)
op('map.attr', 'map', lambda g: [g.lit(g.r.choice(('k0', 'k1', 'k5', 'k9', 'a', 'key', 'nope', 'k17', 'b')))], lambda v, k: getattr(v, k),
   lambda m, k: m[k] if k in m else raiser(AttributeError(k)), 'el', T, 0.5)
op('map.in', 'map', lambda g: [g.pick()], lambda v, k: k in v, lambda m, k: k in m, 'val', T, 1.5)
op('map.len', 'map', lambda g: [], len, len, 'val', T, 0.5)
op('map.bool', 'map', lambda g: [], bool, bool, 'val', T, 0.2)
op('map.iter', 'map', lambda g: [], lambda v: list(v), lambda m: list(m), 'unordered', T, 0.5)
op('map.iterkeys', 'map', lambda g: [], lambda v: list(v.iterkeys()), lambda m: list(m), 'unordered', T, 0.3)
op('map.items', 'map', lambda g: [], lambda v: list(v.items()), lambda m: m, 'items', T, 0.7)
op('map.iteritems', 'map', lambda g: [], lambda v: list(v.iteritems()), lambda m: m, 'items', T, 0.3)
op('map.values', 'map', lambda g: [], lambda v: [id(x) for x in v.values()], lambda m: [id(x) for x in m.values()], 'unordered', T, 0.5)
op('map.itervalues', 'map', lambda g: [], lambda v: [id(x) for x in v.itervalues()], lambda m: [id(x) for x in m.values()], 'unordered', T, 0.3)
op('map.lenviews', 'map', lambda g: [], lambda v: (len(v.values()), len(v.items()), len(v.keys())), lambda m: (len(m),) * 3, 'val', T, 0.3)
op('map.inviews', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, x: (x in v.values(), (k, x) in v.items(), k in v.keys()),
   lambda m, k, x: (x in m.values(), (k, x) in m.items(), k in m), 'val', T, 0.7)
op('map.initem', 'map', lambda g: [g.pick()], lambda v, k: (k in v) and (k, v[k]) in v.items() and v[k] in v.values(),
   lambda m, k: k in m, 'val', T, 0.5)
op('map.itemseq', 'map', lambda g: [g.ref('map')], lambda v, o: v.items() == o.items(), lambda m, o: m == o, 'val', T, 0.4)
op('map.keysset', 'map', lambda g: [], lambda v: v.keys(), lambda m: dict.fromkeys(m, True), 'new:set', T, 0.6)
op('map.eq', 'map', lambda g: [g.ref('map')], lambda v, o: (v == o, v != o), lambda m, o: (m == o, m != o), 'val', T, 1)
op('map.eqd', 'map', lambda g: [mapping_ok(g)], lambda v, o: (v == o, v != o, o == v), lambda m, o: (m == o, m != o, m == o), 'val', T, 0.7)
op('map.eqcopy', 'map', lambda g: [PS(g)], lambda v, ps: (v == L().pmap(dict(v), ps), v == dict(v), dict(v) == v, v != dict(v),
   v == types.MappingProxyType(dict(v)), v == list(v.items())), lambda m, ps: (True, True, True, False, True, False), 'val', T, 0.5)
op('map.eqnear', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, x: (v == v.set(k, x), v.set(k, x) == dict(v), v.discard(k) == v),
   lambda m, k, x: (m == d_set(m, k, x), m == d_set(m, k, x), k not in m), 'val', T, 0.6)
op('map.order', 'map', lambda g: [g.ref('map')], lambda v, o: v < o, lambda m, o: raiser(TypeError()), 'val', T, 0.1)
op('map.reversed', 'map', lambda g: [], lambda v: list(reversed(v)), lambda m: raiser(TypeError()), 'val', T, 0.1)
op('map.unhashable', 'map', lambda g: [g.atom()], lambda v, x: v.set([x], x), lambda m, x: raiser(TypeError()), NM, T, 0.1)
op('map.copy', 'map', lambda g: [], lambda v: v.copy(), lambda m: m, NM, T, 0.2)


VIEW = lambda g: [g.lit(g.r.choice(('items', 'values', 'keys')))]
S.fixed_ops('map', T)


def reprs(v, els, pre):
    """The representation shows every element."""
    t = repr(v)
    return t.startswith(pre) and t.endswith(')') and all(repr(x) in t for x in els)


op('map.repr', 'map', lambda g: [], lambda v: reprs(v, list(v) + list(v.values()), 'pmap('), lambda m: True, 'val', T, 0.1, True, False)
op('map.viewrepr', 'map', VIEW, lambda v, n: reprs(getattr(v, n)(), v.values() if n == 'values' else v, 'p') and str(getattr(v, n)()) == repr(getattr(v, n)()),
   lambda m, n: True, 'val', T, 0.1, True, False)
op('map.viewfixed', 'map', lambda g: VIEW(g) + [g.lit(g.r.randrange(4))], lambda v, n, h: S.poke(getattr(v, n)(), h), S.FIXED, 'val', T, 0.1)
op('map.viewrev', 'map', lambda g: [g.lit(g.r.choice(('items', 'values')))], lambda v, n: list(reversed(getattr(v, n)())), S.WRONG, 'val', T, 0.05)
op('map.vieweq', 'map', lambda g: [g.pick(), g.atom()], lambda v, k, x: (lambda w, i: (i == i, i == v.items(), i != v.items(), i == w.items(), w.items() == i, i == 5, i == v))(v.set(k, x), v.items()),
   lambda m, k, x: (True, True, False, m == d_set(m, k, x), m == d_set(m, k, x), False, False), 'val', T, 0.3)
op('map.foreign', 'map', lambda g: [g.lit(g.r.choice((5, None, 'x')))], lambda v, o: (v == o, v != o, o == v), lambda m, o: (False, True, False), 'val', T, 0.1)
op('map.badnew', None, lambda g: [], lambda: L().pmap(5), S.WRONG, NM, T, 0.1)
op('map.unhashget', 'map', lambda g: [g.atom()], lambda v, x: v.get([x]), S.WRONG, 'el', T, 0.1)
op('map.inwrong', 'map', lambda g: [g.lit(g.r.choice((5, None, 'x', (1, 2, 3))))], lambda v, o: o in v.items(), lambda m, o: False, 'val', T, 0.1)


# ------------------------------------------------------------------ set
def set_check(v, m):
    if not isinstance(v, L().PSet):
        return 'not a pset: %r' % (type(v),)
    if len(v) != len(m):
        return 'expected %d elements, got %d' % (len(m), len(v))
    els = list(v)
    if len(els) != len(m):
        return 'iteration gives %d elements instead of %d' % (len(els), len(m))
    got = {x: x for x in els}
    if len(got) != len(els):
        return 'duplicates in iteration'
    for k, known in m.items():
        if k not in got:
            return 'element %r missing from iteration' % (k,)
        if known and got[k] is not k:
            return 'element %r is held as the equal, but different %r' % (k, got[k])
        if k not in v:
            return 'element %r not contained' % (k,)
    return None


def set_observe(v):
    els = list(v)
    return (len(v), ids(els), safe_hash(v), repr(v) if len(els) <= 100 else None, all(x in v for x in els))


def set_seeds(w):
    out = []
    for j, n in enumerate(w.cfg.get('sseeds', (0, 1, 3, 6, 20))):
        els = take(w.atoms, n, j * 2, 1)
        out.append((w.lib.pset(els), dict.fromkeys(els, True)))
    return out


Kind('set', 'C04', set_check, set_observe, lambda m: list(m), set_seeds)
NS = 'new:set'
T = 'C04'


def fk(it):
    """the elements of an iterable, or of the model of a set"""
    return {k: v is not None or None for k, v in it.items()} if type(it) is dict else dict.fromkeys(it, True)


def either(m, o):
    """o -> the elements of o, those that m holds as a different object not determined"""
    same = {k: k for k in m}
    return {x: (None if x in m and (same[x] is not x or m[x] is None) else v) for x, v in o.items()}


def s_and(m, it):
    o = either(m, fk(it))
    return {x: o[x] for x in o if x in m}


def s_or(m, it):
    return {**m, **either(m, fk(it))}


def s_upd(m, it):
    return {**m, **{x: v for x, v in fk(it).items() if x not in m}}


def s_sub(m, it):
    o = fk(it)
    return {x: m[x] for x in m if x not in o}


def s_xor(m, it):
    o = fk(it)
    r = s_sub(m, o)
    r.update(s_sub(o, m))
    return r


def sev(v, adds, dels):
    e = v.evolver()
    for x in adds:
        e.add(x)
    for x in dels:
        try:
            e.remove(x)
        except KeyError as ex:
            if isinstance(ex, SimFault):
                raise
    return settle(e)


def msev(m, adds, dels):
    m = s_upd(m, adds)
    for x in dels:
        m.pop(x, None)
    return m


def cmp5(a, b):
    return (a <= b, a < b, a >= b, a > b, a == b, a != b)


def addloop(v, els):
    for x in els:
        v = v.add(x)
    return v


ITB = ('list', 'tuple', 'gen', 'iter', 'iterable', 'pvec', 'plist', 'dictkeys', 'pdeque', 'pyset', 'pset')
PY = lambda g: g.iterable(None, ('pyset', 'frozenset', 'pset', 'dictkeys'))
op('set.new', None, lambda g: [g.iterable()], lambda it: L().pset(it), fk, NS, T, 1)
op('set.newps', None, lambda g: [g.iterable(), PS(g)], lambda it, ps: L().pset(it, ps), lambda it, ps: fk(it), NS, T, 0.7)
op('set.s', None, lambda g: [g.iterable(g.r.randrange(7), ('list',))], lambda it: L().s(*it), fk, NS, T, 0.3)
op('set.add', 'set', lambda g: [g.atom()], lambda v, x: v.add(x), lambda m, x: s_upd(m, [x]), NS, T, 4)
op('set.adds', 'set', lambda g: [LST(g, g.r.choice((6, 12, 24, 50)))], addloop, s_upd, NS, T, 1)
op('set.update', 'set', lambda g: [g.iterable()], lambda v, it: v.update(it), s_upd, NS, T, 2)
op('set.updatev', 'set', lambda g: [g.ref('set')], lambda v, it: v.update(it), s_upd, NS, T, 0.7)
op('set.fill', 'set', lambda g: [LST(g, g.r.choice((g.n, g.n // 2, g.n * 2 // 3)))], lambda v, it: v.update(it), s_upd, NS, T, 0.3)
op('set.drain', 'set', lambda g: [LST(g, 0), LST(g, g.r.choice((g.n, g.n // 2, g.n * 2 // 3)))], sev, msev, NS, T, 0.3)
op('set.remove', 'set', lambda g: [g.pick()], lambda v, x: v.remove(x), d_remove, NS, T, 3)
op('set.discard', 'set', lambda g: [g.pick()], lambda v, x: v.discard(x), d_discard, NS, T, 2)
op('set.discardsame', 'set', lambda g: [g.atom()], lambda v, k: (v.discard(k) is v) if k not in v else True, lambda m, k: (hash(k), True)[1], 'same', T, 0.4)
op('set.in', 'set', lambda g: [g.pick()], lambda v, x: x in v, lambda m, x: x in m, 'val', T, 1)
op('set.len', 'set', lambda g: [], len, len, 'val', T, 0.3)
op('set.bool', 'set', lambda g: [], bool, bool, 'val', T, 0.2)
op('set.iter', 'set', lambda g: [], list, list, 'unordered', T, 0.5)
for _n, _o, _m in (('and', '__and__', s_and), ('or', '__or__', s_or), ('sub', '__sub__', s_sub), ('xor', '__xor__', s_xor)):
    import operator as _op
    _f = getattr(_op, _n + '_' if _n in ('and', 'or') else _n)
    op('set.%sv' % _n, 'set', lambda g: [g.ref('set')], _f, _m, NS, T, 1.2)
    op('set.%sp' % _n, 'set', lambda g: [PY(g)], _f, _m, NS, T, 0.8)
    _name = {'and': 'intersection', 'or': 'union', 'sub': 'difference', 'xor': 'symmetric_difference'}[_n]
    op('set.r%sp' % _n, 'set', lambda g: [PY(g)], lambda v, o, f=_f: f(o, v), (lambda m, o, f=_m: f(fk(o), m)), 'setany', T, 0.4)
    op('set.%sm' % _n, 'set', lambda g: [g.iterable(None, ITB)], lambda v, it, name=_name: getattr(v, name)(it), _m, NS, T, 0.6)
op('set.cmpv', 'set', lambda g: [g.ref('set')], cmp5, lambda m, o: cmp5(m.keys(), o.keys()), 'val', T, 1)
op('set.cmpp', 'set', lambda g: [PY(g)], lambda v, o: cmp5(v, o) + cmp5(o, v), lambda m, o: cmp5(m.keys(), set(o)) + cmp5(set(o), m.keys()), 'val', T, 1)
op('set.cmpsub', 'set', lambda g: [g.pick(), g.atom()], lambda v, x, y: cmp5(v, v.discard(x)) + cmp5(v.add(y), v) + cmp5(v.discard(x).add(y), v),
   lambda m, x, y: cmp5(m.keys(), d_discard(m, x).keys()) + cmp5({**m, y: 1}.keys(), m.keys()) + cmp5({**d_discard(m, x), y: 1}.keys(), m.keys()), 'val', T, 1)
op('set.issub', 'set', lambda g: [g.ref('set')], lambda v, o: (v.issubset(o), v.issuperset(o), v.isdisjoint(o)),
   lambda m, o: (m.keys() <= o.keys(), m.keys() >= o.keys(), not s_and(m, o)), 'val', T, 0.8)
op('set.issubi', 'set', lambda g: [LST(g)], lambda v, o: (v.issubset(o), v.issuperset(o), v.isdisjoint(o)),
   lambda m, o: (m.keys() <= fk(o).keys(), m.keys() >= fk(o).keys(), not s_and(m, o)), 'val', T, 0.5)
op('set.isdis', 'set', lambda g: [g.iterable()], lambda v, o: v.isdisjoint(o), lambda m, o: not s_and(m, o), 'val', T, 0.4)
op('set.eqcopy', 'set', lambda g: [PS(g)], lambda v, ps: (v == L().pset(list(v), ps or 1), v == set(v), frozenset(v) == v, v != set(v),
   hash(v) == hash(frozenset(v)), v == list(v)), lambda m, ps: (True, True, True, False, True, False), 'val', T, 0.5)
op('set.evo', 'set', lambda g: [LST(g), ['l', [g.pick() for _ in range(g.r.randrange(5))]]], sev, msev, NS, T, 1.5)
op('set.copy', 'set', lambda g: [], lambda v: v.copy(), lambda m: m, NS, T, 0.2)
op('set.unhashable', 'set', lambda g: [g.atom()], lambda v, x: v.add([x]), lambda m, x: raiser(TypeError()), NS, T, 0.1)


S.fixed_ops('set', T)
op('set.repr', 'set', lambda g: [], lambda v: reprs(v, v, 'pset('), lambda m: True, 'val', T, 0.1, True, False)
op('set.foreign', 'set', lambda g: [g.lit(g.r.choice((5, None, 'x')))], lambda v, o: (v == o, v != o, o == v), lambda m, o: (False, True, False), 'val', T, 0.1)
op('set.badop', 'set', lambda g: [g.lit(g.r.choice(('and', 'or', 'sub', 'xor'))), g.lit(g.r.choice((5, None)))],
   lambda v, n, o: getattr(_op, n + '_' if n in ('and', 'or') else n)(v, o), S.WRONG, NS, T, 0.1)
op('set.order', 'set', lambda g: [g.lit(g.r.choice(('lt', 'le', 'gt', 'ge'))), g.lit(g.r.choice((5, None)))], lambda v, n, o: getattr(_op, n)(v, o), S.WRONG, NS, T, 0.1)
op('set.badnew', None, lambda g: [], lambda: L().pset(5), S.WRONG, NS, T, 0.1)


def setany(e, g):
    """PSet or builtin set (reflected operators): elements only"""
    g = list(g)
    return None if len(g) == len(e) and all(x in e for x in g) else 'expected %r, got %r' % (list(e), g)


RESULTS['setany'] = setany


# ------------------------------------------------------------------ bag
def bag_check(v, m):
    if not isinstance(v, L().PBag):
        return 'not a pbag: %r' % (type(v),)
    n = sum(m.values())
    if len(v) != n:
        return 'expected %d elements, got %d' % (n, len(v))
    for k, c in m.items():
        if v.count(k) != c:
            return 'count of %r is %d instead of %d' % (k, v.count(k), c)
        if k not in v:
            return '%r not contained' % (k,)
    got = {}
    for x in v:
        got[x] = got.get(x, 0) + 1
    if got != m:
        return 'iteration gives %r instead of %r' % (got, m)
    return None


def bag_observe(v):
    els = list(v)
    return (len(v), ids(els), safe_hash(v), repr(v) if len(els) <= 100 else None, tuple(v.count(x) for x in els))


def cnt(it, m=()):
    m = dict(m)
    for x in it:
        m[x] = m.get(x, 0) + 1
    return m


def bag_seeds(w):
    return [(w.lib.pbag(els), cnt(els)) for els in (take(w.atoms, n, j, st) for j, (n, st) in enumerate(((0, 1), (1, 1), (5, 1), (6, 0), (30, 1))))]


Kind('bag', 'C04', bag_check, bag_observe, lambda m: list(m), bag_seeds)
NB = 'new:bag'


def b_remove(m, x):
    m = dict(m)
    c = m[x]
    if c == 1:
        del m[x]
    else:
        m[x] = c - 1
    return m


def b_comb(f):
    def g(m, o):
        r = {}
        for k in list(m) + list(o):
            c = f(m.get(k, 0), o.get(k, 0))
            if c > 0:
                r[k] = c
        return r
    return g


op('bag.new', None, lambda g: [g.iterable()], lambda it: L().pbag(it), cnt, NB, T, 1.5)
op('bag.b', None, lambda g: [g.iterable(g.r.randrange(7), ('list',))], lambda it: L().b(*it), cnt, NB, T, 0.3)
op('bag.add', 'bag', lambda g: [g.pick()], lambda v, x: v.add(x), lambda m, x: cnt([x], m), NB, T, 3)
op('bag.update', 'bag', lambda g: [g.iterable()], lambda v, it: v.update(it), lambda m, it: cnt(it, m), NB, T, 2)
op('bag.remove', 'bag', lambda g: [g.pick()], lambda v, x: v.remove(x), b_remove, NB, T, 3)
op('bag.count', 'bag', lambda g: [g.pick()], lambda v, x: v.count(x), lambda m, x: m.get(x, 0), 'val', T, 1)
op('bag.in', 'bag', lambda g: [g.pick()], lambda v, x: x in v, lambda m, x: x in m, 'val', T, 0.7)
op('bag.len', 'bag', lambda g: [], len, lambda m: sum(m.values()), 'val', T, 0.4)
op('bag.iter', 'bag', lambda g: [], list, lambda m: [k for k in m for _ in range(m[k])], 'unordered', T, 0.5)
op('bag.plus', 'bag', lambda g: [g.ref('bag')], lambda v, o: v + o, b_comb(lambda a, b: a + b), NB, T, 1.2)
op('bag.minus', 'bag', lambda g: [g.ref('bag')], lambda v, o: v - o, b_comb(lambda a, b: a - b), NB, T, 1.2)
op('bag.or', 'bag', lambda g: [g.ref('bag')], lambda v, o: v | o, b_comb(max), NB, T, 1.2)
op('bag.and', 'bag', lambda g: [g.ref('bag')], lambda v, o: v & o, b_comb(min), NB, T, 1.2)
op('bag.eq', 'bag', lambda g: [g.ref('bag')], lambda v, o: (v == o, v != o), lambda m, o: (m == o, m != o), 'val', T, 1)
op('bag.eqnear', 'bag', lambda g: [g.atom()], lambda v, x: (v == v.add(x), v == v.add(x).remove(x), hash(v) == hash(v.add(x).remove(x)), v == L().pbag(list(v))),
   lambda m, x: (hash(x), (False, True, True, True))[1], 'val', T, 0.7)
op('bag.badop', 'bag', lambda g: [g.atom()], lambda v, x: v + [x], lambda m, x: raiser(TypeError()), 'val', T, 0.1)
op('bag.order', 'bag', lambda g: [g.ref('bag')], lambda v, o: v < o, lambda m, o: raiser(TypeError()), 'val', T, 0.1)
S.fixed_ops('bag', T)
op('bag.repr', 'bag', lambda g: [], lambda v: reprs(v, v, 'pbag('), lambda m: True, 'val', T, 0.1, True, False)
op('bag.badops', 'bag', lambda g: [g.lit(g.r.choice(('and_', 'or_', 'sub', 'add'))), g.lit(g.r.choice((5, None, 'x')))], lambda v, n, o: getattr(_op, n)(v, o), S.WRONG, NB, T, 0.2)
op('bag.badupdate', 'bag', lambda g: [], lambda v: v.update(5), S.WRONG, NB, T, 0.1)
op('bag.unhashable', 'bag', lambda g: [g.atom()], lambda v, x: v.add([x]), S.WRONG, NB, T, 0.1)
