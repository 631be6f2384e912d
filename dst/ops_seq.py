"""Vector, linked list and deque: operations and list/deque reference models."""
import operator
from itertools import islice

from dst.world import Op, OPS, Kind, KINDS, take

LIB = None      # set by the worker: namespace with the library's public names


def ids(xs):
    return tuple(map(id, xs))


def same_els(got, exp):
    """None or message; identity of elements."""
    if len(got) != len(exp):
        return 'expected %d elements, got %d' % (len(exp), len(got))
    if not all(map(operator.is_, got, exp)):
        for i, (a, b) in enumerate(zip(got, exp)):
            if a is not b:
                return 'element %d is %r instead of %r' % (i, a, b)
    return None


def safe_hash(v):
    try:
        return hash(v)
    except TypeError as e:
        return 'unhashable'


# ------------------------------------------------------------------ vector
def vec_check(v, m):
    if not isinstance(v, LIB.PVector):
        return 'not a pvector: %r' % (type(v),)
    if len(v) != len(m):
        return 'expected length %d, got %d' % (len(m), len(v))
    msg = same_els(v.tolist(), m)
    if msg:
        return 'tolist: ' + msg
    n = len(m)
    if n <= 5000:
        msg = same_els(list(v), m)
        if msg:
            return 'iteration: ' + msg
        probe = range(n) if n <= 70 else list(range(0, n, 31)) + [n - 1, n - 32, n - 33]
    else:
        probe = list(range(0, n, max(1, n // 97))) + [n - 1, n - 2, n - 32, n - 33]
    for i in probe:
        if v[i] is not m[i]:
            return 'index %d: %r instead of %r' % (i, v[i], m[i])
        if v[i - n] is not m[i]:
            return 'index %d: %r instead of %r' % (i - n, v[i - n], m[i])
    return None


def vec_observe(v):
    l = v.tolist()
    n = len(l)
    it = ids(l)
    if n > 5000:
        return (len(v), hash(it), ids(v[i] for i in range(0, n, n // 53)))
    # repr formats every element and hash materialises a tuple: bounded, so that large vectors stay affordable
    return (len(v), it, ids(iter(v)), ids(v[i] for i in range(0, n, 1 + n // 40)), safe_hash(v),
            repr(v) if n <= 200 else None)


def vec_seeds(w):
    lib = w.lib
    out = []
    for j, n in enumerate(w.cfg.get('seed_sizes', (0, 1, 33))):
        els = take(w.atoms, n, j * 3, 1)
        way = (j + w.cfg.get('ways', 0)) % 4
        if way == 0 or n < 2:
            v = lib.pvector(els)
        elif way == 1:
            k = max(0, n - 40)
            v = lib.pvector(els[:k])
            for x in els[k:]:
                v = v.append(x)
        elif way == 2:
            k = n // 2
            e = lib.pvector(els[:k]).evolver()
            e.extend(els[k:])
            v = e.persistent()
        else:
            k = n - n // 3
            v = lib.pvector(els[:k]) + lib.pvector(els[k:])
        out.append((v, els))
    return out


Kind('vec', 'C02', vec_check, vec_observe, lambda m: m, vec_seeds)


def op(name, kind, gen, real, model, res, tag, weight=1.0, fault=True, big=True):
    OPS[name] = Op(name, kind, gen, real, model, res, tag, weight, fault, big)


def m_set(m, i, x):
    n = len(m)
    if i < 0:
        i += n
    if i == n:
        return m + [x]
    if not 0 <= i < n:
        raise IndexError(i)
    m = list(m)
    m[i] = x
    return m


def m_mset(m, args):
    for i in range(0, len(args), 2):
        m = m_set(m, args[i], args[i + 1])
    return m


def m_delete(m, i, stop=None):
    m = list(m)
    if stop is None:
        del m[i]
    else:
        del m[i:stop]
    return m


def m_remove(m, x):
    m = list(m)
    m.remove(x)
    return m


def strip(x):
    return x


NV = 'new:vec'
T = 'C02'
op('vec.new', None, lambda g: [g.iterable()], lambda it: LIB.pvector(it), lambda it: list(it), NV, T, 1.0)
op('vec.v', None, lambda g: [g.iterable(min(g.size(), 70), ('list',))], lambda it: LIB.v(*it), lambda it: list(it), NV, T, 0.3)
op('vec.append', 'vec', lambda g: [g.atom()], lambda v, x: v.append(x), lambda m, x: m + [x], NV, T, 4)
op('vec.appends', 'vec', lambda g: [g.lit(g.r.choice((2, 3, 31, 32, 33, 34))), g.atom()],
   lambda v, n, x: [v := v.append(x) for _ in range(n)][-1], lambda m, n, x: m + [x] * n, NV, T, 1)
op('vec.extend', 'vec', lambda g: [g.iterable()], lambda v, it: v.extend(it), lambda m, it: m + list(it), NV, T, 3)
op('vec.add', 'vec', lambda g: [g.iterable()], lambda v, it: v + it, lambda m, it: m + list(it), NV, T, 1)
op('vec.addv', 'vec', lambda g: [g.ref('vec')], lambda v, o: v + o, lambda m, o: m + o if len(m) + len(o) < 6000 else (m + o), NV, T, 1)
op('vec.extendv', 'vec', lambda g: [g.ref('vec')], lambda v, o: v.extend(o), lambda m, o: m + o, NV, T, 1)
op('vec.mul', 'vec', lambda g: [g.lit(g.r.choice((-1, 0, 1, 2, 2, 3)))], lambda v, n: v * n, lambda m, n: m * n, NV, T, 0.6)
op('vec.rmul', 'vec', lambda g: [g.lit(g.r.choice((-1, 0, 1, 2)))], lambda v, n: n * v, lambda m, n: m * n, NV, T, 0.3)
op('vec.set', 'vec', lambda g: [g.index(), g.atom()], lambda v, i, x: v.set(i, x), m_set, NV, T, 5)
op('vec.mset', 'vec', lambda g: [['l', [y for _ in range(g.r.randrange(1, 5)) for y in (g.index(), g.atom())]]],
   lambda v, a: v.mset(*a), m_mset, NV, T, 2)
op('vec.msetodd', 'vec', lambda g: [g.index()], lambda v, i: v.mset(i), lambda m, i: (_ for _ in ()).throw(TypeError()), NV, T, 0.1)
op('vec.delete', 'vec', lambda g: [g.index()], lambda v, i: v.delete(i), m_delete, NV, T, 2)
op('vec.deletes', 'vec', lambda g: [g.index(), g.index()], lambda v, i, j: v.delete(i, j), m_delete, NV, T, 1.5)
op('vec.remove', 'vec', lambda g: [g.pick()], lambda v, x: v.remove(x), m_remove, NV, T, 1)
op('vec.slice', 'vec', lambda g: [g.slice()], lambda v, s: v[s], lambda m, s: m[s], NV, T, 3)
op('vec.get', 'vec', lambda g: [g.index()], lambda v, i: v[i], lambda m, i: m[i], 'el', T, 3)
op('vec.index', 'vec', lambda g: [g.pick()], lambda v, x: v.index(x), lambda m, x: m.index(x), 'val', T, 1)
op('vec.index2', 'vec', lambda g: [g.pick(), g.index()], lambda v, x, i: v.index(x, i), lambda m, x, i: m.index(x, i), 'val', T, 0.5)
op('vec.index3', 'vec', lambda g: [g.pick(), g.index(), g.index()], lambda v, x, i, j: v.index(x, i, j),
   lambda m, x, i, j: m.index(x, i, j), 'val', T, 0.5)
op('vec.indexend', 'vec', lambda g: [['pe', g.r.randrange(1 << 16)], ['i', g.r.choice(('first', 'abs', 'hot', 'last', 'tail', 'neg', 'under')), g.r.randrange(1 << 16)],
                                     ['i', g.r.choice(('past', 'past', 'len', 'last', 'neg', 'tail', 'edge')), g.r.randrange(1 << 16)]],
   lambda v, x, i, j: v.index(x, i, j), lambda m, x, i, j: m.index(x, i, j), 'val', T, 1)
op('vec.count', 'vec', lambda g: [g.pick()], lambda v, x: v.count(x), lambda m, x: m.count(x), 'val', T, 0.5)
op('vec.in', 'vec', lambda g: [g.pick()], lambda v, x: x in v, lambda m, x: x in m, 'val', T, 0.7)
op('vec.len', 'vec', lambda g: [], len, len, 'val', T, 0.3)
op('vec.bool', 'vec', lambda g: [], bool, bool, 'val', T, 0.2)
op('vec.tolist', 'vec', lambda g: [], lambda v: v.tolist(), list, 'els', T, 0.7)
op('vec.iter', 'vec', lambda g: [], lambda v: list(iter(v)), list, 'els', T, 0.7)
op('vec.reversed', 'vec', lambda g: [], lambda v: list(reversed(v)), lambda m: m[::-1], 'els', T, 0.4, True, False)
op('vec.repr', 'vec', lambda g: [], lambda v: repr(v), lambda m: 'pvector(%r)' % (m,), 'val', T, 0.2, True, False)
op('vec.eq', 'vec', lambda g: [g.ref('vec')], lambda v, o: v == o, lambda m, o: m == o, 'val', T, 0.7)
op('vec.ne', 'vec', lambda g: [g.ref('vec')], lambda v, o: v != o, lambda m, o: m != o, 'val', T, 0.4)
op('vec.eqcopy', 'vec', lambda g: [], lambda v: (v == LIB.pvector(v.tolist()), v != LIB.pvector(v.tolist()), v == v.tolist(),
   v.tolist() == v, v == tuple(v.tolist()) and len(v) > 0), lambda m: (True, False, True, True, False), 'val', T, 0.4)
op('vec.eqnear', 'vec', lambda g: [g.index(), g.atom()], lambda v, i, x: (v == v.set(i, x), v.set(i, x) == v) if -len(v) <= i < len(v) else (0, 0),
   lambda m, i, x: (m == m_set(m, i, x),) * 2 if -len(m) <= i < len(m) else (0, 0), 'val', T, 0.4)
for _n, _f in (('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge)):
    op('vec.' + _n, 'vec', lambda g: [g.ref('vec')], _f, _f, 'val', T, 0.25)
    op('vec.l' + _n, 'vec', lambda g: [g.ref('vec')], lambda v, o, f=_f: f(v, o.tolist()), _f, 'val', T, 0.1)
op('vec.badindex', 'vec', lambda g: [g.lit(g.r.choice(('a', None, 1.5)))], lambda v, i: v[i],
   lambda m, i: m[i], 'el', T, 0.1)
op('vec.hashable', 'vec', lambda g: [], lambda v: {v: 1}[LIB.pvector(v.tolist())], lambda m: (hash(tuple(m)), 1)[1], 'val', T, 0.3)
op('vec.evo', 'vec', lambda g: [['l', [y for _ in range(g.r.randrange(1, 6)) for y in (g.index(), g.atom())]], g.iterable()],
   lambda v, a, it: _evo(v, a, it), lambda m, a, it: m_mset(m, a) + list(it), NV, T, 1)


def _evo(v, a, it):
    e = v.evolver()
    for i in range(0, len(a), 2):
        e[a[i]] = a[i + 1]
    e.extend(it)
    return e.persistent()


class Never(Exception):
    """model verdict: one of these errors"""
    def __init__(self, *classes):
        self.classes = classes


def never(*classes):
    def f(*a):
        raise Never(*classes)
    return f


FIXED = never(AttributeError, TypeError)
WRONG = never(TypeError)


def poke(v, how):
    """Attempts at direct mutation."""
    if how == 0:
        v.foo = 1
    elif how == 1:
        v[0] = 1
    elif how == 2:
        del v[0]
    else:
        del v.foo


def fixed_ops(kind, tag):
    op(kind + '.fixed', kind, lambda g: [g.lit(g.r.randrange(4))], poke, FIXED, 'val', tag, 0.15)
    op(kind + '.str', kind, lambda g: [], lambda v: str(v) == repr(v) and len(repr(v)) > 0, lambda m: True, 'val', tag, 0.1, True, False)


fixed_ops('vec', T)
BADI = lambda g: [g.lit(g.r.choice(('a', None, 1.5)))]
op('vec.badset', 'vec', BADI, lambda v, i: v.set(i, 1), WRONG, NV, T, 0.1)
op('vec.badmset', 'vec', lambda g: [g.atom()] + BADI(g), lambda v, x, i: v.mset(0, x, i, 1), WRONG, NV, T, 0.1)
op('vec.baddelete', 'vec', BADI, lambda v, i: v.delete(i), WRONG, NV, T, 0.1)
op('vec.badextend', 'vec', lambda g: [], lambda v: v.extend(5), WRONG, NV, T, 0.1)
op('vec.badadd', 'vec', lambda g: [], lambda v: v + 5, WRONG, NV, T, 0.1)
op('vec.badmul', 'vec', lambda g: [], lambda v: v * 'a', WRONG, NV, T, 0.1)
op('vec.foreign', 'vec', lambda g: [g.lit(g.r.choice((5, None, 'x')))], lambda v, o: (v == o, v != o, o == v), lambda m, o: (False, True, False), 'val', T, 0.1)


# ------------------------------------------------------------------ linked list
def list_check(v, m):
    if not isinstance(v, (LIB.PList, type(LIB.plist()))):
        return 'not a plist: %r' % (type(v),)
    g = list(islice(iter(v), len(m) + 5))
    msg = same_els(g, m)
    if msg:
        return msg
    if len(v) != len(m):
        return 'len is %d instead of %d' % (len(v), len(m))
    if bool(v) != bool(m):
        return 'truth value %r' % bool(v)
    if m and (v.first is not m[0]):
        return 'first'
    return None


def list_observe(v):
    l = list(islice(iter(v), 5000))
    return (len(v), ids(l), safe_hash(v), repr(v) if len(l) <= 200 else None)


def list_seeds(w):
    return [(w.lib.plist(els), els) for els in (take(w.atoms, n, j, 1) for j, n in
            enumerate(w.cfg.get('lseed_sizes', (0, 1, 2, 5, 9))))]


Kind('list', 'C05', list_check, list_observe, lambda m: m, list_seeds)
NL = 'new:list'
T = 'C05'
SM = lambda g: g.iterable(g.r.choice((0, 0, 1, 1, 2, 3, 5, 9)))
op('list.new', None, lambda g: [SM(g)], lambda it: LIB.plist(it), lambda it: list(it), NL, T, 1)
op('list.newrev', None, lambda g: [SM(g)], lambda it: LIB.plist(it, reverse=True), lambda it: list(it)[::-1], NL, T, 0.5)
op('list.l', None, lambda g: [g.iterable(g.r.randrange(6), ('list',))], lambda it: LIB.l(*it), lambda it: list(it), NL, T, 0.3)
op('list.cons', 'list', lambda g: [g.atom()], lambda v, x: v.cons(x), lambda m, x: [x] + m, NL, T, 3)
op('list.mcons', 'list', lambda g: [SM(g)], lambda v, it: v.mcons(it), lambda m, it: list(it)[::-1] + m, NL, T, 2)
op('list.reverse', 'list', lambda g: [], lambda v: v.reverse(), lambda m: m[::-1], NL, T, 1)
op('list.reversed', 'list', lambda g: [], lambda v: reversed(v), lambda m: m[::-1], NL, T, 0.5)
op('list.split', 'list', lambda g: [g.count()], lambda v, i: v.split(i), lambda m, i: (m[:max(i, 0)], m[max(i, 0):]), 'pair:list', T, 2)
op('list.remove', 'list', lambda g: [g.pick()], lambda v, x: v.remove(x), m_remove, NL, T, 3)
op('list.get', 'list', lambda g: [g.index()], lambda v, i: v[i], lambda m, i: m[i], 'el', T, 2)
op('list.slice', 'list', lambda g: [g.slice()], lambda v, s: v[s], lambda m, s: m[s], NL, T, 3)
op('list.rest', 'list', lambda g: [], lambda v: v.rest, lambda m: m[1:], NL, T, 2)
op('list.first', 'list', lambda g: [], lambda v: v.first, lambda m: m[0] if m else (_ for _ in ()).throw(AttributeError()), 'el', T, 1)
op('list.len', 'list', lambda g: [], len, len, 'val', T, 0.5)
op('list.in', 'list', lambda g: [g.pick()], lambda v, x: x in v, lambda m, x: x in m, 'val', T, 0.5)
op('list.count', 'list', lambda g: [g.pick()], lambda v, x: v.count(x), lambda m, x: m.count(x), 'val', T, 0.5)
op('list.index', 'list', lambda g: [g.pick()], lambda v, x: v.index(x), lambda m, x: m.index(x), 'val', T, 0.7)
op('list.index3', 'list', lambda g: [g.pick(), g.lit(g.r.randrange(5)), g.lit(g.r.randrange(9))], lambda v, x, i, j: v.index(x, i, j),
   lambda m, x, i, j: m.index(x, i, j), 'val', T, 0.4)
op('list.eq', 'list', lambda g: [g.ref('list')], lambda v, o: (v == o, v != o), lambda m, o: (m == o, m != o), 'val', T, 1)
op('list.lt', 'list', lambda g: [g.ref('list')], lambda v, o: (v < o, v > o), lambda m, o: (m < o, m > o), 'val', T, 0.5)
op('list.eqcopy', 'list', lambda g: [], lambda v: (v == LIB.plist(list(v)), hash(v) == hash(LIB.plist(list(v)))), lambda m: (hash(tuple(m)), (True, True))[1], 'val', T, 0.5)
op('list.repr', 'list', lambda g: [], repr, lambda m: 'plist(%r)' % (m,), 'val', T, 0.2)


fixed_ops('list', T)
op('list.badindex', 'list', BADI, lambda v, i: v[i], WRONG, 'el', T, 0.1)
op('list.foreign', 'list', lambda g: [g.lit(g.r.choice((5, None, 'x')))], lambda v, o: (v == o, v != o, o == v), lambda m, o: (False, True, False), 'val', T, 0.1)
op('list.order', 'list', lambda g: [], lambda v: v < list(v), WRONG, 'val', T, 0.1)
op('list.badnew', None, lambda g: [], lambda: LIB.plist(5), WRONG, NL, T, 0.1)


# ------------------------------------------------------------------ deque (model: (list, maxlen))
def deque_check(v, m):
    els, maxlen = m
    if not isinstance(v, LIB.PDeque):
        return 'not a pdeque: %r' % (type(v),)
    if v.maxlen != maxlen:
        return 'maxlen is %r instead of %r' % (v.maxlen, maxlen)
    msg = same_els(list(islice(iter(v), len(els) + 5)), els)
    if msg:
        return msg
    if len(v) != len(els):
        return 'len is %d instead of %d' % (len(v), len(els))
    if els:
        if v.left is not els[0] or v.right is not els[-1]:
            return 'left/right'
        if v[len(els) // 2] is not els[len(els) // 2]:
            return 'middle element'
    return None


def deque_observe(v):
    l = list(islice(iter(v), 5000))
    return (len(v), v.maxlen, ids(l), safe_hash(v), repr(v) if len(l) <= 200 else None,
            ids((v.left, v.right)) if l else None)


def clip(els, maxlen, right=True):
    if maxlen is None or len(els) <= maxlen:
        return (els, maxlen)
    if right:       # pushed on the right: discard from the left
        return (els[len(els) - maxlen:], maxlen)
    return (els[:maxlen], maxlen)


def deque_seeds(w):
    out = []
    for j, (n, ml) in enumerate(w.cfg.get('dseeds', ((0, None), (1, None), (5, None), (4, 4), (2, 5), (0, 0), (0, 3), (270, 270)))):
        els = take(w.atoms, n, j, 1)
        out.append((w.lib.pdeque(els, maxlen=ml), clip(els, ml)))
    return out


Kind('deque', 'C05', deque_check, deque_observe, lambda m: m[0], deque_seeds)
ND = 'new:deque'


def d_pop(m, n=1):
    els, ml = m
    if n < 0:
        return d_popleft(m, -n)
    return (els[:max(0, len(els) - n)], ml)


def d_popleft(m, n=1):
    els, ml = m
    if n < 0:
        return d_pop(m, -n)
    return (els[n:], ml)


def d_rotate(m, k):
    els, ml = m
    if not els:
        return m
    k %= len(els)
    return (els[len(els) - k:] + els[:len(els) - k], ml)


def d_remove(m, x):
    return (m_remove(m[0], x), m[1])


def d_append1(v, meth, els):
    for x in els:
        v = getattr(v, meth)(x)
    return v


ML = lambda g: g.lit(g.r.choice((None, None, None, 0, 1, 2, 3, 4, 8, 270)))
op('deque.new', None, lambda g: [SM(g), ML(g)], lambda it, ml: LIB.pdeque(it, maxlen=ml), lambda it, ml: clip(list(it), ml), ND, T, 1.5)
op('deque.dq', None, lambda g: [g.iterable(g.r.randrange(6), ('list',))], lambda it: LIB.dq(*it), lambda it: (list(it), None), ND, T, 0.3)
op('deque.append', 'deque', lambda g: [g.atom()], lambda v, x: v.append(x), lambda m, x: clip(m[0] + [x], m[1]), ND, T, 3)
op('deque.appendleft', 'deque', lambda g: [g.atom()], lambda v, x: v.appendleft(x), lambda m, x: clip([x] + m[0], m[1], False), ND, T, 3)
op('deque.extend', 'deque', lambda g: [SM(g)], lambda v, it: v.extend(it), lambda m, it: clip(m[0] + list(it), m[1]), ND, T, 2)
op('deque.extendleft', 'deque', lambda g: [SM(g)], lambda v, it: v.extendleft(it), lambda m, it: clip(list(it)[::-1] + m[0], m[1], False), ND, T, 2)
op('deque.pop', 'deque', lambda g: [], lambda v: v.pop(), d_pop, ND, T, 3)
op('deque.popleft', 'deque', lambda g: [], lambda v: v.popleft(), d_popleft, ND, T, 3)
op('deque.popn', 'deque', lambda g: [g.count()], lambda v, n: v.pop(n), d_pop, ND, T, 2)
op('deque.popleftn', 'deque', lambda g: [g.count()], lambda v, n: v.popleft(n), d_popleft, ND, T, 2)
op('deque.rotate', 'deque', lambda g: [g.lit(g.r.randrange(-12, 13))], lambda v, k: v.rotate(k), d_rotate, ND, T, 2)
op('deque.reverse', 'deque', lambda g: [], lambda v: v.reverse(), lambda m: (m[0][::-1], m[1]), ND, T, 1.5)
op('deque.reversed', 'deque', lambda g: [], lambda v: reversed(v), lambda m: (m[0][::-1], m[1]), ND, T, 0.5)
op('deque.remove', 'deque', lambda g: [g.pick()], lambda v, x: v.remove(x), d_remove, ND, T, 2)
op('deque.get', 'deque', lambda g: [g.index()], lambda v, i: v[i], lambda m, i: m[0][i], 'el', T, 2)
op('deque.slice', 'deque', lambda g: [g.slice()], lambda v, s: v[s], lambda m, s: (m[0][s], m[1]), ND, T, 3)
op('deque.left', 'deque', lambda g: [], lambda v: v.left, lambda m: m[0][0], 'el', T, 1)
op('deque.right', 'deque', lambda g: [], lambda v: v.right, lambda m: m[0][-1], 'el', T, 1)
op('deque.count', 'deque', lambda g: [g.pick()], lambda v, x: v.count(x), lambda m, x: m[0].count(x), 'val', T, 0.5)
op('deque.index', 'deque', lambda g: [g.pick()], lambda v, x: v.index(x), lambda m, x: m[0].index(x), 'val', T, 0.5)
op('deque.in', 'deque', lambda g: [g.pick()], lambda v, x: x in v, lambda m, x: x in m[0], 'val', T, 0.5)
op('deque.len', 'deque', lambda g: [], len, lambda m: len(m[0]), 'val', T, 0.5)
op('deque.eq', 'deque', lambda g: [g.ref('deque')], lambda v, o: (v == o, v != o), lambda m, o: (m[0] == o[0], m[0] != o[0]), 'val', T, 1)
op('deque.lt', 'deque', lambda g: [g.ref('deque')], lambda v, o: (v < o, v > o), lambda m, o: (m[0] < o[0], m[0] > o[0]), 'val', T, 0.5)
op('deque.iter', 'deque', lambda g: [], lambda v: list(v), lambda m: m[0], 'els', T, 0.5)
op('deque.badmax', None, lambda g: [g.lit(g.r.choice((-1, 'x', 1.5, [])))], lambda ml: LIB.pdeque([1, 2], maxlen=ml),
   lambda ml: (_ for _ in ()).throw(ValueError() if isinstance(ml, int) else TypeError()), ND, T, 0.1)
op('deque.repr', 'deque', lambda g: [], repr, lambda m: 'pdeque(%r%s)' % (m[0], '' if m[1] is None else ', maxlen=%d' % m[1]), 'val', T, 0.2)
fixed_ops('deque', T)
op('deque.badindex', 'deque', BADI, lambda v, i: v[i], WRONG, 'el', T, 0.1)
op('deque.foreign', 'deque', lambda g: [g.lit(g.r.choice((5, None, 'x')))], lambda v, o: (v == o, v != o, o == v, v == list(v)), lambda m, o: (False, True, False, False), 'val', T, 0.1)
op('deque.order', 'deque', lambda g: [], lambda v: v < list(v), WRONG, 'val', T, 0.1)
op('deque.badextend', 'deque', lambda g: [g.lit(g.r.choice(('extend', 'extendleft')))], lambda v, n: getattr(v, n)(5), WRONG, ND, T, 0.1)
