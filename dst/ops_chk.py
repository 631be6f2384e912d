"""Checked collections, records and classes: operations and models.

Models: cvec = (list, class name); cset = (dict, name); cmap = (dict, name); rec / cls = (dict, name).
"""
from dst.world import Kind, items_check, RESOLVERS, RESULTS
from dst import ops_seq as S, ops_map as M
from dst import decl as D
from dst.decl import Reject, Nest, SPEC
from dst.sim import quiet, SimFault
from dst.ops_seq import op, same_els, safe_hash, ids, m_set, m_mset, m_delete, m_remove

P = D.P


def C(name):
    return getattr(D, name)


# ------------------------------------------------------------------ collections
def inst_ok(v, name):
    """Independent validity scan of a real instance (None or message)."""
    sp = SPEC[name]
    if name in D.MAPS:
        for k, x in v.items():
            if sp.bad_key(k):
                return 'forbidden key %r in %s' % (k, name)
            if sp.bad_type(x):
                return 'forbidden value %r in %s' % (x, name)
            if sp.bad_inv(k, x):
                return 'invariant violated by %r in %s' % ((k, x), name)
        return None
    for x in v:
        if sp.bad_type(x):
            return 'element %r of forbidden type in %s' % (x, name)
        if sp.bad_inv(x):
            return 'invariant violated by element %r in %s' % (x, name)
    return None


def like_els(g, e):
    """identical elements, nested checked vectors with identical elements"""
    if len(g) != len(e):
        return 'expected %d elements, got %d' % (len(e), len(g))
    for i, (a, b) in enumerate(zip(e, g)):
        msg = res_eln(a, b)
        if msg:
            return 'element %d: %s' % (i, msg)
    return None


def holds_nested(els):
    """The model's stand-ins for values converted by create() are equal to the real ones, not identical."""
    return any(type(x) is D.CVInt for x in els)


def cvec_check(v, m):
    els, name = m
    if name is None:
        if type(v).__name__ in SPEC:
            return inst_ok(v, type(v).__name__) or like_els(list(v), els)
        if holds_nested(els):
            return like_els(list(v), els)
        return S.vec_check(v, els)
    if type(v) is not C(name):
        return 'not a %s: %r' % (name, type(v))
    msg = inst_ok(v, name)
    if msg:
        return msg
    if SPEC[name].nested:
        return nested_list(v, els)
    if len(v) != len(els):
        return 'expected length %d, got %d' % (len(els), len(v))
    if holds_nested(els):
        return like_els(v.tolist(), els)
    return same_els(v.tolist(), els) or same_els([v[i] for i in range(len(els))], els)


def nested_list(v, els):
    if len(v) != len(els):
        return 'expected length %d, got %d' % (len(els), len(v))
    for a, b in zip(v, els):
        if type(a) is not D.CVInt:
            return 'nested element is a %r' % (type(a),)
        msg = same_els(a.tolist(), b if isinstance(b, list) else list(b))
        if msg:
            return 'nested: ' + msg
    return None


def cset_check(v, m):
    els, name = m
    if name is None:
        if type(v).__name__ in SPEC:
            return inst_ok(v, type(v).__name__) or M.set_check(v, els)
        return M.set_check(v, els)
    if type(v) is not C(name):
        return 'not a %s: %r' % (name, type(v))
    return inst_ok(v, name) or M.set_check(v, els)


def cmap_check(v, m):
    els, name = m
    if type(v) is not C(name):
        return 'not a %s: %r' % (name, type(v))
    msg = inst_ok(v, name)
    if msg:
        return msg
    if SPEC[name].nested or holds_nested(els.values()):
        if len(v) != len(els):
            return 'expected %d entries, got %d' % (len(els), len(v))
        for k, b in els.items():
            if k not in v:
                return 'key %r missing' % (k,)
            msg = same_els(v[k].tolist(), list(b)) if type(b) is D.CVInt else None if v[k] is b else '%r instead of %r' % (v[k], b)
            if msg:
                return 'nested under %r: %s' % (k, msg)
        return None
    return M.map_check(v, els)


def seeds_for(names, build, valid):
    def f(w):
        out = []
        for j, name in enumerate(names):
            for n in (0, 3, 35 if j < 2 else 5):
                src = valid(w, name, n, j)
                out.append((build(name, src), (src, name)))
        return out
    return f


def valid_els(w, name, n, off):
    sp = SPEC[name]
    if sp.nested:
        return [D.CVInt([1, 2, i]) for i in range(n)]
    out = []
    pool = [x for x in w.atoms if not sp.bad_type(x)]
    if name == 'CVStrType':
        pool = list(D.Color)
    if name == 'CVOther':
        pool = list(D.OtherColor) + [True, False]
    pool = [x for x in pool if not sp.bad_inv(x)]
    for i in range(n):
        if pool:
            out.append(pool[(off + i) % len(pool)])
    return out


def valid_map(w, name, n, off):
    sp = SPEC[name]
    out = {}
    if sp.nested:
        for i in range(n):
            out['k%d' % i] = D.CVInt([i])
        return out
    for i, k in enumerate(w.atoms):
        if sp.bad_key(k):
            continue
        for x in w.atoms[i % 5:]:
            if not sp.bad_type(x) and not sp.bad_inv(k, x):
                if len(out) < n:
                    out[k] = x
                break
    return out


def cobs_vec(v):
    l = v.tolist()
    return (type(v).__name__, len(v), ids(l), safe_hash(v), repr(v) if len(l) < 100 else None)


Kind('cvec', 'C11', cvec_check, cobs_vec, lambda m: m[0], seeds_for(D.VECS, lambda n, s: C(n)(s), valid_els))
Kind('cset', 'C11', cset_check, lambda v: (type(v).__name__,) + M.set_observe(v), lambda m: list(m[0]),
     seeds_for(D.SETS, lambda n, s: C(n)(s), lambda w, name, n, off: M.fk(valid_els(w, name, n, off))))
Kind('cmap', 'C11', cmap_check, lambda v: (type(v).__name__,) + M.map_observe(v), lambda m: list(m[0]),
     seeds_for(D.MAPS, lambda n, s: C(n)(s), valid_map))
T = 'C11'


def chk_new(name, els):
    els = list(els)
    D.validate_seq(name, els)
    return (els, name)


def chk(f):
    """Apply list function f to the content, then validate the whole (old elements are valid)."""
    def g(m, *a):
        els, name = m
        try:
            r = f(els, *a)
        except IndexError:
            # index errors and rejected values may be reported in either order
            raise Reject((IndexError, P.CheckedValueTypeError, P.InvariantException))
        D.validate_seq(name, r)
        return (r, name)
    return g


def rejected(name, els):
    try:
        D.validate_seq(name, els)
    except Reject as e:
        raise Reject(tuple(e.classes) + (IndexError,))


def chk_mset(m, a):
    # every value given is checked, also one that a later pair overwrites
    return chk(lambda els, a: m_mset(els, a))(m, a) if not rejected(m[1], a[1::2]) else None


VN = lambda g: g.lit(g.r.choice(D.VECS))
SN = lambda g: g.lit(g.r.choice(D.SETS))
MN = lambda g: g.lit(g.r.choice(D.MAPS))
IT = lambda g: g.iterable(g.r.choice((0, 1, 1, 2, 3, 4, 33)), ('list', 'tuple', 'gen', 'iter', 'iterable', 'pvec', 'plist', 'pdeque', 'pyvec', 'seq'))
GOOD = lambda g: ['good', g.r.choice((0, 1, 2, 3, 5, 31, 33)), g.r.randrange(64), g.r.choice(('list', 'tuple', 'iter', 'pvec', 'pyvec', 'gen')), g.r.choice((0, 0, 0, 0, 1))]
NV = 'new:cvec'


def nest_create(f, name, src):
    """create() of a nesting type converts the elements that are not of the nested type yet."""
    if not SPEC[name].nested:
        return f(name, src)

    def one(x):
        if isinstance(x, D.CVInt):
            return x
        try:
            els = list(x)
        except TypeError:
            raise Reject((TypeError, P.CheckedValueTypeError))
        D.validate_seq('CVInt', els)
        return D.CVInt(els)     # stands for an equal one: nested values are compared by content
    bad = set()
    items = list(src.items()) if hasattr(src, 'items') else [(None, x) for x in src]
    out = []
    for k, x in items:
        try:
            out.append((k, one(x)))
        except Reject as e:
            bad.update(e.classes)
        if f is cm_new and SPEC[name].bad_key(k):
            bad.add(P.CheckedKeyTypeError)
    if bad:
        raise Reject(bad)
    return (dict(out) if f is cm_new else [x for _, x in out], name)


def cv_new(name, it):
    return C(name)(it)


op('cvec.new', None, lambda g: [VN(g), IT(g)], cv_new, chk_new, NV, T, 2)
op('cvec.newg', 'cvec', lambda g: [GOOD(g)], lambda v, it: type(v)(it), lambda m, it: chk_new(m[1], it), NV, T, 2)
op('cvec.create', 'cvec', lambda g: [GOOD(g)], lambda v, it: type(v).create(it), lambda m, it: nest_create(chk_new, m[1], it), NV, T, 1.5)
op('cvec.createself', 'cvec', lambda g: [], lambda v: type(v).create(v) is v, lambda m: True, 'val', T, 0.4)
op('cvec.fromother', 'cvec', lambda g: [g.ref('cvec')], lambda v, o: type(v)(o), lambda m, o: chk_new(m[1], o[0]), NV, T, 1.5)


def create_other(v, o):
    """create() from an instance of another checked type; an instance of a subclass comes back as it is"""
    r = type(v).create(o)
    return type(v)(r) if isinstance(o, type(v)) and r is o else r


op('cvec.createother', 'cvec', lambda g: [g.ref('cvec')],
   lambda v, o: create_other(v, o) if type(v) is not D.CVNest else type(v)(o),
   lambda m, o: chk_new(m[1], o[0]), NV, T, 1)
op('cvec.fromvec', 'cvec', lambda g: [g.ref('vec')], lambda v, o: type(v)(o), lambda m, o: chk_new(m[1], o), NV, T, 1)
op('cvec.append', 'cvec', lambda g: [g.atom()], lambda v, x: v.append(x), lambda m, x: chk_new(m[1], m[0] + [x]), NV, T, 3)
op('cvec.appendg', 'cvec', lambda g: [['good1', g.r.randrange(64), 0]], lambda v, x: v.append(x), lambda m, x: chk_new(m[1], m[0] + [x]), NV, T, 2)
op('cvec.extend', 'cvec', lambda g: [IT(g)], lambda v, it: v.extend(it), lambda m, it: chk_new(m[1], m[0] + list(it)), NV, T, 2)
op('cvec.extendg', 'cvec', lambda g: [GOOD(g)], lambda v, it: v.extend(it), lambda m, it: chk_new(m[1], m[0] + list(it)), NV, T, 3)
op('cvec.extendo', 'cvec', lambda g: [g.ref('cvec')], lambda v, it: v.extend(it), lambda m, o: chk_new(m[1], m[0] + o[0]), NV, T, 1)
op('cvec.plus', 'cvec', lambda g: [GOOD(g)], lambda v, it: v + it, lambda m, it: chk_new(m[1], m[0] + list(it)), NV, T, 1)
op('cvec.set', 'cvec', lambda g: [g.index(), g.atom()], lambda v, i, x: v.set(i, x), chk(m_set), NV, T, 3)
op('cvec.setg', 'cvec', lambda g: [g.index(), ['good1', g.r.randrange(64), 0]], lambda v, i, x: v.set(i, x), chk(m_set), NV, T, 2)
op('cvec.mset', 'cvec', lambda g: [['l', [y for _ in range(g.r.randrange(1, 4)) for y in (g.index(), ['good1', g.r.randrange(64), g.r.choice((0, 0, 0, 1))])]]],
   lambda v, a: v.mset(*a), chk_mset, NV, T, 2)
op('cvec.delete', 'cvec', lambda g: [g.index()], lambda v, i: v.delete(i), lambda m, i: m_delete(m[0], i), 'vecish', T, 1)
op('cvec.remove', 'cvec', lambda g: [g.pick()], lambda v, x: v.remove(x), lambda m, x: m_remove(m[0], x), 'vecish', T, 0.7)
op('cvec.slice', 'cvec', lambda g: [g.slice()], lambda v, s: v[s], lambda m, s: m[0][s], 'vecish', T, 0.7)
op('cvec.mul', 'cvec', lambda g: [g.lit(g.r.choice((0, 1, 2)))], lambda v, n: v * n, lambda m, n: m[0] * n, 'vecish', T, 0.4)
op('cvec.get', 'cvec', lambda g: [g.index()], lambda v, i: v[i], lambda m, i: m[0][i], 'eln', T, 0.7)
op('cvec.eq', 'cvec', lambda g: [g.ref('cvec')], lambda v, o: (v == o, v != o), lambda m, o: (m[0] == o[0], m[0] != o[0]), 'val', T, 0.5)
op('cvec.serialize', 'cvec', lambda g: [], lambda v: v.serialize(), lambda m: [list(x) for x in m[0]] if m[1] == 'CVNest' else list(m[0]), 'val', T, 0.3)
op('cvec.transform', 'cvec', lambda g: [g.index(), g.atom()], lambda v, i, x: v.transform([i], lambda _: x) if -len(v) <= i < len(v) else v,
   lambda m, i, x: chk_new(m[1], m_set(m[0], i, x)) if -len(m[0]) <= i < len(m[0]) else m, NV, T, 1)
op('cvec.evo', 'cvec', lambda g: [['l', [y for _ in range(g.r.randrange(0, 3)) for y in (g.index(), ['good1', g.r.randrange(64), 0])]], GOOD(g),
   g.lit(g.r.randrange(3))], lambda v, a, it, nd: cv_evo(v, a, it, nd), lambda m, a, it, nd: cv_evo_m(m, a, it, nd), NV, T, 2)


def cv_evo(v, a, it, nd):
    e = v.evolver()
    for i in range(0, len(a), 2):
        e[a[i]] = a[i + 1]
    e.extend(it)
    for _ in range(nd):
        if len(e):
            del e[0]
    return M.settle(e)


def cv_evo_m(m, a, it, nd):
    try:
        r = m_mset(m[0], a)
    except IndexError:
        raise Reject((IndexError, P.CheckedValueTypeError, P.InvariantException))
    r = r + list(it)
    chk_new(m[1], r + list(a[1::2]))
    return (r[nd:], m[1])


def cs_new(name, els):
    els = list(els)
    D.validate_seq(name, els)
    return (M.fk(els), name)


def cs_more(m, els):
    els = list(els)
    D.validate_seq(m[1], els)
    return ({**m[0], **M.fk(els)}, m[1])


NS = 'new:cset'
op('cset.new', None, lambda g: [SN(g), IT(g)], cv_new, cs_new, NS, T, 2)
op('cset.newg', 'cset', lambda g: [GOOD(g)], lambda v, it: type(v)(it), lambda m, it: cs_new(m[1], it), NS, T, 2)
op('cset.create', 'cset', lambda g: [GOOD(g)], lambda v, it: type(v).create(it), lambda m, it: cs_new(m[1], it), NS, T, 1)
op('cset.fromother', 'cset', lambda g: [g.ref('cset')], lambda v, o: type(v)(o), lambda m, o: cs_new(m[1], o[0]), NS, T, 1)
op('cset.createother', 'cset', lambda g: [g.ref('cset')], create_other, lambda m, o: cs_new(m[1], o[0]), NS, T, 1)
op('cset.frommap', 'cset', lambda g: [g.ref('map')], lambda v, o: type(v)(o), lambda m, o: cs_new(m[1], o), NS, T, 0.7)
op('cset.fromset', 'cset', lambda g: [g.ref('set')], lambda v, o: type(v)(o), lambda m, o: cs_new(m[1], o), NS, T, 0.7)
op('cset.add', 'cset', lambda g: [g.atom()], lambda v, x: v.add(x), lambda m, x: cs_more(m, [x]), NS, T, 3)
op('cset.addg', 'cset', lambda g: [['good1', g.r.randrange(64), 0]], lambda v, x: v.add(x), lambda m, x: cs_more(m, [x]), NS, T, 3)
op('cset.update', 'cset', lambda g: [IT(g)], lambda v, it: v.update(it), cs_more, NS, T, 1)
op('cset.updateg', 'cset', lambda g: [GOOD(g)], lambda v, it: v.update(it), cs_more, NS, T, 2)
op('cset.remove', 'cset', lambda g: [g.pick()], lambda v, x: v.remove(x), lambda m, x: (M.d_remove(m[0], x), m[1]), NS, T, 2)
op('cset.discard', 'cset', lambda g: [g.pick()], lambda v, x: v.discard(x), lambda m, x: (M.d_discard(m[0], x), m[1]), NS, T, 1)
op('cset.or', 'cset', lambda g: [GOOD(g)], lambda v, o: v.union(o), lambda m, o: M.s_or(m[0], o), 'setish', T, 0.7)
op('cset.oro', 'cset', lambda g: [g.ref('cset')], lambda v, o: v | o, lambda m, o: M.s_or(m[0], o[0]), 'setish', T, 0.7)
op('cset.sub', 'cset', lambda g: [g.ref('cset')], lambda v, o: v - o, lambda m, o: M.s_sub(m[0], o[0]), 'setish', T, 0.5)
op('cset.xor', 'cset', lambda g: [g.ref('cset')], lambda v, o: v ^ o, lambda m, o: M.s_xor(m[0], o[0]), 'setish', T, 0.5)
op('cset.and', 'cset', lambda g: [g.ref('cset')], lambda v, o: v & o, lambda m, o: M.s_and(m[0], o[0]), 'setish', T, 0.5)
op('cset.serialize', 'cset', lambda g: [], lambda v: v.serialize(), lambda m: set(m[0]), 'val', T, 0.3)
op('cset.evo', 'cset', lambda g: [GOOD(g), ['l', [g.pick() for _ in range(g.r.randrange(3))]]], M.sev,
   lambda m, a, d: (M.msev(cs_more(m, a)[0], [], d), m[1]), NS, T, 2)


def cm_new(name, d):
    d = dict(d)
    D.validate_map(name, d)
    return (d, name)


def cm_set(m, k, v):
    D.validate_map(m[1], {k: v})
    return (M.d_set(m[0], k, v), m[1])


def cm_update(m, d):
    D.validate_map(m[1], d)
    return (M.d_update(m[0], d), m[1])


MPOK = lambda g: M.mapping_ok(g)
GOODM = lambda g: ['goodm', g.r.choice((0, 1, 2, 3, 6)), g.r.randrange(64), g.r.choice(('dict', 'pmap', 'simdict')), g.r.choice((0, 0, 0, 1))]
NM = 'new:cmap'
op('cmap.new', None, lambda g: [MN(g), MPOK(g)], cv_new, cm_new, NM, T, 1)
op('cmap.newg', 'cmap', lambda g: [GOODM(g)], lambda v, d: type(v)(d), lambda m, d: cm_new(m[1], d), NM, T, 2)
op('cmap.create', 'cmap', lambda g: [GOODM(g)], lambda v, d: type(v).create(d), lambda m, d: nest_create(cm_new, m[1], d), NM, T, 1)
op('cmap.fromother', 'cmap', lambda g: [g.ref('cmap')], lambda v, o: type(v)(o), lambda m, o: cm_new(m[1], o[0]), NM, T, 1)
op('cmap.createother', 'cmap', lambda g: [g.ref('cmap')], create_other, lambda m, o: nest_create(cm_new, m[1], o[0]), NM, T, 1)
op('cmap.set', 'cmap', lambda g: [g.atom(), g.atom()], lambda v, k, x: v.set(k, x), cm_set, NM, T, 3)
op('cmap.setx', 'cmap', lambda g: [g.pick(), g.atom()], lambda v, k, x: v.set(k, x), cm_set, NM, T, 3)
op('cmap.update', 'cmap', lambda g: [MPOK(g)], lambda v, d: v.update(d), cm_update, NM, T, 1)
op('cmap.updateg', 'cmap', lambda g: [GOODM(g)], lambda v, d: v.update(d), cm_update, NM, T, 2)
op('cmap.plus', 'cmap', lambda g: [GOODM(g)], lambda v, d: v + d, cm_update, NM, T, 0.5)
op('cmap.updatewith', 'cmap', lambda g: [g.fnlr(), GOODM(g)], lambda v, f, d: v.update_with(f, d),
   lambda m, f, d: cm_update(m, {k: (f(m[0][k], x) if k in m[0] else x) for k, x in d.items()}), NM, T, 0.7)
op('cmap.remove', 'cmap', lambda g: [g.pick()], lambda v, k: v.remove(k), lambda m, k: (M.d_remove(m[0], k), m[1]), NM, T, 2)
op('cmap.discard', 'cmap', lambda g: [g.pick()], lambda v, k: v.discard(k), lambda m, k: (M.d_discard(m[0], k), m[1]), NM, T, 1)
op('cmap.get', 'cmap', lambda g: [g.pick()], lambda v, k: v[k], lambda m, k: m[0][k], 'eln', T, 0.7)
op('cmap.transform', 'cmap', lambda g: [g.pick(), g.atom()], lambda v, k, x: v.transform([k], lambda _: x) if k in v else v,
   lambda m, k, x: cm_set(m, k, x) if k in m[0] and m[0][k] is not x else m, NM, T, 1)
op('cmap.serialize', 'cmap', lambda g: [], lambda v: v.serialize(), lambda m: {k: list(x) for k, x in m[0].items()} if m[1] == 'CMNest' else dict(m[0]), 'val', T, 0.3)
op('cmap.evo', 'cmap', lambda g: [GOODM(g), ['l', [g.pick() for _ in range(g.r.randrange(3))]]],
   lambda v, d, dels: M.map_evo(v, [y for kv in d.items() for y in kv], dels),
   lambda m, d, dels: (M.dmap_evo(cm_update(m, d)[0], [], dels), m[1]), NM, T, 1.5)


# ------------------------------------------------------------------ records and classes
def val_check(real, model):
    if isinstance(model, Nest):
        c = model.content
        if model.kind == 'inst':
            return rec_check(real, (c, model.name))
        if model.kind == 'map':
            if not isinstance(real, P.PMap):
                return 'nested value is %r' % (real,)
            return items_check(c, real.items())
        if isinstance(c, (set, frozenset)):
            if not isinstance(real, P.PSet) or set(real) != set(c):
                return 'nested value is %r instead of %r' % (real, c)
            return None
        if not isinstance(real, P.PVector):
            return 'nested value is %r' % (real,)
        return same_els(real.tolist(), list(c))
    return None if real is model else '%r instead of %r' % (real, model)


def inst_data(v):
    if isinstance(v, P.PRecord):
        return dict(v.items())
    return dict((k, getattr(v, k)) for k in D.FIELDS[type(v).__name__] if hasattr(v, k))


def rec_valid(v, name):
    """Does the real instance satisfy its declaration (independent scan)?"""
    flds = D.FIELDS[name]
    data = inst_data(v)
    for k, x in data.items():
        if k not in flds:
            return 'unknown field %r' % (k,)
        f = flds[k]
        if f.nested:
            if f.nested[0] == 'seqopt' and x is None:
                continue
            if f.nested[0] == 'map':
                ok = isinstance(x, P.PMap) and all(isinstance(a, f.nested[1]) and isinstance(b, f.nested[2]) for a, b in x.items())
            elif f.nested[0] == 'cvec':
                ok = isinstance(x, D.CVInt) and inst_ok(x, 'CVInt') is None
            elif f.nested[0] == 'inst':
                ok = isinstance(x, C(name[0] + f.nested[1])) and rec_valid(x, name[0] + f.nested[1]) is None
            else:
                ok = isinstance(x, (P.PVector, P.PSet)) and all(isinstance(a, f.nested[1]) for a in x)
                ok = ok and (f.pred is None or f.pred(x))
            if not ok:
                return 'field %s holds %r' % (k, x)
            continue
        if f.types and not isinstance(x, f.types):
            return 'field %s holds %r of forbidden type' % (k, x)
        if f.pred and not f.pred(x):
            return 'field %s holds %r which violates its invariant' % (k, x)
    for k, f in flds.items():
        if f.mandatory and k not in data:
            return 'mandatory field %s is missing' % k
    if any(not g(data) for g, _ in D.GLOBALS[name]):
        return 'global invariant violated by %r' % (data,)
    return None


def rec_check(v, m):
    data, name = m
    if type(v) is not C(name):
        return 'not a %s: %r' % (name, type(v))
    msg = rec_valid(v, name)
    if msg:
        return msg
    real = inst_data(v)
    if set(real) != set(data):
        return 'fields %s instead of %s' % (sorted(real), sorted(data))
    for k in data:
        msg = val_check(real[k], data[k])
        if msg:
            return 'field %s: %s' % (k, msg)
        if getattr(v, k) is not real[k]:
            return 'attribute %s differs from item' % k
    return None


def rec_observe(v):
    data = inst_data(v)
    return (type(v).__name__, tuple(sorted((k, id(x)) for k, x in data.items())), safe_hash(v), repr(v))


def rec_seeds(names):
    def f(w):
        out = []
        for name in names:
            for given in ({'x': 1}, {'x': 2, 'y': 'a', 'f': 4}, {'x': 3, 'o': None, 'n': [1, 2]}, {}, {'a': 1, 'c': 2}, {'v': [1, 2], 's': ['q'], 'm': {'e': 1}},
                          {'p': {'x': 1, 'f': 4}, 'q': {'x': 2, 'o': 'b', 'n': [1, 2]}, 'a': 5}):
                try:
                    model = m_create(name, given)
                except Reject:
                    continue
                out.append((C(name)(**given), model))
        return out
    return f


def m_create(name, given, ignore=False):
    data, bad = D.build(name, {k: v for k, v in given.items() if not ignore or k in D.FIELDS[name]}, (), ignore)
    D.with_initial(name, data)
    return D.finish(name, data, bad)


def m_setf(m, given):
    """update of several fields of an existing instance"""
    cur, name = m
    data, bad = D.build(name, given, cur)
    return D.finish(name, data, bad)


def m_rec_remove(m, k):
    cur, name = m
    if k not in cur:
        raise Reject((KeyError, AttributeError))
    data = {a: b for a, b in cur.items() if a != k}
    if name[0] == 'K':
        D.with_initial(name, data)
    return D.finish(name, data, D.Bad())


FN = lambda g: ['fname', g.r.randrange(1 << 16)]

T = 'C12'
for _kind, _names in (('rec', D.RECS), ('cls', D.KLASSES)):
    Kind(_kind, 'C12', rec_check, rec_observe, lambda m: list(m[0]), rec_seeds(_names))
    _N = lambda g, names=_names: g.lit(g.r.choice(names))
    NR = 'new:' + _kind
    op(_kind + '.new', None, lambda g, N=_N: [['kwn', g.r.choice(D.RECS if N is None else [N(g)[1]]), g.r.randrange(1 << 30)]],
       lambda a: C(a[0])(**a[1]), lambda a: m_create(*a), NR, T, 3)
    op(_kind + '.create', None, lambda g, N=_N: [['kwn', N(g)[1], g.r.randrange(1 << 30)], g.lit(g.r.choice((False, True)))],
       lambda a, ig: C(a[0]).create(a[1], ignore_extra=ig) if ig else C(a[0]).create(a[1]),
       lambda a, ig: m_create(a[0], a[1], ig), NR, T, 2)
    op(_kind + '.createnest', None, lambda g, k=_kind[0]: [['kwx', {'r': 'R5', 'c': 'K5'}[k], g.r.randrange(1 << 30)], g.lit(g.r.random() < 0.7)],
       lambda a, ig: C(a[0]).create(a[1], ignore_extra=ig) if ig else C(a[0]).create(a[1]),
       lambda a, ig: m_create(a[0], a[1], ig), NR, T, 1)
    op(_kind + '.createself', _kind, lambda g: [], lambda v: type(v).create(v) is v, lambda m: True, 'val', T, 0.3)
    op(_kind + '.set', _kind, lambda g: [['kw', g.r.randrange(1 << 30), 0]], lambda v, kw: v.set(**kw), m_setf, NR, T, 5)
    op(_kind + '.set1', _kind, lambda g: [['kw', g.r.randrange(1 << 30), 1]], lambda v, kw: v.set(*list(kw.items())[0]), m_setf, NR, T, 2)
    op(_kind + '.remove', _kind, lambda g: [FN(g)], lambda v, k: v.remove(k), m_rec_remove, NR, T, 2)
    op(_kind + '.removex', _kind, lambda g: [g.lit(g.r.choice(('x', 'y', 'z', 'f', 'g', 'a', 'v', 'nope')))], lambda v, k: v.remove(k), m_rec_remove, NR, T, 0.5)
    op(_kind + '.transform', _kind, lambda g: [['kw', g.r.randrange(1 << 30), 2]], lambda v, kw: v.transform(*[y for k, x in kw.items() for y in ([k], lambda _, x=x: x)]),
       lambda m, kw: m_transf(m, kw), NR, T, 1.5)
    op(_kind + '.setattr', _kind, lambda g: [FN(g), g.atom()], lambda v, k, x: setattr(v, k, x), lambda m, k, x: M.raiser(Reject((AttributeError, TypeError))), 'val', T, 0.7)
    op(_kind + '.setattrx', _kind, lambda g: [g.lit(g.r.choice(('x', 'nope', 'q', '_precord_fields', 'z'))), g.atom()], lambda v, k, x: setattr(v, k, x), lambda m, k, x: M.raiser(Reject((AttributeError, TypeError))), 'val', T, 0.5)
    op(_kind + '.delattr', _kind, lambda g: [FN(g)], lambda v, k: delattr(v, k), lambda m, k: M.raiser(Reject((AttributeError, TypeError))), 'val', T, 0.5)
    op(_kind + '.getattr', _kind, lambda g: [FN(g)], lambda v, k: getattr(v, k), lambda m, k: mget(m, k), 'valc', T, 0.7)
    op(_kind + '.eqself', _kind, lambda g: [['kw', g.r.randrange(1 << 30), 1]], lambda v, kw: (v == v.set(**kw), v != v.set(**kw)),
       lambda m, kw: eq_set(m, kw), 'val', T, 0.5)
    op(_kind + '.evo', _kind, lambda g: [['kw', g.r.randrange(1 << 30), 2]], lambda v, kw: rec_evo(v, kw), m_setf, NR, T, 2)
    op(_kind + '.serialize', _kind, lambda g: [g.lit(g.r.choice((None, 'fmt')))], lambda v, f: flat_ser(v.serialize(f)), lambda m, f: m_ser(m[0], m[1], f), 'val', T, 0.8)

op('rec.update', 'rec', lambda g: [['kw', g.r.randrange(1 << 30), 0]], lambda v, kw: v.update(kw), m_setf, 'new:rec', T, 3)
op('rec.plus', 'rec', lambda g: [['kw', g.r.randrange(1 << 30), 0]], lambda v, kw: v + kw, m_setf, 'new:rec', T, 0.5)
op('rec.discard', 'rec', lambda g: [FN(g)], lambda v, k: v.discard(k), lambda m, k: m_rec_remove(m, k) if k in m[0] else m, 'new:rec', T, 1)
op('rec.get', 'rec', lambda g: [FN(g)], lambda v, k: v[k], lambda m, k: mget(m, k, KeyError), 'valc', T, 0.5)
op('rec.len', 'rec', lambda g: [], lambda v: (len(v), sorted(v)), lambda m: (len(m[0]), sorted(m[0])), 'val', T, 0.4)


def mget(m, k, exc=AttributeError):
    if k not in m[0]:
        raise exc(k)
    return m[0][k]


def m_transf(m, kw):
    """One command per field, applied one after the other."""
    for k, x in kw.items():
        if m[1][0] == 'K' and k not in m[0]:
            raise Reject((AttributeError,))
        m = m_setf(m, {k: x})
    return m


def rec_evo(v, kw):
    e = v.evolver()
    for k, x in kw.items():
        e[k] = x
    return M.settle(e)


def flat_ser(x):
    """instances given to a serializer appear in its result"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 's':
        return ('s', x[1], flat_ser(x[2]))
    if isinstance(x, (P.PRecord, P.PClass)):
        return plain(x)
    if type(x) is dict:
        return {k: flat_ser(v) for k, v in x.items()}
    return x


def m_ser(data, name, fmt):
    """What serialize(fmt) gives for an instance with these contents."""
    out = {}
    for k, x in data.items():
        f = D.FIELDS[name][k]
        if f.ser:
            out[k] = ('s', fmt, plain(x))
        elif isinstance(x, Nest):
            out[k] = m_ser(x.content, x.name, fmt) if x.kind == 'inst' else x.content if isinstance(x.content, (set, frozenset)) else \
                dict(x.content) if x.kind == 'map' else list(x.content)
        elif isinstance(x, (P.PRecord, P.PClass)):
            n = type(x).__name__
            out[k] = m_ser({a: (model_of(b)) for a, b in inst_data(x).items()}, n, fmt)
        else:
            out[k] = x
    return out


def model_of(x):
    """Model of a field value read from a real instance."""
    if isinstance(x, (P.PRecord, P.PClass)):
        return Nest('inst', {k: model_of(y) for k, y in inst_data(x).items()}, type(x).__name__)
    if isinstance(x, P.PMap):
        return Nest('map', dict(x))
    if isinstance(x, P.PSet):
        return Nest('seq', set(x))
    if isinstance(x, P.PVector):
        return Nest('seq', list(x))
    return x


def plain(x):
    x = model_of(x)
    if isinstance(x, Nest):
        return {'inst': x.name, **{k: plain(v) for k, v in x.content.items()}} if x.kind == 'inst' else x.content
    return x


def eq_set(m, kw):
    r = m_setf(m, kw)
    def plain_(d):
        return {k: plain(x) for k, x in d.items()}
    e = plain_(r[0]) == plain_(m[0])
    return (e, not e)


def nestkey(spec):
    """create() of a map whose keys and values are checked collections themselves; spec: [(key elements, value elements)]"""
    src = {}
    for j, (k, v) in enumerate(spec):
        src[D.CVInt(k) if j % 2 else tuple(k)] = D.CVInt(v) if j % 3 == 0 else list(v) if j % 3 == 1 else len(v)
    r = D.CMKey.create(src)
    if type(r) is not D.CMKey or any(type(k) is not D.CVInt for k in r) or any(type(v) not in (D.CVInt, int) for v in r.values()):
        return 'not converted: %r' % (r,)
    try:
        ser = None
        D.CMKey.create({(1,): 5}).serialize()
    except TypeError as e:
        if isinstance(e, SimFault):
            raise
        ser = True      # lists are not hashable: keys are serialised too
    return (sorted((list(k), v if type(v) is int else list(v)) for k, v in r.items()), all(r[k] is v for k, v in r.items()),
            D.CMKey.create(r) is r, ser)


def m_nestkey(spec):
    bad = D.Bad()
    out = {}
    for j, (k, v) in enumerate(spec):
        for els in (k, v) if j % 3 != 2 else (k,):
            try:
                D.validate_seq('CVInt', els)
            except Reject as e:
                bad.update(e.classes)
                bad.vague = True
        out[tuple(k)] = list(v) if j % 3 != 2 else len(v)
    if bad:
        raise bad.reject()
    return (sorted((list(k), v) for k, v in out.items()), True, True, True)


def g_nestkey(g):
    r = g.r
    ks = [[i] + [r.randrange(5)] * r.randrange(3) for i in range(r.randrange(4))]
    if r.random() < 0.1 and ks:
        ks[-1] = [-1]
    return [g.lit([[k, [r.choice((0, 1, 2, 2, 2, -1 if r.random() < 0.1 else 3)) for _ in range(r.randrange(3))]] for k in ks])]


op('cmap.nestkey', None, g_nestkey, nestkey, m_nestkey, 'val', 'C11', 0.4)
for _kind, _tag in (('cvec', 'C11'), ('cset', 'C11'), ('cmap', 'C11'), ('rec', 'C12'), ('cls', 'C12')):
    S.fixed_ops(_kind, _tag)


# ------------------------------------------------------------------ argument and result kinds
def res_vecish(e, g):
    """Operations that are not declared to return the checked type: plain or checked, exact and valid."""
    n = type(g).__name__
    if n in SPEC:
        return inst_ok(g, n) or like_els(list(g), e)
    if any(type(x) is D.CVInt for x in e):
        return like_els(list(g), e)
    return S.vec_check(g, e)


def res_setish(e, g):
    n = type(g).__name__
    if n in SPEC:
        msg = inst_ok(g, n)
        if msg:
            return msg
    return M.set_check(g, e)


def res_eln(e, g):
    if type(e) is D.CVInt and type(g) is D.CVInt:
        return same_els(g.tolist(), e.tolist())
    return None if g is e else 'expected %r, got %r' % (e, g)


RESULTS['eln'] = res_eln
RESULTS['vecish'] = res_vecish
RESULTS['setish'] = res_setish
RESULTS['valc'] = lambda e, g: val_check(g, e)


def name_of(target):
    return target.model[1]


def r_good(w, spec, target):
    _, n, off, cont, bad = spec
    name = name_of(target)
    els = list(valid_els(w, name, n, off))
    if bad and els:
        els[off % len(els)] = w.atoms[(off * 7) % len(w.atoms)]
    return w.mkiter(cont, els)


def r_good1(w, spec, target):
    els = valid_els(w, name_of(target), 1, spec[1])
    x = els[0] if els and not spec[2] else w.atoms[spec[1] % len(w.atoms)]
    return x, x


def r_goodm(w, spec, target):
    _, n, off, cont, bad = spec
    name = name_of(target)
    d = valid_map(w, name, len(w.atoms), 0)
    ks = list(d)
    out = {}
    for i in range(min(n, len(ks))):
        k = ks[(off + i) % len(ks)]
        out[k] = d[k]
        if not SPEC[name].nested:
            for j in range(len(w.atoms)):
                x = w.atoms[(off * 5 + i * 3 + j) % len(w.atoms)]
                if not SPEC[name].bad_type(x) and not SPEC[name].bad_inv(k, x):
                    out[k] = x
                    break
    if bad and out:
        out[w.atoms[(off * 3) % len(w.atoms)]] = w.atoms[(off * 11) % len(w.atoms)]
    if cont == 'dict':
        return dict(out), out
    if cont == 'pmap':
        return w.lib.pmap(out), out
    return w.SimMapping(out), out


BIGINTS = list(range(300, 320))     # integers with an identity of their own
class I(int):
    """equal to a plain integer, never the same object"""
    __slots__ = ()

    def __repr__(self):
        return 'I(%d)' % int(self)


PLAIN = ['', (), 0, 1, 2, 5, 5, 8, 8, 8, 13, -1, 'a', 'b', '7', None, 2.5, 99, D.Color.RED, D.OtherColor.RED, I(1), I(5), I(8), I(8), I(13), 5.0, True]


def field_value(r, fld, prefix='R'):
    if fld is not None and fld.nested:
        kind = fld.nested[0]
        good = r.random() < 0.85
        if kind == 'seqopt' and r.random() < 0.2:
            return None
        if kind == 'inst':
            sub = prefix + fld.nested[1]
            kw = {}
            for k, f in D.FIELDS[sub].items():
                if f.mandatory and r.random() < 0.97 or r.random() < 0.3:
                    kw[k] = field_value(r, f, prefix)
            if r.random() < 0.1:
                kw['nope'] = 1
            if r.random() < 0.03:
                return 5
            if r.random() < 0.3:
                try:
                    with quiet():
                        return C(sub)(**kw)
                except Exception:
                    pass
            return kw
        if kind == 'map':
            d = {r.choice('abc'): r.choice(BIGINTS) for _ in range(r.randrange(3))}
            if not good:
                d[5] = 'x'
            return d if r.random() < 0.97 else 5
        t = fld.nested[1] if kind != 'cvec' else int
        base = {'int': [1, 2, 3, 300], 'str': ['p', 'q', 'b']}
        els = [r.choice(base['str'] if t is str else base['int']) for _ in range(r.randrange(4))]
        if not good:
            els.append(r.choice((-1, None, 2.5, 'z')) if t is not str else 5)
        return els if r.random() < 0.97 else 7
    if fld is not None and r.random() < 0.8:
        for _ in range(20):
            x = r.choice(PLAIN)
            y, bad = D.conv('', fld, x, True)
            if not bad:
                return x
    return r.choice(PLAIN)


def gen_kw(r, name, mode, cur):
    import random as _r
    names = sorted(D.FIELDS[name])
    n = 1 if mode in (1, 3) else r.choice((1, 1, 2, 2, 3, 4))
    out = {}
    for _ in range(n):
        k = r.choice(names)
        if r.random() < 0.3:
            k = r.choice([x for x in ('x', 'z', 'a', 'v', 'p', 'q') if x in names])
        if mode != 2 and r.random() < 0.04:
            k = 'nope'
        x = field_value(r, D.FIELDS[name].get(k), name[0])
        if mode >= 2 and k == 'f' and (mode == 2 or x == cur.get(k)):
            continue        # re-setting the value held is a no-op for some evolvers; not part of any claim
        out[k] = x
    if not out:
        k = [x for x in names if x != 'f'][0]
        out[k] = field_value(r, D.FIELDS[name][k], name[0])
    return out


def r_kw(w, spec, target):
    import random as _r
    key = ('kw', spec[1])
    if key not in w.pins:       # a repeated operation gets the same objects
        w.pins[key] = gen_kw(_r.Random('kw-%d' % spec[1]), name_of(target), spec[2], target.model[0])
    kw = w.pins[key]
    return dict(kw), kw


def r_kwn(w, spec, target):
    import random as _r
    r = _r.Random('kwn-%d' % spec[2])
    name = spec[1]
    key = ('kwn', spec[2])
    if key in w.pins:
        kw = w.pins[key]
        return (name, dict(kw)), (name, kw)
    kw = gen_kw(r, name, 0, {})
    for k, f in D.FIELDS[name].items():
        if k not in kw and (f.mandatory and not f.nested and r.random() < 0.93 or r.random() < 0.25):
            kw[k] = field_value(r, f, name[0])
    w.pins[key] = kw
    return (name, dict(kw)), (name, kw)


def r_kwx(w, spec, target):
    """nested data, often with unknown fields on both levels"""
    import random as _r
    r = _r.Random('kwx-%d' % spec[2])
    name, key = spec[1], ('kwx', spec[2])
    if key not in w.pins:
        kw = {}
        for k in r.sample(('p', 'q'), r.choice((1, 2))):
            sub = name[0] + D.FIELDS[name][k].nested[1]
            d = kw[k] = {a: field_value(r, f, name[0]) for a, f in D.FIELDS[sub].items() if f.mandatory or r.random() < 0.4}
            if r.random() < 0.4:
                d['nope'] = 1
        if r.random() < 0.4:
            kw['more'] = 2
        w.pins[key] = kw
    return (name, dict(w.pins[key])), (name, w.pins[key])


def r_fname(w, spec, target):
    data, name = target.model
    ks = sorted(data)
    if spec[1] % 7 == 0 or not ks:
        ks = sorted(D.FIELDS[name])
    k = ks[spec[1] // 7 % len(ks)]
    return k, k


for _k, _f in (('fname', r_fname), ('good', r_good), ('good1', r_good1), ('goodm', r_goodm), ('kw', r_kw), ('kwn', r_kwn), ('kwx', r_kwx)):
    RESOLVERS[_k] = _f
