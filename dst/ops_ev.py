"""Task-owned evolvers and iterators.

An evolver belongs to the task that made it; its source value and everything it produces go to the
shared pools, so that other tasks build evolvers on the very same structures.
"""
from dst.world import KINDS, Entry, brief, short
from dst.sim import quiet, SimInterrupt
from dst import ops_seq as S, ops_map as M, ops_chk as K
from dst import decl as D
from dst.decl import Reject, Nest

P = D.P
TASKOPS = {}


class Ev(object):
    """kind, evolver, model (content as in the pool kinds), source entry, updated: an update succeeded or may have"""
    def __init__(self, kind, ev, model, src):
        self.kind, self.ev, self.model, self.src = kind, ev, model, src
        self.updated = False
        self.alts = None        # after a failed bulk update: acceptable models
        self.last = None        # last persistent() result, if no update since


# ------------------------------------------------------------------ update tables: name -> (gen, real, model, bulk)
def v_del(m, i):
    m = list(m)
    del m[i]
    return m


def v_rm(m, x):
    m = list(m)
    m.remove(x)
    return m


def reenter(e, it, r, x):
    """An iterable that uses the evolver it is given to, in ways whose outcome does not depend on when it is read."""
    return reenter_(e, list(it), r, x)


def reenter_(e, items, r, x):
    k = r % (len(items) + 1)
    n = len(e)
    seen = []
    for i in range(len(items) + 1):
        if i == k:
            if r // 2 % 4 == 0 and n:
                e[r % n] = x
            elif r // 2 % 4 == 1:
                len(e), e.is_dirty(), n and e[-1]
            else:
                seen.append(e.persistent())
        if i < len(items):
            yield items[i]
    for p in seen:
        if not n <= len(p) <= n + len(items):
            raise AssertionError('a vector of %d elements taken from an evolver of %d' % (len(p), n))


def m_reenter(m, it, r, x):
    m = list(m)
    if r // 2 % 4 == 0 and m:
        m[r % len(m)] = x
    return m + list(it)


VEC = {
    'set': (lambda g: [g.index(), g.atom()], lambda e, i, x: e.set(i, x), S.m_set, False, 4),
    'setitem': (lambda g: [g.index(), g.atom()], lambda e, i, x: e.__setitem__(i, x), S.m_set, False, 5),
    'append': (lambda g: [g.atom()], lambda e, x: e.append(x), lambda m, x: m + [x], False, 4),
    'extend': (lambda g: [g.iterable()], lambda e, it: e.extend(it), lambda m, it: m + list(it), True, 3),
    'extendre': (lambda g: [g.iterable(), g.lit(g.r.randrange(1 << 12)), g.atom()], lambda e, it, r, x: e.extend(reenter(e, it, r, x)), m_reenter, False, 1),
    'delete': (lambda g: [g.index()], lambda e, i: e.delete(i), v_del, False, 1.5),
    'delitem': (lambda g: [g.index()], lambda e, i: e.__delitem__(i), v_del, False, 1),
    'badset': (lambda g: [g.lit(g.r.choice(('a', None, 1.5))), g.atom()], lambda e, i, x: e.__setitem__(i, x), lambda m, i, x: M.raiser(TypeError()), False, 0.3),
}
MAP = {
    'set': (lambda g: [g.pick(), g.atom()], lambda e, k, x: e.set(k, x), M.d_set, False, 4),
    'setnew': (lambda g: [g.atom(), g.atom()], lambda e, k, x: e.__setitem__(k, x), M.d_set, False, 6),
    'remove': (lambda g: [g.pick()], lambda e, k: e.remove(k), M.d_remove, False, 3),
    'delitem': (lambda g: [g.pick()], lambda e, k: e.__delitem__(k), M.d_remove, False, 2),
    'bad': (lambda g: [g.atom()], lambda e, x: e.set([x], x), lambda m, x: M.raiser(TypeError()), False, 0.3),
}
SET = {
    'add': (lambda g: [g.atom()], lambda e, x: e.add(x), lambda m, x: {**m, x: True}, False, 6),
    'remove': (lambda g: [g.pick()], lambda e, x: e.remove(x), M.d_remove, False, 3),
    'bad': (lambda g: [g.atom()], lambda e, x: e.add([x]), lambda m, x: M.raiser(TypeError()), False, 0.3),
}


def onval(f):
    return lambda m, *a: (f(m[0], *a), m[1])


def ck(f):
    def g(m, *a):
        r = f(m[0], *a)
        D.validate_seq(m[1], r)
        return (r, m[1])
    return g


G1 = lambda g: ['good1', g.r.randrange(64), 1 if g.r.random() < 0.15 else 0]
CVEC = {
    'set': (lambda g: [g.index(), G1(g)], lambda e, i, x: e.set(i, x), K.chk(S.m_set), False, 4),
    'setitem': (lambda g: [g.index(), G1(g)], lambda e, i, x: e.__setitem__(i, x), K.chk(S.m_set), False, 4),
    'append': (lambda g: [G1(g)], lambda e, x: e.append(x), ck(lambda m, x: m + [x]), False, 4),
    'extend': (lambda g: [K.GOOD(g)], lambda e, it: e.extend(it), ck(lambda m, it: m + list(it)), True, 3),
    'delete': (lambda g: [g.index()], lambda e, i: e.delete(i), onval(v_del), False, 2),
}
CSET = {
    'add': (lambda g: [G1(g)], lambda e, x: e.add(x), lambda m, x: K.cs_more(m, [x]), False, 6),
    'remove': (lambda g: [g.pick()], lambda e, x: e.remove(x), onval(M.d_remove), False, 3),
}
CMAP = {
    'set': (lambda g: [g.pick(), g.atom()], lambda e, k, x: e.set(k, x), K.cm_set, False, 4),
    'setg': (lambda g: [['goodkv', g.r.randrange(64)]], lambda e, kv: e.__setitem__(*kv), lambda m, kv: K.cm_set(m, *kv), False, 5),
    'remove': (lambda g: [g.pick()], lambda e, k: e.remove(k), onval(M.d_remove), False, 2),
    'delitem': (lambda g: [g.pick()], lambda e, k: e.__delitem__(k), onval(M.d_remove), False, 2),
}


def m_recset(m, kw):
    """model of one evolver field update: conversion and checks of that field only"""
    (k, x), = kw.items()
    cur, name = m
    data, bad = D.build(name, {k: x}, cur)
    if bad:
        raise bad.reject()
    return (data, name)


def m_recdel(m, k):
    cur, name = m
    if k not in cur:
        raise Reject((KeyError, AttributeError))
    return ({a: b for a, b in cur.items() if a != k}, name)


REC = {
    'set': (lambda g: [['kw', g.r.randrange(1 << 30), 3]], lambda e, kw: e.set(*list(kw.items())[0]), m_recset, False, 4),
    'setitem': (lambda g: [['kw', g.r.randrange(1 << 30), 3]], lambda e, kw: e.__setitem__(*list(kw.items())[0]), m_recset, False, 4),
    'remove': (lambda g: [['optfield', g.r.randrange(64)]], lambda e, k: e.remove(k), m_recdel, False, 1),
    'delitem': (lambda g: [['optfield', g.r.randrange(64)]], lambda e, k: e.__delitem__(k), m_recdel, False, 1),
}
CLS = dict(REC)
CLS['setattr'] = (lambda g: [['kw', g.r.randrange(1 << 30), 3]], lambda e, kw: setattr(e, *list(kw.items())[0]), m_recset, False, 3)

UPD = {'vec': VEC, 'map': MAP, 'set': SET, 'cvec': CVEC, 'cset': CSET, 'cmap': CMAP, 'rec': REC, 'cls': CLS}
EVKINDS = ('vec', 'map', 'set', 'cvec', 'cset', 'cmap', 'rec', 'cls')


# ------------------------------------------------------------------ reading an evolver
def ev_check(kind, e, m):
    """None or message: does the evolver show exactly the model's content through its read interface?"""
    try:
        return ev_check_(kind, e, m)
    except Exception as x:
        return 'reading the evolver raised %s: %s' % (type(x).__name__, str(x)[:200])


def ev_check_(kind, e, m):
    if kind in ('vec', 'cvec'):
        els = m if kind == 'vec' else m[0]
        n = len(els)
        if len(e) != n:
            return 'len is %d instead of %d' % (len(e), n)
        idx = range(n) if n <= 40 else sorted(set(range(0, n, 1 + n // 24)) | {n - 1, n - 2, n - 32, n - 33, 31, 32})
        for i in idx:
            if K.res_eln(els[i], e[i]):
                return 'element %d is %r instead of %r' % (i, e[i], els[i])
            if K.res_eln(els[i], e[i - n]):
                return 'element %d is %r instead of %r' % (i - n, e[i - n], els[i])
        return None
    if kind in ('map', 'cmap'):
        d = m if kind == 'map' else m[0]
        if len(e) != len(d):
            return 'len is %d instead of %d' % (len(e), len(d))
        for k in d:
            try:
                if K.res_eln(d[k], e[k]):
                    return 'value of %r is %r instead of %r' % (k, e[k], d[k])
            except KeyError:
                return 'key %r is missing' % (k,)
            if k not in e:
                return 'key %r is not contained' % (k,)
        return None
    if kind in ('set', 'cset'):
        d = m if kind == 'set' else m[0]
        if len(e) != len(d):
            return 'len is %d instead of %d' % (len(e), len(d))
        return None
    data, name = m
    for k, x in data.items():
        f = D.FIELDS[name][k]
        if kind == 'cls' and (f.factory or f.nested):
            continue        # conversion happens when the instance is made
        try:
            got = e[k]
        except KeyError:
            return 'field %s is missing' % k
        msg = K.val_check(got, x)
        if msg:
            return 'field %s: %s' % (k, msg)
        if kind == 'cls' and getattr(e, k) is not got:
            return 'attribute %s differs from the item' % k
    for k in D.FIELDS[name]:
        if k not in data:
            try:
                e[k]
            except KeyError:
                continue
            return 'field %s is present' % k
    return None


def final_model(kind, m):
    """Model of persistent(): raises Reject if the content is not allowed as a whole (records, classes)."""
    if kind in ('rec', 'cls'):
        data = dict(m[0])
        if kind == 'cls':
            D.with_initial(m[1], data)
        return D.finish(m[1], data, D.Bad())
    return m


# ------------------------------------------------------------------ operations
def slots(task):
    return task.state.setdefault('evs', [])


def ev_new(w, task, o):
    kind, n = o['a']
    src = w.get(kind, n)
    ev = w.real(task, o, lambda: src.value.evolver(), faultable=False)
    if ev[0] != 'ok':
        if ev[1] is task.lastfault:
            return
        w.sim.violate('C06', 'evolver() on a %s raised %r' % (kind, ev[1]), 'C06:new')
        return
    s = slots(task)
    x = Ev(kind, ev[1], src.model, src)
    if len(s) >= w.cfg.get('ev_cap', 4):
        s[w.serial % len(s)] = x
        w.serial += 1
    else:
        s.append(x)
    w.sim.event('ev.new', task.idx, kind)


def pick(task, o, w):
    s = slots(task)
    if not s:
        return None
    return s[o['t'] % len(s)]


def ev_upd(w, task, o):
    sim = w.sim
    x = pick(task, o, w)
    if x is None:
        return
    table = UPD[x.kind]
    names = sorted(table)
    name = o['u'] if o.get('u') in table else names[o['h'] % len(names)]
    gen, real, model, bulk, _ = table[name]
    import random
    from dst.world import Gen
    g = Gen(random.Random('upd-%d' % o['h']), w.cfg)
    specs = gen(g)
    target = Entry(x.kind, None, x.model, 0)
    args = [w.resolve(s, target) for s in specs]
    exp = w.outcome(model, [x.model] + [b for _, b in args])
    got = w.real(task, o, lambda: real(x.ev, *[a for a, _ in args]), faultable=True)
    fault = task.lastfault
    what = '%s.%s on an evolver of a %s' % (x.kind, name, x.kind)
    checked = x.kind in ('cvec', 'cset', 'cmap', 'rec', 'cls')
    if isinstance(fault, SimInterrupt):
        # an interrupted update may have been applied or not; everything persistent is checked by the caller
        if got[0] == 'ok' or got[1] is not fault:
            sim.violate('C07', '%s: injected %r became %s' % (what, fault, brief(got)), 'C07:ev-interrupt')
        slots(task).remove(x)
        return
    if fault is not None:
        sim.stat('faulted_updates')
        if got[0] == 'ok':
            sim.violate('C07', '%s: injected %r was swallowed' % (what, fault), 'C07:ev-swallowed')
        elif got[1] is not fault:
            sim.violate('C07', '%s: injected %r surfaced as %r' % (what, fault, got[1]), 'C07:ev-replaced')
        failed = True
    else:
        failed = exp[0] == 'exc'
        if failed and got[0] == 'ok':
            if checked and isinstance(exp[1], Reject) and (D.P.InvariantException in exp[1].classes or x.kind == 'cls'):
                # invariant errors are reported by persistent(), and a class evolver checks everything there
                with quiet():
                    p = w.outcome(lambda: x.ev.persistent(), [])
                if p[0] == 'ok':
                    sim.violate('C11' if x.kind[0] == 'c' and x.kind != 'cls' else 'C12', '%s: invalid value accepted' % what, 'inv:ev')
                slots(task).remove(x)
                sim.event('ev.rejected', task.idx, x.kind)
                return
            sim.violate('C06', '%s: expected %r, got success' % (what, exp[1]), 'C06:noerror')
            slots(task).remove(x)
            return
        if failed and not isinstance(got[1], getattr(exp[1], 'classes', None) or type(exp[1])):
            sim.violate('C06', '%s: expected %r, got %r' % (what, exp[1], got[1]), 'C06:wrongerror')
        if not failed and got[0] == 'exc':
            sim.violate('C06', '%s raised %r' % (what, got[1]), 'C06:error')
            slots(task).remove(x)
            return
    if not failed:
        if got[1] is not None and got[1] is not x.ev:
            sim.violate('C06', '%s does not return the evolver' % what, 'C06:chain')
        if not same_model(x.kind, x.model, exp[1]):
            x.last = None
        x.model = exp[1]
        x.updated = True
        sim.event('ev.upd', task.idx, x.kind, name)
        msg = ev_check(x.kind, x.ev, x.model)
        if msg:
            sim.violate('C06', 'after %s: %s' % (what, msg), 'C06:%s' % x.kind)
        return
    # the update failed: everything acknowledged before is still there
    sim.event('ev.fail', task.idx, x.kind, name)
    sim.probe('ev.failed.%s.%s' % (x.kind, 'fault' if fault is not None else 'rejected'))
    x.last = None
    x.updated = True
    if bulk and x.kind == 'vec':
        els = [b for _, b in args][0]
        n, k = len(x.model), len(x.ev)
        if not n <= k <= n + len(els):
            sim.violate('C08', 'after a failed %s the evolver has %d elements, %d were acknowledged' % (what, k, n), 'C08:vec')
            return
        x.model = x.model + list(els[:k - n])
    msg = ev_check(x.kind, x.ev, x.model)
    if msg:
        sim.violate('C08', 'after a failed %s: %s' % (what, msg), 'C08:%s' % x.kind)
    fin = w.outcome(final_model, [x.kind, x.model])
    with quiet():
        p = w.outcome(lambda: x.ev.persistent(), [])
    if fin[0] == 'ok':
        if p[0] == 'exc':
            sim.violate('C08', 'persistent() after a failed %s raised %r' % (what, p[1]), 'C08:persist')
        else:
            msg = KINDS[x.kind].check(p[1], fin[1])
            if msg:
                sim.violate('C08', 'persistent() after a failed %s: %s' % (what, msg), 'C08:%s' % x.kind)
            w.add(x.kind, p[1], fin[1])
            rebase(x, p[1], fin[1])


def same_model(kind, a, b):
    return a is b


def rebase(x, value, model):
    """After persistent(): class evolvers keep raw data, all others reflect the produced value."""
    x.last = value
    if x.kind == 'cls':
        return
    x.model = model


def ev_persist(w, task, o):
    sim = w.sim
    x = pick(task, o, w)
    if x is None:
        return
    fin = w.outcome(final_model, [x.kind, x.model])
    got = w.real(task, o, lambda: x.ev.persistent(), faultable=True)
    fault = task.lastfault
    what = 'persistent() on an evolver of a %s' % x.kind
    if isinstance(fault, SimInterrupt):
        if got[0] == 'ok' or got[1] is not fault:
            sim.violate('C07', '%s: injected %r became %s' % (what, fault, brief(got)), 'C07:ev-interrupt')
        slots(task).remove(x)
        return
    if fault is not None:
        if got[0] == 'ok' or got[1] is not fault:
            sim.violate('C07', '%s: injected %r became %s' % (what, fault, brief(got)), 'C07:ev-persist')
        with quiet():
            got = w.outcome(lambda: x.ev.persistent(), [])
        tag = 'C08'
    else:
        tag = 'C06'
    if fin[0] == 'exc':
        if got[0] == 'ok':
            sim.violate('C12', '%s: an instance that must not exist' % what, 'C12:ev')
        elif not isinstance(got[1], fin[1].classes):
            sim.violate('C12', '%s raised %r instead of %s' % (what, got[1], fin[1]), 'C12:ev-error')
        # documented error; drop the evolver (invalid content)
        slots(task).remove(x)
        sim.event('ev.invalid', task.idx)
        return
    if got[0] == 'exc':
        sim.violate(tag, '%s raised %r' % (what, got[1]), tag + ':persist-error')
        slots(task).remove(x)
        return
    v = got[1]
    msg = KINDS[x.kind].check(v, fin[1])
    if msg:
        sim.violate(tag, '%s: %s' % (what, msg), '%s:persist:%s' % (tag, x.kind))
        return
    if not x.updated and v is not x.src.value:
        sim.violate('C06', '%s without updates is not the source value' % what, 'C06:identity')
    sim.event('ev.persist', task.idx, x.kind)
    w.add(x.kind, v, fin[1])
    rebase(x, v, fin[1])
    msg = None if x.kind == 'cls' else ev_check(x.kind, x.ev, x.model)
    if msg:
        sim.violate('C06', 'evolver after %s: %s' % (what, msg), 'C06:after:%s' % x.kind)
    # the source value must not have changed
    msg = KINDS[x.kind].check(x.src.value, x.src.model)
    if msg:
        sim.violate('C06', 'source of the evolver changed: %s' % msg, 'C06:source:%s' % x.kind)


def ev_drop(w, task, o):
    s = slots(task)
    if s:
        x = s.pop(o['t'] % len(s))
        msg = KINDS[x.kind].check(x.src.value, x.src.model)
        if msg:
            w.sim.violate('C06', 'source of a dropped evolver changed: %s' % msg, 'C06:source:%s' % x.kind)


TASKOPS['ev.new'] = ev_new
TASKOPS['ev.upd'] = ev_upd
TASKOPS['ev.persist'] = ev_persist
TASKOPS['ev.drop'] = ev_drop


# ------------------------------------------------------------------ iterators
def iter_of(kind, v, way):
    if kind in ('map', 'cmap', 'rec'):
        return (iter, lambda m: iter(m.items()), lambda m: iter(m.values()), lambda m: iter(m.keys()))[way % 4](v)
    if kind in ('vec', 'cvec') and way % 3 == 2:
        return reversed(v)
    return iter(v)


def it_new(w, task, o):
    kind, n, way = o['a']
    src = w.get(kind, n)
    if kind in ('map', 'cmap', 'rec') and way % 3 == 0:
        view_new(w, task, o, kind, src, way)
        return
    exp = list(iter_of(kind, src.value, way))
    got = w.real(task, o, lambda: iter_of(kind, src.value, way), faultable=False)
    if got[0] != 'ok':
        if got[1] is task.lastfault:
            return
        w.sim.violate('C01', 'iter() on a %s raised %r' % (kind, got[1]), 'C01:iter')
        return
    s = task.state.setdefault('its', [])
    if len(s) >= 4:
        s.pop(0)
    s.append([got[1], exp, 0, kind, src])


def view_of(v, way):
    return (v.items, v.values, v.keys)[way % 3]()


def view_new(w, task, o, kind, src, way):
    way //= 3
    exp = list(view_of(src.value, way))
    got = w.real(task, o, lambda: view_of(src.value, way), faultable=False)
    if got[0] != 'ok':
        if got[1] is not task.lastfault:
            w.sim.violate('C01', 'a view of a %s raised %r' % (kind, got[1]), 'C01:view')
        return
    s = task.state.setdefault('its', [])
    if len(s) >= 4:
        s.pop(0)
    s.append([None, exp, got[1], kind, src])


def view_check(w, task, o, x):
    _, exp, view, kind, src = x
    got = w.real(task, o, lambda: (list(view), len(view), all(y in view for y in exp) if len(exp) < 40 else True), faultable=False)
    if got[0] != 'ok':
        if got[1] is not task.lastfault:
            w.sim.violate('C01', 'reading a view of a %s raised %r' % (kind, got[1]), 'C01:view:' + kind)
        return
    els, n, inside = got[1]
    if len(els) != len(exp) or n != len(exp) or not inside or any(not same(a, b) for a, b in zip(els, exp)):
        w.sim.violate('C01', 'a view of a %s changed from %s to %s, length %d' % (kind, short(exp), short(els), n), 'C01:view:' + kind)
    w.sim.event('view', task.idx, kind, n)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
        return a[0] is b[0] and a[1] is b[1] or a is b
    return a is b


def it_step(w, task, o):
    s = task.state.get('its')
    if not s:
        return
    x = s[o['t'] % len(s)]
    it, exp, pos, kind, src = x
    if it is None:
        view_check(w, task, o, x)
        return
    for j in range(o['a'][0]):
        got = w.real(task, o, lambda: next(it), faultable=False, sub='.%d' % j)
        if got[0] == 'exc' and not isinstance(got[1], StopIteration):
            if got[1] is task.lastfault:
                s.remove(x)         # a generator that was interrupted is finished
                return
            w.sim.violate('C01', 'iterator of a %s raised %r' % (kind, got[1]), 'C01:iter:' + kind)
            s.remove(x)
            return
        if pos >= len(exp):
            if got[0] == 'ok':
                w.sim.violate('C01', 'iterator of a %s yields more than at its start' % kind, 'C01:iter:' + kind)
            s.remove(x)
            return
        if got[0] == 'exc':
            w.sim.violate('C01', 'iterator of a %s stopped after %d of %d elements' % (kind, pos, len(exp)), 'C01:iter:' + kind)
            s.remove(x)
            return
        if not same(got[1], exp[pos]):
            w.sim.violate('C01', 'iterator of a %s yields %r at %d instead of %r' % (kind, got[1], pos, exp[pos]), 'C01:iter:' + kind)
        pos += 1
        x[2] = pos
    w.sim.event('it', task.idx, kind, pos)


TASKOPS['it.new'] = it_new
TASKOPS['it.step'] = it_step


# ------------------------------------------------------------------ argument kinds
def r_goodkv(w, spec, target):
    d, _ = K.r_goodm(w, ['goodm', 1, spec[1], 'dict', 0], target)
    if not d:
        return (w.atoms[0], w.atoms[1]), (w.atoms[0], w.atoms[1])
    kv = list(d.items())[0]
    return kv, kv


def r_optfield(w, spec, target):
    data, name = target.model
    ks = sorted(k for k in data if not D.FIELDS[name][k].mandatory) or sorted(data) or ['nope']
    k = ks[spec[1] % len(ks)] if spec[1] % 9 else 'nope'
    return k, k


K.RESOLVERS['goodkv'] = r_goodkv
K.RESOLVERS['optfield'] = r_optfield
