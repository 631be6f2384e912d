"""C14: transform().

The reference is a tree of plain nodes; each node that stands for an existing value knows that very object, so that the
model says not only what the result contains but also which parts must be the same objects as before.
"""
import functools
import random
import re

from dst import decl as D
from dst import atoms as A
from dst.sim import SimFault, SimInterrupt, quiet, cb
from dst.special import Base, RUN, PLANS, runner, numbered

P = D.P


class Unspecified(Exception):
    """The path leads into something transformations are not defined for."""


class Err(Exception):
    """The library must raise one of these."""
    def __init__(self, *classes):
        self.classes = classes


class TRec(P.PRecord):
    a = P.field()
    b = P.field(type=(int, float))
    c = P.field()
    d = P.field(initial=3)


class TCls(P.PClass):
    a = P.field()
    b = P.field(type=(int, float))
    c = P.field()


class TVec(P.CheckedPVector):
    __type__ = (int, float)
    __invariant__ = D.inv(lambda x: x >= 0, 'negative')


class TMap(P.CheckedPMap):
    __key_type__ = str
    __value_type__ = (int, float)


FIELDS = {'rec': ('a', 'b', 'c', 'd'), 'cls': ('a', 'b', 'c')}
SEQ = ('vec', 'pyvec', 'cvec')
MAP = ('map', 'rec', 'cmap')


class Ticket(object):
    """what the command 'fresh' returns: another one for each element"""
    __slots__ = ()


TICKET = Ticket()       # stands for any of them in the model
SEEN = {}


class N(object):
    """kind; val: list of nodes / dict key -> (key object, node) / leaf object; real: the existing object, if any."""
    __slots__ = ('kind', 'val', 'real')

    def __init__(self, kind, val, real=None):
        self.kind, self.val, self.real = kind, val, real


def plain(n):
    if n.kind in SEQ:
        return [plain(x) for x in n.val]
    if n.kind in MAP or n.kind == 'cls':
        return dict((k, plain(x)) for k, x in n.val.values())
    return n.val


# ---------------------------------------------------------------------- building
def build(lib, n):
    """Create the real value of a node and note it there."""
    if n.real is not None or n.kind == 'leaf':
        return n.val if n.kind == 'leaf' else n.real
    if n.kind in SEQ:
        els = [build(lib, x) for x in n.val]
        n.real = {'vec': lib.pvector, 'pyvec': lib.python_pvector, 'cvec': TVec}[n.kind](els)
    elif n.kind in MAP:
        d = dict((k, build(lib, x)) for k, x in n.val.values())
        n.real = lib.pmap(d) if n.kind == 'map' else TMap(d) if n.kind == 'cmap' else TRec(**d)
    elif n.kind == 'cls':
        n.real = TCls(**dict((k, build(lib, x)) for k, x in n.val.values()))
    return n.real


def compare(lib, n, v, path='result'):
    """None or a message.  Nodes with a known object must be that object."""
    if n.kind == 'leaf':
        if n.real is not None:
            return None if v is n.val else '%s is not the same object as before' % path
        if n.val is TICKET:
            if type(v) is not Ticket:
                return '%s is %r instead of what the function returned' % (path, v)
            if id(v) in SEEN:
                return '%s is what the function returned for another element' % path
            SEEN[id(v)] = v
            return None
        if type(v) is not type(n.val) or v != n.val:
            return '%s is %r instead of %r' % (path, v, n.val)
        return None
    if n.real is not None and v is not n.real:
        return '%s (a %s) is not the same object as before' % (path, n.kind)
    want = {'vec': type(lib.pvector()), 'pyvec': lib.PythonPVector, 'cvec': TVec, 'map': type(lib.pmap()), 'cmap': TMap, 'rec': TRec, 'cls': TCls}[n.kind]
    if type(v) is not want:
        return '%s is a %s instead of a %s' % (path, type(v).__name__, want.__name__)
    if n.kind in SEQ:
        l = list(v)
        if len(l) != len(n.val) or len(v) != len(l):
            return '%s has %d elements instead of %d' % (path, len(l), len(n.val))
        for i, (x, y) in enumerate(zip(n.val, l)):
            m = compare(lib, x, y, '%s[%d]' % (path, i))
            if m:
                return m
        return None
    if n.kind == 'cls':
        items = [(k, getattr(v, k)) for k in FIELDS['cls'] if hasattr(v, k)]
    else:
        items = list(v.items())
    if len(items) != len(n.val):
        return '%s has %d entries (%r) instead of %d' % (path, len(items), [k for k, _ in items], len(n.val))
    for k, x in items:
        if mk(k) not in n.val:
            return '%s has an unexpected key %r' % (path, k)
        k0, y = n.val[mk(k)]
        if k0 is not k and n.kind == 'map':
            return '%s: the key %r is not the same object as before' % (path, k)
        if n.kind == 'map' and v[k] is not x:
            return '%s: looking up %r gives something else than iterating' % (path, k)
        m = compare(lib, y, x, '%s[%r]' % (path, k))
        if m:
            return m
    return None


def mk(k):
    """plain key with the equality of k, without calling user code"""
    return ('K', k.c) if isinstance(k, A.SimKey) else k


# ---------------------------------------------------------------------- model of transform
def m_transform(node, cmds):
    for path, cmd in cmds:
        node = m_do(node, path, cmd)
    return node


def m_do(node, path, cmd):
    if not path:
        return cmd.model(node)
    kvs = m_items(node, path[0])
    rest = path[1:]
    if node.kind in SEQ:
        val = list(node.val)
    elif node.kind == 'leaf':
        raise Unspecified()
    else:
        val = dict(node.val)
    changed = False
    errs = set()
    bad = []
    if not rest and cmd.discard:
        for k, v in reversed(kvs):
            if node.kind in SEQ:
                if type(k) is not int:
                    raise Err(TypeError)
                if not -len(val) <= k < len(val):
                    raise Err(IndexError)
                del val[k]
                changed = True
            elif mk(k) in val:
                del val[mk(k)]
                changed = True
            elif node.kind == 'cls':
                raise Unspecified()
    else:
        for k, v in kvs:
            empty = False
            if v is None:
                if cmd.discard:
                    continue
                empty = True
                v = N('map', {})
            try:
                res = m_do(v, rest, cmd)
                if res is not v or empty:
                    m_check(node.kind, k, res, errs)
            except (Err, Unspecified) as e:
                # which of several failing branches comes first is not defined for maps
                bad.append(e)
                continue
            if res is not v or empty:
                changed = True
                if node.kind in SEQ:
                    if not -len(val) <= k <= len(val):
                        raise Err(IndexError)
                    if k == len(val):
                        val.append(res)
                    else:
                        val[k] = res
                else:
                    k0 = val[mk(k)][0] if mk(k) in val else k
                    val[mk(k)] = (k0, res)
    if len(bad) == 1:
        raise bad[0]
    if bad:
        if all(isinstance(e, Unspecified) for e in bad):
            raise bad[0]
        raise Err(*((Exception,) if any(isinstance(e, Unspecified) for e in bad) else set(c for e in bad for c in e.classes)))
    if errs:
        raise Err(P.InvariantException)
    return N(node.kind, val) if changed else node


def m_check(kind, k, res, errs):
    """declared types: what storing res under k raises (type errors at once, invariants at the end)"""
    num = res.kind == 'leaf' and isinstance(res.val, (int, float))
    if kind == 'cvec':
        if not num:
            raise Err(P.CheckedValueTypeError)
        if not res.val >= 0:
            errs.add(1)
    elif kind == 'cmap':
        bad = []
        if not isinstance(k, str):
            raise Err(P.CheckedKeyTypeError, P.CheckedValueTypeError)
        if not num:
            raise Err(P.CheckedValueTypeError)
    elif kind in ('rec', 'cls'):
        if k not in FIELDS[kind]:
            raise Err(AttributeError)
        if k == 'b' and not num:
            raise Err(P.PTypeError)


def m_items(node, step):
    """[(key, node or None)] matched by one path step"""
    if step.pred is not None:
        if step.arity == 3:
            raise Err(ValueError)
        if node.kind == 'leaf':
            raise Unspecified()
        if node.kind == 'cls':
            raise Err(TypeError)
        if node.kind in SEQ:
            items = list(enumerate(node.val))
        else:
            items = list(node.val.values())
        return [(k, v) for k, v in items if step.pred(k, v if v.kind != 'leaf' else v.val)]
    k = step.key
    if node.kind == 'leaf':
        raise Unspecified()
    if node.kind in SEQ:
        if type(k) is not int:
            raise Err(TypeError)
        if -len(node.val) <= k < len(node.val):
            return [(k, node.val[k])]
        return [(k, None)]
    if node.kind == 'cls':
        if not isinstance(k, str):
            raise Unspecified()
        if k not in node.val:
            raise Unspecified()
    return [(k, node.val[mk(k)][1] if mk(k) in node.val else None)]


class Step(object):
    def __init__(self, key=None, pred=None, arity=0, real=None):
        self.key, self.pred, self.arity, self.real = key, pred, arity, real


class Cmd(object):
    def __init__(self, real, model, discard=False):
        self.real, self.model, self.discard = real, model, discard


def num(x):
    return isinstance(x, int) and not isinstance(x, bool)


def isleaf(v):
    return not isinstance(v, N)


class CallObj(object):
    """callable object as predicate"""
    def __init__(self, f):
        self.f = f

    def __call__(self, key):
        return self.f(key)


class EqObj(CallObj):
    """equal to all of its kind, without a hash"""
    def __eq__(self, o):
        return isinstance(o, EqObj)

    __hash__ = None


class EqHash1(CallObj):
    def __eq__(self, o):
        return isinstance(o, (EqHash1, EqHash2))

    def __hash__(self):
        return 7


class EqHash2(EqHash1):
    """equal to the one with one parameter"""
    def __call__(self, key, value):
        return self.f(key, value)


class Meth(object):
    def __init__(self, f):
        self.f = f

    def one(self, key):
        return self.f(key)

    def two(self, key, value):
        return self.f(key, value)


UNSET = object()


def shared(f, arity):
    """functions of one or two parameters that share their code"""
    def pred(key, value=UNSET):
        if arity == 1:
            return f(key) if value is UNSET else not f(key)
        return f(key, value)
    if arity == 2:
        pred.__defaults__ = None
    return pred


def vary(f, x, arity):
    """the predicate f in one of the forms a callable can have"""
    if x == 0:
        return EqObj(f) if arity == 1 else EqHash2(f)
    if x == 1:
        return EqHash1(f) if arity == 1 else EqHash2(f)
    if x == 2:
        return shared(f, arity)
    if x == 3:
        return Meth(f).one if arity == 1 else Meth(f).two
    if x == 4:
        return functools.partial((lambda a, key: f(key)) if arity == 1 else (lambda a, key, value: f(key, value)), 1)
    if x == 5:
        return (lambda key, /, *, kw=1: f(key)) if arity == 1 else (lambda key, value, /, *, kw=1: f(key, value))
    if x == 6:
        return CallObj(f) if arity == 1 else f
    return f


class Trans(Base):
    def setup(self):
        self.pool = []
        self.keys = [A.SimKey(c, A.mkhash(self.cfg['hash'], c), c) for c in range(6)]
        for s in self.cfg['roots']:
            n = self.node(s)
            build(self.lib, n)
            self.seal(n)
            self.pool.append(n)

    # -- specifications (plain data) to nodes
    def node(self, s):
        t = s[0]
        if t in SEQ:
            return N(t, [self.node(x) for x in s[1]])
        if t in MAP or t == 'cls':
            d = {}
            for k, x in s[1]:
                k = self.key(k)
                d.setdefault(mk(k), (k, self.node(x)))
            return N(t, d)
        return N('leaf', self.leafval(s), True)

    def key(self, k, fresh=False):
        """['K', c] a simulated key; otherwise itself"""
        if isinstance(k, list):
            return A.SimKey(k[1], A.mkhash(self.cfg['hash'], k[1]), 100) if fresh else self.keys[k[1] % 6]
        return k

    def leafval(self, s):
        t = s[0]
        if t == 'n':
            return s[1]
        if t == 's':
            return 'leaf%s' % s[1]
        if t == 'f':
            return float(s[1])
        if t == 'b':
            return bool(s[1])
        if t == 'z':
            return None
        if t == 'l':
            return [1, s[1]]
        if t == 't':
            return (1, s[1])
        if t == 'S':
            return self.lib.pset([s[1], 'q'])
        if t == 'L':
            return self.lib.plist([s[1], 2])
        return A.SimObj(s[1])

    def seal(self, n):
        """from now on every node stands for an existing object"""
        if n.kind == 'leaf':
            n.real = True
            return
        for x in (n.val if n.kind in SEQ else [y for _, y in n.val.values()]):
            self.seal(x)

    def attach(self, n, v):
        """note the objects of a result that was found right"""
        if n.kind == 'leaf':
            n.val = v
            n.real = True
            return n
        if n.real is not None:
            return n
        n.real = v
        if n.kind in SEQ:
            for x, y in zip(n.val, v):
                self.attach(x, y)
        elif n.kind == 'cls':
            for k, x in n.val.values():
                self.attach(x, getattr(v, k))
        else:
            for k, x in n.val.values():
                self.attach(x, v[k])
        return n

    # -- path steps and commands
    def step(self, s):
        t = s[0]
        lib = self.lib
        if t == 'key':
            k = self.key(s[1], s[2])
            return Step(key=k, real=k)
        if t == 'ny':
            return Step(pred=lambda k, v: True, arity=1, real=lib.ny)
        if t == 'rex':
            r = re.compile(s[1])
            return Step(pred=lambda k, v: bool(isinstance(k, str) and r.match(k)), arity=1, real=lib.rex(s[1]))
        x = s[1]
        if t == 'p1':
            p = lambda k: (hash(k) if isinstance(k, int) else len(str(k)) + ord(str(k)[-1])) % 3 == x % 3

            def real(key):
                cb('pred')
                return p(key)
            if len(s) > 2 and s[2] < 8:
                return Step(pred=lambda k, v: p(k), arity=1, real=vary(real, s[2], 1))
            if x % 4 == 1:
                def real2(key, unused=None, *rest, **kw):
                    cb('pred')
                    return p(key)
                return Step(pred=lambda k, v: p(k), arity=1, real=real2)
            return Step(pred=lambda k, v: p(k), arity=1, real=real)
        if t == 'p2':
            def p(k, v):
                if isinstance(v, N) or not isinstance(v, (int, float)):
                    return x % 2 == 0
                return v > x % 5

            def real(key, value):
                cb('pred')
                if isinstance(value, (int, float)):
                    return value > x % 5
                return x % 2 == 0
            return Step(pred=p, arity=2, real=vary(real, s[2], 2) if len(s) > 2 and s[2] < 8 else real)
        if t == 'p0':
            return Step(pred=lambda k, v: 1, arity=3, real=(lambda: True) if x % 2 else (lambda a, b, c: True))
        raise ValueError(t)

    def cmd(self, s):
        t = s[0]
        lib = self.lib
        if t == 'discard':
            return Cmd(lib.discard, None, True)
        if t == 'const':
            n = self.node(s[1])
            v = build(lib, n)
            self.seal(n)
            return Cmd(v, lambda node: n)
        if t == 'inc':
            def model(node):
                if node.kind == 'leaf' and isinstance(node.val, (int, float)):
                    return N('leaf', node.val + 1)
                raise Unspecified()
            return Cmd(lib.inc, model)
        if t == 'same':
            def real(x):
                cb('fn')
                return x
            return Cmd(real, lambda node: node)
        if t == 'fresh':
            def real(x):
                cb('fn')
                return Ticket()
            return Cmd(real, lambda node: N('leaf', TICKET))
        if t == 'bump':
            # numbers change, all else stays
            def real(x):
                cb('fn')
                return x + 1000 if num(x) else x
            return Cmd(real, lambda node: N('leaf', node.val + 1000) if node.kind == 'leaf' and num(node.val) else node)
        if t == 'equal':
            # equal to what was there, but another object (of another type)
            def conv(x):
                if type(x) is int:
                    return bool(x) if x in (0, 1) else float(x)
                if type(x) is float:
                    return int(x) if x == int(x) else x
                return x

            def real(x):
                cb('fn')
                if isinstance(x, list):
                    return list(x)
                return conv(x)

            def model(node):
                if node.kind != 'leaf':
                    return node
                if isinstance(node.val, list):
                    return N('leaf', list(node.val))
                y = conv(node.val)
                return node if y is node.val else N('leaf', y)
            return Cmd(real, model)
        if t == 'grow':
            # works on collections
            def real(x):
                cb('fn')
                if isinstance(x, (type(lib.pvector()), lib.PythonPVector)):
                    return x.append(5)
                if isinstance(x, type(lib.pmap())) and not isinstance(x, (TRec, TMap)):
                    return x.set('grown', 1)
                return x

            def model(node):
                if node.kind in SEQ:
                    return N(node.kind, node.val + [N('leaf', 5)])
                if node.kind == 'map':
                    d = dict(node.val)
                    d['grown'] = (d['grown'][0] if 'grown' in d else 'grown', N('leaf', 1))
                    return N('map', d)
                return node
            return Cmd(real, model)
        if t == 'nested':
            # a transformation inside a transformation
            inner = self.cmd(s[2])
            path = [self.step(x) for x in s[1]]

            def real(x):
                cb('fn')
                if hasattr(x, 'transform'):
                    return x.transform([p.real for p in path], inner.real)
                return x
            return Cmd(real, lambda node: node if node.kind == 'leaf' else m_transform(node, [(path, inner)]))
        raise ValueError(t)

    # ------------------------------------------------------------------
    def fail(self, msg, sig):
        self.sim.violate('C14', msg, sig)

    def op_trans(self, task, o):
        lib = self.lib
        root = self.pool[o['t'] % len(self.pool)]
        v = root.real
        cmds = []
        args = []
        for path, c in o['c']:
            c = self.cmd(c)
            steps = [self.step(x) for x in path]
            cmds.append((steps, c))
            p = [x.real for x in steps]
            args.append(tuple(p) if len(args) % 4 == 2 else lib.pvector(p) if o['h'] % 9 == 0 else p)
            args.append(c.real)
        if o.get('odd'):
            args.pop()
        try:
            exp = ('ok', m_transform(root, cmds))
        except Err as e:
            exp = ('exc', e.classes)
        except Unspecified:
            exp = ('any', None)
        if o.get('odd'):
            exp = ('exc', (Exception,)) if exp[0] != 'any' else exp
        f = (lambda: v.transform(*args)) if o['h'] % 2 or not hasattr(lib, 'transform') else (lambda: v.transform(*args))
        got, fault = self.real(task, o, f)
        self.sim.event('trans', root.kind, got[0], exp[0])
        self.unchanged(o)
        if got[0] == 'exc' and fault is not None:
            if got[1] is not fault:
                self.fail('the failure of a user function surfaced as %s: %s' % (type(got[1]).__name__, got[1]), 'C14:masked')
            # without the fault it gives what it would have given
            with quiet():
                got = self.outcome(f)
            self.sim.stat('retried')
        elif fault is not None:
            self.fail('the failure of a user function was swallowed', 'C14:masked')
        if exp[0] == 'any':
            return
        if exp[0] == 'exc':
            if got[0] == 'ok':
                self.fail('transform returned %s instead of raising' % str(got[1])[:120], 'C14:noerror')
            elif not isinstance(got[1], exp[1]):
                self.fail('transform raised %s: %s' % (type(got[1]).__name__, str(got[1])[:200]), 'C14:error')
            return
        if got[0] == 'exc':
            self.fail('transform raised %s: %s' % (type(got[1]).__name__, str(got[1])[:200]), 'C14:raised')
            return
        with quiet():
            SEEN.clear()
            m = compare(lib, exp[1], got[1])
        if m:
            self.fail(m, 'C14:result')
        if exp[1] is root:
            self.sim.stat('unchanged')
        elif exp[1].kind != 'leaf':
            self.attach(exp[1], got[1])
            if len(self.pool) >= self.cfg['cap']:
                self.pool.pop(1)
            if size(exp[1]) < 400:
                self.pool.append(exp[1])

    def unchanged(self, o):
        with quiet():
            for n in self.pool:
                m = compare(self.lib, n, n.real, 'an existing %s' % n.kind)
                if m:
                    self.fail('transform changed %s' % m, 'C14:mutated')


def size(n):
    if n.kind == 'leaf':
        return 1
    return 1 + sum(size(x) for x in (n.val if n.kind in SEQ else [y for _, y in n.val.values()]))


RUN['trans'] = runner(Trans)


# ---------------------------------------------------------------------- plans
KEYS = ['a', 'b', 'c', 'd', 'ab', 'grown', 'x1', 'x2', 0, 1, 2, 5, None, ['K', 0], ['K', 1], ['K', 2], ['K', 3], (1, 2)]
KEYS = [list(k) if isinstance(k, tuple) and False else k for k in KEYS if not isinstance(k, tuple)]


def gleaf(r):
    return r.choice((['n', r.randrange(4)], ['n', r.randrange(4)], ['n', r.randrange(1000)], ['s', r.randrange(3)], ['f', r.randrange(3)], ['b', r.randrange(2)],
                     ['z'], ['l', 3], ['t', 4], ['S', 3], ['L', 3], ['o', 5]))


def gnode(r, depth, kinds=None):
    if depth == 0 or (kinds is None and r.random() < 0.35):
        return gleaf(r)
    t = r.choice(kinds or ('vec', 'vec', 'pyvec', 'map', 'map', 'map', 'rec', 'cls', 'cvec', 'cmap'))
    n = r.choice((0, 1, 2, 3, 4, 6))
    if t in ('vec', 'pyvec') and r.random() < 0.05:
        n = r.choice((31, 32, 33, 34, 40))
        return [t, [gleaf(r) for _ in range(n)]]
    if t in ('vec', 'pyvec'):
        return [t, [gnode(r, depth - 1) for _ in range(n)]]
    if t == 'cvec':
        return [t, [r.choice((['n', r.randrange(4)], ['f', 2])) for _ in range(n)]]
    if t == 'cmap':
        return [t, [[k, ['n', r.randrange(5)]] for k in r.sample(['a', 'b', 'c', 'x1', 'x2'], min(n, 5))]]
    if t == 'map':
        if r.random() < 0.1:
            n = r.choice((11, 12, 13))
        return [t, [[k, gnode(r, depth - 1)] for k in r.sample(KEYS, n)]]
    f = []
    for k in FIELDS[t]:
        if k == 'd':
            f.append([k, gnode(r, depth - 1)])
        elif r.random() < 0.75:
            f.append([k, ['n', r.randrange(5)] if k == 'b' else gnode(r, depth - 1)])
    return [t, f]


def gstep(r, at):
    """a step for the specification node `at` (None: unknown) -> (step, node below)"""
    x = r.random()
    if at is not None and at[0] in ('vec', 'pyvec', 'cvec') and x < 0.6:
        n = len(at[1])
        if n and x < 0.48:
            i = r.randrange(n)
            return ['key', i - n if r.random() < 0.2 else i, False], at[1][i]
        return ['key', r.choice((n, n, n + 1, -n - 1, n + 5)), False], None
    if at is not None and at[0] in ('map', 'rec', 'cls', 'cmap') and x < 0.65:
        if at[1] and x < 0.5:
            k, v = r.choice(at[1])
            return ['key', k, True], v
        return ['key', r.choice(KEYS if at[0] == 'map' else ['a', 'b', 'c', 'd', 'q']), True], None
    below = None
    if at is not None and at[0] not in ('n', 's', 'f', 'b', 'z', 'l', 't', 'S', 'L', 'o') and at[1]:
        y = r.choice(at[1])
        below = y[1] if at[0] in ('map', 'rec', 'cls', 'cmap') else y
    y = r.random()
    if y < 0.3:
        return ['ny'], below
    if y < 0.4:
        return ['rex', r.choice(('a', 'x[0-9]', '.*', 'b$', '^(a|b)+$'))], below
    if y < 0.65:
        return ['p1', r.randrange(12), r.randrange(9)], below
    if y < 0.9:
        return ['p2', r.randrange(12), r.randrange(9)], below
    if y < 0.92:
        return ['p0', r.randrange(4)], below
    return ['key', r.choice(KEYS), True], None


def gcmd(r, depth=0):
    x = r.random()
    if x < 0.22:
        return ['discard']
    if x < 0.4:
        return ['const', gnode(r, r.choice((0, 0, 1, 2)))]
    if x < 0.46:
        return ['same']
    if x < 0.54:
        return ['fresh']
    if x < 0.68:
        return ['bump']
    if x < 0.78:
        return ['equal']
    if x < 0.9:
        return ['grow']
    if x < 0.95 and depth == 0:
        return ['nested', [gstep(r, None)[0]], gcmd(r, 1)]
    return ['inc']


def plan(r, seed, tier, flavor):
    from dst.scen import sched_cfg, FLTS
    cfg = {'tags': ['C14']}
    sched_cfg(r, cfg, r.choice((0, 1, 1, 2)))
    cfg['hash'] = r.choice(A.HASH_MODES)
    cfg['cap'] = r.choice((3, 6))
    if r.random() < 0.5:
        cfg['faults'] = 1
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        cfg['cb_fault'] = r.choice((0.01, 0.05, 0.2))
        cfg['max_faults'] = 20
        if cfg.get('instr') and r.random() < 0.6:
            cfg['interrupts'] = 1
            cfg['i_int'] = 0.1
    roots = [gnode(r, r.choice((2, 3, 3, 4)), ('vec', 'pyvec', 'map', 'map', 'rec', 'cls')) for _ in range(r.choice((1, 2, 3)))]
    cfg['roots'] = roots
    tasks = []
    for t in range(r.choice((1, 2, 3))):
        ops = []
        for i in range(r.choice((10, 20, 40))):
            k = r.randrange(1 << 12)
            cmds = []
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                at = roots[r.randrange(len(roots))] if r.random() < 0.2 else roots[k % len(roots)]
                path = []
                for _ in range(r.choice((0, 1, 1, 1, 2, 2, 2, 3, 4))):
                    s, at = gstep(r, at)
                    path.append(s)
                    if at is not None and at[0] in ('n', 's', 'f', 'b', 'z', 'l', 't', 'S', 'L', 'o') and r.random() < 0.9:
                        break
                c = gcmd(r)
                if not path and c[0] == 'discard':
                    c = ['same']
                cmds.append([path, c])
            o = {'o': 'trans', 't': k, 'c': cmds, 'h': r.randrange(1 << 16)}
            if r.random() < 0.01:
                o['odd'] = 1
            ops.append(o)
        tasks.append(ops)
    return {'scen': 'trans', 'cfg': cfg, 'tasks': numbered(tasks)}


PLANS['C14'] = plan
