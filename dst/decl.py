"""Declared checked collections, records and classes used by the simulation, together with
library-independent descriptions of what they allow (the oracle never asks the library)."""
import enum
import sys
import types

import pyrsistent as P
from dst.sim import cb


class Reject(Exception):
    """Model verdict: the library must raise one of these classes."""
    def __init__(self, classes, codes=None, missing=()):
        self.classes = tuple(classes)
        self.codes = None       # exact error codes expected (None: not specified), and missing fields
        if self.classes == (P.InvariantException,) and codes is not None:
            self.codes, self.missing = set(codes), set(missing)
        Exception.__init__(self, ' or '.join(sorted(c.__name__ for c in self.classes)))


class Bad(set):
    """Errors collected for one operation, with the codes and missing fields that must be reported; vague: codes not predicted."""
    def __init__(self):
        set.__init__(self)
        self.codes, self.missing, self.vague = set(), set(), False

    def merge(self, o):
        self.update(o)
        self.codes |= o.codes
        self.missing |= o.missing
        self.vague |= o.vague

    def reject(self):
        return Reject(self, None if self.vague else self.codes, self.missing)


def flat_codes(x):
    if isinstance(x, (tuple, list)):
        return set(c for y in x for c in flat_codes(y))
    return {x}


def error_content(exc, rej):
    """None or message: does the invariant error report exactly the violated invariants and the missing fields?"""
    if rej.codes is None or not isinstance(exc, P.InvariantException):
        return None
    codes, missing = flat_codes(exc.invariant_errors), set(exc.missing_fields)
    if codes != rej.codes:
        return 'error reports the invariants %s instead of %s' % (sorted(map(str, codes)), sorted(rej.codes))
    if missing != rej.missing:
        return 'error reports the missing fields %s instead of %s' % (sorted(missing), sorted(rej.missing))
    text = str(exc)
    for c in list(codes) + list(missing):
        if str(c) not in text:
            return 'the text of the error does not mention %s: %s' % (c, text)
    return None


class Color(enum.Enum):
    RED = 1
    BLUE = 2


def _other():
    """a type of the same name in another module"""
    class Color(enum.Enum):
        RED = 1
        BLUE = 2
    m = types.ModuleType('dst.decl_other')
    Color.__module__, Color.__qualname__ = m.__name__, 'Color'
    m.Color = Color
    sys.modules[m.__name__] = m
    return Color


OtherColor = _other()
SPEC = {}       # class name -> spec


class CSpec(object):
    def __init__(self, cls, types, preds, ktypes=None, nested=None, names=()):
        self.cls, self.types, self.preds, self.ktypes, self.nested, self.names = cls, types, preds, ktypes, nested, names
        assert len(names) == len(preds)
        SPEC[cls.__name__] = self

    def bad_type(self, x):
        return bool(self.types) and not isinstance(x, self.types)

    def bad_key(self, x):
        return bool(self.ktypes) and not isinstance(x, self.ktypes)

    def bad_inv(self, *a):
        return any(not p(*a) for p in self.preds)

    def codes(self, *a):
        return set(c for c, p in zip(self.names, self.preds) if not p(*a))


# Invariants: every call is a yield point that may fail.
def inv(pred, msg):
    def f(*a):
        cb('inv')
        return (bool(pred(*a)), msg)
    return f


nonneg = lambda n: n >= 0
positive = lambda n: n > 0
small = lambda n: n < 100
even_or_small = lambda n: n % 2 == 0 or n < 10
not13 = lambda n: n != 13


class CVInt(P.CheckedPVector):
    __type__ = int
    __invariant__ = inv(nonneg, 'negative')


class CVIntSub(CVInt):
    __invariant__ = inv(small, 'large')


class CVIntSubSub(CVIntSub):
    pass


class CVMulti(P.CheckedPVector):
    __type__ = (int, str, type(None))

    @staticmethod
    def __invariant__(x):
        cb('inv')
        return ((x != 13, '13'), (x != 'b', 'b'))


class CVAny(P.CheckedPVector):
    pass


class CVStrType(P.CheckedPVector):
    __type__ = 'dst.decl.Color'


class CVOther(P.CheckedPVector):
    __type__ = ('dst.decl_other.Color', 'builtins.bool')


class CVNest(P.CheckedPVector):
    __type__ = CVInt


class _CSMeth(P.CheckedPSet):
    __type__ = (int, float)
    __invariant__ = inv(nonneg, 'negative')


class CSNum(_CSMeth):
    pass


class CSNumSub(CSNum):
    __invariant__ = inv(small, 'large')


class CSStr(P.CheckedPSet):
    __type__ = str
    __invariant__ = inv(lambda s: s != 'b', 'b')


class CSOpt(P.CheckedPSet):
    __type__ = P.optional(int)


class CMIntNum(P.CheckedPMap):
    __key_type__ = int
    __value_type__ = (int, float)
    __invariant__ = inv(lambda k, v: v >= k, 'less')


class CMIntNumSub(CMIntNum):
    __invariant__ = inv(lambda k, v: k != 8, 'eight')


class CMStrAny(P.CheckedPMap):
    __key_type__ = str


class CMNest(P.CheckedPMap):
    __key_type__ = str
    __value_type__ = CVInt


class CMKey(P.CheckedPMap):
    """keys and values are converted by create()"""
    __key_type__ = CVInt
    __value_type__ = (CVInt, int)


class _KA(object):
    """mixed inheritance: two bases each with an invariant"""
    __slots__ = ()
    __invariant__ = inv(not13, '13')


class CVMix(_KA, CVInt):
    pass


class _KB(object):
    """declarations that come in over the second base class"""
    __slots__ = ()
    __type__ = int
    __invariant__ = inv(small, 'large')


class _KC(_KB):
    __slots__ = ()
    __invariant__ = inv(not13, '13')


class _KM(object):
    __slots__ = ()
    __key_type__ = str
    __value_type__ = int
    __invariant__ = inv(lambda k, v: k != 'b', 'b')


class _CVDeep(P.CheckedPVector, _KC):
    pass


class CVDeep(_CVDeep):
    __invariant__ = inv(positive, 'not positive')


class _CSDeep(P.CheckedPSet, _KC):
    __invariant__ = inv(positive, 'not positive')


class CSDeep(_CSDeep):
    pass


class _CMDeep(P.CheckedPMap, _KM):
    pass


class CMDeep(_CMDeep):
    __invariant__ = inv(lambda k, v: v > 0 and k != '', 'not positive')


NT = type(None)
CSpec(CVDeep, (int,), [positive, small, not13], names=('not positive', 'large', '13'))
CSpec(CSDeep, (int,), [positive, small, not13], names=('not positive', 'large', '13'))
CSpec(CMDeep, (int,), [lambda k, v: k != 'b', lambda k, v: v > 0 and k != ''], (str,), names=('b', 'not positive'))
CSpec(CVInt, (int,), [nonneg], names=('negative',))
CSpec(CVIntSub, (int,), [nonneg, small], names=('negative', 'large'))
CSpec(CVMulti, (int, str, NT), [lambda x: x != 13, lambda x: x != 'b'], names=('13', 'b'))
CSpec(CVAny, (), [])
CSpec(CVStrType, (Color,), [])
CSpec(CVOther, (OtherColor, bool), [])
CSpec(CVNest, (CVInt,), [], nested='CVInt')
CSpec(CSNum, (int, float), [nonneg], names=('negative',))
CSpec(CSNumSub, (int, float), [nonneg, small], names=('negative', 'large'))
CSpec(CSStr, (str,), [lambda s: s != 'b'], names=('b',))
CSpec(CSOpt, (int, NT), [])
CSpec(CMIntNum, (int, float), [lambda k, v: v >= k], (int,), names=('less',))
CSpec(CMIntNumSub, (int, float), [lambda k, v: v >= k, lambda k, v: k != 8], (int,), names=('less', 'eight'))
CSpec(CMStrAny, (), [], (str,))
CSpec(CMNest, (CVInt,), [], (str,), nested='CVInt')
CSpec(CVMix, (int,), [nonneg, not13], names=('negative', '13'))
CSpec(CVIntSubSub, (int,), [nonneg, small], names=('negative', 'large'))

VECS = ('CVInt', 'CVIntSub', 'CVIntSubSub', 'CVMulti', 'CVAny', 'CVStrType', 'CVOther', 'CVNest', 'CVMix', 'CVDeep')
SETS = ('CSNum', 'CSNumSub', 'CSStr', 'CSOpt', 'CSDeep')
MAPS = ('CMIntNum', 'CMIntNumSub', 'CMStrAny', 'CMNest', 'CMDeep')


def validate_seq(name, els):
    """Raise Reject unless a checked vector/set of this class may hold exactly els."""
    sp = SPEC[name]
    bad = Bad()
    for x in els:
        if sp.bad_type(x):
            bad.add(P.CheckedValueTypeError)
        else:
            try:
                c = sp.codes(x)
                if c:
                    bad.add(P.InvariantException)
                    bad.codes |= c
            except TypeError:
                bad.add(TypeError)
    if bad:
        raise bad.reject()


def validate_map(name, d):
    sp = SPEC[name]
    bad = Bad()
    for k, v in d.items():
        b = False
        if sp.bad_key(k):
            bad.add(P.CheckedKeyTypeError)
            b = True
        if sp.bad_type(v):
            bad.add(P.CheckedValueTypeError)
            b = True
        if not b:
            try:
                c = sp.codes(k, v)
                if c:
                    bad.add(P.InvariantException)
                    bad.codes |= c
            except TypeError:
                bad.add(TypeError)
    if bad:
        raise bad.reject()


# ------------------------------------------------------------------ records and classes
def bump(x):
    """A factory that is not idempotent: applying it twice, or to a field not being set, shows."""
    cb('factory')
    return x + 1 if type(x) is int else x


def toint(x):
    cb('factory')
    return int(x) if isinstance(x, str) and x.isdigit() else x


def five():
    cb('initial')
    return 5


def ser(fmt, x):
    return ('s', fmt, x)


NOINIT = object()


class F(object):
    def __init__(self, types=(), pred=None, initial=NOINIT, mandatory=False, factory=None, nested=None, code=None, ser=False):
        self.code, self.ser = code, ser
        self.types, self.pred, self.initial, self.mandatory, self.factory, self.nested = \
            types, pred, initial, mandatory, factory, nested


def mk(base):
    class X1(base):
        x = P.field(type=int, mandatory=True, invariant=inv(lambda n: n != 13, 'x13'))
        y = P.field(type=(int, str), invariant=inv(lambda v: v != 'b', 'yb'))
        z = P.field(type=int, initial=7, invariant=inv(nonneg, 'zneg'))
        f = P.field(type=int, factory=bump)
        g = P.field(initial=five)
        h = P.field(type=int, factory=toint, initial=3)
        __invariant__ = inv(lambda r: not (getattr(r, 'x', None) == 8 and getattr(r, 'z', None) == 8), 'global8')

    class X2(X1):
        n = P.field(type=CVInt)
        o = P.field(type=P.optional(str), mandatory=True)
        __invariant__ = inv(lambda r: not (getattr(r, 'x', None) == 5 and getattr(r, 'z', None) == 5), 'global5')

    class X3(base):
        v = P.pvector_field(int)
        s = P.pset_field(str, optional=True)
        m = P.pmap_field(str, int)
        w = P.pvector_field((int, str), initial=(1, 2), invariant=inv(lambda v: len(v) < 4, 'long'))
        k = P.field(type='dst.decl.Color')
        l = P.field(type=('dst.decl_other.Color', 'builtins.bool'))

    class X0(base):
        a = P.field()
        b = P.field()
        c = P.field()
        d = P.field()

    class X4(X1):
        """field overridden and fields added in a subclass"""
        a = P.field()
        b = P.field()
        c = P.field()
        d = P.field()
        y = P.field(type=str, initial='q')

    class X5(base):
        """nested instances, also several levels of them, and serializers"""
        p = P.field(type=X1)
        q = P.field(type=X2, serializer=ser)
        t = P.field(type=CVInt, mandatory=True, initial=CVInt([1]))
        a = P.field(serializer=ser)
        __invariant__ = inv(lambda r: getattr(r, 'a', None) != 13, 'a13')

    class Mixin(object):
        """an invariant that comes in over the second base class"""
        __slots__ = ()
        __invariant__ = inv(lambda r: getattr(r, 'a', None) != 8, 'a8')

    class Below(base, Mixin):
        a = P.field(mandatory=True)
        b = P.field(type=int, invariant=inv(positive, 'bpos'))
        d = P.field(type=(str, type(None), tuple), invariant=inv(bool, 'dnone'))

    class X6(Below):
        c = P.field(type=(int, str), initial=1)
        __invariant__ = inv(lambda r: getattr(r, 'c', None) != 5, 'c5')

    Below.__module__ = __name__
    return X0, X1, X2, X3, X4, X5, X6


def _named(prefix, classes):
    for i, c in zip('0123456', classes):
        c.__name__ = c.__qualname__ = prefix + i
        c.__module__ = __name__
        globals()[prefix + i] = c


_named('R', mk(P.PRecord))
_named('K', mk(P.PClass))

_X1 = dict(x=F((int,), lambda n: n != 13, mandatory=True, code='x13'), y=F((int, str), lambda v: v != 'b', code='yb'), z=F((int,), nonneg, 7, code='zneg'),
           f=F((int,), factory=lambda x: x + 1 if type(x) is int else x), g=F(initial=5),
           h=F((int,), initial=3, factory=lambda x: int(x) if isinstance(x, str) and x.isdigit() else x))
_G1 = [(lambda d: not (d.get('x') == 8 and d.get('z') == 8), 'global8')]
_X2 = dict(_X1, n=F(nested=('cvec', 'CVInt')), o=F((str, NT), mandatory=True))
_G2 = _G1 + [(lambda d: not (d.get('x') == 5 and d.get('z') == 5), 'global5')]
_X3 = dict(v=F(nested=('seq', int, list), initial=[], mandatory=True), s=F(nested=('seqopt', str, set), initial=set(), mandatory=True),
           m=F(nested=('map', str, int), initial={}, mandatory=True),
           w=F(nested=('seq', (int, str), list), initial=[1, 2], mandatory=True, pred=lambda v: len(v) < 4, code='long'), k=F((Color,)),
           l=F((OtherColor, bool)))
_X0 = dict(a=F(), b=F(), c=F(), d=F())
_X4 = dict(_X1)
_X4.update(_X0)
_X4['y'] = F((str,), None, 'q')
_X5 = dict(p=F(nested=('inst', '1')), q=F(nested=('inst', '2'), ser=True), t=F(nested=('cvec', 'CVInt'), mandatory=True, initial=[1]), a=F(ser=True))
_G5 = [(lambda d: d.get('a') != 13, 'a13')]
_X6 = dict(a=F(mandatory=True), b=F((int,), positive, code='bpos'), d=F((str, NT, tuple), bool, code='dnone'), c=F((int, str), initial=1))
_G6 = [(lambda d: d.get('a') != 8, 'a8'), (lambda d: d.get('c') != 5, 'c5')]
FIELDS = {}
GLOBALS = {}
for _p in 'RK':
    for _i, _f, _g in (('0', _X0, []), ('1', _X1, _G1), ('2', _X2, _G2), ('3', _X3, []), ('4', _X4, _G1), ('5', _X5, _G5), ('6', _X6, _G6)):
        FIELDS[_p + _i] = _f
        GLOBALS[_p + _i] = _g
RECS = ('R0', 'R1', 'R2', 'R3', 'R4', 'R5', 'R6')
KLASSES = ('K0', 'K1', 'K2', 'K3', 'K4', 'K5', 'K6')


class Nest(object):
    """Model of a nested checked collection held in a field."""
    def __init__(self, kind, content, name=None):
        self.kind, self.content, self.name = kind, content, name

    def __repr__(self):
        return 'Nest(%r)' % (self.content,)


def conv(name, fld, value, use_factory, prefix='R', ignore=False):
    """(model value, set of acceptable errors) for storing `value` in the field."""
    bad = Bad()
    if fld.nested:
        kind = fld.nested[0]
        if isinstance(value, Nest):
            return value, bad
        if kind == 'seqopt' and value is None:
            return None, bad
        if kind == 'inst':
            if isinstance(value, globals()[prefix + fld.nested[1]]):
                return value, bad       # kept as it is
            if not isinstance(value, dict):
                bad.update((TypeError, P.PTypeError, P.InvariantException))
                return value, bad
            sub = prefix + fld.nested[1]
            data, b = build(sub, {k: v for k, v in value.items() if not ignore or k in FIELDS[sub]}, (), ignore)
            with_initial(sub, data)
            try:
                finish(sub, data, b)
            except Reject as e:
                bad.update(e.classes)
                bad.vague = True
            return Nest('inst', data, sub), bad
        if kind == 'cvec':
            if not isinstance(value, list):
                bad.update((TypeError, P.CheckedValueTypeError, P.PTypeError, P.InvariantException))
                return value, bad
            try:
                validate_seq('CVInt', value)
            except Reject as e:
                bad.update(e.classes)
                bad.vague = True
            return Nest('cvec', list(value)), bad
        if kind == 'map':
            if not isinstance(value, dict):
                bad.update((TypeError, AttributeError, P.PTypeError, P.InvariantException))
                return value, bad
            for k, v in value.items():
                if not isinstance(k, fld.nested[1]) or not isinstance(v, fld.nested[2]):
                    bad.add(P.CheckedType and TypeError)
            return Nest('map', dict(value)), bad
        if not isinstance(value, (list, set, tuple)):
            bad.update((TypeError, P.PTypeError, P.InvariantException))
            return value, bad
        for x in value:
            if not isinstance(x, fld.nested[1]):
                bad.add(TypeError)
        content = fld.nested[2](value)
        if fld.pred and not bad and not fld.pred(content):
            bad.add(P.InvariantException)
            bad.codes.add(fld.code)
        return Nest('seq', content), bad
    if use_factory and fld.factory:
        value = fld.factory(value)
    if fld.types and not isinstance(value, fld.types):
        bad.add(P.PTypeError)
    elif fld.pred and not fld.pred(value):
        bad.add(P.InvariantException)
        bad.codes.add(fld.code)
    return value, bad


def build(name, given, kept=(), ignore=False):
    """Model of constructing an instance: `given` values go through factories, `kept` are values already held."""
    flds = FIELDS[name]
    bad = Bad()
    data = {}
    for k, v in given.items():
        if k not in flds:
            bad.add(AttributeError)
            continue
        data[k], b = conv(k, flds[k], v, True, name[0], ignore)
        bad.merge(b)
    for k in kept:
        if k not in data:
            data[k] = kept[k]
    return data, bad


def finish(name, data, bad):
    flds = FIELDS[name]
    for k, f in flds.items():
        if f.mandatory and k not in data:
            bad.add(P.InvariantException)
            bad.missing.add('%s.%s' % (name, k))
    if not bad and any(not g(data) for g, _ in GLOBALS[name]):
        bad.add(P.InvariantException)
        bad.codes.update(c for g, c in GLOBALS[name] if not g(data))
    if bad:
        raise bad.reject()
    return (data, name)


def with_initial(name, data):
    for k, f in FIELDS[name].items():
        if k not in data and f.initial is not NOINIT:
            v = f.initial
            if f.nested:
                v = Nest(f.nested[0] if f.nested[0] != 'seqopt' else 'seq', type(v)(v))
            data[k] = v
    return data
