"""
Typed symbolic data and values: the structure follows a schema (lengths, members of unions, presence of optional
fields are symbolic choices), the leaves are symbolic scalars of the right type.  In `data`, one position (also a
symbolic choice) can be a hole, filled with an arbitrary value.
"""
import datetime
import enum
import pathlib
import re
import types
import typing

from .util import *
from catalog import BASICS, fields, objkind, resolve, NoneType
from .spec import isunion, isbasic

KIND = {int: INT, bool: BOOL, float: FLOAT, str: STR}
TEXTS = {
    'Path': ['/tmp/x', '..', ''], 'IPv4': ['10.0.0.1'], 'IPv6': ['::1', 'fe80::1'], 'IPv4Net': ['10.0.0.0/8'],
    'IPv6Net': ['fe80::/10'], 'IPv4If': ['10.0.0.1/8'], 'IPv6If': ['::1/128'],
    'UUID': ['12345678-1234-5678-1234-567812345678'],
}
TEXTS = {catalog.TYPES[k]: v for k, v in TEXTS.items()}
TEXTS[pathlib.Path] = TEXTS[catalog.TYPES['Path']]


class G:
    """bounds of the generated data"""
    def __init__(self, lens=(0, 1, 2), fuel=2, strlen=2, hole=None, key='name', members=None, plain_any=True,
                 optional=True, ilens=None):
        self.lens, self.fuel, self.strlen, self.hole, self.key = tuple(lens), fuel, strlen, hole, key
        self.members = members
        self.optional = optional            # leave optional fields out, too
        self.ilens = tuple(ilens) if ilens is not None else self.lens     # lengths below the top
        self.plain_any = plain_any
        self.micro = False          # durations of any number of microseconds (with S.resolution)

    def sub(self):
        g = G(self.ilens, self.fuel, self.strlen, self.hole, self.key, self.members, self.plain_any, self.optional)
        g.micro = self.micro
        return g

    def deeper(self):
        g = self.sub()
        g.fuel = self.fuel - 1
        return g


class Hole:
    def __init__(self, spec, keyspec=None):
        self.spec = spec
        self.keyspec = keyspec or Spec(kinds=SCALAR, depth=0, strlen=spec.strlen)
        self.key = False
        self.used = False
        self.type = None
        self.value = None


def length(S, n, g):
    return S.choose(n + '.len', g.lens) if len(g.lens) > 1 else g.lens[0]


def scalar(S, n, t, g):
    return S.any(n, Spec(kinds=(KIND[t],), depth=0, strlen=g.strlen, pool=True))


def distinct(S, d, k):
    for o in d:
        S.assume(not (str(o) == str(k) if isinstance(k, pathlib.PurePath) and isinstance(o, pathlib.PurePath) else o == k))


def recursive(t):
    return isinstance(t, (typing.ForwardRef, str))


def usable(m, g):
    """may this type be used with the fuel left?"""
    if recursive(m):
        return g.fuel > 0 and resolve(m) is not catalog.Nothing
    return True


def terminal(t):
    """a member of a union that needs no fuel"""
    for m in t.__args__:
        if m is NoneType:
            return m
    for m in t.__args__:
        if isbasic(m):
            return m
    return t.__args__[0]


def data(S, n, t, g):
    """data that loads into t without any conversion"""
    if recursive(t):
        g = g.deeper()
    t = resolve(t)
    h = g.hole
    if h is not None and not h.used and S.choose(n + '!', (False, True)):
        h.used = True
        h.type = t
        h.value = S.any(n, h.keyspec if h.key else h.spec)
        return h.value
    if t is typing.Any:
        return S.any(n, Spec(kinds=SCALAR, depth=0, strlen=g.strlen))
    if isbasic(t):
        return None if t is NoneType else scalar(S, n, t, g)
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    if isunion(t):
        ms = [m for m in args if usable(m, g)] or [terminal(t)]
        i = S.choose(n + '.member', range(len(ms)))
        return data(S, '%s|%d' % (n, i), ms[i], g)
    if o is typing.Literal:
        return S.choose(n + '.lit', args)
    if o in (list, set, frozenset) or o is tuple and len(args) == 2 and args[1] is ...:
        if not usable(args[0], g):
            return []
        return [data(S, '%s[%d]' % (n, i), args[0], g.sub()) for i in range(length(S, n, g))]
    if o is tuple:
        return [data(S, '%s[%d]' % (n, i), a, g.sub()) for i, a in enumerate(args)]
    if o is dict:
        d = {}
        if not usable(args[1], g):
            return d
        g2 = g.sub()
        for i in range(length(S, n, g)):
            if h is not None:
                h.key = True
            k = data(S, '%s.k%d' % (n, i), args[0], g2)
            if h is not None:
                h.key = False
            distinct(S, d, k)
            d[k] = data(S, '%s.v%d' % (n, i), args[1], g2)
        return d
    k = objkind(t)
    if k:
        d = {}
        for f in fields(t):
            if not f.init:
                continue
            if not f.required and not usable(f.type, g):
                continue
            if not f.required and g.optional and not S.choose('%s.%s?' % (n, f.name), (True, False)):
                continue
            d[f.ext(g.key)] = data(S, '%s.%s' % (n, f.name), f.type, g.sub())
        return d
    if isinstance(t, typing.NewType):
        return data(S, n + '~', t.__supertype__, g)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        v = S.choose(n + '.enum', list(t)).value
        return list(v) if type(v) is tuple else v
    if t is datetime.date:
        return S.choose(n + '.date', ([2020, 2, 29], '2020-02-29'))
    if t is datetime.time:
        return S.choose(n + '.time', ([12, 30, 1, 500], '12:30:01'))
    if t is datetime.datetime:
        return S.choose(n + '.dt', ([2020, 2, 29, 1, 2, 3, 4], '2020-02-29T12:30:01+02:00'))
    if t is datetime.timedelta:
        return S.choose(n + '.td', (1, 2.5))
    if t is re.Pattern or o is re.Pattern:
        return b'a' if o is re.Pattern and args and args[0] is bytes else S.choose(n + '.pat', ('a+', '', 'x[0-9]'))
    return S.choose(n + '.text', TEXTS[t])


def inrange(S, n, lo, hi):
    v = S.any(n, Spec(kinds=(INT,), depth=0))
    S.assume(lo <= v)
    S.assume(v <= hi)
    return v


def build(S, cls, *a, **k):
    """constructs an object, where its constructor allows the arguments"""
    try:
        return cls(*a, **k)
    except (ValueError, TypeError, OverflowError):
        S.assume(False)


def value(S, n, t, g):
    """a value of type t"""
    if recursive(t):
        g = g.deeper()
    t = resolve(t)
    if t is typing.Any:
        if g.plain_any:
            return S.any(n, Spec(kinds=SCALAR, depth=0, strlen=g.strlen))
        i = S.choose(n + '.any', range(5))
        if i == 0:
            return S.any(n, Spec(kinds=SCALAR, depth=0, strlen=g.strlen))
        return value(S, n + '.a', (None, catalog.NT, catalog.T('List[DC]'), catalog.T('Dict[str,Colour]'),
                                   catalog.T('Tuple[int,date]'))[i], g)
    if isbasic(t):
        return None if t is NoneType else scalar(S, n, t, g)
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    if isunion(t):
        ms = [m for m in args if usable(m, g)] or [terminal(t)]
        i = S.choose(n + '.member', range(len(ms)))
        return value(S, '%s|%d' % (n, i), ms[i], g)
    if o is typing.Literal:
        return S.choose(n + '.lit', args)
    if o in (list, set, frozenset) or o is tuple and len(args) == 2 and args[1] is ...:
        items = []
        if usable(args[0], g):
            for i in range(length(S, n, g)):
                x = value(S, '%s[%d]' % (n, i), args[0], g.sub())
                if o in (set, frozenset):
                    distinct(S, items, x)
                items.append(x)
        r = o(items)
        if o in (set, frozenset) and len(items) > 1:
            S.record(n, r)
        return r
    if o is tuple:
        return tuple([value(S, '%s[%d]' % (n, i), a, g.sub()) for i, a in enumerate(args)])
    if o is dict:
        d = {}
        if usable(args[1], g):
            for i in range(length(S, n, g)):
                k = value(S, '%s.k%d' % (n, i), args[0], g.sub())
                distinct(S, d, k)
                d[k] = value(S, '%s.v%d' % (n, i), args[1], g.sub())
        return d
    k = objkind(t)
    if k:
        kw = {}
        for f in fields(t):
            if not f.init:
                continue
            if not f.required and not usable(f.type, g):
                continue
            if not f.required and g.optional and not S.choose('%s.%s?' % (n, f.name), (True, False)):
                continue
            kw[f.name] = value(S, '%s.%s' % (n, f.name), f.type, g.sub())
        return kw if k == 'td' else build(S, t, **kw)
    if isinstance(t, typing.NewType):
        return value(S, n, t.__supertype__, g)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return S.choose(n + '.enum', list(t))
    if t is datetime.date:
        return build(S, t, inrange(S, n + '.y', 1, 9999), inrange(S, n + '.m', 1, 12), inrange(S, n + '.d', 1, 31))
    if t is datetime.time:
        return build(S, t, inrange(S, n + '.H', 0, 23), inrange(S, n + '.M', 0, 59), inrange(S, n + '.S', 0, 59),
                     inrange(S, n + '.us', 0, 999999))
    if t is datetime.datetime:
        return build(S, t, inrange(S, n + '.y', 1, 9999), inrange(S, n + '.m', 1, 12), inrange(S, n + '.d', 1, 31),
                     inrange(S, n + '.H', 0, 23), inrange(S, n + '.M', 0, 59), inrange(S, n + '.S', 0, 59),
                     inrange(S, n + '.us', 0, 999999))
    if t is datetime.timedelta:
        q = inrange(S, n + '.q', -4 * 10 ** 9, 4 * 10 ** 9)
        return build(S, t, 0, q, S.choose(n + '.us', (0, 250000, 500000)) if not g.micro else inrange(S, n + '.us', 0, 999999))
    if t is re.Pattern or o is re.Pattern:
        if o is re.Pattern and args[0] is bytes:
            return S.choose(n + '.pat', (re.compile(b'a'), re.compile(b'')))
        i = S.choose(n + '.pat', range(3))
        return re.compile(('a+', 'x[0-9]', None)[i]) if i < 2 else \
            re.compile(S.any(n, Spec(kinds=(STR,), strlen=g.strlen, pool=False)))
    if t is catalog.MyText:
        return t(scalar(S, n, int, g))
    if t is pathlib.Path:
        i = S.choose(n + '.text', range(3))
        return t(('/tmp/x', '..')[i]) if i < 2 else t(S.any(n, Spec(kinds=(STR,), strlen=g.strlen, pool=False)))
    return t(S.choose(n + '.text', TEXTS[t]))


def fixed(t, i):
    """some value of a type, never equal to a symbolic value"""
    t = resolve(t)
    if isbasic(t):
        return {int: 2 ** 60 + i, str: 's_%d' % i, float: 2.0 ** 45 + i + 0.5, bool: i % 2 == 0, NoneType: None}[t]
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    if t is typing.Any:
        return ('q_', 2 ** 60 + i, 0.5, catalog.Colour.RED, catalog.NT(1))[i % 5]
    if isunion(t):
        return fixed(terminal(t) if any(recursive(a) for a in args) else args[i % len(args)], i)
    if o is typing.Literal:
        return args[i % len(args)]
    if o in (list, set, frozenset) or o is tuple and len(args) == 2 and args[1] is ...:
        return o([]) if recursive(args[0]) else o([fixed(args[0], i)])
    if o is tuple:
        return tuple([fixed(a, i) for a in args])
    if o is dict:
        return {} if recursive(args[1]) else {fixed(args[0], i): fixed(args[1], i)}
    k = objkind(t)
    if k:
        kw = {f.name: fixed(f.type, i) for f in fields(t) if f.init and (f.required or i % 2) and not recursive(f.type)}
        return kw if k == 'td' else t(**kw)
    if isinstance(t, typing.NewType):
        return fixed(t.__supertype__, i)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return list(t)[i % len(list(t))]
    if t is datetime.date:
        return t(2020, 2, 1 + i % 28)
    if t is datetime.time:
        return t(1, 2, i % 60)
    if t is datetime.datetime:
        return t(2020, 2, 1, 2, i % 60)
    if t is datetime.timedelta:
        return t(i)
    if t is re.Pattern or o is re.Pattern:
        return re.compile(b'a' if o is re.Pattern and args and args[0] is bytes else 'a+')
    return t(TEXTS[t][0])
