"""C23: types built from text load by their constructor and dump to their text."""
import enum
import ipaddress
import pathlib
import re
import uuid

import attr

from .loads import *

BOUNDS = dict(values=BOUND_TEXT + '; 29 constants of other classes', types='the 8 standard types and user types made of symbolic text', errors='13 classes of exceptions raised by the constructor',
              patterns='text of the alphabet and 16 constants with metacharacters, bytes; the three annotations', contexts='top level, list, set, dictionary keys and values, optional, union, tuple, objects',
              sets='types added to or removed from the set before or after creation, as argument or attribute')
OUTSIDE = 'constructors that raise no Exception (KeyboardInterrupt, SystemExit); types in the set that are also loaded by another handler (an Enum, NamedTuple or dataclass); ' + OUTSIDE
TEXTS = {
    'Path': ('/a/b', '..', 'a//b/', '~', 'a\x00b'),
    'IPv4': ('1.2.3.4', '1.2.3', '1.2.3.4/24', '256.1.1.1', '01.2.3.4', ' 1.2.3.4'), 'IPv6': ('::1', 'fe80::1%eth0', '1.2.3.4', '::g', '0:0:0:0:0:0:0:1'),
    'IPv4Net': ('10.0.0.0/8', '10.0.0.1/8', '10.0.0.0', '10.0.0.0/255.0.0.0'), 'IPv6Net': ('fe80::/10', 'fe80::1/10', '::'),
    'IPv4If': ('10.0.0.1/8', '10.0.0.1', '10.0.0.1/33'), 'IPv6If': ('fe80::1/10', '::1', '::1/129'),
    'UUID': ('12345678-1234-5678-1234-567812345678', '{12345678123456781234567812345678}', 'urn:uuid:12345678-1234-5678-1234-567812345678', 'x'),
}
CLASSES = {k: T(k) for k in TEXTS}
REGEX = ('a(b', '[a', '*', '(?P<x>a)', '(?i)A', '\\', '\\d+', 'a|b', '(?P<1>a)', '.', '^$', '{2}', '(?#', '(?<=a+)b', '\ud800', '(a)\\2')
BYTES = (b'a(b', b'[a', b'x', b'\\d', b'\xff', Fresh(lambda: bytearray(b'a')), Fresh(lambda: memoryview(b'a')))
LASTING = tuple(x for x in ODD if not isinstance(x, Fresh) or not hasattr(x.make(), '__next__'))
INSTANCES = tuple(CLASSES[k](TEXTS[k][0]) for k in sorted(TEXTS)) + (pathlib.PurePosixPath('a/b'), ipaddress.IPv4Interface('1.2.3.4/8'))
ERRORS = (None, ValueError, TypeError, KeyError, AttributeError, IndexError, ZeroDivisionError, OverflowError, OSError, AssertionError, RuntimeError, StopIteration, NotImplementedError, Exception)


class Wide:
    """a user type that keeps what it was given"""
    made = []
    fails = None
    text = None
    _sx_fields = ('text',)

    def __init__(self, *a, **k):
        Wide.made.append((self, a, k))
        if Wide.fails is not None:
            raise Wide.fails('refused')
        self.a = a

    def __str__(self):
        return self.text


class WideMeta(type):
    pass


class WideSub(Wide):
    pass


class WideSlots(Wide, metaclass=WideMeta):
    __slots__ = ('x',)


class WideList(Wide):
    """looks like a container"""

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


class WideHash(Wide):
    """not hashable, never equal"""
    __hash__ = None

    def __eq__(self, o):
        return False


@attr.s(init=False, eq=False)
class WideAttr(Wide):
    """also an attrs class"""


WIDE = {c.__name__: c for c in (Wide, WideSub, WideSlots, WideList, WideHash, WideAttr)}
PLACES = ('top', 'list', 'dict', 'tuple', 'optional', 'union', 'set')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for x in TEXTS:
        r.append(('standard ' + x, 'h_std', dict(x=x)))
        for w in ('List[{}]', 'Dict[str,{}]', 'Dict[{},int]', 'Opt[{}]', 'Tuple[{},int]', 'Union[int,{}]', 'Set[{}]', 'Union[str,{}]'):
            if not q or x in ('Path', 'IPv4', 'UUID'):
                r.append(('standard ' + w.format(x), 'h_in', dict(x=x, schema=w.format(x))))
    for x in ('Union[IPv4,IPv6]', 'Union[IPv4,IPv4Net]', 'Union[UUID,Path]', 'Union[Path,int]', 'Union[IPv4,List[IPv4]]'):
        r.append(('standard ' + x, 'h_in', dict(x='IPv4' if 'IP' in x else 'UUID', schema=x)))
    for w in WIDE:
        for p in PLACES:
            r.append(('own %s in %s' % (w, p), 'h_own', dict(cls=w, place=p, errors=p in ('top', 'list') or not q)))
        if w != 'WideAttr':
            r.append(('dump own ' + w, 'h_dumpown', dict(cls=w)))
    for s in ('MyText', 'DCText', 'NTText', 'List[MyText]', 'Dict[MyText,int]', 'Dict[str,MyText]', 'Union[MyText,int]', 'Union[int,MyText]', 'Union[NT,MyText]', 'Opt[MyText]', 'Tuple[int,MyText]', 'Set[MyText]'):
        r.append(('text in ' + s, 'h_text', dict(schema=s)))
        r.append(('dump text in ' + s, 'h_dumptext', dict(schema=s)))
    r.append(('which', 'h_which', {}))
    r.append(('which dump', 'h_whichdump', {}))
    for p in ('Pattern', 'PatternStr', 'PatternBytes'):
        r.append(('pattern ' + p, 'h_pattern', dict(schema=p)))
        for w in ('List[{}]', 'Dict[str,{}]', 'Opt[{}]', 'Union[int,{}]', 'Tuple[{},int]', 'Dict[{},int]', 'Union[{},List[{}]]'):
            r.append(('pattern ' + w.format(p, p), 'h_pattern', dict(schema=w.format(p, p))))
    r.append(('pattern Union', 'h_pattern', dict(schema='Union[PatternStr,PatternBytes]')))
    return r


# ---------------------------------------------------------------- the standard types
def h_std(S, x):
    t = T(x)
    S.pool(TEXTS[x], (2 ** 32, 2 ** 128, -1))
    v = S.any('v', Spec(kinds=ALLKINDS, depth=1, lens=(0, 1), strlen=3, consts=LASTING + INSTANCES, elem=Spec(kinds=SCALAR, depth=0, strlen=1)))
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    ok, w = spec.construct(v, t)
    S.check(r.ok == ok, lambda: 'the constructor %s, load %s (%s)' % ('gives a value' if ok else 'refuses', 'gives one' if r.ok else 'fails', r.kind()))
    if not r.ok:
        S.check(typed(S, r.error), lambda: 'untyped exception ' + r.kind())
        return
    S.check(type(r.value) is type(w) and r.value == w and str(r.value) == str(w), 'another value than the constructor gives')
    d = attempt(dumper(S).dump, r.value)
    rec(S, 'dump', d)
    S.check(d.ok and type(d.value) is str and d.value == str(w), lambda: 'not dumped to its text (%s)' % d.kind())


def h_in(S, x, schema):
    t = T(schema)
    S.pool(TEXTS[x][:3], ())
    v = S.any('v', Spec(kinds=JSON, depth=nest(t), lens=(0, 1, 2), dlens=(0, 1), strlen=1, keykinds=(STR, INT)))
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


# ---------------------------------------------------------------- types of the user
def wrap(S, place, t):
    """the type, the data and how to get the value, for a place"""
    import typing
    return {'top': (t, lambda x: x, lambda r: r), 'list': (typing.List[t], lambda x: [x], lambda r: r[0]),
            'dict': (typing.Dict[str, t], lambda x: {'k': x}, lambda r: r['k']), 'tuple': (typing.Tuple[int, t], lambda x: [1, x], lambda r: r[1]),
            'optional': (typing.Optional[t], lambda x: x, lambda r: r), 'union': (typing.Union[t, typing.List[typing.List[int]]], lambda x: x, lambda r: r),
            'set': (typing.Set[t], lambda x: [x], lambda r: list(r)[0])}[place]


def h_own(S, cls, place, errors):
    c = WIDE[cls]
    if place == 'set' and c is WideHash:
        S.check(True, '')
        return
    t, data, get = wrap(S, place, c)
    S.pool((), ())
    x = S.any('v', Spec(kinds=ALLKINDS if place != 'union' else (BOOL, INT, FLOAT), depth=1, lens=(0, 1), strlen=1, consts=ODD if place != 'union' else (), elem=Spec(kinds=SCALAR, depth=0, strlen=1)))
    S.assume(place != 'optional' or x is not None)
    fails = S.choose('raises', ERRORS if errors else ERRORS[:4])
    if not (place == 'union' and c is WideList) and S.choose('instance', (False, True)):
        Wide.fails = None
        x = S.choose('which', (Wide, WideSub, c))('x')
        if place == 'set' and x.__hash__ is None:
            S.check(True, '')
            return
    Wide.made, Wide.fails = [], fails
    l = loader(S, basiccast=S.flag('basiccast'))
    l.strconstructed.add(c)
    r = attempt(l.load, data(x), t)
    rec(S, 'load', r)
    mine = [m for m in Wide.made if type(m[0]) is c]
    S.check(len(mine) >= 1, 'the constructor was not called')
    for m in mine:
        S.check(len(m[1]) == 1 and not m[2] and m[1][0] is x, 'the constructor got something else than the value')
    if fails is None:
        S.check(r.ok, lambda: 'failed although the constructor accepts (%s)' % r.kind())
        S.check(any([get(r.value) is m[0] for m in mine]), 'not the object the constructor made')
    else:
        S.check(not r.ok and typed(S, r.error), lambda: 'no typedload exception when the constructor raises %s (%s)' % (fails.__name__, r.kind()))


def h_dumpown(S, cls):
    c = WIDE[cls]
    Wide.made, Wide.fails = [], None
    v = c('x')
    v.text = S.any('text', Spec(kinds=(STR,), depth=0, strlen=3))
    how = S.choose('how', ('argument', 'attribute', 'added'))
    if how == 'argument':
        d = dumper(S, strconstructed={c})
    else:
        d = dumper(S)
        if how == 'attribute':
            d.strconstructed = {c}
        else:
            d.strconstructed.add(c)
    place = S.choose('place', ('top', 'list', 'dict', 'key', 'object'))
    if place == 'key' and c is WideHash:
        S.check(True, '')
        return
    w = {'top': lambda: v, 'list': lambda: [v], 'dict': lambda: {'k': v}, 'key': lambda: {v: 1}, 'object': lambda: catalog.DCAny(v)}[place]()
    r = attempt(d.dump, w)
    rec(S, 'dump', r)
    S.check(r.ok, lambda: 'not dumped (%s)' % r.kind())
    x = r.value
    x = x if place == 'top' else x[0] if place == 'list' else x['k'] if place == 'dict' else x['a'] if place == 'object' else list(x)[0]
    S.check(type(x) is str and x == str(v), 'not its text form')


def h_text(S, schema):
    t = T(schema)
    pools(S, t)
    S.pool(('a', 'b', ''), ())
    v = S.any('v', Spec(kinds=(NONE, INT, STR, LIST, DICT), depth=nest(t), lens=(0, 1, 2) if nest(t) < 2 else (0, 1), dlens=(0, 1), strlen=1))
    o, c = options(S, None, None)
    c.texts = (catalog.MyText,)
    how = S.choose('how', ('added', 'argument', 'attribute'))
    if how == 'argument':
        l = loader(S, strconstructed={catalog.MyText}, **o)
    else:
        l = loader(S, **o)
        if how == 'added':
            l.strconstructed.add(catalog.MyText)
        else:
            l.strconstructed = {catalog.MyText}
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_dumptext(S, schema):
    t = T(schema)
    pools(S, t)
    v = gen.value(S, 'v', t, gen.G((0, 1) if 'Dict[My' in schema else (0, 1, 2), 1, 2, ilens=(1,)))
    d = dumper(S, hidedefault=S.flag('hidedefault'))
    known = S.choose('known', (True, False))
    if known:
        d.strconstructed.add(catalog.MyText)
    r = attempt(d.dump, v)
    rec(S, 'dump', r)
    if not known:
        if 'Opt' in schema or '[' in schema or schema in ('NTText', 'Union[MyText,int]'):
            S.check(r.ok or typed(S, r.error), lambda: 'untyped exception %r' % r.error)
        else:
            S.check(not r.ok and typed(S, r.error), 'dumped although it is not in the set')
        return
    S.check(r.ok, lambda: 'not dumped (%s)' % r.kind())
    S.check(spec.isdump(r.value, v, spec.DCfg(d.hidedefault, False, over=lambda y: Text() if type(y) is catalog.MyText else None)), 'not the text form')


class Text:
    fails = False

    def made(self, r, v):
        return type(r) is str and r == str(v)


def h_which(S):
    """the set decides, nothing else"""
    names = sorted(CLASSES)
    gone = S.choose('removed', [None] + names)
    x = S.choose('type', names)
    added = S.choose('added', (None, 'MyText'))
    how = S.choose('how', ('in place', 'attribute', 'argument'))
    v = TEXTS[x][0]
    types = set(CLASSES.values()) - {CLASSES.get(gone)} | ({catalog.MyText} if added else set())
    if how == 'argument':
        l = loader(S, strconstructed=types)
    else:
        l = loader(S)
        S.check(l.strconstructed == set(CLASSES.values()), 'the standard types differ')
        if how == 'attribute':
            l.strconstructed = types
        else:
            l.strconstructed.discard(CLASSES.get(gone))
            if added:
                l.strconstructed.add(catalog.MyText)
    r = attempt(l.load, v, CLASSES[x])
    S.check(r.ok == (x != gone), lambda: '%s %s (%s)' % (x, 'in the set' if x != gone else 'not in the set', r.kind()))
    S.check(r.ok or typed(S, r.error), 'untyped exception')
    r = attempt(l.load, 'z', catalog.MyText)
    S.check(r.ok == bool(added) and (r.ok or typed(S, r.error)), 'MyText')
    other = loader(S)
    S.check(attempt(other.load, v, CLASSES[x]).ok and not attempt(other.load, 'z', catalog.MyText).ok, 'another loader was influenced')


class Path2(pathlib.PurePosixPath):
    pass


class Addr2(ipaddress.IPv4Address):
    pass


def h_whichdump(S):
    """values of exactly the classes of the set"""
    all_ = [CLASSES[n](TEXTS[n][0]) for n in sorted(CLASSES)]
    v = S.choose('value', all_ + [Path2('a'), Addr2('1.2.3.4'), catalog.MyText('z'), object(), pathlib.PurePosixPath('a')])
    gone = S.choose('removed', (False, True))
    how = S.choose('how', ('in place', 'attribute', 'argument'))
    std = dumper(S)
    types = set(std.strconstructed) - {type(v)} if gone else set(std.strconstructed)
    if how == 'argument':
        d = dumper(S, strconstructed=types)
    else:
        d = dumper(S)
        if how == 'attribute':
            d.strconstructed = types
        else:
            d.strconstructed.intersection_update(types)
    r = attempt(d.dump, v)
    known = type(v) in types
    S.check(not any([v is y for y in all_]) or type(v) in std.strconstructed, 'a standard type is not in the set')
    if known:
        S.check(r.ok and type(r.value) is str and r.value == str(v), lambda: 'not dumped to its text (%s)' % r.kind())
    else:
        S.check(not r.ok and typed(S, r.error), 'dumped although its class is not in the set')


# ---------------------------------------------------------------- patterns
def h_pattern(S, schema):
    t = T(schema)
    S.pool(REGEX if schema in ('Pattern', 'PatternStr', 'PatternBytes') else REGEX[:3], ())
    consts = LASTING + BYTES if schema in ('Pattern', 'PatternStr', 'PatternBytes') else BYTES[:5]
    v = S.any('v', Spec(kinds=(NONE, INT, FLOAT, STR, LIST, DICT), depth=nest(t), lens=(0, 1, 2) if nest(t) < 2 else (0, 1), dlens=(0, 1), strlen=2, consts=consts))
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)
    if r.ok and isinstance(r.value, re.Pattern):
        S.check(spec.same(r.value.pattern, v) or isinstance(v, re.Pattern), 'another text')
        if not isinstance(v, re.Pattern):
            S.check(r.value.flags == re.compile(r.value.pattern).flags, 'other flags')
        d = attempt(dumper(S).dump, r.value)
        rec(S, 'dump', d)
        S.check(d.ok and spec.same(d.value, r.value.pattern), 'not dumped to the same text')
