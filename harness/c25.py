"""C25: the function API equals a fresh loader or dumper with the same options."""
import argparse
from typing import Dict, List, NamedTuple, Optional

from .loads import *

BOUNDS = dict(options='any two of the options of the loader (12, and an own attribute) or dumper (8), every value of the flags, 2-3 values of the others, in both orders',
              ways='keyword arguments of the function, keyword arguments of the class, attributes of an object, some of each',
              data='well-formed data with an arbitrary value (' + BOUND_TEXT + ') at an arbitrary position', before='6 other calls of the function, for other classes, the same class with other options, classes with the same names, and calls that fail; unions of the same members in another order')
OUTSIDE = 'options changed after the first use (documented as unsupported); containers given as options and changed by the caller; ' + OUTSIDE
SCHEMAS = ['int', 'bool', 'List[int]', 'DC', 'DCName', 'ATName', 'DCSwap', 'Union[int,str]', 'Union[DC,NT]', 'Union[float,int]', 'Lost', 'MyText', 'DCText', 'Union[IPv4,MyText]', 'Dict[str,int]', 'Opt[float]', 'LitMix',
           'NTNest', 'Node', 'Tree', 'TD', 'Union[DTagA,DTagB]', 'Colour', 'date', 'Path', 'Any', 'Tuple[int,str]', 'Set[int]']
VALUES = ['int', 'DC', 'DCName', 'ATName', 'DCSwap', 'DCFact', 'ATFact', 'NTDef', 'List[DC]', 'Dict[str,DC]', 'date', 'datetime', 'timedelta', 'Colour', 'Path', 'List[MyText]', 'DCText', 'Tuple[int,date]', 'Set[int]', 'TD', 'Tree', 'UUID', 'DCNest']


class Nowhere(NamedTuple):
    """what Lost refers to"""
    v: int


class Own:
    """a handler that uses the parameters of the loader or dumper"""

    def __init__(self, t):
        self.t = t

    def __call__(self, l, v, t):
        return ['own', l.basiccast if hasattr(l, 'basiccast') else l.isodates, getattr(l, 'mine', 'none'), v]


LOADOPTS = ('basiccast', 'failonextra', 'raiseconditionerrors', 'dictequivalence', 'uniondebugconflict', 'pep563', 'mangle_key', 'strconstructed', 'frefs', 'basictypes', 'handlers', 'mine')
DUMPOPTS = ('hidedefault', 'isodates', 'raiseconditionerrors', 'mangle_key', 'strconstructed', 'basictypes', 'handlers', 'mine')
NONAN = (NONE, BOOL, INT, STR)
FLAGS = ('basiccast', 'failonextra', 'raiseconditionerrors', 'dictequivalence', 'uniondebugconflict', 'hidedefault', 'isodates', 'mine')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for k in ('function', 'objects'):
        r.append(('named ' + k, 'h_named', dict(way=k)))
        r.append(('after ' + k, 'h_after', dict(way=k)))
        r.append(('members ' + k, 'h_members', dict(way=k)))
    r.append(('default options', 'h_defaults', {}))
    for s in SCHEMAS:
        r.append(('load ' + s, 'h_load', dict(schema=s, few=q)))
    for s in ('DC', 'Dict[str,int]', 'ATName', 'Opt[DC]'):
        r.append(('space ' + s, 'h_load', dict(schema=s, few=q, space=True)))
    for s in VALUES:
        r.append(('dump ' + s, 'h_dump', dict(schema=s, few=q)))
    return r


def option(S, k, side):
    """a value for an option"""
    if k in FLAGS:
        return S.flag(k)
    if k == 'pep563':
        return S.choose(k, (True, False))
    if k == 'mangle_key':
        return S.choose(k, ('alt', 'name', 'nothing'))
    if k == 'strconstructed':
        std = set((loader(S) if side == 'load' else dumper(S)).strconstructed)
        return S.choose(k, ({catalog.MyText}, std | {catalog.MyText}, set()))
    if k == 'frefs':
        return S.choose(k, ({'Nowhere': Nowhere}, None, {'Node': Nowhere, 'Tree': Nowhere}))
    if k == 'basictypes':
        return S.choose(k, ({int, str}, {int, bool, float, str, type(None), bytes}))
    assert k == 'handlers'
    if side == 'load':
        std = loader(S).handlers
        return S.choose(k, ([(lambda t: t is int, Own(int))] + std, std + [(lambda t: t is catalog.MyText, Own(0))], std[:3], [(lambda t: t.nothing, Own(0))] + std))
    std = dumper(S).handlers
    return S.choose(k, ([(lambda v: type(v) is int, Own(int))] + std, std + [(lambda v: type(v) is catalog.MyText, Own(0))], std[:3], [(lambda v: v.nothing, Own(0))] + std))


def fresh(o):
    """the options, with containers of their own"""
    return {k: type(v)(v) if type(v) in (dict, list, set) else v for k, v in o.items()}


def choose(S, names, side, few):
    o = {}
    a = S.choose('option', (None,) + names)
    if a is not None:
        o[a] = option(S, a, side)
        rest = [n for n in names if n != a]
        if few:
            i = names.index(a)
            rest = [names[(i + 1) % len(names)]]
        b = S.choose('other option', [None] + rest)
        if b is not None:
            o[b] = option(S, b, side)
            if (not few or a in ('frefs', 'basictypes', 'strconstructed')) and S.choose('order', (0, 1)):
                o = dict(reversed(list(o.items())))
    return o


def made(cls, o, how):
    """a loader or dumper with the options"""
    o = fresh(o)
    if how == 'keywords':
        return cls(**o)
    if how == 'attributes':
        l = cls()
    else:
        k = list(o)[0] if o else None
        l = cls(**({k: o.pop(k)} if o else {}))
    for k, v in o.items():
        setattr(l, k, v)
    return l


def equal(S, a, b, what):
    S.check(a.ok == b.ok, lambda: '%s: %s, %s' % (what, a.kind(), b.kind()))
    if a.ok:
        S.check(spec.same(a.value, b.value), what + ': different results')
    else:
        S.check(a.kind() == b.kind(), lambda: '%s: different failures, %s, %s' % (what, a.kind(), b.kind()))


def disturb(S, t, v, o):
    """other calls"""
    load, dump = S.tl.load, S.tl.dump
    p = {'failonextra': True, 'basiccast': False}
    p['mangle_key'] = 'other'
    attempt(load, v, t, **p)
    attempt(load, {'v': 3}, Nowhere)
    attempt(load, 'z', catalog.MyText, strconstructed={catalog.MyText})
    attempt(load, [1, 2], T('Union[int,str]'), uniondebugconflict=True)
    attempt(load, {'v': 3, 'x': None, 'nope': 1}, catalog.DC, frefs={'Node': Nowhere})
    l = loader(S, basiccast=False)
    l.strconstructed.clear()
    l.basictypes.clear()
    l.handlers.clear()
    attempt(l.load, v, t)
    attempt(dump, catalog.DCName(1), mangle_key='alt', hidedefault=False)
    d = dumper(S)
    d.strconstructed.clear()
    d.basictypes.clear()
    d.handlers.clear()
    attempt(d.dump, catalog.DC(1))


def h_load(S, schema, few, space=False):
    t = T(schema)
    pools(S, t)
    o = choose(S, LOADOPTS, 'load', few)
    before = not few and S.choose('before', (False, True))
    hole = None if few and schema in ('NTNest', 'Node', 'Tree', 'Union[DTagA,DTagB]', 'Lost') else gen.Hole(Spec(kinds=(NONE, FLOAT, STR) if not few else (FLOAT, STR), depth=0, lens=(0,), strlen=1))
    if t is catalog.MyText or t == T('Union[IPv4,MyText]'):
        v = S.any('v', Spec(kinds=NONAN, depth=0, strlen=1))
    elif schema in ('DCText',):
        v = {'t': S.any('t', Spec(kinds=NONAN, depth=0, strlen=1))}
    else:
        v = gen.data(S, 'v', t, gen.G((1,), 1, 1, hole, optional=False, ilens=(1,), key=o.get('mangle_key', 'name') if isinstance(o.get('mangle_key', ''), str) else 'name'))
    if type(v) is dict and (not few or 'failonextra' in o) and S.choose('extra', (False, True)):
        v['more'] = 1
    if space:
        S.assume(type(v) is dict)
        n = argparse.Namespace()
        n.__dict__.update(v)
        v = n
    if before:
        disturb(S, t, v, o)
    a = attempt(S.tl.load, v, t, **fresh(o))
    rec(S, 'function', a)
    for how in ('keywords', 'attributes', 'both'):
        b = attempt(made(S.tl.dataloader.Loader, o, how).load, v, t)
        equal(S, a, b, 'the function and a loader with ' + how)
    disturb(S, t, v, o)
    b = attempt(S.tl.load, v, t, **fresh(o))
    equal(S, a, b, 'the function before and after other calls')
    if set(o) <= {'basiccast', 'failonextra', 'mangle_key', 'dictequivalence', 'mine', 'raiseconditionerrors'}:
        c = spec.Cfg(o.get('basiccast', True), o.get('failonextra', False), o.get('mangle_key', 'name'), o.get('dictequivalence', True))
        judge(S, v, t, c, a, schema)


def h_dump(S, schema, few):
    t = T(schema)
    pools(S, t)
    o = choose(S, DUMPOPTS, 'dump', few)
    v = gen.value(S, 'v', t, gen.G((1,), 1, 1, ilens=(1,), optional=False))
    a = attempt(S.tl.dump, v, **fresh(o))
    rec(S, 'function', a)
    for how in ('keywords', 'attributes', 'both'):
        b = attempt(made(S.tl.datadumper.Dumper, o, how).dump, v)
        equal(S, a, b, 'the function and a dumper with ' + how)
    disturb(S, t, v, o)
    b = attempt(S.tl.dump, v, **fresh(o))
    equal(S, a, b, 'the function before and after other calls')
    if set(o) <= {'hidedefault', 'isodates', 'mangle_key', 'mine', 'raiseconditionerrors'} and 'MyText' not in schema and schema != 'DCText':
        S.check(a.ok, lambda: 'not dumped (%s)' % a.kind())
        S.check(spec.isdump(a.value, v, spec.DCfg(o.get('hidedefault', True), o.get('isodates', False), o.get('mangle_key', 'name'))), 'wrong dump')


def twins():
    """two classes of the same name"""
    def first():
        class Twin(NamedTuple):
            a: int
            next: Optional['Twin'] = None
            l: List['Twin'] = []
        return Twin

    def second():
        class Twin(NamedTuple):
            a: str
            next: Optional['Twin'] = None
            d: Dict[str, 'Twin'] = {}
        return Twin
    return first(), second()


def h_named(S, way):
    """classes with the same name in separate calls"""
    S.pool((), ())
    A, B = twins()
    x, y = S.any('x', Spec(kinds=SCALAR, depth=0, strlen=1)), S.any('y', Spec(kinds=SCALAR, depth=0, strlen=1))
    cast = S.flag('basiccast')

    def run(v, t):
        if way == 'function':
            return attempt(S.tl.load, v, t, basiccast=cast) if given else attempt(S.tl.load, v, t)
        return attempt(loader(S, basiccast=cast).load if given else loader(S).load, v, t)

    given = S.choose('given', (False, True))
    S.assume(given or cast)
    order = S.choose('order', (0, 1, 2))
    c = spec.Cfg(cast)
    for t in ((A, B), (B, A), (B, B, A))[order]:
        v = {'a': x, 'next': {'a': y}}
        r = run(v, t)
        rec(S, 'load', r)
        ft = int if t is A else str
        want = spec.accepts(x, ft, c) == spec.YES and spec.accepts(y, ft, c) == spec.YES
        S.check(r.ok == want, lambda: 'classes of the same name: %s' % r.kind())
        if r.ok:
            S.check(type(r.value) is t and type(r.value.next) is t, 'an object of the class with the same name')
            S.check(spec.allowed(x, ft, c, r.value.a) and spec.allowed(y, ft, c, r.value.next.a), 'wrong value')


def h_after(S, way):
    """names are not kept from earlier calls"""
    S.pool((), ())
    x = S.any('x', Spec(kinds=SCALAR, depth=0, strlen=1))

    def run(v, t, **k):
        if way == 'function':
            return attempt(S.tl.load, v, t, **k)
        return attempt(loader(S, **k).load, v, t)

    given = {'failonextra': True} if S.choose('given', (False, True)) else {}
    S.check(run({'v': 1}, Nowhere, **given).ok, 'Nowhere')
    r = run({'v': 1, 'x': {'v': x}}, catalog.Lost, **given)
    rec(S, 'load', r)
    S.check(not r.ok and typed(S, r.error), 'a name was resolved with the classes of another call')
    r = run({'v': 1, 'x': {'v': x}}, catalog.Lost, frefs={'Nowhere': Nowhere}, **given)
    rec(S, 'load', r)
    S.check(r.ok == (spec.accepts(x, int, spec.Cfg()) == spec.YES), 'frefs is not used')
    r = run({'v': 1, 'x': {'v': x}}, catalog.Lost, **given)
    S.check(not r.ok and typed(S, r.error), 'a name was resolved with the options of another call')


# the type of what is loaded when the member comes first; all of them accept the data
MEMBERS = {'basic': (float, ('int', 'str', 'bool'), (int, str, bool)), 'objects': (dict, ('NT', 'DC', 'AT'), (catalog.NT, catalog.DC, catalog.AT)),
           'containers': (list, ('List[int]', 'Tuple[int,...]', 'Set[int]'), (list, tuple, set)), 'optional': (float, ('Opt[int]', 'str'), (int, str)),
           'spelled': (float, ('int', 'bool'), (int, bool)), 'nested': (dict, ('List[NT]', 'Tuple[DC,...]'), (list, tuple))}


def h_members(S, way):
    """the order of the members is the one of the union of this call, not of an equal one"""
    S.pool((), ())
    family = S.choose('family', sorted(MEMBERS))
    kind, names, classes = MEMBERS[family]
    x = S.any('x', Spec(kinds=(FLOAT if kind is float else INT,), depth=0))
    S.assume(kind is not float or x - x == 0)
    i = S.choose('first', range(len(names)))
    j = S.choose('second', [k for k in range(len(names)) if k != i])
    v = x if kind is float else {'a': x} if family == 'objects' else [x] if family == 'containers' else [{'a': x}]
    for k, m in ((i, j), (j, i), (i, j)):
        if family == 'spelled':
            t = T(names[k]) | T(names[m])
        else:
            t = T('Union[%s,%s]' % (names[k], names[m]))
        r = attempt(S.tl.load, v, t) if way == 'function' else attempt(loader(S).load, v, t)
        rec(S, 'load', r)
        S.check(r.ok and type(r.value) is classes[k], lambda: 'the members of a union are not tried in its order (%s)' % r.kind())


def h_defaults(S):
    """the documented defaults, of new objects, whatever was done to others"""
    i = S.choose('before', range(3))
    if i:
        disturb(S, int, 1, {})
    l = loader(S)
    for k, v in dict(basiccast=True, failonextra=False, raiseconditionerrors=True, dictequivalence=True, mangle_key='name', uniondebugconflict=False, pep563=False, frefs={}, basictypes={int, bool, float, str, type(None)}).items():
        S.check(getattr(l, k) == v, 'default of ' + k)
    d = dumper(S)
    for k, v in dict(hidedefault=True, isodates=False, mangle_key='name', raiseconditionerrors=True, basictypes={int, bool, float, str, type(None)}).items():
        S.check(getattr(d, k) == v, 'default of ' + k)
    S.check(len(l.strconstructed) == 8 and len(l.handlers) > 15 and len(d.handlers) > 10 and len(d.strconstructed) >= 8, 'defaults')
    m, e = loader(S), dumper(S)
    for k in ('frefs', 'basictypes', 'strconstructed', 'handlers'):
        S.check(getattr(l, k) is not getattr(m, k), 'two loaders share ' + k)
    for k in ('basictypes', 'strconstructed', 'handlers'):
        S.check(getattr(d, k) is not getattr(e, k), 'two dumpers share ' + k)
