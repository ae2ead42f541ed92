"""C31: the same type written differently is the same schema."""
import typing

from .loads import *
import spell

BOUNDS = dict(families='; '.join('%s: %s' % (f, ', '.join(h for h, _ in v)) for f, v in spell.FAMILIES.items()), input=BOUND_TEXT + '; arbitrary, and well-formed with an arbitrary value at one position',
              contexts='alone, in a list, a dictionary, a tuple, an optional, as field of the four kinds of object', options='basiccast, failonextra, uniondebugconflict', dumps='the loaded values, hidedefault on and off')
OUTSIDE = ('Annotated, Required, type aliases (unsupported); a NewType among the members of a union; which member of an ambiguous union is used; ' + OUTSIDE)
OBJECTS = ('NamedTuple', 'dataclass', 'attrs', 'TypedDict')
AMBIGUOUS = ('union', 'tagged', 'tagged optional')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for f in sorted(spell.FAMILIES):
        r.append(('any ' + f, 'h_any', dict(family=f, few=q)))
        r.append(('in ' + f, 'h_in', dict(family=f, few=q)))
        if not q or f not in ('none', 'literal'):
            r.append(('shaped ' + f, 'h_shaped', dict(family=f, few=q)))
    r += [('mixed ' + f, 'h_mixed', dict(family=f)) for f in sorted(spell.FAMILIES)]
    r.sort(key=lambda x: not any(y in x[0] for y in OBJECTS))
    return r


def alike(a, b):
    """the same, except for the classes of a family"""
    if type(a) in spell.CLASSES and type(b) in spell.CLASSES and spell.CLASSES[type(a)] is spell.CLASSES[type(b)]:
        return all([alike(getattr(a, f.name), getattr(b, f.name)) for f in catalog.fields(spell.CLASSES[type(a)])])
    if type(a) is not type(b):
        return False
    if catalog.objkind(type(a)):
        return all([alike(getattr(a, f.name), getattr(b, f.name)) for f in catalog.fields(type(a))])
    if type(a) in (list, tuple):
        return len(a) == len(b) and all([alike(x, y) for x, y in zip(a, b)])
    if type(a) is dict:
        return len(a) == len(b) and all([spec.same(x, y) and alike(a[x], b[y]) for x, y in zip(list(a), list(b))])
    return spec.same(a, b)


def unordered(a, b):
    """dumps alike: the fields may be defined in another order"""
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all([x in b and unordered(a[x], b[x]) for x in list(a)])
    if type(a) is list:
        return len(a) == len(b) and all([unordered(x, y) for x, y in zip(a, b)])
    return spec.same(a, b)


def casual(family, v):
    """a bool may be kept where an int is meant, also inside containers of basic types only"""
    return family.startswith('new ') and bools(v)


def bools(v):
    if type(v) is bool:
        return True
    if type(v) is dict:
        return any([bools(x) or bools(v[x]) for x in list(v)])
    return type(v) is list and any([bools(x) for x in v])


def compared(S, family, v, types, how, o, dumps=True, names=''):
    if casual(family, v):
        return
    rs = [attempt(loader(S, **o).load, v, t) for t in types]
    for i, r in enumerate(rs):
        rec(S, 'load %d' % i, Out(r.ok, 0 if r.ok else r.error))
        if not r.ok:
            S.check(typed(S, r.error), 'untyped exception')
    a, b = rs
    S.check(a.kind() == b.kind(), lambda: '%s%s, written in the way %s: %s, %s' % (family, names, how, a.kind(), b.kind()))
    if not a.ok or (family in AMBIGUOUS and o.get('basiccast', True)):
        return
    S.check(alike(a.value, b.value), lambda: '%s%s, written in the way %s: another result' % (family, names, how))
    if dumps:
        h = S.flag('hidedefault')
        d = [attempt(dumper(S, hidedefault=h).dump, r.value) for r in rs]
        S.check(d[0].kind() == d[1].kind(), lambda: '%s: dumps give %s, %s' % (family, d[0].kind(), d[1].kind()))
        S.check(not d[0].ok or unordered(d[0].value, d[1].value), lambda: '%s: another dump' % family)


def chosen(S, family):
    ways = spell.FAMILIES[family]
    how, t = ways[1 + S.choose('way', range(len(ways) - 1))]
    return ways[0][1], t, how


def opts(S, family):
    o, _ = options(S, None, None)
    if 'union' in family or 'opt' in family:
        o['uniondebugconflict'] = S.flag('uniondebugconflict')
    return o


def h_any(S, family, few):
    t, u, how = chosen(S, family)
    pools(S, t)
    obj = spec.objkind(t) or 'object' in family or 'tagged' in family
    d = depthof(t) if nest(t) else 1
    if few and (obj or d > 1):
        v = S.any('v', Spec(kinds=JSON, depth=1 if obj else 2, lens=(0, 1), dlens=(0, 1), strlen=1, elem=Spec(kinds=(NONE, INT, STR, LIST), depth=0 if obj else 1, lens=(0, 1), strlen=1, elem=Spec(kinds=(INT, STR), depth=0, strlen=1))))
    else:
        v = S.any('v', inputspec(t, d, (0, 1, 2) if d < 2 else (0, 1), (0, 1), 2, keykinds=(STR, INT)))
    compared(S, family, v, (t, u), how, opts(S, family))


def h_shaped(S, family, few):
    t, u, how = chosen(S, family)
    pools(S, t)
    hole = gen.Hole(Spec(kinds=(NONE, INT, STR, LIST) if few else JSON, depth=0, lens=(0, 1), strlen=1))
    v = gen.data(S, 'v', t, gen.G((1,) if few else (0, 1, 2), 2, 1, hole, optional=True, ilens=(1,)))
    compared(S, family, v, (t, u), how, opts(S, family))


MADE = {}


def holder(kind, t):
    """a class with a field of the type"""
    import attr
    import dataclasses
    k = kind, repr(t)
    if k not in MADE:
        if kind == 'NamedTuple':
            c = typing.NamedTuple('HoldNT', [('x', t), ('y', int)])
        elif kind == 'dataclass':
            c = dataclasses.make_dataclass('HoldDC', [('x', t), ('y', int)])
        elif kind == 'attrs':
            c = attr.make_class('HoldAT', {'x': attr.ib(type=t), 'y': attr.ib(type=int)})
        else:
            c = typing.TypedDict('HoldTD', {'x': t, 'y': int})
        MADE[k] = c
    return MADE[k]


def h_in(S, family, few):
    """inside other types"""
    t, u, how = chosen(S, family)
    pools(S, t, ('x', 'y', 'k'))
    k = S.choose('where', ('list', 'dict', 'tuple', 'optional', 'NamedTuple', 'dataclass', 'attrs', 'TypedDict'))
    hole = gen.Hole(Spec(kinds=(NONE, INT, STR) if few else JSON, depth=0, lens=(0, 1), strlen=1))
    v = gen.data(S, 'v', t, gen.G((1,), 1, 1, hole, optional=False, ilens=(1,)))
    o, _ = options(S, None, False if few else None)
    if casual(family, v):
        return
    if k == 'list':
        w, ts = [v], [typing.List[x] for x in (t, u)]
    elif k == 'dict':
        w, ts = {'k': v}, [typing.Dict[str, x] for x in (t, u)]
    elif k == 'tuple':
        w, ts = [v, 1], [typing.Tuple[x, int] for x in (t, u)]
    elif k == 'optional':
        if family.startswith('new '):
            return
        w, ts = v, [typing.Optional[x] for x in (t, u)]
    else:
        w, ts = {'x': v, 'y': 1}, [holder(k, x) for x in (t, u)]
    rs = [attempt(loader(S, **o).load, w, x) for x in ts]
    for i, r in enumerate(rs):
        rec(S, 'load %d' % i, Out(r.ok, 0 if r.ok else r.error))
        if not r.ok:
            S.check(typed(S, r.error), 'untyped exception')
    a, b = rs
    S.check(a.kind() == b.kind(), lambda: '%s in a %s, written in the way %s: %s, %s' % (family, k, how, a.kind(), b.kind()))
    if a.ok and not (family in AMBIGUOUS and o['basiccast']):
        x, y = [r.value['x'] if k == 'TypedDict' else r.value.x if k in OBJECTS else r.value for r in rs]
        S.check(alike(x, y), lambda: '%s in a %s, written in the way %s: another result' % (family, k, how))


def h_mixed(S, family):
    """both ways of writing through one loader"""
    t, u, how = chosen(S, family)
    pools(S, t)
    v = gen.data(S, 'v', t, gen.G((1,), 1, 1, gen.Hole(Spec(kinds=(NONE, INT, STR), depth=0, strlen=1)), optional=False, ilens=(1,)))
    if casual(family, v):
        return
    if S.flag('swap'):
        t, u = u, t
    o, _ = options(S, None, False)
    l = loader(S, **o)
    first = S.choose('before', ('same', 'none', 'list'))
    attempt(l.load, {'same': v, 'none': None, 'list': []}[first], u)
    a, b = attempt(l.load, v, t), attempt(loader(S, **o).load, v, t)
    S.check(a.kind() == b.kind(), lambda: '%s after the way %s: %s, %s' % (family, how, a.kind(), b.kind()))
    S.check(not a.ok or family in AMBIGUOUS or alike(a.value, b.value), lambda: '%s after the way %s: another result' % (family, how))
