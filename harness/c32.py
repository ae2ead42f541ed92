"""C32: the set of basic types can be changed."""
import typing

from .loads import *
from money import Money, Coin, NTMoney, DCMoney, ATMoney, TDMoney

def made(c):
    r = c.__new__(c)
    r.x = 0
    return r


HELD = (Fresh(lambda: made(Money)), Fresh(lambda: made(Coin)))
STD = {int, bool, float, str, type(None)}
PLACES = {
    'top': (Money, lambda v: v, lambda r: r), 'List': (typing.List[Money], lambda v: [v], lambda r: r[0]), 'Tuple': (typing.Tuple[Money, int], lambda v: [v, 1], lambda r: r[0]),
    'list': (list[Money], lambda v: [1, v], lambda r: r[1]), 'Set': (typing.Set[Money], lambda v: [v], lambda r: list(r)[0]), 'FrozenSet': (typing.FrozenSet[Money], lambda v: [v], lambda r: list(r)[0]),
    'Tuple...': (typing.Tuple[Money, ...], lambda v: [2, v], lambda r: r[1]), 'value': (typing.Dict[str, Money], lambda v: {'a': v}, lambda r: r['a']),
    'key': (typing.Dict[Money, int], lambda v: {v: 1}, lambda r: list(r)[0]), 'both': (typing.Dict[Money, Money], lambda v: {1: v}, lambda r: list(r.values())[0]),
    'optional': (typing.Optional[Money], lambda v: v, lambda r: r), 'union': (typing.Union[Money, typing.List[int]], lambda v: v, lambda r: r), 'list of optionals': (typing.List[typing.Optional[Money]], lambda v: [v], lambda r: r[0]),
    'list of unions': (typing.List[typing.Union[Money, None]], lambda v: [None, v], lambda r: r[1]), 'nested': (typing.List[typing.Dict[str, Money]], lambda v: [{}, {'a': v}], lambda r: r[1]['a']),
    'NamedTuple': (NTMoney, lambda v: {'m': v}, lambda r: r.m), 'dataclass': (DCMoney, lambda v: {'m': v}, lambda r: r.m), 'attrs': (ATMoney, lambda v: {'m': v}, lambda r: r.m),
    'TypedDict': (TDMoney, lambda v: {'m': v}, lambda r: r['m']), 'optional field': (DCMoney, lambda v: {'m': 0, 'n': v}, lambda r: r.n), 'list field': (ATMoney, lambda v: {'m': 0, 'n': [v]}, lambda r: r.n[0]),
    'NewType': (typing.NewType('NewMoney', Money), lambda v: v, lambda r: r), 'union of objects': (typing.Union[NTMoney, Money], lambda v: v, lambda r: r),
}
WAYS = ('argument', 'attribute', 'add')
REMOVED = {'int': ('int', 'List[int]', 'Dict[str,int]', 'Dict[int,str]', 'Tuple[int,str]', 'Tuple[int,...]', 'Set[int]', 'Opt[int]', 'NT', 'DC', 'AT', 'TD', 'NewInt', 'List[Opt[int]]', 'Dict[int,int]'),
           'float': ('float', 'List[float]', 'Dict[int,float]', 'Opt[float]', 'BNT', 'BDC'), 'str': ('str', 'List[str]', 'Dict[str,int]', 'Dict[int,str]', 'Opt[str]'), 'bool': ('bool', 'List[bool]', 'Dict[str,bool]', 'BAT', 'BTD')}
BOUNDS = dict(types='a class that keeps what it is given, made a basic type in %d ways; int, float, str, bool removed' % len(WAYS), places=', '.join(PLACES) + '; removed: ' + str(REMOVED),
              input='the value at the place: ' + BOUND_TEXT + '; instances of the class and of a subclass', errors='constructors that raise ValueError, TypeError, KeyError, OverflowError', options='basiccast, uniondebugconflict')
OUTSIDE = 'classes that other handlers take as well; ' + OUTSIDE


def tasks(tier):
    q = tier == 'quick'
    r = [('place ' + p, 'h_place', dict(place=p, full=not q)) for p in PLACES]
    r += [('removed %s: %s' % (b, s), 'h_removed', dict(basic=b, schema=s)) for b in REMOVED for s in REMOVED[b]]
    r += [('preferred', 'h_preferred', dict(full=not q)), ('dump', 'h_dump', dict(full=not q)), ('dump removed', 'h_dump_removed', {})]
    return r




def custom(S, side=loader, types=None, way=None, **o):
    types = STD | {Money} if types is None else types
    k = way or S.choose('way', WAYS)
    if k == 'argument':
        return side(S, basictypes=types, **o)
    l = side(S, **o)
    if k == 'attribute':
        l.basictypes = types
    else:
        for x in types - l.basictypes:
            l.basictypes.add(x)
        for x in l.basictypes - types:
            l.basictypes.discard(x)
    return l


def h_place(S, place, full):
    t, wrap, unwrap = PLACES[place]
    S.pool(('a', 'm', 'n'), ())
    Money.fails = None
    v = S.any('v', Spec(kinds=SCALAR + (LIST,) if place not in ('key',) else SCALAR, depth=1, lens=(0, 1), strlen=2 if full else 1, consts=HELD, elem=Spec(kinds=(INT, STR), depth=0, strlen=1)))
    o = dict(basiccast=S.flag('basiccast'))
    if full or place in ('union', 'optional', 'union of objects'):
        o['uniondebugconflict'] = S.flag('uniondebugconflict')
    l = custom(S, **o)
    error = S.choose('error', (None, ValueError, TypeError, KeyError) + ((OverflowError, ZeroDivisionError) if full else ()))
    w = wrap(v)
    Money.fails = error
    try:
        r = attempt(l.load, w, t)
    finally:
        Money.fails = None
    rec(S, 'load', Out(r.ok, 0 if r.ok else r.error))
    cast = o['basiccast']
    clash = o.get('uniondebugconflict') and place in ('union', 'union of objects')
    if not r.ok:
        S.check(typed(S, r.error), lambda: 'untyped exception ' + r.kind())
        if clash:
            return
        S.check(type(v) is not Money or others(place), 'refused a value of the requested type')
        S.check(not cast or error is not None, lambda: 'refused although the constructor accepts: ' + r.kind())
        return
    x = unwrap(r.value)
    if type(v) is Money:
        S.check(x is v, 'a value of the type was not returned as it is')
    elif 'optional' in place and spec.same(v, None) or place == 'list of unions' and spec.same(v, None):
        S.check(spec.same(x, None), 'None was converted')
    elif place == 'union' and type(x) is list:
        S.check(type(v) in (list, str), 'a list of nothing like it')
    elif type(v) is Coin and x is v:
        S.check(place not in ('top', 'optional', 'union'), 'kept an instance of a subclass')
    else:
        S.check(cast, 'converted without casting')
        S.check(error is None, 'the constructor refused')
        S.check(type(x) is Money and x.x is v or type(x) is Money and spec.same(x.x, v), 'another value than the constructor gives')


def others(place):
    """other values of the type are made on the way"""
    return place in ('optional field', 'list field', 'list', 'both', 'Tuple...')


def h_removed(S, basic, schema):
    """a type that is no longer basic is not supported"""
    t = T(schema)
    pools(S, t)
    b = T(basic)
    l = custom(S, types=STD - {b}, basiccast=S.flag('basiccast'))
    v = gen.data(S, 'v', t, gen.G((1,), 1, 1, gen.Hole(Spec(kinds=SCALAR, depth=0, strlen=1)), optional=True, ilens=(1,)))
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    S.check(r.ok or typed(S, r.error), 'untyped exception')
    if r.ok:
        S.check(not mentions(v, t, b), 'loaded into a type that is not supported')


def mentions(v, t, b):
    """does loading v into t need the type b?"""
    if t is b:
        return True
    if spec.isunion(t):
        return not spec.same(v, None)
    if hasattr(t, '__supertype__'):
        return mentions(v, t.__supertype__, b)
    if spec.objkind(t):
        return any([f.name in v and mentions(v[f.name], f.type, b) for f in catalog.fields(t)])
    a = t.__args__ if hasattr(t, '__args__') else ()
    if typing.get_origin(t) is dict:
        return len(v) > 0 and any([mentions(x, a[0], b) or mentions(v[x], a[1], b) for x in list(v)])
    if typing.get_origin(t) is tuple and a[-1] is not ...:
        return any([mentions(x, y, b) for x, y in zip(v, a)])
    if a:
        return any([mentions(x, a[0], b) for x in v])
    return False


def h_preferred(S, full):
    """in a union a basic type is kept, and used last"""
    u = S.choose('union', (typing.Union[Money, int, str], typing.Union[str, Money], Money | None | float, typing.Union[Money, typing.List[int]], typing.Union[NTMoney, Money, None], typing.Union[typing.Dict[str, int], Money]))
    S.pool(('m', 'n', 'a'), ())
    Money.fails = None
    v = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), dlens=(0, 1), strlen=1, consts=HELD, elem=Spec(kinds=(INT, STR), depth=0, strlen=1)))
    cast = S.flag('basiccast')
    r = attempt(custom(S, basiccast=cast).load, v, u)
    rec(S, 'load', Out(r.ok, 0 if r.ok else r.error))
    t = type(v)
    if t in u.__args__ and t in STD | {Money}:
        S.check(r.ok and (r.value is v or spec.same(r.value, v)), 'a basic value listed in the union was converted')
        return
    rest = [x for x in u.__args__ if x not in STD and x is not Money]
    alone = [attempt(custom(S, way='argument', basiccast=cast).load, v, x) for x in rest]
    if any([a.ok for a in alone]):
        S.check(r.ok and type(r.value) is not Money and type(r.value) is type([a for a in alone if a.ok][0].value), 'a basic type was used although another member accepts')
    elif cast:
        S.check(r.ok and type(r.value) in u.__args__, 'no basic type was used')
    else:
        S.check(not r.ok and typed(S, r.error), 'converted without casting')


def h_dump(S, full):
    Money.fails = None
    m = made(Money)
    c = made(Coin)
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    k, x, pick = S.choose('where', (('top', m, lambda d: d), ('list', [1, m], lambda d: d[1]), ('tuple', (m, v), lambda d: d[0]), ('value', {'a': m}, lambda d: d['a']), ('nt', NTMoney(m, v), lambda d: d['m']),
                                    ('dc', DCMoney(m, m), lambda d: d['n']), ('at', ATMoney(m, [m]), lambda d: d['n'][0]), ('td', {'m': m, 'n': v}, lambda d: d['m']), ('nested', [{'a': (m,)}], lambda d: d[0]['a'][0])))
    d = custom(S, dumper)
    r = attempt(d.dump, x)
    S.check(r.ok and pick(r.value) is m, 'a value of basic type was not dumped as it is')
    if k == 'nt':
        S.check('n' not in r.value and v == 3 or 'n' in r.value and spec.same(r.value['n'], v), 'other fields changed')
    t = {'list': typing.List[typing.Any], 'tuple': typing.Tuple[Money, typing.Any], 'dc': DCMoney, 'top': Money}.get(k)
    if t is not None:
        r2 = attempt(d.dump, x, t)
        S.check(r2.ok and pick(r2.value) is m, 'with an annotation: a value of basic type was not dumped as it is')
    ms = [m, m]
    r = attempt(d.dump, ms, typing.List[Money])
    S.check(r.ok and r.value is not ms and len(r.value) == 2 and all([y is m for y in r.value]), 'a list of a basic type')
    r = attempt(d.dump, c)
    S.check(not r.ok and typed(S, r.error), 'a subclass is not a basic type')
    r = attempt(dumper(S).dump, x)
    S.check(not r.ok and typed(S, r.error), 'another dumper treats it as a basic type')


def h_dump_removed(S):
    b = S.choose('type', (int, float, str, bool))
    d = custom(S, dumper, types=STD - {b})
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    k, x = S.choose('where', (('top', lambda v: v), ('list', lambda v: [v]), ('value', lambda v: {None: v}), ('tuple', lambda v: ((v,),)), ('annotated', lambda v: [v])))
    r = attempt(d.dump, x(v), typing.List[b]) if k == 'annotated' else attempt(d.dump, x(v))
    rec(S, 'dump', r)
    if type(v) is b:
        S.check(not r.ok and typed(S, r.error), 'dumped a type that is not supported')
    else:
        S.check(r.ok, 'a basic value was refused')
