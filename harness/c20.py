"""C20: handlers are tried in order and the first match is used everywhere."""
import dataclasses
import enum
import warnings

from .loads import *

BOUNDS = dict(lists='lists of 0-4 handlers, every outcome of every condition (false, true, falsy and truthy values, an error of 5 classes), raiseconditionerrors symbolic',
              positions='one or two handlers for a type inserted before, after and among the default ones; the type at the top and nested up to 2 deep in every container, union and kind of object; int and str as fields of every kind of object',
              input='well-formed data, and one arbitrary value (' + BOUND_TEXT + ') at an arbitrary position', lengths='containers of 0-2 items')
OUTSIDE = ('handlers that raise anything else than typedload exceptions (documented as misbehaving); dumper conditions that depend on more than the type of the value (documented as cached); basic types, and unions of them, '
           'inside containers; which exception comes out when a condition raises for a nested type; ' + OUTSIDE)
WHERE = {
    'DC': ['DC', 'List[DC]', 'Set[DC]', 'Dict[str,DC]', 'Tuple[DC,int]', 'Tuple[DC,...]', 'Opt[DC]', 'Union[DC,List[int]]', 'Union[DC,NT]', 'DCNest', 'NTNest', 'ATNest', 'TDNest', 'List[List[DC]]',
           'Dict[str,List[DC]]', 'Opt[List[DC]]', 'Tuple[DC,AT,TD]', 'FrozenSet[DC]'],
    'NT': ['NT', 'List[NT]', 'Dict[str,NT]', 'Union[DC,NT]', 'NTNest', 'Union[int,NT]'],
    'AT': ['AT', 'ATNest', 'Tuple[DC,AT,TD]', 'List[AT]'],
    'TD': ['TD', 'TDNest', 'List[TD]', 'Union[TD,int]'],
    'Colour': ['Colour', 'List[Colour]', 'Dict[Colour,int]', 'Dict[int,Colour]', 'DCMix1', 'Opt[Colour]', 'Tuple[Colour,int]'],
    'date': ['date', 'List[date]', 'Dict[str,date]', 'Opt[date]', 'Multi', 'Union[int,date]'],
    'Path': ['Path', 'Opt[Path]', 'Dict[Path,int]'],
    'LitA': ['LitA', 'List[LitA]', 'Dict[LitA,int]', 'DCLit', 'Opt[List[LitA]]'],
    'List[int]': ['List[int]', 'List[List[int]]', 'Dict[str,List[int]]', 'DCFact', 'ATFact', 'Tuple[List[int],str]', 'Union[int,List[int]]', 'NewList', 'Opt[List[int]]'],
    'Any': ['Any', 'List[Any]', 'Dict[str,Any]', 'TDAny', 'NTAny'],
    'NewInt': ['NewInt', 'List[NewInt]', 'Dict[NewInt,str]', 'Tuple[NewInt,int]', 'DCNew', 'Opt[NewInt]'],
    'Opt[int]': ['Opt[int]', 'Tuple[Opt[int],int]', 'NTOpt', 'Tuple[int,Opt[int]]'],
    'Node': ['Node', 'Opt[Node]', 'Other', 'List[Node]'],
    'Tree': ['Tree', 'List[Tree]'],
    'Tuple[int,str]': ['Tuple[int,str]', 'List[Tuple[int,str]]', 'Multi', 'Dict[str,Tuple[int,str]]'],
    'int': ['int', 'NewInt', 'DC', 'NT', 'AT', 'TD', 'List[NT]', 'DCNest'], 'str': ['str', 'DC', 'NT', 'AT', 'TD', 'Dict[int,DC]'], 'None': ['None'],
    'MyText': ['MyText', 'List[MyText]', 'Dict[str,MyText]', 'Opt[MyText]', 'Union[MyText,int]', 'Tuple[int,MyText]', 'DCText', 'NTText'],
}
VALUES = {
    'DC': ['DC', 'List[DC]', 'Dict[str,DC]', 'Tuple[DC,int]', 'Opt[DC]', 'DCNest', 'NTNest', 'ATNest', 'TDNest', 'Dict[str,List[DC]]', 'Union[DC,NT]'],
    'NT': ['NT', 'List[NT]', 'NTNest', 'Union[int,NT]'], 'AT': ['AT', 'ATNest', 'List[AT]'], 'Colour': ['Colour', 'List[Colour]', 'Dict[Colour,int]', 'DCMix1'],
    'date': ['date', 'List[date]', 'Dict[str,date]'], 'datetime': ['datetime', 'Opt[datetime]'], 'timedelta': ['timedelta', 'List[timedelta]'],
    'Tree': ['Tree', 'List[Tree]'], 'Pattern': ['Pattern', 'List[Pattern]'], 'IPv4': ['IPv4', 'Set[IPv4]'], 'int': ['int', 'NT', 'DC', 'AT', 'TD', 'List[NT]', 'DCNest'],
    'str': ['str', 'NT', 'DC', 'AT', 'ATNest'],
    'MyText': ['MyText', 'List[MyText]', 'Dict[str,MyText]', 'Opt[MyText]', 'Tuple[int,MyText]', 'DCText', 'NTText', 'Dict[MyText,int]'],
    'Path': ['Path', 'List[Path]', 'Dict[Path,int]', 'Set[Path]', 'DCTup', 'Dict[Path,Path]'], 'UUID': ['Dict[UUID,int]', 'Tuple[int,UUID]'],
}


def tasks(tier):
    q = tier == 'quick'
    r = [('loader list', 'h_list', dict(which='loader', most=3 if q else 4)), ('dumper list', 'h_list', dict(which='dumper', most=3 if q else 4))]
    for x, names in VALUES.items():
        for s in names:
            r.append(('dump %s in %s' % (x, s), 'h_dump', dict(x=x, schema=s, full=not q or s in names[:2] and s != 'List[timedelta]')))
    for s in ('DC', 'List[DC]', 'Tuple[DC,int]', 'Dict[str,DC]', 'Opt[DC]', 'Union[DC,NT]', 'DCNest', 'NewInt', 'Colour', 'List[Colour]', 'Union[Colour,int]'):
        x = 'NewInt' if s == 'NewInt' else 'Colour' if 'Colour' in s else 'DC'
        r.append(('raise in ' + s, 'h_raise', dict(x=x, schema=s)))
    for x, names in WHERE.items():
        for s in names:
            r.append(('load %s in %s' % (x, s), 'h_load', dict(x=x, schema=s, full=not q or s in names[:2], arbitrary=not q or not ('Nest' in s or s in ('Multi', 'DCLit', 'Tuple[DC,AT,TD]', 'Dict[DC,int]')))))
    return r


@dataclasses.dataclass(eq=False)
class Made:
    """what a custom handler makes"""
    n: int
    v: object

    def __eq__(self, o):
        return type(o) is Made and self.n == o.n and self.v == o.v

    def __hash__(self):
        return 7


class Handler:
    def __init__(self, n, fails):
        self.n, self.fails = n, fails

    def made(self, r, v):
        return type(r) is Made and r.n == self.n and spec.same(r.v, v)


# the basic types here are fields of objects, not items of containers
FIELDS = ('DC', 'NT', 'AT', 'TD', 'List[NT]', 'DCNest', 'ATNest', 'Dict[int,DC]')
CASTS = ('LitA', 'Opt[int]', 'NewInt', 'int', 'str', 'None', 'List[int]', 'Tuple[int,str]')
BASICTYPES = {int, bool, float, str, type(None)}


# ---------------------------------------------------------------- lists of handlers
class Odd:
    pass


RESULTS = (False, True, 0, 2, None, 'x', [], ValueError, KeyError, TypeError, AttributeError, ZeroDivisionError)
FEW = (False, True, None, 'x', ValueError, KeyError)


def h_list(S, which, most):
    n = S.choose('handlers', range(most + 1))
    raising = S.flag('raiseconditionerrors')
    errors = {}
    outcomes = {}
    arg = Odd if which == 'loader' else Odd()

    def condition(i):
        def c(x):
            S.check(x is arg, 'a condition gets something else than the type or value')
            if i not in outcomes:
                outcomes[i] = S.choose('condition%d' % i, RESULTS if most < 3 or i < 2 else FEW)
            o = outcomes[i]
            if isinstance(o, type):
                errors[i] = o('condition')
                raise errors[i]
            return o
        return c

    def handler(i):
        if which == 'loader':
            return lambda l, v, t: (i, v, t)
        if i == 1:
            return lambda d, v: (i, v)
        return lambda d, v, t: (i, v)

    # one function can be registered with several conditions
    shared = n > 1 and S.choose('shared', (False, True))
    one = handler(0)
    hs = [(condition(i), one if shared else handler(i)) for i in range(n)]
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    if which == 'loader':
        obj = loader(S, handlers=hs, raiseconditionerrors=raising)
        index, use, want = lambda: attempt(obj.index, Odd), lambda: attempt(obj.load, v, Odd), lambda i: (0 if shared else i, v, Odd)
    else:
        obj = dumper(S, handlers=hs, raiseconditionerrors=raising)
        index, use, want = lambda: attempt(obj.index, arg), lambda: attempt(obj.dump, arg), lambda i: (0 if shared else i, arg)
    direct = S.flag('use first')
    if direct:
        u = use()
        k = index()
    else:
        k = index()
        u = use()
    first, error = None, None
    for i in range(n):
        if i not in outcomes:
            break
        o = outcomes[i]
        if isinstance(o, type):
            if raising:
                error = i
                break
        elif o:
            first = i
            break
    else:
        i = n
    S.check(i >= n or first is not None or error is not None, 'a condition was not tried')
    S.record('index', (k.kind(), k.value if k.ok else None))
    S.record('use', u.kind())
    if error is not None:
        S.check(not k.ok and type(k.error) is outcomes[error], 'index does not pass on the error of a condition')
        S.check(not u.ok and type(u.error) is outcomes[error], 'load or dump does not pass on the error of a condition')
    elif first is None:
        S.check(not k.ok and isinstance(k.error, ValueError), 'index does not fail without matching condition')
        S.check(not u.ok and typed(S, u.error), 'no typedload exception without matching condition')
    else:
        S.check(k.ok and k.value == first, 'wrong index')
        S.check(u.ok and len(u.value) == len(want(first)) and u.value[0] == want(first)[0] and u.value[1] is want(first)[1], 'the first matching handler was not used')
        u = use()
        S.check(u.ok and u.value[0] == want(first)[0], 'another handler the second time')
        k = index()
        S.check(k.ok and k.value == first, 'another index the second time')


# ---------------------------------------------------------------- custom handlers among the default ones
def scan(handlers, x, raising=False):
    """index of the first handler whose condition holds"""
    for i in range(len(handlers)):
        try:
            m = handlers[i][0](x)
        except Exception:
            m = False
        if m:
            return i
    return None


def cond(S, kind, hit):
    if kind == 'raise':
        def c(x):
            if hit(x):
                raise KeyError('condition')
            return False
        return c
    if kind == 'raise after':
        def c(x):
            if not hit(x):
                raise ValueError('condition')
            return True
        return c
    return hit


def insert(S, handlers, n, hit, make, full, top):
    """puts a handler in a list"""
    k = S.choose('handler%d' % n, ('hit', 'raise', 'raise after') if top is not catalog.MyText else ('hit', 'raise after')) if full and n == 0 else 'hit'
    at = scan(handlers, top)
    size = len(handlers)
    places = (0, size) if at is None else (0, at, at + 1, size) if full else (at, size)
    p = S.choose('place%d' % n, sorted(set(places)))
    h = Handler(n, n == 0 and S.choose('fails%d' % n, (False, True)))
    f = make(h)
    f.sx_handler = h
    handlers.insert(p, (cond(S, k, hit), f))


def lookup(handlers, x):
    i = scan(handlers, x)
    if i is None:
        return None
    return getattr(handlers[i][1], 'sx_handler', None)


def small(S, schema, t, hole=None, optional=False):
    return gen.G((1,) if depthof(t) > 1 or t == T('List[Pattern]') else (0, 1, 2), 1, 1, hole, optional=optional, ilens=(1,))


def h_load(S, x, schema, full, arbitrary):
    t, X = T(schema), T(x)
    pools(S, t)
    l = loader(S, raiseconditionerrors=False, basiccast=S.choose('basiccast', (True, False)) if full and (x in CASTS or schema == x) else True)
    E = S.tl.exceptions.TypedloadValueError

    def make(h):
        def f(l, value, type_):
            if h.fails:
                raise E('handler', value=value, type_=type_)
            S.check(type_ is X or type_ == X, 'the handler gets another type')
            return Made(h.n, value)
        return f

    insert(S, l.handlers, 0, lambda y: y is X or y == X, make, full, X)
    if full and S.choose('two', (False, True)):
        insert(S, l.handlers, 1, lambda y: y is X or y == X, make, full, X)
    handlers = list(l.handlers)

    def over(y):
        if y in BASICTYPES and y is not t and schema != 'NewInt' and not (X in BASICTYPES and y is X and schema in FIELDS):
            return None
        return lookup(handlers, y)

    S.check(attempt(l.index, X).value == scan(handlers, X) if scan(handlers, X) is not None else not attempt(l.index, X).ok, 'wrong index')
    c = spec.Cfg(cast=l.basiccast, over=over)
    v = data(S, t, X, arbitrary)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)
    r = attempt(l.load, v, t)
    judge(S, v, t, c, r, schema)


def data(S, t, X, arbitrary):
    """well-formed data, or any value where the type X is"""
    h = gen.Hole(Spec(kinds=(NONE, INT, STR, DICT), depth=0, lens=(0,), strlen=1)) if arbitrary else None
    if X is catalog.MyText:
        return S.any('v', Spec(kinds=(NONE, INT, STR, LIST, DICT), depth=nest(t), lens=(1,) if nest(t) > 1 else (0, 1, 2), dlens=(1,), strlen=1))
    return gen.data(S, 'v', t, small(S, None, t, h))


def h_dump(S, x, schema, full):
    t, X = T(schema), T(x)
    X = catalog.resolve(X)
    pools(S, t)
    d = dumper(S, raiseconditionerrors=False, hidedefault=False, isodates=True)
    E = S.tl.exceptions.TypedloadValueError
    old = S.choose('old style', (False, True))

    def make(h):
        def f(d, value, type_):
            if h.fails:
                raise E('handler', value=value)
            return Made(h.n, value)
        return f if not old else lambda d, value: f(d, value, None)

    top = sample(S, x)
    X = type(top)
    hit = lambda y: type(y) is X
    insert(S, d.handlers, 0, hit, make, full, top)
    if full and S.choose('two', (False, True)):
        insert(S, d.handlers, 1, hit, make, full, top)
    handlers = list(d.handlers)

    def over(y):
        if type(y) in BASICTYPES and y is not v and not (X in BASICTYPES and schema in FIELDS):
            return None
        return lookup(handlers, y)

    S.check(attempt(d.index, top).value == scan(handlers, top) if scan(handlers, top) is not None else not attempt(d.index, top).ok, 'wrong index')
    v = gen.value(S, 'v', t, small(S, None, t))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = attempt(d.dump, v, *((t,) if S.choose('annotated', (False, True)) else ()))
    rec(S, 'dump', r)
    c = spec.DCfg(False, True, over=over)
    try:
        possible = dumpable(v, handlers, schema == 'TD')
    except Exception:
        possible = False
    if r.ok:
        S.check(possible, 'dumped although the handler fails')
        S.check(spec.isdump(r.value, v, c), 'the first matching handler was not used')
    else:
        S.check(not possible, lambda: 'not dumped (%s)' % r.kind())
        S.check(typed(S, r.error), 'no typedload exception')


def sample(S, x):
    if x == 'MyText':
        return catalog.MyText(1)
    return gen.fixed(T(x), 0)


def dumpable(v, handlers, basics=False):
    """does no handler fail? basics: also those for basic types in dictionaries"""
    if type(v) not in BASICTYPES:
        i = scan(handlers, v)
        if i is None:
            return False
        h = getattr(handlers[i][1], 'sx_handler', None)
        if h is not None:
            return not h.fails
    elif getattr(lookup(handlers, v), 'fails', False):
        return False
    if isinstance(v, enum.Enum):
        return True
    k = catalog.objkind(type(v))
    if k:
        return all([dumpable(getattr(v, f.name), handlers) for f in catalog.fields(type(v))])
    if type(v) in (list, tuple, set, frozenset):
        return all([dumpable(y, handlers) for y in v if type(y) not in BASICTYPES])
    if type(v) is dict:
        return all([dumpable(y, handlers) for kv in v.items() for y in kv if basics or type(y) not in BASICTYPES])
    return True


def h_raise(S, x, schema):
    """an error in a condition is not ignored when raiseconditionerrors is enabled"""
    t, X = T(schema), T(x)
    pools(S, t)
    l = loader(S, raiseconditionerrors=True)
    error = S.choose('error', (ValueError, KeyError, TypeError, RuntimeError))

    def c(y):
        if y is X or y == X:
            raise error('condition')
        return False
    l.handlers.insert(S.choose('place', (0, 3)), (c, lambda l, v, t: v))
    v = gen.data(S, 'v', t, gen.G((1,), 1, 1, members=None, optional=False, ilens=(1,)))
    S.assume(v is not None and (type(v) is not str or x == 'Colour'))
    if schema == 'Union[Colour,int]':
        S.assume(type(v) is not int)
    if schema == 'Union[DC,NT]':
        S.assume('s' not in v and 'z' not in v)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    S.check(not r.ok, 'the error of a condition was ignored')
    if t is X:
        S.check(type(r.error) is error, 'the error of a condition was not passed on')
