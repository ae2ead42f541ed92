"""C05: lists, sets and tuples are loaded item by item."""
from .loads import *
import srcconsts

BOUNDS = dict(input=BOUND_TEXT, lengths='0-3 with arbitrary items; 5-40 (and lengths next to every number new in the source) with one arbitrary '
              'item at an arbitrary position among well-formed ones; fixed tuples: data of 0 to size+2 items',
              iterables='list, tuple, set, generator, iterator, deque, dictionary views, an iterable class', options='basiccast, failonextra symbolic')

VAR = ['List[%s]', 'Tuple[%s,...]', 'Set[%s]', 'FrozenSet[%s]', 'list[%s]', 'tuple[%s,...]', 'set[%s]', 'frozenset[%s]']
ITEMS = ['int', 'str', 'float', 'bool', 'Any', 'Opt[int]', 'Union[int,str]', 'int|str|None', 'Union[float,Tuple[int,...]]', 'NT', 'Colour',
         'LitMix', 'NewInt', 'date', 'Tuple[int,...]', 'Tuple[int,str]']
LISTITEMS = ['List[int]', 'Dict[str,int]', 'DC', 'TD', 'Union[int,List[str]]', 'List[Union[int,str]]', 'Set[int]', 'Union[TagA,TagB]', 'AT']
FIXED = ['Tuple[int]', 'Tuple[int,str]', 'Tuple[str,int]', 'Tuple[Any,int]', 'Tuple[Opt[int],Union[int,str]]', 'Tuple[int,int,int]', 'tuple[float,bool]',
         'Tuple[List[int],int]', 'Tuple[NT,int]', 'Tuple[int,Tuple[int,str]]', 'Tuple[str,str,str,str]', 'Tuple[LitA,Colour]', 'Tuple[()]', 'Tuple[None,bool]',
         'Tuple[DC,TD]', 'Tuple[int,Opt[str]]', 'Tuple[int,Any]', 'Tuple[int,float,int,float]']


def hashable(item):
    return item not in LISTITEMS


def tasks(tier):
    q = tier == 'quick'
    r = []
    for i, it in enumerate(ITEMS + LISTITEMS):
        vs = VAR if hashable(it) else [v for v in VAR if 'et' not in v]
        if q:
            # every kind of container, and every item type, though not every combination
            vs = [vs[(i + j) % len(vs)] for j in (0, 3 if len(vs) == 8 else 1)] if i > 1 else vs
        for v in vs:
            s = v % it
            big = nest(T(s)) > 1
            simple = it in ('int', 'str', 'Union[int,str]', 'Opt[int]')
            r.append(('items ' + s, 'h_load', dict(schema=s, lens=(0, 1) if big and q else (0, 1, 2, 3) if simple and not q else (0, 1, 2),
                                                   kinds=JSON + (TUPLE, SET))))
            if simple or not big or not q:
                r.append(('wrapped ' + s, 'h_wrapped', dict(schema=s, lens=(0, 1, 2) if not big and not q else (2,) if simple else (1,))))
    for s in FIXED:
        n = len(T(s).__args__)
        big = nest(T(s)) > 1
        r.append(('fixed ' + s, 'h_fixed', dict(schema=s, lens=tuple(range(n + 3)), free=(2 if not q else 1) if n > 2 or big else 2, depth=1 if big else 0)))
    for s in ['List[int]', 'Tuple[str,...]', 'Set[int]', 'FrozenSet[str]', 'List[NT]', 'List[Union[int,str]]', 'Tuple[Opt[int],...]',
              'List[float]', 'List[List[int]]', 'List[Any]', 'List[Colour]', 'Set[Union[int,str]]', 'List[bool]', 'Tuple[NewInt,...]',
              'List[Union[NT,int]]', 'List[Opt[DC]]']:
        r.append(('long ' + s, 'h_long', dict(schema=s, lens=(5, 17, 40) if q else (4, 8, 16, 17, 33, 65, 129))))
    return r


WRAP = 9


class Iterable:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def wrap(items, i):
    return (lambda: list(items), lambda: tuple(items), lambda: (x for x in items), lambda: iter(items),
            lambda: collections.deque(items), lambda: Iterable(items), lambda: {n: x for n, x in enumerate(items)}.values(),
            lambda: MyList(items), lambda: map(lambda x: x, items))[i]()


def h_wrapped(S, schema, lens):
    """any iterable will do"""
    t = T(schema)
    pools(S, t)
    n = S.choose('n', lens)
    d = depthof(t) - 1
    items = [S.any('v%d' % i, Spec(kinds=JSON, depth=d, lens=(0, 1), strlen=2)) for i in range(n)]
    w = wrap(items, S.choose('wrapper', range(WRAP)))
    o, c = options(S, None, False)
    r = attempt(loader(S, **o).load, w, t)
    rec(S, 'load', r)
    judge(S, items, t, c, r, schema)


def h_fixed(S, schema, lens, free, depth):
    """position i is loaded into the i-th type"""
    t = T(schema)
    pools(S, t)
    n = S.choose('n', lens)
    first = S.choose('first', range(max(1, n - free + 1)))
    items = []
    for i in range(n):
        if first <= i < first + free:
            items.append(S.any('v%d' % i, Spec(kinds=JSON, depth=depth, lens=(0, 1, 2), dlens=(0, 1), strlen=2)))
        elif i < len(t.__args__):
            items.append(plainvalue(t.__args__[i], i))
        else:
            items.append('surplus')
    v = (list, tuple)[S.choose('kind', range(2))](items)
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def plainvalue(t, i):
    """some well-formed data for a type, never equal to a symbolic value"""
    t = catalog.resolve(t)
    if spec.isbasic(t):
        return {int: 2 ** 60 + i, str: 's_%d' % i, float: 2.0 ** 45 + i + 0.5, bool: i % 2 == 0, catalog.NoneType: None}[t]
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    if t is typing.Any:
        return ['any', i]
    if spec.isunion(t):
        return plainvalue(args[i % len(args)], i)
    if o is typing.Literal:
        return args[i % len(args)]
    if o in (list, set, frozenset) or o is tuple and len(args) == 2 and args[1] is ...:
        return [plainvalue(args[0], i)]
    if o is tuple:
        return [plainvalue(a, i) for a in args]
    if o is dict:
        return {plainvalue(args[0], i): plainvalue(args[1], i)}
    if spec.objkind(t):
        return {f.name: plainvalue(f.type, i) for f in catalog.fields(t) if f.init and (f.required or i % 2)}
    if isinstance(t, typing.NewType):
        return plainvalue(t.__supertype__, i)
    return list(t)[i % len(list(t))].value


def lengths(base):
    """the lengths to try: the given ones and those around numbers that are new in the source"""
    return list(base) + [n for n in srcconsts.NEW_LEN if n not in base]


def h_long(S, schema, lens):
    t = T(schema)
    pools(S, t)
    n = S.choose('n', lengths(lens))
    items = [plainvalue(t.__args__[0], i) for i in range(n)]
    if n:
        p = S.choose('position', sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))) if n > 12 else range(n))
        items[p] = S.any('v', Spec(kinds=JSON, depth=max(0, depthof(t) - 1), lens=(0, 1), strlen=2))
    v = (list, tuple, iter)[S.choose('kind', range(3))](items)
    o, c = options(S, None, False)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, items, t, c, r, schema)
