"""C14: a dump consists only of basic values, lists and dictionaries, and is complete."""
import collections
from typing import List, Dict

from .loads import *
from .c13 import NAMES, wide

BOUNDS = dict(values='as C13; fields of type Any holding scalars, objects, enums, dates and containers of these; values without annotation and with the annotation of their type; instances of subclasses of list, tuple, set, frozenset, dict and of the declared class',
              options='hidedefault, isodates symbolic; mangle_key in name, alt', lengths='containers of 0-2 items, lists of 12 and 40')
ANY = ['Any', 'List[Any]', 'Dict[str,Any]', 'Tuple[Any,...]', 'DCAny', 'ATAny', 'NTAny', 'TDAny', 'ATRepr', 'DCInit', 'DCVar', 'ATVar', 'NTSub', 'DCPost', 'DCUnions', 'NTUnions', 'List[Union[int,NT]]', 'Opt[List[Union[int,date]]]',
       'Dict[Colour,int]', 'Dict[int,Colour]', 'DCMix', 'DCTup', 'DCCont', 'Tuple[int,Path]', 'Tuple[str,Colour,int]', 'Tuple[NT,int]',
       'Tuple[int,NT]', 'Dict[str,Path]', 'List[Tuple[int,Colour]]', 'Tuple[int,List[Colour]]', 'Tuple[float,timedelta]', 'Dict[int,Path]', 'Tuple[int,int]', 'Opt[Tuple[int,Path]]']


WIDE = ('WNT', 'WDC', 'DCAny', 'DCMix', 'DCCont', 'DCUnions')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in dict.fromkeys(ANY + NAMES):
        big = s in ('WNT', 'WDC', 'QNT', 'QDC', 'QAT', 'QTD', 'DCFact', 'Tree', 'MNode', 'Outer', 'ATNameNest', 'DCNameNest', 'DCNest', 'ATNest', 'List[Union[TagA,TagB]]', 'List[NT]', 'Tuple[DC,AT,TD]',
                    'DCMix', 'DCCont', 'DCTup', 'DCUnions', 'NTUnions')
        if s == 'Dict[Tuple[int,...],int]':
            continue
        r.append(('dump ' + s, 'h_dump', dict(schema=s, lens=(0, 1, 2) if not q or not big else (1,), ilens=(0, 1) if q else (0, 1, 2), optional=not (big and q) or s[0] == 'Q')))
    for s in ['List[int]', 'List[str]', 'Tuple[Any,...]', 'Set[int]', 'List[NT]', 'List[Opt[int]]', 'Dict[str,int]', 'Tuple[int,...]', 'List[Colour]']:
        r.append(('long ' + s, 'h_longdump', dict(schema=s)))
    r.append(('locals', 'h_local', {}))
    for n in SUBCLASSES:
        r.append(('kind ' + n, 'h_kind', dict(kind=n)))
    r.sort(key=lambda x: not x[0][5] in 'QWDA')
    return r


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


SUBCLASSES = {'list': MyList, 'tuple': MyTuple, 'set': MySet, 'frozenset': MyFrozen, 'dict': MyDict, 'OrderedDict': collections.OrderedDict,
              'defaultdict': lambda d: collections.defaultdict(int, d), 'Counter': collections.Counter, 'object': None}


def h_kind(S, kind):
    """instances of subclasses of the containers, and of subclasses of the declared class"""
    n = S.choose('n', (0, 1, 2))
    it = Spec(kinds=(INT,) if kind in ('set', 'frozenset', 'Counter') else (INT, STR, NONE), depth=0, strlen=1)
    items = []
    for i in range(n):
        x = S.any('v%d' % i, it)
        S.assume(kind not in ('set', 'frozenset') or x not in items)
        items.append(x)
    hide, depth = S.flag('hidedefault'), S.choose('within', ('top', 'list', 'dict', 'any', 'list field', 'dict field', 'typed'))
    if kind == 'object':
        v = catalog.DCNameChild(*[S.any('f%d' % i, Spec(kinds=(INT,), depth=0)) for i in range(2)])
        plainv = {'b': v.a, 'a': v.b} if hide else {'b': v.a, 'a': v.b, 'see': 'x'}
    elif 'ict' in kind or kind == 'Counter':
        plainv = dict(zip('ab', items))
        v = SUBCLASSES[kind](plainv)
    else:
        v = SUBCLASSES[kind](items)
        plainv = items
    whole, args, e = v, (), plainv
    if depth == 'list':
        whole, e = [v, 1], [plainv, 1]
    elif depth == 'dict':
        whole, e = {'k': v}, {'k': plainv}
    elif depth == 'any':
        whole, e = catalog.DCAny(1, [v]), {'a': 1, 'b': [plainv]}
    elif depth == 'list field':
        S.assume(kind not in ('object',) and type(plainv) is list)
        whole, e = catalog.DCFact(v), {}
        if n or not hide or not isinstance(v, list):
            e['a'] = plainv
    elif depth == 'dict field':
        S.assume(type(plainv) is dict)
        whole, e = catalog.HDict(v), {'d': plainv}
    elif depth == 'typed':
        args = (List[int] if type(plainv) is list else Dict[str, int] if kind != 'object' else catalog.DCSwap,)
    if hide and depth == 'any':
        pass
    elif depth == 'any':
        e['c'] = []
    r = attempt(dumper(S, hidedefault=hide).dump, whole, *args)
    # sets have no order
    S.record('dump', r.kind()) if kind in ('set', 'frozenset') else rec(S, 'dump', r)
    S.check(r.ok, lambda: 'dumping an instance of a subclass of %s failed with %s' % (kind, r.kind()))
    S.check(spec.plain(r.value), lambda: 'the dump of an instance of a subclass of %s holds something else than basic values, lists and dictionaries' % kind)
    if kind in ('set', 'frozenset') or depth == 'list field':
        if depth == 'list field':
            got = r.value.get('a', [])
        else:
            got = r.value if depth in ('top', 'typed') else r.value[0] if depth == 'list' else r.value['k'] if depth == 'dict' else r.value['b'][0]
        S.check(len(got) == len(items), 'items lost or added')
        for x in items:
            S.check(x in got, 'an item is missing')
    else:
        S.check(samedump(r.value, e), lambda: 'the dump of an instance of a subclass of %s is not complete' % kind)


def final(S, v, t, c, schema):
    outs = []
    for i, args in enumerate(((), (t,))):
        r = attempt(dumper(S, hidedefault=c.hide, isodates=c.iso, mangle_key=c.key).dump, v, *args)
        rec(S, 'dump%d' % i, r)
        S.check(r.ok, lambda: 'dumping %s failed with %s' % (schema, r.kind()))
        outs.append(r)
        S.check(spec.plain(r.value), lambda: 'the dump of %s holds something else than basic values, lists and dictionaries' % schema)
        S.check(spec.isdump(r.value, v, c), lambda: 'the dump of %s is not complete' % schema)
    S.check(samedump(outs[0].value, outs[1].value), lambda: 'the annotation changes the dump of ' + schema)


def samedump(a, b):
    """(the order of dictionary entries does not matter)"""
    if type(a) is dict and type(b) is dict:
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not samedump(a[k], b[k]):
                return False
        return True
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not samedump(x, y):
                return False
        return True
    return spec.same(a, b)


def h_dump(S, schema, lens, ilens, optional=True):
    t = T(schema)
    pools(S, t)
    c = spec.DCfg(S.flag('hidedefault'), S.flag('isodates'), S.choose('mangle_key', ('name', 'alt')) if 'Name' in schema or 'S' in schema[2:4] or 'Free' in schema else 'name')
    if schema in WIDE:
        v = wide(S, t, (True,) if schema != 'DCAny' else (False,), plain_any=False)
    else:
        v = gen.value(S, 'v', t, gen.G(lens, 2, 2, optional=optional, ilens=ilens, plain_any=False))
    final(S, v, t, c, schema)


def h_longdump(S, schema):
    from .c05 import lengths
    t = T(schema)
    n = S.choose('n', lengths((5, 12, 40)))
    p = S.choose('position', sorted({0, n // 2, n - 1} & set(range(n))))
    o = typing.get_origin(t)
    if o is dict:
        v = {}
        for i in range(n):
            v[('k_%d' % i) if i != p else S.any('k', Spec(kinds=(STR,), depth=0, strlen=2))] = i if i != p else S.any('v', Spec(kinds=(INT,), depth=0))
    else:
        et = t.__args__[0]
        items = [gen.fixed(et, i) for i in range(n)]
        if n:
            items[p] = gen.value(S, 'v', et, gen.G((1,), 1, 2, ilens=(1,), plain_any=False))
        v = o(items)
    if o is set and n > 1:
        S.record('set', v)
    final(S, v, t, spec.DCfg(S.flag('hidedefault'), S.flag('isodates')), schema)


def h_local(S):
    """classes whose annotations cannot be resolved"""
    i = Spec(kinds=(INT,), depth=0)
    v = catalog.Whole(catalog.Part(S.any('a', i)), [catalog.Part(S.any('b%d' % k, i)) for k in range(S.choose('n', (0, 1, 2)))])
    hide = S.flag('hidedefault')
    r = attempt(dumper(S, hidedefault=hide).dump, v)
    rec(S, 'dump', r)
    e = {'p': {'a': v.p.a} if not hide or v.p.a != 0 else {}}
    if v.l or not hide:
        e['l'] = [{'a': x.a} if not hide or x.a != 0 else {} for x in v.l]
    S.check(r.ok and samedump(r.value, e), lambda: 'the dump of a class of which the annotations cannot be resolved is wrong (%s)' % r.kind())
