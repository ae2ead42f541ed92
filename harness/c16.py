"""C16: reusing a loader or dumper never changes a result."""
from .loads import *
from .c05 import lengths
from .c13 import wide

BOUNDS = dict(input=BOUND_TEXT, histories='one earlier operation out of the listed ones (successes and failures of the same and of related types), or an arbitrary value loaded into '
              'the same type; in thorough two earlier operations; 40 operations with different types of one kind, with one of the own type before, among or after them, or the same operation 40 times; a class with the same name and field names as the type', last='an arbitrary value, or well-formed data with one arbitrary value, into every type of the family',
              options='basiccast, failonextra, uniondebugconflict, hidedefault, isodates symbolic or chosen')
J = {'t': 'a', 'v': 1}
LOAD = {
    'tags': (['Union[TagA,TagB]', 'Union[TagB,TagA]', 'Union[OvA,OvB]', 'Union[OvB,OvA]', 'Union[OvC,OvA,OvB]', 'Opt[Union[OvB,OvC]]', 'Union[DTagI,DTagJ]', 'List[Union[OvA,OvB]]', 'Union[OvA,None]'],
             [(J, 'Union[TagA,TagB]'), (J, 'Union[TagB,TagA]'), ({'t': 'b'}, 'Union[OvA,OvB]'), ({'t': 'b'}, 'Union[OvB,OvA]'), ({'t': 'b'}, 'OvB'), ({'t': []}, 'Union[OvB,OvA]'),
              ({}, 'Union[OvA,OvB]'), (3, 'Union[TagA,TagB]'), ({'t': 'b'}, 'Union[OvA,OvC,OvB]'), ({'t': 'b'}, 'Union[OvC,OvB,None]'), ({'t': 2}, 'Union[DTagJ,DTagI]'),
              ([{'t': 'b'}], 'List[Union[OvB,OvA]]'), ({'t': 'b'}, 'Opt[OvA]')]),
    'basic': (['int', 'bool', 'str', 'None', 'Union[int,str]', 'Union[str,int]', 'Union[float,None,bool]', 'Opt[float]', 'Any', 'NewInt'],
              [('x', 'int'), (1, 'int'), (1, 'bool'), (None, 'None'), ('a', 'Union[str,int]'), (1.5, 'Union[int,str]'), ([], 'int'), (1, 'Any'), (True, 'NewInt'), ([], 'Union[None,bool,float]'),
               (1, 'Opt[bool]'), (1, 'NONE')]),
    'items': (['List[int]', 'list[int]', 'Set[int]', 'FrozenSet[str]', 'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[int,int]', 'List[Union[int,str]]', 'List[Opt[int]]', 'List[List[int]]'],
              [([1], 'List[int]'), (['x'], 'List[int]'), (3, 'List[int]'), ([1], 'list[int]'), ([1], 'List[str]'), ((1,), 'Tuple[int,...]'), ((1, 2), 'Tuple[int,str]'), ((1,), 'Tuple[int,int]'),
               ([None], 'List[Opt[int]]'), ([['x']], 'List[List[int]]'), ([1], 'List[Union[str,int]]'), ({1}, 'Set[int]'), (['x'], 'FrozenSet[str]')]),
    'dicts': (['Dict[str,int]', 'dict[str,int]', 'Dict[int,float]', 'Dict[str,Opt[int]]', 'Dict[str,List[int]]', 'Dict[NewInt,bool]', 'Dict[Colour,LitMix]', 'Dict[str,Any]'],
              [({'a': 1}, 'Dict[str,int]'), ({'a': 'x'}, 'Dict[str,int]'), ({}, 'Dict[int,float]'), ([], 'Dict[str,int]'), ({'a': []}, 'Dict[str,Opt[int]]'), ({'a': [1]}, 'Dict[str,List[int]]'),
               ({'x': 1}, 'Dict[Colour,LitMix]'), (1, 'int'), ('a', 'str'), ({'a': 1}, 'dict[str,int]'), ({'1': 1}, 'Dict[NewInt,bool]'), ([1], 'List[int]'), ({1: 1}, 'Dict[Any,int]')]),
    'objects': (['DC', 'NT', 'AT', 'TD', 'DCName', 'ATName', 'DCChild', 'DCFact', 'TDNot', 'TDMix', 'TDRev', 'DCSwap', 'QNT', 'NTSub', 'MidChild', 'DCPost', 'DCKw', 'DCVar', 'ATFact'],
                [({'a': 1}, 'DC'), ({}, 'DC'), (1, 'DC'), ({'a': 1}, 'NT'), ({}, 'NT'), ({'a': 'x'}, 'AT'), ({'a': 1, 'b': 'x'}, 'TD'), ({'x': 1}, 'DCName'), ({'a': 1}, 'DCName'), ({'x': 1, 'b': 1}, 'DCName'),
                 ({'a': 1}, 'DCBase'), ({'a': 1}, 'DCChild'), ({}, 'DCFact'), ({'a': 1, 'b': 2}, 'DCSwap'), ({'a': 13}, 'DCPost'), ({'a': 1, 'z': 1}, 'QNT'), ({'x': 1}, 'ATName'),
                 ({'a': 5}, 'Mid'), ({'b': 5}, 'TDNot'), ({'a': 1}, 'TDBase')]),
    'nested': (['DCNest', 'NTNest', 'ATNest', 'TDNest', 'List[DC]', 'Dict[str,NT]', 'Opt[AT]', 'Union[NT,int]', 'DCNameNest', 'Tuple[DC,AT,TD]'],
               [({'n': {'a': 1}}, 'DCNest'), ({'n': {}}, 'DCNest'), ({'n': {'a': 1}, 'l': [{'a': []}]}, 'DCNest'), ({'n': {'a': 1}}, 'NTNest'), ({'a': 1}, 'DC'), ({'a': 1}, 'AT'), ([{'a': 1}], 'List[DC]'),
                ({'a': {}}, 'Dict[str,NT]'), (1, 'Union[NT,int]'), ({'a': 1}, 'NT'), ({'n': {}, 'l': []}, 'TDNest'), ({'two': {'a': 1, 'b': 2}}, 'DCNameNest')]),
    'choices': (['Colour', 'Num', 'INum', 'Mixed', 'StrInt', 'Pair', 'LitMix', 'LitFalse', 'LitBool', 'Lit1', 'Opt[Colour]', 'DCLit', 'Union[Colour,Num]'],
                [('r', 'Colour'), ('RED', 'Colour'), (1, 'Num'), ('1', 'StrInt'), ([1, 2], 'Pair'), ([9, 9], 'Pair'), (True, 'LitMix'), (0, 'LitFalse'), (True, 'LitBool'), (1, 'Lit1'), ([], 'Lit1'),
                 ({'l': 9}, 'DCLit'), (3, 'Union[Colour,Num]'), (1, 'Union[Num,Colour]')]),
    'special': (['date', 'time', 'datetime', 'timedelta', 'Pattern', 'PatternStr', 'PatternBytes', 'Path', 'IPv4', 'UUID', 'IPv6If'],
                [('2020-02-29', 'date'), ([2020, 2, 30], 'date'), ([1, 2], 'time'), ('x', 'datetime'), (1, 'timedelta'), ('(', 'Pattern'), ('a', 'PatternStr'), (b'a', 'PatternBytes'), ('/x', 'Path'),
                 ('1', 'IPv4'), ('10.0.0.1', 'IPv4'), ('z', 'UUID'), ('::1', 'IPv6')]),
    'recursive': (['Node', 'Tree', 'ANode', 'TDNode', 'MNode', 'List[Node]', 'Opt[Tree]', 'Dict[str,ANode]', 'Union[Node,int]', 'Other', 'Outer'],
                  [({'v': 1}, 'Node'), ({'v': 1, 'next': {'v': 2}}, 'Node'), ({'v': 1, 'next': {}}, 'Node'), ({}, 'Tree'), ({'v': 1, 'kids': [{'v': 2}]}, 'Tree'), ([{'v': 1}], 'List[Node]'),
                   ({'nodes': [{'v': 1}]}, 'Other'), ({'node': {'v': 1}}, 'Outer'), ({}, 'TDNode'), ({'m': {'a': {}}}, 'MNode'), (1, 'Union[Node,int]'), ({'v': 1}, 'ANode')]),
}


def tasks(tier):
    q = tier == 'quick'
    r = []
    for fam, (types, ops) in LOAD.items():
        for s in types:
            r.append(('after %s: %s' % (fam, s), 'h_after', dict(schema=s, family=fam, two=not q)))
            if depthof(T(s)) < 2:
                r.append(('again ' + s, 'h_again', dict(schema=s, full=not q)))
    for s in MANY + ([] if q else ['DCFact', 'QDC', 'DCNameNest']):
        r.append(('many ' + s, 'h_many', dict(schema=s, full=not q)))
    for s in MANYDUMPED:
        r.append(('many dumped ' + s, 'h_many_dumped', dict(schema=s)))
    for s in DUMPED:
        if q and s in ('WDC', 'DCMix', 'ATNest', 'List[Colour]', 'StrE', 'Num', 'time', 'datetime'):
            continue
        r.append(('dump ' + s, 'h_dumped', dict(schema=s, two=not q)))
    r.sort(key=lambda x: not ('many' in x[0] or 'recursive' in x[0] or 'nested' in x[0] or 'tags' in x[0]))
    return r


def compare(S, used, fresh, schema):
    rec(S, 'used', used)
    rec(S, 'fresh', fresh)
    S.check(used.kind() == fresh.kind(), lambda: '%s: a used loader gives %s, a fresh one %s' % (schema, used.kind(), fresh.kind()))
    if used.ok:
        S.check(spec.same(used.value, fresh.value), lambda: '%s: a used loader gives another result' % schema)


def arbitrary(S, t, quick):
    """any value where the type is flat, well-formed data with any value at one place where it is not"""
    n = depthof(t) if nest(t) else 0
    if n < 2:
        d = spec.objkind(t)
        if d or any(spec.objkind(a) for a in getattr(t, '__args__', ())):
            if not quick or S.choose('shaped', (True, False)):
                return gen.data(S, 'd', t, gen.G((1,), 1, 1, gen.Hole(Spec(kinds=(NONE, INT, STR) if quick else JSON, depth=0, lens=(0,), strlen=1)), optional=not quick))
            return S.any('v', Spec(kinds=JSON if not quick else (NONE, INT, STR, DICT), depth=1, lens=(0,), dlens=(0, 1), strlen=1, elem=Spec(kinds=(INT, STR), depth=0, strlen=1) if quick else None))
        return S.any('v', Spec(kinds=JSON, depth=n, lens=(0, 1), dlens=(0, 1), strlen=1 if quick else 2))
    return gen.data(S, 'd', t, gen.G((1,), 2 if n < 3 and not quick else 1, 1, gen.Hole(Spec(kinds=(STR, LIST) if quick else JSON, depth=0, lens=(0,), strlen=1)), optional=n < 3 and not quick))


def flags(S, family, full):
    o = dict(basiccast=S.flag('basiccast'))
    if full:
        o['failonextra'] = S.flag('failonextra')
        o['uniondebugconflict'] = S.flag('uniondebugconflict')
    return o


def h_after(S, schema, family, two):
    t = T(schema)
    pools(S, t)
    types, ops = LOAD[family]
    o = flags(S, family, two)
    used = loader(S, **o)
    for i in range(2 if two else 1):
        v, s = ops[S.choose('op%d' % i, range(len(ops)))]
        attempt(used.load, v, T(s))
    v = arbitrary(S, t, quick=not two)
    compare(S, attempt(used.load, v, t), attempt(loader(S, **o).load, v, t), schema)


def h_again(S, schema, full):
    """an arbitrary value was loaded into the same type before"""
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, None) if full else ({}, None)
    used = loader(S, **o)
    d = depthof(t) if nest(t) else 0
    w = S.any('w', Spec(kinds=JSON, depth=d, lens=(0, 1), dlens=(0, 1), strlen=1))
    v = S.any('v', Spec(kinds=JSON, depth=d, lens=(0, 1), dlens=(0, 1), strlen=2 if full else 1))
    attempt(used.load, w, t)
    compare(S, attempt(used.load, v, t), attempt(loader(S, **o).load, v, t), schema)


DUMPED = ['int', 'str', 'List[int]', 'List[Opt[int]]', 'List[Any]', 'Dict[str,int]', 'Dict[Colour,LitMix]', 'Tuple[int,str]', 'NT', 'DC', 'AT', 'TD', 'DCFact', 'ATFact', 'DCName', 'ATName',
          'DCNest', 'NTNest', 'ATNest', 'Colour', 'INum', 'StrE', 'Num', 'date', 'time', 'datetime', 'timedelta', 'Path', 'UUID', 'Pattern', 'Node', 'Tree', 'DCChild', 'HDCChild', 'MidChild', 'WDC',
          'List[DC]', 'List[Colour]', 'DCMix', 'Set[int]', 'QNT']


class Unknown:
    pass


class IntSub(int):
    pass


MANY = ['int', 'ATFact', 'NTDef', 'Union[int,str]', 'List[int]', 'Dict[str,int]', 'Tuple[int,str]', 'Colour', 'LitMix', 'NT', 'DC', 'DCName', 'AT', 'ATName', 'TD', 'TDNot', 'Union[TagA,TagB]', 'Union[DTag2A,DTag2B]', 'Union[NT,DC,str]', 'Node', 'DCNest', 'List[NT]', 'date']
MANYDUMPED = ['ATName', 'NTDef', 'HDCChild', 'NT', 'DC', 'DCName', 'AT', 'DCFact', 'ATFact', 'Colour', 'List[DC]', 'date', 'DCNest']
KINDS = ('nt', 'dc', 'at', 'td', 'tags', 'list', 'literal', 'enum')


RECURSIVE = (T('Node'),)


def earlier(S, t, use, one):
    """many operations with different types, or many times the same one; with one of the type itself before, after or in between"""
    c = t.__args__[0] if typing.get_origin(t) is list else t
    twins = catalog.sametitle(c) if catalog.objkind(c) and c not in RECURSIVE else ()
    kind = S.choose('kind', KINDS + ('same', 'twin') if twins else KINDS + ('same',))
    if kind == 'twin':
        use(S.choose('twin', twins))
        return
    n = S.choose('n', lengths((40,)))
    ops = [lambda x=x: use(x) for x in catalog.many(kind, n)] if kind != 'same' else [one] * n
    if kind != 'same':
        p = S.choose('own', (-1, 0, n))
        if p >= 0:
            ops.insert(p, one)
    for f in ops:
        f()


def h_many(S, schema, full):
    t = T(schema)
    pools(S, t)
    o = flags(S, None, full)
    used = loader(S, **o)
    good = S.choose('good', (True, False))
    d = ({'a': 1, 't': 'a', 'k': 1, 'v': 1, 'n': {'a': 1}, 'x': 1} if schema not in ('List[int]', 'List[NT]', 'Tuple[int,str]') else (1, 'x')) if good else []
    earlier(S, t, lambda x: attempt(used.load, x[1], x[0]), lambda: attempt(used.load, d, t))
    v = arbitrary(S, t, True)
    compare(S, attempt(used.load, v, t), attempt(loader(S, **o).load, v, t), schema)


def h_many_dumped(S, schema):
    t = T(schema)
    pools(S, t)
    o = dict(hidedefault=S.flag('hidedefault'))
    used = dumper(S, **o)
    v = gen.value(S, 'v', t, gen.G((1,), 1, 1, optional=False, ilens=(1,)))
    earlier(S, t, lambda x: attempt(used.dump, x[2]), lambda: attempt(used.dump, v))
    a, b = attempt(used.dump, v), attempt(dumper(S, **o).dump, v)
    rec(S, 'used', a)
    S.check(a.kind() == b.kind() and (not a.ok or spec.same(a.value, b.value)), lambda: '%s: a dumper that was used often gives %s' % (schema, a.kind()))


def dumpops():
    import datetime, pathlib
    c = catalog
    return [lambda: ((1,), {}), lambda: (('a',), {}), lambda: (([1],), {}), lambda: (([1], T('List[int]')), {}), lambda: (([c.DC(1)], T('List[DC]')), {}),
            lambda: (([c.Colour.RED], T('List[int]')), {}), lambda: ((Unknown(),), {}), lambda: (([Unknown()],), {}), lambda: ((IntSub(1),), {}), lambda: ((c.DC(1, 'y'),), {}),
            lambda: ((c.DC(1, Unknown()),), {}), lambda: ((c.DC(1), T('List[int]')), {}), lambda: ((c.DCBase(1),), {}), lambda: ((c.DCChild(1),), {}), lambda: ((c.Mid(),), {}),
            lambda: ((c.DCFact([1]),), {}), lambda: ((c.HDCChild([2]),), {}), lambda: ((c.HDCPlain(),), {}), lambda: ((c.NT(1),), {}), lambda: ((c.AT(1),), {}), lambda: ((c.ATFact([1]),), {}),
            lambda: ((c.DCName(1),), {}), lambda: ((c.ATName(1),), {}), lambda: ((c.Colour.RED,), {}), lambda: ((c.INum.ONE,), {}), lambda: ((c.StrE.A,), {}),
            lambda: ((datetime.date(2020, 1, 1),), {}), lambda: ((datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc),), {}), lambda: ((pathlib.Path('/x'),), {}),
            lambda: ((datetime.timedelta(1),), {}), lambda: (({'a': 1},), {}), lambda: (((1, 'a'), T('Tuple[int,...]')), {}), lambda: ((c.DCAny(1, [c.DC(1)], [2]),), {}),
            lambda: (([[1]], T('List[Any]')), {}), lambda: ((c.Tree(1, [c.Tree(2)]),), {}), lambda: ((True, int), {}), lambda: ((None,), {})]


OPS = dumpops()


def h_dumped(S, schema, two):
    t = T(schema)
    pools(S, t)
    o = dict(hidedefault=S.flag('hidedefault'), isodates=S.flag('isodates'), mangle_key=S.choose('mangle_key', ('name', 'alt')) if 'Name' in schema else 'name')
    used = dumper(S, **o)
    for i in range(2 if two else 1):
        a, k = OPS[S.choose('op%d' % i, range(len(OPS)))]()
        attempt(used.dump, *a, **k)
    if schema in ('WDC', 'DCMix'):
        v = wide(S, t, (True,))
    else:
        v = gen.value(S, 'v', t, gen.G((0, 1) if depthof(t) > 1 else (1,), 1, 1, optional=False, ilens=(1,)))
    args = (t,) if S.choose('annotated', (False, True)) else ()
    a, b = attempt(used.dump, v, *args), attempt(dumper(S, **o).dump, v, *args)
    rec(S, 'used', a)
    rec(S, 'fresh', b)
    S.check(a.kind() == b.kind(), lambda: '%s: a used dumper gives %s, a fresh one %s' % (schema, a.kind(), b.kind()))
    if a.ok:
        S.check(spec.same(a.value, b.value), lambda: '%s: a used dumper gives another result' % schema)
