"""C17: loading and dumping leave their inputs and the schema untouched."""
from .loads import *
from .c13 import wide

BOUNDS = dict(input='well-formed data with one arbitrary value (' + BOUND_TEXT + ') at an arbitrary position, nested up to 2 deep; typed values with symbolic leaves',
              lengths='containers of 0-2 items', operations='two loads (dumps) of the same value by the same loader (dumper), the first result changed in place everywhere in between',
              options='basiccast, failonextra, hidedefault, isodates symbolic; uniondebugconflict for unions; pep563 for objects')
LOADED = ['List[int]', 'List[Any]', 'List[List[int]]', 'List[Dict[str,int]]', 'Set[int]', 'FrozenSet[str]', 'Tuple[int,...]', 'Tuple[List[int],str]', 'Dict[str,int]', 'Dict[str,List[int]]',
          'Dict[str,Any]', 'Dict[str,Dict[int,str]]', 'Opt[List[int]]', 'Union[int,List[str]]', 'Union[Set[int],Dict[str,int]]', 'Union[TagA,TagB]', 'Union[DTagA,DTagB]', 'List[Union[TagA,TagB]]',
          'Union[OvA,OvB]', 'NT', 'NTDef', 'NTNest', 'QNT', 'DC', 'DCFact', 'DCChild', 'DCName', 'DCSwap', 'DCNest', 'DCNameNest', 'QDC', 'AT', 'ATFact', 'ATName', 'ATSwap', 'ATNest', 'QAT', 'TD',
          'TDOpt', 'TDNot', 'TDMix', 'TDNest', 'QTD', 'Colour', 'Pair', 'ListE', 'ObjEnum', 'Multi', 'LitMix', 'DCLit', 'date', 'datetime', 'Node', 'Tree', 'TDNode', 'MNode', 'Outer', 'NewList',
          'Tuple[DC,AT,TD]', 'Dict[str,NT]', 'Opt[TDNot]', 'ATAny', 'TDAny']
DUMPED = ['List[int]', 'List[Opt[int]]', 'List[List[int]]', 'Tuple[List[int],str]', 'Set[int]', 'Dict[str,int]', 'Dict[str,List[int]]', 'Dict[str,Dict[int,str]]', 'NTNest', 'QNT', 'DCFact', 'DCNest',
          'DCNameNest', 'QDC', 'ATFact', 'ATNest', 'ATName', 'QAT', 'TDNest', 'TDNot', 'QTD', 'ListE', 'Pair', 'List[ListE]', 'Node', 'Tree', 'MNode', 'TDNode', 'DCAny', 'ATAny', 'List[Any]', 'DCMix',
          'HDC', 'HAT', 'HNT', 'HDCChild', 'WDC', 'datetime', 'DCLit', 'Dict[Colour,LitMix]', 'List[Set[int]]', 'Any']


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in LOADED:
        r.append(('load ' + s, 'h_loaded', dict(schema=s, full=not q)))
    for s in DUMPED:
        r.append(('dump ' + s, 'h_dumped', dict(schema=s, full=not q)))
    r.append(('options', 'h_options', {}))
    r.sort(key=lambda x: not ('Nest' in x[0] or 'Q' in x[0] or 'Tup' in x[0] or 'H' in x[0] or 'DCMix' in x[0]))
    return r


def snap(x):
    """the structure of a value, by identity"""
    t = type(x)
    if t in (list, tuple):
        return (x, t, [snap(i) for i in x])
    if t is dict:
        return (x, t, [(k, snap(v)) for k, v in x.items()])
    if t in (set, frozenset):
        return (x, t, [(i, None) for i in x])
    if catalog.objkind(t):
        return (x, t, [(f.name, snap(getattr(x, f.name))) for f in catalog.fields(t)])
    return (x, t, None)


def kept(a, x):
    """is x what it was when the structure a was taken?"""
    o, t, inner = a
    if o is not x or type(x) is not t:
        return False
    if t in (list, tuple):
        if len(x) != len(inner):
            return False
        for i, j in zip(inner, x):
            if not kept(i, j):
                return False
    elif t is dict:
        if len(x) != len(inner):
            return False
        for (k, i), (l, j) in zip(inner, x.items()):
            if not (k is l or spec.same(k, l)) or not kept(i, j):
                return False
    elif t in (set, frozenset):
        if len(x) != len(inner):
            return False
        for i, _ in inner:
            if i not in x:
                return False
    elif inner is not None:
        for n, i in inner:
            if not kept(i, getattr(x, n)):
                return False
    return True


def boxes(x, r):
    """the mutable containers of data"""
    t = type(x)
    if t in (list, dict, set):
        r.append(x)
    if t in (list, tuple):
        for i in x:
            boxes(i, r)
    elif t is dict:
        for i in x.values():
            boxes(i, r)
    elif catalog.objkind(t):
        for f in catalog.fields(t):
            boxes(getattr(x, f.name), r)
    return r


def own(x, t, r):
    """the mutable containers of a loaded value that the loader has to make"""
    t = catalog.resolve(t)
    if t is typing.Any or typing.get_origin(t) is typing.Literal or isinstance(t, type) and issubclass(t, enum.Enum):
        return r
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    k = catalog.objkind(t)
    if spec.isunion(t):
        for a in args:
            if spec.conf(x, a):
                return own(x, a, r)
        return r
    if isinstance(t, typing.NewType):
        return own(x, t.__supertype__, r)
    if o in (list, set, frozenset, tuple):
        if o in (list, set):
            r.append(x)
        i = 0
        for y in x:
            own(y, args[0] if o is not tuple or args[1:] == (...,) else args[i], r)
            i += 1
    elif o is dict:
        r.append(x)
        for y in x.values():
            own(y, args[1], r)
    elif k:
        if k != 'td':
            r.append(x)
        else:
            r.append(x)
        for f in catalog.fields(t):
            if k == 'td':
                if f.name in x:
                    own(x[f.name], f.type, r)
            else:
                y = getattr(x, f.name)
                if not (f.has_default() and not f.factory and y is f.default):
                    own(y, f.type, r)
    return r


import enum


def shares(a, b):
    for x in a:
        for y in b:
            if x is y:
                return True
    return False


def spoil(bs):
    """changes every container"""
    for x in bs:
        t = type(x)
        if t is list:
            x.append('spoiled')
        elif t is dict:
            x['spoiled'] = 'spoiled'
        elif t is set:
            x.add('spoiled')


def h_loaded(S, schema, full):
    t = T(schema)
    pools(S, t)
    n = depthof(t)
    lens, ilens = ((0, 1, 2), (0, 1)) if full or n < 2 else ((1,), (1,))
    o = dict(basiccast=S.flag('basiccast'), failonextra=S.flag('failonextra'))
    if (spec.isunion(t) or 'Union' in schema) and S.choose('debug', (False, True)):
        o['uniondebugconflict'] = True
    if catalog.objkind(t) and S.choose('pep563', (False, True)):
        o['pep563'] = True
    h = gen.Hole(Spec(kinds=JSON if full else (INT, STR, LIST, DICT), depth=1, lens=(0, 1) if full else (1,), dlens=(0, 1) if full else (1,), strlen=1,
                      elem=Spec(kinds=(INT, STR, LIST), depth=0, lens=(0,), strlen=1)))
    S.check(catalog.definitions(t) == [], lambda: 'a definition is changed %s' % catalog.LAST)
    v = gen.data(S, 'v', t, gen.G(lens, 2 if n < 3 or full else 1, 1, h, optional=n < 2 or full, ilens=ilens))
    before = snap(v)
    inside = boxes(v, [])
    l = loader(S, **o)
    r = attempt(l.load, v, t)
    rec(S, 'first', r)
    S.check(kept(before, v), lambda: 'loading %s changed the data' % schema)
    bad = catalog.definitions(t)
    S.check(not bad, lambda: 'loading %s changed the definition of %s' % (schema, bad))
    if not r.ok:
        return
    made = own(r.value, t, [])
    S.check(not shares(made, inside), lambda: 'a loaded %s shares a container with the data' % schema)
    e = attempt(loader(S, **o).load, v, t)
    spoil(made)
    S.check(kept(before, v), lambda: 'changing a loaded %s changed the data' % schema)
    bad = catalog.definitions(t)
    S.check(not bad, lambda: 'changing a loaded %s changed the definition of %s' % (schema, bad))
    a = attempt(l.load, v, t)
    rec(S, 'again', a)
    S.check(a.ok and not shares(made, own(a.value, t, [])), lambda: 'two loaded values of %s share a container' % schema)
    S.check(spec.same(a.value, e.value), lambda: 'changing a loaded %s changed a later result' % schema)


def h_dumped(S, schema, full):
    t = T(schema)
    pools(S, t)
    c = spec.DCfg(S.flag('hidedefault'), S.flag('isodates'))
    S.check(catalog.definitions(t) == [], lambda: 'a definition is changed %s' % catalog.LAST)
    if schema in ('DCMix', 'WDC', 'HDC', 'HAT', 'HNT', 'DCAny'):
        v = wide(S, t, (True,) if schema[0] != 'H' else (False,), plain_any=False)
    else:
        n = depthof(t)
        v = gen.value(S, 'v', t, gen.G((0, 1, 2) if n < 2 or full else (1,), 2 if n < 3 or full else 1, 1, optional=True, ilens=(0, 1) if full else (1,), plain_any='Any' not in schema))
    before = snap(v)
    inside = boxes(v, [])
    if isinstance(v, enum.Enum):
        boxes(v.value, inside)
    for f in catalog.fields(t) if catalog.objkind(t) else ():
        if f.default is not catalog.REQUIRED:
            boxes(f.default, inside)
    d = dumper(S, hidedefault=c.hide, isodates=c.iso)
    args = (t,) if S.choose('annotated', (False, True)) else ()
    r = attempt(d.dump, v, *args)
    rec(S, 'first', r)
    S.check(r.ok, lambda: 'dumping %s failed with %s' % (schema, r.kind()))
    S.check(kept(before, v), lambda: 'dumping %s changed the value' % schema)
    bad = catalog.definitions(t)
    S.check(not bad, lambda: 'dumping %s changed the definition of %s' % (schema, bad))
    made = boxes(r.value, [])
    S.check(not shares(made, inside), lambda: 'the dump of %s shares a container with the value' % schema)
    e = attempt(dumper(S, hidedefault=c.hide, isodates=c.iso).dump, v, *args)
    spoil(made)
    S.check(kept(before, v), lambda: 'changing a dump of %s changed the value' % schema)
    bad = catalog.definitions(t)
    S.check(not bad, lambda: 'changing a dump of %s changed the definition of %s' % (schema, bad))
    a = attempt(d.dump, v, *args)
    rec(S, 'again', a)
    S.check(a.ok and not shares(made, boxes(a.value, [])), lambda: 'two dumps of %s share a container' % schema)
    S.check(spec.same(a.value, e.value), lambda: 'changing a dump of %s changed a later dump' % schema)


def h_options(S):
    """the collections given as options stay as they are"""
    import pathlib, uuid
    which = S.choose('what', range(3))
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    types = {uuid.UUID, catalog.MyText}
    old = set(types)
    if which == 0:
        kw = {'strconstructed': types, 'basiccast': False}
        r = attempt(S.tl.load, v, catalog.MyText, **kw)
        S.check(set(kw) == {'strconstructed', 'basiccast'}, 'the options changed')
    elif which == 1:
        kw = {'strconstructed': types, 'hidedefault': False}
        r = attempt(S.tl.dump, [v, catalog.MyText('z')], **kw)
        S.check(set(kw) == {'strconstructed', 'hidedefault'}, 'the options changed')
    else:
        l = loader(S)
        before = list(l.handlers)
        sc, bt = set(l.strconstructed), set(l.basictypes)
        r = attempt(l.load, {'a': v}, catalog.DC)
        S.check(len(before) == len(l.handlers), 'the handlers changed')
        S.check(sc == l.strconstructed and bt == l.basictypes, 'the sets of types changed')
    S.record('r', r.kind())
    S.check(types == old, 'the given set of types changed')
