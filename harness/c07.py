"""C07: objects are built from exactly the fields present, defaults and required fields."""
from .loads import *
from .c05 import plainvalue

BOUNDS = dict(input=BOUND_TEXT + '; keys of every scalar kind', lengths='mappings of 0-2 (up to 3) arbitrary entries; well-formed mappings of up to 12 fields with arbitrary '
              'subsets of fields, one arbitrary value, arbitrary extra keys and several orders', classes='NamedTuple, dataclass (frozen, keyword-only, '
              'inherited, overridden), attrs, TypedDict (total, partial, NotRequired, inherited)', options='basiccast, failonextra symbolic')
CLASSES = ['NT', 'NTReq', 'NTDef', 'NTSub', 'NTSubVar', 'NTOpts', 'DCOpt', 'ATOpt', 'NTEmpty', 'DC', 'DCFrozen', 'DCSlots', 'DCSlotChild', 'ATSlots', 'ATChild', 'DCFact', 'DCKw', 'DCVar', 'ATVar', 'DCChild', 'Mid', 'MidChild', 'AT', 'ATDef', 'ATFact', 'TD', 'TDOpt', 'TDNot', 'TDKeys', 'NTWords',
           'TDMix', 'TDRev', 'QNT', 'QDC', 'QAT', 'QTD']
QUAD = ['QNT', 'QDC', 'QAT', 'QTD']


def tasks(tier):
    q = tier == 'quick'
    r = [('alike', 'h_alike', dict(deep=not q))]
    r += load_tasks(['WNT', 'WDC'], 'wide ', 'h_wide', full=not q)
    r += load_tasks(CLASSES + (['BNT'] if q else ['BNT', 'BDC', 'BAT', 'BTD']) + ['DCName', 'ATName', 'NTNest', 'DCNest', 'ATNest', 'TDNest'], 'fields ', 'h_subset', full=not q)
    r += load_tasks(CLASSES, 'any ', 'h_load', lens=(0, 1), dlens=(0, 1, 2) if q else (0, 1, 2, 3), keykinds=(STR, INT, NONE) if not q else (STR, INT), strlen=2,
                    depth=1)
    r += load_tasks(['NTNest', 'DCNest', 'ATNest', 'TDNest', 'Node', 'Tree', 'List[QDC]', 'Dict[str,ATFact]', 'Opt[QNT]', 'Tuple[QTD,int]'], 'shaped ', 'h_shaped',
                    lens=(1,), ilens=(1,), holedepth=1, cast=False if q else None)
    return r


def order(items, i):
    items = list(items)
    return [items, items[::-1], items[1:] + items[:1]][i]


def h_subset(S, schema, full):
    """any subset of the fields, an extra key, one arbitrary value, in several orders"""
    t = T(schema)
    pools(S, t)
    d, fs = [], [f for f in catalog.fields(t) if f.init]
    hole = S.choose('hole', range(len(fs) + 1))
    for i, f in enumerate(fs):
        if S.choose('with ' + f.name, (True, False)):
            if i == hole:
                d.append((f.ext('name') if spec.objkind(t) in ('dc', 'at') else f.name,
                          S.any('v', Spec(kinds=JSON, depth=1 if full else min(1, nest(f.type)), lens=(0, 1), strlen=2))))
            else:
                d.append((f.ext('name') if spec.objkind(t) in ('dc', 'at') else f.name, plainvalue(f.type, i)))
        elif i == hole:
            S.assume(False)
    v = dict(order(d, S.choose('order', range(3)) if len(d) > 1 else 0))
    if hole == len(fs):
        # an arbitrary extra key instead of an arbitrary value
        k = S.any('k', Spec(kinds=(STR, INT, NONE), depth=0, strlen=2))
        gen.distinct(S, v, k)
        e = S.choose('extra', (0, 'q', [1]))
        if S.choose('first', (False, True)):
            v = {k: e, **v}
        else:
            v[k] = e
    o, c = options(S, False if not full else None, None)
    l = loader(S, **o)
    if full and S.choose('used', (False, True)):
        attempt(l.load, {}, t)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_wide(S, schema, full):
    t = T(schema)
    pools(S, t)
    fs = catalog.fields(t)
    p = S.choose('position', range(len(fs)))
    what = S.choose('what', ('value', 'missing', 'minimal'))
    d = []
    for i, f in enumerate(fs):
        if i == p:
            if what != 'missing':
                d.append((f.name, S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=2))))
        elif f.required or what != 'minimal':
            d.append((f.name, plainvalue(f.type, i)))
    v = dict(order(d, S.choose('order', range(3))))
    o, c = options(S, False if not full else None, False)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_alike(S, deep):
    """the same data into the four kinds of object"""
    pools(S, T('QDC'))
    d = {}
    used = 0
    for n, e in (('a', 1), ('b', 'q'), ('c', None), ('d', [2])):
        i = S.choose(n, range(3 if used < (2 if deep else 1) else 2))
        if i == 0:
            d[n] = e
        elif i == 2:
            used += 1
            d[n] = S.any('v.' + n, Spec(kinds=JSON, depth=1 if n == 'd' else 0, lens=(0, 1), strlen=1 if not deep else 3))
    if S.choose('extra', (False, True)):
        d['z'] = 1
    o, c = options(S, None, None)
    res = [attempt(loader(S, **o).load, d, T(q)) for q in QUAD]
    for q, r in zip(QUAD, res):
        rec(S, q, r)
        S.check(r.ok == res[0].ok, lambda: '%s and %s differ in accepting the same data' % (q, QUAD[0]))
    if res[0].ok:
        for f in catalog.fields(T('QNT')):
            x = getattr(res[0].value, f.name)
            for q, r in zip(QUAD[1:], res[1:]):
                if q == 'QTD':
                    S.check((f.name in r.value) == (f.name in d), 'a TypedDict gained or lost a key')
                    if f.name not in d:
                        continue
                y = r.value[f.name] if q == 'QTD' else getattr(r.value, f.name)
                S.check(spec.same(x, y), lambda: 'field %s of %s and %s differ' % (f.name, q, QUAD[0]))
