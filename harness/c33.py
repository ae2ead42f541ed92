"""C33: results do not depend on the order in which sets give their items."""
import typing

from .loads import *

LOAD = ['NT', 'NTDef', 'DC', 'DCFact', 'DCChild', 'DCVar', 'AT', 'ATDef', 'ATFact', 'TD', 'TDOpt', 'TDNot', 'TDMix', 'TDRev', 'DCName', 'DCSwap', 'DCSame', 'ATSame', 'DCShift', 'DCCamel', 'DCNameChild', 'DCNameRe', 'DCNameTaken', 'DCNameNest', 'ATName', 'ATSwap', 'ATShift', 'ATNameNest', 'NTNest', 'DCNest',
        'ATNest', 'TDNest', 'QNT', 'QDC', 'QAT', 'QTD', 'Outer', 'Node', 'Tree', 'ANode', 'TDNode', 'Dict[str,DC]', 'List[NT]', 'Opt[DC]', 'Colour', 'Mixed', 'Multi', 'HintMix', 'HintText', 'HintBoth', 'LitMix', 'Union[int,str]', 'Union[NT,DC,str]', 'Union[NT,List[int]]', 'Union[Num,Alias,str]', 'Union[Num,Alias,INum]', 'Union[List[int],List[Opt[int]],Tuple[int,...]]', 'Union[LitMix,Lit1,Num]', 'Union[DC,NT]', 'Union[date,datetime]', 'Union[Path,Pattern]', 'Union[NewInt,Num]',
        'List[Union[Num,Alias]]', 'Dict[str,Union[DC,NT]]',
        'List[Union[int,str]]', 'List[Union[int,str,None]]', 'DCLit']
TAGGED = ['Union[TagA,TagB]', 'Union[DTagA,DTagB]', 'Union[TDTagA,TDTagB]', 'Union[ATagA,ATagB]', 'Union[DTag2A,DTag2B]', 'Union[PTagA,PTagB]', 'Union[TagX,TagY]', 'Union[OvA,OvB,OvC]', 'Union[WideA,WideB,WideC]', 'Union[WideC,WideA,WideB]',
          'Opt[Union[WideA,WideB,WideC]]', 'List[Union[WideA,WideB,WideC]]', 'Union[WideA,WideD]', 'Union[WideB,WideC,WideD,NT]', 'Dict[str,Union[WideA,WideB]]']
DUMP = ['NT', 'NTDef', 'DC', 'DCFact', 'DCChild', 'AT', 'ATFact', 'TD', 'DCName', 'DCSwap', 'DCSame', 'ATSame', 'ATName', 'ATSwap', 'DCNest', 'ATNest', 'NTNest', 'QNT', 'QDC', 'QAT', 'QTD', 'Outer', 'Tree', 'DCNameChild', 'DCMix', 'Dict[str,DC]', 'List[NT]']
BOUNDS = dict(types='load: ' + ', '.join(LOAD + TAGGED) + '; dump: ' + ', '.join(DUMP), input=BOUND_TEXT + '; arbitrary, and well-formed with an arbitrary value at one position',
              orders='of every set of text, types, enum members or mixtures with them that the code iterates: all for up to 3 items, for more each item first and both directions', options='basiccast, failonextra, uniondebugconflict, hidedefault; histories of one load')
OUTSIDE = ('sets in the data and in the results; sets of numbers (their order does not vary); sets with members from the data (as for extra keys); the wording of messages; ' + OUTSIDE)
ASSUMPTIONS = ['every order of a set is possible in some run', 'sets of the same content have the same order in one run']

MANY = ('DCMix',)       # quick: too many
HEAVY = MANY + ('Outer', 'DCFact', 'Union[TagX,TagY]', 'Union[OvA,OvB,OvC]')


def tasks(tier):
    q = tier == 'quick'
    r = [('tagged ' + s, 'h_tagged', dict(schema=s, full=not q or s not in HEAVY)) for s in TAGGED]
    r += [('load ' + s, 'h_load', dict(schema=s, full=s not in (HEAVY if q else MANY), deep=not q and s not in HEAVY)) for s in LOAD if not q or s not in MANY]
    r += [('dump ' + s, 'h_dump', dict(schema=s, full=not q or s not in HEAVY)) for s in DUMP if not q or s not in MANY]
    r.sort(key=lambda x: x[0].split()[1] not in HEAVY)
    return r


def compared(S, schema, fixed, free):
    rec(S, 'reference', Out(fixed.ok, fixed.value if fixed.ok else None))
    rec(S, 'reordered', Out(free.ok, free.value if free.ok else None))
    S.check(fixed.kind() == free.kind(), lambda: '%s: %s, with another order of sets %s' % (schema, fixed.kind(), free.kind()))
    if fixed.ok:
        S.check(ordered_same(fixed.value, free.value), lambda: '%s: another result with another order of sets' % schema)
        return
    S.check(typed(S, free.error), 'untyped exception')
    a, b = [[(i.type_, i.annotation and i.annotation.annotation_type) for i in r.error.trace] for r in (fixed, free)]
    S.check(a == b, lambda: '%s: the error is elsewhere with another order of sets' % schema)


def ordered_same(a, b):
    """also dictionaries in the same order"""
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all([spec.same(x, y) and ordered_same(a[x], b[y]) for x, y in zip(list(a), list(b))])
    if type(a) in (list, tuple):
        return len(a) == len(b) and all([ordered_same(x, y) for x, y in zip(a, b)])
    return spec.same(a, b)


def opts(S, full):
    o, _ = options(S, None, None)
    if full:
        o['uniondebugconflict'] = S.flag('uniondebugconflict')
    return o


def h_load(S, schema, full, deep=False):
    t = T(schema)
    pools(S, t)
    o = opts(S, full)
    large = schema in ('DCFact', 'DCMix', 'Outer', 'QDC', 'QNT', 'QAT', 'QTD', 'DCLit') and not full or schema == 'DCMix'
    hole = gen.Hole(Spec(kinds=JSON if full else (STR, LIST), depth=1 if deep else 0, lens=(0, 1) if not large else (0,), dlens=(0, 1) if deep else (0,), strlen=1))
    v = gen.data(S, 'v', t, gen.G((1, 2) if deep else (1,), 1 if large else 2, 1, hole, optional=not large, ilens=(1,)))
    if type(v) is dict and S.flag('extra'):
        v['zz'] = 1
        v['yy'] = 2
    fixed = attempt(loader(S, **o).load, v, t)
    free = S.orders(lambda: attempt(loader(S, **o).load, v, t))
    compared(S, schema, fixed, free)


def h_tagged(S, schema, full):
    t = T(schema)
    pools(S, t, ('t', 'w', 'v', 'k'))
    o = opts(S, True) if full else dict(basiccast=S.flag('basiccast'), uniondebugconflict=S.flag('uniondebugconflict'))
    w = {}
    for k in ('t', 'w', 'k', 'v'):
        if S.choose('given ' + k, (True, False) if full or k in 'tw' and schema.startswith('Union') else (k != 'k' or 'Tag2' in schema,)):
            w[k] = 1 if k == 'v' and not full else S.any(k, Spec(kinds=(INT, STR) if not full else SCALAR, depth=0, strlen=1))
    v = [w] if schema.startswith('List') else {'k': w} if schema.startswith('Dict') else w
    fixed = attempt(loader(S, **o).load, v, t)
    free = S.orders(lambda: attempt(loader(S, **o).load, v, t))
    compared(S, schema, fixed, free)


def h_dump(S, schema, full):
    t = T(schema)
    pools(S, t)
    h = dict(hidedefault=S.flag('hidedefault'))
    x = gen.value(S, 'x', t, gen.G((0, 1) if full else (1,), 1, 1, optional=True, ilens=(1,)))
    fixed = attempt(dumper(S, **h).dump, x)
    free = S.orders(lambda: attempt(dumper(S, **h).dump, x))
    S.check(fixed.kind() == free.kind(), lambda: '%s: %s, with another order of sets %s' % (schema, fixed.kind(), free.kind()))
    S.check(not fixed.ok or ordered_same(fixed.value, free.value), lambda: '%s: another dump with another order of sets' % schema)
    if fixed.ok and t not in (T('DCMix'),):
        a = attempt(loader(S).load, fixed.value, t)
        b = S.orders(lambda: attempt(loader(S).load, fixed.value, t))
        compared(S, schema, a, b)
