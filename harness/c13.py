"""C13: dumping and loading back gives an equal value."""
from .loads import *

BOUNDS = dict(values='every value of the schema with symbolic scalar leaves (int |i| <= 2^53 and +-10^400, floats in quarters, nan, infinities, text of up to 2 characters '
              'and the constants of the schema), containers of 0-2 items, optional fields left at their default, symbolic date and time components over their whole range, '
              'durations of any number of microseconds up to about 127 years', options='hidedefault, isodates, failonextra, basiccast symbolic; mangle_key in name, alt', depth='recursion up to 2 (3 in thorough)')
NAMES = ['int', 'bool', 'float', 'str', 'None', 'List[int]', 'List[float]', 'Set[str]', 'FrozenSet[float]', 'Set[int]', 'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[float,bool,None]', 'Tuple[()]',
         'List[Opt[int]]', 'List[Union[int,str]]', 'List[List[int]]', 'List[Dict[str,int]]', 'List[NT]', 'Set[Tuple[int,...]]', 'Dict[str,int]', 'Dict[int,float]',
         'Dict[str,List[int]]', 'Dict[NewInt,bool]', 'Dict[Colour,LitMix]', 'Dict[INum,str]', 'Dict[LitMix,int]', 'Dict[bool,int]', 'Dict[float,str]', 'Dict[Opt[int],str]', 'Dict[timedelta,int]', 'Dict[Path,bool]', 'Dict[StrInt,int]', 'Dict[Mixed,int]', 'Opt[float]', 'Union[int,List[str]]', 'Union[Set[int],Dict[str,int]]', 'NT', 'NTReq', 'NTDef', 'NTSub', 'NTSubVar', 'NTOpts', 'DCOpt', 'ATOpt', 'HintMix', 'HintText', 'Dict[HintText,int]',
         'NTEmpty', 'DC', 'DCFrozen', 'DCSlots', 'DCSlotChild', 'ATSlots', 'ATChild', 'DCFact', 'DCKw', 'DCVar', 'ATVar', 'DCChild', 'MidChild', 'AT', 'ATFact', 'ATDef', 'TD', 'TDOpt', 'TDNot', 'TDKeys', 'NTWords', 'TDMix', 'TDRev', 'DCName', 'DCSwap', 'DCShift', 'DCCamel',
         'DCNameChild', 'DCNameRe', 'DCNameTaken', 'ATNameRe', 'DCNameNest', 'ATName', 'ATSwap', 'ATShift', 'ATNameNest', 'ATFree', 'NTNest', 'DCNest', 'ATNest', 'TDNest', 'Colour', 'INum', 'Mixed', 'Pair', 'StrInt',
         'Multi', 'FloatE', 'ListE', 'DCLit', 'Lit1', 'LitMix', 'LitFalse', 'Union[TagA,TagB]', 'Union[DTagA,DTagB]', 'Union[DTagI,DTagJ]', 'Union[ATagA,ATagB]',
         'Union[TDTagA,TDTagB]', 'Union[DTag2A,DTag2B]', 'List[Union[TagA,TagB]]', 'date', 'time', 'datetime', 'timedelta', 'List[date]', 'Dict[str,datetime]', 'Tuple[time,timedelta]',
         'Pattern', 'PatternStr', 'PatternBytes', 'Path', 'IPv4', 'IPv6', 'IPv4Net', 'IPv6Net', 'IPv4If', 'IPv6If', 'UUID', 'List[Path]', 'Dict[str,UUID]', 'NewInt', 'NewList', 'Node',
         'Tree', 'ANode', 'TDNode', 'MNode', 'Outer', 'QNT', 'QDC', 'QAT', 'QTD', 'Dict[Tuple[int,...],int]', 'Set[Colour]', 'FrozenSet[Colour]', 'Dict[str,Union[NT,int]]', 'DCTup', 'DCCont', 'DCEmptyName', 'ATEmptyName',
         'Tuple[NT,Dict[str,float]]', 'Dict[str,Dict[int,str]]', 'Tuple[DC,AT,TD]', 'WNT', 'WDC']
MICRO = ['timedelta', 'List[timedelta]', 'Tuple[time,timedelta]', 'Opt[timedelta]', 'Dict[str,timedelta]']
NOKEY = ('Dict[Tuple[int,...],int]',)


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in NAMES:
        if s in NOKEY:
            continue
        big = s in ('DCCont', 'DCTup', 'WNT', 'WDC', 'QNT', 'QDC', 'QAT', 'QTD', 'DCFact', 'Tree', 'MNode', 'Outer', 'ATNameNest', 'DCNameNest', 'DCNest', 'ATNest', 'List[Union[TagA,TagB]]', 'List[NT]', 'Tuple[DC,AT,TD]')
        r.append(('trip ' + s, 'h_trip', dict(schema=s, lens=(0, 1, 2) if not q or not big else (1,), ilens=(0, 1) if q else (0, 1, 2), fuel=2 if q else 3,
                                              optional=not (big and q) or s[0] == 'Q')))
    for s in MICRO:
        r.append(('micro ' + s, 'h_trip', dict(schema=s, lens=(0, 1, 2), ilens=(0, 1), fuel=1, micro=True)))
    r.sort(key=lambda x: not x[0][5] in 'QWDA')
    return r


def h_trip(S, schema, lens, ilens, fuel, optional=True, micro=False):
    t = T(schema)
    if micro:
        S.resolution(10 ** 6)
    pools(S, t)
    key = S.choose('mangle_key', ('name', 'alt')) if 'Name' in schema or 'S' in schema[2:4] or 'Free' in schema else 'name'
    if schema in ('WNT', 'WDC', 'DCCont'):
        v = wide(S, t, lens=lens if schema == 'DCCont' else (0, 1, 2))
    else:
        g = gen.G(lens, fuel, 2, optional=optional, ilens=ilens)
        g.micro = micro
        v = gen.value(S, 'v', t, g)
    d = attempt(dumper(S, hidedefault=S.flag('hidedefault'), isodates=S.flag('isodates'), mangle_key=key).dump, v)
    rec(S, 'dump', d)
    S.check(d.ok, lambda: 'dumping %s failed with %s' % (schema, d.kind()))
    r = attempt(loader(S, failonextra=S.flag('failonextra'), basiccast=S.flag('basiccast'), mangle_key=key).load, d.value, t)
    rec(S, 'load', r)
    S.check(r.ok, lambda: 'the dump of %s could not be loaded (%s)' % (schema, r.kind()))
    S.check(spec.same(r.value, v), lambda: 'the value of type %s changed' % schema)


def wide(S, t, others=(True, False), lens=(0, 1, 2), **g):
    """an object of many fields, one of them arbitrary, the others at or off their defaults"""
    fs = catalog.fields(t)
    p = S.choose('position', range(len(fs)))
    off = S.choose('others', others) if len(others) > 1 else others[0]
    kw = {}
    for i, f in enumerate(fs):
        if i == p:
            kw[f.name] = gen.value(S, 'v', f.type, gen.G(lens, 1, 2, optional=False, ilens=(1,), **g))
        elif f.required or off:
            kw[f.name] = gen.fixed(f.type, i)
    return t(**kw)
