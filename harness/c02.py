"""C02: a failed load raises a typedload exception, whatever the input is."""
from .loads import *

BOUNDS = dict(input=BOUND_TEXT + '; plus tuples, sets, Namespaces and %d unusual objects (bytes, generators, views, mapping '
              'proxies, huge integers, classes, decimals, ...) at the top and at one arbitrary position' % len(ODD),
              keys='dictionary keys of any scalar kind', lengths='0-1', options='basiccast, failonextra, uniondebugconflict symbolic')

NAMES = ['int', 'bool', 'float', 'str', 'None', 'Any', 'List[int]', 'List[Any]', 'Set[str]', 'Set[Any]', 'FrozenSet[float]',
         'Set[List[int]]', 'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[Any]', 'List[Union[int,str]]', 'Set[Opt[int]]', 'Dict[int,Any]',
         'Dict[Colour,int]', 'Dict[List[int],int]', 'Opt[float]',
         'Union[int,List[str]]', 'Union[NT,DC,str]', 'Union[Set[int],Dict[str,int]]', 'NT', 'NTEmpty', 'DC',
         'DCPost', 'DCKw', 'DCVar', 'NTSub', 'AT', 'ATValid', 'TD', 'TDOpt', 'TDNot', 'Colour', 'INum', 'Mixed', 'Pair', 'StrInt',
         'LitMix', 'Union[TagA,TagB]', 'Union[DTagA,DTagI]', 'Union[ATagA,ATagB]', 'Union[TDTagA,TDTagB]', 'date', 'time', 'datetime', 'timedelta', 'Pattern',
         'PatternStr', 'PatternBytes', 'Path', 'IPv4', 'IPv6', 'IPv4Net', 'IPv6Net', 'IPv4If', 'IPv6If', 'UUID', 'NewInt', 'NewList', 'Node',
         'TDNode', 'Set[Colour]', 'List[date]', 'Set[DC]', 'Set[NT]']
HEAVY = ['Dict[str,Set[List[int]]]', 'Dict[Tuple[Any,...],int]', 'Dict[Any,int]', 'Dict[str,int]', 'MNode', 'ATName', 'DCName']
SHAPED = ['DCFact', 'List[NT]', 'Dict[str,DC]', 'NTNest', 'DCNest', 'ATNest', 'TDNest', 'Node', 'Tree', 'MNode',
          'List[List[Opt[int]]]', 'Dict[str,Dict[int,str]]', 'List[Union[NT,List[int],str]]', 'Tuple[NT,Dict[str,float]]',
          'List[Union[TagA,TagB]]', 'List[Set[Union[int,str]]]', 'List[Opt[Set[int]]]', 'Dict[str,List[Colour]]',
          'List[DCPost]', 'Dict[str,ATValid]', 'List[Union[DTagA,DTagB]]', 'Dict[LitA,Tuple[int,str]]', 'List[UUID]',
          'Dict[str,Pattern]', 'List[timedelta]', 'Dict[Colour,Mixed]']


def tasks(tier):
    if tier == 'quick':
        return (load_tasks(SHAPED, 'shaped ', 'h_weirdhole')
                + load_tasks(HEAVY, 'any ', 'h_weird', dlens=(0, 1), keykinds=(STR, INT))
                + load_tasks(NAMES, 'any ', 'h_weird', dlens=(0, 1)))
    return (load_tasks(HEAVY, 'any ', 'h_weird') + load_tasks(NAMES, 'any ', 'h_weird', lens=(0, 1, 2), deep=True)
            + load_tasks(SHAPED, 'shaped ', 'h_weirdhole', lens=(1, 2), optional=True))


def final(S, r, schema):
    rec(S, 'load', r)
    if r.ok:
        S.check(True, '')
    else:
        S.check(typed(S, r.error), lambda: 'loading into %s raised %s' % (schema, r.kind()))


def h_weird(S, schema, lens=(0, 1), dlens=None, keykinds=KEYKINDS, deep=False):
    t = T(schema)
    pools(S, t, ('keys', 'items', 'get'), (13, 14))
    d = depthof(t)
    child = Spec(kinds=JSON, depth=d - 1, lens=(0, 1), keykinds=keykinds, strlen=2, consts=ODD[:4] if deep else ())
    v = S.any('v', Spec(kinds=ALLKINDS, depth=d, lens=lens, dlens=dlens or ((0, 1, 2) if nest(t) and not spec.isunion(t) else (0, 1)), strlen=3,
                        keykinds=keykinds, consts=ODD, elem=child))
    l = loader(S, basiccast=S.flag('basiccast'), failonextra=S.flag('failonextra'), uniondebugconflict=S.flag('conflict'))
    final(S, attempt(l.load, v, t), schema)


def h_weirdhole(S, schema, lens=(1,), optional=False):
    t = T(schema)
    pools(S, t, (), (13, 14))
    h = gen.Hole(Spec(kinds=ALLKINDS, depth=1, lens=(0, 1), strlen=3, keykinds=KEYKINDS, consts=ODD,
                      elem=Spec(kinds=JSON, depth=0, strlen=2)))
    v = gen.data(S, 'v', t, gen.G(lens, 2, 2, h, optional=optional, ilens=(1,)))
    l = loader(S, basiccast=S.flag('basiccast'), failonextra=S.flag('failonextra'), uniondebugconflict=S.flag('conflict'))
    final(S, attempt(l.load, v, t), schema)
