"""C01: a successful load conforms to its type."""
from .loads import *

BOUNDS = dict(input=BOUND_TEXT, lengths='0-2 (0-1 in large schemas); depth: that of the schema',
              options='basiccast, failonextra, uniondebugconflict symbolic')

SMALL = ['int', 'bool', 'float', 'str', 'None', 'Any', 'List[int]', 'List[float]', 'Set[str]', 'FrozenSet[float]',
         'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[float]', 'List[Any]', 'Tuple[Any,...]', 'Set[Any]', 'Tuple[Any,int]', 'Dict[str,Any]', 'TDAny', 'List[Opt[int]]', 'List[Union[int,str]]',
         'Set[Union[float,str]]', 'Tuple[bool|None,...]', 'Dict[str,int]', 'Dict[int,float]', 'Dict[NewInt,bool]',
         'Opt[float]', 'Union[int,List[str]]', 'Union[NT,DC,str]', 'Union[Set[int],Dict[str,int]]', 'int|None',
         'NT', 'NTDef', 'NTSubVar', 'NTOpts', 'DCOpt', 'DC', 'DCFrozen', 'DCKw', 'DCVar', 'AT', 'ATDef', 'TD', 'TDOpt', 'TDNot', 'TDKeys', 'NTWords', 'TDMix', 'TDRev', 'DCName', 'ATName',
         'DCChild', 'Colour', 'INum', 'Mixed', 'Pair', 'StrInt', 'HintMix', 'Bools', 'LitMix', 'LitA', 'LitFalse', 'Union[TagA,TagB]',
         'Union[ATagA,ATagB]', 'date', 'time', 'datetime', 'timedelta', 'Pattern', 'PatternStr', 'PatternBytes', 'Path',
         'IPv4', 'IPv6', 'IPv4Net', 'UUID', 'NewInt', 'NewList', 'list[int]', 'dict[str,int]', 'set[int]', 'tuple[int,...]']
BIG1 = ['List[List[int]]', 'List[Dict[str,int]]', 'List[NT]', 'Dict[str,List[int]]', 'Dict[Tuple[int,...],int]', 'Set[Tuple[int,...]]', 'List[Colour]',
        'Dict[Colour,LitMix]', 'Set[Colour]', 'MNode', 'TDNode']
SHAPED = ['List[NT]', 'Dict[str,DC]', 'NTNest', 'DCNest', 'ATNest', 'TDNest', 'DCFact', 'Node', 'Tree', 'List[List[Opt[int]]]',
          'Dict[str,Dict[int,str]]', 'List[Union[NT,List[int],str]]', 'Tuple[NT,Dict[str,float]]', 'List[Union[TagA,TagB]]',
          'List[Set[Union[int,str]]]', 'List[date]', 'Opt[DCFact]', 'Tuple[List[int],NT]']
BIG = ['List[List[int]]', 'List[Dict[str,int]]', 'List[NT]', 'Dict[str,List[int]]', 'Dict[Tuple[int,...],int]',
       'Set[Tuple[int,...]]', 'DCNest', 'NTNest', 'ATNest', 'TDNest', 'DCFact', 'Node', 'List[Tree]', 'TDNode', 'MNode',
       'Tuple[List[int],NT]', 'Opt[DCFact]', 'List[Colour]', 'Dict[Colour,LitMix]', 'Set[Colour]', 'List[date]']

CONTELEM = (NONE, INT, STR, BOOL)
CONT = ['List[Any]', 'Tuple[Any,...]', 'Set[Any]', 'FrozenSet[Any]', 'Tuple[Any,Any]', 'List[int]', 'Tuple[str,...]', 'Set[float]', 'FrozenSet[int]', 'Tuple[int,str]', 'List[Opt[int]]',
        'Union[List[int],int]', 'List[NT]', 'Tuple[Colour,...]', 'list[int]', 'set[str]']


def tasks(tier):
    k = dict(what=(), conf=True)
    if tier == 'quick':
        return (load_tasks(CONT, 'from ', fn='h_conf', lens=(0, 1, 2), dlens=(0,), kinds=(LIST, TUPLE, SET), elem=CONTELEM, **k) + load_tasks(BIG1, fn='h_conf', lens=(0, 1), **k) + load_tasks(SMALL, fn='h_conf', **k)
                + load_tasks(SHAPED, 'shaped ', 'h_shaped', lens=(1,), ilens=(1,), optional=False, **k))
    return (load_tasks(CONT, 'from ', fn='h_conf', lens=(0, 1, 2, 3), dlens=(0,), kinds=(LIST, TUPLE, SET, NONE), elem=CONTELEM, **k) + load_tasks(BIG, fn='h_conf', lens=(0, 1, 2), dlens=(0, 1, 2), **k) + load_tasks(SMALL, 'deep ', fn='h_conf', depth=2, **k)
            + load_tasks(SMALL, fn='h_conf', **k)
            + load_tasks(SHAPED, 'shaped ', 'h_shaped', lens=(2,), ilens=(1, 2), optional=True, holedepth=1, **k))


def h_conf(S, schema, **kw):
    kw['uniondebugconflict'] = S.flag('conflict')
    h_load(S, schema, **kw)
