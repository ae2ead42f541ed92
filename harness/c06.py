"""C06: dictionary keys and values are each loaded with their own type."""
from .loads import *
from .c05 import plainvalue, lengths

BOUNDS = dict(input=BOUND_TEXT + '; keys of every scalar kind and tuples', lengths='0-2 arbitrary entries; 5 and 20 (and next to numbers new in '
              'the source) with one arbitrary entry at any position; collapsing keys from a pool of notations',
              reuse='fresh loaders; loaders used before for another dictionary', options='basiccast symbolic')
SMALL = ['Dict[str,int]', 'Dict[int,str]', 'Dict[float,bool]', 'Dict[bool,float]', 'Dict[str,Any]', 'Dict[Any,int]', 'Dict[int,int]',
         'Dict[str,str]', 'Dict[Opt[int],str]', 'Dict[Union[int,str],int]', 'Dict[str,Union[int,str]]', 'Dict[Colour,int]', 'Dict[LitMix,Opt[int]]',
         'Dict[NewInt,NewStr]', 'dict[str,float]', 'dict[int,Any]', 'Dict[str,Opt[bool]]', 'Dict[str,None]', 'Dict[None,int]', 'Dict[INum,Mixed]']
BIG = ['Dict[str,List[int]]', 'Dict[str,NT]', 'Dict[int,DC]', 'Dict[Tuple[int,...],int]', 'Dict[Tuple[int,str],str]', 'Dict[str,Dict[str,int]]', 'Dict[int,Dict[int,str]]',
       'Dict[LitA,Set[int]]', 'Dict[str,Union[NT,List[int]]]', 'Dict[str,TD]', 'Dict[Any,List[Any]]', 'Dict[FrozenSet[int],int]']
LONG = ['Dict[str,int]', 'Dict[int,str]', 'Dict[int,int]', 'Dict[str,List[int]]', 'Dict[str,NT]', 'Dict[str,Opt[int]]', 'Dict[NewInt,NewStr]',
        'Dict[Union[int,str],float]', 'Dict[str,str]', 'Dict[str,Any]']
SAMEKEYS = ('5', '05', ' 5', '+5', '1', '1.0', 'true', '')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in BIG:
        r.append(('load ' + s, 'h_dict', dict(schema=s, lens=(1,) if q else (0, 1, 2), dlens=(1,) if q else (0, 1, 2), depth=2 if 'FrozenSet' not in s else 1, extra=False)))
    for s in SMALL:
        r.append(('load ' + s, 'h_dict', dict(schema=s, dlens=(0, 1, 2), keykinds=None if not q else (STR, INT) if 'Union' in s or 'Any' in s else (STR, INT, NONE))))
    for s in ['Dict[int,str]', 'Dict[float,int]', 'Dict[bool,int]', 'Dict[str,int]', 'Dict[NewInt,str]', 'Dict[Colour,int]', 'Dict[INum,str]', 'Dict[StrInt,str]']:
        r.append(('collapse ' + s, 'h_collapse', dict(schema=s, n=2 if q else 3)))
    for s in LONG:
        r.append(('long ' + s, 'h_long', dict(schema=s, lens=(5, 20) if q else (3, 5, 9, 20, 40))))
    return r


def h_dict(S, schema, lens=(0, 1), dlens=(0, 1, 2), depth=1, keykinds=None, extra=None):
    t = T(schema)
    pools(S, t, (), (0, 1) if t.__args__[0] is bool else ())
    key = Spec(kinds=tuple(keykinds or KEYKINDS) + ((TUPLE,) if depth > 1 else ()), depth=1, lens=(0, 1, 2) if len(lens) > 1 else (1, 2), strlen=2,
               childkinds=(INT, STR), leaf=(INT, STR))
    child = Spec(kinds=JSON, depth=depth - 1, lens=lens, strlen=2)
    v = S.any('v', Spec(kinds=JSON + (NS,), depth=depth, lens=(0, 1), dlens=dlens, elem=child, key=key, strlen=2))
    o, c = options(S, None, extra)
    l = loader(S, **o)
    if S.choose('used', (False, True)):
        # the loader was used for a dictionary of another shape before
        attempt(l.load, {'a': 'x', 1: None, 'c': [1]}, t)
        attempt(l.load, {}, t)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_collapse(S, schema, n):
    """keys that load to equal values"""
    t = T(schema)
    pools(S, t, SAMEKEYS, (0, 1, 5))
    d = {}
    for i in range(n):
        k = S.any('k%d' % i, Spec(kinds=(STR, INT, FLOAT, BOOL, NONE) if i < 2 else (STR,), depth=0, strlen=1))
        gen.distinct(S, d, k)
        d[k] = S.any('v%d' % i, Spec(kinds=(INT, STR), depth=0, strlen=1, pool=False))
    o, c = options(S, None, False)
    r = attempt(loader(S, **o).load, d, t)
    rec(S, 'load', r)
    judge(S, d, t, c, r, schema)


def h_long(S, schema, lens):
    t = T(schema)
    pools(S, t)
    kt, vt = t.__args__
    n = S.choose('n', lengths(lens))
    p = S.choose('position', sorted({0, 1, n // 2, n - 1}))
    which = S.choose('which', range(3))
    d = {}
    for i in range(n):
        k, v = plainvalue(kt, i), plainvalue(vt, i)
        if i == p and which != 1:
            k = S.any('k', Spec(kinds=KEYKINDS, depth=0, strlen=2))
        if i == p and which != 0:
            v = S.any('v', Spec(kinds=JSON, depth=max(0, depthof(t) - 1), lens=(0, 1), strlen=2))
        d[k] = v
    o, c = options(S, None, False)
    r = attempt(loader(S, **o).load, d, t)
    rec(S, 'load', r)
    judge(S, d, t, c, r, schema)
