"""C09: a union loads to what one of its members gives, preferring no conversion."""
from .loads import *
import itertools

BOUNDS = dict(input=BOUND_TEXT, unions='up to 4 members, basic types, containers, objects, enums, literals, dates, nested unions; every order of up to 3 members, '
              'rotations of 4', lengths='0-2 (0-1 for nested containers)', options='basiccast, failonextra symbolic')
U2 = ['int,str', 'str,int', 'float,int', 'bool,int', 'int,None', 'None,str', 'float,None', 'bool,None', 'str,bool', 'NewInt,str', 'LitA,int', 'Colour,int', 'date,int', 'str,date', 'Path,int', 'Path,str',
      'Colour,LitMix', 'INum,int', 'NewInt,NewStr', 'Mixed,bool', 'timedelta,str', 'Any,int', 'Pattern,int', 'UUID,int', 'IPv4,IPv6', 'IPv4If,IPv4', 'UUID,Path', 'time,date', 'PatternStr,PatternBytes', 'timedelta,date']
U3 = ['int,str,None', 'IPv4,UUID,date', 'bool,float,str', 'LitMix,int,str', 'Colour,INum,bool']
C2 = ['int,List[int]', 'List[str],str', 'Dict[str,int],int', 'Dict[str,int],List[int]', 'NT,int', 'NT,DC', 'DC,str', 'Tuple[int,str],str', 'Tuple[int,...],Set[str]', 'NT,List[NT]',
      'AT,TD', 'List[int],List[str]', 'Dict[str,int],NT', 'FrozenSet[int],float', 'DCFact,AT', 'NTReq,DC', 'Tuple[int,int],datetime', 'OTagA,OTagB', 'ODTagA,ODTagB', 'OTagA,ODTagA']
C3 = ['NT,DC,str', 'int,List[str],None', 'NTReq,NTDef,Dict[str,str]', 'Union[int,str],List[int],NT', 'LitA,List[LitA],int']
NESTED = ['List[Union[int,str]]', 'Dict[str,Union[int,List[str]]]', 'Tuple[Union[NT,str],Union[int,float]]', 'List[Opt[NT]]', 'Union[List[Union[int,str]],Dict[str,Opt[int]]]',
          'Opt[Union[NT,List[int]]]', 'List[Union[NT,DC,None]]', 'NTDef', 'Set[Union[int,str,None]]', 'Union[List[Opt[DC]],str]']


def orders(s, full):
    """the members of a union in the orders to try"""
    ms = split(s)
    p = list(itertools.permutations(ms)) if len(ms) < 4 else [tuple(ms[i:] + ms[:i]) for i in range(len(ms))]
    return [','.join(i) for i in p]


def split(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        depth += (ch == '[') - (ch == ']')
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in C3 + C2:
        r.append(('union ' + s, 'h_union', dict(members=s, lens=(0, 1) if nest(T('Union[%s]' % s)) < 2 else (1,), dlens=None if not q else (0, 1, 2) if nest(T('Union[%s]' % s)) < 2 else (1,),
                                                keykinds=(STR,), full=not q)))
    for s in U2 + U3:
        r.append(('union ' + s, 'h_union', dict(members=s, lens=(0, 1), dlens=(0, 1), keykinds=(STR,), full=not q, consts=True)))
    r += load_tasks(NESTED, 'nested ', 'h_load', lens=(0, 1) if q else (0, 1, 2), extra=False)
    r += load_tasks(NESTED, 'shaped ', 'h_shaped', lens=(2,), ilens=(1,), extra=False)
    return r


def h_union(S, members, lens, dlens, keykinds, full, consts=False):
    os_ = orders(members, full)
    first = 'Union[%s]' % os_[0]
    t = T(first)
    pools(S, t)
    v = S.any('v', inputspec(t, None, lens, dlens, 3 if consts else 2, kinds=JSON + (TUPLE,), consts=SUBS if consts else (), keykinds=keykinds))
    o, c = options(S, None, None if full else False)
    rs = []
    for i, s in enumerate(os_):
        # (typing remembers unions of equal members: build it in this order)
        u = typing.Union.__getitem__(tuple(T(m) for m in split(s)))
        r = attempt(loader(S, **o).load, v, u)
        rec(S, 'load', r)
        judge(S, v, t, c, r, first)
        rs.append(r)
        if r.ok:
            S.check(rs[0].ok, lambda: 'accepted as Union[%s] but not as %s' % (s, first))
        else:
            S.check(not rs[0].ok, lambda: 'refused as Union[%s] but not as %s' % (s, first))
            S.check(len(r.error.exceptions) == len(u.__args__), lambda: '%d errors for %d members' % (len(r.error.exceptions), len(u.__args__)))
