"""C03: without casting, basic values are never converted."""
from .loads import *

BOUNDS = dict(input=BOUND_TEXT + '; tuples, sets; subclasses of the basic types; dictionary keys of every scalar kind',
              contexts='top level, list, set, frozenset, tuple, dictionary keys and values, NamedTuple, dataclass, attrs, '
              'TypedDict, unions, optional, NewType and two levels of nesting', options='basiccast off; failonextra, uniondebugconflict symbolic')
B = ['int', 'bool', 'float', 'str', 'None']


def contexts():
    r = []
    for b in B:
        r += [b, 'List[%s]' % b, 'Set[%s]' % b, 'FrozenSet[%s]' % b, 'Tuple[%s,...]' % b, 'Tuple[%s,%s]' % (b, b),
              'Dict[%s,int]' % b, 'Dict[str,%s]' % b, 'List[List[%s]]' % b, 'Dict[str,List[%s]]' % b]
    r += ['Opt[%s]' % b for b in B[:4]]
    r += ['Opt[List[%s]]' % b for b in B[:4]]
    r += ['Union[int,str]', 'Union[bool,float]', 'Union[int,float,str]', 'Union[bool,List[int]]', 'List[Union[int,str]]',
          'List[Union[bool,float,None]]', 'Set[Opt[int]]', 'Tuple[Union[int,str],Opt[float]]', 'Dict[str,Union[float,str]]',
          'Union[Tuple[int,...],Dict[str,bool],float]', 'NewInt', 'NewStr', 'NewList', 'List[NewInt]', 'Dict[NewStr,NewInt]', 'List[int|str]',
          'list[float]', 'dict[str,bool]', 'Tuple[int,str,float]', 'Union[NT,str]', 'Union[int,DC]', 'NONE', 'list[NONE]']
    return r


OBJ = ['BNT', 'BDC', 'BAT', 'BTD']


def tasks(tier):
    q = tier == 'quick'
    r = [('field ' + o, 'h_field', dict(schema=o, deep=not q)) for o in OBJ]
    r += load_tasks(contexts(), fn='h_strict', lens=(0, 1, 2) if not q else (1, 2), two=(0, 1, 2) if not q else (1,))
    r += load_tasks(['NTNest', 'DCNest', 'ATNest', 'TDNest', 'List[BNT]', 'Dict[str,BDC]', 'Node'], 'shaped ', 'h_shaped', cast=False,
                    lens=(1,) if q else (1, 2), ilens=(1,), optional=not q)
    return r


def h_strict(S, schema, lens, two):
    t = T(schema)
    pools(S, t)
    d = depthof(t)
    big = d > 1
    c = Spec(kinds=JSON, depth=d - 1, lens=two, dlens=(1,), consts=SUBS, strlen=2)
    key = Spec(kinds=KEYKINDS, depth=0, strlen=2, consts=SUBS)
    v = S.any('v', Spec(kinds=JSON + (TUPLE, SET), depth=d, lens=two if big else lens, dlens=(0, 1), strlen=3, consts=SUBS, elem=c, key=key))
    o, c = options(S, False, None, uniondebugconflict=S.flag('conflict'))
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    if spec.isbasic(t):
        if r.ok:
            S.check(isinstance(v, t) and spec.same(v, r.value), lambda: 'a value was converted to ' + schema)
        else:
            S.check(type(v) is not t, lambda: 'refused a value of the requested type ' + schema)
            S.check(typed(S, r.error), 'untyped exception')
    else:
        # a conflict may be reported as an error
        conflict = not r.ok and o['uniondebugconflict']
        judge(S, v, t, c, r, schema, ('result',) if conflict else ('accept', 'result'))


def h_field(S, schema, deep):
    t = T(schema)
    pools(S, t)
    fs = catalog.fields(t)
    data = dict(i=1, o=True, f=0.5, s='q', n=None)
    f = S.choose('field', range(5))
    data[fs[f].name] = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=3, consts=SUBS))
    if deep:
        g = S.choose('other', range(5))
        if g != f:
            data[fs[g].name] = S.any('w', Spec(kinds=JSON, depth=0, strlen=3, consts=SUBS))
    o, c = options(S, False, None)
    r = attempt(loader(S, **o).load, data, t)
    rec(S, 'load', r)
    judge(S, data, t, c, r, schema)
