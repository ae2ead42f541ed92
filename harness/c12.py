"""C12: literals and enums accept exactly their declared values."""
from .loads import *

BOUNDS = dict(input=BOUND_TEXT + '; tuples, sets, enum members, subclasses of the basic types', types='literals of text, numbers, booleans, None and mixtures; enums of one and '
              'several kinds of values, IntEnum, str enums, aliases, enums with one and two annotated types', options='basiccast, failonextra symbolic')
NAMES = ['Lit1', 'LitA', 'LitMix', 'LitFalse', 'LitNone', 'LitNeg', 'LitText', 'LitBool', 'Colour', 'Num', 'INum', 'Mixed', 'Bools', 'StrE', 'Alias', 'StrInt', 'Pair', 'Multi',
         'ObjEnum', 'Opt[LitA]', 'Opt[Colour]', 'Union[LitA,Lit1]', 'Union[Colour,Num]', 'FloatE', 'ListE', 'HintMix', 'HintText', 'HintBoth']
IN = ['List[LitMix]', 'Set[LitA]', 'Dict[LitA,Colour]', 'Dict[Colour,Lit1]', 'Tuple[Mixed,LitFalse]', 'List[Pair]', 'List[StrInt]', 'DCLit', 'List[Opt[Num]]', 'Set[INum]', 'List[Multi]', 'List[HintMix]', 'Dict[HintText,int]']
MEMBERS = (catalog.Colour.RED, catalog.Num.ONE, catalog.INum.ONE, catalog.StrE.A, catalog.Mixed.C)


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in NAMES:
        t = T(s)
        deep = s in ('Pair', 'Multi', 'ObjEnum', 'ListE')
        r.append(('load ' + s, 'h_choice', dict(schema=s, depth=1 if not deep or q else 2, lens=(0, 1, 2) if deep and q else (0, 1, 2, 3) if deep else (0, 1), light=q and deep, dlens=(0, 1, 2) if s == 'ObjEnum' else (0, 1))))
    for s in IN:
        r.append(('inside ' + s, 'h_choice', dict(schema=s, depth=1 + ('Pair' in s or 'Multi' in s), lens=(1, 2) if not q or 'Pair' not in s and 'Multi' not in s else (1,), light=q and ('Pair' in s or 'Multi' in s),
                                                  dlens=(1,) if q else (1, 2))))
    return r


def h_choice(S, schema, depth, lens, dlens, light=False):
    t = T(schema)
    pools(S, t)
    top = SUBS + MEMBERS
    v = S.any('v', Spec(kinds=JSON + (TUPLE,) if light else JSON + (TUPLE, SET), depth=depth, lens=lens, dlens=dlens, strlen=3, consts=top,
                        elem=Spec(kinds=JSON if depth < 2 or not light else (INT, STR, LIST), depth=depth - 1, lens=(1, 2) if light else lens, dlens=dlens, strlen=2,
                                  consts=MEMBERS if nest(t) and not light else ())))
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)
    if typing.get_origin(t) is typing.Literal:
        declared = False
        for a in t.__args__:
            if v == a:
                declared = True
                break
        S.check(r.ok == declared, lambda: 'a literal of %s: %s' % (schema, r.kind()))
    elif isinstance(t, type) and issubclass(t, enum.Enum) and r.ok:
        S.check(type(r.value) is t, lambda: 'not a member of ' + schema)
