"""C30: stricter options only refuse, they never change a result."""
from .loads import *
import typing

TYPES = ['int', 'bool', 'float', 'str', 'None', 'Any', 'List[int]', 'Set[str]', 'FrozenSet[float]', 'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[float]', 'List[Any]', 'Tuple[Any,int]', 'Dict[str,Any]',
         'List[Opt[int]]', 'Dict[str,int]', 'Dict[int,float]', 'Dict[NewInt,bool]', 'Opt[float]', 'int|None', 'NT', 'NTDef', 'NTOpts', 'DCOpt', 'ATOpt', 'HintMix', 'HintText', 'NTSubVar', 'DC', 'DCFrozen', 'DCSlots', 'DCSlotChild', 'ATSlots', 'ATChild', 'DCKw', 'DCVar', 'AT', 'ATDef', 'TD', 'TDOpt', 'TDNot', 'TDKeys', 'NTWords', 'TDMix',
         'TDRev', 'DCName', 'ATName', 'DCSwap', 'DCChild', 'Colour', 'INum', 'Mixed', 'Pair', 'StrInt', 'Bools', 'LitMix', 'LitA', 'LitFalse', 'date', 'time', 'datetime', 'timedelta', 'Pattern',
         'PatternBytes', 'Path', 'IPv4', 'NewInt', 'NewList', 'list[int]', 'dict[str,int]', 'Opt[Colour]', 'Opt[NT]', 'Opt[List[int]]', 'BNT', 'BDC', 'BAT', 'BTD', 'DCVar', 'ATVar', 'TDAny']
SHAPED = ['List[List[int]]', 'List[NT]', 'Dict[str,DC]', 'NTNest', 'DCNest', 'ATNest', 'TDNest', 'DCFact', 'ATFact', 'Node', 'Tree', 'TDNode', 'MNode', 'Dict[str,Dict[int,str]]', 'Dict[str,List[int]]',
          'Tuple[NT,Dict[str,float]]', 'Tuple[List[int],NT]', 'Opt[DCFact]', 'List[date]', 'Dict[Colour,LitMix]', 'DCNameNest', 'List[Colour]', 'List[Tuple[int,str]]', 'Opt[Node]']
ONE = ['Union[TagA,TagB]', 'Union[ATagA,ATagB]', 'Union[NT,List[int]]', 'Union[date,List[str]]', 'Opt[Union[TagA,TagB]]', 'Union[Colour,NT]']
BOUNDS = dict(types=', '.join(TYPES + SHAPED), unions='conflict detection: ' + ', '.join(ONE), input=BOUND_TEXT + '; arbitrary, or well-formed with an arbitrary value at one position and surplus items or keys',
              options='basiccast, failonextra, dictequivalence, name resolution, raiseconditionerrors, uniondebugconflict: each switched to its stricter setting under every setting of two others')
OUTSIDE = 'unions other than optionals, except with conflict detection (a stricter setting can make another member the first that accepts); ' + OUTSIDE
RECURSIVE = ('Node', 'Tree', 'TDNode', 'MNode', 'Opt[Node]')


def tasks(tier):
    q = tier == 'quick'
    r = [('shaped ' + s, 'h_shaped2', dict(schema=s, full=not q)) for s in SHAPED]
    r += [('any ' + s, 'h_any', dict(schema=s, full=not q)) for s in TYPES]
    r += [('one ' + s, 'h_one', dict(schema=s, full=not q)) for s in ONE]
    r += [('space ' + s, 'h_space', dict(schema=s)) for s in ('NT', 'DC', 'AT', 'TD', 'Dict[str,int]', 'DCNest', 'List[NT]', 'DCName')]
    return r


STRICT = {'basiccast': (False, True), 'failonextra': (True, False), 'dictequivalence': (False, True), 'raiseconditionerrors': (True, False), 'uniondebugconflict': (True, False)}


def settings(S, names, free):
    """the strict and the relaxed options; the free ones are symbolic"""
    n = S.choose('strict', names)
    o = {f: S.flag(f) for f in free if f != n}
    if n == 'frefs':
        return dict(o, frefs=None), o
    return dict(o, **{n: STRICT[n][0]}), dict(o, **{n: STRICT[n][1]})


def only_refuses(S, v, t, schema, strict, relaxed):
    a, b = attempt(loader(S, **strict).load, v, t), attempt(loader(S, **relaxed).load, v, t)
    rec(S, 'strict', a)
    rec(S, 'relaxed', b)
    for r in (a, b):
        S.check(r.ok or typed(S, r.error), 'untyped exception')
    if a.ok:
        S.check(b.ok, lambda: '%s: %s accepts, %s gives %s' % (schema, strict, relaxed, b.kind()))
        S.check(spec.same(a.value, b.value), lambda: '%s: another result with %s than with %s' % (schema, strict, relaxed))


def h_any(S, schema, full):
    t = T(schema)
    pools(S, t)
    names = ('basiccast', 'failonextra', 'raiseconditionerrors') + (('dictequivalence', 'frefs', 'uniondebugconflict') if full else ('dictequivalence',))
    strict, relaxed = settings(S, names, ('basiccast', 'failonextra'))
    d = depthof(t)
    v = S.any('v', inputspec(t, d, (0, 1, 2) if full or d < 2 and not spec.objkind(t) else (0, 1), (0, 1, 2) if full else (0, 1), 3 if full else 2, kinds=JSON + (TUPLE,) if full else JSON, keykinds=(STR, INT) if full else (STR,)))
    only_refuses(S, v, t, schema, strict, relaxed)


def h_shaped2(S, schema, full):
    t = T(schema)
    pools(S, t)
    names = ('basiccast', 'failonextra') + (('frefs',) if schema in RECURSIVE else ()) + (('dictequivalence', 'uniondebugconflict', 'raiseconditionerrors') if full else ())
    strict, relaxed = settings(S, names, ('basiccast', 'failonextra'))
    hole = gen.Hole(Spec(kinds=JSON if full else (NONE, BOOL, STR, LIST, DICT), depth=0, lens=(0, 1), dlens=(0, 1), strlen=1))
    v = gen.data(S, 'v', t, gen.G((1,), 2, 1, hole, optional=full, ilens=(1,)))
    only_refuses(S, surplus(S, v), t, schema, strict, relaxed)


def surplus(S, v):
    """one key or item too many somewhere"""
    k = S.choose('surplus', ('none', 'top', 'below'))
    if k == 'top':
        return more(v)
    if k == 'below':
        if type(v) is dict and len(v):
            x = list(v)[0]
            return {y: more(v[y]) if y is x else v[y] for y in v}
        if type(v) is list and len(v):
            return [more(v[0])] + v[1:]
    return v


def more(v):
    if type(v) is dict:
        return dict(v, zz=0)
    if type(v) is list:
        return v + [v[0] if len(v) else 0]
    return v


def h_one(S, schema, full):
    """conflict detection"""
    t = T(schema)
    pools(S, t)
    strict, relaxed = settings(S, ('uniondebugconflict',), ('basiccast', 'failonextra'))
    if S.flag('shaped'):
        v = gen.data(S, 'v', t, gen.G((1,), 1, 1, gen.Hole(Spec(kinds=JSON, depth=0, lens=(0, 1), strlen=1)), optional=full, ilens=(1,)))
    else:
        v = S.any('v', inputspec(t, 1, (0, 1), (0, 1), 2))
    only_refuses(S, v, t, schema, strict, relaxed)


def h_space(S, schema):
    """namespaces are refused or load as with the equivalence; dictionaries do not notice"""
    t = T(schema)
    pools(S, t)
    strict, relaxed = settings(S, ('dictequivalence',), ('basiccast', 'failonextra'))
    v = gen.data(S, 'v', t, gen.G((1,), 2, 1, gen.Hole(Spec(kinds=(NONE, INT, STR, DICT), depth=0, lens=(0, 1), dlens=(0,), strlen=1)), optional=True, ilens=(1,)))
    k = S.choose('what', ('dictionary', 'namespace', 'inner'))
    import argparse
    if k == 'namespace' and type(v) is dict and all([type(x) is str for x in list(v)]):
        w = argparse.Namespace()
        for x in v:
            w.__dict__[x] = v[x]
        v = w
    elif k == 'inner' and type(v) is dict:
        v = {x: argparse.Namespace(**v[x]) if type(v[x]) is dict else v[x] for x in v}
    only_refuses(S, v, t, schema, strict, relaxed)
