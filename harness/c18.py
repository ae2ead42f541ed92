"""C18: an error says which value failed, where, and for which type."""
import enum

from .loads import *
from .c05 import plainvalue, lengths

BOUNDS = dict(input=BOUND_TEXT, shapes='an arbitrary value up to the nesting of the type; well-formed data with one arbitrary value at an arbitrary position; containers of 12 and 40 items and '
              'objects of 12 fields with one arbitrary value', options='basiccast, failonextra, uniondebugconflict symbolic; mangle_key in name, alt')
OUTSIDE = ('NewType adds a step of its own without annotation; sets as input (their order is not defined); attrs converters; ' + OUTSIDE)
NAMES = ['int', 'None', 'List[int]', 'list[int]', 'Set[int]', 'Tuple[int,...]', 'Tuple[int,str]', 'Tuple[None,bool]', 'List[List[int]]', 'List[Tuple[int,bool]]', 'List[Opt[int]]', 'List[Union[int,str]]', 'Dict[str,int]',
         'Dict[int,None]', 'Dict[str,List[int]]', 'Dict[Opt[int],bool]', 'Dict[List[int],int]', 'List[Dict[str,int]]', 'Tuple[Dict[str,int],List[bool]]', 'Opt[int]', 'Union[int,List[int]]', 'Union[List[int],List[bool]]',
         'Union[DC,NT]', 'Union[TagA,TagB]', 'List[Union[TagA,TagB]]', 'Union[List[Union[int,None]],Dict[str,Union[bool,None]]]', 'NT', 'DC', 'AT', 'TD', 'TDNot', 'DCFact', 'DCPost', 'ATValid', 'QNT', 'QDC', 'QAT', 'QTD',
         'DCName', 'ATName', 'DCSwap', 'ATShift', 'DCNameNest', 'NTNest', 'DCNest', 'ATNest', 'TDNest', 'Colour', 'Pair', 'Multi', 'StrInt', 'List[Pair]', 'DCLit', 'LitMix', 'List[LitA]', 'Dict[Colour,LitMix]', 'date',
         'List[date]', 'time', 'timedelta', 'Pattern', 'Path', 'IPv4', 'Node', 'Tree', 'ANode', 'TDNode', 'MNode', 'List[Node]', 'Outer', 'Opt[List[DC]]', 'Dict[str,NT]', 'Tuple[DC,AT,TD]', 'FrozenSet[Tuple[int,int]]',
         'Opt[DCNest]', 'Dict[Union[int,None],str]', 'MNode']
UNSUPPORTED = ['Strange', 'List[Strange]', 'Set[Strange]', 'Tuple[int,Strange]', 'Tuple[Strange,int]', 'Tuple[Strange,...]', 'Dict[str,Strange]', 'Dict[Strange,int]', 'Opt[Strange]', 'List[Opt[Strange]]', 'Union[int,Strange]', 'Union[Strange,List[int]]',
               'Union[List[Strange],List[int]]', 'NTStrange', 'NTStrangeOpt', 'DCStrange', 'ATStrange', 'TDStrange', 'List[NTStrange]', 'Dict[str,DCStrange]', 'Tuple[int,ATStrange]', 'Opt[TDStrange]', 'Tuple[int,Tuple[int,Strange]]', 'List[Tuple[Strange]]',
               'Tuple[List[Strange],int]', 'Union[DCStrange,NT]', 'Dict[str,Tuple[Strange,...]]', 'Dict[str,Tuple[Strange,int]]']
PICKY = [T('DCPost'), T('ATValid')]
LONG = ['List[int]', 'Set[int]', 'Tuple[int,...]', 'List[Opt[int]]', 'List[NT]', 'Dict[str,int]', 'FrozenSet[str]', 'List[Union[int,NT]]']


def tasks(tier):
    q = tier == 'quick'
    r = load_tasks(['WNT', 'WDC'], 'wide ', 'h_wide') + load_tasks(LONG, 'long ', 'h_long')
    for s in dict.fromkeys(NAMES):
        n = depthof(T(s)) if nest(T(s)) else 0
        if n < 2 or not q and n < 3:
            r.append(('any ' + s, 'h_any', dict(schema=s, lens=(0, 1, 2) if not q or n < 2 else (0, 1))))
        if n and s != 'Dict[List[int],int]':
            big = n > 2 or s[0] == 'Q' or 'Name' in s or s.count('Union') > 1
            r.append(('shaped ' + s, 'h_bad', dict(schema=s, lens=(1, 2) if not big and n < 2 or not q else (1,), ilens=(1,) if q else (1, 2), depth=0 if n > 2 and q else 1, fuel=2 if not big or not q else 1,
                                                   optional=not big or not q)))
    for s in UNSUPPORTED:
        n = min(depthof(T(s)), 2 if q else 3)
        r.append(('unsupported ' + s, 'h_unsupported', dict(schema=s, depth=n, lens=(0, 1, 2) if n < 2 or 'Tuple' in s else (0, 1))))
    r.sort(key=lambda x: not ('Tup' in x[0] or 'Q' in x[0] or 'Union' in x[0] or 'Nest' in x[0] or 'ide' in x[0]))
    return r


# ---------------------------------------------------------------- following a trace
def refers(S, x, v, t, key):
    """does x stand for the container v? (the fields of an object may have been renamed in a copy)"""
    if spec.same(x, v):
        return True
    k = catalog.objkind(t) if isinstance(t, type) else None
    if k not in ('dc', 'at') or type(x) is not dict or type(v) is not dict:
        return False
    names = {f.ext(key): f.name for f in catalog.fields(t)}
    plain = {f.name for f in catalog.fields(t)}
    n = 0
    for e, y in v.items():
        if e in names:
            i = names[e]
        elif e in plain:
            continue
        else:
            i = e
        n += 1
        if i not in x or not spec.same(x[i], y):
            return False
    return n == len(x)


def child(S, x, t, ann, key):
    """the value and type one step below the container x of type t; None if there is no such step"""
    A = S.tl.exceptions.AnnotationType
    kind, where = ann
    t = catalog.resolve(t)
    o = typing.get_origin(t)
    args = getattr(t, '__args__', ())
    if kind == A.INDEX:
        n = 0
        for y in x:
            if n == where:
                break
            n += 1
        else:
            return None
        if o in (list, set, frozenset) or o is tuple and args[1:] == (...,):
            return y, args[0]
        return (y, args[where]) if o is tuple and where < len(args) else None
    if kind == A.FIELD:
        for f in catalog.fields(t) if catalog.objkind(t) else ():
            if f.name == where:
                return (x[where], f.type) if where in x else None
        return None
    return None


def follow(S, trace, v, t, key, start):
    """follows the annotations; returns the value and type reached"""
    A = S.tl.exceptions.AnnotationType
    for item in trace[start:]:
        a = item.annotation
        S.check(a is not None, 'a step of the trace without annotation')
        kind, where = a
        if kind == A.KEY or kind == A.VALUE:
            S.check(typing.get_origin(t) is dict and isinstance(v, dict), 'a step to a key or value where there is no dictionary')
            S.check(spec.same(where, item.value), 'the annotation does not say the key or value')
            ok = False
            for y in (v.keys() if kind == A.KEY else v.values()):
                if spec.same(y, item.value):
                    ok = True
                    break
            S.check(ok, 'a step to a key or value that is not in the dictionary')
            S.check(item.type_ == t.__args__[0 if kind == A.KEY else 1], 'wrong type of a key or value in the trace')
            v, t = item.value, item.type_
        elif kind == A.FORWARDREF:
            S.check(isinstance(t, typing.ForwardRef) and t.__forward_arg__ == where and item.type_ is catalog.resolve(t), 'wrong class for a name in the trace')
            S.check(spec.same(item.value, v), 'wrong value for a name in the trace')
            t = item.type_
        elif kind == A.UNION:
            S.check(spec.same(item.value, v), 'wrong value in a step into a union')
            if spec.isunion(t):
                S.check(item.type_ == t, 'wrong type in a step into a union')
                S.check(where in t.__args__, 'a step into a type that is not in the union')
            else:
                S.check(item.type_ == where, 'wrong type in a step into the types of an enum')
            t = where
        else:
            S.check(refers(S, item.value, v, t, key), 'the trace does not hold the container of the step')
            S.check(item.type_ == t, 'the trace does not hold the type of the container')
            c = child(S, item.value, t, a, key)
            S.check(c is not None, lambda: 'the trace has a step that the data does not have (%s)' % kind)
            v, t = c
    return v, t


def end(S, e, v, t, c, attempt=False):
    S.check(refers(S, e.value, v, t, c.key), 'the exception exposes another value than the one the trace leads to')
    S.check(e.type_ == t or catalog.resolve(e.type_) == catalog.resolve(t), 'the exception exposes another type than the one the trace leads to')
    # the constructor of an object, and the enum that an attempt is for, may refuse what the type accepts
    if not attempt and t not in PICKY:
        S.check(spec.accepts(v, t, c) != spec.YES, 'the trace leads to a value that its type accepts')
    isenum = isinstance(t, type) and issubclass(t, enum.Enum)
    if spec.isunion(t) or isenum:
        members = list(t.__args__) if not isenum else list(typing.get_type_hints(t).values())
        S.check(len(e.exceptions) == len(members), 'not one error for each attempt')
        left = list(members)
        for x in e.exceptions:
            S.check(len(x.trace) > 0 and x.trace[0].annotation is not None and x.trace[0].annotation[0] == S.tl.exceptions.AnnotationType.UNION, 'the error of an attempt does not start at the union')
            m = x.trace[0].annotation[1]
            S.check(m in left, 'two errors for one attempt')
            left.remove(m)
            w, u = follow(S, x.trace, v, t, c.key, 0)
            end(S, x, w, u, c, isenum)


def located(S, e, v, t, c):
    if not typed(S, e):
        S.fail('untyped exception ' + type(e).__name__)
    S.check(len(e.trace) > 0, 'an exception without trace')
    first = e.trace[0]
    S.check(first.value is v and first.type_ == t and first.annotation is None, 'the trace does not start at the root')
    w, u = follow(S, e.trace, v, t, c.key, 1)
    end(S, e, w, u, c)


def parts(t):
    """the types of the items of values of type t"""
    t = catalog.resolve(t)
    if catalog.objkind(t):
        return [f.type for f in catalog.fields(t)]
    return [] if spec.isunion(t) else list(getattr(t, '__args__', ()))


def unsupported(S, e, v, t, c):
    """the trace leads to the value whose type, or the type of whose items, is refused"""
    S.check(refers(S, e.value, v, t, c.key), 'the exception exposes another value than the one the trace leads to')
    S.check(e.type_ == t or e.type_ in STRANGE and e.type_ in parts(t), 'the exception exposes a type that has nothing to do with the value')
    if e.type_ == t and spec.isunion(t):
        S.check(len(e.exceptions) == len(t.__args__), 'not one error for each attempt')
        for x in e.exceptions:
            w, u = follow(S, x.trace, v, t, c.key, 0)
            unsupported(S, x, w, u, c)
    elif not STRANGE & set(reach(t)):
        S.check(spec.accepts(v, t, c) != spec.YES, 'the trace leads to a value that its type accepts')


def reach(t):
    t = catalog.resolve(t)
    return {t}.union(*[reach(x) for x in (t.__args__ if spec.isunion(t) else parts(t)) if x is not ...])


STRANGE = {T('Strange')}


def h_unsupported(S, schema, depth, lens, run=None):
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, None)
    v = S.any('v', Spec(kinds=JSON, depth=depth, lens=lens if depth else (0,), dlens=(0, 1, 2) if 'Strange' == schema[2:9] or depth < 2 else (0, 1), strlen=1))
    (run or refused)(S, v, t, o, c)


def refused(S, v, t, o, c):
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    if r.ok:
        S.check(True, '')
        return
    if not typed(S, r.error):
        S.fail('untyped exception ' + type(r.error).__name__)
    e = r.error
    w, u = v, t
    if len(e.trace):
        first = e.trace[0]
        S.check(first.value is v and first.type_ == t and first.annotation is None, 'the trace does not start at the root')
        w, u = follow(S, e.trace, v, t, c.key, 1)
    unsupported(S, e, w, u, c)


def opts(S, schema):
    key = S.choose('mangle_key', ('name', 'alt')) if 'Name' in schema or 'Shift' in schema else 'name'
    return options(S, None, None, key)


def h_any(S, schema, lens, run=None):
    t = T(schema)
    pools(S, t, (), (13, 14))
    n = depthof(t) if nest(t) else 0
    v = S.any('v', Spec(kinds=JSON, depth=max(n, 1 if not catalog.objkind(t) else 1), lens=lens if n else (0,), dlens=(0, 1, 2) if spec.objkind(t) and n < 2 else (0, 1), strlen=2))
    o, c = opts(S, schema)
    (run or check)(S, v, t, o, c)


def check(S, v, t, o, c):
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    if r.ok:
        S.check(True, '')
    else:
        located(S, r.error, v, t, c)


def h_bad(S, schema, lens, ilens, depth, fuel, optional, run=None):
    t = T(schema)
    pools(S, t, (), (13, 14))
    o, c = opts(S, schema)
    h = gen.Hole(Spec(kinds=JSON, depth=depth, lens=(0, 1), dlens=(0, 1), strlen=1))
    v = gen.data(S, 'v', t, gen.G(lens, fuel, 1, h, key=c.key, optional=optional, ilens=ilens))
    S.assume(h.used)
    (run or check)(S, v, t, o, c)


def h_wide(S, schema, run=None):
    t = T(schema)
    pools(S, t)
    fs = catalog.fields(t)
    p = S.choose('position', range(len(fs)))
    d = {}
    for i, f in enumerate(fs):
        if i == p:
            d[f.name] = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=1))
        elif f.required or i % 2:
            d[f.name] = plainvalue(f.type, i)
    o, c = options(S, None, False)
    (run or check)(S, d, t, o, c)


def h_long(S, schema, run=None):
    t = T(schema)
    pools(S, t)
    n = S.choose('n', lengths((5, 12, 40)))
    p = S.choose('position', sorted({0, 1, n // 2, n - 1} & set(range(n))))
    sp = Spec(kinds=(NONE, INT, STR, LIST, DICT), depth=0, strlen=1)
    if typing.get_origin(t) is dict:
        v = {}
        for i in range(n):
            v['k_%d' % i] = S.any('v', sp) if i == p else plainvalue(t.__args__[1], i)
    else:
        v = [plainvalue(t.__args__[0], i) for i in range(n)]
        v[p] = S.any('v', sp)
    o, c = options(S, None, False)
    (run or check)(S, v, t, o, c)
