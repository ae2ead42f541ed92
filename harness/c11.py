"""C11: union conflict debugging only reports real ambiguities."""
from .loads import *
from .c09 import C2, C3, U2, U3

BOUNDS = dict(input=BOUND_TEXT, unions='as C09, and tagged unions', options='basiccast, failonextra symbolic; uniondebugconflict on, and off for the comparison')
TAGGED = ['TagA,TagB', 'DTagA,DTagB', 'DTagI,DTagJ', 'TDTagA,TDTagB', 'DTag2A,DTag2B', 'ATagA,ATagB', 'TagX,TagY,TagA']
MORE = ['NT,DC,AT', 'List[int],Tuple[int,...],Set[int]', 'int,float,bool,str', 'DC,DCFrozen', 'NTDef,TDOpt,int', 'List[Union[int,str]],List[str]', 'Opt[int],Colour,str',
        'QNT,QDC']


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in C3 + MORE + C2 + TAGGED:
        n = nest(T('Union[%s]' % s))
        r.append(('union ' + s, 'h_conflict', dict(members=s, lens=(0, 1) if not q or n < 2 else (1,),
                                                   dlens=(0, 1, 2) if n < 2 and 'Q' not in s and 'TagX' not in s else (1,) if q else (0, 1), full=not q)))
    for s in U2 + U3:
        r.append(('union ' + s, 'h_conflict', dict(members=s, lens=(0, 1), dlens=(0, 1), full=not q)))
    for s in ['TagA,TagB', 'DTagA,DTagB', 'DTagI,DTagJ', 'ATagA,ATagB', 'QNT,QDC', 'QAT,QTD', 'NT,DC,str', 'List[int],Tuple[int,...]', 'NTNest,TDNest', 'TagX,TagY']:
        r.append(('shaped ' + s, 'h_shapedconflict', dict(members=s, lens=(1,) if q else (0, 1, 2))))
    return r


def final(S, v, u, members, o):
    on, off = dict(o, uniondebugconflict=True), dict(o, uniondebugconflict=False)
    r = attempt(loader(S, **on).load, v, u)
    plain = attempt(loader(S, **off).load, v, u)
    rec(S, 'conflict', r)
    rec(S, 'plain', plain)
    args = u.__args__
    if type(v) in spec.BASIC and type(v) in args:
        S.check(r.ok and spec.same(r.value, v), 'a value of a basic type of the union was not returned unchanged')
        return
    n = m = 0
    for a in args:
        n += attempt(loader(S, **on).load, v, a).ok
        m += attempt(loader(S, **off).load, v, a).ok
    if n == 1 and m > 1:
        # all but one of the members that accept the value are ambiguous in themselves
        pass
    elif n == 1:
        S.check(r.ok, 'refused although exactly one member accepts the value')
        S.check(plain.ok and spec.same(r.value, plain.value), 'the value changes with uniondebugconflict')
    elif n == 0:
        S.check(not r.ok and typed(S, r.error), 'accepted although no member accepts the value')
    else:
        S.check(not r.ok and isinstance(r.error, S.tl.exceptions.TypedloadTypeError), lambda: '%d members accept the value: %s' % (n, r.kind()))


def h_conflict(S, members, lens, dlens, full):
    u = T('Union[%s]' % members)
    pools(S, u)
    v = S.any('v', inputspec(u, None, lens, dlens, 3 if full else 2, kinds=JSON))
    o, c = options(S, None, None if full else False)
    final(S, v, u, members, o)


def h_shapedconflict(S, members, lens):
    u = T('Union[%s]' % members)
    pools(S, u)
    o, c = options(S, False, None)
    h = gen.Hole(Spec(kinds=JSON, depth=0, lens=(0, 1), strlen=1))
    v = gen.data(S, 'v', u, gen.G(lens, 2, 2, h, optional=True, ilens=(1,)))
    final(S, v, u, members, o)
