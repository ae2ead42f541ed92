"""C27: a loader or dumper can be shared between threads."""
from .loads import *
from sx import sched

BOUNDS = dict(callers='two; the first one is interrupted before any one of its statements by the whole of the second (thorough: the second is interrupted as well, at any statement, and the first goes on)',
              granularity='statements of the functions of typedload', data='data of the listed shapes whose scalars are symbolic (text up to 1 character and the constants of the schema, integers)',
              operations='pairs of loads or dumps of the listed types, of which one is interrupted', afterwards='a third operation on the same object')
OUTSIDE = ('interruptions inside a statement or inside functions of the interpreter; more than two callers; more interruptions; '
           'handlers of the user; references by name that only resolve because of what the other caller loads; ' + OUTSIDE)
ASSUMPTIONS = ['single operations on dictionaries, lists and attributes are atomic (global interpreter lock)']


def I(S, n, good=1):
    """a symbolic scalar, or a good value where no name is given"""
    return S.any(n, Spec(kinds=(INT, STR), depth=0, strlen=1)) if n else good


def tag(S, n, good='a'):
    return S.any(n, Spec(kinds=(STR, INT), depth=0, strlen=1)) if n else good


LOADS = {
    'int': lambda S, n: I(S, n), 'str': lambda S, n: I(S, n), 'Opt[int]': lambda S, n: I(S, n), 'Union[int,str]': lambda S, n: I(S, n),
    'List[int]': lambda S, n: [I(S, n)], 'List[str]': lambda S, n: [I(S, n)], 'List[Opt[int]]': lambda S, n: [I(S, n), None], 'Tuple[int,str]': lambda S, n: [I(S, n), 'x'], 'Tuple[int,...]': lambda S, n: (I(S, n),),
    'Dict[str,int]': lambda S, n: {'k': I(S, n)}, 'Dict[int,float]': lambda S, n: {'1': I(S, n)}, 'Dict[str,Opt[int]]': lambda S, n: {'k': I(S, n)}, 'Dict[Colour,LitMix]': lambda S, n: {'red': I(S, n, True)},
    'Union[TagA,TagB]': lambda S, n: {'t': tag(S, n), 'v': 1}, 'Union[TagB,TagA]': lambda S, n: {'t': tag(S, n), 'v': 1}, 'Union[OvA,OvB]': lambda S, n: {'t': tag(S, n, 'b')}, 'Union[OvB,OvA]': lambda S, n: {'t': tag(S, n, 'b')},
    'Union[DTagI,DTagJ]': lambda S, n: {'t': tag(S, n, 2)},
    'DC': lambda S, n: {'a': I(S, n)}, 'NT': lambda S, n: {'a': I(S, n)}, 'AT': lambda S, n: {'a': I(S, n)}, 'TD': lambda S, n: {'a': I(S, n), 'b': 'x'}, 'TDNot': lambda S, n: {'a': I(S, n)},
    'DCName': lambda S, n: {'x': I(S, n)}, 'ATName': lambda S, n: {'x': I(S, n)}, 'DCSwap': lambda S, n: {'a': I(S, n), 'b': 2}, 'DCFact': lambda S, n: {'l': [I(S, n)]}, 'DCChild': lambda S, n: {'a': I(S, n)}, 'DCBase': lambda S, n: {'a': I(S, n)},
    'DCNest': lambda S, n: {'n': {'a': I(S, n)}}, 'NTNest': lambda S, n: {'n': {'a': I(S, n)}}, 'ATNest': lambda S, n: {'n': {'a': I(S, n)}}, 'List[DC]': lambda S, n: [{'a': I(S, n)}, {'a': 2}],
    'Node': lambda S, n: {'v': 1, 'next': {'v': I(S, n)}}, 'Tree': lambda S, n: {'v': I(S, n), 'kids': [{'v': 2}]}, 'ANode': lambda S, n: {'v': 1, 'next': {'v': I(S, n)}}, 'List[Node]': lambda S, n: [{'v': I(S, n)}],
    'Opt[Tree]': lambda S, n: {'v': 1, 'kids': [{'v': I(S, n)}]}, 'Outer': lambda S, n: {'node': {'v': I(S, n)}},
    'Colour': lambda S, n: tag(S, n, 'red'), 'Num': lambda S, n: I(S, n), 'StrInt': lambda S, n: tag(S, n, '1'), 'LitMix': lambda S, n: tag(S, n, True), 'DCLit': lambda S, n: {'l': tag(S, n)},
    'ATFact': lambda S, n: {'a': [I(S, n)]}, 'List[Colour]': lambda S, n: [tag(S, n, 'red')], 'Set[int]': lambda S, n: [I(S, n)],
    'DCMix': lambda S, n: {'l': [I(S, n)], 't': [1], 's': ['x'], 'o': [2], 'n': [{'a': 1}], 'u': [1, 'x'], 'p': [1, 'y'], 'd': {'k': [1]}, 'f': [1.5], 'e': ['red']},
    'date': lambda S, n: [2020, I(S, n), 1], 'timedelta': lambda S, n: I(S, n), 'Pattern': lambda S, n: tag(S, n), 'Path': lambda S, n: tag(S, n),
}
# (interrupted or interrupting, the other)
PAIRS = [('int', 'int'), ('int', 'str'), ('Opt[int]', 'int'), ('Union[int,str]', 'Union[int,str]'), ('List[int]', 'List[int]'), ('List[int]', 'List[str]'), ('List[Opt[int]]', 'Opt[int]'),
         ('Tuple[int,str]', 'Tuple[int,...]'), ('Tuple[int,str]', 'Tuple[int,str]'), ('Dict[str,int]', 'Dict[str,int]'), ('Dict[str,int]', 'Dict[int,float]'), ('Dict[str,Opt[int]]', 'int'),
         ('Dict[Colour,LitMix]', 'Dict[Colour,LitMix]'), ('Union[TagA,TagB]', 'Union[TagA,TagB]'), ('Union[TagA,TagB]', 'Union[TagB,TagA]'), ('Union[OvA,OvB]', 'Union[OvB,OvA]'), ('Union[OvA,OvB]', 'Union[OvA,OvB]'), ('Union[DTagI,DTagJ]', 'Union[DTagI,DTagJ]'),
         ('DC', 'DC'), ('NT', 'NT'), ('AT', 'AT'), ('TD', 'TD'), ('TDNot', 'TDNot'), ('DC', 'NT'), ('DCName', 'DCName'), ('ATName', 'ATName'), ('DCSwap', 'DCSwap'), ('DCName', 'ATName'), ('DCFact', 'DCFact'),
         ('DCChild', 'DCBase'), ('DCNest', 'DC'), ('DCNest', 'DCNest'), ('NTNest', 'NT'), ('ATNest', 'ATNest'), ('List[DC]', 'List[DC]'), ('Node', 'Node'), ('Tree', 'Tree'), ('ANode', 'Node'), ('List[Node]', 'Node'),
         ('Opt[Tree]', 'Tree'), ('Outer', 'Node'), ('Colour', 'Colour'), ('Colour', 'StrInt'), ('StrInt', 'StrInt'), ('LitMix', 'LitMix'), ('DCLit', 'DCLit'), ('date', 'date'), ('timedelta', 'int'), ('Pattern', 'Path'),
         ('Num', 'Num')]
DUMPS = ['int', 'List[int]', 'List[Opt[int]]', 'Dict[str,int]', 'Tuple[int,str]', 'NT', 'DC', 'AT', 'TD', 'DCFact', 'ATFact', 'DCName', 'ATName', 'DCNest', 'NTNest', 'ATNest', 'Colour', 'Num', 'date', 'timedelta',
         'Path', 'Node', 'Tree', 'DCChild', 'List[DC]', 'List[Colour]', 'DCMix', 'Set[int]']
DPAIRS = [(s, s) for s in DUMPS] + [('DCChild', 'DC'), ('DCNest', 'DC'), ('ATNest', 'AT'), ('List[DC]', 'DC'), ('DCName', 'ATName'), ('Tree', 'DC'), ('List[int]', 'List[DC]'), ('DCFact', 'DCMix')]
KEYED = ('DCName', 'ATName')


LARGE = ('Union[', 'Node', 'Tree', 'Outer', 'Nest', 'Lit', 'Pattern', 'Colour', 'Name', 'DCMix')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for kind, pairs in (('load', PAIRS), ('dump', DPAIRS)):
        for a, b in pairs:
            k = dict(a=a, b=b)
            f = 'h_%ss' % kind
            big = any(x in a + b for x in LARGE)
            if q and big:
                r.append(('%s %s | %s' % (kind, a, b), f, dict(k, limit=1, reduced=True)))
            else:
                r.append(('%s %s | %s' % (kind, a, b), f, dict(k, limit=1, reduced=False)))
            if a != b:
                r.append(('%s %s | %s' % (kind, b, a), f, dict(a=b, b=a, limit=1, reduced=q and big)))
            if not q:
                r.append(('%s %s || %s' % (kind, a, b), f, dict(k, limit=2, reduced=True)))
    r.sort(key=lambda x: not (any(y in x[0] for y in LARGE) or '||' in x[0]))
    return r


def shared(c, reduced):
    return sched.watched(c) if reduced else c


def same(S, what, a, b):
    S.check(a.kind() == b.kind(), lambda: '%s: sharing gives %s instead of %s' % (what, a.kind(), b.kind()))
    if a.ok:
        S.check(spec.same(a.value, b.value), lambda: what + ': sharing gives another result')


def h_loads(S, a, b, limit, reduced):
    t, u = T(a), T(b)
    pools(S, t)
    pools(S, u)
    v, w = LOADS[a](S, 'v'), LOADS[b](S, 'w' if limit > 1 else None)
    l = shared(S.tl.dataloader.Loader, reduced)()
    if limit == 1 and S.choose('used', (False, True)):
        attempt(l.load, 1, int)
    f, g = lambda: attempt(l.load, v, t), lambda: attempt(l.load, w, u)
    if S.choose('interrupted', (True, False)):
        x, y = S.interleave(f, g, limit, reduced)
    else:
        y, x = S.interleave(g, f, limit, reduced)
    rec(S, 'first', x)
    rec(S, 'second', y)
    fx, fy = attempt(loader(S).load, v, t), attempt(loader(S).load, w, u)
    same(S, a, x, fx)
    same(S, b, y, fy)
    same(S, a + ' afterwards', attempt(l.load, v, t), fx)
    same(S, b + ' afterwards', attempt(l.load, w, u), fy)


def h_dumps(S, a, b, limit, reduced):
    t, u = T(a), T(b)
    pools(S, t)
    pools(S, u)
    x, y = attempt(loader(S).load, LOADS[a](S, 'v'), t), attempt(loader(S).load, LOADS[b](S, 'w' if limit > 1 else None), u)
    S.assume(x.ok and y.ok)
    v, w = x.value, y.value
    o = dict(hidedefault=S.flag('hidedefault'))
    d = shared(S.tl.datadumper.Dumper, reduced)(**o)
    args = (t,) if S.choose('annotated', (False, True)) else ()
    x, y = S.interleave(lambda: attempt(d.dump, v, *args), lambda: attempt(d.dump, w), limit, reduced)
    rec(S, 'first', x)
    rec(S, 'second', y)
    fx, fy = attempt(dumper(S, **o).dump, v, *args), attempt(dumper(S, **o).dump, w)
    same(S, 'interrupted', x, fx)
    same(S, 'interrupting', y, fy)
    same(S, 'afterwards', attempt(d.dump, v, *args), fx)
    same(S, 'afterwards', attempt(d.dump, w), fy)
