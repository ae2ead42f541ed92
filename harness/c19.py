"""C19: recursive types referred to by name load to any depth, wherever they are nested."""
from .loads import *

BOUNDS = dict(input='data of the schema nested up to 3 levels of recursion with one arbitrary value at an arbitrary position; an arbitrary value of depth 2; chains of 12 (thorough: 40) levels with an arbitrary value '
              'at an arbitrary one (' + BOUND_TEXT + ')', lengths='containers of 0-2 items', options='basiccast, failonextra symbolic; pep563; name resolution on, off, prepared by the user',
              histories='0-1 (thorough: 2) other loads by the same loader before, good and bad, related and unrelated')
OUTSIDE = ('classes of the same name loaded by one loader (documented as ambiguous); references to a class that is neither enclosing nor encountered before; bare strings as dataclass or attrs annotations; ' + OUTSIDE)
SELF = ['Node', 'Tree', 'ANode', 'TDNode', 'MNode', 'Expr', 'BinOp', 'TupNode', 'SNode', 'DirNode', 'TDTree']
WRAP = ['List[Node]', 'Opt[Tree]', 'Dict[str,ANode]', 'Tuple[int,TDNode]', 'Union[Tree,int]', 'Union[Node,Tree]', 'List[Opt[MNode]]', 'Union[Leaf,BinOp]', 'Dict[str,Dict[str,Node]]', 'FrozenSet[SNode]',
        'Other', 'Holder', 'List[Expr]', 'Union[List[Node],Tree]', 'Tuple[TupNode,...]', 'Opt[TDTree]', 'Tuple[Node,Tree]', 'Dict[int,Union[Expr,None]]', 'Union[int,DirNode]']
HEAVY = ('TupNode', 'BinOp', 'TDTree', 'Holder', 'Union[Leaf,BinOp]', 'Opt[TDTree]', 'Tuple[TupNode,...]')
OPS = ((1, 'int'), ([1], 'List[int]'), ({'v': 'x'}, 'Node'), ({'v': 1, 'next': {'v': 2}}, 'Node'), ({'v': 1, 'kids': [{}]}, 'Tree'), ({'nodes': []}, 'Other'), ([], 'Opt[Tree]'), ({'v': 1, 'next': 2}, 'ANode'),
       ({}, 'Pong'), ({'v': 1, 'x': {}}, 'Lost'), ({'v': 1}, 'Union[Tree,Node]'), ('x', 'Union[Expr,MNode]'), ({'op': 'leaf', 'v': 1}, 'Union[Leaf,BinOp]'), ([[]], 'Dict[str,Node]'), ({'a': 1}, 'NT'))


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in WRAP:
        n = s.count('[') + s.count('Holder') * 2
        r.append(('shaped ' + s, 'h_shaped', dict(schema=s, lens=(1,), fuel=(1 if q else 2) if n > 1 or s in HEAVY else 2 if q else 3, strlen=1, optional=not q, holedepth=0)))
    for s in SELF:
        wide = s in ('Node', 'ANode', 'TDNode', 'DirNode')
        r.append(('shaped ' + s, 'h_shaped', dict(schema=s, lens=(0, 1), fuel=(3 if wide else 1 if s in HEAVY else 2) + (not q), strlen=1, optional=wide, holedepth=0, hole=True)))
        if not wide and s != 'BinOp':
            r.append(('pairs ' + s, 'h_shaped', dict(schema=s, lens=(2,), fuel=1, strlen=1, optional=False, hole=True)))
        r.append(('any ' + s, 'h_load', dict(schema=s, depth=1 if s in ('TupNode',) or q else 2, lens=(0, 1), dlens=(0, 1), strlen=2)))
        r.append(('off ' + s, 'h_off', dict(schema=s)))
        r.append(('after ' + s, 'h_history', dict(schema=s, two=not q)))
        r.append(('deep ' + s, 'h_deep', dict(schema=s, levels=(3, 12) if q else (3, 12, 25, 40))))
        if s not in ('DirNode',):
            r.append(('dump ' + s, 'h_dump', dict(schema=s, fuel=1 if s in HEAVY and q else 2)))
    for s in ('Ping', 'Pong', 'Lost', 'Outer', 'List[Ping]', 'Tuple[Pong,Ping]'):
        r.append(('known ' + s, 'h_known', dict(schema=s)))
    r.append(('names', 'h_names', {}))
    r.append(('pep563', 'h_pep563', {}))
    r.sort(key=lambda x: not any(i in x[0] for i in HEAVY + ('known',)))
    return r


def h_off(S, schema):
    """name resolution disabled: only data that does not need it loads"""
    t = T(schema)
    pools(S, t)
    o, c = options(S)
    c.known = ()
    h = gen.Hole(Spec(kinds=JSON, depth=0, lens=(0,), strlen=1))
    v = gen.data(S, 'v', t, gen.G((0, 1), 1, 1, h))
    l = loader(S, frefs=None, **o)
    for i in range(2):
        r = attempt(l.load, v, t)
        rec(S, 'load', r)
        judge(S, v, t, c, r, schema)


def h_history(S, schema, two):
    """the same loader did something else before"""
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, False)
    l = loader(S, **o)
    for i in range(2 if two else 1):
        w, s = OPS[S.choose('op%d' % i, range(len(OPS)))]
        attempt(l.load, w, T(s))
    light = schema not in ('BinOp', 'TupNode')
    v = gen.data(S, 'v', t, gen.G((1,), int(light or two), 1, gen.Hole(Spec(kinds=(NONE, INT, STR, DICT), depth=0, strlen=1)), optional=two))
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def level(S, schema, inner, i):
    """one more level around inner; None: the innermost"""
    none = inner is None
    if schema in ('Node', 'ANode', 'TDNode', 'DirNode'):
        d = {'v': 2 ** 60 + i}
        if not none:
            d['next'] = inner
    elif schema == 'Tree':
        d = {'v': 2 ** 60 + i, 'kids': [] if none else [inner]}
    elif schema == 'MNode':
        d = {} if none else {'m': {'k_': inner}}
    elif schema == 'Expr':
        d = {'v': 2 ** 60 if none else inner if i % 2 else [inner]}
    elif schema == 'BinOp':
        d = {'op': 'bin', 'a': {'op': 'leaf', 'v': 2 ** 60 + i} if none else inner}
    elif schema == 'TupNode':
        d = {'p': [2 ** 60 + i, None if none or i % 2 else inner], 'q': [inner] if not none and i % 2 else []}
    elif schema == 'SNode':
        d = {'n': 2 ** 60 + i, 's': [] if none else [inner]}
    else:
        d = {'l': [] if none or i % 2 else [inner]}
        if not none and i % 2:
            d['d'] = {'k_': inner}
    return d


def h_deep(S, schema, levels):
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, False)
    n = S.choose('levels', levels)
    p = S.choose('position', sorted({0, 1, n // 2, n - 1}))
    v = None
    for i in range(n):
        if i == p:
            v = S.any('v', Spec(kinds=(NONE, INT, STR, LIST, DICT), depth=0, strlen=1))
        v = level(S, schema, v, i)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_dump(S, schema, fuel):
    """a recursive value survives dump and load"""
    t = T(schema)
    pools(S, t)
    v = gen.value(S, 'v', t, gen.G((0, 1), fuel, 1))
    hide = S.flag('hidedefault')
    d = attempt(dumper(S, hidedefault=hide).dump, v, *((t,) if S.choose('annotated', (True, False)) else ()))
    rec(S, 'dump', d)
    S.check(d.ok, lambda: 'dump fails with ' + d.kind())
    r = attempt(loader(S, basiccast=False, failonextra=True).load, d.value, t)
    rec(S, 'load', r)
    S.check(r.ok, lambda: 'loading back fails with ' + r.kind())
    S.check(spec.same(r.value, v), 'another value comes back')


def h_known(S, schema):
    """references to other classes: known, if the class was encountered or the user said so"""
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, False)
    l = loader(S, **o)
    how = S.choose('how', ('fresh', 'loaded', 'failed', 'set', 'kwarg'))
    c.known = {'Ping', 'Pong', 'Node'}
    if how == 'fresh':
        c.known = {schema.strip('List[]')} | ({'Node'} if schema == 'Outer' else set())
        S.assume(schema not in ('Outer', 'Tuple[Pong,Ping]'))       # which classes were encountered depends on the data
    elif how == 'set':
        for k in c.known:
            l.frefs[k] = T(k)
    elif how == 'kwarg':
        l = loader(S, frefs={k: T(k) for k in c.known}, **o)
    else:
        for k in sorted(c.known):
            attempt(l.load, {'v': 1} if how == 'loaded' and k != 'Pong' else {} if how == 'loaded' else 5, T(k))
    v = gen.data(S, 'v', t, gen.G((0, 1), 2 if schema in ('Ping', 'Lost', 'Outer') else 1, 1, gen.Hole(Spec(kinds=JSON, depth=0, lens=(0,), strlen=1)), optional=schema in ('Lost',)))
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)


def h_names(S):
    """a name loaded on its own"""
    s = S.choose('name', ('Node', 'Nowhere', 'Expr', 'node', 'NODE', 'Nod', 'Nodes', 'catalog.Node', '_Node', 'Exp', 'ode'))
    t = __import__('typing').ForwardRef(s)
    how = S.choose('how', ('fresh', 'loaded', 'off', 'custom'))
    o, c = options(S)
    pools(S, T('Tuple[Node,Expr]'))
    l = loader(S, **o)
    c.known = ()
    if how == 'loaded':
        attempt(l.load, 5, T('Node'))
        attempt(l.load, 5, T('Expr'))
        c.known = ('Node', 'Expr')
    elif how == 'off':
        l.frefs = None
        attempt(l.load, 5, T('Node'))
    elif how == 'custom':
        l.frefs = {'Node': catalog.Node}
        c.known = ('Node',)
    S.assume(how != 'custom' or s != 'Expr')
    v = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), dlens=(0, 1, 2), strlen=1))
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, 'the name ' + s)


def h_pep563(S):
    schema = S.choose('schema', ('Node', 'Tree', 'TDNode', 'MNode', 'Expr', 'DirNode'))
    t = T(schema)
    pools(S, t)
    o, c = options(S, None, None, pep563=True)
    v = gen.data(S, 'v', t, gen.G((1,), 2, 1, gen.Hole(Spec(kinds=(NONE, INT, STR, DICT), depth=0, strlen=1)), optional=False))
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)
