"""C24: namespaces and dict-like objects load like the equivalent dictionary."""
import argparse
import collections
import collections.abc
import types

from .loads import *

BOUNDS = dict(schemas='28 dictionary and object types', data='well-formed data with an arbitrary value (' + BOUND_TEXT + ', namespaces) at an arbitrary position, and up to one extra attribute of 9 names; names and keys symbolic text',
              forms='argparse.Namespace and a subclass; UserDict, OrderedDict, defaultdict, ChainMap, MappingProxyType, a Mapping, a class with only the methods for reading; at every level, at the top, or below it',
              options='basiccast, failonextra, dictequivalence, mangle_key')
OUTSIDE = 'mappings whose methods disagree or misbehave, attributes named like a method of the namespace class; unions where a dictionary-like object also loads into a member that is no dictionary and no object; ' + OUTSIDE
SCHEMAS = ['NT', 'NTSubVar', 'NTNest', 'DC', 'DCKw', 'DCVar', 'ATVar', 'DCNest', 'DCSwap', 'DCName', 'DCCamel', 'DCShift', 'DCLit', 'DCFact', 'AT', 'ATNest', 'ATName', 'ATSwap', 'ATShift', 'TD', 'TDOpt', 'TDMix', 'TDRev', 'TDNest', 'DCNameNest',
           'Dict[str,int]', 'Dict[str,DC]', 'Dict[str,Dict[str,int]]', 'Dict[str,List[NT]]', 'Opt[DC]', 'Union[DC,int]', 'Union[int,Dict[str,str]]', 'Union[TagA,TagB]', 'Union[DTagA,DTagB]', 'Union[DC,NT]',
           'List[DC]', 'Tree', 'Node', 'Dict[Colour,int]', 'Dict[LitA,int]', 'DCAny', 'TDAny', 'DCEmptyName', 'Union[OTagA,OTagB]']
NAMES = ('_x', 'items', 'keys', 'get', 'values', '__dict__', 'a b', '', 'self', '__class__')


class Space(argparse.Namespace):
    """a subclass"""

    def twice(self):
        return 2


class Reading:
    """only the methods for reading"""

    def __init__(self, d):
        self._d = d

    def keys(self):
        return list(self._d)

    def values(self):
        return [self._d[k] for k in self._d]

    def items(self):
        return ((k, self._d[k]) for k in self._d)

    def get(self, k, default=None):
        return self._d[k] if k in self._d else default

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)


class Mapped(collections.abc.Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)


def space(c):
    def make(d):
        r = c()
        r.__dict__.update(d)
        return r
    return make


SPACES = {'Namespace': space(argparse.Namespace), 'subclass': space(Space)}
MAPPINGS = {'UserDict': lambda d: collections.UserDict(d), 'OrderedDict': lambda d: collections.OrderedDict(d), 'defaultdict': lambda d: collections.defaultdict(int, d),
            'ChainMap': lambda d: collections.ChainMap({}, d), 'proxy': types.MappingProxyType, 'Mapping': Mapped, 'reading': Reading, 'subclass of dict': MyDict}


def tasks(tier):
    q = tier == 'quick'
    r = []
    for s in SCHEMAS:
        for g in ('space', 'mapping'):
            r.append(('%s %s' % (g, s), 'h_like', dict(schema=s, group=g, few=q)))
    for s in ('DC', 'Dict[str,int]', 'TD', 'NT', 'ATName', 'DCNameNest', 'DCName'):
        r.append(('any space ' + s, 'h_any', dict(schema=s, group='space', few=q)))
        r.append(('any mapping ' + s, 'h_any', dict(schema=s, group='mapping', few=q)))
    for s in ('DC', 'DCName', 'AT', 'ATName', 'NT', 'TD', 'Dict[str,int]', 'Dict[str,Any]', 'Opt[DC]', 'Union[DC,Dict[str,int]]', 'Union[int,NT]'):
        r.append(('refused ' + s, 'h_refused', dict(schema=s)))
    for s in ('DCNest', 'Dict[str,DC]', 'List[NT]', 'ATNest', 'TDNest'):
        r.append(('refused inside ' + s, 'h_refusedin', dict(schema=s)))
    return r


def convert(v, make, where, top=True):
    """the same data with other objects instead of the dictionaries"""
    if type(v) is list:
        return [convert(x, make, where, top) for x in v]
    if type(v) is dict:
        d = {k: convert(x, make, where, False) for k, x in v.items()}
        if where == 'all' or top == (where == 'top'):
            return make(d)
        return d
    return v


def plainkeys(v):
    """may all the dictionaries be namespaces?"""
    if type(v) is list:
        return all([plainkeys(x) for x in v])
    if type(v) is dict:
        return all([isinstance(k, str) and plainkeys(x) for k, x in v.items()])
    return True


def like(a, b):
    """equal, apart from the class of dictionary-like things that were not converted"""
    if isinstance(a, argparse.Namespace):
        a = a.__dict__
    elif type(a) in DICTLIKE:
        a = dict(a.items())
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all([like(x, y) for x, y in zip(a, b)])
    if type(a) is dict and type(b) is dict:
        if len(a) != len(b):
            return False
        ka, kb = list(a), list(b)
        return all([spec.same(x, y) and like(a[x], b[y]) for x, y in zip(ka, kb)])
    if catalog.objkind(type(a)) and type(a) is type(b):
        return all([like(getattr(a, f.name), getattr(b, f.name)) for f in catalog.fields(type(a))])
    return spec.same(a, b)


DICTLIKE = (collections.UserDict, collections.OrderedDict, collections.defaultdict, collections.ChainMap, types.MappingProxyType, Mapped, Reading, MyDict)


def compare(S, l, v, w, t):
    a = attempt(l.load, v, t)
    b = attempt(l.load, w, t)
    rec(S, 'dictionary', a)
    S.record('other', b.kind())
    S.check(a.ok == b.ok, lambda: 'a dictionary: %s, the other: %s' % (a.kind(), b.kind()))
    if a.ok:
        S.check(like(b.value, a.value), 'another result than for the dictionary')
    else:
        S.check(a.kind() == b.kind(), lambda: 'another failure than for the dictionary: %s, %s' % (a.kind(), b.kind()))
        S.check(typed(S, b.error), lambda: 'untyped exception ' + b.kind())


def h_like(S, schema, group, few):
    t = T(schema)
    pools(S, t)
    o, c = options(S, None if schema not in ('Any',) else True, None)
    deep = 'Nest' in schema or schema.count('[') > 1 or schema in ('Tree', 'Node', 'Dict[str,DC]')
    hole = gen.Hole(Spec(kinds=(NONE, INT, STR, LIST) if not deep and not few else (NONE, STR), depth=0, lens=(0,), strlen=1))
    if few and schema in ('DCAny', 'DCFact', 'Dict[str,List[NT]]', 'DCNest', 'ATNest'):
        hole = None
    v = gen.data(S, 'v', t, gen.G((1,) if deep or few else (0, 1, 2), 1, 1, hole, optional=not few and not deep, ilens=(1,)))
    S.assume(type(v) in (dict, list))
    if type(v) is dict and S.choose('extra', (False, True)):
        k = S.choose('name', NAMES[:3] if few else NAMES)
        S.assume(k not in v)
        v[k] = S.any('x', Spec(kinds=(INT,), depth=0))
    forms = SPACES if group == 'space' else MAPPINGS
    f = S.choose('form', sorted(forms)) if not few else S.choose('form', sorted(forms)[::3])
    if group == 'space':
        S.assume(plainkeys(v))
    where = S.choose('where', ('all', 'top', 'below') if deep else ('all',))
    l = loader(S, **o)
    if group == 'mapping':
        l.dictequivalence = S.flag('dictequivalence')
    compare(S, l, v, convert(v, forms[f], where), t)


def h_any(S, schema, group, few):
    """any names, any values"""
    t = T(schema)
    pools(S, t)
    names = catalog.consts(t)[0]
    v = {}
    for i in range(S.choose('len', (0, 1, 2) if few else (0, 1, 2, 3))):
        k = S.any('k%d' % i, Spec(kinds=(STR,), depth=0, strlen=1))
        gen.distinct(S, v, k)
        v[k] = S.any('v%d' % i, Spec(kinds=(INT, STR) if i else SCALAR, depth=0, strlen=1))
    o, c = options(S, None, None)
    forms = SPACES if group == 'space' else MAPPINGS
    f = S.choose('form', sorted(forms))
    l = loader(S, **o)
    compare(S, l, v, forms[f](v), t)


def h_refused(S, schema):
    t = T(schema)
    pools(S, t)
    v = {}
    good = S.choose('good', (True, False))
    if good:
        v = gen.data(S, 'v', t, gen.G((1,), 1, 1, None, optional=False, ilens=(1,)))
        S.assume(type(v) is dict)
    else:
        for i in range(S.choose('len', (0, 1, 2))):
            k = S.any('k%d' % i, Spec(kinds=(STR,), depth=0, strlen=1))
            gen.distinct(S, v, k)
            v[k] = S.any('v%d' % i, Spec(kinds=SCALAR, depth=0, strlen=1))
    if S.choose('method names', (False, True)):
        v.update({'keys': 1, 'items': [], 'get': None})
    o, c = options(S, None, None)
    l = loader(S, dictequivalence=False, **o)
    r = attempt(l.load, SPACES[S.choose('form', sorted(SPACES))](v), t)
    rec(S, 'load', r)
    S.check(not r.ok, 'a namespace was loaded although dictequivalence is disabled')
    S.check(typed(S, r.error), lambda: 'untyped exception ' + r.kind())


def h_refusedin(S, schema):
    t = T(schema)
    pools(S, t)
    v = gen.data(S, 'v', t, gen.G((1,), 1, 1, None, optional=False, ilens=(1,)))
    w = convert(v, SPACES['Namespace'], 'below' if type(v) is dict else 'all')
    l = loader(S, dictequivalence=False)
    S.check(attempt(l.load, v, t).ok, 'the dictionary is refused')
    r = attempt(l.load, w, t)
    rec(S, 'load', r)
    S.check(not r.ok and typed(S, r.error), lambda: 'a namespace was loaded although dictequivalence is disabled')
    S.check(attempt(loader(S).load, w, t).ok, 'a namespace is refused although dictequivalence is enabled')
