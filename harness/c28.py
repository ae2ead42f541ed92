"""C28: postponed annotations resolve to the same schema."""
import typing

from .loads import *
import twins

BOUNDS = dict(classes='17 NamedTuples, dataclasses and typed dictionaries of a module, defined twice, the second time with postponed annotations; alone and in lists, dictionaries, optionals, unions, tuples',
              data='arbitrary data (' + BOUND_TEXT + ') of depth 1-2; well-formed data with an arbitrary value at an arbitrary position', options='basiccast, failonextra, mangle_key')
OUTSIDE = 'attrs classes and classes inside functions (documented as unsupported); ' + OUTSIDE
NAMES = sorted(twins.EAGER)
WRAPS = {'': lambda t: t, 'List': lambda t: typing.List[t], 'Dict': lambda t: typing.Dict[str, t], 'Optional': lambda t: typing.Optional[t], 'Tuple': lambda t: typing.Tuple[t, int], 'Union': lambda t: typing.Union[int, t]}
DEEP = ('LNest', 'LKinds', 'LUnion', 'LOther', 'LName', 'LTDOpt', 'LTDMix')
for _c in twins.EAGER.values():
    if typing.is_typeddict(_c):
        h, o = {}, set()
        for _n, _t in _c.__annotations__.items():
            if typing.get_origin(_t) is typing.NotRequired:
                _t = _t.__args__[0]
                o.add(_n)
            h[_n] = _t
        catalog.TDHINTS[_c], catalog.TDOPT[_c] = h, o | set(_c.__optional_keys__)
    catalog.NAMES[_c.__name__] = _c


def tasks(tier):
    q = tier == 'quick'
    r = []
    for n in NAMES:
        r.append(('shaped ' + n, 'h_twin', dict(name=n, wrap='', shaped=True, few=q)))
        r.append(('any ' + n, 'h_twin', dict(name=n, wrap='', shaped=False, few=q)))
        for w in sorted(WRAPS)[1:]:
            if not q or n in ('LNT', 'LDC', 'LTD', 'LNode', 'LTDNot'):
                r.append(('shaped %s %s' % (w, n), 'h_twin', dict(name=n, wrap=w, shaped=True, few=q)))
        r.append(('history ' + n, 'h_history', dict(name=n)))
        r.append(('dump ' + n, 'h_dump', dict(name=n, few=q)))
    r.sort(key=lambda x: not any(y in x[0] for y in ('LNest', 'LKinds', 'Dict', 'LMore')))
    return r


def alike(a, b):
    """the same, apart from the module of the classes"""
    ta, tb = type(a), type(b)
    k = catalog.objkind(tb)
    if k:
        if ta is tb:
            return spec.same(a, b)
        if tb not in twins.EAGER.values() or ta is not twins.LAZY[tb.__name__]:
            return False
        return all([alike(getattr(a, f.name), getattr(b, f.name)) for f in catalog.fields(tb)])
    if ta is not tb:
        return False
    if ta in (list, tuple):
        return len(a) == len(b) and all([alike(x, y) for x, y in zip(a, b)])
    if ta is dict:
        return len(a) == len(b) and all([spec.same(x, y) and alike(a[x], b[y]) for x, y in zip(list(a), list(b))])
    return spec.same(a, b)


def make(S, name, wrap, shaped, few):
    t = WRAPS[wrap](twins.EAGER[name])
    pools(S, t)
    key = S.choose('mangle_key', ('name', 'alt')) if name == 'LName' else 'name'
    if shaped:
        hole = gen.Hole(Spec(kinds=JSON if not few else (NONE, LIST) if name in ('LNest', 'LKinds') else (NONE, FLOAT, LIST), depth=0, lens=(0, 1), strlen=1)) if name != 'LOther' or not few else None
        g = gen.G((1,), 2, 1, hole, key=key, optional=False, ilens=(1,))
        if few and name in ('LKinds', 'LNest', 'LName') and not wrap:
            return t, single(S, t, g), key
        v = gen.data(S, 'v', t, gen.G((1,) if few else (0, 1, 2), 2, 1, hole, key=key, optional=name not in ('LKinds', 'LDC') or not few, ilens=(1,)))
    else:
        v = S.any('v', inputspec(t, 1 if few or name in DEEP else 2, (0, 1), (0, 1, 2) if name != 'LKinds' or not few else (1,), 1))
    return t, v, key


def single(S, t, g):
    """an object with the necessary fields and one other"""
    fs = catalog.fields(t)
    p = S.choose('field', range(len(fs)))
    plain = gen.G((1,), 1, 1, None, key=g.key, optional=False, ilens=(1,))
    return {f.ext(g.key): gen.data(S, 'v.' + f.name, f.type, g if i == p else plain) for i, f in enumerate(fs) if f.required or i == p}


def h_twin(S, name, wrap, shaped, few):
    t, v, key = make(S, name, wrap, shaped, few)
    u = WRAPS[wrap](twins.LAZY[name])
    o, c = options(S, None if shaped else True, None, key)
    a = attempt(loader(S, frefs=dict(twins.EAGER), **o).load, v, t)
    rec(S, 'eager', a)
    l = loader(S, pep563=True, **o)
    for what, b in (('postponed', attempt(l.load, v, u)), ('postponed, again', attempt(l.load, v, u)), ('not postponed, with the option', attempt(loader(S, pep563=True, frefs=dict(twins.EAGER), **o).load, v, t))):
        S.record(what, b.kind())
        S.check(a.ok == b.ok, lambda: '%s: %s, %s' % (what, a.kind(), b.kind()))
        if a.ok:
            S.check(alike(b.value, a.value), what + ': another result')
        else:
            S.check(typed(S, b.error), lambda: what + ': untyped exception ' + b.kind())


def h_history(S, name):
    """both kinds of classes through one loader"""
    t, u = twins.EAGER[name], twins.LAZY[name]
    pools(S, t)
    g = gen.G((1,), 1, 1, None, optional=False, ilens=(1,))
    v = gen.data(S, 'v', t, g) if name != 'LKinds' else single(S, t, g)
    l = loader(S, pep563=True)
    first = S.choose('first', (t, u, None))
    if first is not None:
        attempt(l.load, v, first)
    if name not in ('LNode', 'LTree', 'LPing', 'LPong'):
        a, b = attempt(l.load, v, t), attempt(l.load, v, u)
        rec(S, 'eager', a)
        S.check(a.ok == b.ok and (not a.ok or alike(b.value, a.value)), lambda: 'eager: %s, postponed: %s' % (a.kind(), b.kind()))
    else:
        b = attempt(l.load, v, u)
        S.check(b.ok and (first is t or alike(b.value, attempt(loader(S, frefs=dict(twins.EAGER)).load, v, t).value)), lambda: 'postponed: ' + b.kind())


def h_dump(S, name, few):
    t, v, key = make(S, name, '', True, few)
    a = attempt(loader(S, mangle_key=key, frefs=dict(twins.EAGER)).load, v, t)
    S.assume(a.ok)
    b = attempt(loader(S, mangle_key=key, pep563=True).load, v, twins.LAZY[name])
    S.check(b.ok, 'not loaded')
    d = [attempt(dumper(S, mangle_key=key, hidedefault=S.flag('hidedefault')).dump, x) for x in (a.value, b.value)]
    rec(S, 'dump', d[0])
    S.check(d[0].ok == d[1].ok and (not d[0].ok or spec.same(d[0].value, d[1].value)), lambda: 'dumped differently: %s, %s' % (d[0].kind(), d[1].kind()))
