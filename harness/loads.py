"""The central harness: an arbitrary value is loaded into a schema and compared with the reference semantics."""
import typing

from .util import *
from . import spec, gen


def nest(t, seen=()):
    """how deep the containers of a schema are nested"""
    t = catalog.resolve(t)
    if t in seen:
        return 1
    if spec.objkind(t):
        return 1 + max([nest(f.type, seen + (t,)) for f in catalog.fields(t)] + [0])
    if hasattr(t, '__supertype__'):
        return nest(t.__supertype__, seen)
    o = typing.get_origin(t)
    args = [a for a in getattr(t, '__args__', ()) if a is not ...]
    if spec.isunion(t):
        return max([nest(a, seen) for a in args] + [0])
    if o in (list, set, frozenset, tuple, dict):
        return 1 + max([nest(a, seen) for a in args] + [0])
    if t in spec.DATES or t is catalog.Pair:
        return 1
    return 0


def depthof(t):
    return max(1, nest(t))


def inputspec(t, depth=None, lens=(0, 1, 2), dlens=None, strlen=3, kinds=JSON, consts=(), keykinds=(STR,), elem=None):
    return Spec(kinds=kinds, depth=depthof(t) if depth is None else depth, lens=lens, dlens=dlens, strlen=strlen,
                consts=consts, keykinds=keykinds, elem=elem)


def judge(S, v, t, c, o, schema, what=('accept', 'result')):
    """outcome o of loading v into t under configuration c against the reference semantics"""
    a = spec.accepts(v, t, c)
    if o.ok:
        if 'accept' in what:
            S.check(a != spec.NO, lambda: 'accepted a value that %s must refuse' % schema)
        if 'result' in what and a != spec.NO:
            S.check(spec.allowed(v, t, c, o.value), lambda: 'wrong result of loading into %s' % schema)
    else:
        if 'accept' in what:
            S.check(a != spec.YES, lambda: 'refused a value that %s must accept (%s)' % (schema, o.kind()))
        S.check(typed(S, o.error), lambda: 'untyped exception %s' % o.kind())


def options(S, cast=None, extra=False, key='name', **more):
    """loader options; None: symbolic"""
    cast = S.flag('basiccast') if cast is None else cast
    fe = S.flag('failonextra') if extra is None else extra
    if isinstance(key, (list, tuple)):
        key = S.choose('mangle_key', key)
    o = dict(basiccast=cast, failonextra=fe)
    if key != 'name':
        o['mangle_key'] = key
    o.update(more)
    return o, spec.Cfg(cast=cast, failonextra=fe, key=key)


def h_load(S, schema, depth=None, lens=(0, 1, 2), dlens=None, strlen=3, cast=None, extra=None, key='name',
           what=('accept', 'result'), strs=(), nums=(), keykinds=(STR,), kinds=JSON, consts=(), conf=False, elem=None, **more):
    """an arbitrary value"""
    t = T(schema)
    pools(S, t, strs, nums)
    v = S.any('v', inputspec(t, depth, tuple(lens), dlens and tuple(dlens), strlen, keykinds=tuple(keykinds),
                             kinds=tuple(kinds), consts=consts, elem=elem and Spec(kinds=elem, depth=0, lens=(0,), strlen=strlen)))
    o, c = options(S, cast, extra, key, **more)
    l = loader(S, **o)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema, what)
    if conf and r.ok:
        S.check(spec.conf(r.value, t), lambda: 'the result does not conform to ' + schema)


def h_shaped(S, schema, lens=(2,), ilens=None, fuel=2, strlen=2, cast=None, extra=None, key='name', hole=True,
             holedepth=0, what=('accept', 'result'), strs=(), optional=True, conf=False, **more):
    """well-formed data with an arbitrary value at one arbitrary position"""
    t = T(schema)
    pools(S, t, strs)
    o, c = options(S, cast, extra, key, **more)
    h = gen.Hole(Spec(kinds=JSON, depth=holedepth, lens=(0, 1), strlen=3)) if hole else None
    v = gen.data(S, 'v', t, gen.G(lens, fuel, strlen, h, key=c.key, optional=optional, ilens=ilens))
    l = loader(S, **o)
    r = attempt(l.load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema, what)
    if conf and r.ok:
        S.check(spec.conf(r.value, t), lambda: 'the result does not conform to ' + schema)


def load_tasks(schemas, prefix='load ', fn='h_load', **kw):
    """one task per schema; a schema may carry its own arguments: (name, {...})"""
    r = []
    for s in schemas:
        k = dict(kw)
        if isinstance(s, tuple):
            s, own = s
            k.update(own)
        r.append((prefix + s, fn, dict(k, schema=s)))
    return r


BOUND_TEXT = ('kinds: None, bool, int, float, str, list, dict at every position; int: |i| <= 2^53 and +-10^400; float: multiples of 1/4 up to '
              '2^40, nan, inf, -inf; text: up to 3 characters of [a-dx-z0-9-] plus every constant of the schema and every '
              'text constant new in the source; lists and dictionaries up to the stated lengths')
OUTSIDE = ('longer texts, other characters and longer containers than stated; classes other than the catalogue; objects with '
           'misbehaving methods; data nested so deep that the interpreter stack overflows')
