"""C04: with casting, basic values convert exactly as the type's constructor does."""
from .loads import *
from .c03 import contexts, OBJ

BOUNDS = dict(input=BOUND_TEXT + '; numeric and other notations as text constants; tuples, sets, subclasses of the basic types, bytes, '
              'Decimal, Fraction, objects', contexts='as C03', options='basiccast on; failonextra symbolic')
NUMS = ('5', ' 5 ', '1_0', '+7', '-0', '0x1f', '5.0', '1e2', '0.5', 'nan', 'inf', '-Infinity', 'True', 'False', 'None', '', ' ',
        '\u0663', '1 2', '5\n')
ODDC = SUBS + (b'5', b'x', decimal.Decimal('1.5'), fractions.Fraction(7, 2), frozenset((1,)), catalog.Colour.RED, 1e300, complex(1, 2),
               '\u0663', range(2), 10 ** 5000, int)


def tasks(tier):
    q = tier == 'quick'
    r = [('field ' + o, 'h_field', dict(schema=o)) for o in OBJ]
    r += load_tasks(contexts(), fn='h_cast', lens=(1,) if q else (0, 1, 2), two=(1,) if q else (0, 1, 2))
    return r


def h_cast(S, schema, lens, two):
    t = T(schema)
    pools(S, t, NUMS)
    d = depthof(t)
    c = Spec(kinds=JSON, depth=d - 1, lens=two, dlens=(1,), consts=ODDC, strlen=2)
    key = Spec(kinds=KEYKINDS, depth=0, strlen=2, consts=ODDC)
    top = spec.isbasic(t)
    v = S.any('v', Spec(kinds=ALLKINDS, depth=d, lens=(0, 1, 2) if top else two if d > 1 else lens, dlens=(0, 1), strlen=3, consts=ODDC,
                        elem=c, key=key))
    o, c = options(S, True, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    if spec.isbasic(t) and t is not catalog.NoneType:
        if type(v) is t:
            S.check(r.ok and spec.same(r.value, v), 'a value of the requested type was not returned as it is')
        else:
            ok, x = spec.conv(t, v)
            S.check(ok == r.ok, lambda: 'loading and calling %s differ: %s' % (schema, r.kind()))
            if ok:
                S.check(spec.same(r.value, x), lambda: 'the conversion differs from ' + schema)
            else:
                S.check(typed(S, r.error), 'untyped exception')
    else:
        judge(S, v, t, c, r, schema)


def h_field(S, schema):
    t = T(schema)
    pools(S, t, NUMS)
    fs = catalog.fields(t)
    data = dict(i=1, o=True, f=0.5, s='q', n=None)
    f = S.choose('field', range(5))
    data[fs[f].name] = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=3, consts=ODDC))
    o, c = options(S, True, None)
    r = attempt(loader(S, **o).load, data, t)
    rec(S, 'load', r)
    judge(S, data, t, c, r, schema)
