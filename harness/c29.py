"""C29: the type of the parameter of a converter is the type of the field."""
from .loads import *
import convs

FORMS = sorted(convs.FORMS)
BOUNDS = dict(forms='%d ways of writing a converter: ' % len(FORMS) + ', '.join(FORMS), types='of the parameter: ' + ', '.join(convs.TYPES), declared='the type the field itself declares: ' + ', '.join(str(x) for x in convs.DECLARED),
              input='the value of the field: ' + BOUND_TEXT + '; renamed, missing and extra fields', contexts='the class alone, in a list, a dictionary, an optional, a union', errors='converters that raise ValueError, TypeError',
              options='basiccast, failonextra, mangle_key, histories of one load')
OUTSIDE = ('converters that themselves convert (what they are given is decided here, what they make of it is theirs, apart from constants for the builtin types); converters with type hints that cannot be resolved; ' + OUTSIDE)
MIXED = ('only_return', 'second_typed_return', 'callable_object', 'typed', 'optional', 'plain')


def tasks(tier):
    q = tier == 'quick'
    r = [('field %s %s' % (f, t), 'h_field', dict(form=f, schema=t, full=not q)) for t in convs.TYPES for f in FORMS if not q or t in ('int', 'NT') or f in MIXED]
    r += [('in %s' % f, 'h_in', dict(form=f, full=not q)) for f in FORMS]
    r += [('names ' + f, 'h_names', dict(form=f)) for f in MIXED]
    r += [('after %s %s' % (f, g), 'h_after', dict(first=f, then=g)) for f in MIXED for g in MIXED]
    r += [('errors', 'h_errors', {}), ('builtins', 'h_builtins', {})]
    r.sort(key=lambda x: not ('NT' in x[0] or x[0].startswith('in')))
    return r


def settled(form, v):
    """attrs' own converters test for None by identity"""
    if form in ('optional', 'if_none') and spec.same(v, None):
        return None
    return v


def given(y, form):
    """what the converter was given"""
    if form in ('plain', 'if_none'):
        return y
    if type(y).__name__ == 'Record' or type(y).__name__ == 'Made':
        return y.x
    return y.x if isinstance(y, convs.Box) else Refused


class Refused:
    pass


def judged(S, r, alone, form, field, value, ptype):
    """outcome r of loading an object whose field has the value, against that of the value alone"""
    if r.ok:
        S.check(alone.ok, lambda: 'a value that the type of the converter refuses was accepted (%s)' % alone.kind())
        y = getattr(r.value, field)
        if form == 'optional' and spec.same(alone.value, None):
            S.check(spec.same(y, None), 'None was converted')
        elif form == 'if_none' and spec.same(alone.value, None):
            S.check(y is convs.T(ptype), 'not the default of the converter')
        else:
            S.check(spec.same(given(y, form), alone.value), 'the converter was given something else')
    else:
        S.check(typed(S, r.error), 'untyped exception')
        S.check(not alone.ok, lambda: 'a value that the type of the converter accepts was refused: ' + r.kind())
        S.check(r.kind() == alone.kind(), 'another kind of failure')
        S.check(spec.same(r.error.value, alone.error.value), 'another value is reported')
        S.check(len(r.error.trace) == len(alone.error.trace) + (1 if alone.error.trace[0].annotation is None else 0), 'another trace')


def anyvalue(S, n, p, full):
    d = depthof(p) if nest(p) else 1
    return S.any(n, Spec(kinds=JSON, depth=d, lens=(0, 1) if full or d < 2 else (1,), dlens=(0, 1), strlen=2 if full else 1, elem=None if full else Spec(kinds=SCALAR, depth=0, strlen=1)))


def h_field(S, form, schema, full):
    declared = S.choose('declared', convs.DECLARED[1:3] if form == 'plain' else convs.DECLARED if full or schema == 'int' and form in MIXED else (None, str, convs.DECLARED[4]) if schema == 'int' else (int,))
    c, p = convs.cls(form, schema, declared)
    pools(S, p, ('f', 'a', 'b', 'd', '0'))
    o, cfg = options(S, None, False)
    l = loader(S, **o)
    v = settled(form, anyvalue(S, 'v', p, full))
    r = attempt(l.load, {'f': v}, c)
    alone = attempt(loader(S, **o).load, v, p)
    rec(S, 'object', Out(r.ok, 0 if r.ok else r.error))
    rec(S, 'alone', alone)
    S.check(r.ok or typed(S, r.error), 'untyped exception')
    judged(S, r, alone, form, 'f', v, schema)
    if r.ok and form != 'plain' and form not in ('optional',):
        S.check(spec.same(given(r.value.d, form), 7), 'the default was not converted')
        S.check(r.value.a == 1 and r.value.b == 'x', 'other fields changed')


def h_in(S, form, full):
    import typing
    schema = S.choose('type', ('int', 'Opt[str]', 'List[int]'))
    c, p = convs.cls(form, schema, bytes if form != 'plain' else int)
    pools(S, p, ('f', 'a', 'b', 'd', 'e', '0'))
    o, cfg = options(S, None, None if full else False)
    v = S.any('v', Spec(kinds=(NONE, INT, STR, LIST) if not full else JSON, depth=1, lens=(0, 1), dlens=(1,), strlen=1, elem=Spec(kinds=(INT, STR), depth=0, strlen=1)))
    v = settled(form, v)
    data = {'f': v}
    k = S.choose('where', ('list', 'dict', 'optional', 'union', 'field'))
    l = loader(S, **o)
    if k == 'list':
        r = attempt(l.load, [data], typing.List[c])
        get = lambda x: x[0]
    elif k == 'dict':
        r = attempt(l.load, {'k': data}, typing.Dict[str, c])
        get = lambda x: x['k']
    elif k == 'optional':
        r = attempt(l.load, data, typing.Optional[c])
        get = lambda x: x
    elif k == 'union':
        r = attempt(l.load, data, typing.Union[T('date'), c])
        get = lambda x: x
    else:
        r = attempt(l.load, {'x': data}, holder(c))
        get = lambda x: x.x
    alone = attempt(loader(S, **o).load, v, p)
    rec(S, 'object', Out(r.ok, 0 if r.ok else r.error))
    S.check(r.ok == alone.ok, lambda: 'in a %s: %s, the value alone: %s' % (k, r.kind(), alone.kind()))
    if r.ok:
        judged(S, Out(True, get(r.value)), alone, form, 'f', v, schema)
    else:
        S.check(typed(S, r.error), 'untyped exception')


HOLD = {}


def holder(c):
    import typing
    if c not in HOLD:
        HOLD[c] = typing.NamedTuple('Hold', [('x', c)])
    return HOLD[c]


def h_names(S, form):
    """renamed, absent and unknown fields"""
    c, p = convs.cls(form, 'int', int)
    key = S.choose('mangle_key', ('name', 'alt', 'swap'))
    o, cfg = options(S, None, None, key)
    ext = {'name': dict(a='a', f='f', b='b', d='d'), 'alt': dict(a='a', f='g', b='b', d='d'), 'swap': dict(a='g', f='a', b='f', d='d')}[key]
    if key == 'swap':
        ext['a'] = None
    pools(S, p, ('f', 'a', 'b', 'd', 'g', 'e'))
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    v = settled(form, v)
    data = {}
    if S.flag('present'):
        data[ext['f']] = v
    if S.flag('default given'):
        data['d'] = v
    extra = S.choose('extra', (None, 'e', 'z'))
    if extra:
        data[extra] = 3
    r = attempt(loader(S, **o).load, data, c)
    alone = attempt(loader(S, **o).load, v, p)
    rec(S, 'object', Out(r.ok, 0 if r.ok else r.error))
    good = ext['f'] in data and (alone.ok or not data) and not (extra and o['failonextra'])
    if not r.ok:
        S.check(typed(S, r.error), 'untyped exception')
    S.check(r.ok == good, lambda: 'expected %s: %s' % (good, r.kind()))
    if r.ok:
        for f in ('f', 'd'):
            if ext[f] in data:
                judged(S, r, alone, form, f, v, 'int')
            else:
                S.check(form == 'plain' and r.value.d == 7 or spec.same(given(r.value.d, form), 7), 'the default was not converted')


def h_after(S, first, then):
    """a class loaded before"""
    t = S.choose('types', (('int', 'str'), ('List[int]', 'int'), ('int', 'int')))
    c, p = convs.cls(first, t[0], None)
    d, q = convs.cls(then, t[1], int)
    pools(S, q, ('f', '0'))
    o, cfg = options(S, None, False)
    l = loader(S, **o)
    attempt(l.load, {'f': S.choose('before', (1, 'x', [1], None))}, c)
    v = S.any('v', Spec(kinds=JSON, depth=1, lens=(0, 1), dlens=(0,), strlen=1, elem=Spec(kinds=(INT, STR), depth=0, strlen=1)))
    v = settled(then, v)
    r = attempt(l.load, {'f': v}, d)
    rec(S, 'object', Out(r.ok, 0 if r.ok else r.error))
    judged(S, r, attempt(loader(S, **o).load, v, q), then, 'f', v, t[1])


def h_errors(S):
    """the converter refuses"""
    import attr
    import typing
    wide = S.choose('type', (None, int, typing.Any))
    error = S.choose('error', (ValueError, TypeError, UnicodeError))

    def conv(x):
        raise error('refused')
    if wide is not None:
        conv.__annotations__ = {'x': wide}
    form = S.choose('form', ('function', 'method', 'pipe', 'attrs'))
    f = {'function': lambda: conv, 'method': lambda: Refusing(conv).m, 'pipe': lambda: attr.converters.pipe(conv), 'attrs': lambda: attr.Converter(conv)}[form]()
    c = attr.make_class('Refuser', {'f': attr.ib(converter=f)})
    pools(S, int, ('f',))
    v = S.any('v', Spec(kinds=JSON, depth=1, lens=(0,), dlens=(0,), strlen=1))
    w = S.choose('where', (lambda x, t: (x, t), lambda x, t: ([x], typing.List[t]), lambda x, t: (x, typing.Optional[t])))
    o, cfg = options(S, None, None)
    data, t = w({'f': v}, c)
    r = attempt(loader(S, **o).load, data, t)
    rec(S, 'load', Out(r.ok, 0 if r.ok else r.error))
    S.check(not r.ok and typed(S, r.error), 'no typedload exception')


class Refusing:
    def __init__(self, f):
        self.f = f

    def m(self, x):
        return self.f(x)


def h_builtins(S):
    """types without hints are given the value as it is"""
    import attr
    b = S.choose('converter', (str, int, float, bool, list, tuple, repr, len, sorted, abs, type, dict))
    v = S.choose('value', ('12', 'ab', 3, -2.5, None, True, [1, 'a'], [2, 1], {'a': 1}, []))
    c = attr.make_class('Builtin', {'f': attr.ib(converter=b, type=S.choose('declared', (int, str)))})
    o, cfg = options(S, None, None)
    r = attempt(loader(S, **o).load, {'f': v}, c)
    want = attempt(b, v)
    rec(S, 'load', Out(r.ok, r.value.f if r.ok else r.error))
    S.check(r.ok == want.ok, lambda: 'the type gives %s, the load %s' % (want.kind(), r.kind()))
    if r.ok:
        S.check(spec.same(r.value.f, want.value), 'another value')
    else:
        S.check(typed(S, r.error), 'untyped exception')
