"""attrs classes whose fields have converters.  CLASSES[form, type, declared]: the class, and the type its field 'f' loads with."""
import functools
from typing import *

import attr

import catalog
from catalog import T

FIRST = None


class Box:
    """what a converter made"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Box and self.x == other.x

    def __repr__(self):
        return 'Box(%r)' % (self.x,)


class Refused(Exception):
    pass


def ann(f, **h):
    f.__annotations__ = h
    return f


# ---------------------------------------------------------------- the ways of giving a converter; each returns (converter, type, unwrap)
def opened(y):
    """what the converter was given"""
    return y.x if type(y) is Box else Refused


def typed(p):
    return ann(lambda x: Box(x), x=p, **{'return': Box}), p


def typed_only(p):
    return ann(lambda x: Box(x), x=p), p


def other_return(p):
    return ann(lambda x: Box(x), x=p, **{'return': int}), p


def untyped(p):
    return (lambda x: Box(x)), Any


def only_return(p):
    return ann(lambda x: Box(x), **{'return': p}), Any


def second_typed(p):
    return ann(lambda x, y=1: Box(x), y=p), Any


def second_typed_return(p):
    return ann(lambda x, y=1: Box(x), y=p, **{'return': Box}), Any


def both_typed(p):
    return ann(lambda x, y=1: Box(x), x=p, y=str, **{'return': Box}), p


def both_untidy(p):
    f = ann(lambda x, y=1: Box(x))
    f.__annotations__['y'] = str
    f.__annotations__['x'] = p
    return f, p


def keyword_typed(p):
    return ann(lambda x, *, y=1, z=2: Box(x), x=p, y=int, z=str), p


def positional(p):
    def f(x, /):
        return Box(x)
    return ann(f, x=p), p


def named(p):
    """the annotation is text"""
    global TEXT
    for k, v in TEXTS.items():
        if v == p:
            return ann(lambda x: Box(x), x=k, **{'return': 'Box'}), p
    return typed(p)


TEXTS = {'Int': int, 'List[Int]': List[int], 'Named': T('NT')}
Int = int
Named = T('NT')


def wrapped(p):
    def inner(x):
        return Box(x)
    ann(inner, x=p)

    @functools.wraps(inner)
    def outer(*a, **k):
        return inner(*a, **k)
    return outer, p


def method(p):
    class K:
        def m(self, x):
            return Box(x)
    ann(K.m, x=p)
    return K().m, p


def class_method(p):
    class K:
        @classmethod
        def m(cls, x):
            return Box(x)
    ann(K.__dict__['m'].__func__, x=p)
    return K.m, p


def static_method(p):
    class K:
        @staticmethod
        def m(x):
            return Box(x)
    ann(K.m, x=p)
    return K.m, p


def with_self(p):
    class K:
        def m(self, x):
            return Box(x)
    ann(K.m, self=str, x=p, **{'return': Box})
    return K().m, p


def callable_object(p):
    class K:
        def __call__(self, x):
            return Box(x)
    ann(K.__call__, x=p, **{'return': Box})
    return K(), p


def callable_untyped(p):
    class K:
        kind: int = 3

        def __call__(self, x):
            return Box(x)
    return K(), Any


def class_typed(p):
    class K(Box):
        y: bytes

        def __init__(self, x):
            self.x = x
    ann(K.__init__, x=p, **{'return': None})
    return K, p


def class_untyped(p):
    class K(Box):
        y: bytes

        def __init__(self, x):
            self.x = x
    return K, Any


def class_new(p):
    class K(Box):
        def __new__(cls, x):
            return Box(x)
    ann(K.__new__, x=p)
    return K, p


def record(p):
    return NamedTuple('Record', [('x', p)]), p


def attrs_class(p):
    return attr.make_class('Made', {'x': attr.ib(type=p)}), p


def partial(p):
    return functools.partial(ann(lambda x, y=2: Box(x), x=p, y=str), y=5), p


def partial_first(p):
    return functools.partial(ann(lambda y, x: Box(x), x=p, y=str), 5), p


def partial_untyped(p):
    return functools.partial(ann(lambda y, x: Box(x), y=p), 5), Any


def partial_twice(p):
    return functools.partial(functools.partial(ann(lambda z, y, x: Box(x), z=str, x=p, y=str), 5), 6), p


def partial_object(p):
    return functools.partial(callable_object(p)[0]), p


def attrs_converter(p):
    return attr.Converter(typed(p)[0]), p


def attrs_converter_self(p):
    return attr.Converter(ann(lambda x, me: Box(x), x=p, me=str, **{'return': Box}), takes_self=True), p


def attrs_converter_object(p):
    return attr.Converter(callable_object(p)[0]), p


def optional(p):
    return attr.converters.optional(typed(p)[0]), Optional[p]


def pipe(p):
    return attr.converters.pipe(typed(p)[0], lambda x: x), p


def several(p):
    return [typed_only(p)[0], ann(lambda x: x, x=int)], p


def if_none(p):
    return attr.converters.default_if_none(p), Any


def plain(p):
    return None, None


FORMS = dict((f.__name__, f) for f in (
    typed, typed_only, other_return, untyped, only_return, second_typed, second_typed_return, both_typed, both_untidy, keyword_typed, positional, named, wrapped, method, class_method, static_method,
    with_self, callable_object, callable_untyped, class_typed, class_untyped, class_new, record, attrs_class, partial, partial_first, partial_untyped, partial_twice, partial_object, attrs_converter,
    attrs_converter_self, attrs_converter_object, optional, pipe, several, if_none, plain))
TYPES = ('int', 'str', 'List[int]', 'Opt[str]', 'Dict[str,int]', 'NT', 'Union[NT,DCFact]', 'Colour', 'date')
DECLARED = (None, int, str, bytes, Optional[int], Any, List[str], T('NT'), T('Colour'), Literal['a'], Union[str, None, int], 'Unknown')
made = {}


def cls(form, name, declared):
    """the class and the type its field loads with; the converter returns a Box (or a Record, or an attrs object) of what it was given"""
    k = form, name, declared
    if k not in made:
        c, p = FORMS[form](T(name))
        if c is None:
            p = declared if declared is not None else Any
        ib = dict(type=declared) if declared is not None else {}

        class Holder:
            a = attr.ib(type=int, default=1)
            f = attr.ib(converter=c, metadata={'alt': 'g', 'swap': 'a'}, kw_only=True, **ib)
            b = attr.ib(type=str, default='x', metadata={'swap': 'f'}, kw_only=True)
            d = attr.ib(default=7, converter=c, kw_only=True, **ib)
        Holder.__name__ = Holder.__qualname__ = 'Holder_%s' % form
        made[k] = attr.s(Holder), p
    return made[k]
