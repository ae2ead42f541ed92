"""Families of types that are written differently and mean the same.  FAMILIES[name]: [(how, type), ...], the first is the plain way."""
import collections
import dataclasses
import re
import typing
from dataclasses import dataclass, field
from typing import *

import attr

import catalog
from catalog import T, NT, DC, AT, TD, Colour

IntA = NewType('IntA', int)
IntB = NewType('IntB', IntA)
Ints = NewType('Ints', List[int])
Maybe = NewType('Maybe', Optional[int])
Thing = NewType('Thing', NT)
Hue = NewType('Hue', Colour)

FAMILIES = {
    'list': [('typing', List[int]), ('builtin', list[int])],
    'set': [('typing', Set[int]), ('builtin', set[int])],
    'frozenset': [('typing', FrozenSet[str]), ('builtin', frozenset[str])],
    'dict': [('typing', Dict[str, int]), ('builtin', dict[str, int])],
    'dict keys': [('typing', Dict[int, Optional[str]]), ('builtin', dict[int, str | None])],
    'tuple': [('typing', Tuple[int, str]), ('builtin', tuple[int, str])],
    'tuple of one': [('typing', Tuple[int]), ('builtin', tuple[int])],
    'long tuple': [('typing', Tuple[int, ...]), ('builtin', tuple[int, ...])],
    'nested': [('typing', List[Tuple[int, str]]), ('builtin', list[tuple[int, str]]), ('mixed', List[tuple[int, str]]), ('mixed too', list[Tuple[int, str]])],
    'dict of lists': [('typing', Dict[str, List[int]]), ('builtin', dict[str, list[int]]), ('mixed', Dict[str, list[int]])],
    'optional': [('Optional', Optional[int]), ('Union', Union[int, None]), ('None first', Union[None, int]), ('bar', int | None), ('bar, None first', None | int), ('nested', Optional[Optional[int]]),
                 ('single', Optional[Union[int]])],
    'optional list': [('Optional', Optional[List[int]]), ('bar', list[int] | None), ('mixed', Optional[list[int]]), ('None first', None | List[int])],
    'optional object': [('Optional', Optional[NT]), ('bar', NT | None), ('None first', None | NT)],
    'union': [('Union', Union[int, str, None]), ('bar', int | str | None), ('other order', Union[None, str, int]), ('nested', Union[Optional[int], str]), ('repeated', Union[int, str, int, None])],
    'list of unions': [('Union', List[Union[int, None]]), ('bar', list[int | None]), ('None first', List[None | int])],
    'union of objects': [('Union', Union[NT, List[int]]), ('bar', NT | list[int]), ('other order', list[int] | NT), ('one', Union[Union[NT], list[int]])],
    'tagged': [('Union', T('Union[TagA,TagB]')), ('bar', T('TagA') | T('TagB')), ('other order', T('TagB') | T('TagA'))],
    'tagged optional': [('Optional', Optional[T('Union[TagA,TagB]')]), ('bar', T('TagA') | T('TagB') | None), ('nested', Union[Optional[T('TagA')], T('TagB')])],
    'enum or none': [('Optional', Optional[Colour]), ('bar', Colour | None)],
    'new int': [('int', int), ('NewType', IntA), ('of a NewType', IntB)],
    'new list': [('typing', List[int]), ('NewType', Ints), ('inside', List[IntA]), ('twice inside', list[IntB])],
    'new optional': [('Optional', Optional[int]), ('NewType', Maybe)],
    'new object': [('class', NT), ('NewType', Thing)],
    'new enum': [('class', Colour), ('NewType', Hue), ],
    'new dict': [('typing', Dict[int, NT]), ('NewType', Dict[IntA, Thing])],
    'new tuple': [('typing', Tuple[int, NT]), ('NewType', Tuple[IntB, Thing])],
    'single union': [('plain', Dict[str, int]), ('Union', Union[Dict[str, int]])],
    'none': [('None', None), ('type', type(None))],
    'list of none': [('None', List[None]), ('type', list[type(None)]), ('builtin', list[None])],
    'literal': [('Literal', Literal[1, 'a']), ('other order', Literal['a', 1]), ('nested', Literal[Literal[1], 'a']), ('repeated', Literal[1, 'a', 1])],
    'pattern': [('re', re.Pattern[str]), ('typing', typing.Pattern[str])],
    'any pattern': [('re', re.Pattern), ('typing', typing.Pattern)],
}


# ---------------------------------------------------------------- classes
class N1(NamedTuple):
    a: int
    b: List[str] = []


N2 = NamedTuple('N2', [('a', int), ('b', List[str])])
N2.__new__.__defaults__ = ([],)
N2._field_defaults['b'] = []


class N3(NamedTuple):
    a: int
    b: list[str] = []


class N4(NamedTuple):
    """with methods and properties"""
    a: int
    b: List[str] = []

    def m(self):
        return self.a

    @property
    def p(self):
        return self.b


class N5(N1):
    """a subclass"""
    __slots__ = ()


class N6(N5):
    """a subclass with annotations that are no fields"""
    z: int
    y: str = 'y'


@dataclass
class D1:
    a: int
    b: List[str] = field(default_factory=list)
    c: Optional[int] = None


@dataclass(frozen=True, order=True)
class D2:
    a: int
    b: list[str] = field(default_factory=list)
    c: int | None = None


@dataclass(slots=True)
class D3:
    a: int
    b: List[str] = field(default_factory=list)
    c: Optional[int] = None


@dataclass(kw_only=True)
class D4:
    a: int
    b: List[str] = field(default_factory=list)
    c: Optional[int] = None


D5 = dataclasses.make_dataclass('D5', [('a', int), ('b', List[str], field(default_factory=list)), ('c', Optional[int], None)])


@dataclass
class DBase:
    a: int


@dataclass
class DMid(DBase):
    b: List[str] = field(default_factory=list)


@dataclass
class D6(DMid):
    c: Optional[int] = None


@dataclass(eq=False, repr=False)
class D7:
    a: int
    b: List[str] = field(default_factory=list)
    c: Optional[int] = None
    d: ClassVar[int] = 3


class D8(D1):
    """a plain subclass"""


@dataclass(frozen=True, slots=True, kw_only=True)
class D9:
    c: Optional[int] = None
    b: List[str] = field(default_factory=list)
    a: int


@attr.s
class A1:
    a = attr.ib(type=int)
    b = attr.ib(type=List[str], factory=list)
    c = attr.ib(type=Optional[int], default=None)


@attr.s(auto_attribs=True)
class A2:
    a: int
    b: list[str] = attr.Factory(list)
    c: int | None = None


@attr.define
class A3:
    a: int
    b: List[str] = attr.field(factory=list)
    c: Optional[int] = None


@attr.frozen
class A4:
    a: int
    b: List[str] = attr.field(factory=list)
    c: Optional[int] = None


@attr.define(kw_only=True, slots=False)
class A5:
    c: Optional[int] = None
    b: List[str] = attr.field(factory=list)
    a: int


A6 = attr.make_class('A6', {'a': attr.ib(type=int), 'b': attr.ib(type=List[str], factory=list), 'c': attr.ib(type=Optional[int], default=None)})


@attr.define
class ABase:
    a: int


@attr.define
class A7(ABase):
    b: List[str] = attr.field(factory=list)
    c: Optional[int] = None


@attr.s(these={'a': attr.ib(type=int), 'b': attr.ib(type=List[str], factory=list), 'c': attr.ib(type=Optional[int], default=None)})
class A8:
    pass


class A9(A1):
    """a plain subclass"""


class T1(TypedDict):
    a: int
    b: NotRequired[List[str]]


T2 = TypedDict('T2', {'a': int, 'b': NotRequired[list[str]]})


class TBase(TypedDict):
    a: int


class T3(TBase, total=False):
    b: List[str]


class TOpt(TypedDict, total=False):
    b: List[str]


class T4(TOpt):
    a: int


class T5(T1):
    pass


class TA(TypedDict):
    a: int


class T6(TA, TOpt):
    pass


FAMILIES.update({
    'NamedTuple': [(c.__name__, c) for c in (N1, N2, N3, N4, N5, N6)],
    'dataclass': [(c.__name__, c) for c in (D1, D2, D3, D4, D5, D6, D7, D8, D9)],
    'attrs': [(c.__name__, c) for c in (A1, A2, A3, A4, A5, A6, A7, A8, A9)],
    'TypedDict': [(c.__name__, c) for c in (T1, T2, T3, T4, T5, T6)],
})
CLASSES = {c: f[0][1] for f in FAMILIES.values() for _, c in f if catalog.objkind(c) and c is not catalog.NT}
for _c in CLASSES:
    if catalog.objkind(_c) == 'td':
        catalog.TDHINTS[_c], catalog.TDOPT[_c] = {'a': int, 'b': List[str]}, {'b'}
