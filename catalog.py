"""
The catalogue of schemas. Plain module, shared by the instrumented and the plain harness.
"""
import datetime
import enum
import ipaddress
import pathlib
import re
import sys
import typing
import uuid
from dataclasses import dataclass, field
from typing import (Any, ClassVar, Dict, FrozenSet, List, Literal, NamedTuple, NewType, NotRequired, Optional, Set, Tuple,
                    TypedDict, Union)

import attr

NoneType = type(None)


# ---------------------------------------------------------------- enums
class Colour(enum.Enum):
    RED = 'red'
    BLUE = 'blue'


class Num(enum.Enum):
    ONE = 1
    TWO = 2


class INum(enum.IntEnum):
    ONE = 1
    TWO = 2


class Mixed(enum.Enum):
    A = 1
    B = 'b'
    C = None


class Bools(enum.Enum):
    T = True
    N = 0.5


class Pair(enum.Enum):
    _t: Tuple[int, int]
    A = (1, 2)
    B = (3, 4)


class StrInt(enum.Enum):
    """values of one kind, an annotation that converts"""
    _t: int
    A = 1
    B = 10


class HintMix(enum.Enum):
    """an annotation that converts, and values that would be converted into each other"""
    _t: int
    A = 1
    B = '1'
    C = 'b'
    D = 2.5


class HintBoth(enum.Enum):
    """values that both annotated types are good for"""
    _t: int
    _s: str
    A = 1
    B = '1.5'
    C = '2'
    D = 3


class HintText(enum.Enum):
    _t: str
    _n: float
    A = 'a'
    B = 1
    C = '1'
    D = 2.5


# ---------------------------------------------------------------- objects: NamedTuple
class NT(NamedTuple):
    a: int
    b: str = 'x'


class NTReq(NamedTuple):
    a: int
    b: str


class Strange:
    """nothing handles this type"""


class NTStrange(NamedTuple):
    a: int
    o: Strange
    b: Optional[int] = None


class NTStrangeOpt(NamedTuple):
    a: int = 1
    o: Optional[Strange] = None


@dataclass
class DCStrange:
    o: Strange
    a: int = 1


@attr.s(auto_attribs=True)
class ATStrange:
    a: int
    o: List[Strange]


class TDStrange(TypedDict):
    a: int
    o: Dict[str, Strange]


class NTDef(NamedTuple):
    a: int = 7
    b: Optional[str] = None


class NTOpts(NamedTuple):
    """optional fields whose default is not None"""
    a: Optional[int] = 3
    b: Optional[str] = 'd'


class NTSub(NT):
    """a subclass has no annotations of its own"""
    __slots__ = ()


class NTSubVar(NTSub):
    """annotations that are not fields"""
    c: int
    d: str = 'x'


class NTEmpty(NamedTuple):
    pass


class NTNest(NamedTuple):
    n: NT
    l: List[int] = []


# ---------------------------------------------------------------- objects: dataclass
@dataclass
class DC:
    a: int
    b: str = 'x'


@dataclass(frozen=True)
class DCFrozen:
    a: int
    b: str = 'x'


@dataclass
class DCFact:
    a: List[int] = field(default_factory=list)
    b: Optional[int] = None
    c: Dict[str, int] = field(default_factory=dict)


@dataclass
class DCOpt:
    """optional fields whose default is not None"""
    a: Optional[int] = 3
    b: Optional[List[int]] = field(default_factory=lambda: [1])


@dataclass
class DCKw:
    a: int = field(kw_only=True)
    b: int = 3


@dataclass
class DCVar:
    """class variables are not fields"""
    k: ClassVar[int]
    a: int
    n: ClassVar[str] = 'n'
    b: str = 'x'


@dataclass
class DCBase:
    a: int
    z: int = 1


@dataclass
class DCChild(DCBase):
    b: str = 'x'


@dataclass
class DCName:
    """renamed fields"""
    a: int = field(metadata={'name': 'x'})
    b: int = field(default=5, metadata={'name': 'a', 'alt': 'z'})
    c: int = field(default=6, metadata={'alt': 'b'})


@dataclass
class DCSwap:
    """renamings that swap two names"""
    a: int = field(metadata={'name': 'b'})
    b: int = field(metadata={'name': 'a'})


@dataclass
class DCCamel:
    field_one: int = field(metadata={'name': 'fieldOne'})
    two: str = field(default='x', metadata={'name': 'fieldTwo'})


@dataclass
class DCNest:
    n: DC
    l: List[DC] = field(default_factory=list)


@dataclass(slots=True)
class DCSlots:
    """no attributes in the class or in a dictionary"""
    a: int
    b: Optional[str] = None
    c: int = field(default=4, metadata={'name': 'see'})
    l: List[int] = field(default_factory=list)


@dataclass(slots=True)
class DCSlotChild(DCSlots):
    a: int = 3
    d: bool = False


@dataclass
class DCPost:
    """rejects some values"""
    a: int

    def __post_init__(self):
        if self.a == 13:
            raise ValueError('unlucky')
        if self.a == 14:
            raise TypeError('not 14')


@dataclass
class DCInit:
    """a field that is not for the constructor"""
    a: int
    b: int = field(init=False, default=9)


# ---------------------------------------------------------------- objects: attrs
@attr.s
class AT:
    a = attr.ib(type=int)
    b = attr.ib(type=str, default='x')


@attr.s(slots=True)
class ATSlots:
    a = attr.ib(type=int)
    b = attr.ib(type=Optional[str], default=None)
    c = attr.ib(type=int, default=4, metadata={'name': 'see'})
    l = attr.ib(type=List[int], factory=list)


@attr.s(frozen=True)
class ATChild(AT):
    """an inherited field, a redefined one, and a new one"""
    b = attr.ib(type=str, default='y')
    c = attr.ib(type=int, default=3)


@attr.s
class ATFact:
    a = attr.ib(type=List[int], factory=list)
    b = attr.ib(type=Optional[int], default=None)


@attr.s(auto_attribs=True)
class ATOpt:
    """optional fields whose default is not None"""
    a: Optional[int] = 3
    b: Optional[List[int]] = attr.Factory(lambda: [1])


@attr.s(auto_attribs=True)
class ATVar:
    k: ClassVar[int]
    a: int
    n: ClassVar[str] = 'n'
    b: str = 'x'


@attr.define
class ATDef:
    a: int
    b: str = 'x'


@attr.s
class ATName:
    a = attr.ib(type=int, metadata={'name': 'x'})
    b = attr.ib(type=int, default=5, metadata={'name': 'a', 'alt': 'z'})
    c = attr.ib(type=int, default=6, metadata={'alt': 'b'})


@attr.s
class ATSame:
    a = attr.ib(type=int, default=1, metadata={'name': 'x'})
    b = attr.ib(type=int, default=2, metadata={'name': 'x'})
    c = attr.ib(type=int, default=3, metadata={'name': 'x'})
    d = attr.ib(type=int, default=4)


@attr.s
class ATSwap:
    a = attr.ib(type=int, metadata={'name': 'b'})
    b = attr.ib(type=int, metadata={'name': 'a'})


@attr.s
class ATNest:
    n = attr.ib(type=AT)
    l = attr.ib(type=List[AT], factory=list)


@attr.s
class ATRepr:
    a = attr.ib(type=int)
    b = attr.ib(type=int, default=3, repr=False)


@attr.s
class ATValid:
    a = attr.ib(type=int)

    @a.validator
    def check(self, attribute, value):
        if value == 13:
            raise ValueError('unlucky')


# ---------------------------------------------------------------- objects: TypedDict
class TD(TypedDict):
    a: int
    b: str


TDKeys = TypedDict('TDKeys', {'a-b': int, 'class': NotRequired[str], '1': Optional[int]})


class NTWords(NamedTuple):
    """fields named like methods and parameters"""
    keys: int
    items: List[int] = []
    get: str = 'x'
    value: int = 1
    type_: int = 2
    l: Optional[int] = None


class TDOpt(TypedDict, total=False):
    a: int
    b: str


class TDNot(TypedDict):
    a: int
    b: NotRequired[str]


class TDBase(TypedDict):
    a: int


class TDMix(TDBase, total=False):
    b: str


class TDPart(TypedDict, total=False):
    a: int


class TDRev(TDPart):
    """optional fields of the base, required ones here"""
    b: str
    c: NotRequired[int]


class TDNest(TypedDict):
    n: TDOpt
    l: List[int]


# ---------------------------------------------------------------- the same shape in the four kinds
class BNT(NamedTuple):
    i: int
    o: bool
    f: float
    s: str
    n: None


@dataclass
class BDC:
    i: int
    o: bool
    f: float
    s: str
    n: None


@attr.s(auto_attribs=True)
class BAT:
    i: int
    o: bool
    f: float
    s: str
    n: None


class BTD(TypedDict):
    i: int
    o: bool
    f: float
    s: str
    n: None


class QNT(NamedTuple):
    a: int
    b: str = 'x'
    c: Optional[int] = 4
    d: List[int] = [1]


@dataclass
class QDC:
    a: int
    b: str = 'x'
    c: Optional[int] = 4
    d: List[int] = field(default_factory=lambda: [1])


@attr.s(auto_attribs=True)
class QAT:
    a: int
    b: str = 'x'
    c: Optional[int] = 4
    d: List[int] = attr.Factory(lambda: [1])


class QTD(TypedDict):
    a: int
    b: NotRequired[str]
    c: NotRequired[Optional[int]]
    d: NotRequired[List[int]]


class WNT(NamedTuple):
    f1: int
    f2: str
    f3: List[int]
    f4: Optional[int]
    f5: float
    f6: bool
    f7: int = 7
    f8: str = 'eight'
    f9: Dict[str, int] = {}
    f10: Tuple[int, ...] = ()
    f11: Union[int, str] = 11
    f12: Optional['WNT'] = None


@dataclass
class WDC:
    f1: int
    f2: str
    f3: List[int]
    f4: Optional[int]
    f5: float
    f6: bool
    f7: int = 7
    f8: str = 'eight'
    f9: Dict[str, int] = field(default_factory=dict)
    f10: Tuple[int, ...] = ()
    f11: Union[int, str] = 11
    f12: Optional['WDC'] = None


@dataclass
class Mid:
    """same field names and types as its parent's, other defaults"""
    a: int = 1
    b: str = 'x'


@dataclass
class MidChild(Mid):
    b: str = 'y'
    c: List[str] = field(default_factory=lambda: ['c'])


@dataclass
class DCAny:
    a: Any
    b: Any = None
    c: List[Any] = field(default_factory=list)


@attr.s(auto_attribs=True)
class ATAny:
    a: Any
    b: Any = None


class NTAny(NamedTuple):
    a: Any
    b: Any = None


class TDAny(TypedDict):
    a: Any


# ---------------------------------------------------------------- defaults
@dataclass
class HDC:
    a: int = 0
    b: bool = False
    c: float = 1.0
    d: Optional[str] = ''
    e: Tuple[int, ...] = ()
    f: Colour = Colour.RED
    g: List[int] = field(default_factory=lambda: [1])
    h: DC = field(default_factory=lambda: DC(1))
    i: Optional[List[str]] = None
    j: Set[int] = field(default_factory=set)
    k: float = float('nan')


@attr.s(auto_attribs=True)
class HAT:
    a: int = 0
    b: bool = False
    c: float = 1.0
    d: Optional[str] = ''
    e: Tuple[int, ...] = ()
    f: Colour = Colour.RED
    g: List[int] = attr.Factory(lambda: [1])
    h: DC = attr.Factory(lambda: DC(1))
    i: Optional[List[str]] = None
    j: Set[int] = attr.Factory(set)
    k: List[int] = attr.Factory(lambda self: [self.a], takes_self=True)


class HNT(NamedTuple):
    a: int = 0
    b: bool = False
    c: float = 1.0
    d: Optional[str] = ''
    e: Tuple[int, ...] = ()
    f: Colour = Colour.RED
    g: List[int] = [1]
    h: DC = DC(1)
    i: Optional[List[str]] = None
    j: Dict[str, int] = {}
    k: Union[int, bool, float] = 1


@attr.s(auto_attribs=True)
class HATChild(ATFact):
    """an inherited field with another default, and a new one"""
    b: Optional[int] = 3
    z: List[str] = attr.Factory(list)


@dataclass
class HDCChild(DCFact):
    a: List[int] = field(default_factory=lambda: [1])
    c: Dict[str, int] = field(default_factory=lambda: {'a': 1})


@dataclass
class HDCPlain(HDCChild):
    """inherits everything"""


@dataclass
class DCMix:
    """fields of many kinds, for typed dumps"""
    l: List[int]
    t: Tuple[int, ...]
    s: Set[str]
    o: Optional[List[int]]
    n: List[NT]
    u: List[Union[int, str]]
    p: Tuple[int, str]
    d: Dict[str, List[int]]
    f: FrozenSet[float]
    e: List[Colour]


# ---------------------------------------------------------------- more renamings
@dataclass
class DCSame:
    """several fields with the same external name: the last one gets the value"""
    a: int = field(default=1, metadata={'name': 'x'})
    b: int = field(default=2, metadata={'name': 'x'})
    c: int = field(default=3, metadata={'name': 'x'})
    d: int = 4


@dataclass
class DCShift:
    """every name moves by one"""
    a: int = field(metadata={'name': 'b'})
    b: int = field(metadata={'name': 'c'})
    c: int = field(default=3, metadata={'name': 'a'})


@attr.s
class ATShift:
    a = attr.ib(type=int, metadata={'name': 'b'})
    b = attr.ib(type=int, metadata={'name': 'c'})
    c = attr.ib(type=int, default=3, metadata={'name': 'a'})


@dataclass
class DCNameChild(DCSwap):
    c: str = field(default='x', metadata={'name': 'see', 'alt': 'd'})


@dataclass
class DCNameRe(DCSwap):
    """an inherited renaming dropped, another one replaced"""
    a: int = 0
    b: int = field(default=1, metadata={'name': 'sea', 'alt': 'z'})


@dataclass
class DCNameTaken(DCCamel):
    """the external name of an inherited field becomes the one of another"""
    field_one: int = 5
    d: int = field(default=7, metadata={'name': 'fieldOne'})


@attr.s
class ATNameRe(ATSwap):
    a = attr.ib(type=int, default=0)
    b = attr.ib(type=int, default=1, metadata={'name': 'sea', 'alt': 'z'})


@dataclass
class DCNameNest:
    one: DCSwap = field(metadata={'name': 'two'})
    many: List[DCCamel] = field(default_factory=list, metadata={'name': 'one'})


@attr.s
class ATNameNest:
    one = attr.ib(type=ATSwap, metadata={'name': 'two'})
    many = attr.ib(type=List[DCCamel], factory=list, metadata={'name': 'one', 'alt': 'three'})


@attr.s
class ATFree:
    """a renaming onto the plain name of nothing"""
    a = attr.ib(type=int, default=1, metadata={'name': 'fieldOne', 'alt': 'A'})
    b = attr.ib(type=Optional[str], default=None, metadata={'other': 'a'})


# ---------------------------------------------------------------- more enums
class StrE(str, enum.Enum):
    A = 'a'
    B = 'b'


class Alias(enum.Enum):
    ONE = 1
    UNO = 1
    TWO = 'two'


class Multi(enum.Enum):
    """two annotated types"""
    _t: Tuple[int, str]
    _d: datetime.date
    A = (1, 'a')
    B = (2, 'b')
    C = datetime.date(2020, 2, 29)


class FloatE(enum.Enum):
    HALF = 0.5
    ONE = 1.0
    TWO = 2


class ListE(enum.Enum):
    _t: List[int]
    A = [1, 2]
    B = []


@dataclass
class DCLit:
    l: Literal[1, 'a'] = 1
    e: Colour = Colour.RED
    n: Literal[None, False] = None


class ObjEnum(enum.Enum):
    _t: NT
    A = NT(1, 'x')
    B = NT(2, 'y')


# ---------------------------------------------------------------- tagged unions
class TagA(NamedTuple):
    t: Literal['a']
    v: int = 0


class TagB(NamedTuple):
    t: Literal['b', 'c']
    v: str = 'x'


@dataclass
class DTagA:
    t: Literal['a']
    v: int = 0


@dataclass
class DTagB:
    t: Literal['b', 'c']
    v: List[int] = field(default_factory=list)


@dataclass
class DTagI:
    t: Literal[1]
    v: int = 0


@dataclass
class DTagJ:
    t: Literal[2, 3]
    v: int = 0


class TDTagA(TypedDict):
    t: Literal['a']
    v: int


class TDTagB(TypedDict):
    t: Literal['b']
    v: int


@attr.s(auto_attribs=True)
class ATagA:
    t: Literal['a']
    v: int = 0


@attr.s(auto_attribs=True)
class ATagB:
    t: Literal['b']
    v: int = 0


@dataclass
class DTag2A:
    """two shared literal fields: one discriminates, the other does not"""
    k: Literal['same']
    t: Literal['a']
    v: int = 0


@dataclass
class DTag2B:
    k: Literal['same']
    t: Literal['b']
    v: int = 0


class MTagN(NamedTuple):
    v: int
    t: Literal['n', 'm'] = 'n'


@dataclass
class TagX:
    t: Literal['x', 1]
    v: int
    w: Literal[5, 6] = 5


class TagY(NamedTuple):
    t: Literal['y', 2, None]
    v: Union[int, str]
    w: Literal[5, 7] = 7


class WideA(NamedTuple):
    """several literal fields, that do not tell all the members apart"""
    t: Literal['b']
    w: Literal['q', 'r']


@dataclass
class WideB:
    t: Literal['b', 'a']
    w: Literal['q']


class WideC(NamedTuple):
    t: Literal['c']
    w: Literal['q', 'p', 1]


class WideD(TypedDict):
    t: Literal['b']
    w: Literal['p']


@dataclass
class PTagA:
    """a tag among other literal fields that do not discriminate or are optional"""
    t: Literal['a']
    w: Literal['p', 'q']
    v: int = 0


@dataclass
class PTagB:
    t: Literal['b']
    w: Literal['q', 'r']
    v: int = 0


@dataclass
class KTagA:
    t: Literal['a'] = field(kw_only=True)
    v: int = 0


@attr.s(auto_attribs=True, kw_only=True)
class KTagB:
    v: int = 0
    t: Literal['b']


@dataclass
class OvA:
    """literals in common"""
    t: Literal['a', 'b']
    v: int = 0


@dataclass
class OvB:
    t: Literal['b', 'c']
    v: int = 0
    w: Literal['p'] = 'p'


class OvC(NamedTuple):
    t: Literal['b', 'a', 'd']
    v: str = 'x'


@dataclass
class TagBase:
    v: int


@dataclass
class TagSub(TagBase):
    t: Literal['s']


# ---------------------------------------------------------------- recursion
class Node(NamedTuple):
    v: int
    next: Optional['Node'] = None


@dataclass
class Tree:
    v: int
    kids: List['Tree'] = field(default_factory=list)


@attr.s(auto_attribs=True)
class ANode:
    v: int
    next: Optional['ANode'] = None


class TDNode(TypedDict, total=False):
    v: int
    next: 'TDNode'


@dataclass
class MNode:
    """recursion through a dictionary"""
    m: Dict[str, 'MNode'] = field(default_factory=dict)


@dataclass
class Outer:
    node: Node
    other: Optional['Node'] = None


@dataclass
class Other:
    nodes: List[Node]


@dataclass
class Expr:
    """recursion as members of a union"""
    v: Union[int, 'Expr', List['Expr']]


@dataclass
class Leaf:
    op: Literal['leaf']
    v: int


@dataclass
class BinOp:
    """recursion in a tagged union"""
    op: Literal['bin']
    a: Union['BinOp', Leaf]
    b: Union[Leaf, 'BinOp', None] = None


@attr.s(auto_attribs=True)
class TupNode:
    p: Tuple[int, Optional['TupNode']]
    q: Tuple['TupNode', ...] = ()


class SNode(NamedTuple):
    n: int
    s: FrozenSet['SNode'] = frozenset()


class DirNode(NamedTuple):
    """a bare reference, in a chain of optional fields"""
    v: int
    next: 'DirNode' = None


class TDTree(TypedDict):
    l: List['TDTree']
    d: NotRequired[Dict[str, 'TDTree']]


class Ping(NamedTuple):
    v: int
    pong: Optional['Pong'] = None


@dataclass
class Pong:
    """mutual references by name"""
    ping: Optional['Ping'] = None
    l: List['Ping'] = field(default_factory=list)


@dataclass
class Lost:
    """refers to a class that does not exist"""
    v: int
    x: Optional['Nowhere'] = None
    y: Union[int, 'Nowhere'] = 0
    z: List['Nowhere'] = field(default_factory=list)


@dataclass
class Holder:
    """recursive classes inside another"""
    a: Optional[ANode]
    l: List[Union[Tree, int]] = field(default_factory=list)


class Nothing:
    """no class has the name"""


class MyText:
    """a user's text type"""
    _sx_fields = ('v',)

    def __init__(self, v):
        if v == 'a':
            raise KeyError('not a')
        if v == 'b':
            raise ValueError('not b')
        if v == '':
            raise ZeroDivisionError()
        self.v = v

    def __eq__(self, o):
        return isinstance(o, MyText) and self.v == o.v

    def __hash__(self):
        return 1

    def __str__(self):
        return 'text ' + str(self.v)


@dataclass
class DCText:
    t: MyText
    o: Optional[MyText] = None


class NTText(NamedTuple):
    l: List[MyText]


@dataclass
class DCMix1:
    c: Colour
    d: Optional[Colour] = None
    e: Optional[Dict[Colour, Colour]] = None


class NTOpt(NamedTuple):
    o: Optional[int]
    d: Optional[int] = 3


class OTagA(NamedTuple):
    """the values of the tag overlap"""
    t: Literal['x', 'y']
    a: int


class OTagB(NamedTuple):
    t: Literal['y', 'z']
    b: int


@dataclass
class ODTagA:
    t: Literal[1, 2]
    v: int


@dataclass
class ODTagB:
    t: Literal[2]
    v: str


@dataclass
class DCTup:
    """tuples of different types"""
    p: Tuple[int, pathlib.Path]
    q: Tuple[str, Colour, int]
    r: Tuple[NT, int]
    s: Tuple[int, NT]
    t: Optional[Tuple[float, datetime.timedelta]] = None


@dataclass
class HDict:
    d: Dict[str, int]


@dataclass
class DCUnions:
    """unions of containers of basic types and of others"""
    a: Union[List[int], List[NT]] = field(default_factory=list)
    b: Optional[List[NT]] = None
    c: Union[List[int], Tuple[NT, ...]] = ()
    d: Optional[Tuple[int, NT]] = None
    e: Union[Tuple[int, ...], Set[Colour]] = ()
    f: Union[Dict[str, int], Dict[int, NT], None] = None
    g: Union[int, List[Union[int, NT]]] = 0
    h: Optional[Dict[str, Colour]] = None


class NTUnions(NamedTuple):
    a: Union[List[int], List[NT]] = ()
    b: Union[Set[int], FrozenSet[Colour]] = frozenset()
    c: Optional[Tuple[int, NT]] = None


@dataclass
class DCCont:
    """containers of basic types and of others"""
    a: List[pathlib.Path]
    b: Dict[str, Colour]
    c: FrozenSet[int] = frozenset()
    d: Set[str] = field(default_factory=set)
    e: Tuple[int, ...] = ()
    f: Tuple[Colour, ...] = ()
    g: Optional[List[int]] = None
    h: List[Optional[NT]] = field(default_factory=list)
    i: List[Tuple[int, Colour]] = field(default_factory=list)
    j: List[List[int]] = field(default_factory=list)


@dataclass
class DCEmptyName:
    a: int = field(metadata={'name': ''})
    b: int = field(default=1, metadata={'name': 'a', 'alt': ''})


@attr.s
class ATEmptyName:
    a = attr.ib(type=int, metadata={'name': ''})
    b = attr.ib(type=int, default=1, metadata={'name': 'a', 'alt': ''})


@dataclass
class DCDates:
    d: datetime.date
    t: datetime.time = datetime.time(1, 2)
    dt: Optional[datetime.datetime] = None
    td: datetime.timedelta = datetime.timedelta(1)
    l: List[Union[datetime.date, None]] = field(default_factory=list)


UserId = NewType('UserId', int)
Name = NewType('Name', str)
UserList = NewType('UserList', List[int])

@dataclass
class DCNew:
    n: UserId
    m: Optional[UserId] = None


BASICS = {'int': int, 'bool': bool, 'float': float, 'str': str, 'None': NoneType}

TYPES = dict(BASICS)
TYPES.update({
    'Any': Any, 'NONE': None, 'list[NONE]': list[None],
    'NewInt': UserId, 'NewStr': Name, 'NewList': UserList,
    'Path': pathlib.Path, 'IPv4': ipaddress.IPv4Address, 'IPv6': ipaddress.IPv6Address,
    'IPv4Net': ipaddress.IPv4Network, 'IPv6Net': ipaddress.IPv6Network, 'IPv4If': ipaddress.IPv4Interface,
    'IPv6If': ipaddress.IPv6Interface, 'UUID': uuid.UUID,
    'Pattern': re.Pattern, 'PatternStr': re.Pattern[str], 'PatternBytes': re.Pattern[bytes],
    'date': datetime.date, 'time': datetime.time, 'datetime': datetime.datetime, 'timedelta': datetime.timedelta,
    'Lit1': Literal[1, 2], 'LitA': Literal['a', 'b'], 'LitMix': Literal[1, 'a', None, True],
    'LitFalse': Literal[False, 0x7], 'LitNone': Literal[None], 'LitNeg': Literal[-1, 0, 'x', ''],
    'LitText': Literal['1', 'True', 'None', 'a'], 'LitBool': Literal[True],
})
for _c in list(globals().values()):
    if isinstance(_c, type) and _c.__module__ == __name__ and _c.__name__ not in TYPES:
        TYPES[_c.__name__] = _c

GENERIC = {'List': List, 'Set': Set, 'FrozenSet': FrozenSet, 'Dict': Dict, 'Tuple': Tuple, 'Opt': Optional,
           'Union': Union}
LOWER = {'list': list, 'set': set, 'frozenset': frozenset, 'dict': dict, 'tuple': tuple}
_cache = {}


def T(name):
    """'List[int]', 'Dict[str,Opt[int]]', 'Union[int,List[str]]', 'Tuple[int,...]', 'int|None' ..."""
    if name in TYPES:
        return TYPES[name]
    if name not in _cache:
        ns = dict(TYPES)
        ns.update(GENERIC)
        ns.update(LOWER)
        ns['None_'] = None
        expr = name.replace('None', 'None_' if False else 'NoneT')
        ns['NoneT'] = NoneType
        _cache[name] = eval(expr, ns)
    return _cache[name]


def isobj(t):
    return objkind(t) is not None


_many = {}


def many(kind, n):
    """n different types of a kind, each with data for it and a value of it"""
    import dataclasses
    r = _many.setdefault(kind, [])
    while len(r) < n:
        i = len(r)
        if kind == 'nt':
            t = NamedTuple('ManyNT%d' % i, [('a', int), ('b%d' % i, Optional[int])])
            r.append((t, {'a': i, 'b%d' % i: None}, t(i, None)))
        elif kind == 'dc':
            t = dataclasses.make_dataclass('ManyDC%d' % i, [('a', int, field(metadata={'name': 'x%d' % i})), ('b', str, 'b')])
            r.append((t, {'x%d' % i: i}, t(i)))
        elif kind == 'at':
            t = attr.make_class('ManyAT%d' % i, {'a': attr.ib(type=int), 'b': attr.ib(type=str, default='b')})
            r.append((t, {'a': i}, t(i)))
        elif kind == 'td':
            t = TypedDict('ManyTD%d' % i, {'a': int, 'b%d' % i: NotRequired[int]})
            r.append((t, {'a': i}, {'a': i}))
        elif kind == 'tags':
            a = NamedTuple('ManyTagA%d' % i, [('t', Literal['a']), ('v', int)])
            b = NamedTuple('ManyTagB%d' % i, [('t', Literal['b']), ('v', int)])
            r.append((Union[a, b], {'t': 'b', 'v': i}, b('b', i)))
        elif kind == 'list':
            t = NamedTuple('ManyItem%d' % i, [('a', int)])
            r.append((List[t], [{'a': i}], [t(i)]))
        elif kind == 'literal':
            r.append((Literal['l%d' % i, i], i, i))
        elif kind == 'enum':
            t = enum.Enum('ManyEnum%d' % i, {'A': i, 'B': 'b%d' % i})
            r.append((t, i, t.A))
    return r[:n]


_twins = {}


def sametitle(t):
    """other classes with the name, module and fields of t, but other types and defaults: (class, data, value)"""
    import dataclasses
    if t in _twins:
        return _twins[t]
    names = [f.name for f in fields(t)]
    r = []
    for kind in ('dc', 'nt', 'at', 'td'):
        for default in (False, True):
            if kind == 'dc':
                c = dataclasses.make_dataclass(t.__name__, [(n, List[str], field(default_factory=lambda: ['d'])) if default else (n, List[str]) for n in names])
            elif kind == 'nt':
                c = NamedTuple(t.__name__, [(n, List[str]) for n in names])
                if default:
                    continue
            elif kind == 'at':
                c = attr.make_class(t.__name__, {n: attr.ib(type=List[str], default=attr.Factory(lambda: ['d'])) if default else attr.ib(type=List[str]) for n in names})
            else:
                c = TypedDict(t.__name__, {n: List[str] for n in names}, total=not default)
            c.__module__, c.__qualname__ = t.__module__, t.__qualname__
            d = {n: ['x'] for n in names}
            r.append((c, d, d if kind == 'td' else c(**d)))
    _twins[t] = r
    return r


def objkind(t):
    if isinstance(t, type) and issubclass(t, tuple) and hasattr(t, '_fields'):
        return 'nt'
    if hasattr(t, '__dataclass_fields__'):
        return 'dc'
    if hasattr(t, '__attrs_attrs__'):
        return 'at'
    if typing.is_typeddict(t):
        return 'td'
    return None


REQUIRED = object()


class F:
    """what a field is, from the class definition"""
    def __init__(self, name, type, default=REQUIRED, factory=None, init=True, meta=None, dump=True, optional=False, takes=False):
        self.name, self.type, self.default, self.factory, self.init = name, type, default, factory, init
        self.meta = dict(meta or {})
        self.dump = dump
        self.takes_self = takes
        self.optional = optional            # may be absent (TypedDict)
        self.required = init and default is REQUIRED and factory is None and not optional

    def ext(self, key='name'):
        return self.name if self.meta.get(key) is None else self.meta[key]

    def has_default(self):
        return self.default is not REQUIRED or self.factory is not None

    def make_default(self, v=None):
        if self.takes_self:
            return self.factory(v)
        return self.factory() if self.factory else self.default


_fields = {}


def fields(t):
    """the fields of an object type, by plain inspection of the definition"""
    if t in _fields:
        return _fields[t]
    k = objkind(t)
    r = []
    if k == 'nt':
        for n in t._fields:
            r.append(F(n, next(c.__annotations__[n] for c in t.__mro__ if n in getattr(c, '__annotations__', {}) and n in c.__dict__.get('_fields', ())), t._field_defaults.get(n, REQUIRED)))
    elif k == 'dc':
        import dataclasses
        for f in dataclasses.fields(t):
            r.append(F(f.name, f.type, REQUIRED if f.default is dataclasses.MISSING else f.default,
                       None if f.default_factory is dataclasses.MISSING else f.default_factory, f.init, f.metadata))
    elif k == 'at':
        for a in t.__attrs_attrs__:
            d, fac, takes = a.default, None, False
            if d is attr.NOTHING:
                d = REQUIRED
            elif isinstance(d, attr.Factory):
                takes, d, fac = d.takes_self, REQUIRED, d.factory
            r.append(F(a.name, a.type, d, fac, a.init, a.metadata, dump=bool(a.repr), takes=takes))
    else:
        for n, ty in dict(TDHINTS[t]).items():
            opt = n in TDOPT[t]
            r.append(F(n, ty, optional=opt))
    _fields[t] = r
    return r


# taken before the code under test runs; NotRequired stripped
TDHINTS, TDOPT = {}, {}
for _c in list(TYPES.values()):
    if typing.is_typeddict(_c):
        h, o = {}, set()
        for _n, _t in _c.__annotations__.items():
            if typing.get_origin(_t) is NotRequired:
                _t = _t.__args__[0]
                o.add(_n)
            h[_n] = _t
        o |= set(_c.__optional_keys__)
        TDHINTS[_c], TDOPT[_c] = h, o
for _c in list(TYPES.values()):
    if isobj(_c):
        fields(_c)

# class names, for references by name
NAMES = {c.__name__: c for c in TYPES.values() if isinstance(c, type)}


def resolve(t):
    if t is None:
        return NoneType
    if isinstance(t, typing.ForwardRef):
        return NAMES.get(t.__forward_arg__, Nothing)
    if isinstance(t, str):
        return NAMES[t]
    return t


def consts(t, seen=None):
    """(strings, numbers) that matter to a schema: literals, enum values, field names internal and external"""
    if seen is None:
        seen = set()
    t = resolve(t)
    key = id(t)
    if key in seen:
        return [], []
    seen.add(key)
    s, n = [], []

    def addv(v):
        if isinstance(v, str):
            s.append(v)
        elif isinstance(v, (bool, int, float)):
            n.append(v)
        elif isinstance(v, tuple):
            for i in v:
                addv(i)
    if typing.get_origin(t) is Literal:
        for v in t.__args__:
            addv(v)
    elif isinstance(t, type) and issubclass(t, enum.Enum):
        for m in t:
            addv(m.value)
        s += list(t.__members__)
        for a in getattr(t, '__annotations__', {}).values():
            a, b = consts(a, seen)
            s += a
            n += b
    elif isobj(t):
        for f in fields(t):
            s += [f.name, f.ext('name'), f.ext('alt')]
            if f.default is not REQUIRED:
                addv(f.default)
            a, b = consts(f.type, seen)
            s += a
            n += b
    elif hasattr(t, '__supertype__'):
        return consts(t.__supertype__, seen)
    elif t in (pathlib.Path,):
        s += ['/tmp/x', 'a//b', '..', '.', '']
    elif t in (ipaddress.IPv4Address, ipaddress.IPv4Network, ipaddress.IPv4Interface):
        s += ['10.0.0.1', '10.0.0.0/8', '10.0.0.1/8', '1.2.3']
    elif t in (ipaddress.IPv6Address, ipaddress.IPv6Network, ipaddress.IPv6Interface):
        s += ['::1', 'fe80::/10', '10.0.0.1']
    elif t is uuid.UUID:
        s += ['12345678123456781234567812345678', '12345678-1234-5678-1234-567812345678', '1234']
    elif t is re.Pattern or typing.get_origin(t) is re.Pattern:
        s += ['a+', '(', '[b', 'a{99999999999999}', '']
    elif t in (datetime.date, datetime.time, datetime.datetime):
        s += ['2020-02-29', '2021-02-29', '12:30:01.5', '2020-02-29T12:30:01+02:00', '10:00:00Z', '2020-13-01', 'junk']
    else:
        for a in getattr(t, '__args__', ()):
            if a is not ...:
                x, y = consts(a, seen)
                s += x
                n += y
    return list(dict.fromkeys(s)), list(dict.fromkeys(n))


def _local():
    @dataclass
    class Part:
        a: int = 0

    @dataclass
    class Whole:
        p: 'Part'
        l: List['Part'] = field(default_factory=list)
    return Part, Whole


Part, Whole = _local()      # names that cannot be resolved from the module


def _same(n, m, kind):
    if kind == 'dc':
        @dataclass
        class Same:
            a: int = n
            l: List[int] = field(default_factory=lambda: list(m))
    elif kind == 'at':
        @attr.s(auto_attribs=True)
        class Same:
            a: int = n
            l: List[int] = attr.Factory(lambda: list(m))
    else:
        class Same(NamedTuple):
            a: int = n
            l: List[int] = m
    fields(Same)
    return Same


SAMES = [_same(n, l, k) for k in ('dc', 'at', 'nt') for n, l in ((1, [1]), (2, []))]    # distinct classes of the same name


# ---------------------------------------------------------------- definitions: are they as they were?
def reachable(t, seen=None):
    """the classes and generic types a schema is made of"""
    seen = {} if seen is None else seen
    if isinstance(t, (typing.ForwardRef, str)):
        t = NAMES.get(t.__forward_arg__ if isinstance(t, typing.ForwardRef) else t)
    if t is None or id(t) in seen or t is ...:
        return seen
    if isinstance(t, type) and t.__module__ != __name__ and not getattr(t, '__args__', None):
        return seen
    if not (isinstance(t, type) or hasattr(t, '__args__') or hasattr(t, '__supertype__')):
        return seen
    seen[id(t)] = t
    for a in getattr(t, '__args__', None) or ():
        reachable(a, seen)
    if hasattr(t, '__supertype__'):
        reachable(t.__supertype__, seen)
    if isobj(t):
        for b in t.__mro__:
            reachable(b, seen)
        for f in fields(t):
            reachable(f.type, seen)
    return seen


def _containers(x, r, depth=3):
    if isinstance(x, (list, dict, set)):
        r.append((x, dict(x) if isinstance(x, dict) else list(x)))
        if depth:
            for i in (x.values() if isinstance(x, dict) else x):
                _containers(i, r, depth - 1)


def _record(t):
    """everything that defines t: (holder, content) pairs"""
    boxes, attrs = [], []
    if isinstance(t, type):
        getattr(t, '__annotations__', None)     # made on demand
        attrs.append((t, dict(vars(t))))
        for n in ('__annotations__', '_field_defaults', '__dataclass_fields__', '_member_map_', '_value2member_map_'):
            if n in vars(t):
                _containers(vars(t)[n], boxes)
        for f in vars(t).get('__dataclass_fields__', {}).values():
            attrs.append((f, {n: getattr(f, n) for n in f.__slots__ if hasattr(f, n)}))
            _containers(f.default, boxes)
        for f in vars(t).get('__attrs_attrs__', ()):
            attrs.append((f, {n: getattr(f, n) for n in ('name', 'default', 'type', 'init', 'repr', 'metadata', 'converter')}))
            _containers(f.default, boxes)
        if isinstance(t, type) and issubclass(t, enum.Enum):
            for m in t.__members__.values():
                _containers(m.value, boxes)
    elif hasattr(t, '__args__'):
        attrs.append((t, {'__args__': t.__args__, '__origin__': getattr(t, '__origin__', None)}))
    return boxes, attrs


_defs = {}


def definitions(t):
    """a list of what was found changed, in the definitions that t is made of, since they were recorded"""
    for i, c in reachable(t).items():
        if i not in _defs:
            _defs[i] = _record(c)
    changed = []
    global LAST
    LAST = changed
    for i, c in reachable(t).items():
        boxes, attrs = _defs[i]
        for x, old in boxes:
            if isinstance(x, dict):
                ok = len(x) == len(old) and all(k in x and x[k] is old[k] for k in old)
                if not ok:
                    x.clear()
                    x.update(old)
            elif isinstance(x, list):
                ok = len(x) == len(old) and all(a is b for a, b in zip(x, old))
                if not ok:
                    x[:] = old
            else:
                ok = x == set(old)
                if not ok:
                    x.clear()
                    x.update(old)
            if not ok:
                changed.append(getattr(c, '__name__', str(c)))
        for x, old in attrs:
            if isinstance(x, type):
                now = vars(x)
                for n in [n for n in now if n not in old and n not in ('__abstractmethods__', '__weakref__')]:
                    changed.append('%s.%s' % (c.__name__, n))
                    delattr(x, n)
                for n, o in old.items():
                    if now.get(n) is not o and n not in ('_abc_impl', '__doc__'):
                        changed.append('%s.%s' % (c.__name__, n))
                        setattr(x, n, o)
            else:
                for n, o in old.items():
                    if getattr(x, n, None) is not o:
                        changed.append('%s.%s' % (getattr(c, '__name__', c), n))
                        try:
                            setattr(x, n, o)
                        except AttributeError:
                            pass
    return changed


for _c in list(TYPES.values()):
    definitions(_c)
