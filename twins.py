"""The same classes, with annotations evaluated at once and postponed."""
import __future__
import sys
import types

SOURCE = '''
import datetime, enum, pathlib, re
from dataclasses import dataclass, field
from typing import *
import catalog
from catalog import Colour, Num, DC, NT, TD, UserId

class LNT(NamedTuple):
    a: int
    b: Optional[str] = None
    c: List[int] = []

class LNest(NamedTuple):
    x: LNT
    l: List[LNT]
    d: Dict[str, LNT] = {}
    o: Optional[LNT] = None

@dataclass
class LDC:
    a: int
    b: str = 'b'
    c: Optional[LNT] = None
    d: List[float] = field(default_factory=list)

@dataclass
class LBase:
    x: int
    y: Union[int, str] = 5

@dataclass
class LChild(LBase):
    y: str = 'q'
    z: Tuple[int, ...] = ()

@dataclass
class LSame(LChild):
    pass

@dataclass
class LMore(LSame):
    w: Optional[LBase] = None

@dataclass
class LForeign(FBase):
    g: int = 3

class LTDForeign(FTD):
    g: NotRequired[int]

@dataclass
class LName:
    a: int = field(metadata={'name': 'A', 'alt': 'b'})
    b: Optional[List[LDC]] = field(default=None, metadata={'name': 'a'})

class LTD(TypedDict):
    a: int
    b: List[str]

class LTDOpt(TypedDict, total=False):
    a: int
    n: Optional[LTD]

class LTDMix(LTD, total=False):
    c: LNT

class LTDNot(TypedDict):
    a: int
    b: NotRequired[Dict[str, int]]

class LTDSame(LTDNot):
    pass

class LTDMore(LTDNot, total=False):
    c: int

class LNode(NamedTuple):
    v: int
    next: Optional['LNode'] = None

@dataclass
class LTree:
    v: int
    kids: List['LTree'] = field(default_factory=list)

@dataclass
class LPing:
    pong: Optional['LPong'] = None

@dataclass
class LPong:
    ping: Union[LPing, int, None] = None

class LTagA(NamedTuple):
    t: Literal['a']
    v: int

class LTagB(NamedTuple):
    t: Literal['b']
    v: str

@dataclass
class LUnion:
    u: Union[LTagA, LTagB]
    w: List[Union[LTagB, LTagA, int]] = field(default_factory=list)

@dataclass
class LKinds:
    c: Colour
    n: Optional[Num] = None
    p: pathlib.Path = pathlib.Path('p')
    w: datetime.date = datetime.date(2020, 1, 1)
    f: FrozenSet[int] = frozenset()
    u: UserId = UserId(1)
    t: Tuple[int, str] = (1, 'x')
    a: Any = None
    z: None = None
    l: Literal[1, 'a'] = 1
    o: int | None = None
    e: list[dict[str, set[int]]] = field(default_factory=list)

@dataclass
class LOther:
    """classes of another module"""
    d: DC
    n: List[NT] = field(default_factory=list)
    t: Optional[TD] = None

@dataclass
class LKw:
    a: int
    b: int = field(default=2, kw_only=True)
    c: str = field(kw_only=True, default='')

@dataclass
class LPost:
    a: int

    def __post_init__(self):
        if self.a == 3:
            raise ValueError('three')
'''


BASES = '''
from dataclasses import dataclass
from typing import *

class FItem(NamedTuple):
    i: int

@dataclass
class FBase:
    """its annotations have names that the derived class does not see"""
    f: FItem

class FTD(TypedDict):
    f: FItem
    h: NotRequired[FItem]
'''


def define(name, source, lazy, **names):
    m = types.ModuleType(name)
    sys.modules[name] = m
    m.__dict__.update(names)
    exec(compile(source, '<%s>' % name, 'exec', flags=__future__.annotations.compiler_flag if lazy else 0, dont_inherit=True), m.__dict__)
    return {k: c for k, c in m.__dict__.items() if isinstance(c, type) and c.__module__ == name}


def build(name, lazy):
    b = define(name + '_base', BASES, lazy)
    r = define(name, SOURCE, lazy, FBase=b['FBase'], FTD=b['FTD'])
    r.update(b)
    return r


EAGER, LAZY = build('twins_eager', False), build('twins_lazy', True)
