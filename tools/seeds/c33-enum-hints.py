PROPERTY = 'C33'
NEEDS = 'an Enum with hints of several types, and a value that loads into several of them, as different members'
BREAKS = 'the hints of an Enum are tried in the order of a set, so the member depends on the addresses of the types'
EDITS = [
    ('typedload/dataloader.py',
     "    for _, t in get_type_hints(type_).items():\n",
     "    for t in set(get_type_hints(type_).values()):\n"),
]
DEMO = r"""
import enum
from typing import *
from typedload import load

def make():
    class A(NamedTuple):
        x: int = 0
    class B(NamedTuple):
        x: int = 0
        y: int = 0
    class E(enum.Enum):
        _a: A
        _b: B
        U = A(1)
        V = B(1)
    return E

for i in range(300):
    E = make()
    assert load({'x': 1}, E) == E.U, i
"""
