PROPERTY = 'C33'
NEEDS = 'a union of objects with a literal field, and a tag that is a value of several of them'
BREAKS = 'which of the members takes an ambiguous tag depends on the addresses of the types'
EDITS = [
    ('typedload/dataloader.py',
     "            data = {t: discriminatorliterals(t) for t in args}\n",
     "            data = {t: discriminatorliterals(t) for t in set(args)}\n"),
]
DEMO = r"""
from typing import *
from typedload import load

def make():
    class A(NamedTuple):
        t: Literal['a', 'b']
    class B(NamedTuple):
        t: Literal['b', 'c']
        x: int = 0
    return A, B

seen = set()
for i in range(300):
    A, B = make()
    seen.add(type(load({'t': 'b'}, Union[A, B])).__name__)
assert len(seen) == 1, seen
"""
