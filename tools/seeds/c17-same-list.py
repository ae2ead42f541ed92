PROPERTY = 'C17'
NEEDS = 'a dataclass with a list of basic type, dumped and then modified'
BREAKS = 'the dump contains the very list of the dumped object'
EDITS = [
    ('typedload/datadumper.py',
     "            # Just copy the list if it's a list\n            return value.copy()",
     "            # Nothing to convert if it's a list\n            return value"),
]
DEMO = r"""
from dataclasses import *
from typing import *
from typedload import dump
@dataclass
class A:
    a: List[int]
x = A([1])
d = dump(x)
assert d == {'a': [1]}
d['a'].append(2)
assert x == A([1])
"""
