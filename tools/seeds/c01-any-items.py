PROPERTY = 'C01'
NEEDS = 'a tuple or set loaded into a list of Any (or a list into a tuple of Any)'
BREAKS = 'the result is not a container of the requested kind, and it is the input object'
EDITS = [
    ('typedload/dataloader.py',
     '        if t in l.basictypes:\n            return function((i if',
     '        if t is Any and isinstance(value, (list, tuple, set, frozenset)):\n            # Nothing to do for the items\n            return value\n        if t in l.basictypes:\n            return function((i if'),
]
DEMO = r"""
from typing import *
from typedload import load
assert load((1, 2), List[Any]) == [1, 2]
assert load([1, 2], Tuple[Any, ...]) == (1, 2)
"""
