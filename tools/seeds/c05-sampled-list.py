PROPERTY = 'C05'
NEEDS = 'a list of basic type whose first and last items have the type, with an item in the middle that does not'
BREAKS = 'items in the middle of a list are neither converted nor checked'
EDITS = [
    ('typedload/dataloader.py',
     '        if t in l.basictypes:\n            return function((i if',
     '        if t in l.basictypes and function is list and type(value) is list and value and type(value[0]) is t and type(value[-1]) is t:\n            # Homogeneous, nothing to convert\n            return function(value)\n        if t in l.basictypes:\n            return function((i if'),
]
DEMO = r"""
from typing import *
from typedload import load
assert load([1, '2', 3], List[int]) == [1, 2, 3]
assert load(['a', 1, 'b'], List[str]) == ['a', '1', 'b']
"""
