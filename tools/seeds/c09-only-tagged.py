PROPERTY = 'C09'
NEEDS = 'members that share a literal value, told apart by their other fields'
BREAKS = 'only the last member that declares the value of the tag is tried'
EDITS = [
    ('typedload/dataloader.py',
     '                sorted_args.remove(preferredtype)\n                sorted_args.insert(0, preferredtype)',
     '                sorted_args = [preferredtype]'),
]
DEMO = r"""
from typing import *
from typedload import load
class A(NamedTuple):
    t: Literal['x', 'y']
    a: int
class B(NamedTuple):
    t: Literal['y', 'z']
    b: int
assert load({'t': 'y', 'a': 1}, Union[A, B]) == A('y', 1)
assert load({'t': 'y', 'b': 1}, Union[A, B]) == B('y', 1)
"""
