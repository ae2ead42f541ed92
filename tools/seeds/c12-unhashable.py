PROPERTY = 'C12'
NEEDS = 'an enum whose member values are lists or dictionaries'
BREAKS = 'enum members whose values are not hashable are not found'
EDITS = [
    ('typedload/dataloader.py',
     '        # Try naïve conversion\n        return type_(value)\n',
     '        # Try naïve conversion\n        if isinstance(value, type_):\n            return value\n        return type_._value2member_map_[value]\n'),
]
DEMO = r"""
from enum import Enum
from typedload import load
class E(Enum):
    A = [1, 2]
    B = 3
assert load(3, E) is E.B
assert load([1, 2], E) is E.A
assert load(E.A, E) is E.A
"""
