PROPERTY = 'C13'
NEEDS = 'a dictionary whose keys are members of an enum with integer values, loaded back without casting'
BREAKS = 'dictionary keys of enum type are dumped as the name of the member when their value is a number'
EDITS = [
    ('typedload/datadumper.py',
     'lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),',
     'lambda l, value, t: {(str(k.value) if isinstance(k, Enum) and type(k.value) is int else l.dump(k)): l.dump(v) for k, v in value.items()}),'),
]
DEMO = r"""
from enum import Enum
from typing import *
from typedload import load, dump
class E(Enum):
    A = 1
    B = 'b'
assert dump({E.B: 1}) == {'b': 1}
assert load(dump({E.A: 1}), Dict[E, int]) == {E.A: 1}
"""
