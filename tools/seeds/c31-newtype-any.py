PROPERTY = 'C31'
NEEDS = 'a NewType of another NewType'
BREAKS = 'only the first level of a NewType of a NewType is loaded with the checks of its type, the others take the value as it is'
EDITS = [
    ('typedload/dataloader.py',
     "    return l.load(value, type_.__supertype__)\n",
     "    t = type_.__supertype__\n    if is_newtype(t) and isinstance(value, (str, int, float, bool)):\n        # Already the type at the bottom\n        return value\n    return l.load(value, t)\n"),
]
DEMO = r"""
from typing import NewType
from typedload import load
A = NewType('A', int)
B = NewType('B', A)
assert load('12', B) == load('12', A) == 12
"""
