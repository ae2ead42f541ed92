PROPERTY = 'C01'
NEEDS = 'data that holds a set where the type asks for a frozen set, or the other way round'
BREAKS = 'a set whose items need no conversion is copied, so it stays a set also where a frozenset is asked for'
EDITS = [
    ('typedload/dataloader.py',
     "    t = type_.__args__[0]\n\n    # Get function pointer for the handler\n",
     "    t = type_.__args__[0]\n\n    if function is not tuple and isinstance(value, (set, frozenset)) and t in l.basictypes and all(type(i) is t for i in value):\n        # Nothing to convert\n        return value.copy() if function is not list else list(value)\n\n    # Get function pointer for the handler\n"),
]
DEMO = r"""
from typing import *
from typedload import load
assert type(load({1, 2}, FrozenSet[int])) is frozenset
assert type(load(frozenset((1, 2)), Set[int])) is set
"""
