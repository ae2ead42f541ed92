PROPERTY = 'C17'
NEEDS = 'an empty list where a list is expected, and a change to the loaded value'
BREAKS = 'an empty input list becomes the loaded list itself'
EDITS = [
    ('typedload/dataloader.py',
     '    t = type_.__args__[0]\n\n    # Get function',
     '    if type(value) is function and not value:\n        # Nothing to load\n        return value\n    t = type_.__args__[0]\n\n    # Get function'),
]
DEMO = r"""
from typing import *
from typedload import load
a = {'x': []}
r = load(a, Dict[str, List[int]])
assert r == a
r['x'].append(1)
assert a == {'x': []}
"""
