PROPERTY = 'C12'
NEEDS = 'an unhashable value loaded into a literal'
BREAKS = 'a TypeError from the set lookup leaves load() as AssertionError'
EDITS = [
    ('typedload/dataloader.py',
     "    if value in type_.__args__:\n        return value\n    raise TypedloadValueError('Not one",
     "    if value in literalvalues(type_):\n        return value\n    raise TypedloadValueError('Not one"),
]
DEMO = r"""
from typing import *
from typedload import load
from typedload.exceptions import TypedloadException
for v in ([], {}, {'a': 1}):
    try:
        load(v, Literal['a', 1])
    except TypedloadException:
        pass
"""
