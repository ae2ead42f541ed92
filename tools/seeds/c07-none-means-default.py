PROPERTY = 'C07'
NEEDS = 'an optional field that accepts None, has a default other than None, and is None in the data'
BREAKS = 'a field present with value None takes the default of the class'
EDITS = [
    ('typedload/dataloader.py',
     '            # Field in value is not in the type\n            continue\n',
     '            # Field in value is not in the type\n            continue\n        if v is None and k not in necessary_fields:\n            # Null means unset\n            continue\n'),
]
DEMO = r"""
from typing import *
from typedload import load
class A(NamedTuple):
    a: Optional[int] = 5
assert load({'a': None}, A) == A(None)
assert load({}, A) == A(5)
"""
