PROPERTY = 'C07'
NEEDS = 'a TypedDict that inherits from one with another totality'
BREAKS = 'whether the fields of a TypedDict are required is taken from the last class only'
EDITS = [
    ('typedload/dataloader.py',
     "    if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):\n        # TypedDict, since 3.9\n        necessary_fields = set(type_.__required_keys__)\n",
     "    if type_.__total__ and type_.__optional_keys__:\n        necessary_fields = {k for k in fields if not is_notrequired(type_hints[k])}\n    elif hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):\n        # TypedDict, since 3.9\n        necessary_fields = set(type_.__required_keys__)\n"),
]
DEMO = r"""
from typing import *
from typedload import load
class A(TypedDict, total=False):
    a: int
class B(A):
    b: int
assert load({'a': 1, 'b': 2}, B) == {'a': 1, 'b': 2}
assert load({'b': 2}, B) == {'b': 2}
"""
