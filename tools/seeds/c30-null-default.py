PROPERTY = 'C30'
NEEDS = 'failonextra not set, and a field with a default that is null in the data and may be None'
BREAKS = 'without failonextra a null is the default of the field, with it the field is None'
EDITS = [
    ('typedload/dataloader.py',
     "        if k not in fields:\n            # Field in value is not in the type\n            continue\n",
     "        if k not in fields:\n            # Field in value is not in the type\n            continue\n        if v is None and k not in necessary_fields and not l.failonextra and is_optional(type_hints[k]):\n            # Same as absent\n            continue\n"),
]
DEMO = r"""
from typing import Optional, NamedTuple
from typedload import load
class A(NamedTuple):
    n: Optional[int] = 3
assert load({'n': None}, A, failonextra=True) == load({'n': None}, A)
"""
