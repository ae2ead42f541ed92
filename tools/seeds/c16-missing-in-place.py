PROPERTY = 'C16'
NEEDS = 'a second load into a dataclass whose required field is missing, after a successful one'
BREAKS = 'the required fields of a dataclass are forgotten after the first load, and the kind of failure changes'
EDITS = [
    ('typedload/dataloader.py',
     "    if len(necessary_fields.intersection(vfields)) != len(necessary_fields):\n        raise TypedloadValueError(\n            'Value does not contain fields: %s which are necessary for type %s' % (\n                necessary_fields.difference(vfields),\n                tname(type_)",
     "    missing_fields = necessary_fields\n    missing_fields -= vfields\n    if missing_fields:\n        raise TypedloadValueError(\n            'Value does not contain fields: %s which are necessary for type %s' % (\n                missing_fields,\n                tname(type_)"),
]
DEMO = r"""
from dataclasses import *
from typedload.dataloader import Loader
from typedload.exceptions import *
@dataclass
class A:
    a: int
l = Loader()
assert l.load({'a': 1}, A) == A(1)
try:
    l.load({}, A)
except TypedloadValueError:
    pass
"""
