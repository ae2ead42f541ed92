PROPERTY = 'C18'
NEEDS = 'a dictionary whose values are of a type that is not supported'
BREAKS = 'the exception exposes the type of the keys instead of the one that is not supported'
EDITS = [
    ('typedload/dataloader.py',
     "                'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),\n                value=value,\n                type_=value_type\n",
     "                'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),\n                value=value,\n                type_=key_type\n"),
]
DEMO = r"""
from typing import *
from typedload import load
from typedload.exceptions import TypedloadException
class X: pass
try:
    load({'a': 1}, Dict[str, X])
except TypedloadException as e:
    assert e.type_ is X, e.type_
else:
    raise SystemExit('accepted')
"""
