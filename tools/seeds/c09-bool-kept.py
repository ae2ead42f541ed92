PROPERTY = 'C09'
NEEDS = 'a bool loaded into a union with int but without bool'
BREAKS = 'an instance of a subclass of a basic member is returned as it is, so no member gives that result'
EDITS = [
    ('typedload/dataloader.py',
     "    if value_type in l.basictypes and value_type in args:\n",
     "    if value_type in l.basictypes and any(i in l.basictypes and isinstance(value, i) for i in args):\n"),
]
DEMO = r"""
from typing import *
from typedload import load
r = load(True, Union[int, List[int]])
assert type(r) is int, r
try:
    load(True, Union[int, List[int]], basiccast=False)
except ValueError:
    pass
else:
    assert False
"""
