PROPERTY = 'C21'
NEEDS = 'a union of which two neighbouring members fail with the same message'
BREAKS = 'attached errors with the same first line are printed once'
EDITS = [
    ('typedload/exceptions.py',
     "        msg = spaces + 'Exceptions:\\n'\n        for i in self.exceptions:\n",
     "        msg = spaces + 'Exceptions:\\n'\n        last = None\n        for i in self.exceptions:\n            if last is not None and last.args == i.args and last.type_ == i.type_ and not i.exceptions:\n                continue\n            last = i\n"),
]
DEMO = r"""
from typing import *
from typedload import load
class A(NamedTuple):
    a: int
class B(NamedTuple):
    a: int
try:
    load({'a': 'x'}, Union[A, B])
except ValueError as e:
    assert str(e).count("invalid literal") == 2, str(e)
else:
    raise SystemExit('loaded')
"""
