PROPERTY = 'C11'
NEEDS = 'uniondebugconflict, a union with tags, and a value that the member with the tag and another one accept'
BREAKS = 'when the member with the tag accepts the value the others are not tried, so the conflict is not reported'
EDITS = [
    ('typedload/dataloader.py',
     "            if not l.uniondebugconflict:\n",
     "            if not l.uniondebugconflict or (hasattr(value, 'get') and t is sorted_args[0] and discriminatorliterals(t)):\n"),
]
DEMO = r"""
from typing import *
from typedload import load
from typedload.exceptions import TypedloadException
class A(NamedTuple):
    t: Literal['a', 'b']
class B(NamedTuple):
    t: Literal['b', 'c']
    x: int = 0
assert type(load({'t': 'b'}, Union[A, B])) in (A, B)
try:
    r = load({'t': 'b'}, Union[A, B], uniondebugconflict=True)
except TypedloadException:
    pass
else:
    raise SystemExit('no conflict: %r' % (r,))
"""
