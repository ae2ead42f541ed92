PROPERTY = 'C10'
NEEDS = 'a union with a tag value that several members declare, where the data fits only the one that is not in the table'
BREAKS = 'only the member in the table of tags is tried'
EDITS = [
    ('typedload/dataloader.py',
     "                sorted_args.remove(preferredtype)\n                sorted_args.insert(0, preferredtype)\n",
     "                sorted_args = [i for i in sorted_args if i is preferredtype] if not l.uniondebugconflict else sorted_args\n"),
]
DEMO = r"""
from typing import *
from typedload import load
class A(NamedTuple):
    t: Literal['a', 'b']
    x: int
class B(NamedTuple):
    t: Literal['b', 'c']
    y: int
assert load({'t': 'b', 'x': 1}, Union[A, B], failonextra=True) == A('b', 1)
assert load({'t': 'b', 'y': 1}, Union[A, B], failonextra=True) == B('b', 1)
"""
