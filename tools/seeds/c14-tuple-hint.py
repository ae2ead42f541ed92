PROPERTY = 'C14'
NEEDS = 'a dataclass field with a union of a list of basic values and a list of something else'
BREAKS = 'the hint of the first member that is a list is used for the items, so they are not dumped'
EDITS = [
    ('typedload/datadumper.py',
     "    itertypes = getattr(t, '__args__', (Any, ))\n",
     "    if is_union(t):\n        # Optional lists are common\n        t = next((i for i in t.__args__ if hasattr(i, '__args__')), Any)\n    itertypes = getattr(t, '__args__', (Any, ))\n"),
    ('typedload/datadumper.py', "from .typechecks import is_attrs", "from .typechecks import is_union, is_attrs"),
]
DEMO = r"""
from typing import *
from dataclasses import dataclass
import datetime
from typedload import dump
class N(NamedTuple):
    a: int
@dataclass
class D:
    x: Union[List[int], List[N]]
assert dump(D([N(1)])) == {'x': [{'a': 1}]}, dump(D([N(1)]))
"""
