PROPERTY = 'C16'
NEEDS = 'one loader used with two unions of the same members in another order'
BREAKS = 'the members of a union are kept by the union, and unions with the same members are equal, so the order of the first one is used'
EDITS = [
    ('typedload/dataloader.py',
     "    args = uniontypes(type_)\n\n    value_type",
     "    args = l._unionload_argscache.get(type_)  # type: ignore\n    if args is None:\n        args = l._unionload_argscache[type_] = uniontypes(type_)\n\n    value_type"),
    ('typedload/dataloader.py',
     "        # Objects loader cache\n" if False else "        self._indexcache = {}",
     "        self._unionload_argscache = {}  # type: Dict[Any, Tuple[Type, ...]]\n        self._indexcache = {}"),
]
DEMO = r"""
from typing import *
from typedload.dataloader import Loader
l = Loader()
assert l.load(1.5, Union[int, str]) == 1
assert l.load(1.5, Union[str, int]) == '1.5', l.load(1.5, Union[str, int])
assert l.load(2.5, Union[int, str]) == 2
"""
