PROPERTY = 'C32'
NEEDS = 'a class added to basictypes in an optional or union with an object, and a value that both accept'
BREAKS = 'in unions only the usual basic types are tried last, not the ones that were added'
EDITS = [
    ('typedload/dataloader.py',
     "    sorted_args.sort(key=lambda i: i in l.basictypes)\n",
     "    sorted_args.sort(key=lambda i: i in {int, bool, float, str, NONETYPE})\n"),
]
DEMO = r"""
from typing import Union, List
from typedload.dataloader import Loader
l = Loader()
l.basictypes = l.basictypes | {bytes}
assert l.load([1, 2], Union[bytes, List[int]]) == [1, 2]
"""
