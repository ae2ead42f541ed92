PROPERTY = 'C16'
NEEDS = 'an untagged union in which two members accept a value, after loading one that only the second accepts'
BREAKS = 'a union remembers the member that was loaded last and tries it first the next time'
EDITS = [
    ('typedload/dataloader.py',
     '    # Try all types\n    loaded_count = 0\n',
     "    # Most probably it is the same type as the last time\n    winner = l._indexcache.get(('winner', args))\n    if winner in sorted_args and not l.uniondebugconflict and winner not in l.basictypes:\n        sorted_args.sort(key=lambda i: (i in l.basictypes, i != winner))\n\n    # Try all types\n    loaded_count = 0\n"),
    ('typedload/dataloader.py',
     '            loaded_count += 1\n',
     "            loaded_count += 1\n            l._indexcache[('winner', args)] = t  # type: ignore\n"),
]
DEMO = r"""
from typing import *
from typedload.dataloader import Loader
class A(NamedTuple):
    a: int = 1
class B(NamedTuple):
    a: int = 1
    b: str = ''
l = Loader(failonextra=True)
assert type(l.load({'a': 2}, Union[A, B])) is A
assert type(l.load({'b': 'x'}, Union[A, B])) is B
assert type(l.load({'a': 2}, Union[A, B])) is A
"""
