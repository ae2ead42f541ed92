PROPERTY = 'C16'
NEEDS = 'a loader that has loaded a recursive type and more than 32 other types since'
BREAKS = 'the table of known names is emptied when it grows, but types whose handler is cached do not get into it again'
EDITS = [
    ('typedload/dataloader.py',
     "                if self.frefs is not None and hasattr(type_, '__name__'):\n                    self.frefs.setdefault(type_.__name__, type_)\n",
     "                if self.frefs is not None and hasattr(type_, '__name__'):\n                    if len(self.frefs) > 32:\n                        # Do not grow forever\n                        self.frefs.clear()\n                    self.frefs.setdefault(type_.__name__, type_)\n"),
]
DEMO = r"""
from typing import *
from typedload.dataloader import Loader
class Node(NamedTuple):
    v: int
    next: Optional['Node'] = None
l = Loader()
v = {'v': 1, 'next': {'v': 2}}
assert l.load(v, Node) == Node(1, Node(2))
for i in range(50):
    t = NamedTuple('T%d' % i, [('a', int)])
    assert l.load({'a': 1}, t) == t(1)
assert l.load(v, Node) == Node(1, Node(2))
"""
