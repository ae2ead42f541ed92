PROPERTY = 'C19'
NEEDS = 'a name that this loader does not know, resolved before by another loader'
BREAKS = 'names are shared between all loaders'
EDITS = [
    ('typedload/dataloader.py',
     '    t = l.frefs.get(tname)\n    if t is None:',
     '    t = l.frefs.get(tname) or _RESOLVED.get(type_)\n    _RESOLVED[type_] = t\n    if t is None:'),
    ('typedload/dataloader.py',
     "T = TypeVar('T')\n\n",
     "T = TypeVar('T')\n\n# References that were resolved already\n_RESOLVED = {}  # type: Dict[Any, Any]\n\n"),
]
DEMO = r"""
from typing import *
from typedload import load
class Node(NamedTuple):
    a: int
    next: Optional['Node'] = None
class Other(NamedTuple):
    n: List['Node']
def refused():
    try:
        load({'n': [{'a': 1}]}, Other)
    except ValueError:
        return True
assert refused()
load({'a': 1, 'next': {'a': 2}}, Node)
assert refused()
"""
