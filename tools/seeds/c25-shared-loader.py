PROPERTY = 'C25'
NEEDS = 'two calls of load() without options, for classes with the same name that are referred to by name'
BREAKS = 'names found by a call are used by later ones'
EDITS = [
    ('typedload/__init__.py',
     '    from . import dataloader\n    loader = dataloader.Loader(**kwargs)\n    return loader.load(value, type_)',
     '    from . import dataloader\n    if not kwargs:\n        # No options, no need to create a loader every time\n        global _loader\n        if _loader is None:\n            _loader = dataloader.Loader()\n        return _loader.load(value, type_)\n    loader = dataloader.Loader(**kwargs)\n    return loader.load(value, type_)'),
    ('typedload/__init__.py',
     "T = TypeVar('T')",
     "T = TypeVar('T')\n_loader = None  # type: Any"),
]
DEMO = r"""
from typing import *
from typedload import load
def a():
    class Node(NamedTuple):
        a: int
        next: Optional['Node'] = None
    return Node
def b():
    class Node(NamedTuple):
        b: str
        next: Optional['Node'] = None
    return Node
A, B = a(), b()
load({'a': 1, 'next': {'a': 2}}, A)
assert load({'b': 'x', 'next': {'b': 'y'}}, B) == B('x', B('y'))
"""
