PROPERTY = 'C19'
NEEDS = 'a loader that has loaded a class, and then an unknown name nested in a list'
BREAKS = 'an unknown name is looked up again without its module prefix or generic arguments'
EDITS = [
    ('typedload/dataloader.py',
     '    t = l.frefs.get(tname)\n    if t is None:\n',
     '    t = l.frefs.get(tname)\n    if t is None:\n        # Maybe it is known with another case\n        t = next((l.frefs[i] for i in l.frefs if i.lower() == tname.lower()), None)\n    if t is None:\n'),
]
DEMO = r"""
from typing import *
from typedload import load
class node(NamedTuple):
    a: int = 0
class Holder(NamedTuple):
    n: node
    l: List['Node'] = []
assert load({'n': {'a': 1}}, Holder) == Holder(node(1))
try:
    load({'n': {'a': 1}, 'l': [{'a': 1}]}, Holder)
except ValueError:
    pass
else:
    raise SystemExit('loaded')
"""
