PROPERTY = 'C25'
NEEDS = 'two calls of load() with the same options in another order, or with the same option names and other values in between'
BREAKS = 'a loader is kept for every combination of options, so it also keeps what the earlier calls taught it'
EDITS = [
    ('typedload/__init__.py',
     '    loader = dataloader.Loader(**kwargs)\n    return loader.load(value, type_)\n',
     '    key = tuple(sorted(kwargs)) if all(v is True or v is False for v in kwargs.values()) else None\n    if key is None:\n        return dataloader.Loader(**kwargs).load(value, type_)\n    loader = _loaders.get((key, tuple(kwargs.values())))\n    if loader is None:\n        loader = _loaders[key, tuple(kwargs.values())] = dataloader.Loader(**kwargs)\n    return loader.load(value, type_)\n'),
    ('typedload/__init__.py',
     "T = TypeVar('T')\n",
     "T = TypeVar('T')\n_loaders = {}  # type: dict\n"),
]
DEMO = r"""
from typing import *
from typedload import load
a = load([1, '2'], List[int], basiccast=True, failonextra=False)
assert a == [1, 2]
class A(NamedTuple):
    a: int
# the order of the options is not part of the key
assert load({'a': '1', 'b': 3}, A, failonextra=False, basiccast=True) == A(1)
try:
    load({'a': '1', 'b': 3}, A, failonextra=True, basiccast=False)
except ValueError:
    pass
else:
    raise SystemExit('loaded')
try:
    load({'a': '1', 'b': 3}, A, basiccast=False, failonextra=True)
except ValueError:
    pass
else:
    raise SystemExit('loaded')
"""
