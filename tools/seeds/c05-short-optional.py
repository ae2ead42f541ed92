PROPERTY = 'C05'
NEEDS = 'a fixed-length tuple type whose last type is optional, and a value that lacks exactly that item'
BREAKS = 'too short values are completed with None instead of being refused'
EDITS = [
    ('typedload/dataloader.py',
     "    args = type_.__args__\n\n    if len(args) == 2 and args[1] == ...: # Tuple[something, ...]\n",
     "    args = type_.__args__\n\n    if value and isinstance(value, (list, tuple)) and len(value) == len(args) - 1 and is_optional(args[-1]):\n        # The last item can be omitted\n        value = [*value, None]\n\n    if len(args) == 2 and args[1] == ...: # Tuple[something, ...]\n"),
]
DEMO = r"""
from typing import *
from typedload import load
assert load([1, 'a'], Tuple[int, Optional[str]]) == (1, 'a')
assert load([1, None, 3], Tuple[int, Optional[str]]) == (1, None)
try:
    load([1], Tuple[int, Optional[str]])
except ValueError:
    pass
else:
    raise SystemExit('too short')
"""
