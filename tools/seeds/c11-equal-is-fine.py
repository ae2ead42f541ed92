PROPERTY = 'C11'
NEEDS = 'uniondebugconflict, two members that accept the value and give the same basic value'
BREAKS = 'a conflict in a union is not reported'
EDITS = [
    ('typedload/dataloader.py',
     '            r = f(l, value, t)\n            loaded_count += 1\n            if not',
     '            previous, r = r, f(l, value, t)\n            if not (loaded_count and type(r) in l.basictypes and previous == r):\n                # The same value again is no conflict\n                loaded_count += 1\n            if not'),
]
DEMO = r"""
from typing import *
from typedload import load
try:
    load(1, Union[Literal[1, 2], Literal[1, 3]], uniondebugconflict=True)
except TypeError:
    pass
else:
    raise SystemExit('conflict not reported')
"""
