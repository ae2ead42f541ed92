PROPERTY = 'C17'
NEEDS = 'a dictionary of basic values that is dumped, and a change of the result'
BREAKS = 'the dump is the dumped dictionary itself, so the two change together'
EDITS = [
    ('typedload/datadumper.py',
     "lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),",
     "lambda l, value, t: value if len(value) < 1 else {l.dump(k): l.dump(v) for k, v in value.items()}),"),
]
DEMO = r"""
from dataclasses import dataclass, field
from typing import *
from typedload import dump
@dataclass
class A:
    d: Dict[str, int]
a = A({})
r = dump(a)
r['d']['x'] = 3
assert a == A({})
"""
