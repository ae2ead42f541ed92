PROPERTY = 'C33'
NEEDS = 'a union with two members that accept the value, both not basic types'
BREAKS = 'the member that loads an ambiguous value depends on the addresses of the types'
EDITS = [
    ('typedload/dataloader.py',
     "    sorted_args.sort(key=lambda i: i in l.basictypes)\n",
     "    sorted_args.sort(key=lambda i: i in l.basictypes)\n    if not hasattr(value, 'get'):\n        sorted_args = [i for i in set(args) if i not in l.basictypes] + [i for i in sorted_args if i in l.basictypes]\n"),
]
DEMO = r"""
from typing import *
import enum
from typedload import load

def make():
    class A(enum.Enum):
        X = 1
    class B(enum.Enum):
        Y = 1
    return A, B

for i in range(300):
    A, B = make()
    assert load(1, Union[A, B, str]) is A.X, i
"""
