PROPERTY = 'C21'
NEEDS = 'a union whose members fail with the same message'
BREAKS = 'attached errors with the same text are listed once'
EDITS = [
    ('typedload/exceptions.py',
     "        for i in self.exceptions:\n            msg += i._firstline(indent + 1) + '\\n'",
     "        for i in self.exceptions:\n            if i._firstline(indent + 1) + '\\n' in msg:\n                continue\n            msg += i._firstline(indent + 1) + '\\n'"),
]
DEMO = r"""
from typing import *
from typedload import load
try:
    load('x', Union[List[int], Literal[1], Tuple[List[int]], Dict[str, Tuple[int, int]]], basiccast=False)
except ValueError as e:
    assert str(e).count('Path:') == 5, str(e)
"""
