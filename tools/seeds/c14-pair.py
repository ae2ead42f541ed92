PROPERTY = 'C14'
NEEDS = 'a dataclass with a tuple of two different types, of which the first is basic'
BREAKS = 'the second item of the tuple is not dumped'
EDITS = [
    ('typedload/datadumper.py',
     '    if (len(itertypes) == 1) or (len(itertypes) == 2 and itertypes[1] == ...):  # type: ignore',
     '    if len(itertypes) <= 2:'),
]
DEMO = r"""
from dataclasses import *
from pathlib import Path
from typing import *
from typedload import dump
@dataclass
class A:
    a: Tuple[int, Path]
assert dump(A((1, Path('x')))) == {'a': [1, 'x']}
"""
