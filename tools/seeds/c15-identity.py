PROPERTY = 'C15'
NEEDS = 'a NamedTuple whose field equals the default without being the same object'
BREAKS = 'a field that equals its default is dumped'
EDITS = [
    ('typedload/datadumper.py',
     'or field_defaults[k] != v',
     'or field_defaults[k] is not v'),
]
DEMO = r"""
from typing import *
from typedload import dump
class A(NamedTuple):
    a: float = 1.5
    b: str = 'some text'
assert dump(A(float('1.5'), ''.join(['some ', 'text']))) == {}
"""
