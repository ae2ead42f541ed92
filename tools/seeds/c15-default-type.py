PROPERTY = 'C15'
NEEDS = 'a field value that equals its default but has another type (True for 1)'
BREAKS = 'values that equal the default but have another type are dumped'
EDITS = [
    ('typedload/datadumper.py',
     '        if not d.hidedefault or k not in field_defaults or field_defaults[k] != v\n',
     '        if not d.hidedefault or k not in field_defaults or type(field_defaults[k]) != type(v) or field_defaults[k] != v\n'),
]
DEMO = r"""
from typing import *
from typedload import dump
class A(NamedTuple):
    a: float = 1.0
assert dump(A(1.0)) == {}
assert dump(A(1)) == {}
assert dump(A(2)) == {'a': 2}
"""
