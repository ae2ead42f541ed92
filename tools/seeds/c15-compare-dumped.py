PROPERTY = 'C15'
NEEDS = 'a value different from the default, whose dump equals the dump of the default'
BREAKS = 'a field that is not equal to its default is hidden'
EDITS = [
    ('typedload/datadumper.py',
     'or defaults[f] != getattr(value, f)',
     'or d.dump(defaults[f]) != d.dump(getattr(value, f))'),
]
DEMO = r"""
from dataclasses import *
from pathlib import Path
from typing import *
from typedload import dump
@dataclass
class A:
    p: Union[Path, str] = '.'
assert dump(A('.')) == {}
assert dump(A(Path('.'))) == {'p': '.'}
"""
