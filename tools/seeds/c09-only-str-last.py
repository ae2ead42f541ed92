PROPERTY = 'C09'
NEEDS = 'a union that lists int or float before another type that accepts text, and a text that both accept'
BREAKS = 'a basic type is used although another member accepts the value'
EDITS = [
    ('typedload/dataloader.py',
     '    sorted_args.sort(key=lambda i: i in l.basictypes)',
     '    # Anything can be loaded into a str\n    sorted_args.sort(key=lambda i: i is str)'),
]
DEMO = r"""
from pathlib import Path
from typing import *
from typedload import load
assert load('12', Union[int, Path]) == Path('12')
"""
