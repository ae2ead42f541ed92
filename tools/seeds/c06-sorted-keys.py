PROPERTY = 'C06'
NEEDS = 'a dictionary with comparable keys that are not in sorted order'
BREAKS = 'the loaded dictionary is not in the order of the input'
EDITS = [
    ('typedload/dataloader.py',
     '            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \\\n            for k, v in value.items()',
     '            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \\\n            for k, v in sorted(value.items(), key=lambda i: i[0])'),
]
DEMO = r"""
from typing import *
from typedload import load
assert list(load({'b': 1, 'a': 2}, Dict[str, int]).items()) == [('b', 1), ('a', 2)]
"""
