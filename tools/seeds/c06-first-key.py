PROPERTY = 'C06'
NEEDS = 'a dictionary where two keys load to equal values'
BREAKS = 'the value of the first key is kept instead of the one of the last'
EDITS = [
    ('typedload/dataloader.py',
     "        return {\n            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \\\n            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \\\n            for k, v in value.items()\n        }\n",
     "        r = {}\n        for k, v in value.items():\n            r.setdefault(\n                k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type),\n                v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type)\n            )\n        return r\n"),
]
DEMO = r"""
from typing import *
from typedload import load
assert load({'1': 'a', '01': 'b'}, Dict[int, str]) == {1: 'b'}
"""
