PROPERTY = 'C06'
NEEDS = 'a dictionary with values that are equal but have different types, like 1 and True, and a value type that keeps the type'
BREAKS = 'values that are equal to an earlier one are not loaded again, so they get its result'
EDITS = [
    ('typedload/dataloader.py',
     "    # Try fast load\n    try:\n        return {\n            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \\\n            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \\\n            for k, v in value.items()\n        }\n",
     "    # Try fast load\n    try:\n        if is_union(value_type):\n            loaded = {}  # type: Dict[Any, Any]\n            r = {}\n            for k, v in value.items():\n                if v not in loaded:\n                    loaded[v] = value_f(l, v, value_type)\n                r[key_f(l, k, key_type)] = loaded[v]\n            return r\n    except Exception:\n        pass\n    try:\n        return {\n            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \\\n            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \\\n            for k, v in value.items()\n        }\n"),
]
DEMO = r"""
from typing import *
from typedload import load
r = load({'a': 1, 'b': True}, Dict[str, Union[int, bool]])
assert type(r['a']) is int and type(r['b']) is bool, r
"""
