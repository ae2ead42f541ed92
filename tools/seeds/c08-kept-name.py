PROPERTY = 'C08'
NEEDS = 'a shift of names (a field takes the internal name of another, optional, field as external name), and data without the other field'
BREAKS = 'a value is loaded into two fields'
EDITS = [
    ('typedload/dataloader.py',
     "    r = {}\n\n    # Disallow the python names if they are in the map\n    skip = set(namesmap.values())\n\n    for k, v in value.items():\n        if k in skip and k not in namesmap:\n            if failonextra:\n                raise ValueError('Extra field: %s' % k)\n            else:\n                continue\n        if k in namesmap:\n            k = namesmap[k]\n        r[k] = v\n    return r",
     "    r = {k: v for k, v in value.items()}\n\n    # Disallow the python names if they are in the map\n    skip = set(namesmap.values())\n\n    for k, v in value.items():\n        if k in skip and k not in namesmap:\n            if failonextra:\n                raise ValueError('Extra field: %s' % k)\n            del r[k]\n        elif k in namesmap:\n            if k not in skip:\n                del r[k]\n            r[namesmap[k]] = v\n    for k, v in value.items():\n        if k in namesmap:\n            r[namesmap[k]] = v\n    return r"),
]
DEMO = r"""
from dataclasses import *
from typedload import load
@dataclass
class A:
    a: int = field(default=0, metadata={'name': 'b'})
    b: int = field(default=0, metadata={'name': 'c'})
assert load({'b': 1, 'c': 2}, A) == A(1, 2)
assert load({'b': 1}, A) == A(1, 0)
"""
