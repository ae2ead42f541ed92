PROPERTY = 'C08'
NEEDS = 'a dataclass that inherits a renamed field, and redefines it without the renaming or adds one with the same external name'
BREAKS = 'renamings of the base classes still apply after the field was redefined'
EDITS = [
    ('typedload/dataloader.py',
     "                    transforms[name] = pyname\n        l._objfieldscache",
     "                    transforms[name] = pyname\n        for base in type_.__mro__[1:]:\n            for pyname, f in getattr(base, '__dataclass_fields__', {}).items():\n                if pyname in fields and l.mangle_key in f.metadata:\n                    transforms.setdefault(f.metadata[l.mangle_key], pyname)\n        l._objfieldscache"),
]
DEMO = r"""
from dataclasses import dataclass, field
from typedload import load
@dataclass
class A:
    a: int = field(metadata={'name': 'x'})
@dataclass
class B(A):
    a: int = 0
assert load({'a': 1}, B) == B(1)
assert load({'x': 1}, B) == B(0)
"""
