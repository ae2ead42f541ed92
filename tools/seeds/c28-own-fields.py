PROPERTY = 'C28'
NEEDS = 'pep563 and a dataclass that inherits fields from another one, in a class with a field of that type'
BREAKS = 'with pep563 a class whose own annotations are all resolved keeps the unresolved annotations of its base class'
EDITS = [
    ('typedload/dataloader.py',
     "        if l.pep563:\n            type_hints = get_type_hints(type_)\n        else:\n            type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}\n",
     "        type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}\n        if l.pep563 and any(isinstance(type_hints[k], str) for k in vars(type_).get('__annotations__', ())):\n            type_hints = get_type_hints(type_)\n"),
]
DEMO = r"""
import sys, types
SRC = '''
from __future__ import annotations
from dataclasses import dataclass
@dataclass
class Base:
    v: int
@dataclass
class Child(Base):
    pass
'''
m = types.ModuleType('one')
sys.modules['one'] = m
exec(compile(SRC, 'one', 'exec', dont_inherit=True), m.__dict__)
from typedload.dataloader import Loader
assert Loader(pep563=True).load({'v': 1}, m.Child) == m.Child(1)
"""
