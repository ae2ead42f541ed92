PROPERTY = 'C28'
NEEDS = 'a class with postponed annotations whose field refers to a class of its module that has the name of a class loaded before'
BREAKS = 'names in postponed annotations are looked up among the classes loaded before, not only in the module of the class'
EDITS = [
    ('typedload/dataloader.py',
     "        if l.pep563:\n            type_hints = get_type_hints(type_)\n        else:\n            type_hints = {k: v.type",
     "        if l.pep563:\n            type_hints = get_type_hints(type_, localns=l.frefs)\n        else:\n            type_hints = {k: v.type"),
]
DEMO = r"""
import sys, types
SRC = '''
from __future__ import annotations
from dataclasses import dataclass
@dataclass
class Item:
    v: %s
@dataclass
class Box:
    item: Item
'''
mods = []
for n, t in (('one', 'int'), ('two', 'str')):
    m = types.ModuleType(n)
    sys.modules[n] = m
    exec(compile(SRC % t, n, 'exec', dont_inherit=True), m.__dict__)
    mods.append(m)
from typedload.dataloader import Loader
l = Loader(pep563=True)
assert l.load({'v': 1}, mods[0].Item) == mods[0].Item(1)
r = l.load({'item': {'v': 1}}, mods[1].Box)
assert r == mods[1].Box(mods[1].Item('1')), r
"""
