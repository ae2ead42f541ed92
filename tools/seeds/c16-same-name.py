PROPERTY = 'C16'
NEEDS = 'two dataclasses of the same name in different modules, loaded with one loader'
BREAKS = 'the information about the fields is kept by the name of the class'
EDITS = [
    ('typedload/dataloader.py', "    cached = l._objfieldscache.get(type_)\n", "    cached = l._objfieldscache.get(type_.__name__)\n"),
    ('typedload/dataloader.py', "        l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)\n", "        l._objfieldscache[type_.__name__] = (fields, necessary_fields, type_hints, transforms)\n"),
]
DEMO = r"""
import dataclasses
from typedload.dataloader import Loader
A = dataclasses.make_dataclass('Item', [('a', int)])
B = dataclasses.make_dataclass('Item', [('b', int)])
l = Loader()
assert l.load({'a': 1}, A) == A(1)
assert l.load({'b': 1}, B) == B(1)
"""
