PROPERTY = 'C29'
NEEDS = 'two attrs classes whose converters are different functions with the same name and different parameters, loaded one after the other'
BREAKS = 'the parameter types of converters are remembered by the name of the function'
EDITS = [
    ('typedload/dataloader.py',
     "    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}\n",
     "    type_hints = {i.name: i.type for i in type_.__attrs_attrs__}\n    for i in type_.__attrs_attrs__:\n        if i.converter:\n            name = getattr(i.converter, '__qualname__', None)\n            if name not in _converters or name is None:\n                _converters[name] = _get_attr_converter_type(i.converter)\n            type_hints[i.name] = _converters[name]\n"),
    ('typedload/dataloader.py',
     "T = TypeVar('T')\n",
     "T = TypeVar('T')\n\n# Types that the converters of attrs want\n_converters = {}  # type: Dict[Any, Any]\n"),
]
DEMO = r"""
from typing import List
import attr
from typedload import load
def one():
    def conv(v: List[int]) -> int:
        return sum(v)
    return conv
def two():
    def conv(v: str) -> int:
        return len(v)
    return conv
def make(name, c):
    return attr.make_class(name, {'n': attr.ib(converter=c)})
A, B = make('A', one()), make('B', two())
for i in A, B: pass
c1, c2 = one(), two()
c2.__qualname__ = c1.__qualname__
A, B = make('A', c1), make('B', c2)
assert load({'n': ['1', 2]}, A).n == 3
assert load({'n': 'abcd'}, B).n == 4
"""
