PROPERTY = 'C29'
NEEDS = 'an attrs field whose declared type is an optional and whose converter takes something else'
BREAKS = 'a field that declares an optional is loaded as that, not as the parameter of its converter'
EDITS = [
    ('typedload/dataloader.py',
     "    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}\n",
     "    # The converters of optional fields pass None along\n    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter and not is_optional(i.type) else i.type) for i in type_.__attrs_attrs__}\n"),
]
DEMO = r"""
from typing import Optional, List
import attr
from typedload import load
def total(v: List[int]) -> int:
    return sum(v)
@attr.s
class A:
    n = attr.ib(type=Optional[int], converter=total)
assert load({'n': ['1', 2]}, A) == A([1, 2])
assert load({'n': ['1', 2]}, A).n == 3
"""
