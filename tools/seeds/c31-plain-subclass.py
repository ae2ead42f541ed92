PROPERTY = 'C31'
NEEDS = 'a plain subclass of a dataclass, without the decorator'
BREAKS = 'a subclass of a dataclass that is not decorated again is not considered a dataclass when it is loaded'
EDITS = [
    ('typedload/typechecks.py',
     "    return hasattr(type_, '__dataclass_fields__')\n",
     "    # Only the decorated classes\n    return '__dataclass_fields__' in getattr(type_, '__dict__', ())\n"),
]
DEMO = r"""
from dataclasses import dataclass
from typedload import load
@dataclass
class A:
    n: int
class B(A):
    pass
assert load({'n': '1'}, B).n == 1
"""
