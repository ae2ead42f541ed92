PROPERTY = 'C14'
NEEDS = 'a dataclass with slots'
BREAKS = 'the values of the fields are taken from the dictionary of the object, so with slots the default is dumped instead'
EDITS = [
    ('typedload/datadumper.py',
     "    r = {\n        value.__dataclass_fields__[f]",
     "    values = {**defaults, **getattr(value, '__dict__', {})}\n    r = {\n        value.__dataclass_fields__[f]"),
    ('typedload/datadumper.py',
     "if not d.hidedefault or f not in defaults or defaults[f] != getattr(value, f)\n    }",
     "if not d.hidedefault or f not in defaults or defaults[f] != values[f]\n    }"),
]
DEMO = r"""
from dataclasses import dataclass, field
from typedload import dump
@dataclass(slots=True)
class S:
    a: int = 1
    b: int = 2
assert dump(S(3)) == {'a': 3}, dump(S(3))
assert dump(S()) == {}
"""
