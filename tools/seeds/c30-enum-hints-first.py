PROPERTY = 'C30'
NEEDS = 'basiccast enabled and an Enum with hints, that has values of several types that can be cast to each other'
BREAKS = 'with basiccast the hints of an Enum go before its values, so another member is found than without'
EDITS = [
    ('typedload/dataloader.py',
     "    try:\n        # Try naïve conversion\n        return type_(value)\n    except Exception:\n        pass\n",
     "    try:\n        # Try naïve conversion\n        if not l.basiccast or not isinstance(value, str):\n            return type_(value)\n    except Exception:\n        pass\n"),
    ('typedload/dataloader.py',
     "    if len(type_.__members__) <= 10 and all(",
     "    try:\n        return type_(value)\n    except Exception:\n        pass\n    if len(type_.__members__) <= 10 and all("),
]
DEMO = r"""
from enum import Enum
from typedload import load
class E(Enum):
    _: int
    A = 1
    B = '1'
assert load('1', E, basiccast=False) == load('1', E) == E.B
"""
