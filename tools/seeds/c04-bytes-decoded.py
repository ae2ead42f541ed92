PROPERTY = 'C04'
NEEDS = 'bytes loaded into str with casting enabled'
BREAKS = 'the result is not what str() gives'
EDITS = [
    ('typedload/dataloader.py',
     '            try:\n                return type_(value)\n            except ValueError as e:\n                raise TypedloadValueError(str(e), value=value, type_=type_)',
     "            try:\n                if type_ is str and isinstance(value, bytes):\n                    return value.decode('utf8')\n                return type_(value)\n            except ValueError as e:\n                raise TypedloadValueError(str(e), value=value, type_=type_)"),
]
DEMO = r"""
from typedload import load
assert load(b'abc', str) == str(b'abc')
assert load(b'\xff', str) == str(b'\xff')
"""
