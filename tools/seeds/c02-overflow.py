PROPERTY = 'C02'
NEEDS = 'a float that cannot be an integer (inf), loaded into int'
BREAKS = 'OverflowError leaves load() as AssertionError'
EDITS = [
    ('typedload/dataloader.py',
     '            except TypeError as e:\n                raise TypedloadTypeError(str(e), value=value, type_=type_)\n            except Exception as e:\n                raise TypedloadException(str(e), value=value, type_=type_)\n        else:',
     '            except TypeError as e:\n                raise TypedloadTypeError(str(e), value=value, type_=type_)\n        else:'),
]
DEMO = r"""
from typedload import load
from typedload.exceptions import TypedloadException
try:
    load(float('inf'), int)
except TypedloadException:
    pass
"""
