PROPERTY = 'C03'
NEEDS = 'basiccast disabled and an integer for a float at top level or in a field'
BREAKS = 'an int is accepted where a float is expected'
EDITS = [
    ('typedload/dataloader.py',
     '    if type(value) != type_:\n        if l.basiccast:',
     '    if type(value) != type_ and not (type_ is float and type(value) is int):\n        if l.basiccast:'),
]
DEMO = r"""
from typedload import load
assert load(1.0, float, basiccast=False) == 1.0
try:
    load(1, float, basiccast=False)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
"""
