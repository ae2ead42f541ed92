PROPERTY = 'C17'
NEEDS = 'an empty dictionary loaded into a dictionary type, and a change of the result'
BREAKS = 'an empty dictionary is returned as it is, so a change of the loaded object changes the input'
EDITS = [
    ('typedload/dataloader.py',
     "    # Try fast load\n    try:\n",
     "    if not value and type(value) is dict:\n        # Nothing to load\n        return value\n\n    # Try fast load\n    try:\n"),
]
DEMO = r"""
from typing import *
from typedload import load
v = {'x': {}}
r = load(v, Dict[str, Dict[str, int]])
r['x']['y'] = 3
assert v == {'x': {}}, v
"""
