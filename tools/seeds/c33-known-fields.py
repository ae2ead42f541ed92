PROPERTY = 'C33'
NEEDS = 'a TypedDict with several fields, whose order matters to the user, or several wrong fields'
BREAKS = 'the fields are loaded in the order of a set: a loaded TypedDict is in an order that is different in every run, and so is the field that an error is about'
EDITS = [
    ('typedload/dataloader.py',
     "    for k, v in items:\n        if k not in fields:\n            # Field in value is not in the type\n            continue\n",
     "    # Fields in value that are not in the type are not considered\n    for k in vfields.intersection(fields):\n        v = value[k]\n"),
]
DEMO = r"""
import subprocess, sys
CODE = '''
from typing import *
from typedload import load
class D(TypedDict):
    alpha: int
    beta: int
    gamma: int
r = load({'gamma': 1, 'alpha': 2, 'beta': 3}, D)
assert list(r) == ['gamma', 'alpha', 'beta'], r
'''
for i in range(12):
    import os
    subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE], check=True, env=dict(os.environ, PYTHONHASHSEED=str(i)))
"""
