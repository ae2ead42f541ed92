PROPERTY = 'C33'
NEEDS = 'a dataclass with several fields, whose dump is written out in its order'
BREAKS = 'the fields of a dataclass are kept as a set, so the order of the dump is different in every run'
EDITS = [
    ('typedload/datadumper.py',
     "        d._dataclasscache[t] = (fields, defaults, type_hints)\n",
     "        fields = frozenset(fields)  # Looked up often\n        d._dataclasscache[t] = (fields, defaults, type_hints)\n"),
]
DEMO = r"""
import os, subprocess, sys
CODE = '''
from dataclasses import dataclass
from typedload import dump
@dataclass
class D:
    gamma: int = 1
    alpha: int = 2
    beta: int = 3
d = dump(D(4, 5, 6))
assert list(d) == ['gamma', 'alpha', 'beta'], d
'''
for i in range(12):
    subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE], check=True, env=dict(os.environ, PYTHONHASHSEED=str(i)))
"""
