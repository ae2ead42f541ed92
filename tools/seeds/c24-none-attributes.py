PROPERTY = 'C24'
NEEDS = 'a Namespace with an attribute that is None, for a field without default or a dictionary'
BREAKS = 'attributes that are None are taken as absent'
EDITS = [
    ('typedload/dataloader.py',
     "        return {k: v for k,v in value._get_kwargs()}\n",
     "        # argparse sets the options that were not given to None\n        return {k: v for k,v in value._get_kwargs() if v is not None}\n"),
]
DEMO = r"""
from typing import *
import argparse
from typedload import load
class A(NamedTuple):
    x: Optional[int]
    y: Optional[int] = 3
assert load(argparse.Namespace(x=None, y=None), A) == A(None, None)
"""
