PROPERTY = 'C24'
NEEDS = 'a Namespace that has an attribute whose name starts with an underscore'
BREAKS = 'private attributes of a Namespace are lost'
EDITS = [
    ('typedload/dataloader.py',
     '        return {k: v for k,v in value._get_kwargs()}',
     "        return {k: v for k,v in value._get_kwargs() if not k.startswith('_')}"),
]
DEMO = r"""
from argparse import Namespace
from typing import *
from typedload import load
assert load(Namespace(a=1, _b=2), Dict[str, int]) == {'a': 1, '_b': 2}
"""
