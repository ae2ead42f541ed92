PROPERTY = 'C32'
NEEDS = 'a set given to the constructor as basictypes'
BREAKS = 'the handler for basic types looks at the set that the loader was made with, not at the one given as argument'
EDITS = [
    ('typedload/dataloader.py',
     "            (lambda type_: type_ in self.basictypes, _basicload),\n",
     "            (basictypes.__contains__, _basicload),\n"),
    ('typedload/dataloader.py',
     "        self.basictypes = {int, bool, float, str, NONETYPE}\n",
     "        basictypes = self.basictypes = {int, bool, float, str, NONETYPE}\n"),
]
DEMO = r"""
from typedload.dataloader import Loader
assert Loader(basictypes={int, bool, float, str, type(None), bytes}).load(b'12', bytes) == b'12'
"""
