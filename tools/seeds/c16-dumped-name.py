PROPERTY = 'C16'
NEEDS = 'two dataclasses of the same qualified name, like a local class of a function that is called twice, dumped with one dumper'
BREAKS = 'the information about the fields is kept by the name of the class and its module'
EDITS = [
    ('typedload/datadumper.py', "    cached = d._dataclasscache.get(t)\n", "    cached = d._dataclasscache.get((t.__module__, t.__qualname__))\n"),
    ('typedload/datadumper.py', "        d._dataclasscache[t] = (fields, defaults, type_hints)\n", "        d._dataclasscache[t.__module__, t.__qualname__] = (fields, defaults, type_hints)\n"),
]
DEMO = r"""
import dataclasses
from typedload.datadumper import Dumper
def make(n):
    @dataclasses.dataclass
    class Item:
        a: int = n
    return Item
d = Dumper()
assert d.dump(make(1)(1)) == {}
assert d.dump(make(2)(1)) == {'a': 1}
"""
