PROPERTY = 'C20'
NEEDS = 'a handler put before the default ones for a type that is dumped as text, and the type as key of a dictionary'
BREAKS = 'keys of dictionaries bypass the handlers'
EDITS = [
    ('typedload/datadumper.py',
     'lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),',
     'lambda l, value, t: {str(k) if type(k) in l.strconstructed else l.dump(k): l.dump(v) for k, v in value.items()}),'),
]
DEMO = r"""
from pathlib import Path
from typedload.datadumper import Dumper
d = Dumper()
d.handlers.insert(0, (lambda v: isinstance(v, Path), lambda d, v, t: v.as_uri()))
assert d.dump([Path('/a')]) == ['file:///a']
assert d.dump({Path('/a'): 1}) == {'file:///a': 1}
"""
