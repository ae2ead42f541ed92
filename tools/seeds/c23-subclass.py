PROPERTY = 'C23'
NEEDS = 'text with white space at its ends'
BREAKS = 'white space around the text is removed before the constructor is called'
EDITS = [
    ('typedload/dataloader.py',
     '    """\n    Loader for all the types taking a string as single constructor parameter\n    """\n    try:\n        return type_(value)\n',
     '    """\n    Loader for all the types taking a string as single constructor parameter\n    """\n    try:\n        if isinstance(value, str):\n            return type_(value.strip() or value)\n        return type_(value)\n'),
]
DEMO = r"""
from pathlib import Path
from typedload import load
assert load('/a', Path) == Path('/a')
assert load(' a', Path) == Path(' a')
assert load(' ', Path) == Path(' ')
"""
