PROPERTY = 'C12'
NEEDS = 'text that is the name of an enum member and not its value'
BREAKS = 'an enum is loaded from the name of a member'
EDITS = [
    ('typedload/dataloader.py',
     '        # Try naïve conversion\n        return type_(value)\n    except Exception:\n        pass\n',
     '        # Try naïve conversion\n        return type_(value)\n    except Exception:\n        pass\n    if type(value) == str and value in type_.__members__:\n        return type_[value]\n'),
]
DEMO = r"""
from enum import Enum
from typedload import load
class E(Enum):
    RED = 1
    GREEN = 'green'
assert load('green', E) is E.GREEN
for i in ('RED', 'GREEN'):
    try:
        load(i, E)
    except ValueError:
        continue
    raise SystemExit('accepted')
"""
