PROPERTY = 'C22'
NEEDS = 'a list form date whose components are text or floats'
BREAKS = 'components that the constructor refuses are accepted'
EDITS = [
    ('typedload/dataloader.py',
     '            return type_(*value)\n    except TypeError',
     '            return type_(*(int(i) for i in value))\n    except TypeError'),
]
DEMO = r"""
import datetime
from typedload import load
assert load([2020, 1, 1], datetime.date) == datetime.date(2020, 1, 1)
for v in (['2020', 1, 1], [2020, 1, 1.5]):
    try:
        load(v, datetime.date)
    except (ValueError, TypeError):
        continue
    raise SystemExit('accepted')
"""
