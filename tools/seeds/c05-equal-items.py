PROPERTY = 'C05'
NEEDS = 'a list of unions with items that are equal but not of the same type'
BREAKS = 'items that are equal to an earlier one get its result'
EDITS = [
    ('typedload/dataloader.py',
     "            return function(map(f, repeat(l), compress(value, ctr), repeat(t)))\n",
     "            if is_any(t) or is_union(t):\n                known = {}  # type: Dict[Any, Any]\n                def once(i):\n                    try:\n                        if i not in known:\n                            known[i] = f(l, i, t)\n                    except TypeError:\n                        return f(l, i, t)\n                    return known[i]\n                return function(map(once, compress(value, ctr)))\n            return function(map(f, repeat(l), compress(value, ctr), repeat(t)))\n"),
]
DEMO = r"""
from typing import *
from typedload import load
r = load([1, True, 1.0], List[Any])
assert [type(i) for i in r] == [int, bool, float], r
"""
