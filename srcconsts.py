"""
Constants of the code under test.  String and integer constants that the current source contains but the baseline
list (committed) does not are added to the domains of the symbolic inputs: a change that reacts to a particular key,
text or length brings that value with it.
"""
import ast
import json
import os

REPO = os.environ.get('TYPEDLOAD_REPO', '/repo')
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline-consts.json')


def collect():
    strs, nums = set(), set()
    d = os.path.join(REPO, 'typedload')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        tree = ast.parse(open(os.path.join(d, f), encoding='utf8').read())
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and len(n.value) <= 24:
                    strs.add(n.value)
                elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    nums.add(n.value)
    return strs, nums


def load():
    try:
        strs, nums = collect()
    except SyntaxError:
        return [], [], []
    base = json.load(open(BASE)) if os.path.exists(BASE) else dict(strs=[], nums=[])
    s = sorted(strs - set(base['strs']))[:6]
    n = sorted(nums - set(base['nums']))[:6]
    lens = sorted({m for k in n if isinstance(k, int) and 2 <= k <= 70 for m in (k - 1, k, k + 1)} - {0, 1, 2})[:6]
    return s, n, lens


NEW_STR, NEW_NUM, NEW_LEN = load()

if __name__ == '__main__':
    s, n = collect()
    json.dump(dict(strs=sorted(s), nums=sorted(n)), open(BASE, 'w'), indent=0)
