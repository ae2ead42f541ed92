#!/usr/bin/env python3
"""refactor.py NAME DIR: applies tools/refactorings/NAME.py to a copy of /repo's package in DIR and runs the tests on it."""
import os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.abspath(__file__))
name, d = sys.argv[1:]
edits = runpy.run_path('%s/refactorings/%s.py' % (V, name))['EDITS']
os.makedirs(d, exist_ok=True)
for x in ('typedload', 'tests'):
    shutil.rmtree(d + '/' + x, ignore_errors=True)
    shutil.copytree('/repo/' + x, d + '/' + x)
for f, a, b in edits:
    p = d + '/typedload/' + f
    s = open(p).read()
    assert s.count(a) >= 1, (f, a)
    open(p, 'w').write(s.replace(a, b))
r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'))
print(r.stdout[-1500:])
