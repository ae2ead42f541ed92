#!/usr/bin/env python3
"""
Make the planted bugs of tools/seeds/*.py (kept apart from the checks; nothing a check runs reads them).

A definition has: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
usage: seed.py [id...]   confirms each one in a scratch copy of /repo and writes /verif/seeded/<id>/
"""
import sys, os, json, shutil, subprocess, runpy, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True, env=env)


def do(path):
    d = runpy.run_path(path)
    id_ = os.path.basename(path)[:-3]
    tmp = tempfile.mkdtemp(prefix='seed-')
    repo = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % repo)
        for f, old, new in d['EDITS']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d occurrences of %r' % (id_, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        out = os.path.join(OUT, id_)
        new = os.path.join(tmp, 'seed')
        os.makedirs(new)
        open(os.path.join(new, 'patch.diff'), 'w').write(diff)
        open(os.path.join(new, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
        open(os.path.join(new, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3-vt -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(new, 'demo.sh'), 0o755)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
                  open(os.path.join(new, 'meta.json'), 'w'), indent=1)
        ok = sh('sh %s/demo.sh' % new, '/repo')
        if ok.returncode:
            return '%s: demo fails on the unchanged tree\n%s' % (id_, ok.stderr[-800:])
        bad = sh('sh %s/demo.sh' % new, repo)
        if not bad.returncode:
            return '%s: demo passes with the change' % id_
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests', repo,
               dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, PYTHONHASHSEED='0'))
        if t.returncode:
            return '%s: the tests notice\n%s' % (id_, t.stdout[-1500:])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(new, out)
        return '%s: ok' % id_
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or [os.path.basename(i)[:-3] for i in sorted(glob.glob(HERE + '/seeds/*.py'))]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda i: do('%s/seeds/%s.py' % (HERE, i)), ids):
            print(r)
